"""P15: files. A model of a directory (name -> what a read through the schema returns) is kept beside
the real one over sequences of writes, reads and refused writes."""

import io
import os
import shutil
import sys
import tempfile

from vmon import core, gen, model
from vmon.build import build, describe_spec, scheme
from vmon.core import StructuralError, attempt, same
from props import P10, P11, P13, P14
from props.common import canonical_values, outbound, xml_gen, xml_text

Format = scheme.Format
formats = scheme.formats
CLASSES = {'json': formats.Json, 'yaml': formats.Yaml, 'xml': formats.Xml, 'csv': formats.Csv,
    'structuredtext': formats.StructuredText, 'urlencoded': formats.UrlEncoded}
EXTENSIONS = {'json': ['.json'], 'yaml': ['.yaml', '.yml'], 'xml': ['.xml'], 'csv': ['.csv'], 'structuredtext': [],
    'urlencoded': []}
MIMETYPES = {'json': 'application/json', 'yaml': 'application/x-yaml', 'xml': 'application/xml', 'csv': 'application/csv',
    'structuredtext': 'text/plain', 'urlencoded': 'application/x-www-form-urlencoded'}
NAMES = sorted(CLASSES)


class Broken(Exception):
    pass


UTF8 = sys.getfilesystemencoding().lower().replace('-', '') == 'utf8'


class FailingFormat(scheme.Format):
    name = 'vmon-failing'
    extensions = ['.vmonfails']

    @classmethod
    def serialize(cls, value, schema=None, **params):
        raise Broken('serialize')

    @classmethod
    def unserialize(cls, value, schema=None, **params):
        raise Broken('unserialize')


class TextlessFormat(scheme.Format):
    name = 'vmon-textless'
    given = None

    @classmethod
    def serialize(cls, value, schema=None, **params):
        return cls.given


def material(rng, name):
    """A schema, and (value to write, value a read returns) pairs the format can carry."""
    bounds = dict(p_bounds=0.3, p_default=0.1, p_nonnull=0.1, max_members=3)
    if name == 'json':
        g = gen.Gen(rng, simple=[t for t in P10.SIMPLE if t != 'field'], containers=('structure', 'sequence', 'map', 'tuple'),
            map_keys=('text', 'enumeration', 'token', 'date'), **bounds)
        spec = g.spec(rng.choice([0, 1, 2]))
        found = [(v, v) for v in serializable(spec, canonical_values(rng, spec, 4)) if P10.finite(outbound(spec, v))]
    elif name == 'yaml':
        g = gen.Gen(rng, simple=[t for t in P11.SIMPLE if t != 'field'], containers=('structure', 'sequence', 'map', 'tuple'),
            texts=P11.text, map_keys=('text', 'enumeration', 'token', 'date'), **bounds)
        spec = g.spec(rng.choice([0, 1, 2]))
        found = [(v, v) for v in serializable(spec, canonical_values(rng, spec, 4, texts=P11.text))]
    elif name == 'xml':
        spec = xml_gen(rng, **bounds).spec(rng.choice([0, 1, 2]))
        found = [(v, v) for v in serializable(spec, canonical_values(rng, spec, 4, texts=xml_text))]
    elif name == 'csv':
        members = [(k, {'t': rng.choice(['integer', 'text', 'boolean', 'date', 'float']), 'strip': False})
            for k in rng.sample(['a', 'b', 'c', 'two words'], rng.randrange(1, 4))]
        item = {'t': 'structure', 'members': members}
        spec = {'t': 'sequence', 'item': item}
        found = []
        for _ in range(3):
            rows = [r for r in serializable(item, canonical_values(rng, item, rng.randrange(5), texts=P13.text, null=0, odd=True, extra=False))]
            forms = [outbound(item, r) for r in rows]
            found.append((rows, [dict((k, r[k]) for k in r if f[k] not in (None, '')) for r, f in zip(rows, forms)]))
    else:
        g = gen.Gen(rng, simple=P14.SIMPLE, containers=('structure', 'sequence', 'map', 'tuple'), p_name=0.2,
            enumerations='text', texts=P14.plain_text, map_keys=('text', 'enumeration', 'token'), **bounds)
        spec = g.spec(rng.choice([1, 2]), 'structure')
        found = [(v, v) for v in serializable(spec, canonical_values(rng, spec, 6, texts=P14.plain_text))
            if v is not None and P14.suitable(outbound(spec, v))]
    return spec, found


def serializable(spec, values):
    found = []
    for value in values:
        try:
            outbound(spec, value)
        except model.Undecided:
            continue
        found.append(value)
    return found


def any_case(rng, text):
    return ''.join(c.upper() if rng.random() < 0.5 else c for c in text)


def listing(root):
    found = {}
    for folder, folders, files in os.walk(root):
        for name in files:
            path = os.path.join(folder, name)
            with io.open(path, 'rb') as f:
                found[os.path.relpath(path, root)] = f.read()
        for name in folders:
            found[os.path.relpath(os.path.join(folder, name), root)] = 'folder'
    return found


def ways(rng, name):
    """How a format may be named, or None for by extension."""
    choices = [name, CLASSES[name], MIMETYPES[name]]
    return rng.choice(choices)


def case(ctx, rng, index):
    root = tempfile.mkdtemp(prefix='vmon15-')
    try:
        session(ctx, rng, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def session(ctx, rng, root):
    os.mkdir(os.path.join(root, 'd.json'))
    stems = ['a', 'b.c', 'two words', '\u00e9' if UTF8 else 'e', 'd.json/x', 'A.xml']
    written = {}     # relative path -> (format name, spec, field, value a read returns, rng material)
    for _ in range(12):
        before = listing(root)
        step = rng.randrange(10)
        name = rng.choice(NAMES)
        spec, pairs = material(rng, name)
        field = build(spec)
        detail = {'schema': describe_spec(spec)}
        if step <= 4 and pairs:
            value, expected = rng.choice(pairs)
            by_extension = EXTENSIONS[name] and rng.random() < 0.5
            if by_extension:
                relative = rng.choice(stems) + any_case(rng, rng.choice(EXTENSIONS[name]))
                given = None
            else:
                # an explicit format wins over any extension
                relative = rng.choice(stems) + rng.choice(['', '.txt', '.json', '.XML', '.yaml', '.csv', '.unknown'])
                given = ways(rng, name)
            path = os.path.join(root, relative)
            if os.path.isdir(path):
                continue
            style = rng.randrange(3)
            form = outbound(spec, value)
            if style == 0:
                outcome = attempt(field.write, path, value, given)
            elif style == 1:
                outcome = attempt(Format.write, path, form, given, field)
            else:
                outcome = attempt(CLASSES[name].write, path, form, None if given or rng.random() < 0.5 else name, field)
                given = given or name
            ctx.check(outcome.kind == 'ok', 'a valid value is not written', path=relative, format=name, given=given,
                value=value, observed=outcome, **detail)
            after = listing(root)
            ctx.check(set(after) == set(before) | {relative} and all(after[k] == v for k, v in before.items()
                if k != relative), 'a write touches other files', path=relative, before=before, after=after)
            written[relative] = (name, spec, field, expected)
            text = attempt(CLASSES[name].serialize, form, field)
            ctx.check(after[relative] == text.value.encode('utf-8'), 'the file holds something else than the serialized value',
                path=relative, content=after[relative], expected=text)
            ctx.count('writes')
            ctx.seen('write', name, relative, expected)
        elif step == 5:
            # a refused value
            target = rng.choice(sorted(written) + ['new.json', 'new.yaml'])
            bad = None
            for _ in range(8):
                candidate = gen.mutate(rng, rng.choice(pairs)[0], 2) if pairs else gen.wild(rng)
                try:
                    verdict = model.process(spec, candidate, 'outbound', True)
                except model.Undecided:
                    continue
                if not verdict.ok:
                    bad = (candidate,)
                    break
            if not bad:
                continue
            outcome = attempt(field.write, os.path.join(root, target), bad[0], rng.choice([name, CLASSES[name]]))
            ctx.check(outcome.kind == 'error', 'an invalid value is not refused by a write', value=bad[0], observed=outcome,
                **detail)
            ctx.check(listing(root) == before, 'a refused write touches files', target=target)
            ctx.count('refused_values')
        elif step == 6 and pairs:
            # unknown formats, for values which would be fine
            value = rng.choice(pairs)[0]
            target = rng.choice(sorted(written) + ['new.json'])
            unknown = rng.choice(['nope', 'application/nope', 'JSON', 'json ', object, ('json',)])
            function, data = (field.write, value) if rng.random() < 0.5 else (Format.write, outbound(spec, value))
            outcome = attempt(function, os.path.join(root, target), data, unknown)
            ctx.check(outcome.kind == 'other' and type(outcome.value) is ValueError, 'an unknown format is not refused',
                format=unknown, observed=outcome)
            target = rng.choice(['x.unknown', 'noextension', 'json', '.json', 'x.jsonx', 'x.json.bak', 'x.txt'])
            outcome = attempt(function, os.path.join(root, target), data)
            ctx.check(outcome.kind == 'other' and type(outcome.value) is ValueError, 'an unknown extension is not refused',
                path=target, observed=outcome)
            ctx.check(listing(root) == before, 'a refused write touches files', target=target)
            ctx.count('unknown_formats')
        elif step == 7:
            # a serialization which fails
            target = rng.choice(sorted(written) + ['new.json', 'new.vmonfails'])
            way = rng.randrange(6)
            path = os.path.join(root, target)
            if way == 0:
                outcome = attempt(scheme.Integer().write, path, 3, rng.choice(['vmon-failing', FailingFormat]))
                right = outcome.kind == 'other' and type(outcome.value) is Broken
            elif way == 1:
                outcome = attempt(Format.write, path, {'a': object()}, 'json')
                right = outcome.kind == 'other' and isinstance(outcome.value, TypeError)
            elif way == 2:
                # text which no file can hold
                rows = scheme.Sequence(scheme.Structure({'a': scheme.Text()}))
                outcome = attempt(rows.write, path, [{'a': 'fine'}, {'a': rng.choice(['\ud800', 'x' * 9000 + '\udcff', 'a\udfffb'])}], 'csv')
                right = outcome.kind == 'other' and isinstance(outcome.value, ValueError)
            elif way == 3:
                TextlessFormat.given = rng.choice([None, 5, {'a': 1}, ['text'], object()])
                outcome = attempt(scheme.Integer().write, path, 3, rng.choice(['vmon-textless', TextlessFormat]))
                right = outcome.kind == 'other'
            else:
                outcome = attempt(scheme.Integer().write, path, 3, 'urlencoded')
                right = outcome.kind == 'other' and isinstance(outcome.value, ValueError)
            ctx.check(right, 'a failing serialization is not reported', way=way, observed=outcome)
            ctx.check(listing(root) == before, 'a failing serialization touches files', target=target, way=way)
            ctx.count('failing_serializations')
        elif step == 8:
            # missing files
            missing = os.path.join(root, rng.choice(['missing.json', 'missing', 'no/such.yaml', 'missing.unknown']))
            for given in (None, name, 'nope'):
                for function in (Format.read, CLASSES[name].read):
                    outcome = attempt(function, missing, given, quiet=True)
                    ctx.check(outcome.kind == 'ok' and outcome.value is False, 'a quiet read of a missing file is not false',
                        observed=outcome)
                    outcome = attempt(function, missing, given)
                    ctx.check(outcome.kind == 'other' and isinstance(outcome.value, ValueError),
                        'reading a missing file is not an error', observed=outcome)
                outcome = attempt(field.read, missing, given)
                ctx.check(outcome.kind == 'other' and isinstance(outcome.value, ValueError),
                    'reading a missing file is not an error', observed=outcome)
            ctx.check(listing(root) == before, 'reading touches files')
            ctx.count('missing_reads')
        for relative, (name, spec, field, expected) in sorted(written.items()):
            if step != 9 and rng.random() < 0.5:
                continue
            path = os.path.join(root, relative)
            extension = os.path.splitext(relative)[1].lower()
            given = ways(rng, name)
            if extension in EXTENSIONS[name] and rng.random() < 0.6:
                given = None
            outcome = attempt(field.read, path, given)
            ctx.check(outcome.kind == 'ok' and same(outcome.value, expected), 'another value is read', path=relative,
                format=name, given=given, expected=expected, observed=outcome, schema=describe_spec(spec),
                content=before.get(relative))
            raw = attempt(Format.read, path, given, field, quiet=rng.random() < 0.5)
            again = attempt(field.process, raw.value, 'inbound', True)
            ctx.check(core.same_outcome(outcome, again), 'a plain read gives other data', path=relative, raw=raw)
            # a format class reads as itself whatever the extension; a format named explicitly wins over the class
            asked, way = rng.choice([(CLASSES[name], None), (CLASSES[name], None), (CLASSES[rng.choice(NAMES)], ways(rng, name))])
            direct = attempt(asked.read, path, way, field)
            ctx.check(core.same_outcome(direct, raw), 'a format class reads a file otherwise', path=relative, format=name, asked=asked.name,
                given=way, observed=direct, expected=raw)
            ctx.count('reads')
            unknown = attempt(rng.choice([field.read, Format.read, CLASSES[name].read]), path, rng.choice(['nope', 'application/nope', '.nope', 'JSON', object]))
            ctx.check(unknown.kind == 'other' and type(unknown.value) is ValueError, 'a file is read in an unknown format', path=relative, observed=unknown)
            known = any(extension in e for e in EXTENSIONS.values()) or extension == '.vmonfails'
            if not known:
                outcome = attempt(field.read, path)
                ctx.check(outcome.kind == 'other' and isinstance(outcome.value, ValueError),
                    'an unknown extension is read', path=relative, observed=outcome)
    ctx.sample(sorted(written))
