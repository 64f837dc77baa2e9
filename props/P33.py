"""P33: a reader reads every document of its format as the data it denotes, however it is spelled."""

import csv
import io
import json
import random
import urllib.parse
import xml.sax.saxutils

import yaml

from vmon import core, gen, model
from vmon.build import build, describe_spec, scheme
from vmon.core import attempt, same
from props.common import canonical_values, outbound, reads_back, xml_gen, xml_text
from props import P11, P13, P14

Format = scheme.Format


def case(ctx, rng, index):
    (json_documents, yaml_documents, xml_documents, csv_documents, url_documents)[index % 5](ctx, rng)
    if index % 40 < 5:
        bulk(ctx, rng, ('json', 'yaml', 'xml', 'csv', 'urlencoded')[index % 5])


def bulk(ctx, rng, format):
    """Documents of hundreds of entries."""
    F = scheme.fields
    count = rng.choice([101, 130, 257, 520, 1100])
    words = ['w%d' % rng.randrange(1000) for _ in range(count)]
    if rng.random() < 0.2:
        words[rng.randrange(count)] = 'long' * 3000
    entries = dict(('k%d' % n, w) for n, w in enumerate(words))
    both = F.Structure({'list': F.Sequence(F.Text()), 'map': F.Map(F.Text())}, name='both')
    value = {'list': words, 'map': entries}
    blank = rng.choice([' ', '\n', '\t ' if format == 'json' else '  '])
    if format == 'json':
        text = '{"map":%s{%s},"list":[%s]}' % (blank, (',' + blank).join('"%s":"%s"' % e for e in entries.items()), ('%s,' % blank).join('"%s"' % w for w in words))
    elif format == 'yaml':
        if rng.random() < 0.5:
            text = 'map:\n%slist:\n%s' % (''.join('    %s:   "%s"\n' % e for e in entries.items()), ''.join("- '%s'\n" % w for w in words))
        else:
            text = '{list: [%s], map: {%s}}' % (', '.join(words), ', '.join('"%s": %s' % e for e in entries.items()))
    elif format == 'xml':
        text = '<both><map>%s</map><list>%s</list></both>' % (''.join('<%s>%s%s</%s>%s' % (k, v[:2], v[2:].replace('w', '&#119;'), k, blank) for k, v in entries.items()),
            ''.join('<item>%s</item>%s' % (w, blank) for w in words))
    elif format == 'csv':
        if rng.random() < 0.5:
            both, value = F.Sequence(F.Structure({'a': F.Text(), 'b': F.Text()})), [{'a': w, 'b': k} for k, w in entries.items()]
            text = 'b,a\n' + ''.join('%s,"%s"\n' % e for e in entries.items())
        else:
            both, value = F.Sequence(F.Structure(dict((k, F.Text()) for k in entries))), [entries]
            text = ','.join(entries) + '\r\n' + ','.join('"%s"' % w for w in words) + '\r\n'
    else:
        both, value = (F.Map(F.Text()), entries) if rng.random() < 0.5 else (both, value)
        if value is entries:
            text = '&'.join('%s=%s' % (k, w.replace('w', '%77')) for k, w in entries.items())
        else:
            text = 'list=%%5B%s%%5D&map=%%7b%s%%7D' % (','.join(words), '%2C'.join('%s%%3A%s' % e for e in entries.items()))
    decide(ctx, both, text, format, value)
    ctx.count('bulk_documents')


def decide(ctx, field, text, format, value, **detail):
    """Through the schema, in one step and in two."""
    back = attempt(field.unserialize, text, format)
    ctx.check(back.kind == 'ok' and same(back.value, value), 'a document is read as another value', format=format,
        document=text, expected=value, observed=back, **detail)
    data = attempt(Format.unserialize, text, format, field)
    ctx.check(data.kind == 'ok', 'a document is not read', format=format, document=text, observed=data, **detail)
    again = attempt(field.unserialize, data.value)
    ctx.check(core.same_outcome(back, again), 'reading in two steps gives another value', format=format, document=text,
        observed=again, expected=back, **detail)
    ctx.count('documents_of_' + format)
    ctx.seen(format, text)


def values_of(rng, spec, count, **options):
    for value in canonical_values(rng, spec, count, **options):
        try:
            form = outbound(spec, value)
            if reads_back(spec, value):
                yield value, form
        except model.Undecided:
            pass


# ---------------------------------------------------------------- JSON

def json_spelling(rng, form):
    def text(value):
        result = []
        for c in value:
            n = ord(c)
            style = rng.randrange(8)
            if style == 0 or c in '"\\' or n < 32 or 0xd800 <= n < 0xe000:
                units = [n] if n < 0x10000 else [0xd800 + (n - 0x10000 >> 10), 0xdc00 + (n - 0x10000 & 0x3ff)]
                short = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\b': '\\b', '\f': '\\f', '/': '\\/'}
                if c in short and style % 2:
                    result.append(short[c])
                else:
                    result.append(''.join(rng.choice(['\\u%04x', '\\u%04X']) % u for u in units))
            else:
                result.append(c)
        return '"%s"' % ''.join(result)

    def space():
        return rng.choice(['', '', '', ' ', '\n', '\t', '\r\n', '  '])

    def write(value):
        if isinstance(value, dict):
            pairs = list(value.items())
            rng.shuffle(pairs)
            return '{%s%s}' % (space(), ','.join('%s%s%s:%s%s%s' % (space(), text(k if isinstance(k, str) else json.loads(json.dumps({k: 0}).split(':')[0][1:])), space(), space(), write(v),
                space()) for k, v in pairs))
        if isinstance(value, (list, tuple)):
            return '[%s%s]' % (space(), ','.join(space() + write(v) + space() for v in value))
        if isinstance(value, str):
            return text(value)
        return json.dumps(value)
    return space() + write(form) + space()


def json_documents(ctx, rng):
    g = gen.Gen(rng, simple=tuple(t for t in gen.ALL_SIMPLE if t not in ('binary', 'field')), p_poly=0.3, p_bounds=0.3, p_default=0.2,
        map_keys=('text', 'enumeration', 'token', 'integer'), containers=('structure', 'sequence', 'map', 'tuple'))
    spec = g.spec(rng.choice([1, 2, 3]))
    field = build(spec)
    for _ in range(4):
        any_text(ctx, rng)
    for value, form in values_of(rng, spec, 6):
        for _ in range(2):
            document = json_spelling(rng, form)
            if ordered(form):
                decide(ctx, field, document, 'json', value, schema=describe_spec(spec))
    ctx.sample(describe_spec(spec))


def any_text(ctx, rng):
    """Texts of what the escapes of the format are made of."""
    value = ''.join(rng.choice(['\\', '\\', '/', '"', 'n', 'u0041', 'u', '\n', ' ', '\u2028', '{', ',']) for _ in range(rng.randrange(8)))
    field = rng.choice([lambda: scheme.Text(strip=False), lambda: scheme.Map(scheme.Text(strip=False)), lambda: scheme.Sequence(scheme.Text(strip=False))])()
    data = {'text': value, 'map': {value: value}, 'sequence': [value, value]}[field.type]
    decide(ctx, field, json_spelling(rng, data), 'json', data, schema=repr(field))


def ordered(form):
    """Whether the data has finite numbers only, and each key once when written as text."""
    if isinstance(form, float):
        return form == form and form not in (float('inf'), float('-inf'))
    if isinstance(form, dict):
        return len(set(map(str, form))) == len(form) and all(ordered(v) for v in form.values())
    if isinstance(form, (list, tuple)):
        return all(ordered(v) for v in form)
    return True


# ---------------------------------------------------------------- YAML

def plain(value):
    if isinstance(value, dict):
        return dict((k, plain(v)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return value


class Dumper(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def yaml_documents(ctx, rng):
    g = gen.Gen(rng, simple=P11.SIMPLE, p_poly=0.3, p_bounds=0.3, texts=lambda r: P11.text(r), map_keys=('text', 'enumeration', 'token', 'integer'),
        containers=('structure', 'sequence', 'map', 'tuple'))
    spec = g.spec(rng.choice([1, 2, 3]))
    field = build(spec)
    for value, form in values_of(rng, spec, 6):
        form = plain(form)
        params = dict(default_flow_style=rng.choice([True, False, None]), default_style=rng.choice([None, None, '"', "'", '|', '>']),
            width=rng.choice([20, 80, 400]), indent=rng.choice([2, 4, 7]), allow_unicode=rng.random() < 0.5,
            explicit_start=rng.random() < 0.3, explicit_end=rng.random() < 0.3, sort_keys=rng.random() < 0.5,
            line_break=rng.choice(['\n', '\r\n', None]))
        document = attempt(yaml.dump, form, Dumper=rng.choice([Dumper, yaml.SafeDumper]), **params)
        if document.kind != 'ok' or not same(attempt(yaml.safe_load, document.value).value, form):
            # not every style of the writer is its own reader's
            ctx.count('yaml_writer_at_fault')
            continue
        text = document.value
        if rng.random() < 0.3 and not params['explicit_start']:
            text = '# a comment\n' + rng.choice(['', '---\n']) + text
        decide(ctx, field, text, 'yaml', value, schema=describe_spec(spec))
    ctx.sample(describe_spec(spec))


# ---------------------------------------------------------------- XML

def xml_spelling(rng, spec, form, name):
    def attributes(null):
        found = ['null=%s' % rng.choice(['"true"', "'true'"])] if null else []
        if rng.random() < 0.1:
            found.append('other="x &lt; y"')
        rng.shuffle(found)
        return ''.join(rng.choice([' ', '\n ']) + a for a in found)

    def characters(value):
        parts, at = [], 0
        while at < len(value):
            end = at + rng.randrange(1, 6)
            piece, at = value[at:end], end
            style = rng.randrange(6)
            if style == 0 and ']]>' not in piece and '\r' not in piece and not (piece.startswith(('>', ']>')) or piece.endswith((']', ']]'))):
                parts.append('<![CDATA[%s]]>' % piece)
            elif style == 1:
                parts.append(''.join(rng.choice(['&#%d;', '&#x%x;', '&#x%X;']) % ord(c) for c in piece))
            else:
                parts.append(xml.sax.saxutils.escape(piece, {'"': '&quot;', "'": '&apos;'} if rng.random() < 0.5 else {}))
        if rng.random() < 0.1:
            parts.insert(rng.randrange(len(parts) + 1), '<!-- between -->')
        return ''.join(parts)

    def between():
        return rng.choice(['', '', '\n', '\n  ', ' ', '<!-- c -->', '<?pi data?>', '\n\t<!-- <a> -->\n'])

    def element(spec, form, name):
        opening = name + attributes(form is None)
        children = None
        if form is None:
            children = []
        elif isinstance(form, dict):
            if spec['t'] == 'structure':
                members = model.form_members(spec, form)
            children = [element(members[k] if spec['t'] == 'structure' else spec['value'], v, k) for k, v in form.items()]
            rng.shuffle(children)
        elif isinstance(form, (list, tuple)):
            parts = [spec['item']] * len(form) if spec['t'] == 'sequence' else spec['values']
            children = [element(s, v, s.get('name') or rng.choice(['item', 'value', 'whatever'])) for s, v in zip(parts, form)]
        elif isinstance(form, bool):
            body = 'true' if form else 'false'
        else:
            body = characters(str(form))
            if spec['t'] in ('integer', 'float') and rng.random() < 0.2:
                body = rng.choice([' ', '\n']) + body + ' '
        if children is not None:
            body = ''.join(between() + c for c in children) + (between() if children else '')
        if not body and rng.random() < 0.5:
            return '<%s%s/>' % (opening, rng.choice(['', ' ', '\n']))
        return '<%s>%s</%s%s>' % (opening, body, name, rng.choice(['', '', ' ']))
    declaration = rng.choice(['', '<?xml version="1.0"?>', "<?xml version='1.0' encoding='UTF-8'?>", '<?xml version="1.0" encoding="utf-8"?>\n',
        '<?xml version="1.0" standalone="yes"?><!-- first -->', '<!-- first -->\n', '<!DOCTYPE %s>' % name])
    return declaration + element(spec, form, name) + rng.choice(['', '\n', '<!-- last -->'])


def xml_documents(ctx, rng):
    g = xml_gen(rng, p_poly=0.3, p_default=0.15, p_bounds=0.3, p_nonnull=0.15)
    spec = g.spec(rng.choice([0, 1, 2, 3]))
    field = build(spec)
    for value, form in values_of(rng, spec, 6, texts=xml_text, null=0.15):
        for _ in range(2):
            decide(ctx, field, xml_spelling(rng, spec, form, spec.get('name') or rng.choice(['root', 'document'])), 'xml', value,
                schema=describe_spec(spec))
    ctx.sample(describe_spec(spec))


# ---------------------------------------------------------------- CSV

def csv_documents(ctx, rng):
    g = gen.Gen(rng, simple=P13.SIMPLE, containers=(), p_required=0, p_default=0, p_ignore_null=0.1, p_nonnull=0.0, enumerations='text',
        texts=P13.text, p_ignored=0.0, p_name=0.0, p_bounds=0.3)
    members = []
    for name in rng.sample(P13.NAMES, rng.randrange(1, 6)):
        member = g.spec(0)
        for option in ('required', 'nonempty', 'nonnull'):
            member.pop(option, None)
        members.append((name, member))
    item = {'t': 'structure', 'members': members}
    spec = {'t': 'sequence', 'item': item}
    field = build(spec)
    for _ in range(4):
        rows = [v for v in canonical_values(rng, item, rng.choice([0, 1, 3, 8]), texts=P13.text, null=0.15, extra=False) if v is not None]
        forms = [outbound(item, row) for row in rows]
        columns = rng.sample([m[0] for m in members], rng.randrange(1, len(members) + 1))
        cells = [[P13.cell(form.get(c)) for c in columns] for form in forms]
        keep = [i for i, row in enumerate(cells) if any(row)]
        if rng.random() < 0.5:
            rows, forms, cells = [rows[i] for i in keep], [forms[i] for i in keep], [cells[i] for i in keep]
        end = rng.choice(['\n', '\r\n'])
        out = io.StringIO()
        writer = csv.writer(out, quoting=csv.QUOTE_ALL if len(keep) < len(cells) else rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL,
            csv.QUOTE_NONNUMERIC]), lineterminator=end)
        lines = []
        for row in [columns] + cells:
            out.seek(0)
            out.truncate()
            writer.writerow(row)
            lines.append(out.getvalue())
        if end == '\n' and any('\r' in c for row in cells for c in row):
            continue
        blank = rng.random() < 0.3
        document = ''.join(line + (end * rng.randrange(3) if blank and i < len(lines) - 1 else '') for i, line in enumerate(lines))
        style = rng.randrange(4)
        if style == 0 and document.endswith(end):
            document = document[:-len(end)]
        elif style == 1:
            document += end
        elif style == 2:
            document = end + document
        if not same([r for r in csv.reader(io.StringIO(document, newline='')) if r], [columns] + cells):
            continue
        expected = [dict((c, row[c]) for c in columns if form.get(c) not in (None, '')) for row, form in zip(rows, forms)]
        decide(ctx, field, document, 'csv', expected, schema=describe_spec(spec))
        ctx.count('blank_lines', int(blank))
    ctx.sample(describe_spec(spec))


# ---------------------------------------------------------------- queries

def url_documents(ctx, rng):
    def encode(text):
        result = []
        for byte in text.encode('utf-8'):
            c = chr(byte)
            style = rng.randrange(4)
            if c == ' ' and style < 3:
                result.append('+')
            elif byte < 128 and (c.isalnum() or c in '-_.~*') and style:
                result.append(c)
            elif c in "!'(),:;/?@$[]{}" and c not in ';' and style == 3:
                result.append(c)
            else:
                result.append(rng.choice(['%%%02x', '%%%02X']) % byte)
        return ''.join(result)
    g = gen.Gen(rng, simple=P14.SIMPLE, containers=('structure', 'sequence', 'map', 'tuple'), enumerations='text', texts=P14.plain_text,
        map_keys=('text', 'enumeration', 'token', 'integer'), p_bounds=0.3, p_poly=0.15)
    spec = g.spec(rng.choice([1, 2]), 'structure')
    field = build(spec)
    for value, form in values_of(rng, spec, 8, texts=P14.plain_text):
        if form is None or not P14.suitable(form):
            continue
        pairs = [(k, attempt(scheme.formats.StructuredText.serialize, v).value) for k, v in form.items()]
        rng.shuffle(pairs)
        if not same(dict(pairs), dict(urllib.parse.parse_qsl(urllib.parse.urlencode(pairs), keep_blank_values=True))):
            continue
        document = '&'.join('%s=%s' % (encode(k), encode(v)) for k, v in pairs)
        decide(ctx, field, document, 'urlencoded', value, schema=describe_spec(spec))
    ctx.sample(describe_spec(spec))
