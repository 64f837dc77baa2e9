"""P27: surrogates keep their implementation, version, schema and aspects."""

import copy
import json
import sys
import types

from vmon import core, gen, model, moves, oracle
from vmon.build import build, describe_spec
from vmon.core import StructuralError, attempt, same, scheme, snapshot
from vmon.moves import Bag
from props import P23
from props.common import canonical, canonical_values, has_kind, outbound, reads_back
from scheme.interpolation import Interpolator
from scheme.surrogate import surrogate

SIMPLE = tuple(t for t in gen.ALL_SIMPLE if t not in ('binary', 'field'))
counter = [0]


def implementations(rng, specs_of):
    """A module of surrogate classes: name -> list of schema specifications."""
    counter[0] += 1
    module = types.ModuleType('surrogates_of_case_%d' % counter[0])
    sys.modules[module.__name__] = module
    classes = {}
    for name, specs in specs_of.items():
        namespace = {'__module__': module.__name__}
        if specs:
            namespace['schemas'] = [build(s) for s in specs]
        cls = type(surrogate)(name, (surrogate,), namespace)
        setattr(module, name, cls)
        classes[name] = cls
    module.Nothing = type('Nothing', (object,), {'__module__': module.__name__})
    module.CONSTANT = 4
    return module, classes


def structure_spec(rng, **options):
    params = dict(simple=SIMPLE, p_constant=0, p_default=0.1, odd=False, containers=('structure', 'sequence', 'map', 'tuple'),
        map_keys=('text', 'enumeration', 'token'), texts=gen.PLAIN_TEXTS, p_name=0)
    params.update(options)
    g = gen.Gen(rng, **params)
    while True:
        spec = g.spec(rng.choice([1, 1, 2]), 'structure')
        for key in ('nonempty', 'default', 'ignore_null'):
            spec.pop(key, None)
        return spec


def whole_values(rng, spec, count):
    """Canonical values which extraction leaves as they are and which are read back."""
    for value in canonical_values(rng, spec, count, odd=False, texts=gen.PLAIN_TEXTS):
        if value is None:
            continue
        try:
            if reads_back(spec, value) and same(moves.extract(spec, value), value) and core.json_native(
                    outbound(spec, value)) is None:
                yield value
        except model.Undecided:
            pass


def wrong_surrogate(value, cls, aspects, version, schema=None):
    """None, or how a surrogate differs from what it should be."""
    if type(value) is not cls:
        return 'it is of %r' % type(value)
    if not same(dict(value), aspects):
        return 'its aspects are %r' % dict(value)
    if value.version != version:
        return 'its version is %r' % value.version
    if schema is None:
        return None if value.schema is None else 'it has a schema of its own'
    if value.schema is None:
        return 'it has no schema'
    if value.schema.describe() != schema.describe():
        return 'its schema is %r' % value.schema.describe()


def case(ctx, rng, index):
    names = ['Alpha', 'Beta', 'Gamma']
    specs_of = dict((n, [structure_spec(rng) for _ in range(rng.choice([1, 2, 3]))]) for n in names[:2])
    specs_of['Gamma'] = []
    module, classes = implementations(rng, specs_of)
    try:
        written = []
        for name in names[:2]:
            versioned(ctx, rng, module, classes[name], specs_of[name], written)
        for name in names[:2]:
            interpolated(ctx, rng, module, classes[name], specs_of[name])
            selected(ctx, rng, classes[name], specs_of[name])
        interpolated(ctx, rng, module, classes['Gamma'], [structure_spec(rng, p_default=0)], True)
        grown(ctx, rng, classes, specs_of, written)
        dynamic(ctx, rng, module, classes['Gamma'])
        free(ctx, rng, classes['Gamma'])
        fields(ctx, rng, module, classes, specs_of)
        spoilt(ctx, rng, module, classes, specs_of)
        hooks(ctx, rng, module)
    finally:
        del sys.modules[module.__name__]
        for token in [t for t in surrogate.cache if str(t).startswith(module.__name__ + '.')]:
            del surrogate.cache[token]
    ctx.sample('; '.join(describe_spec(s) for specs in specs_of.values() for s in specs))


def versioned(ctx, rng, module, cls, specs, written):
    token = module.__name__ + '.' + cls.__name__
    for number, spec in enumerate(specs, 1):
        for value in whole_values(rng, spec, 3):
            detail = {'schema': describe_spec(spec), 'version': number, 'of': len(specs), 'value': value}
            given = rng.choice([cls, token])
            version = None if number == len(specs) and rng.random() < 0.5 else number
            subject = value if rng.random() < 0.7 else Bag(value)
            before = snapshot(value)
            made = attempt(surrogate.construct if rng.random() < 0.7 else cls.construct, given, subject, version=version)
            ctx.check(made.kind == 'ok', 'a surrogate cannot be constructed', observed=made, **detail)
            problem = wrong_surrogate(made.value, cls, value, number)
            ctx.check(not problem, 'a constructed surrogate differs: %s' % problem, **detail)
            form = attempt(made.value.serialize)
            wanted = dict(outbound(spec, value), _=token)
            if number > 1:
                wanted['__version__'] = number
            ctx.check(form.kind == 'ok' and same(form.value, wanted), 'a surrogate serializes differently', expected=wanted,
                observed=form, **detail)
            problem = wrong_surrogate(made.value, cls, value, number)
            ctx.check(not problem and snapshot(value) == before, 'serializing changed the surrogate: %s' % problem, **detail)
            form_before = snapshot(form.value)
            for reader in (surrogate, cls):
                back = attempt(reader.unserialize, form.value)
                problem = wrong_surrogate(back.value, cls, value, number) if back.kind == 'ok' else back
                ctx.check(not problem, 'the restored surrogate differs: %s' % problem, form=form.value, **detail)
            ctx.check(snapshot(form.value) == form_before, 'restoring changed the serialized surrogate', form=form.value, **detail)
            extra = attempt(surrogate.construct, cls, value, version=number, **{'added': 1})
            ctx.check(extra.kind == 'ok' and same(dict(extra.value), dict(value, added=1)), 'an added aspect is lost', observed=extra,
                **detail)
            shown = repr(made.value)
            ctx.check(shown.startswith(token + '('), 'a surrogate is shown without its implementation', shown=shown)
            written.append((cls, number, spec, value, form.value))
            ctx.count('versioned')
            ctx.seen(detail['schema'], number, value)
        too_far = attempt(surrogate.construct, cls, {}, version=rng.choice([len(specs) + rng.randrange(1, 4), 0, -1, -len(specs)]))
        ctx.check(too_far.kind == 'other' and 'version' in str(too_far.value), 'a version which does not exist is accepted',
            observed=too_far)
    conflict = attempt(surrogate.construct, cls, {'a': 1}, schema=build(structure_spec(rng)))
    ctx.check(conflict.kind == 'other', 'a schema of its own is accepted for an implementation with schemas', observed=conflict)
    nothing = attempt(surrogate.construct, cls)
    ctx.check(nothing.kind == 'other' and type(nothing.value) is ValueError, 'a surrogate of nothing is accepted', observed=nothing)


def grown(ctx, rng, classes, specs_of, written):
    """Newer schemas are added; what was written stays readable."""
    for name in ('Alpha', 'Beta'):
        for _ in range(rng.choice([1, 2])):
            spec = structure_spec(rng)
            classes[name].schemas.append(build(spec))
            specs_of[name].append(spec)
    for cls, number, spec, value, form in written:
        back = attempt(surrogate.unserialize, json.loads(json.dumps(form)))
        problem = wrong_surrogate(back.value, cls, value, number) if back.kind == 'ok' and not has_kind(spec, 'tuple') else None
        ctx.check(back.kind == 'ok' and not problem, 'after newer versions were added, the restored surrogate differs: %s' % problem,
            form=form, observed=back, version=number)
        again = attempt(surrogate.unserialize, form)
        problem = wrong_surrogate(again.value, cls, value, number) if again.kind == 'ok' else again
        ctx.check(not problem, 'after newer versions were added, the restored surrogate differs: %s' % problem, form=form)
        once_more = attempt(again.value.serialize)
        ctx.check(once_more.kind == 'ok' and same(once_more.value, form), 'after newer versions were added, it is written differently',
            expected=form, observed=once_more)
        ctx.count('older_versions')


def dynamic(ctx, rng, module, cls):
    for impl in (surrogate, cls):
        spec = structure_spec(rng, p_default=0)
        schema = build(spec)
        token = core_token(impl, module)
        for value in whole_values(rng, spec, 3):
            detail = {'schema': describe_spec(spec), 'value': value, 'implementation': impl.__name__}
            made = attempt(surrogate.construct, impl, value, schema)
            ctx.check(made.kind == 'ok', 'a surrogate with a schema of its own cannot be constructed', observed=made, **detail)
            problem = wrong_surrogate(made.value, impl, value, None, schema)
            ctx.check(not problem, 'a constructed surrogate differs: %s' % problem, **detail)
            form = attempt(made.value.serialize)
            wanted = dict(outbound(spec, value), _=token, __schema__=schema.describe())
            ctx.check(form.kind == 'ok' and same(form.value, wanted), 'a surrogate serializes differently', expected=wanted,
                observed=form, **detail)
            before = snapshot(form.value)
            back = attempt(surrogate.unserialize, form.value)
            problem = wrong_surrogate(back.value, impl, value, None, schema) if back.kind == 'ok' else back
            ctx.check(not problem, 'the restored surrogate differs: %s' % problem, form=form.value, **detail)
            ctx.check(snapshot(form.value) == before, 'restoring changed the serialized surrogate', form=form.value, **detail)
            again = attempt(back.value.serialize)
            ctx.check(again.kind == 'ok' and same(again.value, form.value), 'a restored surrogate is written differently',
                expected=form.value, observed=again, **detail)
            if text_keys(form.value):
                through = attempt(surrogate.unserialize, json.loads(json.dumps(form.value)))
                problem = wrong_surrogate(through.value, impl, value, None, schema) if through.kind == 'ok' else through
                ctx.check(not problem, 'through JSON, the restored surrogate differs: %s' % problem, form=form.value, **detail)
            ctx.count('dynamic')
            ctx.seen('dynamic', detail['schema'], value)


def interpolated(ctx, rng, module, cls, specs, dynamic=False):
    """Surrogates written with references: the schema of the version stated, or else of the latest, is used."""
    token = module.__name__ + '.' + cls.__name__
    field = scheme.fields.Surrogate(rng.choice([None, [token]]))
    for number, spec in enumerate(specs, 1):
        for value in whole_values(rng, spec, 2):
            world = P23.World(rng)
            subject = P23.subject_for(world, spec, value)
            if not isinstance(subject, dict) or isinstance(subject, moves.Template):
                continue
            try:
                wanted = moves.expected(moves.interpolate, spec, subject, world.parameters)
            except model.Undecided:
                continue
            subject, parameters = P23.unpicked(subject), P23.unpicked(world.parameters)
            schema = build(spec) if dynamic else None
            source = dict(subject, _=token)
            if dynamic:
                source['__schema__'] = schema.describe()
            elif number < len(specs) or rng.random() < 0.5:
                source['__version__'] = number
            given, way = source, rng.choice(['direct', 'field', 'within', 'reference'])
            if way == 'reference':
                parameters['the_surrogate'] = source
                given = '${the_surrogate}'
            before = snapshot(source), snapshot(parameters)
            detail = {'schema': describe_spec(spec), 'subject': source, 'parameters': parameters, 'way': way}
            handed, own = parameters, None
            if rng.random() < 0.3:
                # an interpolator which knows the parameters by itself
                handed, own = {'unused_zz': 1}, Interpolator(globals=parameters)
                detail['way'] += ', own interpolator'
            if way == 'direct':
                made = attempt(surrogate.interpolate, given, handed, own)
            elif way == 'within':
                made = attempt(lambda: scheme.fields.Sequence(field).interpolate([given], handed, own)[0])
            else:
                made = attempt(field.interpolate, given, handed, own)
            if wanted[0] == 'ok':
                problem = wrong_surrogate(made.value, cls, P23.unpicked(wanted[1]), None if dynamic else number, schema) if made.kind == 'ok' else made
                ctx.check(not problem, 'an interpolated surrogate differs: %s' % problem, expected=wanted, **detail)
                held = attempt(field.interpolate, made.value, parameters)
                ctx.check(held.kind == 'ok' and held.value is made.value, 'a surrogate is interpolated once more', observed=held, **detail)
                ctx.count('interpolated')
            else:
                ctx.check(not moves.mismatch(wanted, made), 'interpolating a surrogate fails otherwise', observed=made, expected=wanted, **detail)
            ctx.check((snapshot(source), snapshot(parameters)) == before, 'interpolating changed what it was given', **detail)
    for wrong in (5, ['x'], True, dict(_=token, __version__=rng.choice([len(specs) + 1, 0, -1])) if not dynamic else dict(_=token)):
        outcome = attempt(field.interpolate, wrong, {})
        ctx.check(outcome.kind == 'other' and type(outcome.value) is ValueError, 'what is no surrogate is interpolated', value=wrong,
            observed=outcome)
    ctx.check(attempt(field.interpolate, None, {}).value is None, 'nothing is interpolated to something')


def selected(ctx, rng, cls, specs):
    """Of a mapping or object with more than the schema asks for, the schema selects."""
    number = rng.randrange(len(specs)) + 1
    spec = specs[number - 1]
    for value in whole_values(rng, spec, 2):
        for subject, strict in ((dict(value, undeclared=1), True), (dict(reversed(list(value.items())), more='x'), True), (Bag(dict(value, extra=1)), False)):
            try:
                wanted = moves.expected(moves.extract, spec, subject, strict)
            except model.Undecided:
                continue
            before = snapshot(dict(subject) if strict else dict(vars(subject)))
            made = attempt(surrogate.construct, cls, subject, version=number)
            if wanted[0] == 'ok':
                problem = wrong_surrogate(made.value, cls, wanted[1], number) if made.kind == 'ok' else made
                ctx.check(not problem, 'a surrogate holds other than what its schema selects: %s' % problem, schema=describe_spec(spec), value=subject)
                ctx.count('selected')
            else:
                ctx.check(not moves.mismatch(wanted, made), 'a surrogate is constructed otherwise', observed=made, expected=wanted, value=subject)
            ctx.check(snapshot(dict(subject) if strict else dict(vars(subject))) == before, 'constructing changed what was given', value=subject)


def text_keys(value):
    if isinstance(value, dict):
        return all(isinstance(k, str) and text_keys(v) for k, v in value.items())
    return not isinstance(value, (list, tuple)) or all(text_keys(v) for v in value)


def core_token(impl, module):
    return 'scheme.surrogate.surrogate' if impl is surrogate else module.__name__ + '.' + impl.__name__


def free(ctx, rng, cls):
    """Surrogates without any schema."""
    for impl in (surrogate, cls):
        value = dict((rng.choice(gen.KEYS), gen.wild_json(rng) if hasattr(gen, 'wild_json') else rng.choice([1, 'a', None, [1], {'b': 2}]))
            for _ in range(rng.randrange(1, 4)))
        made = attempt(surrogate.construct, impl, value)
        problem = wrong_surrogate(made.value, impl, value, None) if made.kind == 'ok' else made
        ctx.check(not problem, 'a constructed surrogate differs: %s' % problem, value=value)
        form = made.value.serialize()
        back = attempt(surrogate.unserialize, form)
        problem = wrong_surrogate(back.value, impl, value, None) if back.kind == 'ok' else back
        ctx.check(not problem, 'the restored surrogate differs: %s' % problem, value=value, form=form)
        direct = impl(value)
        ctx.check(same(direct.serialize(), form) and direct == value, 'a surrogate made directly differs', value=value)
        ctx.count('free')


def fields(ctx, rng, module, classes, specs_of):
    """Surrogate fields, alone and within containers."""
    F = scheme.fields
    tokens = dict((n, module.__name__ + '.' + n) for n in classes)
    plain = 'scheme.surrogate.surrogate'
    pool = []
    for name in ('Alpha', 'Beta'):
        number = rng.randrange(len(specs_of[name])) + 1
        spec = specs_of[name][number - 1]
        for value in whole_values(rng, spec, 2):
            pool.append((tokens[name], surrogate.construct(classes[name], value, version=number), value, number, None, spec))
    spec = structure_spec(rng, p_default=0)
    schema = build(spec)
    for value in whole_values(rng, spec, 1):
        pool.append((tokens['Gamma'], surrogate.construct(classes['Gamma'], value, schema), value, None, schema, spec))
        pool.append((plain, surrogate.construct(None, value, schema), value, None, schema, spec))
    pool.append((plain, surrogate({'id': 1}), {'id': 1}, None, None, None))
    allowed = rng.choice([None, [tokens['Alpha']], [tokens['Alpha'], plain], [tokens['Gamma'], tokens['Beta']], [plain],
        # what resembles a token is not one
        [tokens['Alpha'][:-1], tokens['Beta'] + 'x', tokens['Gamma'].upper(), tokens['Gamma'].split('.')[-1], module.__name__]])
    given = allowed
    if allowed and rng.random() < 0.4:
        given = rng.choice([' '.join(allowed), tuple(allowed)])
    field = F.Surrogate(given, name='ref')
    for token, made, value, version, own, spec in pool:
        detail = {'allowed': allowed, 'implementation': token, 'value': value}
        accepted = allowed is None or token in allowed
        form = made.serialize()
        before = snapshot(form)
        outcomes = [attempt(field.process, made, 'inbound', False), attempt(field.process, made, 'inbound', True),
            attempt(field.unserialize, form), attempt(field.process, made, 'outbound', False)]
        for outcome in outcomes:
            if accepted:
                problem = wrong_surrogate(outcome.value, type(made), value, version, own) if outcome.kind == 'ok' else outcome
                ctx.check(not problem, 'a surrogate of an allowed implementation is not accepted as it is: %s' % problem, **detail)
            else:
                ctx.check(outcome.kind == 'error' and tokens_of(outcome.value) == ['invalid-surrogate'],
                    'a surrogate of another implementation is not refused', observed=outcome, **detail)
        ctx.check(snapshot(form) == before, 'reading changed the serialized surrogate', form=form, **detail)
        written = attempt(field.serialize, made)
        if accepted:
            ctx.check(written.kind == 'ok' and same(written.value, form), 'a surrogate is serialized differently by a field',
                observed=written, expected=form, **detail)
            for format in ('json', 'yaml'):
                if not text_keys(form):
                    continue
                text = attempt(field.serialize, made, format)
                back = attempt(field.unserialize, text.value, format) if text.kind == 'ok' else text
                problem = wrong_surrogate(back.value, type(made), value, version, own) if back.kind == 'ok' else back
                ctx.check(not problem, 'through %s, the restored surrogate differs: %s' % (format, problem), text=text, **detail)
        else:
            ctx.check(written.kind == 'error', 'a surrogate of another implementation is serialized', observed=written, **detail)
        ctx.count('field_accepted' if accepted else 'field_refused')
        refused = attempt(field.process, dict(value), 'inbound', False)
        ctx.check(refused.kind == 'error' and tokens_of(refused.value) == ['invalid'], 'a mapping passes as a surrogate', observed=refused)
        damaged(ctx, rng, field, form, spec, value, token, detail, accepted)
    for wrong in (1, 'text', [], None, True, 2.5, b'x', object()):
        outcome = attempt(field.unserialize, wrong)
        ctx.check(outcome.kind == 'ok' and outcome.value is None if wrong is None else outcome.kind == 'error'
            and tokens_of(outcome.value) == ['invalid'], 'what is no surrogate is accepted', value=wrong, observed=outcome)
    whole = F.Structure({'one': field.clone(), 'many': F.Sequence(field.clone()), 'named': F.Map(field.clone())})
    good = [p for p in pool if allowed is None or p[0] in allowed]
    if good:
        made = dict((k, v) for k, v in {'one': good[0][1], 'many': [p[1] for p in good], 'named': {'k': good[-1][1]}}.items())
        form = whole.serialize(made)
        before = snapshot(form)
        back = attempt(whole.unserialize, form)
        ctx.check(back.kind == 'ok' and not wrong_surrogate(back.value['one'], type(good[0][1]), *good[0][2:5]) and len(
            back.value['many']) == len(good) and all(not wrong_surrogate(b, type(p[1]), *p[2:5]) for b, p in zip(back.value['many'], good))
            and not wrong_surrogate(back.value['named']['k'], type(good[-1][1]), *good[-1][2:5]),
            'surrogates within containers are not restored', observed=back, form=form)
        ctx.check(snapshot(form) == before, 'reading changed serialized surrogates within containers', form=form)
        ctx.count('contained')


def spoilt(ctx, rng, module, classes, specs_of):
    """Surrogates whose aspects do not meet their schema are reported where they are, read or written."""
    F = scheme.fields
    name = rng.choice(['Alpha', 'Beta'])
    number = rng.randrange(len(specs_of[name])) + 1
    spec = rng.choice([specs_of[name][number - 1], structure_spec(rng, p_default=0)])
    own = None if spec is specs_of[name][number - 1] else build(spec)
    whole = F.Structure({'one': F.Surrogate(), 'many': F.Sequence(F.Surrogate()), 'named': F.Map(F.Surrogate())}, name='root')
    for value in whole_values(rng, spec, 2):
        bad = gen.mutate(rng, value, 2)
        if not isinstance(bad, dict) or '_' in bad or '__schema__' in bad or '__version__' in bad:
            continue
        place, hold = rng.choice([('root.one', lambda v: {'one': v}), ('root.many[1]', lambda v: {'many': [surrogate({'a': 1}), v]}),
            ('root.named[k]', lambda v: {'named': {'k': v}}), ('ref', None)])
        field = whole if hold else F.Surrogate(name='ref')
        for phase in ('outbound', 'inbound'):
            try:
                expected = model.process(spec, bad, phase, True, path=place)
            except (model.Undecided, model.Undef):
                continue
            if expected.ok:
                continue
            made = (surrogate if own else classes[name])(bad, own, None if own else number)
            if phase == 'inbound':
                made = dict(bad, _=core_token(surrogate, module) if own else module.__name__ + '.' + name)
                made.update({'__schema__': own.describe()} if own else {'__version__': number})
            outcome = attempt(field.process, hold(made) if hold else made, phase, True)
            detail = {'schema': describe_spec(spec), 'value': bad, 'phase': phase, 'place': place}
            ctx.check(outcome.kind == 'error', 'a surrogate which does not meet its schema passes', observed=outcome, **detail)
            error = outcome.value
            if hold:
                error = error.structure[place[5:].partition('[')[0]]
                if place.endswith(']'):
                    error = error.structure[1 if place.endswith('[1]') else 'k']
            problem = oracle.wrong_error(error, expected)
            ctx.check(not problem, 'the report of a surrogate differs: %s' % problem, observed=outcome, **detail)
            ctx.count('spoilt_' + phase)


def tokens_of(error):
    return [e['token'] for e in error.errors]


def leaves(error):
    if error.structure is None:
        return [error]
    parts = error.structure.values() if isinstance(error.structure, dict) else error.structure
    return [leaf for part in parts if isinstance(part, StructuralError) for leaf in leaves(part)]


def damaged(ctx, rng, field, form, spec, value, token, detail, accepted):
    """Serialized surrogates with something wrong are refused with a structural error."""
    bad = dict(form)
    kind = rng.choice(['version', 'foreign', 'constant', 'aspect', 'schema', 'unknown'])
    if kind == 'version':
        if '__schema__' in form or spec is None:
            return
        bad['__version__'] = rng.choice([99, 'x', None, 2.5, [], 10 ** 30, 0, -1, -99])
    elif kind == 'foreign':
        bad['_'] = rng.choice(['os.path', 'builtins.dict', 'json.loads', token.rpartition('.')[0] + '.Nothing', token.rpartition('.')[0] + '.CONSTANT',
            ['x'], {}, 'collections.OrderedDict'])
        if bad['_'] == 'scheme.surrogate.Nothing' or bad['_'] == 'scheme.surrogate.CONSTANT':
            return
    elif kind == 'aspect':
        if spec is None:
            return
        bad['undeclared-aspect'] = 1
        if not spec.get('strict', True):
            return
    elif kind == 'schema':
        bad['__schema__'] = rng.choice([{}, {'fieldtype': 'nothing'}, {'fieldtype': 'integer'}, 'text', 4, [], {'a': 1}, None])
        if spec is None:
            return
    elif kind == 'unknown':
        bad = dict(value if core.json_native(value) is None else {'a': 1})
        wanted = dict(bad)
        bad['_'] = rng.choice(['nowhere.Such', 'scheme.surrogate.Gone', 'scheme.gone', 5, 'text', '.', '', token + 'x', token + '.Gone.more'])
        outcome = attempt(field.unserialize, bad)
        if detail['allowed'] is None or 'scheme.surrogate.surrogate' in detail['allowed']:
            problem = wrong_surrogate(outcome.value, surrogate, wanted, None) if outcome.kind == 'ok' else outcome
            ctx.check(not problem, 'a surrogate of an unknown implementation is not plain: %s' % problem, form=bad, **detail)
        else:
            ctx.check(outcome.kind == 'error', 'a surrogate of an unknown implementation is not refused', form=bad, observed=outcome, **detail)
        ctx.count('unknown_implementation')
        return
    else:
        bad = rng.choice([[], {'_': None, '__schema__': 1}, 'text'])
    before = snapshot(bad)
    outcome = attempt(field.unserialize, bad)
    ctx.check(outcome.kind == 'error', 'a damaged serialized surrogate (%s) is not refused' % kind, form=bad, observed=outcome, **detail)
    for leaf in leaves(outcome.value):
        ctx.check(''.join(leaf.identity).startswith('ref'), 'an error within a surrogate is reported at another place', place=leaf.identity, form=bad,
            **detail)
    ctx.check(snapshot(bad) == before, 'refusing changed the serialized surrogate', form=bad, **detail)
    ctx.count('damaged_' + kind)


def hooks(ctx, rng, module):
    """Implementations which contribute aspects, and which acquire surrogates."""
    F = scheme.fields

    class Contributing(surrogate):
        schemas = [F.Structure({'id': F.Integer(required=True)}),
            F.Structure({'id': F.Integer(required=True), 'label': F.Text()})]

        @classmethod
        def contribute(cls, value, version):
            if version > 1:
                value['label'] = 'item %d' % value['id']

        @classmethod
        def _acquire_surrogate(cls, version, **params):
            return Bag({'id': params['id'], 'other': 1})
    Contributing.surrogate = module.__name__ + '.Contributing'
    module.Contributing = Contributing
    number = rng.randrange(100)
    for version in (1, 2, None):
        wanted = {'id': number} if version == 1 else {'id': number, 'label': 'item %d' % number}
        for way in ('construct', 'acquire'):
            if way == 'construct':
                made = attempt(surrogate.construct, Contributing, {'id': number}, version=version)
            else:
                made = attempt(surrogate.acquire, rng.choice([Contributing, Contributing.surrogate]), version, id=number)
            problem = wrong_surrogate(made.value, Contributing, wanted, version or 2) if made.kind == 'ok' else made
            ctx.check(not problem, 'a surrogate with contributed aspects differs (%s): %s' % (way, problem), version=version)
            back = attempt(surrogate.unserialize, made.value.serialize())
            problem = wrong_surrogate(back.value, Contributing, wanted, version or 2) if back.kind == 'ok' else back
            ctx.check(not problem, 'a restored surrogate with contributed aspects differs: %s' % problem, version=version)
    held = Contributing.construct(None, {'id': number}, version=1)
    Contributing._acquire_surrogate = classmethod(lambda cls, version, **params: held)
    made = attempt(surrogate.acquire, Contributing, rng.choice([1, 2, None]))
    ctx.check(made.kind == 'ok' and made.value is held, 'an acquired surrogate is replaced by another', observed=made)
    # aspects given by name alone
    for impl, version in ((Contributing, 1), (surrogate, None)):
        made = attempt(surrogate.construct, impl, version=version, id=number, other='x')
        problem = wrong_surrogate(made.value, impl, {'id': number, 'other': 'x'}, version) if made.kind == 'ok' else made
        ctx.check(not problem, 'aspects given by name are lost: %s' % problem)
    for what, call in (('an implementation without schemas', lambda: surrogate.acquire(surrogate)),
            ('an object without a schema', lambda: surrogate.construct(None, Bag({'id': 1}))),
            ('a value without a schema', lambda: surrogate.construct(None, rng.choice([5, 'text', [1]])))):
        outcome = attempt(call)
        ctx.check(outcome.kind == 'other' and type(outcome.value) is ValueError, '%s gives a surrogate' % what, observed=outcome)
    # aspects given by name prevail over those of the value, which stays as it was
    for impl, version in ((Contributing, 1), (surrogate, None)):
        value = {'id': number, 'kept': [1]} if impl is surrogate else {'id': number}
        before = snapshot(value)
        given = {'id': number + 1, 'other': 'x'} if rng.random() < 0.7 else {'other': 'y'}
        made = attempt(surrogate.construct, impl, value, version=version, **given)
        problem = wrong_surrogate(made.value, impl, dict(value, **given), version) if made.kind == 'ok' else made
        ctx.check(not problem, 'aspects given by name do not prevail over the value: %s' % problem, value=value, given=given)
        ctx.check(snapshot(value) == before, 'constructing changed the mapping it was given', value=value, given=given)
    # implementations contribute to surrogates which are interpolated, of whatever schema, as to constructed ones
    schema = F.Structure({'id': F.Integer(required=True)})

    class Telling(surrogate):
        @classmethod
        def contribute(cls, value, version):
            value['told'] = version
    Telling.surrogate = module.__name__ + '.Telling'
    module.Telling = Telling
    field = F.Surrogate()
    for impl, version, told in ((Contributing, 1, {}), (Contributing, 2, {'label': 'item %d' % number}), (Telling, None, {'told': None})):
        source = {'_': impl.surrogate, 'id': '${x}'}
        if impl is Telling:
            source['__schema__'] = schema.describe()
        else:
            source['__version__'] = version
        made = attempt(rng.choice([surrogate.interpolate, field.interpolate]), source, {'x': number})
        problem = wrong_surrogate(made.value, impl, dict(told, id=number), version, schema if impl is Telling else None) if made.kind == 'ok' else made
        ctx.check(not problem, 'an interpolated surrogate with contributed aspects differs: %s' % problem, source=source)
    made = attempt(surrogate.construct, Telling, {'id': number}, schema)
    problem = wrong_surrogate(made.value, Telling, {'id': number, 'told': None}, None, schema) if made.kind == 'ok' else made
    ctx.check(not problem, 'a surrogate with contributed aspects and a schema of its own differs: %s' % problem)
    ctx.count('hooks', 18)
