"""P32: construction accepts valid parameters, and refuses invalid ones up front."""

import datetime as dt
import decimal
import re

from vmon import core, gen, model
from vmon.build import build, children, describe_spec, walk
from vmon.core import attempt, same, scheme, snapshot

F = scheme.fields
UNDEFINED = scheme.field.Undefined
OFFSET = dt.timezone(dt.timedelta(hours=2))


class Callable(object):
    def __call__(self, *args):
        return args


def kinds(rng):
    """A value of each kind a parameter may be given."""
    return {
        'none': None, 'int': rng.choice([0, 1, 7, 10 ** 12]), 'negative': -rng.randrange(1, 50), 'bool': rng.choice([True, False]),
        'float': rng.choice([0.5, -3.25, 1e9]), 'decimal': decimal.Decimal(rng.choice(['1.5', '-3', '0.001'])),
        'text': rng.choice(['words here', '-', 'x1y', '+', '(nothing)']), 'empty': '', 'decimal-text': rng.choice(['1.5', '-3', '1e5']),
        'date-text': rng.choice(['2012-05-06', '1999-12-31']), 'time-text': rng.choice(['12:30:00', '00:00:59']),
        'datetime-text': rng.choice(['2012-05-06T12:30:00Z', '1999-12-31T00:00:00Z']),
        'date': dt.date(rng.randrange(1, 9999), 3, 4), 'time': dt.time(rng.randrange(24), 5), 'datetime': dt.datetime(rng.randrange(1900, 2100), 3, 4),
        'aware': dt.datetime(2001, 3, 4, tzinfo=OFFSET), 'bytes': b'abc', 'list': [rng.choice([1, 'a', None])], 'empty-list': [], 'texts': ['a', 'b'],
        'tuple': (1, 'a'), 'empty-tuple': (), 'dict': {'a': 1}, 'empty-dict': {}, 'object': object(), 'function': len, 'class': F.Integer,
        'field': F.Integer(), 'fields': [F.Integer(), F.Text()], 'field-tuple': (F.Integer(), F.Text()), 'mixed': [F.Integer(), 3],
        'classes': [F.Integer], 'members': {'a': F.Integer(), 'b': F.Text()}, 'bad-members': {'a': F.Integer(), 'b': 'text'},
        'class-members': {'a': F.Text}, 'variants': {'one': {'a': F.Integer()}, 'two': {}}, 'bad-variants': {'one': {'a': 3}},
        'set': {1, 2}, 'undefined': UNDEFINED(), 'expression': re.compile('a+'), 'natives': [1, 'a', None, 2.5, True], 'unnatives': [1, object()],
        'decimals': [decimal.Decimal(1)], 'complex': 2j, 'exception': ValueError('x'),
    }


INTS = {'int', 'negative', 'bool'}
LENGTHS = {'int', 'bool'}
COLLECTIONS = {'list', 'empty-list', 'texts', 'tuple', 'empty-tuple', 'natives'}
TEXTS = {'text', 'empty', 'decimal-text', 'date-text', 'time-text', 'datetime-text'}


def identity(value):
    return value


def split(value):
    return value.split(' ') if isinstance(value, str) else value


def as_date(value):
    return dt.datetime.strptime(value, '%Y-%m-%d').date() if isinstance(value, str) else value


def as_time(value):
    return dt.datetime.strptime(value, '%H:%M:%S').time() if isinstance(value, str) else value


def as_instant(value):
    if isinstance(value, str):
        return dt.datetime.strptime(value, '%Y-%m-%dT%H:%M:%SZ').replace(tzinfo=dt.timezone.utc)
    return value if value.tzinfo else value.replace(tzinfo=dt.timezone.utc)


# (type, parameter, the other parameters, accepted kinds, kinds not decided, what is recorded)
def table():
    rows = []
    for name in ('minimum', 'maximum'):
        rows += [(F.Integer, name, {}, INTS, set(), identity), (F.Float, name, {}, {'float'}, set(), identity),
            (F.Decimal, name, {}, {'decimal', 'decimal-text'}, set(), lambda v: decimal.Decimal(v)),
            (F.Date, name, {}, {'date', 'date-text'}, {'datetime', 'aware'}, as_date), (F.Time, name, {}, {'time', 'time-text'}, set(), as_time),
            (F.DateTime, name, {}, {'datetime', 'aware', 'datetime-text'}, set(), as_instant)]
    for name in ('min_length', 'max_length'):
        for cls, params in ((F.Text, {}), (F.Binary, {}), (F.Sequence, {'item': F.Text()})):
            rows.append((cls, name, params, LENGTHS, set(), identity))
    rows += [
        (F.Text, 'pattern', {}, {'expression'} | TEXTS, {'text', 'decimal-text', 'field'}, lambda v: re.compile(v) if isinstance(v, str) else v),
        (F.Sequence, 'item', {}, {'field', 'undefined'}, set(), identity),
        (F.Map, 'value', {}, {'field', 'undefined'}, set(), identity),
        (F.Map, 'key', {'value': F.Text()}, {'field'}, {'undefined'}, identity),
        (F.Map, 'required_keys', {'value': F.Text()}, COLLECTIONS | TEXTS | {'fields', 'field-tuple', 'mixed', 'classes', 'unnatives', 'decimals'},
            {'fields', 'field-tuple', 'mixed', 'classes', 'unnatives', 'decimals', 'empty'}, split),
        (F.Tuple, 'values', {}, {'fields', 'field-tuple'}, set(), tuple),
        (F.Union, 'fields', {}, {'fields', 'field-tuple'}, set(), tuple),
        (F.Structure, 'structure', {}, {'members', 'empty-dict'}, set(), identity),
        (F.Structure, 'structure', {'polymorphic_on': 'kind'}, {'variants', 'empty-dict'}, set(), identity),
        (F.Structure, 'polymorphic_on', {'structure': 'variants'}, {'text', 'date-text', 'time-text', 'decimal-text', 'datetime-text'},
            {'none', 'empty', 'int', 'bool', 'empty-list', 'empty-tuple', 'empty-dict', 'field', 'float', 'undefined'}, None),
        (F.Structure, 'key_order', {'structure': 'members'}, {'texts', 'text', 'list', 'natives', 'date-text', 'time-text', 'decimal-text',
            'datetime-text'}, {'none', 'empty', 'int', 'bool', 'empty-list', 'empty-tuple', 'empty-dict', 'float', 'fields', 'mixed', 'classes',
            'unnatives', 'decimals', 'natives', 'list'}, split),
        (F.Enumeration, 'enumeration', {}, COLLECTIONS | TEXTS, {'dict', 'empty-dict', 'set', 'bytes', 'members', 'bad-members', 'class-members',
            'variants', 'bad-variants', 'empty', 'empty-list', 'empty-tuple', 'class', 'field', 'undefined', 'empty'}, split),
        (F.Enumeration, 'ignored_values', {'enumeration': ['a']}, {'list', 'empty-list', 'texts', 'natives'} | TEXTS, {'empty'}, split),
        (F.Surrogate, 'valid_surrogates', {}, {'texts'} | TEXTS, None, None),
    ]
    return rows


TABLE = table()
OPTIONAL = {'none'}


def given(params, found):
    params = dict((k, found[v] if v in ('variants', 'members') and k == 'structure' else v) for k, v in params.items())
    if 'structure' in params:
        params['structure'] = dict((k, dict(v) if isinstance(v, dict) else v) for k, v in params['structure'].items())
    return params


def parameters(ctx, rng):
    for cls, name, others, accepted, undecided, recorded in rng.sample(TABLE, 12):
        if undecided is None:
            continue
        optional = name not in ('item', 'value', 'values', 'fields', 'structure', 'enumeration')
        found = kinds(rng)
        for kind in rng.sample(sorted(found), 14):
            value = found[kind]
            if kind in undecided:
                continue
            fine = kind in accepted or optional and kind == 'none'
            if name == 'pattern' and kind in TEXTS and fine:
                try:
                    re.compile(value)
                except re.error:
                    fine = False
            params = given(others, found)
            if cls is F.Structure and kind in ('members', 'variants', 'bad-variants') and name == 'structure':
                value = dict((k, dict(v) if isinstance(v, dict) else v) for k, v in value.items())
            made = attempt(cls, **dict(params, **{name: value}))
            detail = {'type': cls.__name__, 'parameter': name, 'value': value, 'kind': kind, 'others': sorted(params), 'observed': made}
            if not fine:
                ctx.check(made.kind == 'other' and isinstance(made.value, (TypeError, ValueError, re.error)),
                    'an invalid parameter is not refused at construction', **detail)
                ctx.count('refused')
            else:
                ctx.check(made.kind == 'ok' and type(made.value) is cls, 'a valid parameter is refused at construction', **detail)
                if recorded and value is not None:
                    wanted, kept = recorded(value), getattr(made.value, name)
                    if name == 'structure':
                        good = set(kept) == set(wanted) if 'polymorphic_on' not in params else set(kept) == set(value)
                    elif isinstance(wanted, dt.datetime):
                        good = kept == wanted
                    elif isinstance(wanted, scheme.Field) or isinstance(wanted, UNDEFINED):
                        good = kept is wanted
                    elif isinstance(wanted, tuple) and any(isinstance(w, scheme.Field) for w in wanted):
                        good = len(kept) == len(wanted) and all(a is b for a, b in zip(kept, wanted))
                    else:
                        good = same(kept, wanted) or name == 'pattern' and kept.pattern == wanted.pattern
                    ctx.check(good, 'a parameter is recorded as something else', recorded=kept, expected=wanted, **detail)
                elif value is None:
                    ctx.check(getattr(made.value, name) is None, 'an absent parameter is recorded as something else', **detail)
                ctx.count('accepted')
                positional = attempt(cls, value, **params) if name in ('item', 'value', 'values', 'fields', 'enumeration') and not params else None
                ctx.check(positional is None or positional.kind == 'ok', 'a valid parameter is refused by position', **detail)
            ctx.seen(cls.__name__, name, kind, repr(value)[:60])


def basic(rng):
    """A field of each type, by its class and the parameters it needs."""
    return rng.choice([(F.Integer, {}), (F.Float, {}), (F.Decimal, {}), (F.Boolean, {}), (F.Date, {}), (F.Time, {}), (F.DateTime, {}), (F.Text, {}),
        (F.Token, {}), (F.Email, {}), (F.UUID, {}), (F.Binary, {}), (F.Enumeration, {'enumeration': ['a']}), (F.Sequence, {'item': F.Text()}),
        (F.Map, {'value': F.Text()}), (F.Tuple, {'values': [F.Text()]}), (F.Union, {'fields': [F.Text()]}), (F.Structure, {'structure': {'a': F.Text()}}),
        (F.Surrogate, {}), (F.Object, {}), (F.Definition, {}), (F.Error, {}), (scheme.Field, {})])


def hook(*args):
    return args


def general(ctx, rng):
    """The parameters which every field takes."""
    for _ in range(6):
        cls, params = basic(rng)
        chosen = {}
        for name, values in (('name', ['x', 'some_name']), ('description', ['a text', u'\u00e9']), ('title', ['Title']), ('notes', ['notes']),
                ('nonnull', [True, False]), ('required', [True, False]), ('ignore_null', [True, False]), ('instantiator', [hook, Callable()]),
                ('extractor', [hook, Callable()]), ('preprocessor', [hook, Callable()]), ('weight', [3, 'heavy']), ('audience', [['a'], {'b': 1}])):
            if rng.random() < 0.4:
                chosen[name] = rng.choice(values)
        given_aspects = None
        if rng.random() < 0.4:
            given_aspects = {'weight': 9, 'other': 'aspect'}
        nonempty = rng.random() < 0.3
        extra = dict(chosen)
        if given_aspects is not None:
            extra['aspects'] = given_aspects
        if nonempty:
            extra['nonempty'] = True
        for name in ('nothing', '_private'):
            if rng.random() < 0.3:
                extra[name] = None if name == 'nothing' else 5
        made = attempt(cls, **dict(params, **extra))
        detail = {'type': cls.__name__, 'parameters': extra, 'observed': made}
        ctx.check(made.kind == 'ok', 'valid parameters are refused', **detail)
        field = made.value
        wanted = {'name': None, 'description': None, 'title': None, 'notes': None, 'nonnull': False, 'required': False, 'ignore_null': False,
            'instantiator': None, 'extractor': None, 'constant': None, 'default': None, 'weight': None, 'audience': None, 'other': None}
        wanted.update(given_aspects or {})
        wanted.update(chosen)
        wanted.pop('preprocessor', None)
        if nonempty:
            wanted.update(nonnull=True, required=True)
        for name, value in wanted.items():
            kept = getattr(field, name)
            ctx.check(same(kept, value) or (value is not None and kept is value), 'a parameter of every field is recorded as something else',
                parameter=name, recorded=kept, expected=value, **detail)
        if 'preprocessor' in chosen:
            ctx.check(field.preprocessor is chosen['preprocessor'] or getattr(field.preprocessor, '__func__', None) is chosen['preprocessor'],
                'a preprocessor is recorded as something else', **detail)
        aspects = dict(given_aspects or {})
        aspects.update((k, chosen[k]) for k in ('weight', 'audience') if k in chosen)
        ctx.check(same(dict(field.aspects), aspects), 'aspects are recorded differently', expected=aspects, recorded=field.aspects, **detail)
        described = attempt(field.describe)
        if described.kind == 'ok':
            for name in ('name', 'description', 'title', 'notes'):
                ctx.check(same(described.value.get(name), wanted[name]), 'a parameter is described as something else', parameter=name,
                    description=described.value, **detail)
            for name in ('nonnull', 'required', 'ignore_null'):
                ctx.check(bool(described.value.get(name)) == wanted[name], 'a parameter is described as something else', parameter=name,
                    description=described.value, **detail)
            ctx.check(described.value.get('fieldtype') == cls.__name__.lower(), 'a type is described as another', description=described.value, **detail)
        if nonempty and cls in (F.Text, F.Binary):
            ctx.check(field.min_length == 1 and cls(nonempty=True, min_length=3).min_length == 3 and cls(nonempty=True, min_length=0).min_length == 0,
                'the length of a nonempty field differs', **detail)
        for name in ('instantiator', 'extractor'):
            path = rng.choice(['os.path.join', 'props.P32.hook', 'json:dumps'])
            by_path = attempt(cls, **dict(params, **{name: path}))
            ctx.check(by_path.kind == 'ok' and getattr(by_path.value, name) is scheme.util.import_object(path), 'a hook given by path is not recorded',
                hook=name, path=path, observed_path=by_path, **detail)
            nowhere = attempt(cls, **dict(params, **{name: 'nowhere.at.all'}))
            ctx.check(nowhere.kind == 'other' and isinstance(nowhere.value, ImportError), 'a hook which cannot be found is accepted', hook=name,
                observed_hook=nowhere, **detail)
        ctx.count('general')
        ctx.seen('general', cls.__name__, repr(sorted(extra)))


def conflicts(ctx, rng):
    refused = [
        lambda: F.Email(multiple=True, extended=True),
        lambda: F.Structure({'a': F.Text(default='x')}, generate_default='a'),
        lambda: F.Structure({'a': F.Text()}, generate_default=5),
        lambda: F.Structure({'x': {'a': F.Text(default='x')}}, polymorphic_on='kind', generate_default='y'),
        lambda: F.Structure({'x': {'a': F.Text(default='x')}}, polymorphic_on='kind', generate_default=True),
        lambda: F.Structure({'x': F.Text()}, polymorphic_on='kind'),
        lambda: F.Structure({'x': {'a': F.Text}}, polymorphic_on='kind'),
        lambda: F.Structure({'a': F.Structure}),
        lambda: F.Structure([('a', F.Text())]),
        lambda: F.Structure(None),
        lambda: F.Sequence(None), lambda: F.Sequence(F.Text), lambda: F.Sequence([F.Text()]), lambda: F.Map(None), lambda: F.Map(F.Text),
        lambda: F.Tuple([]), lambda: F.Tuple(F.Text()), lambda: F.Tuple([None]), lambda: F.Union([]), lambda: F.Union(F.Text()),
        lambda: F.Union((F.Text(), None)), lambda: F.Structure(), lambda: F.Sequence(), lambda: F.Map(), lambda: F.Tuple(), lambda: F.Union(),
        lambda: F.Enumeration(), lambda: F.Enumeration(None), lambda: F.Enumeration([object()]), lambda: F.Enumeration(['a'], ignored_values=('b',)),
        lambda: F.Definition(valid_fields=['nothing']), lambda: F.Definition(valid_fields=7), lambda: F.Surrogate(7),
        lambda: scheme.Field.reconstruct({'fieldtype': 'nothing'}), lambda: scheme.Field.reconstruct({}), lambda: scheme.Field.reconstruct(None),
        lambda: scheme.Field.reconstruct(5), lambda: scheme.Field.reconstruct('nothing'), lambda: scheme.Field.reconstruct({'fieldtype': 'sequence'}),
        lambda: scheme.Field.reconstruct({'fieldtype': 'integer', 'minimum': '3'}), lambda: scheme.Field.reconstruct('integer', minimum='3'),
        lambda: scheme.Field.reconstruct({'fieldtype': 'text', 'max_length': -2}),
        lambda: scheme.Field.reconstruct({'fieldtype': 'tuple', 'values': []}),
        lambda: scheme.Field.reconstruct({'fieldtype': 'structure', 'structure': [1]}),
    ]
    for number in rng.sample(range(len(refused)), 12):
        outcome = attempt(refused[number])
        ctx.check(outcome.kind == 'other' and isinstance(outcome.value, (TypeError, ValueError)), 'what cannot be constructed is accepted',
            number=number, observed=outcome)
        ctx.count('conflicts')
    accepted = [lambda: F.Email(multiple=True), lambda: F.Email(extended=True), lambda: F.Structure({}), lambda: scheme.Field.reconstruct('text'),
        lambda: scheme.Field.reconstruct('integer', minimum=3), lambda: F.Structure({'x': {}}, polymorphic_on=F.Text(name='kind')),
        lambda: F.Structure({1: {}, 2: {}}, polymorphic_on=F.Integer(name='kind')), lambda: F.Structure({'a': F.Text()}, generate_default=False),
        lambda: F.Enumeration('a b c'), lambda: F.Map(F.Text(), required_keys='a b'), lambda: F.Structure({'a': F.Text(), 'b': F.Text()}, key_order='b a'),
        lambda: scheme.Field.reconstruct(F.Text())]
    for number, make in enumerate(accepted):
        outcome = attempt(make)
        ctx.check(outcome.kind == 'ok' and isinstance(outcome.value, scheme.Field), 'what can be constructed is refused', number=number, observed=outcome)


def native_default(spec):
    value = spec.get('default')
    if value is None:
        value = spec.get('constant')
    return value


def defaults(ctx, rng):
    spec = gen.Gen(rng, p_default=0.5, p_constant=0.25, simple=tuple(t for t in gen.ALL_SIMPLE if t not in ('datetime', 'field')), odd=False).spec(
        rng.choice([1, 2]), 'structure')
    field = build(spec)
    detail = {'schema': describe_spec(spec)}
    identities = [None] if not spec.get('on') else sorted(field.structure, key=repr)
    whole = {}
    for identity in identities:
        wanted = expected_defaults(spec, identity)
        for sparse in (True, False):
            outcome = attempt(field.generate_defaults, identity, sparse)
            filtered = dict((k, v) for k, v in wanted.items() if not sparse or v is not None)
            ctx.check(outcome.kind == 'ok' and same(outcome.value, filtered), 'generated defaults differ', identity=identity, sparse=sparse,
                expected=filtered, observed=outcome, **detail)
            ctx.check(snapshot(outcome.value) == snapshot(attempt(field.generate_defaults, identity, sparse).value), 'defaults generated twice differ',
                **detail)
            spoil(outcome.value)
            again = attempt(field.generate_defaults, identity, sparse)
            ctx.check(same(again.value, filtered), 'altering generated defaults altered the schema', expected=filtered, observed=again, **detail)
            ctx.count('defaults_generated')
        whole[identity] = dict((k, v) for k, v in expected_defaults(spec, identity).items() if v is not None)
    if spec.get('on'):
        outcome = attempt(field.generate_defaults)
        ctx.check(outcome.kind == 'ok' and same(outcome.value, whole), 'the defaults of all variants differ', expected=whole, observed=outcome, **detail)
    plain = F.Structure({'a': F.Integer(default=1)})
    for odd in (0, '', False):
        outcome = attempt(plain.generate_defaults, odd)
        ctx.check(outcome.kind == 'other' and type(outcome.value) is ValueError, 'defaults of a variant of no variants are generated', identity=odd,
            observed=outcome)
        kind = {int: F.Integer, str: F.Text, bool: F.Boolean}[type(odd)]
        variants = F.Structure({odd: {'a': F.Integer(default=1)}, type(odd)(1): {'b': F.Integer(default=2)}}, polymorphic_on=kind(name='kind'))
        for identity, member, value in ((odd, 'a', 1), (type(odd)(1), 'b', 2)):
            outcome = attempt(variants.generate_defaults, identity)
            ctx.check(outcome.kind == 'ok' and same(outcome.value, {'kind': identity, member: value}), 'the defaults of a variant differ',
                identity=identity, observed=outcome)
    for bad in ('no such identity', 5000, object()):
        outcome = attempt(field.generate_defaults, bad)
        ctx.check(outcome.kind == 'other' and type(outcome.value) is ValueError, 'defaults of no variant are generated', observed=outcome, **detail)
    # a structure whose default is generated
    made = attempt(lambda: F.Structure(dict(field.structure) if not spec.get('on') else dict((k, dict((n, f) for n, f in v.items() if n !=
        field.polymorphic_on.name)) for k, v in field.structure.items()), polymorphic_on=field.polymorphic_on.clone() if spec.get('on') else None,
        generate_default=True if not spec.get('on') else identities[0]))
    if spec.get('on') and not identities[0]:
        return
    ctx.check(made.kind == 'ok' and same(made.value.default or {}, whole[identities[0]]), 'the generated default of a structure differs',
        expected=whole[identities[0]], observed=made, **detail)
    outer = F.Structure({'inner': made.value})
    if whole[identities[0]]:
        ctx.check(same(outer.generate_defaults(), {'inner': whole[identities[0]]}), 'the generated default of a structure is not its default', **detail)
    ctx.seen('defaults', detail['schema'])


def expected_defaults(spec, identity):
    if not spec.get('on'):
        return dict((name, native_default(member)) for name, member in dict(spec['members']).items())
    found = dict((name, native_default(member)) for name, member in model.variant_members(spec, identity).items())
    found[model.discriminator(spec)['name']] = identity
    return found


def spoil(value):
    if isinstance(value, dict):
        for v in list(value.values()):
            spoil(v)
        value['spoiled'] = True
    elif isinstance(value, list):
        for v in value:
            spoil(v)
        value.append('spoiled')


def case(ctx, rng, index):
    parameters(ctx, rng)
    general(ctx, rng)
    conflicts(ctx, rng)
    defaults(ctx, rng)
