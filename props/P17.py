"""P17: every input is answered with a value or the library's structural error, in bounded time.

The reference model has no say here: the monitor judges which exceptions escape, that reports can be
shown and serialized, and the CPU time of each call."""

import collections
import datetime as dt
import decimal
import io
import math
import time
import types

from vmon import core, gen
from vmon.build import build, describe_spec, scheme, walk
from vmon.core import StructuralError, UndefinedFieldError, ValidationError, attempt
from props.common import PHASES, serialized_form, valid_or_none

REFERENCES = ('object', 'definition', 'error', 'surrogate')
SECONDS = 6.0


class Str(str):
    pass


class Int(int):
    pass


class Float(float):
    pass


class Dict(dict):
    pass


class List(list):
    pass


Pair = collections.namedtuple('Pair', 'a b')

HOSTILE = [lambda r: '\ud800', lambda r: 'a\udfffb', lambda r: '\x00', lambda r: Str('abc'), lambda r: Int(3),
    lambda r: Float(1.5), lambda r: Dict(a=1), lambda r: List([1, 'a']), lambda r: Pair(1, 'x'),
    lambda r: collections.OrderedDict([('b', 1), ('a', 2)]), lambda r: collections.defaultdict(list, a=[1]),
    lambda r: 10 ** r.choice([30, 308, 309, 400, 4000]), lambda r: -10 ** 400, lambda r: '9' * r.choice([30, 310, 3000]),
    lambda r: float('nan'), lambda r: float('-inf'), lambda r: 'nan', lambda r: '-Infinity', lambda r: '1e999999999',
    lambda r: decimal.Decimal('1e400'), lambda r: decimal.Decimal('-Infinity'), lambda r: decimal.Decimal('NaN'),
    lambda r: complex(1, float('nan')), lambda r: set([1, 'a']), lambda r: frozenset(), lambda r: bytearray(b'ab'),
    lambda r: memoryview(b'ab'), lambda r: range(3), lambda r: iter([1, 2]), lambda r: (x for x in 'ab'),
    lambda r: int, lambda r: object, lambda r: len, lambda r: math, lambda r: Ellipsis, lambda r: NotImplemented,
    lambda r: object(), lambda r: (lambda: 1), lambda r: dt.timedelta(1), lambda r: dt.timezone.utc,
    lambda r: dt.datetime.max, lambda r: dt.datetime.min, lambda r: dt.date.max, lambda r: dt.date.min,
    lambda r: dt.datetime.max.replace(tzinfo=dt.timezone(dt.timedelta(hours=-14))),
    lambda r: dt.datetime.min.replace(tzinfo=dt.timezone(dt.timedelta(hours=14))),
    lambda r: dt.time(1, 2, 3, 4, tzinfo=dt.timezone.utc), lambda r: dt.datetime(2000, 1, 1, 0, 0, 0, 5),
    lambda r: '0000-01-01', lambda r: '9999-99-99', lambda r: '2001-02-30', lambda r: '24:00:00', lambda r: '23:59:61',
    lambda r: '10000-01-01', lambda r: '0000-00-00T00:00:00Z', lambda r: '9999-12-31T23:59:60Z', lambda r: '-001-01-01',
    lambda r: '\u0661\u0662', lambda r: '1_0', lambda r: '0x10', lambda r: '++1', lambda r: '\u00b2', lambda r: '=',
    lambda r: '=====', lambda r: 'YQ', lambda r: 'YQ==\n', lambda r: '\u00e9' * 4, lambda r: b'YQ=', lambda r: b'\xff\xfe',
    lambda r: ValueError('x'), lambda r: slice(1), lambda r: type('T', (), {})(), lambda r: StructuralError({'token': 'x'}),
    lambda r: scheme.Integer(), lambda r: scheme.Field, lambda r: scheme.surrogate({'a': 1})]

REFERENCE_INPUTS = [lambda r: 'math', lambda r: 'math.pi', lambda r: 'math:pi', lambda r: 'os.path:join', lambda r: 'math.nope',
    lambda r: 'nope.nope', lambda r: 'a..b', lambda r: '.', lambda r: ':', lambda r: 'a:b:c', lambda r: 'math:', lambda r: ':pi',
    lambda r: '..math', lambda r: 'math.', lambda r: 'math.pi.real', lambda r: '\u00e9.x', lambda r: 'a\x00b',
    lambda r: {'_': r.choice(['math.pi', 'nope', '', None, 1, [], 'scheme.surrogate.surrogate', 'scheme.Integer', 'builtins.dict',
        'math', 'builtins:print', {}]),
        r.choice(['__schema__', '__version__', 'a']): r.choice([None, 1, 0, -1, 99, 'x', [], {}, {'fieldtype': 'integer'},
        {'fieldtype': 'nope'}, {'fieldtype': 'structure', 'structure': {'a': {'fieldtype': 'integer'}}},
        {'fieldtype': []}, {'structure': {}}])},
    lambda r: description(r, 2), lambda r: description(r, 3),
    lambda r: (r.choice([None, [], [{'token': 'x', 'title': 't', 'message': 'm'}], [1], 'x', [[]], {}]),
        r.choice([None, {}, [], {'a': [{'token': 'x'}]}, [None, [{'token': 'y'}]], 'x', 3, [[[]]], {'a': 1}])),
    lambda r: [1, 2], lambda r: (None, None), lambda r: [[], []], lambda r: ((), ())]


def description(r, depth):
    kind = r.choice(['integer', 'float', 'decimal', 'text', 'boolean', 'date', 'time', 'datetime', 'enumeration', 'sequence',
        'map', 'tuple', 'union', 'structure', 'definition', 'object', 'error', 'surrogate', 'email', 'token', 'uuid', 'binary',
        'nope', None, 1, []])
    result = {'fieldtype': kind}
    for _ in range(r.randrange(4)):
        name = r.choice(['item', 'value', 'key', 'values', 'fields', 'structure', 'polymorphic_on', 'enumeration', 'minimum',
            'maximum', 'min_length', 'max_length', 'pattern', 'default', 'constant', 'errors', 'name', 'required_keys', 'strict',
            'unique', 'segments', 'valid_fields', 'extra', 'nonnull', 'key_order', '__type__'])
        inner = description(r, depth - 1) if depth else {'fieldtype': 'text'}
        result[name] = r.choice([inner, inner, [inner], {'a': inner}, {'a': {'b': inner}}, None, 1, 'a', '[', [], {}, ['a'], -1])
    return result


class Wide(gen.Gen):
    """Also generates the fields which refer to other things."""

    def _object(self, spec, depth):
        pass

    _error = _object

    def _definition(self, spec, depth):
        if self.chance(0.4):
            spec['valid_fields'] = self.rng.choice(['integer', 'text integer', ['structure'], ['text', 'map']])

    def _surrogate(self, spec, depth):
        if self.chance(0.4):
            spec['valid_surrogates'] = self.rng.choice(['math.pi a.b', ['scheme.surrogate.surrogate']])

    def try_valid(self, spec):
        if any(s['t'] in REFERENCES for s in walk(spec)):
            return None
        return gen.Gen.try_valid(self, spec)


def hostile(rng, references, depth=2):
    n = rng.randrange(12 if depth else 8)
    if n <= 3:
        return rng.choice(HOSTILE)(rng)
    if n <= 5 and references or n == 4:
        return rng.choice(REFERENCE_INPUTS)(rng)
    if n <= 7:
        return gen.wild(rng)
    if n == 8:
        return [hostile(rng, references, depth - 1) for _ in range(rng.randrange(4))]
    if n == 9:
        return tuple(hostile(rng, references, depth - 1) for _ in range(rng.randrange(4)))
    result = {}
    for _ in range(rng.randrange(4)):
        key = rng.choice(gen.KEYS + ['kind', 'type', 'extra'])
        if rng.random() < 0.15:
            key = rng.choice([None, True, 1, 1.5, (), (1, 'a'), b'a', float('nan'), dt.date(2000, 1, 1), decimal.Decimal(1),
                '', '\ud800', Str('a'), Ellipsis, int, frozenset()])
        result[key] = hostile(rng, references, depth - 1)
    return result


def corrupt(rng, value, references):
    """Plants something hostile at a random place of a fitting value."""
    if isinstance(value, dict) and value and rng.random() < 0.8:
        key = rng.choice(list(value))
        return dict(value, **{}) if rng.random() < 0.05 else dict((k, corrupt(rng, v, references) if k == key else v)
            for k, v in value.items())
    if isinstance(value, (list, tuple)) and value and rng.random() < 0.8:
        i = rng.randrange(len(value))
        return type(value)([corrupt(rng, v, references) if j == i else v for j, v in enumerate(value)])
    return hostile(rng, references)


def skeleton(rng, spec, depth=0):
    """A value shaped as a specification asks, with anything at the leaves."""
    t = spec['t']
    n = rng.randrange(10)
    if n == 0 or t in REFERENCES or t in ('undef', 'field'):
        return hostile(rng, t in REFERENCES)
    if n == 1:
        return None
    if t == 'structure':
        if spec.get('on'):
            identity, members = rng.choice(spec['variants'])
            name = spec['on'] if isinstance(spec['on'], str) else spec['on']['name']
            members = list(members) + list(spec.get('common') or ())
            result = {name: identity if rng.random() < 0.8 else hostile(rng, False)}
        else:
            members, result = spec['members'], {}
        result.update((k, skeleton(rng, s, depth + 1)) for k, s in members if rng.random() < 0.8)
        return result
    if t == 'map':
        return dict((rng.choice(gen.KEYS + [1, (1, 'a'), None, 2.5]), skeleton(rng, spec['value'], depth + 1))
            for _ in range(rng.randrange(3)))
    if t == 'sequence':
        return [skeleton(rng, spec['item'], depth + 1) for _ in range(rng.randrange(4))]
    if t == 'tuple':
        result = [skeleton(rng, s, depth + 1) for s in spec['values']]
        return result[:-1] if rng.random() < 0.1 else result
    if t == 'union':
        return skeleton(rng, rng.choice(spec['fields']), depth + 1)
    value = valid_or_none(rng, spec)
    if n <= 5:
        return serialized_form(spec, value)
    if n <= 7:
        return value
    return corrupt(rng, value, False)


def watch(ctx, function, undefined, **detail):
    started = time.process_time()
    outcome = attempt(function)
    spent = time.process_time() - started
    ctx.evaluations += 1
    if outcome.kind == 'other':
        if not (undefined and isinstance(outcome.value, UndefinedFieldError)):
            ctx.fail('%s escapes: %s' % (type(outcome.value).__name__, core.safe_str(outcome.value)), **detail)
        ctx.count('undefined')
    elif outcome.kind == 'error':
        ctx.check(isinstance(outcome.value, ValidationError) or undefined, 'the report is a %s'
            % type(outcome.value).__name__, **detail)
        ctx.count('refused')
    else:
        ctx.count('accepted')
    if spent > SECONDS:
        ctx.fail('a call took %.1f CPU seconds' % spent, **detail)
    return outcome


def reports(ctx, outcome, **detail):
    if outcome.kind == 'error':
        for what, function in (('shown', lambda: str(outcome.value)), ('serialized', outcome.value.serialize)):
            shown = attempt(function)
            ctx.check(shown.kind == 'ok', 'the report cannot be %s: %s' % (what, shown), **detail)


def no_undefined(spec):
    return not any(s['t'] == 'undef' and not s.get('target') for s in walk(spec))


def case(ctx, rng, index):
    if index % 10 == 9:
        return large(ctx, rng)
    simple = gen.ALL_SIMPLE + (REFERENCES * 2 if index % 2 else ())
    g = Wide(rng, simple=simple, p_constant=0.08, p_pre=0.08, p_errors=0.1, p_aspects=0.05, p_ignored=0.2, p_bounds=0.5)
    spec = g.spec(rng.choice([0, 1, 2, 2, 3]), rng.choice(simple) if index % 5 == 0 else None)
    if index % 7 == 0:
        nodes = [s for s in walk(spec) if s['t'] == 'sequence' and not s.get('default')]
        if nodes:
            rng.choice(nodes)['item'] = {'t': 'undef'}
            for s in walk(spec):
                s.pop('default', None)
    field = build(spec)
    references = any(s['t'] in REFERENCES for s in walk(spec))
    undefined = not no_undefined(spec)
    shown = describe_spec(spec)
    # a definition or surrogate may hold whatever exceptions its own schema raises
    for n in range(10):
        style = rng.randrange(4)
        if style == 0:
            value = hostile(rng, references)
        elif style == 3 and not references and not undefined:
            value = valid_or_none(rng, spec)
            if rng.random() < 0.5:
                value = serialized_form(spec, value)
            value = corrupt(rng, value, references)
        else:
            value = skeleton(rng, spec)
        for phase, serialized in PHASES:
            outcome = watch(ctx, lambda: field.process(value, phase, serialized), undefined, schema=shown, value=value,
                phase=phase, serialized=serialized)
            reports(ctx, outcome, schema=shown, value=value, phase=phase, serialized=serialized)
        watch(ctx, lambda: field.serialize(value), undefined, schema=shown, value=value, call='serialize')
        watch(ctx, lambda: field.unserialize(value), undefined, schema=shown, value=value, call='unserialize')
        ctx.seen(shown, core.show(value))
    ctx.sample(shown)


LARGE_TEXTS = ['a', 'a.', 'a@', '"', '\\"', '<', ' ', ',a@b.co', 'a@b.co,', ' ,', 'b.', 'b-', 'a:', 'a-', 'N ', '"a', 'a b ', '9', '0',
    '-', '=', 'A', '\u00e9', '\n', '\t\n', 'a.b-', '1e', '_', 'T', '12', ':', ';', 'a+', '" <', '\\', '[a', '%', '{']
SIMPLE_SPECS = [{'t': 'email'}, {'t': 'email', 'multiple': True}, {'t': 'email', 'extended': True}, {'t': 'token'},
    {'t': 'token', 'segments': 3}, {'t': 'uuid'}, {'t': 'text', 'pattern': r'^\w+$'}, {'t': 'text'},
    {'t': 'float'}, {'t': 'decimal'}, {'t': 'date'}, {'t': 'time'}, {'t': 'datetime'}, {'t': 'boolean'},
    {'t': 'enumeration', 'values': ['a', 'b']}, {'t': 'binary'}, {'t': 'object'}, {'t': 'integer'}]


def large(ctx, rng):
    """Inputs large enough that anything beyond quadratic time cannot go unnoticed."""
    for _ in range(8):
        spec = rng.choice(SIMPLE_SPECS)
        field = build(spec)
        size = rng.choice([2000, 8000, 20000]) if spec['t'] != 'object' else 500
        text = rng.choice(['', 'a@', 'N <', '"', 'a', '1', ' ']) + rng.choice(LARGE_TEXTS) * size + rng.choice(
            ['', '!', '@b.co', '>', ' <a@b.co>', '\n', '"@b.co', ' ', '.co', '@', ':'])
        for phase, serialized in PHASES:
            watch(ctx, lambda: field.process(text, phase, serialized), False, schema=describe_spec(spec), value=text[:60],
                length=len(text), phase=phase, serialized=serialized)
            ctx.count('large_texts')
        ctx.seen(describe_spec(spec), text[:40], len(text))
    n = rng.choice([500, 2000])
    deep = rng.choice([50, 200])
    item = {'t': 'structure', 'members': [('a', {'t': 'integer'}), ('b', {'t': 'text', 'required': True})]}
    nested = 1
    for _ in range(deep):
        nested = rng.choice([[nested], {'a': nested}, (nested,)])
    chain = {'t': 'integer'}
    for _ in range(30):
        chain = {'t': rng.choice(['sequence'])} and rng.choice([{'t': 'sequence', 'item': chain}, {'t': 'tuple', 'values': [chain]},
            {'t': 'map', 'value': chain}, {'t': 'structure', 'members': [('a', chain)]}, {'t': 'union', 'fields': [chain]}])
    for spec, value in [({'t': 'sequence', 'item': item, 'unique': True}, [{'a': i, 'b': 'x'} for i in range(n)]),
            ({'t': 'sequence', 'item': item}, [{'a': 'x'} for _ in range(n)]),
            ({'t': 'map', 'value': {'t': 'integer'}}, dict((str(i), 'x') for i in range(n))),
            ({'t': 'sequence', 'item': {'t': 'integer'}, 'unique': True}, list(range(n * 5)) + [1]),
            ({'t': 'field'}, nested), ({'t': 'text'}, nested), (item, nested), ({'t': 'map', 'value': {'t': 'field'}}, {'a': nested}),
            (item, dict((str(i), i) for i in range(n))), (chain, nested)]:
        field = build(spec)
        for phase, serialized in PHASES:
            outcome = watch(ctx, lambda: field.process(value, phase, serialized), False, schema=describe_spec(spec),
                value=core.short(core.show(value)), phase=phase, serialized=serialized)
            ctx.count('large_containers')
        reports(ctx, outcome, schema=describe_spec(spec))
        ctx.seen(describe_spec(spec), n, deep)


def signalling_nan():
    from scheme.fields import Decimal, Sequence
    import decimal
    found = []
    for field, value in ((Decimal(constant=decimal.Decimal('1')), 'sNaN'),
            (Sequence(Decimal(), unique=True), ['sNaN', 'sNaN'])):
        outcome = core.attempt(field.unserialize, value)
        if outcome.kind == 'other' and isinstance(outcome.value, decimal.InvalidOperation):
            found.append(repr(field))
    return found and 'InvalidOperation escapes for a signalling NaN: %s' % ', '.join(found)


KNOWN = {'signalling-nan': signalling_nan}
