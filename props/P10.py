"""P10: JSON."""

import datetime as dt
import decimal
import json
import uuid

from vmon import core, gen, model
from vmon.build import build, describe_spec, scheme
from vmon.core import attempt, same
from vmon.oracle import wrong_order
from props.common import canonical_values, has_kind, outbound, reads_back

SIMPLE = tuple(t for t in gen.ALL_SIMPLE if t != 'binary')


def json_form(value):
    """The data a JSON document denoting ``value`` is read as."""
    if isinstance(value, dict):
        return dict((key_form(k), json_form(v)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return [json_form(v) for v in value]
    return value


def key_form(key):
    if key is True:
        return 'true'
    if key is False:
        return 'false'
    return key if isinstance(key, str) else repr(key)


def nonstandard(name):
    raise ValueError('not JSON: ' + name)


def finite(value):
    if isinstance(value, dict):
        return all(finite(v) for v in value.values())
    if isinstance(value, (list, tuple)):
        return all(finite(v) for v in value)
    return not isinstance(value, float) or abs(value) <= 1.8e308 and value == value and value not in (
        float('inf'), float('-inf'))


def spellings(rng, data):
    """Other standard JSON texts of the same data."""
    yield json.dumps(data, ensure_ascii=False)
    yield json.dumps(data, indent=rng.choice([0, 1, 3]), separators=(' ,\t', ' :\r\n'))
    yield '\n ' + json.dumps(shuffled(rng, data), separators=(',', ':')) + '\t'
    yield ''.join(c if c in '{}[],:"\\' or not c.isalpha() or not in_string(i, marks) else '\\u%04x' % ord(c)
        for text, marks in [prepared(json.dumps(data))] for i, c in enumerate(text))


def prepared(text):
    """Marks which characters are plain characters inside string literals."""
    marks, inside, i = set(), False, 0
    while i < len(text):
        c = text[i]
        if inside and c == '\\':
            i += 6 if text[i + 1] == 'u' else 2
            continue
        if c == '"':
            inside = not inside
        elif inside:
            marks.add(i)
        i += 1
    return text, marks


def in_string(i, marks):
    return i in marks


def shuffled(rng, data):
    if isinstance(data, dict):
        items = list(data.items())
        rng.shuffle(items)
        return dict((k, shuffled(rng, v)) for k, v in items)
    if isinstance(data, list):
        return [shuffled(rng, v) for v in data]
    return data


def case(ctx, rng, index):
    g = gen.Gen(rng, simple=SIMPLE, p_ignored=0.1, p_constant=0.05, p_order=0.4, p_bounds=0.4,
        map_keys=('integer', 'text', 'enumeration', 'token', 'date'))
    spec = g.spec(rng.choice([0, 1, 2, 3]))
    field = build(spec)
    detail = {'schema': describe_spec(spec)}
    for value in canonical_values(rng, spec, 7):
        try:
            form = outbound(spec, value)
        except model.Undecided:
            continue
        if not finite(form) or core.json_native(form):
            continue
        text = attempt(field.serialize, value, 'json')
        ctx.check(text.kind == 'ok' and isinstance(text.value, str), 'serializing to JSON failed', value=value,
            observed=text, **detail)
        read = attempt(json.loads, text.value, parse_constant=nonstandard)
        ctx.check(read.kind == 'ok' and same(read.value, json_form(form)),
            'the document is not standard JSON of the serialized value', value=value, text=text.value, read=read,
            expected=json_form(form), **detail)
        order = wrong_order(dict_pairs(text.value), form) if not has_kind(spec, 'map') else None
        ctx.check(not order, 'in the document, %s' % order, text=text.value, **detail)
        if has_kind(spec, 'union') and not reads_back_json(spec, value, json_form(form)):
            ctx.count('ambiguous_unions')
            continue
        texts = [text.value] + list(spellings(rng, read.value))
        for other in texts:
            assert json.loads(other) == read.value or not same(json.loads(other), json.loads(other))
            back = attempt(field.unserialize, other, 'json')
            ctx.check(back.kind == 'ok' and same(back.value, value), 'the document does not denote the value',
                value=value, text=other, observed=back, **detail)
            ctx.count('documents')
        explicit = attempt(scheme.formats.Json.unserialize, text.value)
        ctx.check(explicit.kind == 'ok' and same(explicit.value, read.value), 'the format reads other data',
            text=text.value, observed=explicit, **detail)
        ctx.seen(describe_spec(spec), value)
    refusals(ctx, rng)
    ctx.sample(describe_spec(spec))


def refusals(ctx, rng):
    """What JSON cannot carry is refused, wherever it is, rather than written as something else."""
    foreign = rng.choice([object(), {1, 2}, frozenset('a'), 3j, b'bytes', bytearray(b'b'), decimal.Decimal('1.5'), dt.date(2000, 1, 1),
        dt.datetime(2000, 1, 1), dt.time(1), uuid.UUID(int=1), range(3), len, int, iter([])])
    value = foreign
    if rng.random() < 0.3:
        value = {rng.choice([(1, 2), b'bytes', dt.date(2000, 1, 1), frozenset(), decimal.Decimal('1.5'), ()]): 1, 'a': 1}
    for _ in range(rng.randrange(4)):
        value = rng.choice([lambda v: [1, v], lambda v: {'a': v, 'b': 2}, lambda v: (v,)])(value)
    if rng.random() < 0.1:
        value = [value, 'x' * rng.choice([200, 5000, 70000])]
    schema = rng.choice([None, scheme.fields.Field()])
    outcome = attempt(scheme.formats.Json.serialize, value) if schema is None else attempt(schema.serialize, value, 'json')
    ctx.check(outcome.kind != 'ok', 'a value JSON cannot carry is written', value=value, observed=outcome)
    ctx.count('refusals')


def dict_pairs(text):
    from collections import OrderedDict
    return json.loads(text, object_pairs_hook=OrderedDict)


def reads_back_json(spec, value, data):
    try:
        result = model.process(spec, data, 'inbound', True)
    except model.Undecided:
        return False
    return result.ok and same(result.value, value)
