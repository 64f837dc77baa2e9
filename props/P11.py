"""P11: YAML."""

import collections
import datetime
import json

import yaml

from vmon import core, gen, model
from vmon.build import build, describe_spec, scheme
from vmon.core import attempt, same
from props.common import canonical_values, has_kind, outbound, reads_back

SIMPLE = tuple(t for t in gen.ALL_SIMPLE if t != 'binary')
Yaml = scheme.formats.Yaml
PIECES = [' ', '  ', '\n', '\n\n', '\t', "'", '"', '\\', ':', ': ', ' #', '#', '- ', '-', '?', '|', '>', '%', '@', '`', '!',
    '&', '*', '{', '}', '[', ']', ',', '~', 'null', 'true', '1', '1.5', '0x1', '1e3', '2000-01-01', 'a', 'word', 'word word',
    '\u00e9', '\u4e2d', '\U0001f600', '\r', '\x85', '\u2028', '\u2029', '\ufeff', '\x00', '\x1b', '\x7f', '\xa0', '=', '<<',
    '---', '...', '.inf', 'NaN', '!!', 'x' * 40, 'y' * 101, '12:30', '1_0', '+', '.', '0']


def text(rng):
    style = rng.randrange(5)
    if style == 0:
        return rng.choice(gen.TEXTS)
    if style == 1:
        return ''.join(rng.choice(PIECES) for _ in range(rng.randrange(1, 6)))
    if style == 2:
        # longer than a line
        words = [rng.choice(['a', 'word', 'longer-word', "it's", 'x: y', '#c', '-', '1', 'z' * 30, '"q"', '\u00e9', '- a'])
            for _ in range(rng.randrange(20, 60))]
        return rng.choice([' ', ' ', '  ', ' \n', '\n ']).join(words)
    if style == 3:
        return '\n'.join(rng.choice(['', ' ', 'a', ' indented', 'a: b', '- a', '#', "'", 'end ', '\tt', '---', '...', 'x' * 110])
            for _ in range(rng.randrange(1, 6)))
    return gen.random_text(rng, 20)


def moment(rng):
    """A date or a datetime; a time zone's offset is a number of minutes, as in YAML."""
    year = rng.choice([1, 9, 99, 999, 1000, 1969, 1970, 2000, 2024, 9999, rng.randrange(1, 10000)])
    day = (year, rng.randrange(1, 13), rng.randrange(1, 29))
    if rng.random() < 0.4:
        return datetime.date(*day)
    zone = None
    if rng.random() < 0.4 and 2 < year < 9998:
        zone = datetime.timezone(datetime.timedelta(minutes=rng.choice([0, 0, 60, -60, 330, -210, 1, -1, 840, -720])))
    return datetime.datetime(*day, rng.randrange(24), rng.randrange(60), rng.randrange(60),
        rng.choice([0, 0, 1, 10, 1000, 100000, 500000, 999999]), zone)


def data(rng, depth=3):
    n = rng.randrange(12 if depth else 8)
    if rng.random() < 0.08:
        return moment(rng)
    if n == 0:
        return rng.choice([None, True, False])
    if n == 1:
        return rng.choice(gen.INTS)
    if n == 2:
        return rng.choice(gen.FLOATS + gen.ODD_FLOATS)
    if n <= 7:
        return text(rng)
    if n <= 9:
        return [data(rng, depth - 1) for _ in range(rng.randrange(4))]
    pairs = [(name, data(rng, depth - 1)) for name in keys(rng, rng.randrange(4))]
    return collections.OrderedDict(pairs) if rng.random() < 0.3 else dict(pairs)


def keys(rng, count):
    """Keys of one mapping, which YAML writes in their order."""
    if rng.random() < 0.1:
        return [datetime.date(rng.randrange(1, 10000), rng.randrange(1, 13), rng.randrange(1, 29)) for _ in range(count)]
    if rng.random() < 0.15:
        return [rng.choice([key, number, other])(rng) for _ in range(count)]
    return [key(rng) for _ in range(count)]


def key(rng):
    if rng.random() < 0.02:
        return rng.choice(['k', 'two words ', "'q' ", '"', ': ', u'\xe9', '\n'])  * rng.choice([340, 341, 520, 1030, 1500]) + 'end'
    return rng.choice(gen.KEYS) if rng.random() < 0.5 else text(rng)[:300]


def number(rng):
    return rng.choice([0, 1, -1, 12, 10**20, 0.5, -2.25, 1e30])


def other(rng):
    return rng.choice([None, True, False, datetime.date(2020, 2, 29), datetime.datetime(2020, 2, 29, 1, 2, 3, 4)])


def check_document(ctx, value, document, **detail):
    ctx.check(isinstance(document, str), 'the document is not text', value=value, document=document, **detail)
    for name, loader in (('full', yaml.FullLoader), ('safe', yaml.SafeLoader)):
        read = attempt(yaml.load, document, Loader=loader)
        ctx.check(read.kind == 'ok' and same(read.value, listed(value)), 'a YAML reader (%s) reads other data' % name,
            value=value, document=document, read=read, **detail)
    order = wrong_positions(read.value, value)
    ctx.check(not order, order or '', value=value, document=document, **detail)
    again = attempt(Yaml.unserialize, document)
    ctx.check(again.kind == 'ok' and same(again.value, listed(value)), 'the format reads other data', value=value,
        document=document, read=again, **detail)


def listed(value):
    if isinstance(value, dict):
        return dict((k, listed(v)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return [listed(v) for v in value]
    return value


def wrong_positions(read, value):
    """An ordered mapping is written in its order."""
    if isinstance(value, collections.OrderedDict) and list(read) != list(value):
        return 'the order of an ordered mapping is lost'
    if isinstance(value, dict):
        for k, v in value.items():
            problem = wrong_positions(read[k], v)
            if problem:
                return problem
    elif isinstance(value, (list, tuple)):
        for a, b in zip(read, value):
            problem = wrong_positions(a, b)
            if problem:
                return problem


def case(ctx, rng, index):
    if index % 3:
        for _ in range(12):
            value = data(rng)
            document = attempt(Yaml.serialize, value)
            ctx.check(document.kind == 'ok', 'writing YAML failed', value=value, observed=document)
            check_document(ctx, value, document.value)
            ctx.seen(value)
            ctx.count('documents')
            ctx.count('document_lines', document.value.count('\n') + 1)
        ctx.sample(document.value)
        return
    g = gen.Gen(rng, simple=SIMPLE, p_order=0.3, p_bounds=0.4, texts=text,
        map_keys=('text', 'enumeration', 'token', 'date'))
    spec = g.spec(rng.choice([1, 2, 3]))
    field = build(spec)
    detail = {'schema': describe_spec(spec)}
    for value in canonical_values(rng, spec, 6, texts=text):
        try:
            form = outbound(spec, value)
        except model.Undecided:
            continue
        if core.json_native(form):
            continue
        document = attempt(field.serialize, value, 'yaml')
        ctx.check(document.kind == 'ok', 'writing YAML failed', value=value, observed=document, **detail)
        check_document(ctx, form, document.value, **detail)
        if has_kind(spec, 'union') and not reads_back(spec, value, listed):
            continue
        back = attempt(field.unserialize, document.value, 'yaml')
        ctx.check(back.kind == 'ok' and same(back.value, value), 'the document does not denote the value', value=value,
            document=document.value, observed=back, **detail)
        ctx.seen(describe_spec(spec), value)
        ctx.count('schema_documents')
