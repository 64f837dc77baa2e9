"""P14: structured text and url-encoding."""

import urllib.parse

from vmon import core, gen, model
from vmon.build import build, describe_spec, scheme
from vmon.core import attempt, same
from props.common import any_text, canonical_values, outbound, reads_back

StructuredText = scheme.formats.StructuredText
UrlEncoded = scheme.formats.UrlEncoded
SIMPLE = ('integer', 'float', 'decimal', 'boolean', 'date', 'time', 'datetime', 'text', 'text', 'email', 'token', 'uuid',
    'enumeration')
PIECES = ['a', 'b', ' ', '  ', '[', ']', '{', '}', '[]', '{}', '{a}', '[a', 'a]', '\u00e9', '\U0001f600', '\n', '\t', "'", '"', '=', '&',
    '+', '%', '%20', ';', '#', '/', '?', ':', '::', '0', '1', '1.5', '-', '.', 'x', 'word', '\r\n', '~', '!', '(', ')', 'nul', 'tru', 'null', 'True', 'FALSE',
    '\ufeff', '|', '||', '||0||', '||1||', '|0|', '|0|0|', '|0|1|', '|1|0|']
HOSTILE = ['{', '}', '[', ']', ',', ':', '\\', '|', '||0||', '||1||', 'a', 'b', '', ' ', '0', '{}', '[]', '\\{', '\\}', '\\[', '\\]', '\\\\',
    'a:b', '{a:', '[a,', 'null', 'true', '\n', '\x00', '\u00e9', '||', '{a:b}', '[[', ']]', '{{', '}}']


def plain_text(rng):
    """A text free of separators which is no literal."""
    while True:
        value = ''.join(rng.choice(PIECES) for _ in range(rng.randrange(5)))
        if safe_text(value):
            return value


def safe_text(value):
    return (value.lower() not in ('true', 'false', 'null') and ',' not in value and '\\' not in value)


def safe_key(value):
    return safe_text(value) and not set(value) & set(':[]{}')


def number_like(value):
    for kind in (int, float):
        try:
            kind(value)
            return True
        except ValueError:
            pass
    return False


def key(rng):
    while True:
        value = plain_text(rng)
        if safe_key(value):
            return value


def data(rng, depth, numbers):
    n = rng.randrange(10 if depth else 6)
    if n == 0:
        return rng.choice([None, True, False])
    if n <= 2 and numbers:
        return rng.choice(gen.INTS + gen.FLOATS)
    if n <= 5:
        while True:
            value = plain_text(rng)
            if not numbers or not number_like(value):
                return value
    if n <= 7:
        value = [data(rng, depth - 1, numbers) for _ in range(rng.randrange(4))]
        return value if value != [''] else []
    return dict((key(rng), data(rng, depth - 1, numbers)) for _ in range(rng.randrange(4)))


def suitable(form):
    """Whether serialized data is within what the notations can carry."""
    if isinstance(form, dict):
        return all(isinstance(k, str) and safe_key(k) and suitable(v) for k, v in form.items())
    if isinstance(form, (list, tuple)):
        return list(form) != [''] and all(suitable(v) for v in form)
    return not isinstance(form, str) or safe_text(form)


def case(ctx, rng, index):
    style = index % 4
    if style == 0:
        round_trips(ctx, rng)
    elif style == 1:
        url(ctx, rng)
    elif style == 2:
        schemas(ctx, rng)
    else:
        malformed(ctx, rng)


def round_trips(ctx, rng):
    for _ in range(20):
        numbers = rng.random() < 0.5
        value = data(rng, 3, numbers)
        text = attempt(StructuredText.serialize, value)
        ctx.check(text.kind == 'ok' and isinstance(text.value, str), 'writing structured text failed', value=value,
            observed=text)
        back = attempt(StructuredText.unserialize, text.value, parse_numbers=numbers)
        ctx.check(back.kind == 'ok' and same(back.value, value), 'structured text is read back as other data', value=value,
            text=text.value, numbers=numbers, observed=back)
        through = attempt(scheme.Format.unserialize, attempt(scheme.Format.serialize, value, 'structuredtext').value,
            'structuredtext', parse_numbers=numbers)
        ctx.check(core.same_outcome(back, through), 'the format registry reads other data', text=text.value, observed=through)
        ctx.seen('text', value)
        ctx.count('structured_texts')
    if rng.random() < 0.1:
        many(ctx, rng)
    ctx.sample(text.value)


def many(ctx, rng):
    """Texts of many structures, side by side and within each other."""
    size = rng.choice([90, 130, 300, 1100])
    side = [rng.choice([{'n': 'v%d' % i}, ['v%d' % i, 'x'], {'a': ['v%d' % i], 'b': {}}, [], 'v%d' % i]) for i in range(size)]
    deep = 'core'
    for i in range(rng.choice([40, 120])):
        deep = rng.choice([{'d%d' % i: deep}, [deep, 'e%d' % i], {'p': [str(i) + 'x', {}], 'q': deep}])
    for value in (side, {'all': side, 'deep': deep}, dict(('k%d' % i, v) for i, v in enumerate(side)), [deep] * 3):
        text = attempt(StructuredText.serialize, value)
        back = attempt(StructuredText.unserialize, text.value)
        ctx.check(back.kind == 'ok' and same(back.value, value), 'a text of many structures is read back as other data', text=text.value,
            observed=back)
        ctx.seen('many', text.value)
        ctx.count('texts_of_many_structures')
        if isinstance(value, dict):
            text = attempt(UrlEncoded.serialize, value)
            back = attempt(UrlEncoded.unserialize, text.value)
            ctx.check(back.kind == 'ok' and same(back.value, value), 'a query of many structures is read back as other data', text=text.value,
                observed=back)


def url(ctx, rng):
    for _ in range(15):
        value = dict((plain_text(rng), data(rng, 2, False)) for _ in range(rng.randrange(5)))
        text = attempt(UrlEncoded.serialize, value)
        ctx.check(text.kind == 'ok' and isinstance(text.value, str), 'url-encoding failed', value=value, observed=text)
        pairs = urllib.parse.parse_qsl(text.value, keep_blank_values=True, strict_parsing=bool(text.value))
        ctx.check([p[0] for p in pairs] == list(value), 'the names are not url-encoded', value=value, text=text.value)
        ctx.check(all(ord(c) < 128 for c in text.value), 'the text is not url-safe', text=text.value)
        back = attempt(UrlEncoded.unserialize, text.value)
        ctx.check(back.kind == 'ok' and same(back.value, value), 'a url-encoded mapping is read back as another',
            value=value, text=text.value, observed=back)
        ctx.seen('url', value)
        ctx.count('url_texts')
    for other in (1, None, [], 'a', b'a', ()):
        ctx.check(type(attempt(UrlEncoded.serialize, other).value) is ValueError, 'url-encoding a non-mapping is not refused',
            value=other)
    ctx.sample(text.value)


def schemas(ctx, rng):
    g = gen.Gen(rng, simple=SIMPLE, containers=('structure', 'sequence', 'map', 'tuple'), p_name=0.2, enumerations='text',
        texts=plain_text, map_keys=('text', 'enumeration', 'token', 'integer'), p_bounds=0.3, p_poly=0.15)
    spec = g.spec(rng.choice([1, 2]), 'structure')
    field = build(spec)
    for value in canonical_values(rng, spec, 8, texts=plain_text):
        form = outbound(spec, value)
        if not suitable(form):
            continue
        for name in ('structuredtext', 'urlencoded'):
            if name == 'urlencoded' and value is None:
                continue
            text = attempt(field.serialize, value, name)
            ctx.check(text.kind == 'ok', 'serializing failed', format=name, schema=describe_spec(spec), value=value,
                observed=text)
            back = attempt(field.unserialize, text.value, name)
            ctx.check(back.kind == 'ok' and same(back.value, value), 'the text does not denote the value', format=name,
                schema=describe_spec(spec), value=value, text=text.value, observed=back)
            ctx.seen(name, describe_spec(spec), value)
            ctx.count('schema_texts')


def malformed(ctx, rng):
    for _ in range(60):
        text = ''.join(rng.choice(HOSTILE) for _ in range(rng.randrange(12)))
        if rng.random() < 0.1:
            text = rng.choice(['{', '[', '[[', '{a:', '\\{', '||', '[a,', '{a:[']) * rng.choice([10, 200, 2000]) + text
        if rng.random() < 0.5:
            text = rng.choice('{[') + text
        for parse_numbers in (False, True):
            outcome = attempt(StructuredText.unserialize, text, parse_numbers=parse_numbers)
            ctx.check(outcome.kind == 'ok' or isinstance(outcome.value, ValueError),
                'a text is answered with another exception', text=text, observed=outcome)
        ctx.count('malformed_refused' if outcome.kind != 'ok' else 'hostile_accepted')
        name = ''.join(rng.choice(HOSTILE + ['=', '&', '%', '%zz', '+']) for _ in range(rng.randrange(8)))
        for query in (name, 'a=' + text, name + '=' + urllib.parse.quote(text)):
            outcome = attempt(UrlEncoded.unserialize, query)
            ctx.check(outcome.kind == 'ok' or isinstance(outcome.value, ValueError),
                'a query is answered with another exception', text=query, observed=outcome)
        ctx.seen('malformed', text)
    for other in (1, None, [], b'{', {}):
        for format in (StructuredText, UrlEncoded):
            ctx.check(type(attempt(format.unserialize, other).value) is ValueError, 'non-text is not refused', value=other)
