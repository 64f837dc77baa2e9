"""P03: text, email, token, UUID, enumeration and binary fields."""

from vmon import gen, model
from vmon.build import build, describe_spec
from vmon.oracle import observe
from props.common import PHASES

KINDS = ('text', 'email', 'token', 'uuid', 'enumeration', 'binary')
EDGES = ['', ' ', '\n', '\t', '\r\n', '\u00a0', '\u2003', '\x1f', '\x00', '\u200b']
BAD_UUIDS = ['9EC10A30-8A4D-4A3F-9F5A-0123456789AB', '9ec10a308a4d4a3f9f5a0123456789ab',
    '9ec10a30-8a4d-4a3f-9f5a-0123456789a', '9ec10a30-8a4d-4a3f-9f5a-0123456789abc',
    '9ec10a30-8a4d-4a3f-9f5a-0123456789ab\n', ' 9ec10a30-8a4d-4a3f-9f5a-0123456789ab',
    '{9ec10a30-8a4d-4a3f-9f5a-0123456789ab}', 'gec10a30-8a4d-4a3f-9f5a-0123456789ab',
    '9ec10a3-08a4d-4a3f-9f5a-0123456789ab', '9ec10a30_8a4d_4a3f_9f5a_0123456789ab', '']
ENCODED = [b'YQ==', b'YWI=', b'YWJj', b'-_-_', b'+/+/', b'YQ', b'Y', b'YQ=', b'Y Q==', b'', b'=', b'\xff', b'YWJj\n',
    'YWJj', b'YQ==YQ==', b'____']


def lengths(rng, spec, value):
    """The value brought to lengths at and next to the bounds, padded with strippable edges."""
    result = []
    for bound in (model.min_length(spec), spec.get('max_length')):
        if bound is None:
            continue
        for n in (bound - 1, bound, bound + 1):
            if n < 0:
                continue
            filler = 'ab\u00e9c\u4e2d\U0001f600defgh' * 4
            text = (value.replace(' ', '') + filler)[:n]
            result.append(text)
            result.append(rng.choice(EDGES) + text + rng.choice(EDGES))
    return result


def candidates(rng, spec):
    t = spec['t']
    values = [gen.wild(rng) for _ in range(3)] + [None, rng.choice(EDGES)]
    text = gen.random_text(rng)
    if t == 'text':
        values += rng.sample(gen.TEXTS, 8) + lengths(rng, spec, text) + [text]
        for pattern, example in gen.PATTERNS:
            if pattern == spec.get('pattern'):
                for _ in range(6):
                    value = example(rng)
                    values += [value, value + rng.choice(EDGES), rng.choice(EDGES) + value, 'x' + value, value + 'x',
                        value + '\nx']
    elif t == 'email':
        values += rng.sample(gen.EMAILS, 4) + rng.sample(gen.BAD_EMAILS, 14)
        for _ in range(6):
            values.append(rng.choice([',', ' ', ', ', ';', ':', '\n', ';;', ' , '])
                .join(rng.choice(gen.EMAILS + gen.BAD_EMAILS[:12]) for _ in range(rng.randrange(2, 4))))
            value = rng.choice(gen.EMAILS)
            i = rng.randrange(len(value))
            values.append(value[:i] + rng.choice('.@"\\<> ,\n\u00e9A1_-') + value[i + rng.randrange(2):])
            values.append(rng.choice(['N ', '"N" ', 'N  M ', '"N', 'N" ', '"a\nb" ', '\n ']) + '<%s>' % value
                + rng.choice(['', '', ' ', '\n', 'x']))
    elif t == 'token':
        values += rng.sample(gen.TOKENS, 6) + rng.sample(gen.BAD_TOKENS, 8)
        for _ in range(8):
            values.append(':'.join(''.join(rng.choice('ab1_-+.\u00e9') for _ in range(rng.randrange(3)))
                for _ in range(rng.randrange(1, 4))))
    elif t == 'uuid':
        values += gen.UUIDS + BAD_UUIDS
        value = rng.choice(gen.UUIDS)
        i = rng.randrange(len(value))
        values.append(value[:i] + rng.choice('-gGA0\n ') + value[i + 1:])
    elif t == 'enumeration':
        values += list(spec['values']) + list(spec.get('ignored') or [])
        values += [gen.neighbour(rng, v) for v in spec['values']] + ['', 'a b', ' '.join(map(str, spec['values']))]
        values += [[v] for v in spec['values'][:1]]
    else:
        values += rng.sample(gen.BYTES, 6) + rng.sample(ENCODED, 8)
        for bound in (model.min_length(spec), spec.get('max_length')):
            if bound is not None:
                for n in (bound - 1, bound, bound + 1):
                    if n >= 0:
                        raw = bytes(rng.randrange(256) for _ in range(n))
                        values += [raw, model.binary_serialize(spec, raw), bytearray(raw)]
    return values


def long_ones(rng, spec):
    """Texts longer than any field was written for, right up to the end or not."""
    t, count = spec['t'], rng.choice([30, 130, 300, 1100, 2500])
    if t == 'text':
        base = rng.choice(['a', '7', 'ab', 'x', 'ab@cd'])
        for pattern, example in gen.PATTERNS:
            if pattern == spec.get('pattern'):
                base = example(rng) or base
        whole = base * count
        return [whole, whole + '!', whole + 'x', '\n' + whole, whole + '\n', whole + '\nx', whole[:-1] + ' ', ' ' * count + base + ' ' * count]
    if t == 'email':
        address = rng.choice(gen.EMAILS)
        separator = rng.choice([',', ', ', ' ', ';'])
        return [separator.join([address] * min(count, 300)), separator.join([address] * min(count, 300) + [rng.choice(gen.BAD_EMAILS)]),
            'a' * count + '@b.co', 'a@' + 'b.' * count + 'co', 'N' * count + ' <a@b.co>', '"' + 'N ' * count + '" <a@b.co>']
    if t == 'token':
        whole = ':'.join(['ab'] * count)
        return [whole, whole + ':', whole + ':!', 'a' * count, 'a' * count + '-', 'a' * count + ' ']
    if t == 'uuid':
        return [gen.UUIDS[0] * count, gen.UUIDS[0] + ' ' * count]
    if t == 'enumeration':
        return [v * count for v in spec['values'] if isinstance(v, str)]
    raw = bytes(rng.randrange(256) for _ in range(count))
    return [raw, model.binary_serialize(spec, raw), model.binary_serialize(spec, raw)[:-1], model.binary_serialize(spec, raw) * 2]


def case(ctx, rng, index):
    kind = KINDS[index % len(KINDS)]
    g = gen.Gen(rng, simple=KINDS, p_bounds=0.75, p_name=0.5, p_default=0, p_ignored=0.3)
    spec = g.spec(0, kind)
    if kind == 'text' and spec.get('pattern') and rng.random() < 0.5:
        g.lengths(spec)
    if kind in ('text', 'binary') and rng.random() < 0.1:
        spec['nonempty'] = True
    field = build(spec)
    values = candidates(rng, spec)
    if rng.random() < 0.15:
        values += long_ones(rng, spec)
        ctx.count('long')
    for value in values:
        for phase, serialized in PHASES:
            if observe(ctx, spec, field, value, phase, serialized):
                ctx.seen(describe_spec(spec), value, phase, serialized)
    ctx.sample(describe_spec(spec))
