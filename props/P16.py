"""P16: a union is its first alternative which recognises the value."""

from vmon import core, gen, model, moves
from vmon.build import build, describe_spec
from vmon.core import InvalidTypeError, attempt, error_view, same
from vmon.oracle import observe
from props.common import PHASES, inputs, serialized_form, valid_or_none

OVERLAPPING = [('integer', 'float', 'text'), ('text', 'integer'), ('boolean', 'integer'), ('date', 'datetime', 'text'),
    ('enumeration', 'text', 'integer'), ('token', 'email', 'text'), ('uuid', 'token'), ('decimal', 'float', 'integer'),
    ('structure', 'map'), ('map', 'structure', 'sequence'), ('sequence', 'tuple'), ('tuple', 'sequence', 'text'),
    ('structure', 'structure'), ('union', 'text'), ('integer', 'union'), ('time', 'text'), ('binary', 'text')]


def union(g, rng, depth):
    style = rng.randrange(3)
    if style == 0:
        kinds = rng.choice(OVERLAPPING)
    else:
        kinds = [rng.choice(gen.ALL_SIMPLE + gen.ALL_CONTAINERS) for _ in range(rng.randrange(1, 5))]
    kinds = list(kinds)
    rng.shuffle(kinds)
    spec = {'t': 'union', 'fields': [g.spec(depth, k) for k in kinds]}
    return g.options(spec)


def case(ctx, rng, index):
    g = gen.Gen(rng, p_constant=0.05, p_pre=0.04, p_errors=0.1, p_bounds=0.6)
    spec = union(g, rng, rng.choice([0, 1, 1, 2]))
    field = build(spec)
    alternatives = [build(s) for s in spec['fields']]
    values = inputs(rng, spec, 5)
    for alternative in spec['fields']:
        value = valid_or_none(rng, alternative)
        values += [value, serialized_form(alternative, value)]
    for value in values:
        for phase, serialized in PHASES:
            seen = observe(ctx, spec, field, value, phase, serialized, text=True)
            metamorphic(ctx, spec, field, alternatives, value, phase, serialized)
            if seen:
                ctx.seen(describe_spec(spec), value, phase, serialized)
    reordered(ctx, rng, spec, values)
    extraction(ctx, rng, g)
    ctx.sample(describe_spec(spec))


def metamorphic(ctx, spec, field, alternatives, value, phase, serialized):
    """The union against its own alternatives, processed alone."""
    if value is None:
        return
    outcome = attempt(field.process, value, phase, serialized)
    chosen = None
    for i, alternative in enumerate(alternatives):
        alone = attempt(alternative.process, value, phase, serialized)
        if alone.kind == 'error' and isinstance(alone.value, InvalidTypeError):
            continue
        chosen = i
        break
    detail = {'schema': describe_spec(spec), 'value': value, 'phase': phase, 'serialized': serialized, 'observed': outcome}
    if chosen is None:
        ctx.check(outcome.kind == 'error' and isinstance(outcome.value, InvalidTypeError),
            'no alternative recognises the value, yet the union answers', **detail)
        ctx.count('recognised_by_none')
        return
    ctx.check(alone.kind == outcome.kind and type(alone.value) is type(outcome.value)
        and (alone.kind != 'ok' or same(alone.value, outcome.value)),
        'the union differs from alternative %d' % chosen, alone=alone, **detail)
    if alone.kind == 'error':
        ctx.check(unnamed(alone.value) == unnamed(outcome.value), 'the union reports another error than alternative %d'
            % chosen, alone=alone, **detail)
    ctx.count('recognised_by_%s' % ('first' if not chosen else 'later'))


def unnamed(error):
    """A report without the name of the position it is about."""
    def strip(view):
        name, identity, errors, nested = view
        if nested is None:
            return (name, errors, None)
        kind, parts = nested
        if kind == 'dict':
            return (name, errors, [(k, strip(v)) for k, v in parts])
        return (name, errors, [v and strip(v) for v in parts])
    return strip(error_view(error))


def reordered(ctx, rng, spec, values):
    """Alternatives which refuse a value's type have no influence on it, wherever they stand."""
    for value in rng.sample(values, min(4, len(values))):
        if value is None:
            continue
        for phase, serialized in (rng.choice(PHASES),):
            refusing = []
            for s in spec['fields']:
                outcome = attempt(build(s).process, value, phase, serialized)
                if outcome.kind == 'error' and isinstance(outcome.value, InvalidTypeError):
                    refusing.append(s)
            others = [s for s in spec['fields'] if s not in refusing]
            if not others or not refusing:
                continue
            moved = list(others)
            for s in refusing:
                moved.insert(rng.randrange(len(moved) + 1), s)
            a = attempt(build(dict(spec, fields=moved)).process, value, phase, serialized)
            b = attempt(build(dict(spec, fields=others)).process, value, phase, serialized)
            ctx.check(core.same_outcome(a, b), 'an alternative which refuses the type changes the outcome',
                schema=describe_spec(dict(spec, fields=moved)), value=value, phase=phase, serialized=serialized, observed=a,
                without=b)
            ctx.count('reorderings')


def extraction(ctx, rng, g):
    calls, wanted_calls = [], []
    spec = union(g, rng, rng.choice([0, 1, 2]))
    moves.attach(rng, spec, calls, 0.25, instantiators=False)
    field = build(spec)
    for value in inputs(rng, spec, 5):
        if rng.random() < 0.6:
            value = box(rng, spec, value)
        del calls[:], wanted_calls[:]
        strict = rng.random() < 0.7
        wanted = moves.expected(moves.extract, spec, value, strict, None, wanted_calls)
        outcome = attempt(field.extract, value, strict)
        problem = moves.mismatch(wanted, outcome)
        ctx.check(not problem, 'extraction through a union: %s' % problem, schema=describe_spec(spec), value=value,
            expected=wanted, observed=outcome)
        ctx.check(same(calls, wanted_calls), 'other extractors are called', schema=describe_spec(spec), value=value,
            calls=calls, expected=wanted_calls)
        ctx.count('extractions_' + wanted[0])


def box(rng, spec, value):
    """Wraps a value the way the extractors of some alternative expect."""
    if value is None:
        return None
    if spec['t'] == 'union':
        value = box(rng, rng.choice(spec['fields']), value)
    elif spec['t'] == 'sequence' and isinstance(value, list):
        value = [box(rng, spec['item'], v) for v in value]
    elif spec['t'] == 'map' and isinstance(value, dict):
        value = dict((k, box(rng, spec['value'], v)) for k, v in value.items())
    elif spec['t'] == 'tuple' and isinstance(value, (list, tuple)):
        value = tuple(box(rng, s, v) for s, v in zip(spec['values'], value))
    elif spec['t'] == 'structure' and isinstance(value, dict) and not spec.get('on'):
        members = dict(spec['members'])
        value = dict((k, box(rng, members[k], v) if k in members else v) for k, v in value.items())
    if spec.get('extractor'):
        value = moves.Box(spec['extractor'].name, value)
    return value
