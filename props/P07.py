"""P07: sequences, maps and tuples."""

from vmon import gen, model
from vmon.build import build, describe_spec
from vmon.oracle import observe
from props.common import PHASES, inputs, valid_or_none, serialized_form


def sized(rng, spec):
    """Containers of sizes at and next to the bounds, with repeated and reordered items."""
    values = []
    if spec['t'] == 'sequence':
        for bound in (spec.get('min_length'), spec.get('max_length'), 2):
            if bound is None:
                continue
            for n in (bound - 1, bound, bound + 1):
                items = [valid_or_none(rng, spec['item']) for _ in range(max(0, n))]
                values.append(items)
                if len(items) > 1:
                    repeated = list(items)
                    repeated[rng.randrange(len(items))] = repeated[rng.randrange(len(items))]
                    values.append(repeated)
                    values.append(serialized_form({'t': 'sequence', 'item': spec['item']}, repeated))
        text = [' a', 'a', 'a ', 'b']
        values += [text, [1, True, 1.0], ['1', 1], [[1], [1]], [{}, {}], [None, None], tuple(text)]
    elif spec['t'] == 'tuple':
        n = len(spec['values'])
        items = [valid_or_none(rng, s) for s in spec['values']]
        values += [items, tuple(items), items[:-1], items + [None], tuple(items[::-1]), [None] * n, [], ()]
    else:
        keys = model.required_keys(spec)
        for drop in [None] + list(keys):
            value = dict((k, valid_or_none(rng, spec['value'])) for k in keys if k is not drop)
            for _ in range(rng.randrange(3)):
                value[rng.choice(gen.KEYS + ['', 1, '1', True, '2000-01-01', (1, 'a'), None])] = \
                    valid_or_none(rng, spec['value'])
            values.append(value)
    return values


def case(ctx, rng, index):
    g = gen.Gen(rng, containers=('sequence', 'map', 'tuple', 'structure'), p_unique=0.4, p_required_keys=0.5,
        p_key=0.5, p_bounds=0.5, p_default=0.05, p_required=0.1, p_name=0.15)
    spec = g.spec(rng.choice([1, 1, 1, 2]), ('sequence', 'map', 'tuple')[index % 3])
    field = build(spec)
    for value in inputs(rng, spec, 6) + sized(rng, spec):
        for phase, serialized in PHASES:
            result = observe(ctx, spec, field, value, phase, serialized)
            if result:
                ctx.seen(describe_spec(spec), value, phase, serialized)
                if result[0].kind == 'ok' and value is not None:
                    ctx.check(result[0].value is not value, 'the container passed in is returned itself',
                        schema=describe_spec(spec), value=value)
    ctx.sample(describe_spec(spec))
