"""P01: numeric and boolean fields."""

from vmon import gen, model
from vmon.build import build, describe_spec
from vmon.oracle import observe

KINDS = ('integer', 'float', 'decimal', 'boolean')
PHASES = [('inbound', False), ('inbound', True), ('outbound', False), ('outbound', True)]
POOL = gen.INTS + gen.FLOATS + gen.ODD_FLOATS + gen.DECIMALS + gen.ODD_DECIMALS + [True, False, None]
SPELLED = ['0', '-0', '1', ' 1 ', '1\n', '+1', '1.0', '1.5', '1e3', '-1E-5', 'inf', '-Infinity', 'nan', '', ' ', 'x',
    '0x10', '1_000', '\u0663', '1,5', 'True', '9' * 30, '1e999', '1e-999', b'1', b'1.5', [1], (1,), {}, '--1', '1.',
    '.5', 'NaN', '1 2']


def candidates(rng, spec):
    values = []
    for bound in (spec.get('minimum'), spec.get('maximum')):
        if bound is not None:
            for _ in range(5):
                near = {'integer': gen.near_int, 'float': gen.near_float,
                    'decimal': gen.near_decimal}[spec['t']](rng, bound)
                values.append(near)
                values.append(gen.neighbour(rng, near))
    values += rng.sample(POOL, 12) + rng.sample(SPELLED, 8)
    values += [str(rng.choice(POOL)), gen.wild(rng), rng.choice([True, False])]
    return values


def case(ctx, rng, index):
    g = gen.Gen(rng, simple=KINDS, p_bounds=0.8, p_name=0.5)
    spec = g.spec(0, KINDS[index % 4])
    if spec['t'] in ('integer', 'float') and rng.random() < 0.15:
        zero = 0 if spec['t'] == 'integer' else 0.0
        spec.pop('minimum', None), spec.pop('maximum', None)
        spec[rng.choice(['minimum', 'maximum'])] = zero
        if spec.get('default') is not None:
            del spec['default']
    field = build(spec)
    for value in candidates(rng, spec):
        for phase, serialized in PHASES:
            result = observe(ctx, spec, field, value, phase, serialized)
            if result:
                ctx.seen(describe_spec(spec), value, phase, serialized)
    ctx.sample('%s over %r' % (describe_spec(spec), values_shown(spec)))


def values_shown(spec):
    return {'minimum': spec.get('minimum'), 'maximum': spec.get('maximum')}
