"""P04: null, constants and preprocessors."""

import collections

from vmon import core, gen, model
from vmon.build import build, describe_spec, scheme, walk
from vmon.oracle import observe
from props.common import PHASES, inputs


def constant_ignored():
    """Known finding: a constant on a container field has no effect."""
    shown = []
    for name, field, value in (
            ('Structure', scheme.Structure({'a': scheme.Integer()}, constant={'a': 1}), {'a': 2}),
            ('Sequence', scheme.Sequence(scheme.Integer(), constant=[1]), [2]),
            ('Map', scheme.Map(scheme.Integer(), constant={'a': 1}), {'a': 2}),
            ('Tuple', scheme.Tuple([scheme.Integer()], constant=(1,)), (2,)),
            ('Union', scheme.Union([scheme.Integer()], constant=1), 2)):
        if core.attempt(field.process, value).kind == 'ok':
            shown.append(name)
    if shown:
        return 'a constant on %s does not refuse other values' % ', '.join(shown)


KNOWN = {'constant-on-containers': constant_ignored}


def case(ctx, rng, index):
    g = gen.Gen(rng, p_nonnull=0.35, p_constant=0.25, p_pre=0.35, p_ignored=0.4, p_name=0.3, p_ignore_null=0.2,
        p_unique=0.1)
    spec = g.spec(rng.choice([0, 0, 1, 2]))
    for s in walk(spec):
        if s['t'] == 'structure' and isinstance(s.get('on'), dict):
            s['on'].pop('pre', None)
    # a preprocessor on keys or discriminators may change which entry is meant
    for s in walk(spec):
        if s['t'] == 'map' and s.get('key'):
            for k in walk(s['key']):
                k.pop('pre', None)
    field = build(spec)
    values = inputs(rng, spec, 6) + [None]
    if spec['t'] == 'enumeration':
        values += list(spec.get('ignored') or []) + list(spec['values'])
    if spec.get('constant') is not None:
        values += [spec['constant'], gen.neighbour(rng, spec['constant'])]
    for value in values:
        for phase, serialized in PHASES:
            del model.CALLS[:]
            try:
                expected = model.process(spec, value, phase, serialized)
            except (model.Undecided, model.Undef):
                continue
            wanted = collections.Counter(model.CALLS)
            del model.CALLS[:]
            result = observe_calls(ctx, spec, field, value, phase, serialized)
            if result is None:
                continue
            if result[0].kind == 'ok':
                ctx.check(collections.Counter(result[2]) == wanted, 'preprocessors were not called once per '
                    'non-null value, after unserialization', schema=describe_spec(spec), value=value, phase=phase,
                    serialized=serialized, expected=sorted(wanted.elements()), observed=sorted(result[2]))
                ctx.count('preprocessor_calls', sum(wanted.values()))
            if value is None:
                ctx.count('null_inputs')
            ctx.seen(describe_spec(spec), value, phase, serialized)
    ctx.sample(describe_spec(spec))


def observe_calls(ctx, spec, field, value, phase, serialized):
    from vmon.oracle import judge
    del model.CALLS[:]
    outcome = core.attempt(field.process, value, phase, serialized)
    calls = list(model.CALLS)
    try:
        expected = model.process(spec, value, phase, serialized)
    except model.Undecided:
        return None
    judge(ctx, spec, outcome, expected, value, phase, serialized)
    return outcome, expected, calls
