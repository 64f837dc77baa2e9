"""P05: structures."""

import itertools

from vmon import core, gen, model
from vmon.build import build, describe_spec, scheme
from vmon.oracle import observe
from props.common import PHASES, inputs, serialized_form, valid_or_none


def binary_default():
    """Known finding: the default of a binary member is decoded when the input is serialized."""
    field = scheme.Structure({'a': scheme.Binary(default=b'abcd')})
    outcome = core.attempt(field.process, {}, 'inbound', True)
    if outcome.kind != 'ok' or outcome.value.get('a') != b'abcd':
        return 'absent binary member with default b"abcd" gives %r for serialized input' % (outcome,)


KNOWN = {'binary-default-decoded': binary_default}

SIMPLE = tuple(t for t in gen.ALL_SIMPLE if t != 'binary')


def case(ctx, rng, index):
    g = gen.Gen(rng, simple=SIMPLE, containers=('structure', 'structure', 'structure', 'sequence', 'map', 'tuple'),
        p_required=0.4, p_default=0.4, p_ignore_null=0.3, p_strict=0.6, p_order=0.5, p_poly=0.1, p_nonnull=0.3,
        p_name=0.15)
    spec = g.spec(rng.choice([1, 1, 2, 3]), 'structure')
    field = build(spec)
    values = inputs(rng, spec, 5)

    # every presence pattern of the members: absent, null or given
    if not spec.get('on') and spec['members']:
        members = spec['members'][:3]
        base = valid_or_none(rng, spec, null=0.0, present=1.0, extra=False)
        if base is not None:
            patterns = list(itertools.product(('absent', 'null', 'given'), repeat=len(members)))
            for pattern in rng.sample(patterns, min(len(patterns), 9)):
                value = dict(base)
                for (key, _), state in zip(members, pattern):
                    if state == 'absent':
                        value.pop(key, None)
                    elif state == 'null':
                        value[key] = None
                if rng.random() < 0.3:
                    value[rng.choice(['extra', 'b', '', 1])] = rng.choice([None, 1, 'x'])
                values.append(value)
                if rng.random() < 0.4:
                    values.append(serialized_form(spec, value))
    for value in values:
        for phase, serialized in PHASES:
            for partial in (False, True):
                if observe(ctx, spec, field, value, phase, serialized, partial=partial):
                    ctx.seen(describe_spec(spec), value, phase, serialized, partial)
                    if partial:
                        ctx.count('partial')
    ctx.sample(describe_spec(spec))
