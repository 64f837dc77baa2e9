"""P08: error reports."""

import json

import scheme
from vmon import core, gen, model
from vmon.build import build, describe_spec
from vmon.core import StructuralError, attempt
from vmon.oracle import observe, wrong_serialized
from props.common import PHASES, inputs


def valid_errors():
    field = scheme.fields.Sequence(scheme.fields.Error())
    try:
        field.process([core.StructuralError({'message': 'm'}), 5], 'inbound')
    except core.StructuralError as error:
        if error.serialize()[1][0]:
            return 'a valid value which is an error is reported as an error of its place'
    return None


KNOWN = {'valid-errors-reported': valid_errors}


def case(ctx, rng, index):
    g = gen.Gen(rng, p_errors=0.3, p_name=0.3, p_required=0.4, p_nonnull=0.4, p_ignored=0.2, p_pre=0.05,
        p_unique=0.2, p_default=0.05, p_bounds=0.7, p_title=0.1)
    spec = g.spec(rng.choice([0, 1, 2, 2, 3]))
    field = build(spec)
    for value in inputs(rng, spec, 4) + [gen.mutate(rng, v, 4) for v in inputs(rng, spec, 4, False)]:
        for phase, serialized in PHASES:
            result = observe(ctx, spec, field, value, phase, serialized, text=True)
            if result is None or result[0].kind != 'error':
                continue
            error, expected = result[0].value, result[1]
            ctx.seen(describe_spec(spec), value, phase, serialized)
            detail = {'schema': describe_spec(spec), 'value': value, 'phase': phase, 'serialized': serialized,
                'observed': core.Outcome('error', error)}
            problem = wrong_serialized(error)
            ctx.check(not problem, problem or '', **detail)
            first, again = error.serialize(), error.serialize()
            ctx.check(first == again, 'serializing a report twice gives two results', **detail)
            ctx.check(error.serialize(True) == first, 'serializing afresh gives another result', **detail)
            restored = attempt(StructuralError.unserialize, first)
            ctx.check(restored.kind == 'ok', 'a serialized report cannot be read', restored=restored, **detail)
            ctx.check(restored.value.serialize() == first, 'a report changes by being serialized and read back',
                again=restored.value.serialize(), **detail)
            ctx.check(bool(restored.value.substantive) == bool(error.substantive), 'a restored report lost its content',
                **detail)
            if all_text_keys(first):
                through = json.loads(json.dumps(first))
                back = attempt(StructuralError.unserialize, through)
                ctx.check(back.kind == 'ok' and listed(back.value.serialize()) == listed(first),
                    'a report does not survive JSON', restored=back, **detail)
                ctx.count('json_reports')
            ctx.count('leaf_errors', expected.leaves())
    ctx.sample(describe_spec(spec))


def listed(value):
    if isinstance(value, (list, tuple)):
        return [listed(v) for v in value]
    if isinstance(value, dict):
        return dict((k, listed(v)) for k, v in value.items())
    return value


def all_text_keys(value):
    if isinstance(value, dict):
        return all(isinstance(k, str) and all_text_keys(v) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return all(all_text_keys(v) for v in value)
    return True
