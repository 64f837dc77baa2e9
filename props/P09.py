"""P09: serializing a valid value and reading it back is the identity; processing is idempotent."""

import datetime as dt

from vmon import core, gen, model
from vmon.build import build, describe_spec, scheme, walk
from vmon.core import attempt, same
from props.common import canonical_values, has_kind, outbound, reads_back


def binary_not_native():
    """Known finding: binary values serialize to bytes, which are not natively serializable."""
    value = scheme.Binary().process(b'abc', 'outbound', True)
    if not isinstance(value, str):
        return 'Binary().serialize(b"abc") gives %r' % (value,)


def naive_constant():
    """Known finding: a naive datetime constant is compared before its value is normalised."""
    field = scheme.DateTime(constant=dt.datetime(2000, 1, 1))
    once = attempt(field.process, dt.datetime(2000, 1, 1))
    if once.kind == 'ok' and attempt(field.process, once.value).kind != 'ok':
        return 'DateTime(constant=datetime(2000, 1, 1)) refuses its own result %r' % (once.value,)


def stripped_constant():
    """Known finding: a constant text is compared before it is stripped."""
    field = scheme.Text(constant=' a')
    once = attempt(field.process, ' a')
    if once.kind == 'ok' and attempt(field.process, once.value).kind != 'ok':
        return 'Text(constant=%r) refuses its own result %r' % (' a', once.value)


def unsettled(spec):
    """Whether the schema may refuse its own results: the known findings, and values taken for null where null is refused or
    absent."""
    parts = list(walk(spec))
    return any(isinstance(s.get('constant'), str) and s['constant'] != s['constant'].strip() for s in parts) or any(
        s['t'] == 'union' and any(a.get('ignored') or a.get('ignore_null') for a in walk(s)) or
        s.get('ignored') for s in parts)


KNOWN = {'stripped-constant': stripped_constant, 'naive-datetime-constant': naive_constant, 'binary-serializes-to-bytes': binary_not_native}


def case(ctx, rng, index):
    g = gen.Gen(rng, p_ignored=0.15, p_constant=0.1, p_order=0.2, p_bounds=0.4)
    spec = g.spec(rng.choice([0, 1, 2, 3]), gen.ALL_SIMPLE[index % 14] if index % 3 == 0 else None)
    field = build(spec)
    detail = {'schema': describe_spec(spec)}
    ambiguous = has_kind(spec, 'union')
    for value in canonical_values(rng, spec, 8):
        if unsettled(spec):
            try:
                if not model.process(spec, value).ok:
                    ctx.count('unsettled')
                    continue
            except model.Undecided:
                continue
        # idempotence, on the real results
        for phase in ('inbound', 'outbound'):
            once = attempt(field.process, value, phase)
            ctx.check(once.kind == 'ok', 'a processed value is refused', phase=phase, value=value, observed=once, **detail)
            twice = attempt(field.process, once.value, phase)
            ctx.check(twice.kind == 'ok' and same(twice.value, once.value) and same(once.value, value),
                'processing a processed value changes it', phase=phase, value=value, once=once, twice=twice, **detail)
        try:
            wanted = outbound(spec, value)
        except model.Undecided:
            continue
        form = attempt(field.process, value, 'outbound', True)
        ctx.check(form.kind == 'ok' and same(form.value, wanted), 'the serialized form is not the expected one',
            value=value, observed=form, expected=wanted, **detail)
        direct = attempt(field.serialize, value)
        ctx.check(core.same_outcome(form, direct), 'serialize and process disagree', value=value, observed=direct,
            **detail)
        if not has_kind(spec, 'binary') and not (ambiguous and (has_kind(spec, 'field') or has_kind(spec, 'enumeration') and
                has_kind(spec, 'decimal'))):
            bad = core.json_native(form.value)
            ctx.check(not bad, 'the serialized form holds non-native data: %s' % bad, value=value, observed=form,
                **detail)
        if ambiguous and not reads_back(spec, value):
            ctx.count('ambiguous_unions')
            continue
        back = attempt(field.process, form.value, 'inbound', True)
        ctx.check(back.kind == 'ok' and same(back.value, value), 'the serialized form does not denote the value',
            value=value, form=form, observed=back, **detail)
        direct = attempt(field.unserialize, form.value)
        ctx.check(core.same_outcome(back, direct), 'unserialize and process disagree', form=form, observed=direct, **detail)
        ctx.seen(describe_spec(spec), value)
        ctx.count('identities')
    ctx.sample(describe_spec(spec))
