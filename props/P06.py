"""P06: polymorphic structures."""

from vmon import core, gen, model, moves
from vmon.build import build, describe_spec, scheme, walk
from vmon.core import attempt, same
from vmon.oracle import observe
from props.common import PHASES, canonical_values, inputs, reads_back, template_like, xml_gen, xml_text

HOSTILE = [None, '', 'nothing', 0, 1, 2, 7, -1, True, False, 1.0, 1.5, 'True', 'one', 'ONE', ' one', '1', '0', b'one', [], {},
    ['one'], ('one',), '*', 'novariant', gen.THING]


def hashable(value):
    try:
        hash(value)
        return True
    except TypeError:
        return False


def discriminated(rng, spec, value):
    """The value with the discriminator altered or dropped, or another variant's."""
    on = model.discriminator(spec)['name']
    value = dict(value)
    style = rng.randrange(4)
    if style == 0:
        value.pop(on, None)
    elif style == 1:
        value[on] = rng.choice(spec['variants'])[0]
    elif style == 2:
        value[on] = rng.choice(HOSTILE)
    else:
        value[on] = gen.neighbour(rng, value.get(on))
    return value


def case(ctx, rng, index):
    g = xml_gen(rng, p_poly=1.0, p_default=0.15, p_ignore_null=0.1, p_order=0.2, p_strict=0.8, max_members=3)
    while True:
        spec = g.spec(rng.choice([1, 2]), 'structure')
        if spec.get('on'):
            break
    if rng.random() < 0.25:
        spec = {'t': rng.choice(['sequence', 'map']), 'item': spec, 'value': spec}
    target = spec if spec['t'] == 'structure' else spec['item']
    field = build(spec)
    canon = canonical_values(rng, spec, 4, texts=xml_text)
    values = canon + inputs(rng, spec, 3)
    base = [v for v in canonical_values(rng, target, 5) if v is not None]
    for v in base:
        for _ in range(4):
            altered = discriminated(rng, target, v)
            values.append([altered] if spec['t'] == 'sequence' else {'k': altered} if spec['t'] == 'map' else altered)
    for value in values:
        for phase, serialized in PHASES:
            if observe(ctx, spec, field, value, phase, serialized):
                ctx.seen('process', describe_spec(spec), value, phase, serialized)

    detail = {'schema': describe_spec(spec)}
    for value in values:
        if not suits(target, value):
            continue
        for strict in (True, False):
            wanted = moves.expected(moves.extract, spec, value, strict)
            outcome = attempt(field.extract, value, strict)
            problem = moves.mismatch(wanted, outcome)
            ctx.check(not problem, 'extraction: %s' % problem, value=value, strict=strict, expected=wanted,
                observed=outcome, **detail)
            ctx.count('extracted_' + wanted[0])
        if template_like(value):
            continue
        try:
            wanted = moves.expected(moves.interpolate, spec, value, {'p': 1})
        except model.Undecided:
            pass
        else:
            outcome = attempt(field.interpolate, value, {'p': 1})
            problem = moves.mismatch(wanted, outcome)
            ctx.check(not problem, 'interpolation: %s' % problem, value=value, expected=wanted, observed=outcome,
                **detail)
            ctx.count('interpolated_' + wanted[0])

    for value in canon:
        wanted = moves.instantiate(spec, value)
        outcome = attempt(field.instantiate, value)
        ctx.check(outcome.kind == 'ok' and same(outcome.value, wanted), 'instantiation does not follow the variant',
            value=value, observed=outcome, **detail)
        if not reads_back(spec, value):
            continue
        for format in ('json', 'yaml', 'xml'):
            if format != 'xml' and any(s['t'] == 'map' and s.get('key') and s['key']['t'] != 'enumeration'
                    for s in walk(spec)):
                continue
            text = attempt(field.serialize, value, format)
            ctx.check(text.kind == 'ok', 'serializing to %s failed' % format, value=value, observed=text, **detail)
            again = attempt(field.unserialize, text.value, format)
            ctx.check(again.kind == 'ok' and same(plain(again.value), plain(value)),
                'the %s form does not denote the same variant value' % format, value=value, text=text.value,
                observed=again, **detail)
            ctx.count('round_trips')
    transformation(ctx, rng, spec, target, field, values)
    if index % 2:
        shared(ctx, rng, g)
    ctx.sample(describe_spec(spec))


def shared(ctx, rng, g):
    """The mappings given when a structure is built may be used again: for several of its variants, and for
    further structures. They are not altered, and every variant is selected by its own identity."""
    kinds = [g.spec(0, rng.choice(['integer', 'text', 'boolean'])) for _ in range(3)]
    # fields may be used more than once too: under one name
    for n, spec in enumerate(kinds):
        spec.pop('name', None)
    members = [('m%d' % n, spec) for n, spec in enumerate(kinds)]
    common = [('c', {'t': 'integer'})] if rng.random() < 0.5 else []
    identities = rng.sample(['one', 'two', 'three', 'four'], rng.choice([2, 3, 4]))
    groups = [dict((k, build(s)) for k, s in members[:rng.choice([1, 2, 3])]) for _ in range(2)]
    counts = [len(group) for group in groups]
    chosen = dict((identity, rng.randrange(2)) for identity in identities)
    given = dict((identity, groups[n]) for identity, n in chosen.items())
    if common:
        given['*'] = dict((k, build(s)) for k, s in common)
    before = dict((k, dict(v)) for k, v in given.items())
    spec = {'t': 'structure', 'on': 'kind', 'common': list(common), 'members': [],
        'variants': [(i, members[:counts[chosen[i]]]) for i in identities]}
    reference = build(spec)
    made = []
    for n in range(rng.choice([1, 2, 3])):
        outcome = attempt(scheme.fields.Structure, given, polymorphic_on='kind')
        ctx.check(outcome.kind == 'ok', 'a structure could not be built from mappings used before', observed=outcome,
            given=before, round=n)
        ctx.check(given == before, 'building a structure altered the mappings given', given=given, before=before)
        made.append(outcome.value)
    for value in [v for v in canonical_values(rng, spec, 6) if v is not None] + [{'kind': i} for i in identities]:
        for phase, serialized in PHASES:
            wanted = attempt(reference.process, value, phase, serialized)
            for field in made:
                outcome = attempt(field.process, value, phase, serialized)
                ctx.check(outcome.kind == wanted.kind and (wanted.kind != 'ok' or same(outcome.value, wanted.value)),
                    'variants built from one mapping are not those built from several', value=value, phase=phase,
                    observed=outcome, expected=wanted, given=before)
    ctx.count('shared_mappings', len(made))


def plain(value):
    if isinstance(value, dict):
        return dict((k, plain(v)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return type(value)(plain(v) for v in value)
    return value


def suits(target, value):
    """No unhashable discriminators."""
    on = model.discriminator(target)['name']
    candidates = value if isinstance(value, (list, tuple)) else [value]
    if isinstance(value, dict):
        candidates = [value] + list(value.values())
    return all(hashable(c.get(on)) for c in candidates if isinstance(c, dict))


def transformation(ctx, rng, spec, target, field, values):
    """A transformation of members changes every variant having them, and nothing else."""
    names = sorted(set(k for _, members in target['variants'] for k, _ in members))
    if not names:
        return
    key = rng.choice(names)
    replacement = {'t': 'text', 'min_length': 2, 'name': key}
    victims = set()
    for _, members in target['variants'] + [('*', target.get('common') or [])]:
        for k, s in members:
            if k == key:
                victims.add(id(s))

    inner = []
    for s in walk(spec):
        if (s.get('name') == key and id(s) not in victims) or (s is not target and s['t'] == 'structure'):
            inner.append(s)
    if inner or any(s.get('name') == key for s in (spec, target)):
        return
    changed = dict(target)
    changed['variants'] = [(i, [(k, replacement if id(s) in victims and s.get('name', key) == key else s)
        for k, s in members]) for i, members in target['variants']]
    changed['common'] = [(k, replacement if id(s) in victims and s.get('name', key) == key else s)
        for k, s in target.get('common') or []]
    changed.pop('default', None)
    whole = changed if spec is target else dict(spec, item=changed, value=changed)
    on = model.discriminator(target)['name']
    if key == on:
        return

    def transformer(candidate):
        if candidate.name == key:
            return build(replacement)

    outcome = attempt(field.transform, transformer)
    ctx.check(outcome.kind == 'ok', 'transforming failed', observed=outcome, schema=describe_spec(spec))
    for value in values[:12]:
        observe(ctx, whole, outcome.value, value)
        observe(ctx, spec, field, value)
    ctx.count('transformations')
