"""P22: filtering and transforming keep, drop and replace exactly the fields they should."""

import collections

from vmon import core, gen, model, moves
from vmon.build import build, describe_spec, walk
from vmon.core import CannotFilterError, attempt, same, snapshot
from vmon.oracle import observe
from props.common import PHASES, inputs
from scheme.field import Field

UNDESCRIBED = object()


class CannotFilter(Exception):
    pass


def listed(value):
    """A description as comparable data, without the attribute cloned enumerations gain (P20)."""
    if isinstance(value, dict):
        return dict((k, listed(v)) for k, v in value.items()
            if not (k == 'representation' and value.get('fieldtype') == 'enumeration'))
    if isinstance(value, (list, tuple)):
        return [listed(v) for v in value]
    return value


def attribute(spec, name, key):
    if name == 'required':
        return model.is_required(spec)
    if name == 'nonnull':
        return model.is_nonnull(spec)
    if name == 'name':
        return spec.get('name') or key
    if name == 'strict':
        return spec.get('strict', True) if spec['t'] == 'structure' else None
    if name in ('title', 'ignore_null', 'description'):
        return spec.get(name)
    return (spec.get('aspects') or {}).get(name)


def matches(spec, criteria, every, key):
    found = []
    for name, value in criteria.items():
        actual = attribute(spec, name, key)
        found.append((False if actual is None else actual) == value)
    return all(found) if every else any(found)


def filtered(spec, criteria, every, key=None):
    """The specification after filtering (the same object if nothing is dropped), or None."""
    if not criteria:
        return spec
    if not matches(spec, criteria, every, key):
        return None
    t = spec['t']
    if t == 'structure':
        if spec.get('on'):
            on = model.discriminator(spec)['name']
            variants, changed = [], False
            for identity, _ in spec['variants']:
                members = [(k, s) for k, s in model.variant_members(spec, identity).items() if k != on]
                kept = keep(members, criteria, every)
                changed = changed or kept is not members
                variants.append((identity, kept))
            return dict(spec, variants=variants, common=None) if changed else spec
        kept = keep(spec['members'], criteria, every)
        return spec if kept is spec['members'] else dict(spec, members=kept)
    if t in ('map', 'sequence'):
        part = 'value' if t == 'map' else 'item'
        kept = filtered(spec[part], criteria, every)
        if kept is None:
            raise CannotFilter()
        return spec if kept is spec[part] else dict(spec, **{part: kept})
    if t == 'tuple':
        kept = [filtered(s, criteria, every) for s in spec['values']]
        if any(k is None for k in kept):
            raise CannotFilter()
        return spec if all(a is b for a, b in zip(kept, spec['values'])) else dict(spec, values=kept)
    return spec


def keep(members, criteria, every):
    kept = []
    for k, s in members:
        result = filtered(s, criteria, every, k)
        if result is not None:
            kept.append((k, result))
    if len(kept) == len(members) and all(a[1] is b[1] for a, b in zip(kept, members)):
        return members
    return kept


def clean(spec):
    """Defaults of containers name members which may be dropped."""
    for s in walk(spec):
        if s['t'] not in model.SIMPLE:
            s.pop('default', None)
    return spec


def generate(rng):
    chance = rng.choice([0.3, 0.8])
    g = gen.Gen(rng, p_errors=0.05, p_title=0.2, p_aspects=chance, p_constant=0.05, p_poly=0.25, p_nonnull=0.3)
    kind = rng.choice(['structure', 'structure', 'structure', 'sequence', 'map', 'tuple', 'union', None])
    return g, clean(g.spec(rng.choice([1, 2, 2, 3]), kind))


def case(ctx, rng, index):
    g, spec = generate(rng)
    if rng.random() < 0.5:
        # criteria which everything meets, so that containers are descended into
        for s in walk(spec):
            if s is spec or rng.random() < 0.85:
                s['aspects'] = dict(s.get('aspects') or {}, fast=True)
    filtering(ctx, rng, spec)
    g, spec = generate(rng)
    transforming(ctx, rng, g, spec)
    ctx.sample(describe_spec(spec))


def criteria_for(rng, spec):
    pool = [('fast', True), ('fast', False), ('color', 'red'), ('color', False), ('level', 1), ('level', 2), ('hidden', False),
        ('hidden', True), ('required', True), ('required', False), ('nonnull', False), ('nonnull', True), ('name', 'a'),
        ('strict', False), ('title', 'Title'), ('absent', False), ('absent', True), ('absent', None), ('ignore_null', True)]
    if rng.random() < 0.5:
        pool = pool[:1] * 3 + pool[6:7] + pool[15:16]
    return dict(rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))


def same_field(ctx, result, spec, detail):
    wanted = build(spec).describe()
    ctx.check(same(listed(result.describe()), listed(wanted)), 'the result is another schema', observed=result.describe(),
        wanted=wanted, **detail)


def filtering(ctx, rng, spec):
    field = build(spec)
    before, text = snapshot(field.describe()), repr(field)
    polymorphic = any(s.get('on') for s in walk(spec))
    for _ in range(4):
        criteria = criteria_for(rng, spec)
        every = rng.random() < 0.5
        detail = {'schema': describe_spec(spec), 'criteria': criteria, 'all': every}
        try:
            wanted = filtered(spec, criteria, every)
        except CannotFilter:
            wanted = CannotFilterError
        outcome = attempt(field.filter, every, **criteria) if every or rng.random() < 0.5 else attempt(field.filter, **criteria)
        if wanted is CannotFilterError:
            ctx.check(outcome.kind == 'other' and type(outcome.value) is CannotFilterError,
                'a container which loses a mandatory part is not reported', observed=outcome, **detail)
            ctx.count('cannot_filter')
        elif wanted is None:
            ctx.check(outcome.kind == 'ok' and outcome.value is None, 'a schema which does not meet the criteria is kept',
                observed=outcome, **detail)
            ctx.count('dropped')
        else:
            ctx.check(outcome.kind == 'ok' and type(outcome.value) is type(field), 'a schema which meets the criteria is not kept',
                observed=outcome, **detail)
            result = outcome.value
            if wanted is spec and not polymorphic:
                ctx.check(result is field, 'nothing is dropped, yet another schema is returned', **detail)
                ctx.count('unchanged')
            elif wanted is not spec:
                ctx.check(result is not field, 'members are to be dropped, yet the schema itself is returned', **detail)
                ctx.count('reduced')
            same_field(ctx, result, wanted, detail)
            for value in inputs(rng, wanted, 2):
                observe(ctx, wanted, result, value, *rng.choice(PHASES))
        ctx.check(snapshot(field.describe()) == before and repr(field) == text, 'filtering changed the schema', **detail)
        ctx.seen(describe_spec(spec), sorted(criteria.items(), key=repr), every)
        for node, node_spec, key in nodes(field, spec):
            # every nested field is screened by the same criteria, null criteria being none
            meets = all(attribute(node_spec, n, key) == v for n, v in criteria.items() if v is not None)
            ctx.check(bool(node.screen(**criteria)) == meets, 'screening answers wrongly', observed=node.screen(**criteria),
                node=describe_spec(node_spec), **detail)


def nodes(field, spec, key=None, below=True):
    """(real field, its specification, its key) for every field a transformation may reach."""
    result = [(field, spec, key)]
    t = spec['t']
    if t == 'structure':
        if spec.get('on'):
            on = model.discriminator(spec)['name']
            for identity, _ in spec['variants']:
                for k, s in model.variant_members(spec, identity).items():
                    if k != on:
                        result.extend(nodes(field.structure[identity][k], s, k))
        else:
            for k, s in spec['members']:
                result.extend(nodes(field.structure[k], s, k))
    elif t == 'map':
        result.extend(nodes(field.value, spec['value']))
    elif t == 'sequence':
        result.extend(nodes(field.item, spec['item']))
    elif t == 'tuple':
        for f, s in zip(field.values, spec['values']):
            result.extend(nodes(f, s))
    elif t == 'union':
        for f, s in zip(field.fields, spec['fields']):
            result.extend(nodes(f, s))
    return result


# ---------------------------------------------------------------- transformation

def transforming(ctx, rng, g, spec):
    field = build(spec)
    reachable = nodes(field, spec)
    density = rng.choice([0.1, 0.3, 0.6])
    decisions, replacements = {}, {}
    for node, node_spec, _ in reachable:
        if id(node) in decisions:
            continue
        choice = 'descend'
        if rng.random() < (density if node is not field else 0.1):
            choice = rng.choice(['replace', 'replace', 'refuse', 'itself', 'true'])
        decisions[id(node)] = choice
        if choice == 'replace':
            new = clean(g.spec(rng.choice([0, 1])))
            replacements[id(node)] = (new, build(new))
    calls, discriminators = collections.Counter(), [0]
    known = dict((id(n), n) for n, _, _ in reachable)

    def transformer(node):
        if id(node) not in known:
            discriminators[0] += 1
            return None
        calls[id(node)] += 1
        choice = decisions[id(node)]
        if choice == 'replace':
            return replacements[id(node)][1]
        return {'refuse': False, 'itself': node, 'true': True}.get(choice)

    wanted_calls = collections.Counter()

    def expected(node, node_spec):
        """The specification after the transformation, the same object if nothing is replaced."""
        wanted_calls[id(node)] += 1
        choice = decisions[id(node)]
        if choice == 'replace':
            return replacements[id(node)][0]
        if choice in ('refuse', 'itself'):
            return node_spec
        t = node_spec['t']
        if t == 'structure' and node_spec.get('on'):
            on = model.discriminator(node_spec)['name']
            variants, changed = [], False
            for identity, _ in node_spec['variants']:
                old = [(k, s) for k, s in model.variant_members(node_spec, identity).items() if k != on]
                new = [(k, expected(node.structure[identity][k], s)) for k, s in old]
                changed = changed or any(a[1] is not b[1] for a, b in zip(old, new))
                variants.append((identity, new))
            return dict(node_spec, variants=variants, common=None) if changed else node_spec
        if t == 'structure':
            new = [(k, expected(node.structure[k], s)) for k, s in node_spec['members']]
            if any(a[1] is not b[1] for a, b in zip(node_spec['members'], new)):
                return dict(node_spec, members=new)
        elif t in ('map', 'sequence'):
            part = 'value' if t == 'map' else 'item'
            new = expected(getattr(node, part), node_spec[part])
            if new is not node_spec[part]:
                return dict(node_spec, **{part: new})
        elif t == 'tuple':
            new = [expected(f, s) for f, s in zip(node.values, node_spec['values'])]
            if any(a is not b for a, b in zip(new, node_spec['values'])):
                return dict(node_spec, values=new)
        elif t == 'union':
            new = [expected(f, s) for f, s in zip(node.fields, node_spec['fields'])]
            if any(a is not b for a, b in zip(new, node_spec['fields'])):
                return dict(node_spec, fields=new)
        return node_spec

    wanted = expected(field, spec)
    detail = {'schema': describe_spec(spec), 'decisions': [(describe_spec(s)[:60], decisions[id(n)]) for n, s, _ in reachable]}
    before, text = snapshot(field.describe()), repr(field)
    result = field.transform(transformer)
    ctx.check(calls == wanted_calls, 'the callback is called for other fields, or more than once',
        observed=sorted(calls.values()), wanted=sorted(wanted_calls.values()), **detail)
    if wanted is spec:
        ctx.check(result is field, 'nothing is replaced, yet another schema is returned', **detail)
        ctx.count('untransformed')
    elif decisions[id(field)] == 'replace':
        ctx.check(result is replacements[id(field)][1], 'the replacement is not what is returned', **detail)
    else:
        ctx.check(result is not field and type(result) is type(field), 'fields are replaced, yet the schema itself is returned',
            **detail)
        ctx.count('transformed')
    same_field(ctx, result, wanted, detail)
    ctx.check(snapshot(field.describe()) == before and repr(field) == text, 'the transformation changed the original', **detail)
    if wanted is not spec:
        for value in inputs(rng, wanted, 3):
            observe(ctx, wanted, result, value, *rng.choice(PHASES))
    for value in inputs(rng, spec, 2):
        observe(ctx, spec, field, value, *rng.choice(PHASES))
    ctx.seen('transform', detail['schema'], detail['decisions'])
