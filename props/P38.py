"""P38: whatever sequence of copies, reconstructions, rebuilds and uses a schema went through, it still means the same, and so does
each schema it came from."""

import copy

import scheme
from vmon import gen, model
from vmon.build import build, describe_spec, walk
from vmon.core import attempt, same, snapshot
from vmon.oracle import observe
from props.P19 import restored
from props.common import PHASES, inputs
from scheme.field import Field

F = scheme.fields


def renew(rng, leaves):
    """A transformation which replaces fields by equal ones."""
    def transformer(field):
        if not field.structural and field.type != 'union':
            return field.clone() if leaves else None
        return None if leaves or rng.random() < 0.7 else field.clone()
    return transformer


def wrapped(rng, spec, field):
    """The field out of a container which was copied or reconstructed whole."""
    style = rng.randrange(6)
    if style == 0:
        return spec, F.Sequence(field).clone().item
    if style == 1:
        return spec, F.Map(field).clone().value
    if style == 2:
        return spec, F.Tuple((F.Integer(), field)).clone().values[1]
    if style == 3:
        return spec, copy.deepcopy(F.Sequence(field, name='outer')).item
    if style == 4:
        placeholder = scheme.Undefined()
        whole = F.Sequence(placeholder)
        late = whole.clone()
        placeholder.define(field)
        return spec, rng.choice([whole, late, late.clone()]).item
    if not spec.get('name'):
        spec, field = dict(spec, name='member'), field.clone(name='member')
    whole = F.Structure({'member': field, 'other': F.Text()})
    whole = rng.choice([lambda: whole.clone(), lambda: whole.extend({'more': F.Integer()}), lambda: whole.replace({'other': F.Integer()}),
        lambda: whole.filter(), lambda: whole.transform(lambda f: f.clone() if f.name == 'other' else None)])()
    return spec, whole.structure['member']


def edited(rng, spec, field):
    """A structure with other members, then as it was."""
    names = [k for k, _ in spec['members']]
    field = field.clone()
    for _ in range(rng.randrange(1, 4)):
        style = rng.randrange(4)
        extra = F.Integer(name='extra')
        if style == 0:
            field.insert(extra)
            field.remove('extra')
        elif style == 1 and names:
            name = rng.choice(names)
            member = field.structure[name]
            field.remove(name)
            field.merge({name: member})
            # the member is named now like the place it is at
            spec = dict(spec, members=[(k, dict(m, name=name) if k == name else m) for k, m in spec['members']])
        elif style == 2:
            extended = field.extend({'extra': extra})
            if rng.random() < 0.5:
                # the one or the other
                extended, field = field, extended
                field.remove('extra', 'absent')
                for member in list(extended.structure.values()):
                    meddle(rng, member)
            else:
                meddle(rng, extended)
        else:
            field.merge({'extra': extra})
            field.remove('extra')
    return spec, field


def inside(field):
    """A field and those within it."""
    found = [field]
    for part in [field.item, field.value, field.key] + list(field.values or () if field.type == 'tuple' else ()) + list(field.fields or ()):
        if isinstance(part, Field):
            found += inside(part)
    if field.type == 'structure':
        for part in field.structure.values():
            for member in part.values() if isinstance(part, dict) else [part]:
                found += inside(member)
    return found


def meddle(rng, field):
    """Alters a field nobody else should have a part of."""
    for part in inside(field):
        if rng.random() < 0.5:
            part.nonnull = part.required = True
            part.title = 'meddled'
            part.aspects['meddled'] = 1
        if part.type == 'structure' and not part.polymorphic_on and rng.random() < 0.5:
            if rng.random() < 0.5:
                part.insert(F.Integer(name='meddled', required=True), True)
            else:
                part.remove(*list(part.structure))


def step(ctx, rng, spec, field, values, done):
    """(name, specification, field) after one more operation."""
    ways = ['clone', 'deepcopy', 'reconstruct', 'reconstruct', 'wrapped', 'wrapped', 'transform', 'filter', 'used', 'flags']
    if spec['t'] == 'structure' and not spec.get('on') and not spec.get('default') and not spec.get('key_order'):
        ways += ['edited', 'edited']
    way = rng.choice(ways)
    if way in ('clone', 'deepcopy'):
        copies = [field.clone() if way == 'clone' else copy.deepcopy(field) for _ in range(rng.choice([1, 1, 2]))]
        for other in copies[1:]:
            meddle(rng, other)
        return way, spec, copies[0]
    if way == 'reconstruct':
        if done and any(n.get('default') is not None for n in walk(spec)):
            # defaults within containers are serialized by now
            return 'nothing', spec, field
        try:
            target, _ = restored(spec)
        except model.Undecided:
            return 'nothing', spec, field
        description = field.describe(verbose=rng.random() < 0.3)
        made = [Field.reconstruct(description) for _ in range(rng.choice([1, 2, 3]))]
        for other in made[1:]:
            meddle(rng, other)
        ctx.count('reconstructions', len(made))
        return way, target, made[0]
    if way == 'wrapped':
        return (way,) + wrapped(rng, spec, field)
    if way == 'transform':
        return way, spec, field.transform(renew(rng, rng.random() < 0.7))
    if way == 'filter':
        return way, spec, rng.choice([field.filter, lambda: field.filter(True)])()
    if way == 'flags':
        flag = rng.choice(['nonnull', 'required', 'ignore_null'])
        value = rng.random() < 0.5
        if spec.get('nonempty'):
            return 'nothing', spec, field
        field = field.clone(**{flag: value})
        if rng.random() < 0.5:
            meddle(rng, field.clone())
        return way, dict(spec, **{flag: value}), field
    if way == 'edited':
        return (way,) + edited(rng, spec, field)
    for value in values[:2]:
        for call in (lambda: field.process(value), lambda: field.serialize(value), lambda: field.unserialize(value), lambda: field.extract(value),
                lambda: field.instantiate(value), lambda: field.interpolate(value, {})):
            attempt(call)
    repr(field)
    field.describe(verbose=True)
    return way, spec, field


def case(ctx, rng, index):
    g = gen.Gen(rng, p_pre=rng.choice([0, 0, 0.1]), p_errors=rng.choice([0, 0, 0.15]), p_title=0.1, p_aspects=0.1, p_constant=0.1, p_default=rng.choice([0, 0.3]),
        p_order=0.2, p_poly=0.3, p_bounds=0.5)
    spec = g.spec(rng.choice([0, 1, 2, 3]))
    field = build(spec)
    values = inputs(rng, spec, 4)
    history = [('built', spec, field, snapshot(field.describe()))]
    for _ in range(rng.randrange(2, 8)):
        what, spec, field = step(ctx, rng, spec, field, values, any(h[0] == 'reconstruct' for h in history))
        ctx.check(isinstance(field, Field), 'an operation gives no field', operation=what, schema=describe_spec(spec), observed=field)
        history.append((what, spec, field, snapshot(field.describe())))
        ctx.count(what)
        for value in rng.sample(values, 2):
            observe(ctx, spec, field, value, *rng.choice(PHASES))
    names = [h[0] for h in history]
    for value in values:
        for phase, serialized in PHASES:
            observe(ctx, spec, field, value, phase, serialized)
    for what, old, earlier, described in rng.sample(history, min(3, len(history))):
        for value in values:
            observe(ctx, old, earlier, value, *rng.choice(PHASES))
        ctx.check(snapshot(earlier.describe()) == described, 'later operations show in an earlier schema', operations=names, earlier=what,
            schema=describe_spec(old), observed=earlier.describe())
    ctx.seen(names, describe_spec(spec))
    ctx.sample([names, describe_spec(spec)])
