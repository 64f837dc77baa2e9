"""P21: after any sequence of edits a structure is what the edits say, and nothing else changed."""

import copy

from vmon import core, gen, model
from vmon.build import build, describe_spec
from vmon.core import attempt, same, scheme, snapshot
from vmon.oracle import observe
from props.common import PHASES, inputs, valid_or_none

NAMES = gen.KEYS


class Track(object):
    """A real structure and the specification it must match."""

    def __init__(self, field, spec, history):
        self.field, self.spec, self.history = field, spec, history

    @property
    def members(self):
        return dict(self.spec['members'])

    def set(self, members):
        self.spec = dict(self.spec, members=list(members.items()))


def part(g, rng):
    """A field to edit with, named or not."""
    spec = g.spec(rng.choice([0, 0, 1]))
    spec.pop('default', None)
    if rng.random() < 0.5:
        spec.pop('name', None)
    elif rng.random() < 0.7:
        spec['name'] = rng.choice(NAMES)
    return spec, build(spec)


def under(name, spec, renamed=True):
    """The specification a member has after it was placed under ``name``."""
    return dict(spec, name=name) if renamed else spec


def listed(value):
    """A description as comparable data, without the attribute cloned enumerations gain (P20)."""
    if isinstance(value, dict):
        return dict((k, listed(v)) for k, v in value.items()
            if not (k == 'representation' and value.get('fieldtype') == 'enumeration'))
    if isinstance(value, (list, tuple)):
        return [listed(v) for v in value]
    return value


def confirm(ctx, track, what):
    """The member set, the descriptions of the members."""
    field, spec = track.field, track.spec
    detail = {'edits': track.history, 'last': what, 'expected': describe_spec(spec)}
    ctx.check(set(field.structure) == set(track.members), 'the structure has other members', observed=sorted(field.structure),
        **detail)
    for name, member in track.members.items():
        wanted = build(dict(member, name=member.get('name') or name)).describe()
        ctx.check(same(listed(field.structure[name].describe()), listed(wanted)),
            'the member %s is another field' % name, observed=field.structure[name].describe(), wanted=wanted, **detail)
        ctx.check(field.get(name) is field.structure[name], 'get() gives another field', **detail)
    described = field.describe()['structure']
    ctx.check(same(listed(described), listed(dict((name, member.describe()) for name, member in field.structure.items()))),
        'the description has other members than the structure', observed=described, **detail)
    shown = repr(field)
    ctx.check(all(repr(member) in shown for member in field.structure.values()), 'the printed form lacks a member', observed=shown, **detail)
    missing = object()
    ctx.check(field.get('no-such-member', missing) is missing, 'get() finds an absent member', **detail)
    required = any(model.is_required(m) and m.get('default') is None for m in track.members.values())
    ctx.check(field.has_required_fields == required, 'has_required_fields is wrong', observed=field.has_required_fields,
        **detail)


def case(ctx, rng, index):
    g = gen.Gen(rng, p_errors=0.05, p_title=0.1, p_aspects=0.15, p_constant=0.05, p_poly=0)
    spec = g.spec(rng.choice([1, 2]), 'structure')
    spec.pop('default', None)
    tracks = [Track(build(spec), spec, [])]
    pool = [part(g, rng) for _ in range(3)]
    nested(ctx, rng, g, tracks[0])
    navigation(ctx, rng, g)
    for _ in range(rng.randrange(2, 8)):
        track = rng.choice(tracks)
        edit(ctx, rng, g, tracks, track, pool)
        for t in tracks:
            confirm(ctx, t, track.history[-1:])
        if len(tracks) > 6:
            del tracks[rng.randrange(len(tracks))]
    for track in tracks:
        described = describe_spec(track.spec)
        for value in inputs(rng, track.spec, 4):
            for phase, serialized in PHASES:
                observe(ctx, track.spec, track.field, value, phase, serialized)
            ctx.seen(described, value)
        for _ in range(2):
            value = valid_or_none(rng, track.spec, null=0.02)
            observe(ctx, track.spec, track.field, value)
    for spec, field in pool:
        # the fields the caller edits with are not altered, apart from taking the name of their place
        ctx.check(same(listed(field.describe()), listed(build(dict(spec, name=field.name)).describe())),
            'a field the caller edited with was altered', observed=field.describe(), schema=describe_spec(spec))
        ctx.check(field.name == spec.get('name'), 'a field the caller edited with was renamed', observed=field.name,
            schema=describe_spec(spec))
    enumeration(ctx, rng)
    shared(ctx, rng, g)
    ctx.sample(tracks[-1].history)


def shared(ctx, rng, g):
    """Structures built from one mapping: editing one alters neither the mapping nor the others."""
    names = rng.sample(NAMES, min(len(NAMES), 4))
    specs = [dict(g.spec(0), name=n) for n in names[:-1]]
    given = dict((s['name'], build(s)) for s in specs)
    before = dict(given)
    fields = [scheme.fields.Structure(given) for _ in range(3)]
    if rng.random() < 0.5:
        fields.append(scheme.fields.Structure({'outer': scheme.fields.Structure(given)}).structure['outer'])
    wanted = [set(before) for _ in fields]
    for _ in range(rng.randrange(1, 5)):
        n = rng.randrange(len(fields))
        style = rng.randrange(3)
        if style == 0:
            fields[n].insert(build(dict(g.spec(0), name=names[-1])), True)
            wanted[n].add(names[-1])
        elif style == 1:
            name = rng.choice(names)
            fields[n].merge({name: build(dict(g.spec(0), name=name))}, True)
            wanted[n].add(name)
        else:
            name = rng.choice(names)
            fields[n].remove(name)
            wanted[n].discard(name)
        ctx.check(given == before and all(given[k] is before[k] for k in before),
            'editing a structure altered the mapping it was built from', given=sorted(given), before=sorted(before))
        for field, expected in zip(fields, wanted):
            ctx.check(set(field.structure) == expected, 'editing a structure altered another built from the same mapping',
                observed=sorted(field.structure), expected=sorted(expected))
    ctx.count('edits_of_shared', len(fields))


def some(rng, g, pool, track, taken):
    """{name: (spec, field)} to edit with: new fields, reused fields, members of the structure itself."""
    result = {}
    for _ in range(rng.randrange(1, 4)):
        style = rng.randrange(5)
        names = list(track.members)
        if style == 0 and names:
            source = rng.choice(names)
            entry = (dict(track.members[source], name=track.members[source].get('name') or source), track.field.structure[source])
        elif style == 1:
            entry = rng.choice(pool)
        else:
            entry = part(g, rng)
        if rng.random() < taken and names:
            name = rng.choice(names)
        else:
            name = rng.choice(NAMES)
        result[name] = entry
    return result


def edit(ctx, rng, g, tracks, track, pool):
    kind = rng.choice(['extend', 'extend', 'replace', 'replace', 'insert', 'insert', 'merge', 'merge', 'remove', 'clone',
        'bad'])
    members = track.members
    history = list(track.history)

    def derive(field, new):
        new_track = Track(field, track.spec, history)
        new_track.set(new)
        tracks.append(new_track)

    if kind == 'extend':
        changes = some(rng, g, pool, track, 0.4)
        history.append(('extend', sorted(changes)))
        result = track.field.extend(dict((n, f) for n, (_, f) in changes.items()))
        ctx.check(result is not track.field and type(result) is type(track.field), 'extend() does not return a new structure')
        new = dict(members)
        new.update((n, under(n, s)) for n, (s, _) in changes.items())
        derive(result, new)
    elif kind == 'replace':
        changes = some(rng, g, pool, track, 0.6)
        history.append(('replace', sorted(changes)))
        result = track.field.replace(dict((n, f) for n, (_, f) in changes.items()))
        if not set(changes) & set(members):
            ctx.check(result is track.field, 'replace() without a match does not return the structure itself', edits=history)
            return
        ctx.check(result is not track.field, 'replace() does not return a new structure')
        new = dict((n, under(n, changes[n][0]) if n in changes else s) for n, s in members.items())
        derive(result, new)
    elif kind == 'insert':
        spec, _ = rng.choice(pool)
        if not spec.get('name') or rng.random() < 0.5:
            spec = g.spec(0)
            spec['name'] = rng.choice(list(members) or NAMES) if rng.random() < 0.5 else rng.choice(NAMES)
        overwrite = rng.random() < 0.5
        track.history.append(('insert', spec['name'], overwrite))
        track.field.insert(build(spec), overwrite)
        if overwrite or spec['name'] not in members:
            members[spec['name']] = spec
        track.set(members)
    elif kind == 'merge':
        changes = some(rng, g, pool, track, 0.5)
        prefer = rng.random() < 0.5
        track.history.append(('merge', sorted(changes), prefer))
        track.field.merge(dict((n, f) for n, (_, f) in changes.items()), prefer)
        for n, (s, _) in changes.items():
            if n not in members or prefer:
                members[n] = under(n, s)
        track.set(members)
    elif kind == 'remove':
        names = [rng.choice(list(members) or NAMES) if rng.random() < 0.7 else rng.choice(NAMES)
            for _ in range(rng.randrange(1, 3))]
        track.history.append(('remove', names))
        track.field.remove(*names)
        for n in names:
            members.pop(n, None)
        track.set(members)
    elif kind == 'clone':
        history.append(('clone',))
        derive(track.field.clone() if rng.random() < 0.5 else copy.deepcopy(track.field), members)
    else:
        history.append(('bad',))
        wrong = rng.choice([1, 'text', None, {}, int])
        name = rng.choice(list(members) or ['a'])
        for function, error in ((lambda: track.field.extend({name: wrong}), TypeError),
                (lambda: track.field.merge({name: wrong}, True), TypeError), (lambda: track.field.insert(wrong), TypeError),
                (lambda: track.field.insert(scheme.fields.Text()), ValueError)):
            outcome = attempt(function)
            ctx.check(outcome.kind == 'other' and type(outcome.value) is error, 'a wrong field is not refused',
                value=wrong, observed=outcome)
        if members:
            outcome = attempt(track.field.replace, {name: wrong})
            ctx.check(outcome.kind == 'other' and type(outcome.value) is TypeError, 'a wrong field is not refused',
                value=wrong, observed=outcome)
    ctx.count('edit_' + kind)


def nested(ctx, rng, g, track):
    """Edits of a structure inside the structure."""
    inner = [(n, s) for n, s in track.spec['members'] if s['t'] == 'structure']
    if not inner or rng.random() < 0.5:
        return
    name, spec = rng.choice(inner)
    spec = dict(spec, default=None)
    added = g.spec(0)
    added['name'] = 'inserted'
    before = track.field.clone()
    seen = snapshot(listed(before.describe()))
    track.field.structure[name].default = None
    track.field.structure[name].insert(build(added), True)
    track.history.append(('insert into', name))
    members = track.members
    members[name] = dict(spec, members=[m for m in spec['members'] if m[0] != 'inserted'] + [('inserted', added)])
    track.set(members)
    ctx.check(snapshot(listed(before.describe())) == seen, 'an edit shows in an earlier clone', schema=describe_spec(track.spec))
    confirm(ctx, track, ['nested'])
    ctx.count('nested_edits')


def navigation(ctx, rng, g):
    """Getting the parts of other fields."""
    F = scheme.fields
    values = [g.spec(rng.choice([0, 1])) for _ in range(rng.randrange(1, 4))]
    field = F.Tuple([build(v) for v in values])
    missing = object()
    for i in range(len(values) + 2):
        found = attempt(field.get, i, missing)
        ctx.check(found.kind == 'ok' and found.value is (field.values[i] if i < len(values) else missing), 'get() gives another value of a tuple',
            index=i, observed=found, schema=repr(field))
        if i >= len(values):
            ctx.check(field.get(i) is None, 'get() finds an absent value', index=i)
        else:
            ctx.check(same(listed(field.get(i).describe()), listed(build(values[i]).describe())), 'the value of a tuple is another field', index=i)
    other = rng.choice([F.Integer(), F.Text(), F.Sequence(F.Integer()), F.Map(F.Integer()), F.Union((F.Integer(), F.Text())), F.Boolean(), scheme.Field()])
    found = attempt(other.get, rng.choice(['a', 0, None]), missing)
    ctx.check(found.kind == 'other' and type(found.value) is TypeError, 'a field without named parts gives one', schema=repr(other), observed=found)
    ctx.count('navigated')


def enumeration(ctx, rng):
    pool = gen.WORDS + [1, 2, 2.5, 'two words']
    start = rng.sample(pool, rng.randrange(1, 4))
    field = scheme.fields.Enumeration(rng.choice([list, tuple])(start))
    twin = field.clone()
    wanted = list(start)
    history = [start]
    for _ in range(rng.randrange(1, 5)):
        added = rng.sample(pool, rng.randrange(0, 4))
        as_text = all(isinstance(v, str) and ' ' not in v for v in added) and added and rng.random() < 0.5
        strategy = rng.choice(['append', 'replace', None])
        given = ' '.join(added) if as_text else rng.choice([list, list, tuple])(added)
        kept = given if isinstance(given, (str, tuple)) else list(given)
        history.append((given, strategy))
        if strategy:
            field.redefine(given, strategy)
        else:
            field.redefine(given)
        wanted = list(added) if strategy == 'replace' else wanted + added
        ctx.check(given == kept, 'redefine() altered its argument', edits=history)
        outcome = attempt(field.redefine, ['x'], 'nonsense')
        ctx.check(outcome.kind == 'other' and type(outcome.value) is ValueError, 'an unknown strategy is not refused',
            observed=outcome)
        for value in pool + ['other']:
            if value is None:
                continue
            outcome = attempt(field.process, value)
            accepted = model.listed(value, wanted)
            ctx.check((outcome.kind == 'ok') == accepted, 'the redefined enumeration %s %r' % ('accepts' if not accepted
                else 'refuses', value), edits=history, observed=outcome)
            if not accepted:
                text = outcome.value.errors[0]['message']
                ctx.check(all(repr(v) in text for v in wanted) and len(text.split('must be one of ')[-1].split(', ')) ==
                    len(set(wanted)) if wanted else True, 'the report does not list the redefined values', edits=history, text=text)
        ctx.check(sorted(map(repr, field.describe()['enumeration'])) == sorted(map(repr, set(wanted))),
            'the description does not list the redefined values', edits=history, observed=field.describe())
        ctx.check(list(twin.describe()['enumeration']) == list(start), 'redefining shows in an earlier clone', edits=history)
        ctx.seen('redefine', history)
    ctx.count('redefined')
