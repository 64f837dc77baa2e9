"""P24: extraction and instantiation select and convert each member exactly once."""

import copy

from vmon import core, gen, model, moves
from vmon.build import build, describe_spec, walk
from vmon.core import attempt, same, scheme, snapshot
from vmon.moves import Bag, Box
from props.common import canonical_values, has_kind, valid_or_none

ASPECTS = ['audience', 'stage', 'hidden']
LEVELS = [1, 2, 'x', True]


def give_aspects(rng, spec):
    for node in walk(spec):
        if node['t'] != 'undef' and rng.random() < 0.35:
            node['aspects'] = dict((a, rng.choice(LEVELS)) for a in rng.sample(ASPECTS, rng.choice([1, 1, 2])))


def criteria_for(rng, spec):
    """Criteria which the root often meets, so that screening reaches its parts."""
    own = spec.get('aspects') or {}
    if own and rng.random() < 0.7:
        chosen = rng.sample(sorted(own), rng.randrange(1, len(own) + 1))
        return dict((k, own[k]) for k in chosen)
    criteria = dict((a, rng.choice(LEVELS)) for a in rng.sample(ASPECTS, rng.choice([1, 1, 2])))
    if rng.random() < 0.3:
        criteria = dict((k, None) for k in criteria)
    return criteria


def log_key(call):
    return len(call), call[0]


def same_calls(wanted, observed):
    """Whether the same calls were made, each as often, in whatever order among siblings."""
    if len(wanted) != len(observed):
        return False
    rest = list(observed)
    for call in wanted:
        for i, other in enumerate(rest):
            if call[0] == other[0] and len(call) == len(other) and all(same(a, b) for a, b in zip(call[1:], other[1:])):
                del rest[i]
                break
        else:
            return False
    return True


def objects(rng, spec, subject, chance):
    """The subject with some mappings as objects, and with what no schema declares."""
    if isinstance(subject, Box):
        return Box(subject.name, objects(rng, spec, subject.value, chance))
    t = spec['t']
    if t == 'structure' and isinstance(subject, dict):
        if spec.get('on'):
            identity = subject.get(model.discriminator(spec)['name'])
            members = model.variant_members(spec, identity) or {}
        else:
            members = dict(spec['members'])
        result = dict((k, objects(rng, members[k], v, chance) if k in members else v) for k, v in subject.items())
        if rng.random() < 0.3:
            result[rng.choice(['undeclared', 'items_', '_private'])] = rng.choice([1, [2], {'z': 1}])
        if rng.random() < 0.2 and result:
            result[rng.choice(sorted(result))] = None
        if rng.random() < 0.2 and result:
            del result[rng.choice(sorted(result))]
        if rng.random() < chance and all(isinstance(k, str) for k in result):
            return Bag(result)
        if rng.random() < 0.2:
            absent = [k for k in members if k not in result]
            result = Attributed(result, dict((k, rng.choice([1, 'text', [], {}, None])) for k in absent))
        return result
    if t == 'map' and isinstance(subject, dict):
        return dict((k, objects(rng, spec['value'], v, chance)) for k, v in subject.items())
    if t == 'sequence' and isinstance(subject, (list, tuple)):
        items = [objects(rng, spec['item'], v, chance) for v in subject]
        return tuple(items) if rng.random() < 0.2 else items
    if t == 'tuple' and isinstance(subject, (list, tuple)):
        items = [objects(rng, s, v, chance) for s, v in zip(spec['values'], subject)]
        if rng.random() < 0.1:
            items = items[:-1]
        elif rng.random() < 0.1:
            items.append('more')
        return items if rng.random() < 0.3 else tuple(items)
    return subject


class Attributed(dict):
    """A mapping which has attributes, too."""

    def __init__(self, content, attributes):
        dict.__init__(self, content)
        self.__dict__.update(attributes)


def misfit(rng, subject):
    """The subject with one part of it replaced."""
    if isinstance(subject, Box) and rng.random() < 0.7:
        if rng.random() < 0.3:
            return Box('other', subject.value)
        return Box(subject.name, misfit(rng, subject.value))
    if isinstance(subject, dict) and subject and rng.random() < 0.8:
        key = rng.choice(list(subject))
        subject = dict(subject)
        subject[key] = misfit(rng, subject[key])
        return subject
    if isinstance(subject, (list, tuple)) and subject and rng.random() < 0.8:
        i = rng.randrange(len(subject))
        return type(subject)(list(subject[:i]) + [misfit(rng, subject[i])] + list(subject[i + 1:]))
    return rng.choice([1, 'text', [], {}, (), Box('nobody', 1), Bag({'a': 1}), None, [1, 2], {'a': 1}])


def without_nulls(value):
    if isinstance(value, dict):
        return all(v is not None and without_nulls(v) for v in value.values())
    if isinstance(value, (list, tuple)):
        return all(without_nulls(v) for v in value)
    return True


def picture(value):
    """A value copy through boxes and bags."""
    if isinstance(value, Box):
        return ('box', value.name, picture(value.value))
    if isinstance(value, Bag):
        return ('bag', picture(value.__dict__))
    if isinstance(value, dict):
        return ('dict', [(snapshot(k), picture(v)) for k, v in value.items()])
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, [picture(v) for v in value])
    return snapshot(value)


def case(ctx, rng, index):
    unions = rng.random() < 0.35
    kinds = dict(containers=('structure', 'structure', 'sequence', 'map', 'tuple') + (('union',) if unions else ()))
    g = gen.Gen(rng, p_constant=0, p_default=0.1, odd=False, **kinds)
    spec = g.spec(rng.choice([0, 1, 2, 2, 3]))
    calls = []
    chance = rng.choice([0, 0.2, 0.4, 0.8])
    moves.attach(rng, spec, calls, chance)
    if not has_kind(spec, 'union'):
        give_aspects(rng, spec)
    try:
        field = build(spec)
    finally:
        del calls[:]
    if not has_kind(spec, 'union'):
        for value in canonical_values(rng, spec, 3, odd=False):
            instantiation(ctx, rng, spec, field, value, calls)
    for _ in range(4):
        value = valid_or_none(rng, spec, odd=False)
        try:
            subject = boxed(spec, value)
        except (model.Undecided, KeyError, AttributeError, TypeError):
            continue
        lenient = rng.random() < 0.5
        subject = objects(rng, spec, subject, 0.4 if lenient or rng.random() < 0.1 else 0)
        if rng.random() < 0.2:
            subject = misfit(rng, subject)
        criteria = {}
        if not has_kind(spec, 'union') and rng.random() < 0.5:
            criteria = criteria_for(rng, spec)
        extraction(ctx, spec, field, subject, not lenient, criteria, calls)
    declared_ways(ctx, rng)
    failing(ctx, rng)
    ctx.sample(describe_spec(spec))


def boxed(spec, value):
    """What could be extracted to give ``value``; unions take the first alternative that fits."""
    t = spec['t']
    if t == 'undef':
        return boxed(spec['target'], value)
    if value is None:
        return None
    if t == 'structure':
        if spec.get('on'):
            members = model.variant_members(spec, value[model.discriminator(spec)['name']])
        else:
            members = dict(spec['members'])
        value = dict((k, boxed(members[k], v) if k in members else v) for k, v in value.items())
    elif t == 'map':
        value = dict((k, boxed(spec['value'], v)) for k, v in value.items())
    elif t == 'sequence':
        value = [boxed(spec['item'], v) for v in value]
    elif t == 'tuple':
        value = tuple(boxed(s, v) for s, v in zip(spec['values'], value))
    elif t == 'union':
        for alternative in spec['fields']:
            if model.process(alternative, value).ok:
                value = boxed(alternative, value)
                break
    hook = spec.get('extractor')
    return Box(hook.name, value) if hook else value


def instantiation(ctx, rng, spec, field, value, calls):
    detail = {'schema': describe_spec(spec), 'value': value}
    expected_calls = []
    key = rng.choice([None, None, 'k'])
    try:
        wanted = moves.instantiate(spec, value, key, expected_calls)
    except model.Undecided:
        return
    before = snapshot(value)
    del calls[:]
    outcome = attempt(field.instantiate, value) if key is None else attempt(field.instantiate, value, key)
    observed_calls = list(calls)
    ctx.check(outcome.kind == 'ok' and same(outcome.value, wanted), 'instantiation gives something else', expected=wanted,
        observed=outcome, **detail)
    ctx.check(same_calls(expected_calls, observed_calls), 'instantiators are not called once per value, with its key',
        expected=expected_calls, observed=observed_calls, **detail)
    ctx.check(snapshot(value) == before, 'instantiation changed the value', **detail)
    ctx.count('instantiated')
    ctx.count('instantiator_calls', len(observed_calls))
    ctx.seen('instantiate', detail['schema'], value)
    made = outcome.value
    again = attempt(field.instantiate, value) if key is None else attempt(field.instantiate, value, key)
    ctx.check(core.same_outcome(outcome, again), 'instantiation depends on earlier ones', observed=again, **detail)
    del calls[:]
    back = attempt(field.extract, made)
    if without_nulls(value):
        ctx.check(back.kind == 'ok' and same(back.value, value), 'what was instantiated is not extracted', made=made,
            observed=back, **detail)
        ctx.count('returned')
    extraction(ctx, spec, field, made, True, {}, calls)


def extraction(ctx, spec, field, subject, strict, criteria, calls):
    detail = {'schema': describe_spec(spec), 'subject': subject, 'strict': strict, 'criteria': criteria}
    expected_calls = []
    wanted = moves.expected(moves.extract, spec, subject, strict, criteria, expected_calls)
    before = picture(subject)
    del calls[:]
    outcome = attempt(field.extract, subject, strict, **criteria)
    observed_calls = list(calls)
    problem = moves.mismatch(wanted, outcome)
    ctx.check(not problem, 'extraction: %s' % problem, expected=wanted, observed=outcome, **detail)
    if wanted[0] == 'ok' and not has_kind(spec, 'union'):
        ctx.check(same_calls(expected_calls, observed_calls), 'extractors are not called once per member',
            expected=expected_calls, observed=observed_calls, **detail)
    ctx.check(picture(subject) == before, 'extraction changed its subject', **detail)
    ctx.count('extracted' if wanted[0] == 'ok' else 'refused_' + wanted[1])
    ctx.count('extractor_calls', len(observed_calls))
    if criteria:
        ctx.count('screened')
    if wanted[0] == 'ok' and not strict:
        ctx.count('lenient')
    ctx.seen('extract', detail['schema'], before, strict, criteria)


class Thing(object):
    """An object which knows how to be made and taken apart."""

    def __init__(self, value, key):
        self.value, self.key = value, key

    @classmethod
    def __instantiate__(cls, field, value, key=None):
        return cls(value, key)

    @classmethod
    def __extract__(cls, field, subject):
        return subject.value


def make_thing(field, value, key=None):
    return Thing(value, key)


def take_thing(field, subject):
    return subject.value


def declared_ways(ctx, rng):
    """Hooks given as callables, as import paths and by classes which carry them."""
    ways = [(make_thing, take_thing), (__name__ + '.make_thing', __name__ + '.take_thing'), (Thing, Thing),
        (__name__ + '.Thing', __name__ + '.Thing')]
    made = rng.choice(ways)
    taken = rng.choice(ways)
    F = scheme.fields
    kind = rng.choice([lambda **p: F.Integer(**p), lambda **p: F.Sequence(F.Integer(), **p),
        lambda **p: F.Map(F.Integer(), **p), lambda **p: F.Structure({'x': F.Integer()}, **p),
        lambda **p: F.Tuple((F.Integer(), F.Integer()), **p)])
    field = kind(instantiator=made[0], extractor=taken[1])
    value = {'integer': 4, 'sequence': [1, 2], 'map': {'x': 1}, 'structure': {'x': 1}, 'tuple': (1, 2)}[field.type]
    whole = F.Structure({'part': field})
    outcome = attempt(whole.instantiate, {'part': value})
    ctx.check(outcome.kind == 'ok' and type(outcome.value['part']) is Thing and outcome.value['part'].value == value
        and outcome.value['part'].key == 'part', 'an instantiator given another way is not used', way=made, observed=outcome)
    back = attempt(whole.extract, outcome.value)
    ctx.check(back.kind == 'ok' and back.value == {'part': value}, 'an extractor given another way is not used', way=taken,
        observed=back)
    again = field.clone()
    ctx.check(type(again.instantiate(value)) is Thing and again.extract(Thing(value, None)) == value,
        'the clone of a field lost its hooks')
    ctx.count('declared_ways')


class Own(Exception):
    pass


def failing(ctx, rng):
    """A hook which fails: nothing is left out silently."""
    g = gen.Gen(rng, p_default=0, p_constant=0, p_pre=0, containers=('structure', 'sequence', 'map', 'tuple'), odd=False)
    spec = g.spec(rng.choice([1, 2, 3]), rng.choice(['structure', 'sequence', 'map', 'tuple']))
    nodes = [n for n in walk(spec) if n['t'] != 'undef']
    for node in nodes:
        for part in (node.get('on'), node.get('key')):
            if isinstance(part, dict):
                nodes = [n for n in nodes if all(n is not s for s in walk(part))]
    node = rng.choice(nodes)
    failure = rng.choice([AttributeError, KeyError, TypeError, ValueError, IndexError, Own, LookupError])('of the hook')
    raised = []

    def instantiator(field, value, key=None):
        raised.append(value)
        raise failure

    def extractor(field, subject):
        raised.append(subject)
        raise failure
    node['instantiator'], node['extractor'] = instantiator, extractor
    field = build(spec)
    for value in canonical_values(rng, spec, 3, odd=False):
        del raised[:]
        outcome = attempt(field.instantiate, value)
        if raised:
            ctx.check(outcome.kind == 'other' and outcome.value is failure, 'the failure of an instantiator is hidden', schema=describe_spec(spec),
                value=value, observed=outcome)
            ctx.count('failed_instantiators')
        else:
            ctx.check(outcome.kind == 'ok', 'instantiation fails by itself', schema=describe_spec(spec), value=value, observed=outcome)
        del raised[:]
        outcome = attempt(field.extract, value)
        if raised:
            ctx.check(outcome.kind == 'other' and type(outcome.value).__name__ == 'CannotExtractError', 'the failure of an extractor is hidden',
                schema=describe_spec(spec), value=value, observed=outcome)
            ctx.count('failed_extractors')
