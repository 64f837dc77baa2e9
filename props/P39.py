"""P39: what a container makes of its parts is what each part makes of its own value, put together."""

import collections
import datetime as dt
import json
import os

import scheme
from vmon import core, gen
from vmon.build import build, describe_spec
from vmon.core import StructuralError, attempt, same, snapshot
from props.common import PHASES, inputs, serialized_form
from scheme.field import Field
from scheme.surrogate import surrogate

F = scheme.fields
NAMES = ['a', 'b', 'part', 'x y', '\u00e9', 'z9']
OBJECTS = [os.path, json, dt.datetime, collections.OrderedDict, json.dumps, 'os.path', 'json', 'no.such.module', 'os.nothing', 'a b', '', 5, object(), [1], None]


class Doubling(Field):
    """A type of the user's own, with messages, defaults and a serialized form of its own."""
    basetype = 'integer'
    parameters = {'limit': 10}
    errors = [scheme.field.FieldError('invalid', 'invalid value', '%(field)s is no doubling value'),
        scheme.field.FieldError('limit', 'limit', '%(field)s exceeds %(limit)s', show_value=False)]

    def __init__(self, limit=10, **params):
        super(Doubling, self).__init__(**params)
        self.limit = limit

    def _serialize_value(self, value):
        return 'double:%d' % value

    def _unserialize_value(self, value, ancestry):
        if isinstance(value, str) and value.startswith('double:') and value[7:].isdigit():
            return int(value[7:])
        return value

    def _validate_value(self, value, ancestry):
        if type(value) is not int:
            raise core.InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
        if value > self.limit:
            raise core.ValidationError(identity=ancestry, field=self, value=value).construct('limit', limit=self.limit)
        return value


def surrogates(rng):
    """Surrogates in both forms, fine and not."""
    schema = rng.choice([lambda: F.Structure({'n': F.Integer(minimum=1), 'd': F.Date()}), lambda: F.Structure({'n': F.Sequence(F.Integer())}),
        lambda: F.Structure({'n': F.Integer(required=True)}, strict=False)])()
    content = rng.choice([{'n': 3}, {'n': 'x'}, {'n': [1, 'x']}, {'n': [1]}, {}, {'n': None}, {'unknown': 1, 'n': 2}, {'n': 2, 'd': '2020-01-01'}, {'n': 0}])
    form = dict(content, _=rng.choice(['scheme.surrogate.surrogate', 'no.such.kind']), __schema__=schema.describe())
    if rng.random() < 0.2:
        form['__schema__'] = rng.choice([None, 5, {'fieldtype': 'nope'}, {}])
    return [form, surrogate(dict(content), schema), surrogate({'free': 1}), {'_': 'scheme.surrogate.surrogate', 'free': [1]}, {'free': 1}, 'text', 5, None]


def definitions(rng):
    made = [F.Integer(minimum=2), F.Text(name='t'), F.Sequence(F.Text()), F.Structure({'a': F.Boolean()})]
    return made + [f.describe() for f in made] + [{'fieldtype': 'nope'}, {}, 'text', 'nope', 5, None]


def reports(rng):
    error = rng.choice([StructuralError({'token': 'x', 'message': 'm'}), StructuralError(structure={'a': StructuralError('text')}),
        StructuralError(structure=[None, StructuralError({'message': 'm'})])])
    return [error, error.serialize(), list(error.serialize()), (None, None), (1, 2), [5], 'text', None]


def part(rng, g, depth, made):
    """(field, values for it, how it is shown)"""
    roll = rng.randrange(12)
    params = {}
    if rng.random() < 0.3:
        params['name'] = rng.choice(NAMES)
    if rng.random() < 0.2:
        params['nonnull'] = True
    if depth and roll < 5:
        field, values, shown = compose(rng, g, depth - 1)
        return field, values, shown
    if roll == 5:
        return F.Object(**params), OBJECTS, 'object'
    if roll == 6:
        allowed = rng.choice([None, 'integer text', ['sequence', 'structure']])
        return F.Definition(allowed, **params), definitions(rng), 'definition(%s)' % allowed
    if roll == 7:
        return F.Error(**params), reports(rng), 'error'
    if roll == 8:
        allowed = rng.choice([None, None, ['scheme.surrogate.surrogate'], 'a.b c.d'])
        return F.Surrogate(allowed, **params), surrogates(rng), 'surrogate(%s)' % allowed
    if roll == 9:
        return Doubling(limit=rng.choice([3, 10]), **params), [1, 5, 20, 'double:2', 'double:30', 'x', None, [1]], 'doubling'
    spec = g.spec(rng.choice([0, 0, 1]))
    values = inputs(rng, spec, 6)
    values += [serialized_form(spec, v) for v in values[:3]]
    return build(spec), values, describe_spec(spec)


def compose(rng, g, depth):
    """(container, values for it, how it is shown)"""
    kind = rng.choice(['sequence', 'map', 'tuple', 'structure', 'variants'])
    params = {'name': rng.choice(NAMES)} if rng.random() < 0.4 else {}
    plan = make(rng, g, depth, kind, params)
    return plan.field, [plan.whole(rng)[0] for _ in range(5)], plan.shown


class Plan(object):
    """A container, its parts, and how a value of it is put together."""

    def whole(self, rng):
        """(the value, [(place in the value, place in the path, field, value of the part)])"""
        kind = self.kind
        if kind == 'sequence':
            chosen = [rng.choice(self.parts[0][1]) for _ in range(rng.randrange(0, 5) if rng.random() < 0.97 else 150)]
            if rng.random() < 0.1 and chosen:
                chosen = chosen + chosen[-1:]
            return list(chosen), [(i, '[%d]' % i, self.parts[0][0], v) for i, v in enumerate(chosen)]
        if kind == 'map':
            names = rng.sample(NAMES, rng.randrange(0, 4)) if rng.random() < 0.97 else ['k%d' % n for n in range(150)]
            chosen = dict((k, rng.choice(self.parts[0][1])) for k in names)
            return chosen, [(k, '[%s]' % k, self.parts[0][0], v) for k, v in chosen.items()]
        if kind == 'tuple':
            chosen = [rng.choice(values) for _, values, _ in self.parts]
            return tuple(chosen), [(i, '[%d]' % i, p[0], v) for i, (p, v) in enumerate(zip(self.parts, chosen))]
        chosen = {}
        for name, (field, values, _) in zip(self.names, self.parts):
            value = rng.choice(values)
            if (rng.random() < 0.8 or field.required or field.default is not None) and not (value is None and field.ignore_null):
                chosen[name] = value
        places = [(k, '.' + k, dict(zip(self.names, self.parts))[k][0], v) for k, v in chosen.items()]
        if kind == 'variants':
            chosen = dict(chosen, kind='one')
        return chosen, places


def make(rng, g, depth, kind, params):
    plan = Plan()
    plan.kind, made = kind, []
    count = 1 if kind in ('sequence', 'map') else rng.randrange(1, 4)
    plan.parts = [part(rng, g, depth, made) for _ in range(count)]
    if rng.random() < (0.3 if kind == 'tuple' else 0.1):
        # one field several times over
        plan.parts = [plan.parts[0]] * (1 if kind in ('sequence', 'map') else rng.randrange(2, 5))
        count = len(plan.parts)
    plan.names = rng.sample(['m', 'n', 'o', 'p'], count)
    if kind in ('structure', 'variants'):
        # a member whose null would be ignored, or whose absence matters, is always given a value
        plan.parts = [p if not (p[0].ignore_null and (p[0].required or p[0].default is not None)) else (F.Text(), ['a', 1, None], 'text') for p in plan.parts]
    fields = [p[0] for p in plan.parts]
    if kind == 'sequence':
        plan.field = F.Sequence(fields[0], **params)
    elif kind == 'map':
        plan.field = F.Map(fields[0], **params)
    elif kind == 'tuple':
        plan.field = F.Tuple(fields, **params)
    elif kind == 'structure':
        plan.field = F.Structure(dict(zip(plan.names, fields)), **params)
    else:
        plan.field = F.Structure({'one': dict(zip(plan.names, fields)), 'two': {'q': F.Integer()}}, polymorphic_on='kind', **params)
    plan.shown = '%s(%s)' % (kind, ', '.join(p[2] for p in plan.parts))
    return plan


def image(value):
    """A value as comparable data, through what has no equality of its own."""
    if isinstance(value, Field):
        return ('field', type(value).__name__, image(value.describe()))
    if isinstance(value, StructuralError):
        return ('error', type(value).__name__, image(value.serialize()))
    if isinstance(value, surrogate):
        return ('surrogate', value.surrogate, value.version, image(value.schema), [(snapshot(k), image(v)) for k, v in value.items()])
    if isinstance(value, dict):
        return ('dict', sorted(((snapshot(k), image(v)) for k, v in value.items()), key=repr))
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, [image(v) for v in value])
    if isinstance(value, (str, bytes, int, float, type(None), dt.date, dt.time)) or value.__class__.__name__ == 'Decimal':
        return snapshot(value)
    return ('object', id(value))


def leaves(error):
    if error.structure is None:
        return [error]
    found = []
    for inner in error.structure.values() if isinstance(error.structure, dict) else error.structure:
        if isinstance(inner, StructuralError):
            found += leaves(inner)
    return found


def unraised(error):
    """Whether a report has valid values within which are errors: known finding of P08."""
    if error.structure is None:
        return error.identity == '(unknown)'
    inner = error.structure.values() if isinstance(error.structure, dict) else error.structure
    return error.identity == '(unknown)' or any(isinstance(e, StructuralError) and unraised(e) for e in inner)


def told(error):
    """[(path, message)] of every error of a report."""
    return sorted((''.join(leaf.identity), entry.get('token'), entry.get('message')) for leaf in leaves(error) for entry in leaf.errors)


def form_of(error):
    """What the report becomes within another one."""
    errors, structure = error.serialize()
    return structure if error.structure is not None else errors


def judge(ctx, plan, whole, outcome, alone, detail):
    """The outcome of a container against the outcomes of its parts."""
    others = [o for _, _, o in alone if o.kind == 'other']
    if outcome.kind == 'other':
        ctx.check(any(type(o.value) is type(outcome.value) for o in others), 'a container fails where none of its parts does', **detail)
        ctx.count('failed')
        return
    if others:
        ctx.check(False, 'a container hides the failure of a part', alone=alone, **detail)
        return
    refused = [(place, path, o.value) for place, path, o in alone if o.kind == 'error']
    if not refused:
        ctx.check(outcome.kind == 'ok', 'a container refuses parts which are accepted by themselves', alone=alone, **detail)
        value = outcome.value
        wanted = dict((place, o.value) for place, _, o in alone)
        if plan.kind == 'variants':
            wanted['kind'] = 'one'
        if plan.kind in ('sequence', 'tuple'):
            wanted = {'sequence': list, 'tuple': tuple}[plan.kind](wanted[i] for i in range(len(wanted)))
        ctx.check(image(value) == image(wanted), 'a container gives another value than its parts do', wanted=wanted, **detail)
        ctx.count('accepted')
        return
    ctx.check(outcome.kind == 'error', 'a container accepts a part which is refused by itself', alone=alone, **detail)
    error = outcome.value
    if any(o.kind != 'ok' and unraised(o.value) or isinstance(o.value, StructuralError) and o.kind == 'ok' for _, _, o in alone):
        ctx.count('valid errors')  # known finding of P08: these are reported like the others
        return
    root = plan.field.guaranteed_name
    wanted = []
    for place, path, inner in refused:
        for where, token, message in told(inner):
            own = field_root(alone_field(plan, place), where)
            wanted.append((root + path + own, token, message))
    ctx.check(told(error) == sorted(wanted), 'the report of a container tells something else than those of its parts', told=told(error), wanted=sorted(wanted),
        **detail)
    structure = error.serialize()[1]
    at = dict((place, form_of(inner)) for place, _, inner in refused)
    if plan.kind in ('sequence', 'tuple'):
        at = [at.get(i) for i in range(len(alone))]
    ctx.check(error.serialize()[0] is None and same(structure, at), 'the serialized report of a container is not that of its parts',
        observed_report=error.serialize(), wanted_report=at, **detail)
    ctx.count('refused')


def alone_field(plan, place):
    if plan.kind in ('sequence', 'map'):
        return plan.parts[0][0]
    return plan.parts[place if plan.kind == 'tuple' else plan.names.index(place)][0]


def field_root(field, where):
    root = field.guaranteed_name
    if not where.startswith(root):
        raise core.HarnessError('a path does not start with the field: %r, %r' % (where, root))
    return where[len(root):]


OPERATIONS = [('extract', lambda f, v: f.extract(v)), ('instantiate', lambda f, v: f.instantiate(v)),
    ('interpolate', lambda f, v: f.interpolate(v, {'x': 4, 'y': [1]}))]


def case(ctx, rng, index):
    g = gen.Gen(rng, p_pre=0.05, p_errors=0.1, p_constant=0.1, p_default=0.2, p_bounds=0.5, p_nonnull=0.2, p_ignored=0.1, p_required=0.2, p_name=0.3)
    kind = rng.choice(['sequence', 'map', 'tuple', 'structure', 'variants'])
    plan = make(rng, g, rng.choice([0, 1, 1, 2]), kind, {'name': rng.choice(NAMES)} if rng.random() < 0.5 else {})
    copies = [('container', plan.field), ('clone', plan.field.clone())]
    for _ in range(5):
        whole, places = plan.whole(rng)
        if kind in ('sequence', 'map') and len(set(map(str, dict((p, 0) for p, _, _, _ in places)))) != len(places):
            continue
        for phase, serialized in PHASES:
            alone = [(place, path, attempt(field.process, value, phase, serialized)) for place, path, field, value in places]
            what, container = rng.choice(copies)
            outcome = attempt(container.process, whole, phase, serialized)
            judge(ctx, plan, whole, outcome, alone, {'schema': plan.shown, 'value': whole, 'phase': phase, 'serialized': serialized, 'through': what,
                'observed': outcome})
        for what, call in OPERATIONS:
            alone = [(place, attempt(call, field, value)) for place, _, field, value in places]
            if any(o.kind != 'ok' for _, o in alone) or kind == 'variants' and what == 'interpolate':
                continue
            outcome = attempt(call, plan.field, whole)
            wanted = dict((place, o.value) for place, o in alone)
            if kind == 'variants':
                wanted['kind'] = 'one'
            if kind in ('sequence', 'tuple'):
                wanted = {'sequence': list, 'tuple': tuple}[kind](wanted[i] for i in range(len(alone)))
            elif what == 'extract' and kind != 'map':
                wanted = dict((k, v) for k, v in wanted.items() if whole[k] is not None)
            ctx.check(outcome.kind == 'ok' and image(outcome.value) == image(wanted), 'a container gives something else than its parts when asked to %s' % what,
                schema=plan.shown, value=whole, wanted=wanted, observed=outcome)
            ctx.count(what)
        ctx.seen(plan.shown, core.show(whole))
    described = attempt(plan.field.describe)
    if described.kind == 'ok':
        form = described.value
        if kind == 'sequence':
            inner = [form['item']]
        elif kind == 'map':
            inner = [form['value']]
        elif kind == 'tuple':
            inner = list(form['values'])
        else:
            inner = [(form['structure']['one'] if kind == 'variants' else form['structure'])[n] for n in plan.names]
        wanted = [p[0].describe() for p in plan.parts]
        ctx.check(same(inner, wanted), 'a container describes its parts otherwise than they do', observed=inner, wanted=wanted, schema=plan.shown)
    for p, name in zip(plan.parts, plan.names):
        ctx.check(repr(p[0]) in repr(plan.field), 'a container shows its parts otherwise than they do', schema=plan.shown)
    ctx.sample(plan.shown)
