"""P20: a clone behaves like its original and shares nothing changeable with it."""

import copy

from vmon import core, gen, model, moves
from vmon.build import build, describe_spec, field_class, walk
from vmon.core import attempt, same, scheme, snapshot
from vmon.oracle import observe
from props.common import PHASES, inputs, serialized_form
from scheme.field import Field, FieldError


def case(ctx, rng, index):
    g = gen.Gen(rng, p_pre=0.05, p_errors=0.15, p_title=0.15, p_aspects=0.25, p_constant=0.08,
        p_default=rng.choice([0.1, 0.4]), p_order=0.3, p_poly=0.3)
    spec = g.spec(rng.choice([0, 1, 1, 2, 3]))
    if rng.random() < 0.3:
        moves.attach(rng, spec, [], 0.4)
    field = build(spec)
    duplicate = copy.deepcopy if rng.random() < 0.4 else lambda f: f.clone()
    values = inputs(rng, spec, 4)
    clone = duplicate(field)
    detail = {'schema': describe_spec(spec)}
    alike(ctx, spec, field, clone, values, detail)
    if rng.random() < 0.3:
        alike(ctx, spec, field, duplicate(clone), values, dict(detail, note='clone of a clone'))
    overrides(ctx, rng, g, spec, field, values)
    changes(ctx, rng, field, clone, values, detail)
    references(ctx, rng)
    ctx.sample(describe_spec(spec))


def essential(value):
    """A description without the attribute enumerations gain when cloned (see KNOWN)."""
    if isinstance(value, dict):
        return dict((k, essential(v)) for k, v in value.items()
            if not (k == 'representation' and value.get('fieldtype') == 'enumeration'))
    if isinstance(value, (list, tuple)):
        return type(value)(essential(v) for v in value)
    return value


def representation():
    field = scheme.fields.Enumeration('a b')
    if field.describe() == {'fieldtype': 'enumeration', 'enumeration': ['a', 'b']} and field.clone().describe() == {
            'fieldtype': 'enumeration', 'enumeration': ['a', 'b'], 'representation': "'a', 'b'"}:
        return 'the clone of an enumeration gains an attribute'


def recursive_clone():
    placeholder = scheme.field.Undefined()
    field = scheme.fields.Sequence(placeholder)
    placeholder.define(field)
    try:
        field.clone()
    except RecursionError:
        return 'a recursive schema cannot be cloned'


KNOWN = {'enumeration-representation': representation, 'recursive-clone': recursive_clone}


def view(field, values):
    """Everything the check can observe of a field."""
    return (snapshot(essential(field.describe())), snapshot(essential(field.describe(verbose=True))), repr(field),
        [attempt(field.process, v, phase, serialized) for v in values for phase, serialized in PHASES]
        + [attempt(field.extract, v) for v in values])


def difference(a, b):
    if a[0] != b[0]:
        return 'the description'
    if a[1] != b[1]:
        return 'the verbose description'
    if a[2] != b[2]:
        return 'the text shown'
    for x, y in zip(a[3], b[3]):
        if not core.same_outcome(x, y):
            return 'an outcome: %r, %r' % (x, y)


def alike(ctx, spec, field, clone, values, detail):
    ctx.check(clone is not field, 'the clone is the original', **detail)
    ctx.check(type(clone) is type(field), 'the clone has another type', clone=type(clone), **detail)
    problem = difference(view(field, values), view(clone, values))
    ctx.check(not problem, 'the clone differs from its original in %s' % problem, original=field.describe(),
        clone=clone.describe(), **detail)
    for value in values:
        for phase, serialized in PHASES:
            observe(ctx, spec, clone, value, phase, serialized)
        ctx.seen(detail['schema'], value)
    shared = set(id(f) for f in fields_of(field)) & set(id(f) for f in fields_of(clone))
    ctx.check(not shared, 'the clone shares nested fields with its original', **detail)
    ctx.count('clones')


def fields_of(field):
    result = [field]
    if isinstance(field, field_class('Structure')):
        parts = field.structure.values()
        if field.polymorphic:
            parts = [f for variant in parts for f in variant.values()] + [field.polymorphic_on]
    elif isinstance(field, field_class('Map')):
        parts = [field.value] + ([field.key] if field.key else [])
    elif isinstance(field, field_class('Sequence')):
        parts = [field.item]
    elif isinstance(field, field_class('Tuple')):
        parts = field.values
    elif isinstance(field, field_class('Union')):
        parts = field.fields
    else:
        parts = []
    for part in parts:
        result.extend(fields_of(part))
    return result


# ---------------------------------------------------------------- overridden parameters

def override(rng, g, spec):
    """(parameters for clone(), the specification they make)"""
    params, target = {}, dict(spec)
    t = spec['t']
    choices = ['name', 'required', 'nonnull', 'title', 'aspect', 'aspects', 'default', 'default', 'ignore_null', 'notes']
    if t in ('text', 'binary', 'sequence'):
        choices += ['min_length', 'max_length'] * 2
    if t == 'datetime':
        choices += ['utc'] * 2
    if t in ('integer', 'float'):
        choices += ['minimum', 'maximum'] * 2
    if t in ('structure', 'sequence', 'map', 'tuple', 'union'):
        choices += ['parts'] * 2
    if t == 'structure':
        choices += ['strict'] * 2
    if t == 'enumeration':
        choices += ['enumeration'] * 2
    chosen = sorted(set(rng.choice(choices) for _ in range(rng.randrange(1, 4))))
    if 'parts' in chosen and 'default' in chosen:
        chosen.remove('default')
    for choice in chosen:
        if choice in ('name', 'title', 'notes'):
            value = rng.choice(['other', 'renamed', None])
        elif choice in ('required', 'nonnull', 'ignore_null', 'strict', 'utc'):
            value = not spec.get(choice, choice == 'strict')
            if spec.get('nonempty'):
                continue
        elif choice == 'aspect':
            params['weight'] = 5
            target['aspects'] = dict(spec.get('aspects') or {}, weight=5)
            continue
        elif choice == 'aspects':
            value = rng.choice([{'colour': 'red'}, {'colour': [1], 'weight': 2}, {}])
            params['aspects'] = dict(value)
            target['aspects'] = dict(value, weight=5) if 'weight' in params else dict(value)
            continue
        elif choice == 'default':
            value = rng.choice([None, g.try_valid(spec)])
        elif choice in ('min_length', 'max_length'):
            value = rng.choice([None, 0 if choice == 'min_length' else 9, 1 if choice == 'min_length' else 5])
            if spec.get('nonempty') and choice == 'min_length':
                continue
        elif choice in ('minimum', 'maximum'):
            value = rng.choice([None, rng.choice(gen.INTS if t == 'integer' else gen.FLOATS)])
        elif choice == 'enumeration':
            value = rng.sample(gen.WORDS, 2)
            params['enumeration'] = list(value)
            target['values'] = value
            target.pop('as_text', None)
            continue
        elif choice == 'parts':
            part = g.spec(1)
            if t == 'structure' and not spec.get('on') and not spec.get('key_order'):
                params['structure'] = {'swapped': build(part)}
                target['members'] = [('swapped', part)]
            elif t == 'sequence':
                params['item'] = build(part)
                target['item'] = part
            elif t == 'map':
                params['value'] = build(part)
                target['value'] = part
            elif t == 'tuple':
                params['values'] = [build(part)]
                target['values'] = [part]
            elif t == 'union':
                params['fields'] = [build(part)]
                target['fields'] = [part]
            else:
                continue
            # the default belongs to the old parts
            params['default'] = target['default'] = None
            continue
        params[choice] = target[choice] = value
    return params, target


def overrides(ctx, rng, g, spec, field, values):
    params, target = override(rng, g, spec)
    before = view(field, values)
    clone = field.clone(**params)
    detail = {'schema': describe_spec(spec), 'overrides': params}
    after = view(field, values)
    problem = difference(before, after)
    ctx.check(not problem, 'cloning changed the original in %s' % problem, **detail)
    try:
        reference = build(target)
    except (TypeError, ValueError):
        raise core.HarnessError(describe_spec(target))
    ctx.check(same(essential(clone.describe()), essential(reference.describe())), 'a clone with other parameters has another description than '
        'such a field', clone=clone.describe(), expected=reference.describe(), **detail)
    for value in values + inputs(rng, target, 2):
        for phase, serialized in PHASES:
            observe(ctx, target, clone, value, phase, serialized)
    ctx.count('overridden', len(params))
    ctx.seen('override', describe_spec(spec), sorted(params))


# ---------------------------------------------------------------- later changes

def alter(rng, node):
    """Changes one field object in place; returns what was done, or None."""
    choice = rng.randrange(10)
    if choice == 0:
        node.required = not node.required
        return 'required'
    if choice == 1:
        node.nonnull = not node.nonnull
        return 'nonnull'
    if choice == 2:
        node.name = 'altered'
        return 'name'
    if choice == 3:
        node.aspects['altered'] = True
        return 'aspects'
    if choice == 4 and isinstance(node.default, dict):
        node.default['altered'] = 1
        for v in node.default.values():
            if isinstance(v, list):
                v.append('altered')
        return 'default in place'
    if choice in (4, 5) and isinstance(node.default, list):
        node.default.append('altered')
        return 'default in place'
    if choice == 5 and 'errors' in node.__dict__:
        node.errors['invalid'] = FieldError('invalid', 'altered', 'altered')
        for error in node.__dict__['errors'].values():
            if error.title.startswith('custom'):
                error.message = 'altered in place'
        return 'errors'
    if choice == 6 and isinstance(node, field_class('Structure')):
        if node.polymorphic:
            variant = rng.choice(list(node.structure.values()))
            variant['altered'] = field_class('Text')(name='altered')
        elif node.structure and rng.random() < 0.5:
            node.remove(rng.choice(list(node.structure)))
        else:
            node.insert(field_class('Text')(name='altered'), True)
        return 'members'
    if choice == 7 and isinstance(node, field_class('Enumeration')) and isinstance(node.enumeration, list):
        node.enumeration.append('altered')
        if isinstance(node.ignored_values, list):
            node.ignored_values.append('altered')
        return 'enumeration'
    if choice == 8:
        for name in ('key_order', 'required_keys'):
            value = node.__dict__.get(name)
            if isinstance(value, list):
                value.append('altered')
                return name
            if isinstance(value, set):
                value.add('altered')
                return name
    if choice == 9:
        node.title = 'altered'
        if isinstance(node, field_class('Integer')):
            node.minimum = 10**40
            return 'minimum'
        if isinstance(node, (field_class('Sequence'), field_class('Text'))):
            node.min_length = 99
            return 'min_length'
        if isinstance(node, field_class('Sequence')):
            node.item = field_class('Boolean')()
            return 'item'
        return 'title'


def changes(ctx, rng, field, clone, values, detail):
    pair = [field, clone]
    rng.shuffle(pair)
    kept, altered = pair
    values = copy.deepcopy(values)  # a value may be the default which is altered
    before = view(kept, values)
    done = []
    for _ in range(4):
        node = rng.choice(fields_of(altered))
        what = alter(rng, node)
        if what:
            done.append('%s of %s' % (what, type(node).__name__))
    after = view(kept, values)
    problem = difference(before, after)
    ctx.check(not problem, 'changing one shows in the other (%s) in %s' % ('clone altered' if altered is clone
        else 'original altered', problem), changes=done, **detail)
    ctx.count('later_changes', len(done))


# ---------------------------------------------------------------- reference fields

def references(ctx, rng):
    F = scheme.fields
    makers = [
        lambda: F.Object(name='o', required=True), lambda: F.Error(name='e', nonnull=True),
        lambda: F.Definition(name='d'), lambda: F.Definition(['integer', 'text'], description='x'),
        lambda: F.Definition('integer', title='y'),
        lambda: F.Surrogate(name='s'), lambda: F.Email(name='m', multiple=True, nonnull=True),
        lambda: F.Email(extended=True, errors=[FieldError('pattern', 'custom', 'custom %(field)s')]),
        lambda: F.UUID(), lambda: F.UUID(title='u'), lambda: F.Token(segments=2),
        lambda: F.Structure({'a': F.Object(), 'b': F.Definition(['map']), 'c': F.Error()}, name='z')]
    make = rng.choice(makers)
    field = make()
    values = [None, 1, 'a', 'a:b', 'scheme.fields.Integer', F.Integer(), F.Text(minimum=1), {'fieldtype': 'integer'},
        {'fieldtype': 'boolean'}, {}, {'a': 'scheme.fields.Text', 'b': {'fieldtype': 'integer'}}, 'a@b.co,c@d.ee',
        {'_': 'no.such.Thing', '_version': 1}]
    for clone in (field.clone(), copy.deepcopy(field)):
        ctx.check(type(clone) is type(field) and clone is not field, 'the clone has another type', original=field)
        ctx.check(same(essential(clone.describe()), essential(field.describe())), 'the clone has another description', original=field.describe(),
            clone=clone.describe())
        for value in values:
            a, b = attempt(field.process, value, 'inbound', True), attempt(clone.process, value, 'inbound', True)
            alike = core.same_outcome(a, b)
            if a.kind == b.kind == 'ok' and isinstance(a.value, Field):
                alike = type(a.value) is type(b.value) and same(essential(a.value.describe()), essential(b.value.describe()))
            if a.kind == b.kind == 'ok' and isinstance(a.value, dict):
                alike = set(a.value) == set(b.value)
            ctx.check(alike, 'the clone gives another outcome', original=field.describe(), value=value, observed=b,
                expected=a)
    ctx.count('reference_fields')
