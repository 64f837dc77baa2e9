"""P19: a description is plain data, and rebuilds a schema which behaves alike."""

import copy
import decimal
import json

from vmon import core, gen, model
from vmon.build import build, children, describe_spec, walk
from vmon.core import attempt, same, snapshot
from vmon.oracle import observe
from props.common import PHASES, inputs
from scheme.field import Field

DROPPED = ('pre', 'errors', 'errors_as_dict', 'pattern', 'instantiator', 'extractor')
PLAIN = ('name', 'description', 'title', 'notes', 'nonnull', 'required', 'ignore_null', 'min_length', 'max_length',
    'unique', 'strip', 'multiple', 'extended', 'segments', 'utc')


def native(value):
    return core.json_native(value) is None


def pairs(spec, value):
    """[(member spec, part of the default)] of a container's default, or None."""
    t = spec['t']
    if t == 'structure':
        if spec.get('on'):
            members = model.variant_members(spec, value[model.discriminator(spec)['name']])
        else:
            members = dict(spec['members'])
        return [(members[k], v) for k, v in value.items()]
    if t == 'map':
        return [(spec['value'], v) for v in value.values()]
    if t == 'sequence':
        return [(spec['item'], v) for v in value]
    return list(zip(spec['values'], value))


def described_default(spec, value):
    """What the description of a container says its default is, or None if it cannot."""
    parts = []
    for member, part in pairs(spec, value):
        result = model.process(member, part, 'outbound', True)
        parts.append(result.value if result.ok else part)
    if spec['t'] in ('structure', 'map'):
        keys = list(value)
        if spec.get('key'):
            keys = [model.process(spec['key'], k, 'outbound', True).value for k in keys]
        form = dict(zip(keys, parts))
    else:
        form = parts if spec['t'] == 'sequence' else tuple(parts)
    return form if native(form) else None


def restored(spec):
    """(the specification of the reconstructed schema, whether it behaves like the original on
    serialized input)"""
    alike = not any(spec.get(k) for k in ('pre', 'errors', 'pattern'))
    result = dict((k, v) for k, v in spec.items() if k not in DROPPED)
    t = spec['t']
    for name in ('default', 'constant'):
        value = spec.get(name)
        if value is None:
            continue
        if name == 'default' and t in ('structure', 'map', 'sequence', 'tuple'):
            value = described_default(spec, value)
        elif not native(value):
            value = None
        if value is None:
            result.pop(name)
            alike = False
        else:
            result[name] = value
    if spec.get('required_keys') is not None and not native(spec['required_keys']):
        del result['required_keys']
        alike = False

    def inner(part):
        nonlocal alike
        new, same_behaviour = restored(part)
        alike = alike and same_behaviour
        return new

    if t == 'sequence':
        result['item'] = inner(spec['item'])
    elif t == 'map':
        result['value'] = inner(spec['value'])
        if spec.get('key'):
            result['key'] = inner(spec['key'])
    elif t == 'tuple':
        result['values'] = [inner(s) for s in spec['values']]
    elif t == 'union':
        result['fields'] = [inner(s) for s in spec['fields']]
    elif t == 'structure':
        if spec.get('on'):
            if isinstance(spec['on'], dict):
                result['on'] = inner(spec['on'])
            result['variants'] = [(i, [(k, inner(s)) for k, s in members]) for i, members in spec['variants']]
            if spec.get('common'):
                result['common'] = [(k, inner(s)) for k, s in spec['common']]
        else:
            result['members'] = [(k, inner(s)) for k, s in spec['members']]
    return result, alike


def nested(description):
    """The descriptions directly inside a description."""
    t = description['fieldtype']
    if t == 'structure':
        if description.get('polymorphic_on'):
            return [d for variant in description['structure'].values() for d in variant.values()]
        return list(description['structure'].values())
    if t == 'map':
        return [description['value']] + ([description['key']] if description.get('key') else [])
    if t == 'sequence':
        return [description['item']]
    if t == 'tuple':
        return list(description['values'])
    if t == 'union':
        return list(description['fields'])
    return []


def all_nested(description):
    result = [description]
    for d in nested(description):
        result.extend(all_nested(d))
    return result


def text_keys(value):
    if isinstance(value, dict):
        if isinstance(value.get('polymorphic_on'), dict) and value['polymorphic_on'].get('fieldtype') == 'integer':
            # identities which are numbers are read from the text of the keys
            value = dict(value, structure=dict((str(k), v) for k, v in value['structure'].items()))
        return all(type(k) is str for k in value) and all(text_keys(v) for v in value.values())
    if isinstance(value, (list, tuple)):
        return all(text_keys(v) for v in value)
    return True


def lists(value):
    """The value with tuples as lists, as JSON leaves them."""
    if isinstance(value, dict):
        return dict((k, lists(v)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return [lists(v) for v in value]
    return value


def essential(value):
    """A description without the mark of structural types, which reconstruction keeps as an attribute
    when it is told."""
    if isinstance(value, dict):
        return dict((k, essential(v)) for k, v in value.items() if not (k == 'structural' and 'fieldtype' in value))
    if isinstance(value, (list, tuple)):
        return type(value)(essential(v) for v in value)
    return value


def contained(small, large):
    """Whether every entry of a description is in a verbose one."""
    if isinstance(small, dict) and isinstance(large, dict):
        return all(k in large and contained(v, large[k]) for k, v in small.items())
    if isinstance(small, (list, tuple)) and isinstance(large, (list, tuple)):
        return len(small) == len(large) and all(contained(a, b) for a, b in zip(small, large))
    return same(small, large)


def recorded(ctx, spec, description, key=None):
    """Every parameter which can be serialized is in the description."""
    def wants(name, value):
        ctx.check(name in description and same(lists(description[name]), lists(value)),
            'a parameter is missing from the description, or altered', parameter=name, wanted=value,
            description=description, schema=describe_spec(spec))
    ctx.check(description.get('fieldtype') == spec['t'], 'the description has another type', description=description,
        schema=describe_spec(spec))
    for name in PLAIN:
        value = spec.get(name)
        if name == 'name' and value is None:
            value = key
        if spec.get('nonempty') and name in ('required', 'nonnull'):
            value = True
        if name == 'min_length':
            value = model.min_length(spec)
        if value or (value is not None and name in ('min_length', 'max_length', 'segments')):
            wants(name, value)
    for name, value in (spec.get('aspects') or {}).items():
        wants(name, value)
    for name in ('minimum', 'maximum'):
        bound = spec.get(name)
        if bound is not None and spec['t'] in ('integer', 'float'):
            wants(name, bound)
        elif bound is not None and spec['t'] == 'decimal':
            ctx.check(decimal.Decimal(str(description.get(name))) == bound, 'a bound is missing or altered',
                parameter=name, wanted=bound, description=description)
        elif bound is not None:
            wants(name, model.process({'t': spec['t'], 'utc': True}, bound, 'outbound', True).value)
    if spec['t'] == 'enumeration':
        wants('enumeration', spec['values'])
        if spec.get('ignored'):
            wants('ignored_values', spec['ignored'])
    if spec.get('strict') is False:
        wants('strict', False)
    if spec['t'] == 'text' and spec.get('strip') is False:
        wants('strip', False)
    if spec.get('key_order'):
        order = spec['key_order']
        wants('key_order', order.split(' ') if isinstance(order, str) else order)
    if spec.get('required_keys') and native(spec['required_keys']):
        ctx.check(set(description.get('required_keys') or ()) == set(model.required_keys(spec)),
            'the required keys are missing or altered', description=description, schema=describe_spec(spec))
    for name in ('default', 'constant'):
        value = spec.get(name)
        if value is not None and spec['t'] in model.SIMPLE and native(value):
            wants(name, value)
    if spec['t'] in ('structure', 'map', 'sequence', 'tuple') and spec.get('default') is not None:
        form = described_default(spec, spec['default'])
        if form is not None:
            wants('default', form)
    t = spec['t']
    if t == 'structure' and not spec.get('on'):
        ctx.check(set(description['structure']) == set(k for k, _ in spec['members']),
            'members are missing from the description', description=description, schema=describe_spec(spec))
        for k, s in spec['members']:
            recorded(ctx, s, description['structure'][k], k)
    elif t == 'structure':
        on = model.discriminator(spec)['name']
        ctx.check(set(description['structure']) == set(model.identity_form(spec, i) for i, _ in spec['variants']),
            'variants are missing from the description', description=description, schema=describe_spec(spec))
        for identity, _ in spec['variants']:
            members = model.variant_members(spec, identity)
            i = model.identity_form(spec, identity)
            ctx.check(set(description['structure'][i]) == set(members), 'members are missing from a variant',
                description=description, schema=describe_spec(spec))
            for k, s in members.items():
                if k != on:
                    recorded(ctx, s, description['structure'][i][k], k)
                elif native(identity):
                    ctx.check(same(description['structure'][i][k].get('constant'), identity),
                        'the identity of a variant is lost', description=description)
    elif t == 'map':
        recorded(ctx, spec['value'], description['value'])
        if spec.get('key'):
            recorded(ctx, spec['key'], description['key'])
    elif t == 'sequence':
        recorded(ctx, spec['item'], description['item'])
    elif t in ('tuple', 'union'):
        parts = spec['values' if t == 'tuple' else 'fields']
        given = description['values' if t == 'tuple' else 'fields']
        ctx.check(len(parts) == len(given), 'parts are missing from the description', description=description)
        for s, d in zip(parts, given):
            recorded(ctx, s, d)


def complete(ctx, field, verbose, detail):
    """Every parameter of a field and of what it holds is in a verbose description, whatever its value."""
    for name in set(field.parameters) - set(('default', 'constant')):
        value = getattr(field, name, None)
        if value is not None and not core.json_native(value) and not isinstance(value, Field):
            ctx.check(name in verbose and same(lists(verbose[name]), lists(value)),
                'a parameter is missing from the verbose description', parameter=name, wanted=value, within=verbose, **detail)
            ctx.count('verbose_parameters')
    pairs = []
    for name in ('item', 'value', 'key'):
        if isinstance(getattr(field, name, None), Field):
            pairs.append((getattr(field, name), verbose.get(name)))
    for name in ('values', 'fields'):
        if field.type in ('tuple', 'union') and isinstance(getattr(field, name, None), (list, tuple)):
            pairs += list(zip(getattr(field, name), verbose.get(name) or ()))
    if field.type == 'structure':
        for name, part in field.structure.items():
            if isinstance(part, dict):
                described = verbose['structure'][field.polymorphic_on.process(name, 'outbound', True)]
                pairs += [(f, described[k]) for k, f in part.items()]
            else:
                pairs.append((part, verbose['structure'][name]))
    for nested, described in pairs:
        complete(ctx, nested, described or {}, detail)


def rename(ctx, rng, spec):
    """Gives members and variants names which mean something in descriptions."""
    nodes = list(walk(spec))
    if any(isinstance(n.get(k), (dict, list, tuple)) for n in nodes for k in ('default', 'constant')) or any(n['t'] in ('undef', 'field') for n in nodes):
        return
    for node in nodes:
        if node['t'] != 'structure' or node.get('key_order'):
            continue
        lists = [members for _, members in node['variants']] if node.get('on') else [node['members']]
        for members in lists:
            free = [w for w in ('fieldtype', 'structure', 'default', 'name', 'value', 'item', 'polymorphic_on') if w not in [m[0] for m in members]
                and w not in [m[0] for m in node.get('common') or ()] and w != (node.get('on') if not isinstance(node.get('on'), dict) else node['on'].get('name'))]
            if members and free:
                i = rng.randrange(len(members))
                members[i] = (free[0] if rng.random() < 0.6 else rng.choice(free), members[i][1])
                ctx.count('renamed')


def taken_for_description():
    field = Field(default={'fieldtype': 'text'})
    again = Field.reconstruct(field.describe())
    if not same(again.default, field.default):
        return 'data with the key fieldtype is taken for a description'


KNOWN = {'data-named-fieldtype': taken_for_description}


def case(ctx, rng, index):
    g = gen.Gen(rng, p_pre=rng.choice([0, 0, 0.1]), p_errors=rng.choice([0, 0, 0.15]), p_title=0.15, p_aspects=0.2,
        p_constant=0.1, p_default=rng.choice([0.1, 0.4]), odd=rng.random() < 0.5, p_order=0.3, p_poly=0.3)
    spec = g.spec(rng.choice([0, 1, 2, 3]))
    if index % 5 == 0:
        rename(ctx, rng, spec)
    try:
        target, alike = restored(spec)
    except model.Undecided:
        ctx.count('undecided')
        return
    field = build(spec)
    description = field.describe()
    detail = {'schema': describe_spec(spec), 'description': description}
    bad = core.json_native(description)
    ctx.check(not bad, 'the description is not natively serializable: %s' % bad, **detail)
    before = snapshot(description)
    recorded(ctx, spec, description)
    again = Field.reconstruct(description)
    ctx.check(snapshot(description) == before, 'reconstruction altered the description', **detail)
    ctx.check(type(again) is type(field), 'another type of field is reconstructed', observed=type(again), **detail)
    second = again.describe()
    ctx.check(same(second, description), 'the reconstructed schema has another description', observed=second, **detail)
    ctx.check(snapshot(field.describe()) == before, 'describing twice differs', **detail)
    third = Field.reconstruct(description)
    ctx.check(same(third.describe(), description), 'a second reconstruction differs', **detail)

    verbose = field.describe(verbose=True)
    ctx.check(not core.json_native(verbose), 'the verbose description is not natively serializable',
        verbose=verbose, **detail)
    ctx.check(contained(description, verbose), 'the verbose description lacks or alters parameters', verbose=verbose,
        **detail)
    complete(ctx, field, verbose, detail)
    from_verbose = Field.reconstruct(verbose)
    ctx.check(same(essential(from_verbose.describe()), essential(description)), 'the verbose description has another meaning', verbose=verbose,
        observed=from_verbose.describe(), **detail)
    schemas = [again, from_verbose]

    if text_keys(description) and all(type(k) is str for s in walk(spec) for k in model.required_keys(s)):
        text = json.dumps(description)
        from_json = Field.reconstruct(json.loads(text))
        ctx.check(same(lists(from_json.describe()), lists(description)), 'the description does not survive JSON',
            observed=from_json.describe(), **detail)
        ctx.count('through_json')
        if not any(s.get('default') is not None and s['t'] in ('tuple', 'field', 'union') for s in walk(spec)):
            schemas.append(from_json)

    for value in inputs(rng, spec, 4):
        for phase, serialized in PHASES:
            for schema in schemas:
                observe(ctx, target, schema, value, phase, serialized)
            if alike and (serialized and phase == 'inbound' or not any(s.get('default') is not None for s in walk(spec))):
                a, b = attempt(field.process, value, phase, serialized), attempt(again.process, value, phase, serialized)
                ctx.check(core.same_outcome(a, b), 'the reconstructed schema gives another outcome', value=value,
                    phase=phase, serialized=serialized, observed=b, original=a, **detail)
                ctx.count('compared_directly')
        ctx.seen(describe_spec(spec), value)
    visit(ctx, description, detail)
    foreign(ctx, rng, description)
    ctx.sample(describe_spec(spec))


def visit(ctx, description, detail):
    reached = []

    def callback(part):
        reached.append(id(part))
        return Field.visit(part, callback)
    before = snapshot(description)
    result = Field.visit(description, callback)
    wanted = [id(d) for d in all_nested(description)[1:]]
    ctx.check(sorted(reached) == sorted(wanted), 'visiting reached %d nested fields, %d times, instead of %d'
        % (len(set(reached)), len(reached), len(wanted)), **detail)
    ctx.check(snapshot(description) == before, 'visiting altered the description', **detail)
    ctx.count('visited', len(reached))


def foreign(ctx, rng, description):
    """What is not a description is refused with a value error."""
    for value in (rng.choice([None, 1, [], {}, {'name': 'a'}]), dict(description, fieldtype='no-such-type'),
            dict((k, v) for k, v in description.items() if k != 'fieldtype')):
        outcome = attempt(Field.reconstruct, value)
        ctx.check(outcome.kind == 'other' and isinstance(outcome.value, ValueError),
            'a malformed description is not refused with a value error', value=value, observed=outcome)
