"""P26: placeholders defined later, and recursive schemas, behave as if written out."""

import copy
import json

from vmon import core, gen, model, moves, oracle
from vmon.build import build, children, construct, describe_spec
from vmon.core import attempt, same, same_outcome, scheme
from vmon.moves import Bag
from props.common import PHASES, valid_or_none
from scheme.field import Undefined
from scheme.fields import Field

ROOMY = ('structure', 'structure', 'sequence', 'map', 'tuple', 'union')


# ---------------------------------------------------------------- specifications with placeholders

def positions(spec):
    """(holder, setter) for every place where a placeholder may stand."""
    t = spec['t']
    found = []
    if t == 'sequence':
        found.append((spec, 'item', None))
    elif t == 'map':
        found.append((spec, 'value', None))
    elif t in ('tuple', 'union'):
        key = 'values' if t == 'tuple' else 'fields'
        found.extend((spec[key], i, 'alternative' if t == 'union' else None) for i in range(len(spec[key])))
    elif t == 'structure':
        groups = [spec['members']] if not spec.get('on') else [m for _, m in spec['variants']] + [spec.get('common') or []]
        found.extend((group, i, 'member') for group in groups for i in range(len(group)))
    return found


def child_at(place):
    holder, at, kind = place
    return holder[at][1] if kind == 'member' else holder[at]


def put(place, spec):
    holder, at, kind = place
    holder[at] = (holder[at][0], spec) if kind == 'member' else spec


def all_positions(spec):
    found = positions(spec)
    for place in list(found):
        found.extend(all_positions(child_at(place)))
    return found


def with_placeholders(rng, spec, chance):
    """Replaces children by placeholders for them; returns the placeholders."""
    nodes = []
    for place in all_positions(spec):
        if rng.random() < chance:
            target = child_at(place)
            if place[2] == 'member':
                target.pop('name', None)
            node = {'t': 'undef', 'target': None, 'later': target}
            put(place, node)
            nodes.append(node)
    return nodes


def written_out(spec):
    """The specification without placeholders."""
    if spec['t'] == 'undef':
        return written_out(spec['later'])
    result = copy_node(spec)
    for place in positions(result):
        put(place, written_out(child_at(place)))
    return result


def copy_node(spec):
    """A copy of one node whose children can be replaced."""
    result = dict((k, v) for k, v in spec.items() if k not in ('placeholder', 'made'))
    for key in ('values', 'fields', 'members'):
        if key in result and spec['t'] in ('tuple', 'union', 'structure'):
            result[key] = list(result[key])
    if result.get('variants'):
        result['variants'] = [(i, list(m)) for i, m in result['variants']]
    if result.get('common'):
        result['common'] = list(result['common'])
    return result


# ---------------------------------------------------------------- building in any order

class Yard(object):
    """Builds placeholders and defines them, in the order chance has it."""

    def __init__(self, rng):
        self.rng = rng
        self.pending = []

    def prepare(self, node):
        style = self.rng.choice(['after', 'after', 'before', 'constructed'])
        node['placeholder'] = placeholder = Undefined()
        if style == 'after':
            self.pending.append(node)
            return
        target = node['later']
        self.prepare_below(target)
        field = build(target)
        if style == 'constructed':
            node['placeholder'] = Undefined(field)
        else:
            placeholder.define(field)
        node['target'] = target

    def prepare_below(self, spec):
        for place in positions(spec):
            child = child_at(place)
            if child['t'] == 'undef':
                if 'placeholder' not in child:
                    self.prepare(child)
            else:
                self.prepare_below(child)

    def define_one(self):
        node = self.pending.pop(self.rng.randrange(len(self.pending)))
        self.prepare_below(node['later'])
        node['placeholder'].define(build(node['later']))
        node['target'] = node['later']


def redefined(ctx, rng):
    """A placeholder defined again is what it was defined to be last, wherever it is."""
    g = gen.Gen(rng, p_constant=0, p_default=0, p_required=0, odd=False)
    placeholder = scheme.Undefined()
    wrap = {
        'sequence': lambda s: {'t': 'sequence', 'item': s}, 'map': lambda s: {'t': 'map', 'value': s},
        'structure': lambda s: {'t': 'structure', 'members': [('m', s), ('other', {'t': 'integer'})]},
        'tuple': lambda s: {'t': 'tuple', 'values': [{'t': 'integer'}, s]}, 'union': lambda s: {'t': 'union', 'fields': [{'t': 'boolean'}, s]},
        'variants': lambda s: {'t': 'structure', 'on': 'kind', 'variants': [('x', [('m', s)]), ('y', [('m', {'t': 'integer'})])]}}
    F = scheme.fields
    make = {
        'sequence': lambda u: F.Sequence(u), 'map': lambda u: F.Map(u), 'structure': lambda u: F.Structure({'m': u, 'other': F.Integer()}),
        'tuple': lambda u: F.Tuple((F.Integer(), u)), 'union': lambda u: F.Union((F.Boolean(), u)),
        'variants': lambda u: F.Structure({'x': {'m': u}, 'y': {'m': F.Integer()}}, polymorphic_on='kind')}
    kinds = rng.sample(sorted(make), rng.randrange(1, 4))
    users = [(k, make[k](placeholder)) for k in kinds]
    users += [(k, f.clone()) for k, f in users if rng.random() < 0.5]
    for turn in range(rng.randrange(2, 4)):
        spec = g.spec(rng.choice([0, 1]), rng.choice(['integer', 'text', 'structure', 'sequence', 'date']))
        spec.pop('name', None)
        placeholder.define(build(spec))
        for kind, field in users:
            out = wrap[kind](spec)
            for value in usable(rng, out):
                oracle.observe(ctx, out, field, value, 'inbound', False)
            ctx.count('redefined')


class Failing(scheme.Field):
    """A field of which each operation fails by itself, with the error of an undefined placeholder."""
    failure = None

    def process(self, value, *args, **params):
        raise self.failure

    extract = instantiate = interpolate = transform = filter = describe = process


def failures(ctx, rng):
    """What a defined field raises itself is raised as it is, whatever its class, and nothing takes it for an undefined field."""
    F = scheme.fields
    Failing.failure = failure = rng.choice([AttributeError, KeyError, TypeError, IndexError])('of the field')
    inner = Failing()
    placeholder = scheme.Undefined()
    late = rng.random() < 0.5
    given = placeholder if late else inner
    field, value = rng.choice([
        lambda u: (F.Sequence(u), [1]), lambda u: (F.Map(u), {'k': 1}), lambda u: (F.Structure({'m': u, 'o': F.Integer()}), {'m': 1, 'o': 1}),
        lambda u: (F.Tuple((F.Integer(), u)), (1, 1)), lambda u: (F.Union((u, F.Text())), 1),
        lambda u: (F.Structure({'x': {'m': u}, 'y': {}}, polymorphic_on='kind'), {'kind': 'x', 'm': 1})])(given)
    if late:
        placeholder.define(inner)
    if rng.random() < 0.5:
        field, value = F.Structure({'part': field}), {'part': value}
    whole = has_union(field)
    for name, call in (('process', lambda: field.process(value)), ('serialize', lambda: field.serialize(value)),
            ('unserialize', lambda: field.unserialize(value)), ('extract', lambda: field.extract(value)),
            ('interpolate', lambda: field.interpolate(value, {})), ('instantiate', lambda: field.instantiate(value)),
            ('filter', lambda: field.filter()), ('transform', lambda: field.transform(lambda f: None)), ('describe', lambda: field.describe())):
        if name in ('instantiate', 'filter') and whole:
            continue
        outcome = attempt(call)
        ctx.check(outcome.kind == 'other' and outcome.value is failure, 'what a field raised itself is not raised by %s' % name,
            schema=repr(type(field).__name__), value=value, observed=outcome)
        ctx.count('failures')


def has_union(field):
    return isinstance(field, scheme.fields.Union) or any(has_union(f) for f in (getattr(field, 'structure', None) or {}).values() if isinstance(f, scheme.Field))


def lookup(ctx, rng, spec, field, values, extra=None, whole=None):
    """Observes every kind of use of the schema, as far as it is defined by now; ``whole`` is the
    schema with everything defined."""
    detail = {'schema': describe_spec(spec)}
    detail.update(extra or {})
    for value in values:
        phase, serialized = rng.choice(PHASES)
        oracle.observe(ctx, spec, field, value, phase, serialized)
        try:
            wanted = moves.expected(moves.extract, spec, value, True, {}, None)
        except (model.Undecided, RecursionError):
            wanted = None
        outcome = attempt(field.extract, value)
        if wanted:
            problem = moves.mismatch(wanted, outcome)
            ctx.check(not problem, 'extraction: %s' % problem, value=value, expected=wanted, observed=outcome, **detail)
            ctx.count('extracted' if wanted[0] == 'ok' else 'refused_' + wanted[1])
        if gen_free(value):
            try:
                wanted = moves.expected(moves.interpolate, spec, value, {})
            except model.Undecided:
                wanted = None
            outcome = attempt(field.interpolate, value, {})
            if wanted:
                problem = moves.mismatch(wanted, outcome)
                ctx.check(not problem, 'interpolation: %s' % problem, value=value, expected=wanted, observed=outcome, **detail)
                ctx.count('interpolated' if wanted[0] == 'ok' else 'not_interpolated_' + wanted[1])
        try:
            result = model.process(whole or spec, value)
            if not result.ok:
                continue
            wanted = moves.expected(moves.instantiate, spec, result.value)
        except (model.Undecided, model.Undef, core.HarnessError, KeyError, AttributeError):
            continue
        outcome = attempt(field.instantiate, result.value)
        problem = moves.mismatch(wanted, outcome)
        ctx.check(not problem, 'instantiation: %s' % problem, value=value, expected=wanted, observed=outcome, **detail)
        ctx.count('instantiated' if wanted[0] == 'ok' else 'not_instantiated_' + wanted[1])


def gen_free(value):
    from props.common import template_like
    return not template_like(value)


def usable(rng, spec, count=4):
    values = []
    for _ in range(count):
        value = valid_or_none(rng, spec)
        if rng.random() < 0.35:
            value = gen.mutate(rng, value, rng.randrange(1, 3))
        values.append(value)
    return values


def undefined_first(ctx, rng, spec, field, values):
    """What a schema with something undefined does with values that reach it."""
    for value in values:
        try:
            expected = model.process(spec, value)
        except model.Undecided:
            continue
        except model.Undef:
            ctx.count('reached_undefined')
            for phase, serialized in PHASES:
                try:
                    model.process(spec, value, phase, serialized)
                    continue
                except model.Undecided:
                    continue
                except model.Undef:
                    outcome = attempt(field.process, value, phase, serialized)
                    ctx.check(outcome.kind == 'other' and type(outcome.value) is core.UndefinedFieldError,
                        'using an undefined placeholder was not reported as such', schema=describe_spec(spec), value=value,
                        phase=phase, serialized=serialized, observed=outcome)


def case(ctx, rng, index):
    if index % 2:
        return recursive_case(ctx, rng)
    g = gen.Gen(rng, p_constant=0, odd=False, containers=ROOMY)
    spec = g.spec(rng.choice([1, 2, 2, 3]), rng.choice(ROOMY))
    nodes = with_placeholders(rng, spec, rng.choice([0.2, 0.4, 0.8]))
    out = written_out(spec)
    values = usable(rng, out)
    yard = Yard(rng)
    yard.prepare_below(spec)
    field = build(spec)
    clones = []
    while yard.pending:
        undefined_first(ctx, rng, spec, field, values)
        lookup(ctx, rng, spec, field, values[:2], None, out)
        if rng.random() < 0.2:
            clone = attempt(field.clone)
            ctx.check(clone.kind == 'ok', 'a schema with undefined parts cannot be cloned', schema=describe_spec(out), observed=clone)
            clones.append(clone.value)
            ctx.count('clones')
        yard.define_one()
        ctx.count('defined')
    twin = build(out)
    compare(ctx, rng, out, field, twin, values + usable(rng, out, 3), True)
    lookup(ctx, rng, out, field, values)
    for clone in clones[:2]:
        compare(ctx, rng, out, clone, twin, values, False, 'a clone taken before the definition: ')
    if index % 6 == 0:
        redefined(ctx, rng)
    if index % 4 == 0:
        failures(ctx, rng)
    ctx.sample(describe_spec(out))


def same_report(a, b):
    """Whether two outcomes agree in all but how the schemas are shown."""
    if a.kind == b.kind == 'error':
        return type(a.value) is type(b.value) and bare(core.error_view(a.value)) == bare(core.error_view(b.value))
    return same_outcome(a, b)


def bare(view):
    if isinstance(view, tuple) and len(view) == 2 and view[0] in ('field', 'instance'):
        return None
    if isinstance(view, (list, tuple)):
        return [bare(v) for v in view]
    return view


def compare(ctx, rng, out, field, twin, values, thorough, prefix=''):
    detail = {'schema': describe_spec(out)}
    if thorough:
        a, b = attempt(field.describe), attempt(twin.describe)
        ctx.check(same_outcome(a, b), prefix + 'the description differs from that of the schema written out', observed=a,
            expected=b, **detail)
    for value in values:
        for phase, serialized in PHASES:
            a, b = attempt(field.process, value, phase, serialized), attempt(twin.process, value, phase, serialized)
            ctx.check(same_outcome(a, b), prefix + 'it behaves differently from the schema written out', value=value, phase=phase,
                serialized=serialized, observed=a, expected=b, **detail)
            if thorough and a.kind == 'error' and b.kind == 'error':
                ctx.check(str(a.value) == str(b.value), prefix + 'the report reads differently from that of the schema written out',
                    observed=str(a.value), expected=str(b.value), **detail)
        for format in ('json', 'yaml') if thorough else ():
            a, b = attempt(field.serialize, value, format), attempt(twin.serialize, value, format)
            ctx.check(same_outcome(a, b), prefix + 'in %s it is written differently' % format, observed=a, expected=b, **detail)
            if a.kind == b.kind == 'ok':
                a, b = attempt(field.unserialize, a.value, format), attempt(twin.unserialize, a.value, format)
                ctx.check(same_outcome(a, b), prefix + 'in %s it is read differently' % format, observed=a, expected=b, **detail)
        a, b = attempt(field.extract, value), attempt(twin.extract, value)
        ctx.check(same_outcome(a, b), prefix + 'it extracts differently', value=value, observed=a, expected=b, **detail)
        ctx.seen(detail['schema'], value)
        ctx.count('compared')


# ---------------------------------------------------------------- recursion

def recursive_specs(rng):
    """Placeholders whose definitions contain placeholders, themselves included."""
    count = rng.choice([1, 1, 1, 2, 3])
    nodes = [{'t': 'undef', 'target': None, 'label': i} for i in range(count)]
    total = 0
    for i, node in enumerate(nodes):
        g = gen.Gen(rng, p_constant=0, p_default=0.05, odd=False, containers=ROOMY, p_name=0, p_nonnull=0.05, max_members=3,
            p_unique=0)
        while True:
            target = g.spec(rng.choice([1, 1, 2]), rng.choice(ROOMY))
            for key in ('nonnull', 'nonempty', 'default', 'ignore_null'):
                target.pop(key, None)
            if target['t'] in ('sequence', 'map'):
                target.pop('min_length', None)
            # a union which is its own alternative would have no meaning
            places = [p for p in all_positions(target) if p[2] != 'alternative']
            if places:
                break
        chosen = rng.sample(places, min(len(places), rng.choice([1, 1, 1, 2, 2, 3])))
        for j, place in enumerate(chosen):
            reference = nodes[(i + 1) % count] if j == 0 else rng.choice(nodes)
            put(place, reference)
            total += 1
        dropdefaults(target)
        node['later'] = target
    return nodes, total


def dropdefaults(spec):
    """No defaults where a placeholder is inside; tells whether one is."""
    inside = False
    for place in positions(spec):
        child = child_at(place)
        inside = (child['t'] == 'undef' or dropdefaults(child)) or inside
    if inside:
        spec.pop('default', None)
    return inside


def reachable(spec):
    """References in a specification, which may itself be one."""
    if spec['t'] == 'undef':
        return [spec]
    return [r for place in positions(spec) for r in reachable(child_at(place))]


def unrolled(spec, depth, bottom):
    """The specification with its definitions in place, down to a depth."""
    if spec['t'] == 'undef':
        return dict(bottom) if depth <= 0 else unrolled(spec['later'], depth - 1, bottom)
    result = copy_node(spec)
    for place in positions(result):
        put(place, unrolled(child_at(place), depth, bottom))
    return result


def size(spec, limit):
    total = 1
    for place in positions(spec):
        total += size(child_at(place), limit - total)
        if total > limit:
            break
    return total


def largest(spec, depths, bottom, limit):
    """The deepest unrolling of bounded size."""
    best = None
    for depth in depths:
        if estimate(spec, depth, limit) > limit:
            break
        best = depth
    return best


def estimate(spec, depth, limit):
    """How many nodes an unrolling has, counted without making it, up to a limit."""
    if limit <= 0:
        return 1
    if spec['t'] == 'undef':
        return 1 if depth <= 0 else estimate(spec['later'], depth - 1, limit)
    total = 1
    for place in positions(spec):
        total += estimate(child_at(place), depth, limit - total)
        if total > limit:
            return total
    return total


STUB = {'t': 'undef', 'target': None, 'stub': True}
OPAQUE = {'t': 'field'}


def recursive_case(ctx, rng):
    if rng.random() < 0.15:
        return deep_case(ctx, rng)
    nodes, total = recursive_specs(rng)
    if rng.random() < 0.5:
        g = gen.Gen(rng, p_constant=0, p_default=0, odd=False, containers=ROOMY, max_members=3)
        root = g.spec(1, rng.choice(ROOMY))
        places = all_positions(root)
        if places:
            put(rng.choice(places), nodes[0])
        dropdefaults(root)
    else:
        root = nodes[0]
    depth = largest(root, range(1, 9), STUB, 150)
    if depth is None:
        ctx.count('too_large')
        return
    deeper = depth + 3
    values = []
    finite = unrolled(root, depth, STUB)
    for _ in range(4):
        try:
            value = gen.valid(rng, finite, odd=False, size=2, present=0.8, budget=800)
        except gen.Unsatisfiable:
            ctx.count('unsatisfiable')
            continue
        if rng.random() < 0.3:
            value = gen.mutate(rng, value)
        values.append(value)
    order = list(nodes)
    rng.shuffle(order)
    # defined first, a definition takes the name of the first member it is put at
    named = any(p[2] == 'member' and child_at(p)['t'] == 'undef' for s in [root] + [n['later'] for n in nodes]
        if s['t'] != 'undef' for p in all_positions(s))
    early = not named and rng.random() < 0.5
    for node in nodes:
        node['placeholder'] = Undefined()
    root_field = None
    if root is not nodes[0] and not early:
        root_field = build(root)
        undefined_first(ctx, rng, root, root_field, values)
    built = {}
    for node in order:
        built[node['label']] = build(node['later'])
        if not named and rng.random() < 0.5:
            node['placeholder'].define(built.pop(node['label']))
            node['target'] = node['later']
            if root_field is not None:
                undefined_first(ctx, rng, root, root_field, values)
    for label in sorted(built):
        nodes[label]['placeholder'].define(built[label])
        nodes[label]['target'] = nodes[label]['later']
    if root is nodes[0]:
        root_field = root['placeholder'].field
    elif root_field is None:
        root_field = build(root)
    definitions = [describe_spec(n['later']) for n in nodes]
    extra = {'definitions': definitions}
    lookup(ctx, rng, root, root_field, values, extra)
    for value in values:
        ctx.seen(definitions, value)
        ctx.count('recursive')
        ctx.count('nesting_%d' % min(nesting(value) // 4 * 4, 40))
    if estimate(root, deeper, 3000) <= 3000:
        twin_spec = unrolled(root, deeper, OPAQUE)
        twin = build(twin_spec)
        detail = {'definitions': definitions}
        for value in values:
            if nesting(value) > deeper:
                continue
            for phase, serialized in PHASES:
                a, b = attempt(root_field.process, value, phase, serialized), attempt(twin.process, value, phase, serialized)
                ctx.check(same_report(a, b), 'it behaves differently from the schema written out', value=value, phase=phase,
                    serialized=serialized, observed=a, expected=b, **detail)
            a, b = attempt(root_field.serialize, value, 'json'), attempt(twin.serialize, value, 'json')
            ctx.check(same_outcome(a, b), 'in JSON it is written differently', observed=a, expected=b, **detail)
            ctx.count('written_out')
    ctx.sample('; '.join(definitions))


def nesting(value):
    if isinstance(value, dict):
        return 1 + max([nesting(v) for v in value.values()] or [0])
    if isinstance(value, (list, tuple)):
        return 1 + max([nesting(v) for v in value] or [0])
    return 0


def deep_case(ctx, rng):
    """Well known recursive shapes, with values nested much more deeply."""
    X = {'t': 'undef', 'target': None}
    scalar = {'t': rng.choice(['integer', 'text', 'boolean'])}
    good = {'integer': 7, 'text': 'leaf', 'boolean': True}[scalar['t']]
    bad = {'integer': 'seven', 'text': 7, 'boolean': 'yes'}[scalar['t']]
    shape = rng.choice(['list', 'sequence', 'map', 'tuple', 'json', 'poly', 'mutual'])
    depth = rng.choice([5, 20, 40])
    if shape == 'list':
        X['later'] = {'t': 'structure', 'members': [('value', scalar), ('next', X)]}
        wrap = lambda inner: {'value': good, 'next': inner} if inner is not None else {'value': good}
    elif shape == 'sequence':
        X['later'] = {'t': 'union', 'fields': [scalar, {'t': 'sequence', 'item': X}]}
        wrap = lambda inner: [good, inner, good] if inner is not None else [good]
    elif shape == 'map':
        X['later'] = {'t': 'map', 'value': X}
        wrap = lambda inner: {'k': inner, 'z': {}} if inner is not None else {}
    elif shape == 'tuple':
        X['later'] = {'t': 'tuple', 'values': [scalar, X]}
        wrap = lambda inner: (good, inner)
    elif shape == 'json':
        X['later'] = {'t': 'union', 'fields': [scalar, {'t': 'sequence', 'item': X}, {'t': 'map', 'value': X}]}
        wrap = lambda inner: rng.choice([[inner, good], {'a': inner, 'b': [good, {}]}])
    elif shape == 'poly':
        X['later'] = {'t': 'structure', 'on': 'op', 'members': [], 'variants': [('leaf', [('value', scalar)]), ('neg', [('arg', X)]),
            ('add', [('left', X), ('right', X)])]}
        leaf = {'op': 'leaf', 'value': good}
        wrap = lambda inner: rng.choice([{'op': 'neg', 'arg': inner}, {'op': 'add', 'left': inner, 'right': dict(leaf)}]) \
            if inner is not None else dict(leaf)
    else:
        Y = {'t': 'undef', 'target': None}
        X['later'] = {'t': 'structure', 'members': [('value', scalar), ('others', Y)]}
        Y['later'] = {'t': 'sequence', 'item': X}
        wrap = lambda inner: {'value': good, 'others': [inner, {'value': good}]} if inner is not None else {'value': good, 'others': []}
    nodes = [X] + ([Y] if shape == 'mutual' else [])
    for node in nodes:
        node['placeholder'] = Undefined()
    order = list(nodes)
    rng.shuffle(order)
    fields = [(node, build(node['later'])) for node in order]
    rng.shuffle(fields)
    for node, field in fields:
        node['placeholder'].define(field)
        node['target'] = node['later']
    field = X['placeholder'].field
    value = None
    for _ in range(depth):
        value = wrap(value)
    damaged = break_leaf(rng, value, good, bad)
    extra = {'shape': shape, 'depth': depth}
    for phase, serialized in PHASES:
        outcome = attempt(field.process, value, phase, serialized)
        ctx.check(outcome.kind == 'ok' and same(outcome.value, value), 'a deeply nested value is not accepted as it is',
            observed=outcome, phase=phase, serialized=serialized, **extra)
        oracle.observe(ctx, X, field, damaged, phase, serialized)
    outcome = attempt(field.extract, value)
    ctx.check(outcome.kind == 'ok' and same(outcome.value, value), 'a deeply nested value is not extracted', observed=outcome, **extra)
    if not any(s['t'] == 'union' for s in [X['later']]):
        outcome = attempt(field.instantiate, value)
        ctx.check(outcome.kind == 'ok' and same(outcome.value, value), 'a deeply nested value is not instantiated', observed=outcome,
            **extra)
    text = attempt(field.serialize, value, 'json')
    ctx.check(text.kind == 'ok' and json.loads(text.value) == plain(value), 'a deeply nested value is not written', observed=text, **extra)
    back = attempt(field.unserialize, text.value, 'json')
    ctx.check(back.kind == 'ok' and same(back.value, value), 'a deeply nested value is not read back', observed=back, **extra)
    ctx.count('deep_' + shape)
    ctx.seen(shape, depth, scalar['t'], value)


def plain(value):
    if isinstance(value, dict):
        return dict((k, plain(v)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return value


def break_leaf(rng, value, good, bad):
    """The value with one leaf made invalid."""
    if isinstance(value, dict) and value:
        key = rng.choice([k for k in value if k != 'op'] or list(value))
        return dict(value, **{key: break_leaf(rng, value[key], good, bad)})
    if isinstance(value, (list, tuple)) and value:
        i = rng.randrange(len(value))
        return type(value)(list(value[:i]) + [break_leaf(rng, value[i], good, bad)] + list(value[i + 1:]))
    return bad
