"""P25: objects of Element classes mirror their schema."""

import copy

from vmon import core, gen, model
from vmon.build import build, children, describe_spec, walk
from vmon.core import attempt, same, scheme, snapshot
from props.common import canonical, canonical_values, has_kind, outbound, reads_back, xml_gen, xml_text

Element = scheme.Element
SIMPLE = tuple(t for t in gen.ALL_SIMPLE if t not in ('binary', 'field'))


# ---------------------------------------------------------------- known findings

def null_members():
    class Sample(Element):
        schema = scheme.fields.Structure({'a': scheme.fields.Integer(default=5)})
    if Sample.unserialize(Sample(a=None).serialize()).a == 5:
        return 'a null attribute comes back as the default'


def element_default():
    class Inner(Element):
        schema = scheme.fields.Structure({'x': scheme.fields.Integer()}, default={'x': 1})

    class Outer(Element):
        schema = scheme.fields.Structure({'inner': Inner.schema})
    try:
        Outer().serialize()
    except scheme.CannotExtractError:
        return 'the default of a member which is an element is not an element'


def plain_subclass():
    class Base(Element):
        schema = scheme.fields.Structure({'x': scheme.fields.Integer()})

    class Sub(Base):
        pass
    if type(Base.unserialize({'x': 1})) is not Base:
        return 'a plain subclass takes over the schema of its base'


KNOWN = {'null-members': null_members, 'element-default': element_default, 'plain-subclass': plain_subclass}


# ---------------------------------------------------------------- classes for specifications

def plan(rng, spec, chance):
    """Marks nodes to become element classes, the root first."""
    marked = []
    for i, node in enumerate(walk(spec)):
        if i == 0 or rng.random() < chance:
            if node['t'] == 'structure' or (node['t'] in model.SIMPLE and node['t'] != 'enumeration' and (i == 0 or node.get('name'))):
                marked.append(node)
    for node in walk(spec):
        # discriminators and map keys stay plain
        for part in (node.get('on'), node.get('key')):
            if isinstance(part, dict):
                marked = [m for m in marked if all(m is not s for s in walk(part))]
        if any(m is s for m in marked for s in walk(node)):
            node.pop('default', None)
            node.pop('constant', None)
    for node in marked:
        if node['t'] != 'structure':
            node['name'] = node.get('name') or rng.choice(['value', 'content'])
        node['made'] = define_class
        node['variants_with_class'] = [v[0] for v in node.get('variants') or () if rng.random() < 0.6]
        node['key_attr'] = 'key_' if rng.random() < 0.4 else None
    return spec


def define_class(spec, field):
    namespace = {'schema': field}
    if spec['key_attr']:
        namespace['key_attr'] = spec['key_attr']
    base = type(Element)('Made', (Element,), namespace)
    classes = {}
    for identity in spec['variants_with_class']:
        classes[identity] = type(Element)('Made_%s' % identity, (base,), {'polymorphic_identity': identity})
    spec['class'] = (base, classes)


def class_of(spec, value):
    base, classes = spec['class']
    if spec.get('on'):
        return classes.get(value[model.discriminator(spec)['name']], base)
    return base


def members_of(spec, value):
    if spec.get('on'):
        return model.variant_members(spec, value[model.discriminator(spec)['name']])
    return dict(spec['members'])


def declared(member):
    value = member.get('default')
    return member.get('constant') if value is None else value


# ---------------------------------------------------------------- the oracle

def wrong_object(spec, value, made, path='', key=None):
    """None, or how ``made`` differs from what the schema and ``value`` say."""
    t = spec['t']
    if value is None:
        return None if made is None else '%s is %r instead of None' % (path or 'it', made)
    if 'class' in spec:
        wanted = class_of(spec, value)
        if type(made) is not wanted:
            return '%s is of %r instead of %r' % (path or 'it', type(made), wanted)
        attributes = dict(vars(made))
        if spec['key_attr']:
            if (spec['key_attr'] in attributes) != (key is not None) or attributes.pop(spec['key_attr'], None) != key:
                return '%s has another key' % path
        if t != 'structure':
            if set(attributes) != set([spec['name']]) or not same(attributes[spec['name']], value):
                return '%s holds %r instead of %r' % (path, attributes, value)
            return None
        members = members_of(spec, value)
        if set(attributes) != set(members):
            return '%s has the attributes %r instead of %r' % (path, sorted(attributes), sorted(members))
        for name, member in members.items():
            held = value[name] if name in value else declared(member)
            problem = wrong_object(member, held, attributes[name], '%s.%s' % (path, name), name)
            if problem:
                return problem
        return None
    if t == 'structure':
        members = members_of(spec, value)
        if type(made) is not dict or set(made) != set(value):
            return '%s is %r' % (path, made)
        parts = [(members[k], value[k], made[k], k) for k in value]
    elif t == 'map':
        if not isinstance(made, dict) or set(made) != set(value):
            return '%s is %r' % (path, made)
        parts = [(spec['value'], value[k], made[k], k) for k in value]
    elif t in ('sequence', 'tuple'):
        if type(made) is not type(value) or len(made) != len(value):
            return '%s is %r' % (path, made)
        parts = [(spec['item'] if t == 'sequence' else spec['values'][i], v, made[i], None) for i, v in enumerate(value)]
    else:
        return None if same(made, value) else '%s is %r instead of %r' % (path, made, value)
    for i, (part, v, m, k) in enumerate(parts):
        problem = wrong_object(part, v, m, '%s[%r]' % (path, k if k is not None else i), k)
        if problem:
            return problem


def make(rng, spec, value, key=None):
    """The value as objects built with their constructors; what equals its default may be left out."""
    t = spec['t']
    if value is None:
        return None
    if t == 'structure':
        members = members_of(spec, value)
        parts = dict((k, make(rng, members[k], v, k)) for k, v in value.items())
        if 'class' not in spec:
            return parts
        on = model.discriminator(spec)['name'] if spec.get('on') else None
        for k in list(parts):
            if k != on and rng.random() < 0.5 and value[k] is not None and same(value[k], declared(members[k])):
                del parts[k]
        instance = class_of(spec, value)(**parts)
    elif t == 'map':
        return dict((k, make(rng, spec['value'], v, k)) for k, v in value.items())
    elif t == 'sequence':
        return [make(rng, spec['item'], v) for v in value]
    elif t == 'tuple':
        return tuple(make(rng, s, v) for s, v in zip(spec['values'], value))
    elif 'class' in spec:
        instance = class_of(spec, value)(**{spec['name']: value})
    else:
        return value
    if key is not None and spec['key_attr']:
        setattr(instance, spec['key_attr'], key)
    return instance


def filled(spec, value):
    """The value an object made of ``value`` stands for: attributes not given have their defaults."""
    t = spec['t']
    if value is None:
        return None
    if t == 'structure':
        members = members_of(spec, value)
        result = dict((k, filled(members[k], v)) for k, v in value.items())
        for name, member in members.items() if 'class' in spec else ():
            if name not in result and declared(member) is not None:
                result[name] = declared(member)
        return result
    if t == 'map':
        return dict((k, filled(spec['value'], v)) for k, v in value.items())
    if t == 'sequence':
        return [filled(spec['item'], v) for v in value]
    if t == 'tuple':
        return tuple(filled(s, v) for s, v in zip(spec['values'], value))
    return value


def without_nulls(value):
    if isinstance(value, dict):
        return dict((k, without_nulls(v)) for k, v in value.items() if v is not None)
    if isinstance(value, list):
        return [without_nulls(v) for v in value]
    if isinstance(value, tuple):
        return tuple(without_nulls(v) for v in value)
    return value


def has_null_member(spec, value):
    if value is None or spec['t'] in model.SIMPLE:
        return False
    t = spec['t']
    if t == 'structure':
        members = members_of(spec, value)
        return any(v is None or has_null_member(members[k], v) for k, v in value.items())
    if t == 'map':
        return any(has_null_member(spec['value'], v) for v in value.values())
    if t == 'sequence':
        return any(has_null_member(spec['item'], v) for v in value)
    if t == 'tuple':
        return any(has_null_member(s, v) for s, v in zip(spec['values'], value))
    return False


# ---------------------------------------------------------------- the workload

def case(ctx, rng, index):
    xml = index % 4 == 0
    if index % 20 == 7:
        declarations(ctx, rng)
        return keyed(ctx, rng)
    kinds = dict(containers=('structure', 'structure', 'sequence', 'map', 'tuple'), p_default=0.4, p_poly=0.35, odd=False)
    if xml:
        g = xml_gen(rng, **dict(kinds))
    else:
        g = gen.Gen(rng, simple=SIMPLE, map_keys=('text', 'enumeration', 'token', 'integer'), p_constant=0.1, texts=gen.PLAIN_TEXTS, **kinds)
    spec = g.spec(rng.choice([1, 2, 2, 3]), 'structure' if rng.random() < 0.85 else rng.choice(['integer', 'text', 'date', 'token']))
    plan(rng, spec, rng.choice([0, 0.3, 0.7]))
    build(spec)
    base = spec['class'][0]
    for value in canonical_values(rng, spec, 5, odd=False, texts=xml_text if xml else gen.PLAIN_TEXTS):
        if value is None:
            nothing = attempt(base.unserialize, None)
            ctx.check(nothing.kind == 'ok' and nothing.value is None, 'null is not null', schema=describe_spec(spec), observed=nothing)
            continue
        if has_null_member(spec, value):
            # null attributes are a known finding
            try:
                value = canonical(spec, without_nulls(value))
            except model.Undecided:
                ctx.count('null_members')
                continue
            if has_null_member(spec, value):
                ctx.count('null_members')
                continue
        one(ctx, rng, spec, base, value, xml)
    if spec['t'] == 'structure':
        defaults(ctx, rng, spec)
    ctx.sample(describe_spec(spec))


def keyed(ctx, rng):
    """Maps of elements, whose keys become attributes, false ones too."""
    g = gen.Gen(rng, simple=SIMPLE, containers=('structure', 'sequence'), odd=False, p_default=0.2)
    kind = rng.choice(['integer', 'text', 'token', None, 'boolean'])
    keys = {'integer': [0, 1, -1, 7], 'text': ['', 'a', '0', 'b c'], 'token': ['a', '0', 'b:c'], None: ['', 'a', '0'], 'boolean': [False, True]}[kind]
    part = g.spec(1, 'structure')
    spec = {'t': 'structure', 'members': [('things', {'t': 'map', 'value': part}), ('other', {'t': 'integer'})]}
    if kind:
        spec['members'][0][1]['key'] = {'t': kind, 'nonnull': True}
    plan(rng, spec, 0)
    part['made'], part['variants_with_class'], part['key_attr'] = define_class, [], 'key_'
    for s in walk(part):
        s.pop('default', None)
        s.pop('constant', None)
    build(spec)
    for _ in range(4):
        values = [v for v in canonical_values(rng, part, 4, odd=False, texts=gen.PLAIN_TEXTS) if v is not None and not has_null_member(part, v)]
        value = {'things': dict(zip(rng.sample(keys, len(keys)), values))}
        one(ctx, rng, spec, spec['class'][0], value, None)
        ctx.count('keyed')
    # the attribute of the key is a member too: the key of the map prevails over what the value says
    F = scheme.fields
    name = rng.choice(['id', 'label', 'a'])
    structure = F.Structure({name: F.Text(default=rng.choice([None, 'd'])), 'n': F.Integer(default=rng.choice([None, 0, 3]))})
    Keyed = type('Keyed', (Element,), {'schema': structure, 'key_attr': name})
    chosen = rng.sample(['', 'k', 'm', '0'], rng.randrange(1, 5))
    given = {}
    for k in chosen:
        given[k] = {}
        for member, candidates in ((name, ['other', '', 'k', None]), ('n', [1, 0, None])):
            if rng.random() < 0.7:
                given[k][member] = rng.choice(candidates)
    made = attempt(F.Map(structure).instantiate, dict((k, dict(v)) for k, v in given.items()))
    ctx.check(made.kind == 'ok' and sorted(made.value) == sorted(given), 'a map of keyed elements is not made', given=given, observed=made)
    for k, thing in made.value.items():
        ctx.check(type(thing) is Keyed and getattr(thing, name) == k, 'the key of the map does not reach the element', given=given, key=k, attribute=name,
            observed=vars(thing))
        wanted = given[k].get('n', structure.structure['n'].default)
        ctx.check(same(thing.n, wanted), 'an attribute given (null included) does not prevail over its default', given=given, key=k, observed=vars(thing))
    alone = attempt(Keyed, **given[chosen[0]])
    for member in (name, 'n'):
        wanted = given[chosen[0]].get(member, structure.structure[member].default)
        ctx.check(alone.kind == 'ok' and same(getattr(alone.value, member), wanted), 'an attribute given (null included) does not prevail over its default',
            given=given[chosen[0]], observed=alone, attribute=member, expected=wanted)


def declarations(ctx, rng):
    """Classes which cannot mirror a schema are refused, and an object is shown with its identity."""
    F = scheme.fields
    name = rng.choice(['alpha', 'beta', 'a b', ''])
    kind = rng.choice([F.Integer, F.Text, F.Date, F.Boolean])
    for what, schema, error in (('an unnamed field', kind(name=rng.choice([None, ''])), ValueError),
            ('no field', rng.choice([1, 'text', {'a': kind()}, [kind()], kind, object()]), TypeError)):
        made = attempt(lambda: type(Element)('Refused', (Element,), {'schema': schema}))
        ctx.check(made.kind == 'other' and type(made.value) is error, 'a class for %s is accepted' % what, schema=schema, observed=made)
    plain = type(Element)('Plain', (Element,), {'schema': F.Structure({'kind': F.Text(), 'x': F.Integer()})})
    abstract = type(Element)('Abstract', (Element,), {})
    for base in (plain, abstract, Element):
        made = attempt(lambda: type(Element)('Variant', (base,), {'polymorphic_identity': 'x'}))
        ctx.check(made.kind == 'other' and type(made.value) is ValueError, 'a variant of what has no variants is accepted', base=base,
            observed=made)
    below = type(Element)('Below', (abstract,), {'schema': F.Structure({'x': F.Integer(default=3)})})
    ctx.check(below().x == 3 and type(below.unserialize({'x': 4})) is below, 'a class below an abstract one differs')
    members = dict((n, rng.choice([None, 0, 7, '', 'text', name])) for n in rng.sample(['id', 'name', 'title', 'other'], rng.randrange(1, 5)))
    shown = type(Element)('Shown', (Element,), {'schema': F.Structure(dict((n, F.Field()) for n in members))})
    observed = attempt(repr, shown(**members))
    wanted = 'Shown(%s)' % ', '.join('%s=%r' % (n, members[n]) for n in ('id', 'name', 'title') if members.get(n) is not None)
    ctx.check(observed.kind == 'ok' and observed.value == wanted, 'an object is shown without its identity', members=members, observed=observed,
        expected=wanted)
    ctx.count('declarations')


def one(ctx, rng, spec, base, value, xml):
    detail = {'schema': describe_spec(spec), 'value': value}
    try:
        form = outbound(spec, value)
        if not reads_back(spec, value):
            return
    except model.Undecided:
        return
    cls = class_of(spec, value)
    reader = rng.choice([base, cls])
    made = attempt(reader.unserialize, copy.deepcopy(form))
    ctx.check(made.kind == 'ok', 'a valid value gives no object', observed=made, **detail)
    problem = wrong_object(spec, value, made.value)
    ctx.check(not problem, 'of the serialized value is made something else: %s' % problem, **detail)
    built = attempt(make, rng, spec, value)
    ctx.check(built.kind == 'ok', 'constructing objects failed', observed=built, **detail)
    problem = wrong_object(spec, value, built.value)
    ctx.check(not problem, 'a constructed object holds something else: %s' % problem, **detail)
    try:
        value = filled(spec, value)
        form = outbound(spec, value)
        read = model.process(spec, form, 'inbound', True)
        if not read.ok:
            return
    except model.Undecided:
        return
    for way, element in (('read', made.value), ('constructed', built.value)):
        again = attempt(element.serialize)
        ctx.check(again.kind == 'ok' and same(again.value, form), 'an object (%s) serializes differently' % way, expected=form,
            observed=again, **detail)
        problem = wrong_object(spec, value, element)
        ctx.check(not problem, 'serializing changed the object: %s' % problem, **detail)
        returned = attempt(reader.unserialize, again.value)
        problem = wrong_object(spec, read.value, returned.value) if returned.kind == 'ok' else returned
        ctx.check(not problem, 'what was serialized gives another object: %s' % problem, **detail)
        for format in ('xml',) if xml else ('json', 'yaml') if xml is not None else ('yaml',):
            text = attempt(element.serialize, format)
            ctx.check(text.kind == 'ok', 'serializing to %s failed' % format, observed=text, **detail)
            returned = attempt(reader.unserialize, text.value, format)
            problem = wrong_object(spec, read.value, returned.value) if returned.kind == 'ok' else returned
            ctx.check(not problem, 'through %s comes another object: %s' % (format, problem), text=text.value, **detail)
            ctx.count('through_' + format)
    shown = attempt(repr, made.value)
    ctx.check(shown.kind == 'ok' and shown.value.startswith(type(made.value).__name__ + '('), 'an object has no representation', observed=shown)
    for attr in ('id', 'name', 'title'):
        mark = getattr(made.value, attr, None) if attr in vars(made.value) else None
        ctx.check(mark is None or '%s=%r' % (attr, mark) in shown.value, 'the representation of an object lacks what identifies it', shown=shown,
            attribute=attr, value=mark)
    if spec['t'] == 'structure':
        edited(ctx, rng, spec, value, built.value, detail)
    ctx.count('objects')
    if spec.get('on'):
        ctx.count('variants')
    ctx.seen(detail['schema'], value)


def edited(ctx, rng, spec, value, element, detail):
    """Attributes set later are what is serialized; deleted ones are absent."""
    members = members_of(spec, value)
    names = [n for n, m in members.items() if not any('class' in s for s in walk(m)) and n != (
        model.discriminator(spec)['name'] if spec.get('on') else None)]
    if not names:
        return
    name = rng.choice(names)
    try:
        replacement = canonical(members[name], gen.valid(rng, members[name], odd=False, null=0))
        if has_null_member(members[name], replacement) or replacement is None:
            return
        changed = dict(value, **{name: replacement})
        form = outbound(spec, changed)
    except (gen.Unsatisfiable, model.Undecided):
        return
    setattr(element, name, replacement)
    again = attempt(element.serialize)
    ctx.check(again.kind == 'ok' and same(again.value, form), 'an object whose attribute was set serializes differently',
        attribute=name, expected=form, observed=again, **detail)
    if not members[name].get('required'):
        del changed[name]
        try:
            form = outbound(spec, changed)
        except model.Undecided:
            return
        delattr(element, name)
        again = attempt(element.serialize)
        ctx.check(again.kind == 'ok' and same(again.value, form), 'an object whose attribute was deleted serializes differently',
            attribute=name, expected=form, observed=again, **detail)
    ctx.count('edited')


def spoil(value):
    """Alters whatever can be altered in a value; tells whether something could."""
    done = False
    if isinstance(value, dict):
        for v in list(value.values()):
            done = spoil(v) or done
        value['spoilt'] = 1
        return True
    if isinstance(value, (list, tuple)):
        for v in value:
            done = spoil(v) or done
        if isinstance(value, list):
            value.append('spoilt')
            done = True
    return done


def defaults(ctx, rng, spec):
    """Objects share no default with each other or with the schema."""
    identities = [v[0] for v in spec['variants']] if spec.get('on') else [None]
    for identity in identities:
        params = {}
        if identity is not None:
            params[model.discriminator(spec)['name']] = identity
        cls = class_of(spec, params)
        members = members_of(spec, params)
        if any(isinstance(m.get('constant'), (dict, list)) for m in members.values()):
            continue
        first, second = attempt(cls, **params), attempt(cls, **params)
        ctx.check(first.kind == 'ok' and second.kind == 'ok', 'an object cannot be made of defaults', observed=first)
        for name, member in members.items():
            wanted = params.get(name, declared(member))
            ctx.check(same(getattr(first.value, name), wanted), 'an attribute is not the declared default',
                schema=describe_spec(spec), attribute=name, observed=getattr(first.value, name), expected=wanted)
        third = None
        if not any(m.get('required') and declared(m) is None for m in members.values()):
            empty = attempt(cls.unserialize, dict((k, v) for k, v in outbound_identity(spec, params).items()))
            third = empty.value if empty.kind == 'ok' else None
        spoilt = 0
        for element in (first.value, third):
            for name, member in members.items():
                if element is not None and not any('class' in s for s in walk(member)):
                    spoilt += spoil(getattr(element, name, None))
        fresh = attempt(cls, **params)
        for name, member in members.items():
            wanted = params.get(name, declared(member))
            ctx.check(same(getattr(second.value, name), wanted), 'objects share a default', schema=describe_spec(spec),
                attribute=name, observed=getattr(second.value, name), expected=wanted)
            ctx.check(same(getattr(fresh.value, name), wanted), 'a default was altered through an object',
                schema=describe_spec(spec), attribute=name, observed=getattr(fresh.value, name), expected=wanted)
        if third is not None:
            again = attempt(cls.unserialize, outbound_identity(spec, params))
            for name, member in members.items():
                wanted = params.get(name, declared(member))
                got = getattr(again.value, name, None)
                if not any('class' in s for s in walk(member)) and member.get('default') is not None:
                    ctx.check(not contains_spoilt(got), 'the default of the schema was altered through an object',
                        schema=describe_spec(spec), attribute=name, observed=got, expected=wanted)
        ctx.count('defaults_spoilt', spoilt)


def outbound_identity(spec, params):
    if not params:
        return {}
    on = model.discriminator(spec)
    return dict((k, outbound(on, v)) for k, v in params.items())


def contains_spoilt(value):
    if isinstance(value, dict):
        return 'spoilt' in value or any(contains_spoilt(v) for v in value.values())
    if isinstance(value, (list, tuple)):
        return 'spoilt' in value or any(contains_spoilt(v) for v in value)
    return False
