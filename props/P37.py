"""P37: documentation generated from a description says what the description says."""

import re

from vmon import gen
from vmon.build import build, describe_spec, scheme
from vmon.core import attempt, snapshot
from scheme.doc.generator import DocumentationGenerator, directive

TEXTS = ['plain', 'two words', '', ' ', 'line\nbreak', 'a\n\nb', ':type: text', 'x\n:required: ', 'x\n.. field:: y', 'x\n    .. field:: y\n        :type: text', 'x\n    :a: b', '\u00e9',
    'tab\there', 'trailing \n', '.. field:: z', 'long ' * 40, '*', '100%', '%s', '{}', "'", '\\']
PIECES = ['word', 'a', '\u00e9', 'x' * 30, ':type:', '..', 'field::', '-', 'hyphen-ated', 'y' * 90, '', '%s', '\\']
ROLES = [None, 'schema', 'response', 'x']


def case(ctx, rng, index):
    g = gen.Gen(rng, p_bounds=0.6, p_poly=0.3, p_required=0.4, p_nonnull=0.4, p_unique=0.3, p_title=0.4, p_default=0.3, p_name=0.4, p_constant=0.15)
    spec = g.spec(rng.choice([0, 1, 1, 2, 3]))
    field = build(spec)
    terse, verbose = attempt(field.describe), attempt(field.describe, verbose=True)
    detail = {'schema': describe_spec(spec)}
    if terse.kind != 'ok' or verbose.kind != 'ok':
        ctx.count('not_described')
        return
    description, verbose = terse.value, verbose.value
    name, role, sectional = rng.choice(['n', 'x y', '', 'a.b', '\u00e9', '3']), rng.choice(ROLES), rng.random() < 0.2
    key = rng.choice([None, None, 'text', 'integer'])
    first = text_of(ctx, description, name, role, detail, sectional=sectional, key=key)
    second = text_of(ctx, verbose, name, role, detail, sectional=sectional, key=key)
    ctx.check(first == second, 'a verbose description is documented otherwise', text=second, wanted=first, **detail)
    embellish(rng, description)
    detail['description'] = description
    before = snapshot(description)
    text = text_of(ctx, description, name, role, detail, sectional=sectional, key=key)
    ctx.check(snapshot(description) == before, 'documenting changed the description', **detail)
    ctx.check(text_of(ctx, description, name, role, detail, sectional=sectional, key=key) == text, 'the documentation of one description varies', **detail)
    decide(ctx, parse(ctx, text, detail), description, name, role, dict(detail, text=text), sectional, key)
    ctx.seen(text)
    directives(ctx, rng)
    several_types(ctx, rng)
    extended(ctx, rng)
    ctx.sample(text)



def text_of(ctx, description, name, role, detail, **params):
    block = attempt(lambda: DocumentationGenerator()._document_field(name, description, role, **params))
    ctx.check(block.kind == 'ok', 'a description cannot be documented', observed=block, **detail)
    text = attempt(block.value.render)
    ctx.check(text.kind == 'ok' and isinstance(text.value, str), 'documentation cannot be rendered', observed=text, **detail)
    ctx.count('documented')
    return text.value


def nodes(description):
    """Every description within a description."""
    yield description
    for key in ('value', 'item', 'polymorphic_on'):
        if isinstance(description.get(key), dict):
            yield from nodes(description[key])
    for key in ('values', 'fields'):
        if isinstance(description.get(key), (list, tuple)):
            for part in description[key]:
                yield from nodes(part)
    if isinstance(description.get('structure'), dict):
        for part in description['structure'].values():
            for inner in part.values() if description.get('polymorphic_on') else [part]:
                yield from nodes(inner)


def embellish(rng, description):
    for part in nodes(description):
        for attr, chance in (('description', 0.3), ('notes', 0.2), ('title', 0.2)):
            if rng.random() < chance:
                part[attr] = rng.choice(TEXTS)
        if rng.random() < 0.1:
            part['required'] = rng.choice([True, False])
        if part['fieldtype'] == 'text' and rng.random() < 0.2:
            part['pattern'] = rng.choice(['^a$', '\\d+', ':x:'])


# ---------------------------------------------------------------- what the text says

class Block(object):
    def __init__(self, directive, name):
        self.directive, self.name, self.params, self.parts = directive, name, [], []

    def get(self, key):
        return dict(self.params).get(key)


def parse(ctx, text, detail):
    """The blocks of a text, by indentation."""
    stack, open_param, top = [], None, None
    for line in text.split('\n'):
        depth = len(stack)
        begins = re.match(r'^((?:    )*)\.\. (\w+):: ?(.*)$', line, re.DOTALL)
        if begins and len(begins.group(1)) // 4 <= depth and not (depth == 0 and top):
            block = Block(begins.group(2), begins.group(3))
            del stack[len(begins.group(1)) // 4:]
            if stack:
                stack[-1].parts.append(block)
            else:
                ctx.check(top is None, 'two blocks are rendered for one field', text=text, **detail)
                top = block
            stack.append(block)
            open_param = None
            continue
        prefix = '    ' * depth
        param = re.match('^' + prefix + r':(\w+): (.*)$', line, re.DOTALL)
        if param and depth:
            open_param = [param.group(1), param.group(2)]
            stack[-1].params.append(open_param)
        elif open_param is not None and depth and line.startswith(prefix + '    '):
            open_param[1] += '\n' + line[len(prefix) + 4:]
        elif not line.strip(' '):
            open_param = None
        else:
            ctx.check(False, 'a line belongs to nothing', line=line, text=text, **detail)
    ctx.check(top is not None, 'nothing is rendered', text=text, **detail)
    return top


def decide(ctx, block, description, name, role, detail, sectional=False, key=None):
    kind = description['fieldtype']
    detail = dict(detail, part=name, params=block.params)
    ctx.check(block.directive == 'field' and block.name == name, 'a field is documented under another name', observed=block.name, **detail)
    names = [n for n, _ in block.params]
    ctx.check(len(names) == len(set(names)), 'something is said twice', **detail)
    wanted = {'type': '%s: %s' % (key, kind) if key else kind}
    for attr in ('description', 'notes'):
        if description.get(attr):
            wanted[attr] = description[attr]
    if description.get('title') is not None:
        wanted['title'] = description['title']
    for attr in ('constant', 'default'):
        if description.get(attr) is not None:
            wanted[attr] = repr(description[attr])
    for attr in ('nonnull', 'ignore_null', 'required'):
        if description.get(attr) and not (attr == 'required' and role == 'schema'):
            wanted[attr] = ''
    if sectional:
        wanted['sectional'] = ''
    limits, parts = {}, []
    if kind in ('date', 'datetime', 'time', 'decimal', 'integer', 'float', 'sequence'):
        show = repr if kind in ('decimal', 'integer', 'float') else str
        for attr, limit in (('min', 'minimum'), ('max', 'maximum')) if kind != 'sequence' else (('min', 'min_length'), ('max', 'max_length')):
            if description.get(limit) is not None:
                limits[attr] = show(description[limit])
        if kind == 'datetime' and description.get('utc'):
            limits['utc'] = 'True'
    if kind == 'text':
        for limit in ('min_length', 'max_length'):
            if description.get(limit) is not None:
                limits[limit] = str(description[limit])
        if description.get('strip') is False:
            limits['strip'] = 'false'
        if description.get('pattern'):
            wanted['pattern'] = description['pattern']
    if kind == 'sequence':
        if description.get('unique'):
            wanted['unique'] = ''
        parts.append(('', description['item'], None))
    if kind == 'enumeration' and description.get('constant') is None:
        wanted['values'] = None
        ctx.check(' '.join(sorted(map(str, description['enumeration']))) == block.get('values'),
            'the values of an enumeration are documented otherwise', **detail)
    if kind == 'map':
        keytype = description['key']['fieldtype'] if description.get('key') else 'text'
        value = description['value']
        if value.get('structural') or value.get('description'):
            parts.append(('', value, keytype))
        else:
            wanted['subtype'] = '%s: %s' % (keytype, value['fieldtype'])
        if description.get('required_keys'):
            wanted['required_keys'] = repr(sorted(description['required_keys'], key=mixed))
    if kind == 'tuple':
        parts += [('', part, None) for part in description.get('values', ())]
    if kind == 'union':
        parts += [('', part, None) for part in description.get('fields', ())]
    discriminator = kind == 'structure' and description.get('polymorphic_on')
    if discriminator and description.get('structure'):
        wanted['polymorphic'] = ''
        variants(ctx, block, description, discriminator['name'], role, detail)
    elif kind == 'structure':
        parts += [(n, part, None) for n, part in (description.get('structure') or {}).items()]
        names = [b.name for b in block.parts]
        ctx.check(names == sorted(p[0] for p in parts), 'the members of a structure are documented otherwise', observed=names, **detail)
        parts.sort(key=lambda p: p[0])
    if limits:
        wanted['constraints'] = None
        said = dict(c.split('=', 1) for c in re.split(', | ', block.get('constraints') or '') if '=' in c)
        ctx.check(said == limits, 'the constraints are documented otherwise', wanted=limits, **detail)
        ctx.count('constraints')
    for attr, value in block.params:
        ctx.check(attr in wanted, 'the documentation tells of something which is absent', attr=attr, **detail)
        ctx.check(wanted[attr] is None or value == str(wanted[attr]), 'the documentation says something else', attr=attr, wanted=wanted.get(attr), **detail)
    ctx.check(all(attr in names_of(block) for attr in wanted), 'something is missing from the documentation', missing=sorted(set(wanted) - set(names_of(block))), **detail)
    if not discriminator:
        ctx.check(len(block.parts) == len(parts), 'the parts of a field are documented otherwise', observed=[b.name for b in block.parts], **detail)
        for inner, (part_name, part, part_key) in zip(block.parts, parts):
            decide(ctx, inner, part, part_name, role, detail, False, part_key)
    ctx.count('fields')


def mixed(value):
    return type(value).__name__, value


def names_of(block):
    return [n for n, _ in block.params]


def variants(ctx, block, description, on, role, detail):
    """One block for each variant, which holds the members other than the discriminator."""
    wanted = dict(('%s=%r' % (on, identity), members) for identity, members in description['structure'].items())
    names = [b.name for b in block.parts]
    ctx.check(sorted(names) == sorted(wanted) and names == ['%s=%r' % (on, i) for i in sorted(description['structure'], key=mixed)], 'the variants of a structure are documented otherwise',
        observed=[b.name for b in block.parts], wanted=sorted(wanted), **detail)
    for inner in block.parts:
        ctx.check(inner.directive == 'field' and inner.params == [['polymorphic_discriminator', '']], 'a variant is documented otherwise', observed=inner.params, **detail)
        members = dict((n, part) for n, part in wanted[inner.name].items() if n != on)
        names = [b.name for b in inner.parts]
        ctx.check(names == sorted(members), 'the members of a variant are documented otherwise', observed=names, wanted=sorted(members), **detail)
        for part in inner.parts:
            decide(ctx, part, members[part.name], part.name, role, detail)
        ctx.count('variants')


# ---------------------------------------------------------------- the directives themselves

def directives(ctx, rng):
    """Directives with text and other directives within."""
    depth = rng.randrange(3)
    args = rng.sample(['one', 'two', 3, 'x y'], rng.randrange(3))
    extra = rng.sample(['four', 5], rng.randrange(3))
    made = directive('note', *args)
    for arg in extra:
        ctx.check(made.add(arg) is made, 'add() does not return the directive')
    params = [(rng.choice(['a', 'b', 'c']), rng.choice(['', 'x', 1, None, True, 'one\ntwo'])) for _ in range(rng.randrange(3))]
    for name, value in params:
        ctx.check(made.set(name, value) is made, 'set() does not return the directive')
    content = [rng.choice([lambda: rng.choice(['', '', '  ', '\n', ' ' * 8]) + ' '.join(rng.choice(PIECES) for _ in range(rng.randrange(30))), lambda: directive('inner', 'i').set('k', 'v')])() for _ in range(rng.randrange(4))]
    if rng.random() < 0.5:
        ctx.check(made.extend(list(content)) is made, 'extend() does not return the directive')
    else:
        for item in content:
            ctx.check(made.append(item) is made, 'append() does not return the directive')
    text = made.render(depth) if depth else made.render()
    lines = text.split('\n')
    detail = {'text': text, 'content': [c if isinstance(c, str) else 'directive' for c in content]}
    outer, prefix = '    ' * depth, '    ' * (depth + 1)
    ctx.check(lines[0] == '' and lines[1] == '%s.. note:: %s' % (outer, ' '.join(str(a) for a in args + extra)), 'a directive begins otherwise', **detail)
    said = []
    for name, value in params:
        said += ['%s:%s: %s' % (prefix, name, part) if i == 0 else '%s    %s' % (prefix, part) for i, part in enumerate(str(value).split('\n'))]
    ctx.check([l for l in lines[2:2 + len(said)]] == said, 'the parameters of a directive are rendered otherwise', wanted=said, **detail)
    rest = [l for l in lines[2 + len(said):] if l.strip()]
    ctx.check(all(l.startswith(prefix) for l in rest), 'the content of a directive is not indented', **detail)
    words = []
    for item in content:
        words += item.split() if isinstance(item, str) else ['..', 'inner::', 'i', ':k:', 'v']
    glued = lambda text: re.sub(r'\s+', '', text)
    ctx.check(glued(' '.join(rest)) == glued(' '.join(words)), 'the content of a directive is rendered otherwise', **detail)
    ctx.check(all(l.startswith(prefix + '    ') or l[len(prefix):].lstrip(' ') == l[len(prefix):] for l in rest), 'a line is indented further', **detail)
    ctx.check(all(len(l) <= 80 for l in rest), 'a line is too long', **detail)
    ctx.count('directives')


def several_types(ctx, rng):
    """Identities and keys which have no order of their own."""
    F = scheme.fields
    values = rng.sample([1, 2, 10, 'a', 'b', 'kind', 2.5, 0], rng.randrange(1, 5))
    structure = F.Structure(dict((v, {'type': F.Text(), 'a': F.Integer(minimum=3)}) for v in values), polymorphic_on=F.Enumeration(values, name='kind'))
    field = F.Sequence(F.Tuple((structure, F.Map(F.Text(), key=F.Enumeration(values), required_keys=values))))
    description = field.describe()
    detail = {'schema': repr(field)}
    text = text_of(ctx, description, 'x', None, detail)
    decide(ctx, parse(ctx, text, detail), description, 'x', None, detail)


def extended(ctx, rng):
    """A generator of an application, with a describer of its own."""
    class Mine(DocumentationGenerator):
        flag_attrs = {'nonnull': ['quiet'], 'ours': []}

        def _describe_email(self, field, block, role):
            block.set('values', 'mail for %s' % role)
    role = rng.choice(['quiet', 'loud'])
    description = scheme.Structure({'a': scheme.Email(nonnull=True, required=True), 'b': scheme.Sequence(scheme.Email(nonnull=True))}).describe()
    description['structure']['a']['ours'] = True
    block = parse(ctx, Mine()._document_field('x', description, role).render(), {})
    a, b = [p for p in block.parts if p.name == 'a'][0], [p for p in block.parts if p.name == 'b'][0]
    for part in (a, b.parts[0]):
        ctx.check(part.get('values') == 'mail for %s' % role and (part.get('nonnull') is None) == (role == 'quiet') and part.get('required') is None,
            'the settings of a generator are not used', params=part.params, role=role)
    ctx.check(a.get('ours') == '' and b.get('ours') is None, 'the settings of a generator are not used', params=a.params)
    usual = DocumentationGenerator()._document_field('x', {'fieldtype': 'email', 'nonnull': True, 'required': True, 'ours': True}).params
    ctx.check(sorted(usual) == [('nonnull', ''), ('required', ''), ('type', 'email')], 'a generator changed another', params=usual)
