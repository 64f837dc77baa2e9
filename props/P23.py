"""P23: interpolation replaces references by parameters, and nothing else."""

import decimal
import re

from vmon import core, gen, model, moves
from vmon.build import build, children, describe_spec
from vmon.core import attempt, same, scheme, snapshot
from vmon.moves import Template
from props.common import any_text, valid_or_none
from scheme.interpolation import Interpolator, interpolate_parameters

NAMES = ['alpha', 'beta', 'gamma', 'delta', 'x1', 'under_score', 'Q']
MEMBERS = ['alpha', 'beta', 'inner', 'n1']
LITERALS = ['', ' ', 'a', 'text', ' padded ', '\n', 'line\nbreak\n', '\n\n', '}', '{', '{ }', '{{x}}', '$', '$$', '$ {', '<a&b>',
    '\u00e9\u4e2d', '\U0001f600', '"q"', "it's", '\\', '\\n', '}}', '|upper', '%', '#', '##', '# if x', '\t', ' ${', '-', 'x}', '1', 'None']


def inert(text):
    return not any(mark in text for mark in ('${', '{%', '{#', '#}', '%}', '\r'))


def carriage_returns():
    if scheme.fields.Text(strip=False).interpolate('a\r\nb', {}) == 'a\nb':
        return 'carriage returns of text become line feeds'


def union_twice():
    field = scheme.fields.Union((scheme.fields.Text(), scheme.fields.Integer()))
    if field.interpolate('${x}', {'x': '${y}', 'y': 'secret'}) == 'secret':
        return 'a union interpolates what it has interpolated'


KNOWN = {'carriage-returns': carriage_returns, 'union-twice': union_twice}


class World(object):
    """Parameters made while subjects are."""

    def __init__(self, rng):
        self.rng = rng
        self.parameters = {}
        self.plain = False  # whether parameters hold nothing that could be interpolated again

    def place(self, value):
        """A reference (name, path) to ``value``."""
        rng = self.rng
        name = '%s%d' % (rng.choice(NAMES), len(self.parameters))
        path = []
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            if rng.random() < 0.6:
                key = rng.choice(MEMBERS)
                path.insert(0, key)
                value = dict([('other', 1), (key, value)])
            else:
                i = rng.randrange(3)
                path.insert(0, i)
                value = [0] * i + [value] + ['rest'] * rng.randrange(2)
                if rng.random() < 0.3:
                    value = tuple(value)
        self.parameters[name] = value
        return name, tuple(path)

    def missing(self):
        """A reference to something that is not there."""
        rng = self.rng
        if self.parameters and rng.random() < 0.4:
            name = rng.choice(sorted(self.parameters))
            if type(self.parameters[name]) is dict:
                return name, ('absent',) + (() if rng.random() < 0.7 else ('deeper',))
        return 'absent%d' % rng.randrange(3), rng.choice([(), (), ('alpha',), (0,)])

    def spaces(self):
        return self.rng.choice(['', '', ' ', '  '])

    def reference(self, value, missing=0.06):
        """A template which stands for ``value``."""
        rng = self.rng
        name, path = self.missing() if rng.random() < missing else self.place(value)
        parts = [('ref', name, path, None)]
        if rng.random() < 0.2:
            parts = [('text', rng.choice([' ', '\n', '  \t']))] + parts
        if rng.random() < 0.2:
            parts = parts + [('text', rng.choice([' ', '\n', ' \n']))]
        return Template(parts, self.spaces())

    def text(self):
        """A text with any number of references."""
        rng = self.rng
        parts = []
        for _ in range(rng.randrange(0, 5)):
            if rng.random() < 0.55:
                literal = rng.choice(LITERALS)
                if rng.random() < 0.2:
                    literal = gen.random_text(rng)
                parts.append(('text', literal))
            else:
                value = rng.choice([1, 0, -3, 2.5, 'word', '', ' x ', 'Mixed Case', True, None, [1, 'a'], {'k': 1}, decimal.Decimal('1.50'),
                    '${alpha}', '<b>', '\n', 'a\r\nb', '\u00e9', '{{z}}'])
                if self.plain and isinstance(value, str) and not inert(value):
                    value = 'word'
                name, path = self.missing() if rng.random() < 0.1 else self.place(value)
                filter = rng.choice(['upper', 'lower', 'trim', 'string']) if rng.random() < 0.2 else None
                if filter and not isinstance(value, str):
                    filter = 'string'
                parts.append(('ref', name, path, filter))
        literals = ''.join(p[1] if p[0] == 'text' else '\x00' for p in parts)
        if not inert(literals) or '{\x00' in literals or '#\x00' in literals and '{' in literals:
            return self.text()
        return Template(parts, self.spaces())


def subject_for(world, spec, value):
    """A subject which stands for ``value``: parts of it are references."""
    rng = world.rng
    t = spec['t']
    if t == 'undef':
        return subject_for(world, spec['target'], value)
    if value is None:
        return None
    if t in ('text', 'email', 'token'):
        return world.text() if rng.random() < 0.7 else (value if inert(value) else 'plain')
    if t in ('structure', 'map', 'sequence', 'tuple'):
        if rng.random() < 0.15:
            return world.reference(subject_for(world, spec, value) if rng.random() < 0.5 else safe(value))
        if t == 'structure':
            if spec.get('on'):
                members = model.variant_members(spec, value[model.discriminator(spec)['name']])
                on = model.discriminator(spec)['name']
                return dict((k, v if k == on or k not in members else subject_for(world, members[k], v)) for k, v in value.items())
            members = dict(spec['members'])
            return dict((k, subject_for(world, members[k], v) if k in members else safe(v)) for k, v in value.items())
        if t == 'map':
            return dict((k, subject_for(world, spec['value'], v)) for k, v in value.items())
        if t == 'sequence':
            items = [subject_for(world, spec['item'], v) for v in value]
            return tuple(items) if rng.random() < 0.1 else items
        return tuple(subject_for(world, s, v) for s, v in zip(spec['values'], value))
    if t == 'union':
        for alternative in spec['fields']:
            try:
                if model.process(alternative, value).ok:
                    before, world.plain = world.plain, True
                    try:
                        return subject_for(world, alternative, value)
                    finally:
                        world.plain = before
            except model.Undecided:
                pass
        return safe(value)
    if rng.random() < 0.75:
        return world.reference(safe(value) if world.plain else value)
    if isinstance(value, str) and not inert(value) and not world.plain:
        return world.reference(value)
    return safe(value)


def safe(value):
    """The value with its strings made inert."""
    if isinstance(value, str):
        return value if inert(value) else 'plain'
    if isinstance(value, dict):
        return dict((k, safe(v)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return type(value)(safe(v) for v in value)
    return value


def unpicked(value):
    """The value with templates as ordinary strings."""
    if isinstance(value, Template):
        return str.__str__(value) + ''
    if isinstance(value, dict):
        return dict((k, unpicked(v)) for k, v in value.items())
    if isinstance(value, list):
        return [unpicked(v) for v in value]
    if isinstance(value, tuple):
        return tuple(unpicked(v) for v in value)
    return value


def case(ctx, rng, index):
    g = gen.Gen(rng, p_nonnull=0.1, p_default=0.1, p_constant=0, odd=False, texts=gen.PLAIN_TEXTS)
    spec = g.spec(rng.choice([0, 1, 2, 2, 3]))
    field = build(spec)
    earlier = []
    for _ in range(5):
        world = World(rng)
        value = valid_or_none(rng, spec, odd=False, null=0.05)
        try:
            subject = subject_for(world, spec, model.process(spec, value).value if rng.random() < 0.5 else value)
        except (model.Undecided, AttributeError, KeyError):
            continue
        if rng.random() < 0.15:
            subject = damage(rng, subject)
        one(ctx, spec, field, subject, world.parameters, earlier)
    for subject, parameters, outcome in earlier:
        again = attempt(field.interpolate, subject, parameters)
        ctx.check(core.same_outcome(outcome, again), 'an interpolation depends on earlier ones', schema=describe_spec(spec),
            subject=subject, parameters=parameters, observed=again, earlier=outcome)
    direct(ctx, rng)
    ctx.sample(describe_spec(spec))


def damage(rng, subject):
    """A subject of the wrong shape somewhere."""
    if isinstance(subject, dict) and subject and rng.random() < 0.7:
        key = rng.choice(list(subject))
        return dict(subject, **{key: damage(rng, subject[key])}) if isinstance(key, str) else subject
    if isinstance(subject, list) and subject and rng.random() < 0.7:
        return subject[:-1] + [damage(rng, subject[-1])]
    return rng.choice([[], {}, 'plain', (), None, {'zz': 1}])


def one(ctx, spec, field, subject, parameters, earlier):
    real_subject, real_parameters = unpicked(subject), unpicked(parameters)
    detail = {'schema': describe_spec(spec), 'subject': real_subject, 'parameters': real_parameters}
    try:
        wanted = moves.expected(moves.interpolate, spec, subject, parameters)
    except model.Undecided:
        ctx.count('undecided')
        attempt(field.interpolate, real_subject, real_parameters)
        return
    before = snapshot(real_subject), snapshot(real_parameters)
    outcome = attempt(field.interpolate, real_subject, real_parameters)
    if wanted[0] == 'ok':
        wanted = ('ok', unpicked(wanted[1]))
    problem = moves.mismatch(wanted, outcome)
    ctx.check(not problem, 'interpolation: %s' % problem, expected=wanted, observed=outcome, **detail)
    ctx.check((snapshot(real_subject), snapshot(real_parameters)) == before, 'interpolation changed what it was given', **detail)
    # an interpolator which knows the parameters by itself: it has to be the one used at every level
    mine = Interpolator(globals=real_parameters)
    through = attempt(field.interpolate, unpicked(subject), {'unused_zz': 1}, mine)
    ctx.check(not moves.mismatch(wanted, through), 'the interpolator given is not the one which is used', expected=wanted, observed=through, **detail)
    ctx.count('interpolated' if wanted[0] == 'ok' else 'refused_' + wanted[1])
    ctx.seen(detail['schema'], real_subject)
    earlier.append((real_subject, real_parameters, outcome))


def direct(ctx, rng):
    """The functions themselves, and interpolators of one's own."""
    world = World(rng)
    template = world.text()
    text = unpicked(template)
    parameters = world.parameters
    wanted = moves.expected(moves.render, template, parameters)
    if wanted[0] == 'ok':
        wanted = ('ok', unpicked(wanted[1]))
    mine = Interpolator(filters={'twice': lambda v: str(v) * 2}, globals={'constant': lambda: 7})
    for interpolator in (None, Interpolator(), mine):
        outcome = attempt(interpolate_parameters, text, parameters, interpolator=interpolator)
        problem = moves.mismatch(wanted, outcome)
        ctx.check(not problem, 'rendering: %s' % problem, template=text, parameters=parameters, expected=wanted, observed=outcome)
    single = moves.expected(moves.evaluate, template, parameters)
    if single[0] == 'ok':
        single = ('ok', unpicked(single[1]))
    references = [p for p in template.parts if p[0] == 'ref']
    if len(references) < 2 and (single[0] == 'ok' or not references or not references[0][3]):
        outcome = attempt(interpolate_parameters, text, parameters, True)
        problem = moves.mismatch(single if text else ('ok', ''), outcome)
        ctx.check(not problem, 'evaluating: %s' % problem, template=text, parameters=parameters, expected=single, observed=outcome)
    own = attempt(interpolate_parameters, '${x|twice}-${constant()}', {'x': 'ab'}, False, mine)
    ctx.check(own.kind == 'ok' and own.value == 'abab-7', 'the filters and globals of an interpolator are not used', observed=own)
    field = scheme.fields.Structure({'a': scheme.fields.Text(), 'b': scheme.fields.Integer(), 'c': scheme.fields.Sequence(
        scheme.fields.Text()), 'd': scheme.fields.Map(scheme.fields.Tuple((scheme.fields.Text(), scheme.fields.Integer())))})
    own = attempt(field.interpolate, {'a': '${x|twice}', 'b': '${constant()}', 'c': ['${x|twice}'], 'd': {'k': ('${x|twice}', '${y}')}},
        {'x': 'q', 'y': 3}, mine)
    ctx.check(own.kind == 'ok' and own.value == {'a': 'qq', 'b': 7, 'c': ['qq'], 'd': {'k': ('qq', 3)}},
        'the interpolator is not used at every level', observed=own)
    standard(ctx, rng)
    failing(ctx, rng)
    foreign = attempt(interpolate_parameters, '${x|twice}', {'x': 'ab'})
    ctx.check(foreign.kind == 'other', 'the filters of one interpolator show in another', observed=foreign)
    wrong = attempt(interpolate_parameters, rng.choice([1, None, [], b'a']), {})
    ctx.check(wrong.kind == 'other' and type(wrong.value) is ValueError, 'a subject which is not text is not refused', observed=wrong)
    ctx.count('rendered')
    ctx.seen('render', text)


def standard(ctx, rng):
    """Filters and globals a class of interpolators has as its standard."""
    def thrice(value):
        return str(value) * 3

    def reply():
        return 42

    def own(value):
        return 'own %s' % value
    kind = type('Own', (Interpolator,), {'standard_filters': [thrice], 'standard_globals': [reply]})
    plain, more = kind(), kind(filters={'own': own}, globals={'seven': 7})
    for interpolator, template, wanted in ((plain, '${x|thrice}', 'ababab'), (plain, '<${reply()}>', '<42>'), (more, '${x|thrice}${seven}', 'ababab7'),
            (more, '${reply()} ${x|own}', '42 own ab'), (plain, '${x|upper}', 'AB')):
        outcome = attempt(interpolate_parameters, template, {'x': 'ab'}, False, interpolator)
        ctx.check(outcome.kind == 'ok' and outcome.value == wanted, 'the standard filters and globals of a class are not used', template=template,
            observed=outcome)
    for template in ('${x|thrice}', '${reply()}', '${x|own}'):
        for other in (None, Interpolator()) + ((plain,) if 'own' in template else ()):
            outcome = attempt(interpolate_parameters, template, {'x': 'ab'}, False, other)
            ctx.check(outcome.kind == 'other', 'the standard filters and globals of a class show in others', template=template, observed=outcome)


def failing(ctx, rng):
    """What goes wrong in an interpolator is not taken for an absent parameter."""
    F = scheme.fields
    failure = rng.choice([AttributeError, KeyError, TypeError, ValueError, LookupError, ZeroDivisionError])('of the filter')

    def broken(value):
        raise failure
    interpolator = Interpolator(filters={'broken': broken})
    for field, subject in ((F.Structure({'a': F.Text()}), {'a': '${x|broken}'}), (F.Map(F.Text()), {'a': '${x|broken}'}),
            (F.Sequence(F.Text()), ['${x|broken}']), (F.Tuple((F.Text(),)), ('${x|broken}',)),
            (F.Sequence(F.Structure({'a': F.Map(F.Integer())})), [{'a': {'k': '${x|broken}'}}])):
        outcome = attempt(field.interpolate, subject, {'x': 1}, interpolator)
        ctx.check(outcome.kind == 'other' and outcome.value is failure, 'a failure within an interpolator is hidden', field=repr(field),
            observed=outcome, failure=failure)
