"""P36: the printed forms of fields and of reports say what they stand for."""

import datetime as dt
import decimal
import re

from vmon import core, gen, model
from vmon.build import build, describe_spec
from vmon.core import StructuralError, attempt, same
from props.common import PHASES, inputs

# settings shown as name=value, settings shown when switched on, settings shown when switched off
VALUES = {'integer': ['minimum', 'maximum'], 'float': ['minimum', 'maximum'], 'decimal': ['minimum', 'maximum'], 'date': ['minimum', 'maximum'],
    'time': ['minimum', 'maximum'], 'datetime': ['minimum', 'maximum'], 'text': ['min_length', 'max_length'], 'binary': ['min_length', 'max_length'],
    'email': ['min_length', 'max_length'], 'token': ['segments'], 'sequence': ['min_length', 'max_length'], 'structure': ['key_order']}
ON = {'datetime': ['utc'], 'email': ['multiple', 'extended'], 'sequence': ['unique']}
OFF = {'text': ['strip'], 'structure': ['strict']}
NOWHERE = object()
FLAGS = ['nonnull', 'required', 'ignore_null']


def case(ctx, rng, index):
    pre = rng.random() < 0.3
    g = gen.Gen(rng, p_bounds=0.6, p_poly=0.3, p_errors=0.2, p_required=0.4, p_nonnull=0.4, p_ignored=0.3, p_pre=0.1 if pre else 0.0, p_unique=0.3, p_title=0.4,
        p_default=0.3, p_name=0.5)
    spec = g.spec(rng.choice([0, 0, 1, 2, 3]))
    field = build(spec)
    text = attempt(repr, field)
    detail = {'schema': describe_spec(spec), 'text': text}
    ctx.check(text.kind == 'ok' and isinstance(text.value, str), 'a field cannot be printed', **detail)
    shown(ctx, spec, field, None, detail)
    again = attempt(repr, build(spec))
    ctx.check(again.value == text.value, 'equal fields are printed otherwise', again=again, **detail)
    ctx.check(attempt(lambda: repr(field.clone())).value == text.value, 'a clone is printed otherwise', **detail)
    ctx.seen(text.value)
    for value in inputs(rng, spec, 3) + [gen.mutate(rng, v, 4) for v in inputs(rng, spec, 3, False)]:
        phase, serialized = rng.choice(PHASES)
        outcome = attempt(field.process, value, phase, serialized)
        if outcome.kind == 'error':
            report(ctx, spec, outcome.value, value, not pre and (phase == 'outbound' or not serialized), dict(detail, value=value, phase=phase, serialized=serialized))
    ctx.check(attempt(repr, field).value == text.value, 'using a field changes how it is printed', **detail)
    references(ctx, rng)
    ctx.sample(text.value)


def references(ctx, rng):
    """Fields which no generated schema holds."""
    import scheme
    F = scheme.fields
    names = rng.sample(['scheme.surrogate.surrogate', 'os.path', 'b', 'a.b'], rng.randrange(1, 4))
    flag = rng.choice(FLAGS)
    name = rng.choice(['ref', 'x y', '\u00e9'])
    for made, wanted in ((lambda **p: F.Surrogate(names, **p), names), (lambda **p: F.Surrogate(**p), []), (lambda **p: F.Definition('text integer', **p), []),
            (lambda **p: F.Object(**p), []), (lambda **p: F.Error(**p), []), (lambda **p: F.UUID(**p), [])):
        field = made(name=name, **{flag: True})
        text = attempt(repr, field)
        ctx.check(text.kind == 'ok' and text.value.startswith(type(field).__name__ + '(') and 'name=%r' % name in text.value and '%s=True' % flag in
            text.value and all(repr(w) in text.value for w in wanted), 'a field is printed otherwise', text=text)
        other = attempt(repr, made(name=name))
        ctx.check(text.value != other.value, 'different fields are printed alike', text=text)
    field = F.Enumeration(['a', 'b'], name=name)
    before = repr(field)
    strategy = rng.choice(['append', 'replace'])
    field.redefine(rng.choice([['c'], 'c d', ['b', 'c']]), strategy)
    after = repr(field)
    refused = attempt(field.process, 'absent', 'inbound')
    ctx.check(before != after and all((repr(v) in after) == (repr(v) in str(refused.value)) == (v in field.enumeration) for v in 'abcd'),
        'a redefined enumeration is printed otherwise', before=before, after=after, report=str(refused.value))
    for made, wanted in ((F.Decimal(minimum=decimal.Decimal('1.50')), "Decimal('1.50')"), (F.Text(title='The title'), "title='The title'"),
            (F.Sequence(F.Text(), min_length=0, max_length=0), 'max_length=0'), (F.Integer(minimum=0, default=0), 'default=0'),
            (F.Integer(maximum=0), 'maximum=0'), (F.Float(minimum=0.0), 'minimum=0.0'), (F.Boolean(default=False), 'default=False'),
            (F.Integer(constant=0), 'constant=True'), (F.Boolean(constant=False), 'constant=True'), (F.Text(constant=''), 'constant=True'),
            (F.Float(constant=0.0), 'constant=True'), (F.Text(default=''), "default=''"), (F.Token(default='a'), "default='a'")):
        text = repr(made)
        ctx.check(wanted in text and (not wanted.count('=') or says(text, wanted)), 'a setting is missing from the printed form', text=text, wanted=wanted)


def shown(ctx, spec, field, key, detail):
    """The field's own settings, and the printed forms of the fields within."""
    text, t = repr(field), spec['t']
    if t == 'undef':
        return
    detail = dict(detail, part=text)
    ctx.check(text.startswith(type(field).__name__ + '(') and text.endswith(')'), 'a field is printed without its type', **detail)
    own = text
    for part in sorted(parts(spec, field), key=lambda p: -len(repr(p[1]))):
        inner = repr(part[1])
        ctx.check(inner in text, 'a field within is missing from the printed form', missing=inner, **detail)
        own = own.replace(inner, '...', 1)
        shown(ctx, part[0], part[1], part[2], detail)
    name = field.name
    ctx.check(not name or says(own, 'name=%r' % name), 'the name is missing from the printed form', **detail)
    for setting in VALUES.get(t, ()):
        value = model.min_length(spec) if setting == 'min_length' else spec.get(setting)
        if t == 'token' and not value or t == 'structure' and not field.key_order:
            value = None
        said = re.search(r'\b%s=' % setting, own) is not None
        if value is None:
            ctx.check(t in ('email', 'token') or not said, 'the printed form tells of a setting which is absent', setting=setting, **detail)
        else:
            ctx.check(any(says(own, '%s=%s' % (setting, form)) for form in forms(spec, setting, value)), 'a setting is missing from the printed form',
                setting=setting, wanted=forms(spec, setting, value), **detail)
            ctx.count('settings')
    for setting in ON.get(t, ()):
        ctx.check(says(own, '%s=True' % setting) == bool(spec.get(setting)), 'the printed form is wrong about a setting', setting=setting, **detail)
    for setting in OFF.get(t, ()):
        wanted = spec.get(setting) is False
        ctx.check(says(own, '%s=False' % setting) == wanted, 'the printed form is wrong about a setting', setting=setting, **detail)
    for setting in FLAGS:
        ctx.check(says(own, '%s=True' % setting) == bool(getattr(field, setting)), 'the printed form is wrong about a setting', setting=setting, **detail)
        ctx.check(bool(getattr(field, setting)) == bool(spec.get(setting)) or setting != 'ignore_null', 'a flag is set otherwise', **detail)
    ctx.check(says(own, 'constant=True') == (spec.get('constant') is not None), 'the printed form is wrong about the constant', **detail)
    if spec.get('title'):
        ctx.check(says(own, 'title=%r' % spec['title']), 'the title is missing from the printed form', **detail)
    if spec.get('default') is not None and t not in ('structure', 'map', 'sequence', 'tuple', 'union'):
        ctx.check(says(text, 'default=%r' % (field.default,)), 'the default is missing from the printed form', **detail)
    if t == 'enumeration':
        ctx.check(all(repr(v) in own for v in field.enumeration), 'a value is missing from the printed form', **detail)
    if t == 'map' and field.required_keys:
        ctx.check('required_keys=' in own and all(repr(k) in own for k in field.required_keys), 'required keys are missing from the printed form', **detail)
    if t == 'structure' and field.polymorphic_on:
        ctx.check(says(own, 'polymorphic_on=%r' % field.polymorphic_on.name), 'the discriminator is missing from the printed form', **detail)
    ctx.count('fields_printed')


def says(text, setting):
    """Whether ``text`` tells of exactly this setting."""
    return re.search(r'(?<![A-Za-z_])' + re.escape(setting) + r'(?=[,)]|$)', text) is not None


def forms(spec, setting, value):
    t = spec['t']
    if t == 'date':
        return [repr(value), repr('%04d-%02d-%02d' % model.date_key(value)), repr('%d-%02d-%02d' % model.date_key(value))]
    if t == 'time':
        return [repr(value), repr(model.time_serialize(None, value))]
    if t == 'datetime':
        text = model.datetime_serialize(None, value)
        return [repr(value), repr(text), repr(text.lstrip('0'))]
    if t == 'structure':
        return [repr(value), repr(list(value)), repr(tuple(value)), repr(value.split() if isinstance(value, str) else value)]
    return [repr(value)]


def parts(spec, field):
    """(specification, field, key) of the fields directly within."""
    t = spec['t']
    if t == 'sequence':
        return [(spec['item'], field.item, None)]
    if t == 'map':
        found = [(spec['value'], field.value, None)]
        return found + [(spec['key'], field.key, None)] if spec.get('key') else found
    if t == 'tuple':
        return list(zip(spec['values'], field.values, range(99)))
    if t == 'union':
        return list(zip(spec['fields'], field.fields, range(99)))
    if t == 'structure' and not spec.get('on'):
        return [(s, field.structure[k], k) for k, s in spec['members']]
    if t == 'structure':
        found = []
        for identity, members in spec['variants']:
            known = dict(list(spec.get('common') or ()) + list(members))
            found += [(known.get(k, {'t': 'undef'}), f, k) for k, f in field.structure[identity].items()]
        return found
    return []


def leaves(error, value):
    """(error, the part of the value it is about) in the order of the text."""
    if error.structure is None:
        return [(error, value)]
    found = []
    for key, part in error.structure.items() if isinstance(error.structure, dict) else enumerate(error.structure):
        if isinstance(part, StructuralError):
            try:
                found += leaves(part, value[key])
            except Exception:
                found += leaves(part, NOWHERE)
    return found


def report(ctx, spec, error, value, exact, detail):
    """Every error of the text shows the field and the value as its declaration asks for."""
    text = str(error)
    entries = error.format_errors()
    found = [(leaf, entry, part) for leaf, part in leaves(error, value) for entry in leaf.errors]
    ctx.check(len(entries) == len(found), 'the text lists %d errors instead of %d' % (len(entries), len(found)), shown=text, **detail)
    for (leaf, entry, part), block in zip(found, entries):
        field, path = leaf.field, ''.join(leaf.identity)
        definition = field.errors[entry['token']]
        ctx.check(bare(' error at %s: ' % path) in bare(block), 'an error of the text names another position', block=block, **detail)
        ctx.check(('Field: %r' % field in block) == bool(definition.show_field), 'an error shows its field or not against its declaration',
            block=block, **detail)
        if entry['token'] in ('required', 'unknown', 'nonnull'):
            ctx.check('Value: ' not in block.replace(repr(field), ''), 'an error of an absent value shows a value', block=block, **detail)
            ctx.count('without_value')
        elif definition.show_value:
            ctx.check('Value: %r' % (leaf.value,) in block, 'an error does not show its value', block=block, **detail)
            ctx.check(leaf.value is not None, 'an error knows no value', block=block, **detail)
            if part is not NOWHERE and exact and field.type != 'email' and not isinstance(part, (dict, dt.datetime)):
                wanted = part.strip() if isinstance(part, str) and isinstance(leaf.value, str) else part
                got = leaf.value.strip() if isinstance(part, str) and isinstance(leaf.value, str) else leaf.value
                ctx.check(same(got, wanted), 'an error shows another value', block=block, shown=leaf.value, wanted=part, **detail)
                ctx.count('values_compared')
            ctx.count('values_shown')
        else:
            ctx.check('Value: ' not in block.replace(repr(field), ''), 'an error shows its value against its declaration', block=block, **detail)
    ctx.count('reports')


def bare(text):
    return ''.join(text.split())
