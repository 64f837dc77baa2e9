"""Reference models of extraction, instantiation and interpolation on plain-data specifications."""

import decimal
import re

from vmon import model
from vmon.core import (CannotExtractError, CannotInterpolateError, FieldExcludedError, HarnessError,
    UndefinedFieldError, UndefinedParameterError, same)

REFUSALS = {'extract': CannotExtractError, 'excluded': FieldExcludedError, 'field': UndefinedFieldError,
    'interpolate': CannotInterpolateError, 'parameter': UndefinedParameterError}


class Refused(Exception):
    def __init__(self, kind):
        Exception.__init__(self, kind)
        self.kind = kind


class Box(object):
    """What instantiators of the workload make of values."""

    def __init__(self, name, value):
        self.name = name
        self.value = value

    def __eq__(self, other):
        return type(other) is Box and self.name == other.name and same(self.value, other.value)

    __hash__ = None

    def __repr__(self):
        return 'Box(%s, %r)' % (self.name, self.value)


class Wrap(object):
    """An instantiator which records its calls."""

    def __init__(self, name, calls):
        self.name, self.calls = name, calls

    def __call__(self, field, value, key):
        self.calls.append((self.name, key, value))
        return Box(self.name, value)

    def __repr__(self):
        return 'wrap-' + self.name

    def __deepcopy__(self, memo):
        return self


class Unwrap(object):
    """An extractor which records its calls; it fails on anything but its own boxes."""

    def __init__(self, name, calls):
        self.name, self.calls = name, calls

    def __call__(self, field, value):
        self.calls.append((self.name, value))
        if not isinstance(value, Box) or value.name != self.name:
            raise LookupError(self.name)
        return value.value

    def __repr__(self):
        return 'unwrap-' + self.name

    def __deepcopy__(self, memo):
        return self


class Bag(object):
    """An object with attributes."""

    def __init__(self, attributes):
        self.__dict__.update(attributes)

    def __repr__(self):
        return 'Bag(%r)' % (self.__dict__,)


def expected(function, *args):
    """('ok', value) or ('refused', kind)"""
    try:
        return ('ok', function(*args))
    except Refused as e:
        return ('refused', e.kind)


def mismatch(wanted, outcome):
    """None, or what is wrong with the outcome of the real call."""
    kind, value = wanted
    if kind == 'ok':
        if outcome.kind != 'ok':
            return 'it was refused: %r' % outcome
        if not same(outcome.value, value):
            return 'the result differs'
        return None
    if outcome.kind == 'ok':
        return 'it was accepted'
    if type(outcome.value) is not REFUSALS[value]:
        return 'it raised %s instead of %s' % (type(outcome.value).__name__, REFUSALS[value].__name__)


# ---------------------------------------------------------------- extraction

def screened(spec, criteria):
    aspects = spec.get('aspects') or {}
    return any(v is not None and aspects.get(k) != v for k, v in criteria.items())


def selected_members(spec, getter, refusal):
    if not spec.get('on'):
        return dict(spec['members'])
    try:
        identity = getter(model.discriminator(spec)['name'])
        hash(identity)
    except (AttributeError, KeyError, TypeError):
        raise Refused(refusal)
    members = model.variant_members(spec, identity)
    if members is None:
        raise Refused(refusal)
    return members


def extract(spec, subject, strict=True, criteria=None, calls=None):
    criteria = criteria or {}
    if spec['t'] == 'undef':
        if spec.get('target') is None:
            raise Refused('field')
        return extract(spec['target'], subject, strict, criteria, calls)
    if screened(spec, criteria):
        raise Refused('excluded')
    if subject is None:
        return None
    hook = spec.get('extractor')
    if hook:
        if calls is not None:
            calls.append((hook.name, subject))
        if not isinstance(subject, Box) or subject.name != hook.name:
            raise Refused('extract')
        subject = subject.value
    t = spec['t']
    if t == 'structure':
        if isinstance(subject, dict):
            getter = subject.__getitem__
        elif not strict:
            getter = lambda name: getattr(subject, name)
        else:
            raise Refused('extract')
        result = {}
        for name, member in selected_members(spec, getter, 'extract').items():
            try:
                value = getter(name)
            except (AttributeError, KeyError):
                continue
            if value is None:
                continue
            try:
                result[name] = extract(member, value, strict, criteria, calls)
            except Refused as e:
                if e.kind != 'excluded':
                    raise
        return result
    if t == 'map':
        if not isinstance(subject, dict):
            raise Refused('extract')
        result = {}
        for key, value in subject.items():
            try:
                result[key] = extract(spec['value'], value, strict, criteria, calls)
            except Refused as e:
                if e.kind != 'excluded':
                    raise
        return result
    if t in ('sequence', 'tuple'):
        if not isinstance(subject, (list, tuple)):
            raise Refused('extract')
        if t == 'tuple':
            if len(subject) < len(spec['values']):
                raise Refused('extract')
            pairs = list(zip(spec['values'], subject))
        else:
            pairs = [(spec['item'], item) for item in subject]
        result = []
        for member, value in pairs:
            try:
                result.append(extract(member, value, strict, criteria, calls))
            except Refused as e:
                if e.kind != 'excluded':
                    raise
        return tuple(result) if t == 'tuple' else result
    if t == 'union':
        for alternative in spec['fields']:
            try:
                return extract(alternative, subject, strict, criteria, calls)
            except Refused as e:
                if e.kind != 'extract':
                    raise
        raise Refused('extract')
    return subject


# ---------------------------------------------------------------- instantiation

def instantiate(spec, value, key=None, calls=None):
    t = spec['t']
    if t == 'undef':
        if spec.get('target') is None:
            raise Refused('field')
        return instantiate(spec['target'], value, key, calls)
    if t == 'union':
        raise HarnessError('unions do not instantiate')
    if value is None:
        return None
    if t == 'structure':
        if spec.get('on'):
            members = model.variant_members(spec, value[model.discriminator(spec)['name']])
        else:
            members = dict(spec['members'])
        value = dict((k, instantiate(members[k], v, k, calls)) for k, v in value.items())
    elif t == 'map':
        value = dict((k, instantiate(spec['value'], v, k, calls)) for k, v in value.items())
    elif t == 'sequence':
        value = [instantiate(spec['item'], v, None, calls) for v in value]
    elif t == 'tuple':
        value = tuple(instantiate(s, v, None, calls) for s, v in zip(spec['values'], value))
    hook = spec.get('instantiator')
    if hook:
        if calls is not None:
            calls.append((hook.name, key, value))
        return Box(hook.name, value)
    return value


# ---------------------------------------------------------------- interpolation

class Template(str):
    """A template built from parts, so that its rendering is known without parsing it. A part is
    ('text', literal), ('ref', name, path, filter)"""

    def __new__(cls, parts, spaces=''):
        text = ''
        for part in parts:
            if part[0] == 'text':
                text += part[1]
            else:
                _, name, path, filter = part
                reference = name + ''.join('.%s' % p if isinstance(p, str) else '[%d]' % p for p in path)
                text += '${%s%s%s%s}' % (spaces, reference, '|' + filter if filter else '', spaces)
        self = str.__new__(cls, text)
        self.parts = parts
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def single(self):
        refs = [p for p in self.parts if p[0] == 'ref']
        rest = ''.join(p[1] for p in self.parts if p[0] == 'text')
        if len(refs) == 1 and not rest.strip():
            return refs[0]


FILTERS = {'upper': lambda v: str(v).upper(), 'lower': lambda v: str(v).lower(), 'length': len,
    'trim': lambda v: str(v).strip(), 'string': str}

MISSING = object()


def look_up(part, parameters):
    """The value of a reference, or MISSING; raises Refused for a reference into what is missing."""
    _, name, path, filter = part
    value = parameters.get(name, MISSING)
    for step in path:
        if value is MISSING:
            raise Refused('parameter')
        try:
            value = value[step]
        except (KeyError, IndexError, TypeError):
            value = MISSING
    if filter:
        # what is absent is an empty text to a filter
        value = FILTERS[filter]('' if value is MISSING else value)
    return value


def render(subject, parameters):
    """The text of a template; a missing parameter renders as nothing."""
    if not isinstance(subject, Template):
        return subject
    text = ''
    for part in subject.parts:
        if part[0] == 'text':
            text += part[1]
        else:
            value = look_up(part, parameters)
            text += '' if value is MISSING else str(value)
    return text


def evaluate(subject, parameters):
    """A single reference is replaced by its parameter, anything else stays."""
    if isinstance(subject, Template) and subject.single:
        value = look_up(subject.single, parameters)
        if value is MISSING:
            raise Refused('parameter')
        return value
    return subject


def interpolate(spec, subject, parameters):
    t = spec['t']
    if t == 'undef':
        if spec.get('target') is None:
            raise Refused('field')
        return interpolate(spec['target'], subject, parameters)
    if subject is None:
        return None
    if t in ('text', 'email', 'token'):
        if not isinstance(subject, str):
            raise model.Undecided()
        return render(subject, parameters)
    if t in ('structure', 'map', 'sequence', 'tuple', 'union'):
        if isinstance(subject, str):
            subject = evaluate(subject, parameters)
    if t == 'structure':
        if not isinstance(subject, dict):
            raise Refused('interpolate')
        result = {}
        members = selected_members(spec, subject.__getitem__, 'interpolate')
        for name, member in members.items():
            if name not in subject:
                continue
            try:
                result[name] = interpolate(member, subject[name], parameters)
            except Refused as e:
                if e.kind != 'parameter':
                    raise
        return result
    if t == 'map':
        if not isinstance(subject, dict):
            raise Refused('interpolate')
        result = {}
        for key, value in subject.items():
            try:
                result[key] = interpolate(spec['value'], value, parameters)
            except Refused as e:
                if e.kind != 'parameter':
                    raise
        return result
    if t == 'sequence':
        if not isinstance(subject, (list, tuple)):
            raise Refused('interpolate')
        return [interpolate(spec['item'], v, parameters) for v in subject]
    if t == 'tuple':
        if not isinstance(subject, (list, tuple)) or len(subject) < len(spec['values']):
            raise Refused('interpolate')
        return tuple(interpolate(s, v, parameters) for s, v in zip(spec['values'], subject))
    if t == 'union':
        for alternative in spec['fields']:
            try:
                return interpolate(alternative, subject, parameters)
            except Refused as e:
                if e.kind != 'interpolate':
                    raise
        raise Refused('interpolate')
    if t == 'enumeration':
        if model.listed(subject, spec['values']):
            return subject
        if not isinstance(subject, str):
            raise model.Undecided()
        value = evaluate(subject, parameters)
        if model.listed(value, spec['values']):
            return value
        raise Refused('interpolate')
    if t == 'integer':
        return number(int, subject, parameters)
    if t == 'float':
        return number(float, subject, parameters)
    if t == 'decimal':
        if isinstance(subject, decimal.Decimal):
            return subject
        if not isinstance(subject, str):
            raise model.Undecided()
        return convert(decimal.Decimal, evaluate(subject, parameters))
    native = {'binary': bytes, 'boolean': bool, 'date': model.dt.date, 'datetime': model.dt.datetime,
        'time': model.dt.time}.get(t)
    if native and isinstance(subject, native):
        return subject
    if not isinstance(subject, str):
        raise model.Undecided()
    return evaluate(subject, parameters)


def number(kind, subject, parameters):
    if isinstance(subject, (int, float)):
        return convert(kind, subject)
    if not isinstance(subject, str):
        raise model.Undecided()
    return convert(kind, evaluate(subject, parameters))


def convert(kind, value):
    try:
        return kind(value)
    except Exception:
        raise model.Undecided()


# ---------------------------------------------------------------- hooks

def attach(rng, spec, calls, chance=0.3, instantiators=True, extractors=True):
    """Gives nodes of a specification recording instantiators and extractors of the same name, so
    that what is instantiated can be extracted again."""
    from vmon.build import walk
    for i, node in enumerate(walk(spec)):
        if node['t'] == 'undef' or rng.random() >= chance:
            continue
        name = '%s%d' % (node['t'], i)
        if instantiators and node['t'] != 'union':
            node['instantiator'] = Wrap(name, calls)
        if extractors:
            node['extractor'] = Unwrap(name, calls)
    for node in walk(spec):
        # neither discriminators nor map keys are converted
        for part in (node.get('on'), node.get('key')):
            if isinstance(part, dict):
                for s in walk(part):
                    s.pop('instantiator', None)
                    s.pop('extractor', None)
    return spec
