"""Builds the real field for a specification, through public constructors only."""

from vmon.core import scheme, HarnessError
from vmon import model
from scheme.field import FieldError, Undefined
from scheme.fields import (Binary, Boolean, Date, DateTime, Decimal, Definition, Email, Enumeration,
    Error, Field, Float, Integer, Map, Object, Sequence, Structure, Surrogate, Text, Time, Token,
    Tuple, Union, UUID)
import scheme.fields as F

COMMON = ('name', 'description', 'title', 'notes', 'nonnull', 'required', 'ignore_null', 'nonempty',
    'default', 'constant')


def field_class(name):
    return getattr(F, name)


def common(spec):
    params = dict((k, spec[k]) for k in COMMON if spec.get(k) is not None)
    if spec.get('aspects'):
        params.update(spec['aspects'])
    if spec.get('errors'):
        errors = [FieldError(*e) for e in spec['errors']]
        params['errors'] = dict((e.token, e) for e in errors) if spec.get('errors_as_dict') else errors
    if spec.get('pre'):
        params['preprocessor'] = model.PREPROCESSORS[spec['pre']]
    for hook in ('instantiator', 'extractor'):
        if spec.get(hook):
            params[hook] = spec[hook]
    return params


def pick(spec, *names):
    return dict((n, spec[n]) for n in names if spec.get(n) is not None)


def build(spec):
    field = construct(spec)
    if spec.get('made'):
        spec['made'](spec, field)
    return field


def construct(spec):
    t = spec['t']
    if t == 'undef':
        placeholder = spec.get('placeholder')
        if placeholder is None:
            placeholder = spec['placeholder'] = Undefined()
        return placeholder
    params = common(spec)
    if t == 'integer':
        return Integer(**dict(params, **pick(spec, 'minimum', 'maximum')))
    if t == 'float':
        return Float(**dict(params, **pick(spec, 'minimum', 'maximum')))
    if t == 'decimal':
        return Decimal(**dict(params, **bounds(spec, str)))
    if t == 'boolean':
        return Boolean(**params)
    if t == 'date':
        return Date(**dict(params, **bounds(spec, lambda v: '%04d-%02d-%02d' % model.date_key(v))))
    if t == 'time':
        return Time(**dict(params, **bounds(spec, lambda v: model.time_serialize(None, v))))
    if t == 'datetime':
        params.update(pick(spec, 'utc'))
        return DateTime(**dict(params, **bounds(spec, lambda v: model.datetime_serialize(None, v))))
    if t == 'text':
        return Text(**dict(params, **pick(spec, 'pattern', 'min_length', 'max_length', 'strip')))
    if t == 'email':
        return Email(**dict(params, **pick(spec, 'multiple', 'extended', 'min_length', 'max_length')))
    if t == 'token':
        return Token(**dict(params, **pick(spec, 'segments')))
    if t == 'uuid':
        return UUID(**params)
    if t == 'enumeration':
        values = spec['values']
        if spec.get('as_text'):
            values = ' '.join(values)
        elif isinstance(values, list):
            values = list(values)
        params['enumeration'] = values
        if spec.get('ignored') is not None:
            params['ignored_values'] = list(spec['ignored'])
        return Enumeration(**params)
    if t == 'binary':
        return Binary(**dict(params, **pick(spec, 'min_length', 'max_length')))
    if t == 'field':
        return Field(**params)
    if t == 'object':
        return Object(**params)
    if t == 'definition':
        return Definition(**dict(params, **pick(spec, 'valid_fields')))
    if t == 'error':
        return Error(**params)
    if t == 'surrogate':
        return Surrogate(**dict(params, **pick(spec, 'valid_surrogates')))
    if t == 'sequence':
        return Sequence(build(spec['item']), **dict(params, **pick(spec, 'min_length', 'max_length',
            'unique')))
    if t == 'map':
        params.update(pick(spec, 'required_keys'))
        if spec.get('key'):
            params['key'] = build(spec['key'])
        return Map(build(spec['value']), **params)
    if t == 'tuple':
        return Tuple([build(s) for s in spec['values']], **params)
    if t == 'union':
        return Union([build(s) for s in spec['fields']], **params)
    if t == 'structure':
        params.update(pick(spec, 'strict', 'key_order'))
        if spec.get('generate_default'):
            params['generate_default'] = spec['generate_default']
        if spec.get('on'):
            on = spec['on']
            params['polymorphic_on'] = on if isinstance(on, str) else build(on)
            variants = {}
            for identity, members in spec['variants']:
                variants[identity] = dict((k, build(s)) for k, s in members)
            if spec.get('common'):
                variants['*'] = dict((k, build(s)) for k, s in spec['common'])
            return Structure(variants, **params)
        return Structure(dict((k, build(s)) for k, s in spec['members']), **params)
    raise HarnessError('unknown type %r' % t)


def bounds(spec, render):
    params = pick(spec, 'minimum', 'maximum')
    if spec.get('bounds_as_text'):
        params = dict((k, render(v)) for k, v in params.items())
    return params


def children(spec):
    """(label, child spec) of a container specification."""
    t = spec['t']
    if t == 'undef':
        return [('target', spec['target'])] if spec.get('target') else []
    if t == 'sequence':
        return [('item', spec['item'])]
    if t == 'map':
        return [('value', spec['value'])] + ([('key', spec['key'])] if spec.get('key') else [])
    if t == 'tuple':
        return list(enumerate(spec['values']))
    if t == 'union':
        return list(enumerate(spec['fields']))
    if t == 'structure':
        if spec.get('on'):
            result = []
            for identity, members in spec['variants']:
                result.extend(((identity, k), s) for k, s in members)
            result.extend((('*', k), s) for k, s in spec.get('common') or ())
            return result
        return list(spec['members'])
    return []


def walk(spec):
    yield spec
    for _, child in children(spec):
        for s in walk(child):
            yield s


def describe_spec(spec):
    """Short text of a specification for reports and signatures."""
    if spec['t'] == 'undef':
        return 'undef'
    options = ['%s=%r' % (k, v) for k, v in sorted(spec.items())
        if k not in ('t', 'item', 'value', 'key', 'values', 'fields', 'members', 'variants', 'common',
            'placeholder', 'made', 'class') and v is not None]
    if spec['t'] == 'enumeration':
        options.append('values=%r' % (spec['values'],))
    nested = ['%s: %s' % (label, describe_spec(child)) for label, child in children(spec)]
    return '%s(%s)%s' % (spec['t'], ', '.join(options), '{%s}' % ', '.join(nested) if nested else '')
