"""An executable reference model of what fields accept and return, on plain-data specifications.

It shares no code with scheme: a specification is a dict ``{'t': type, ...}``; ``process`` returns
``Ok(value)`` or ``Err``. An ``Err`` leaf holds every (kind, token, title, message) the value violates at
that place, any of which is an acceptable report; a structural ``Err`` holds the erroneous
positions only.
"""

import base64
import collections
import datetime as dt
import decimal
import re
import time

INBOUND, OUTBOUND = 'inbound', 'outbound'
UTC = dt.timezone.utc

SIMPLE = ('integer', 'float', 'decimal', 'boolean', 'date', 'time', 'datetime', 'text', 'email',
    'token', 'uuid', 'enumeration', 'binary', 'field')


class Ok(object):
    __slots__ = ('value',)
    ok = True

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return 'OK(%r)' % (self.value,)


class Err(object):
    """``alternatives``: list of (kind, token, title, message), kind 'type' or 'val'; ``children``: dict or
    list (None at valid positions)."""

    __slots__ = ('path', 'alternatives', 'children', 'about')
    ok = False

    def __init__(self, path, alternatives=None, children=None):
        self.path = path
        self.alternatives = alternatives or []
        self.children = children
        # (value, exact): the value which was refused, and whether it was as it had been given
        self.about = None

    @property
    def kinds(self):
        return set(a[0] for a in self.alternatives) or {'val'}

    def leaves(self):
        if self.children is None:
            return 1
        items = self.children.values() if isinstance(self.children, dict) else self.children
        return sum(c.leaves() for c in items if c is not None)

    def __repr__(self):
        if self.children is None:
            return 'ERR(%s: %s)' % (self.path, ' | '.join('%s/%s %r %r' % a for a in self.alternatives))
        return 'ERR(%s: %r)' % (self.path, self.children)


class Undecided(Exception):
    """The model does not define this input (outside the property's domain)."""


class Undef(Exception):
    """Processing has to reach a placeholder that is still undefined."""


# messages and titles, as documented in each field's errors
MESSAGES = {
    '*': {'invalid': ('invalid value', '%(field)s is an invalid value'),
        'nonnull': ('null value', '%(field)s must be a non-null value'),
        'overflow': ('overflow error', '%(field)s overflowed')},
    'integer': {'invalid': ('invalid value', '%(field)s must be an integer'),
        'minimum': ('minimum value', '%(field)s must be greater then or equal to %(minimum)d'),
        'maximum': ('maximum value', '%(field)s must be less then or equal to %(maximum)d')},
    'float': {'invalid': ('invalid value', '%(field)s must be a floating-point number'),
        'minimum': ('minimum value', '%(field)s must be greater then or equal to %(minimum)f'),
        'maximum': ('maximum value', '%(field)s must be less then or equal to %(maximum)f')},
    'decimal': {'invalid': ('invalid value', '%(field)s must be a decimal value'),
        'minimum': ('minimum value', '%(field)s must be greater then or equal to %(minimum)s'),
        'maximum': ('maximum value', '%(field)s must be less then or equal to %(maximum)s')},
    'boolean': {'invalid': ('invalid value', '%(field)s must be a boolean value')},
    'date': {'invalid': ('invalid value', '%(field)s must be a date value'),
        'minimum': ('minimum value', '%(field)s must not occur before %(minimum)s'),
        'maximum': ('maximum value', '%(field)s must not occur after %(maximum)s')},
    'time': {'invalid': ('invalid value', '%(field)s must be a time value'),
        'minimum': ('minimum value', '%(field)s must not occur before %(minimum)s'),
        'maximum': ('maximum value', '%(field)s must not occur after %(maximum)s')},
    'datetime': {'invalid': ('invalid value', '%(field)s must be a datetime value'),
        'minimum': ('minimum value', '%(field)s must not occur before %(minimum)s'),
        'maximum': ('maximum value', '%(field)s must not occur after %(maximum)s')},
    'text': {'invalid': ('invalid value', '%(field)s must be a textual value'),
        'pattern': ('invalid value', '%(field)s has an invalid value'),
        'min_length': ('minimum length',
            '%(field)s must contain at least %(min_length)d non-whitespace %(noun)s'),
        'max_length': ('maximum length', '%(field)s may contain at most %(max_length)d %(noun)s')},
    'token': {'invalid': ('invalid value', '%(field)s must be a valid token')},
    'uuid': {'invalid': ('invalid value', '%(field)s must be a UUID')},
    'enumeration': {'invalid': ('invalid value', '%(field)s must be one of %(values)s')},
    'binary': {'invalid': ('invalid value', '%(field)s must be a binary value'),
        'min_length': ('minimum length', '%(field)s must contain at least %(min_length)d %(noun)s'),
        'max_length': ('maximum length', '%(field)s must contain at most %(max_length)d %(noun)s')},
    'structure': {'invalid': ('invalid value', '%(field)s must be a structure'),
        'required': ('required field', "%(field)s is missing required field '%(name)s'"),
        'unknown': ('unknown field', "%(field)s includes an unknown field '%(name)s'"),
        'unrecognized': ('unrecognized polymorphic identity',
            '%(field)s must specify a recognized polymorphic identity')},
    'map': {'invalid': ('invalid value', '%(field)s must be a map'),
        'invalidkeys': ('invalid keys', '%(field)s must have valid keys'),
        'required': ('required key', "%(field)s is missing required key '%(name)s'")},
    'sequence': {'invalid': ('invalid value', '%(field)s must be a sequence'),
        'min_length': ('minimum length', '%(field)s must have at least %(min_length)d %(noun)s'),
        'max_length': ('maximum length', '%(field)s must have at most %(max_length)d %(noun)s'),
        'duplicate': ('duplicate value', '%(field)s must not have duplicate values')},
    'tuple': {'invalid': ('invalid value', '%(field)s must be a tuple'),
        'length': ('invalid length', '%(field)s must contain exactly %(length)d values')},
    'union': {},
    'field': {},
    'definition': {'invalid': ('invalid value', '%(field)s must be a field definition'),
        'invalidfield': ('invalid field', '%(field)s must be one of %(fields)s')},
}
MESSAGES['email'] = dict(MESSAGES['text'])


def template(spec, token):
    for custom in spec.get('errors') or ():
        if custom[0] == token:
            return custom[1], custom[2]
    t = spec['t']
    if t == 'email' and token == 'pattern':
        if spec.get('multiple'):
            return 'invalid value', '%(field)s must be a list of valid email addresses'
        return 'invalid value', '%(field)s must be a valid email address'
    return MESSAGES[t].get(token) or MESSAGES['*'][token]


def message(spec, name, token, params):
    values = dict(params)
    values['field'] = name or 'unknown-field'
    return template(spec, token)[1] % values


def leaf(spec, name, path, *violated):
    """violated: (kind, token, params)"""
    alternatives = [(kind, token, template(spec, token)[0], message(spec, name, token, params))
        for kind, token, params in violated]
    return Err(path, alternatives)


def root_path(spec):
    return spec.get('name') or '(%s)' % type_name(spec)


def type_name(spec):
    return spec['t']


# ---------------------------------------------------------------- options

def is_nonnull(spec):
    return bool(spec.get('nonnull') or spec.get('nonempty'))


def is_required(spec):
    return bool(spec.get('required') or spec.get('nonempty'))


def min_length(spec):
    n = spec.get('min_length')
    if n is None and spec.get('nonempty') and spec['t'] in ('text', 'email', 'binary'):
        return 1
    return n


def listed(value, candidates):
    for c in candidates:
        if c is value or c == value:
            return True
    return False


PREPROCESSORS = {}
CALLS = []  # every call of a preprocessor, by the code under test or by this model


def plain(value):
    """A text of a value which does not depend on the classes of mappings and timezones."""
    if isinstance(value, dict):
        return '{%s}' % ', '.join('%s: %s' % (plain(k), plain(v)) for k, v in value.items())
    if isinstance(value, list):
        return '[%s]' % ', '.join(plain(v) for v in value)
    if isinstance(value, tuple):
        return '(%s)' % ', '.join(plain(v) for v in value)
    if isinstance(value, dt.datetime):
        return 'datetime(%s)' % value.isoformat()
    return repr(value)


def preprocessor(name):
    def register(function):
        def recorded(value):
            CALLS.append((name, type(value).__name__, plain(value)))
            return function(value)
        PREPROCESSORS[name] = recorded
        return function
    return register


@preprocessor('identity')
def _identity(value):
    return value


@preprocessor('yields')
def _yields(value):
    time.sleep(0)
    return value


@preprocessor('fails')
def _fails(value):
    raise RuntimeError('preprocessor failed')


@preprocessor('increment')
def _increment(value):
    return value + 1


@preprocessor('lower')
def _lower(value):
    return value.lower()


@preprocessor('negate')
def _negate(value):
    return not value


@preprocessor('fails_sometimes')
def _fails_sometimes(value):
    if len(plain(value)) % 2:
        raise KeyError('odd')
    return value


@preprocessor('drop_first')
def _drop_first(value):
    if isinstance(value, list):
        return value[1:]
    if isinstance(value, tuple):
        return value
    if isinstance(value, dict):
        return dict(list(value.items())[1:])
    return value


# ---------------------------------------------------------------- processing

TEXTS = ('text', 'token', 'uuid', 'enumeration')



def process(spec, value, phase=INBOUND, serialized=False, path=None, name=None, partial=False):
    """``name``: the key by which a structure named this field, used unless it has a name."""
    name = spec.get('name') or name
    if path is None:
        path = name or resolve(spec).get('name') or '(%s)' % type_name(resolve(spec))
    t = spec['t']
    if t == 'undef':
        if spec.get('target') is None:
            if spec.get('stub'):
                if value is None:
                    return Ok(None)
                raise Undecided()
            raise Undef()
        return process(spec['target'], value, phase, serialized, path, name, partial)

    null = value is None
    if t == 'enumeration' and spec.get('ignored'):
        null = null or listed(value, spec['ignored'])
    if null:
        if is_nonnull(spec):
            return leaf(spec, name, path, ('val', 'nonnull', {}))
        return Ok(None)
    result = HANDLERS[t](spec, value, phase, serialized, path, name, partial)
    if not result.ok and result.path == path and result.about is None:
        result.about = (value, not spec.get('pre') and not (serialized and phase == INBOUND) and (
            result.kinds == {'type'} if t in TEXTS + ('datetime', 'structure', 'union') else t != 'email'))
    return result


def simple(handler):
    unserialize, validate, serialize = handler

    def run(spec, value, phase, serialized, path, name, partial):
        params = {}
        if spec['t'] == 'enumeration':
            params = {'values': ', '.join(repr(v) for v in spec['values'])}
        invalid = leaf(spec, name, path, ('type', 'invalid', params))
        if serialized and phase == INBOUND and unserialize:
            try:
                value = unserialize(spec, value)
            except Undecided:
                raise
            except Exception:
                return invalid
        if spec['t'] == 'email' and not spec.get('pre'):
            try:
                value = email_preprocess(spec, value)
            except Exception:
                return invalid
        if spec.get('pre'):
            try:
                value = PREPROCESSORS[spec['pre']](value)
            except Exception:
                return invalid
        if spec.get('constant') is not None and value != spec['constant']:
            return invalid
        result = validate(spec, value, path)
        if isinstance(result, list):
            return leaf(spec, name, path, *[(k, token, dict(params, **p)) for k, token, p in result])
        value = result[0]
        if serialized and phase == OUTBOUND and serialize:
            value = serialize(spec, value)
        return Ok(value)
    return run


TYPE = [('type', 'invalid', {})]


def int_unserialize(spec, value):
    if value is True or value is False:
        raise TypeError()
    return int(value)


def bounded(spec, value, wrong, render=lambda v: v, key=lambda v: v):
    minimum, maximum = spec.get('minimum'), spec.get('maximum')
    violated = []
    if minimum is not None and (wrong or key(value) < key(minimum)):
        violated.append(('val', 'minimum', {'minimum': render(minimum)}))
    if maximum is not None and (wrong or key(value) > key(maximum)):
        violated.append(('val', 'maximum', {'maximum': render(maximum)}))
    return violated or (value,)


def int_validate(spec, value, path):
    if isinstance(value, bool) or not isinstance(value, int):
        return TYPE
    return bounded(spec, value, False)


def float_validate(spec, value, path):
    if not isinstance(value, float):
        return TYPE
    return bounded(spec, value, value != value)


def decimal_unserialize(spec, value):
    if isinstance(value, decimal.Decimal):
        return value
    return decimal.Decimal(value)


def decimal_validate(spec, value, path):
    if not isinstance(value, decimal.Decimal):
        return TYPE
    if value.is_snan():
        raise Undecided()
    return bounded(spec, value, value.is_nan())


def bool_validate(spec, value, path):
    if value is True or value is False:
        return (value,)
    return TYPE


def date_unserialize(spec, value):
    if isinstance(value, dt.date):
        return value
    if not isinstance(value, str):
        raise TypeError()
    return dt.date(*time.strptime(value, '%Y-%m-%d')[:3])


def date_key(value):
    return (value.year, value.month, value.day)


def date_validate(spec, value, path):
    if not isinstance(value, dt.date):
        return TYPE
    return bounded(spec, value, False, lambda v: '%04d-%02d-%02d' % date_key(v), date_key)


def date_serialize(spec, value):
    return '%04d-%02d-%02d' % date_key(value)


def time_unserialize(spec, value):
    if isinstance(value, dt.time):
        return value
    if not isinstance(value, str):
        raise TypeError()
    return dt.time(*time.strptime(value, '%H:%M:%S')[3:6])


def time_key(value):
    return (value.hour, value.minute, value.second, value.microsecond)


def time_validate(spec, value, path):
    if not isinstance(value, dt.time):
        return TYPE
    for bound in (spec.get('minimum'), spec.get('maximum')):
        if bound is not None and bound.tzinfo is not None:
            if value.tzinfo is not None and value.utcoffset() != bound.utcoffset():
                raise Undecided()
    return bounded(spec, value, False, lambda v: v.strftime('%H:%M:%S'), time_key)


def time_serialize(spec, value):
    return '%02d:%02d:%02d' % time_key(value)[:3]


def datetime_unserialize(spec, value):
    if isinstance(value, dt.datetime):
        return value
    if not isinstance(value, str):
        raise TypeError()
    return dt.datetime(*time.strptime(value, '%Y-%m-%dT%H:%M:%SZ')[:6], tzinfo=UTC)


def instant(value):
    """Microseconds since year 1 in UTC; naive values are in UTC (checks run with TZ=UTC)."""
    offset = value.utcoffset() or dt.timedelta(0)
    delta = value.replace(tzinfo=None) - dt.datetime(1, 1, 1) - offset
    return delta // dt.timedelta(microseconds=1)


LAST_INSTANT = instant(dt.datetime.max)


def datetime_validate(spec, value, path):
    if not isinstance(value, dt.datetime):
        return TYPE
    moment = instant(value)
    if not 0 <= moment <= LAST_INSTANT:
        return [('val', 'overflow', {})]
    normal = (dt.datetime(1, 1, 1) + dt.timedelta(microseconds=moment)).replace(tzinfo=UTC)
    result = bounded(spec, normal, False,
        lambda v: datetime_serialize(spec, v if v.tzinfo is None else v.astimezone(UTC)), instant)
    return result


def datetime_serialize(spec, value):
    return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (value.year, value.month, value.day, value.hour,
        value.minute, value.second)


def lengths(spec, value, noun):
    violated = []
    n = min_length(spec)
    if n is not None and len(value) < n:
        violated.append(('val', 'min_length', {'min_length': n, 'noun': noun + ('s' if n > 1 else '')}))
    n = spec.get('max_length')
    if n is not None and len(value) > n:
        violated.append(('val', 'max_length', {'max_length': n, 'noun': noun + ('s' if n > 1 else '')}))
    return violated


def text_validate(spec, value, path):
    if not isinstance(value, str):
        return TYPE
    if spec.get('strip', True):
        value = value.strip()
    violated = lengths(spec, value, 'character')
    if spec.get('pattern') and not re.compile(spec['pattern']).match(value):
        violated.append(('val', 'pattern', {}))
    return violated or (value,)


SEPARATORS = ' \t\n\r\x0b\x0c,;:'
ATOM = set("-!#$%&'*+/=?^_`{}|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
LABEL = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-')
LETTERS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
QTEXT = set(map(chr, list(range(1, 9)) + [0o13, 0o14] + list(range(0o16, 0o40)) + [0x21]
    + list(range(0x23, 0x5c)) + list(range(0x5d, 0x80))))
QPAIR = set(map(chr, list(range(1, 0o12)) + [0o13, 0o14] + list(range(0o16, 0o200))))


def email_preprocess(spec, value):
    if spec.get('extended'):
        return value
    value = value.strip(SEPARATORS).lower()
    if spec.get('multiple'):
        value = re.sub(r'[\s,;:]+', ',', value)
    return value


def address_local_end(s, i):
    """The index after the local part starting at ``i``, or None."""
    if s[i:i + 1] == '"':
        i += 1
        while i < len(s):
            c = s[i]
            if c == '"':
                return i + 1
            if c == '\\':
                if i + 1 < len(s) and s[i + 1] in QPAIR:
                    i += 2
                    continue
                return None
            if c not in QTEXT:
                return None
            i += 1
        return None
    while True:
        j = i
        while j < len(s) and s[j] in ATOM:
            j += 1
        if j == i:
            return None
        if s[j:j + 1] != '.':
            return j
        i = j + 1


def is_domain(s):
    labels = s.split('.')
    if len(labels) < 2:
        return False
    for label in labels[:-1]:
        if not label or not set(label) <= LABEL:
            return False
    return 2 <= len(labels[-1]) <= 6 and set(labels[-1]) <= LETTERS


def is_address(s):
    end = address_local_end(s, 0)
    return end is not None and s[end:end + 1] == '@' and is_domain(s[end + 1:])


def is_address_list(s):
    i = 0
    while True:
        end = address_local_end(s, i)
        if end is None or s[end:end + 1] != '@':
            return False
        comma = s.find(',', end)
        if comma < 0:
            return is_domain(s[end + 1:])
        if not is_domain(s[end + 1:comma]):
            return False
        i = comma + 1


def is_extended_address(s):
    if is_address(s):
        return True
    if not s.endswith('>'):
        return False
    i = s.find('<')
    if i > 1 and s[i - 1] == ' ' and is_address(s[i + 1:-1]):
        return True
    if s.startswith('"'):
        j = s.find('"', 1)
        if j > 1:
            rest = s[j + 1:]
            bare = rest.lstrip(' ')
            return bare != rest and bare.startswith('<') and is_address(bare[1:-1])
    return False


def email_validate(spec, value, path):
    if not isinstance(value, str):
        return TYPE
    violated = lengths(spec, value, 'character')
    recognise = is_extended_address if spec.get('extended') else (
        is_address_list if spec.get('multiple') else is_address)
    if value != '' and not recognise(value):
        violated.append(('val', 'pattern', {}))
    return violated or (value,)


def is_word(c):
    return re.match(r'\w\Z', c) is not None


def is_token(value):
    for segment in value.split(':'):
        if not segment or not is_word(segment[0]) or not is_word(segment[-1]):
            return False
        if not all(is_word(c) or c in '-+.' for c in segment):
            return False
    return True


def token_validate(spec, value, path):
    if not isinstance(value, str) or not is_token(value):
        return TYPE
    if spec.get('segments') is not None and len(value.split(':')) != spec['segments']:
        return [('val', 'invalid', {})]
    return (value,)


def uuid_validate(spec, value, path):
    if not isinstance(value, str):
        return TYPE
    parts = value.split('-')
    if [len(p) for p in parts] != [8, 4, 4, 4, 12] or not set(''.join(parts)) <= set('0123456789abcdef'):
        return TYPE
    return (value,)


def enumeration_validate(spec, value, path):
    if listed(value, spec['values']):
        return (value,)
    return TYPE


def binary_unserialize(spec, value):
    if not isinstance(value, bytes):
        raise TypeError()
    return base64.urlsafe_b64decode(value)


def binary_validate(spec, value, path):
    if not isinstance(value, bytes):
        return TYPE
    return lengths(spec, value, 'byte') or (value,)


def binary_serialize(spec, value):
    return base64.b64encode(value).replace(b'+', b'-').replace(b'/', b'_')


def field_validate(spec, value, path):
    return (value,)


def definite(kind):
    def decide(spec, value, path):
        return (value,)
    return decide


# ---------------------------------------------------------------- containers

def positions(results):
    """Splits processed positions into (values, errors) for dicts and lists."""
    if isinstance(results, dict):
        errors = dict((k, r) for k, r in results.items() if not r.ok)
        if errors:
            return None, errors
        return collections.OrderedDict((k, r.value) for k, r in results.items()), None
    if any(not r.ok for r in results):
        return None, [None if r.ok else r for r in results]
    return [r.value for r in results], None


def run_container_preprocessor(spec, value):
    return PREPROCESSORS[spec['pre']](value)


def sequence(spec, value, phase, serialized, path, name, partial):
    invalid = leaf(spec, name, path, ('type', 'invalid', {}))
    if not isinstance(value, list):
        return invalid
    if spec.get('pre'):
        try:
            value = run_container_preprocessor(spec, value)
        except Exception:
            return invalid
    violated = []
    lo, hi = spec.get('min_length'), spec.get('max_length')
    if lo is not None and len(value) < lo:
        violated.append(('val', 'min_length', {'min_length': lo, 'noun': 'item' if lo == 1 else 'items'}))
    if hi is not None and len(value) > hi:
        violated.append(('val', 'max_length', {'max_length': hi, 'noun': 'item' if hi == 1 else 'items'}))
    if violated:
        return leaf(spec, name, path, *violated)
    values, errors = positions([process(spec['item'], v, phase, serialized, '%s[%d]' % (path, i))
        for i, v in enumerate(value)])
    if errors is not None:
        return Err(path, children=errors)
    if spec.get('unique') and has_duplicates(values):
        return leaf(spec, name, path, ('val', 'duplicate', {}))
    return Ok(values)


def contains_nan(value):
    if isinstance(value, dict):
        return any(contains_nan(v) for v in value.values()) or any(contains_nan(k) for k in value)
    if isinstance(value, (list, tuple)):
        return any(contains_nan(v) for v in value)
    return isinstance(value, (float, decimal.Decimal)) and value != value


def has_duplicates(values):
    if contains_nan(values):
        raise Undecided()
    return any(values[i] == values[j] for i in range(len(values)) for j in range(i))


def required_keys(spec):
    keys = spec.get('required_keys') or ()
    return keys.split(' ') if isinstance(keys, str) else keys


def map_(spec, value, phase, serialized, path, name, partial):
    invalid = leaf(spec, name, path, ('type', 'invalid', {}))
    if not isinstance(value, dict):
        return invalid
    if spec.get('pre'):
        try:
            value = run_container_preprocessor(spec, value)
        except Exception:
            return invalid
    results = collections.OrderedDict()
    for key, subvalue in value.items():
        if spec.get('key'):
            processed = process(spec['key'], key, phase, serialized, '%s[%s]' % (path, key))
            if not processed.ok:
                return leaf(spec, name, path, ('val', 'invalidkeys', {}))
            processed = processed.value
        elif isinstance(key, str):
            processed = key
        else:
            return leaf(spec, name, path, ('val', 'invalidkeys', {}))
        try:
            hash(processed)
        except TypeError:
            raise Undecided()
        if processed in results or processed != processed:
            raise Undecided()
        results[processed] = process(spec['value'], subvalue, phase, serialized,
            '%s[%s]' % (path, processed))
    for key in required_keys(spec):
        if key not in results:
            results[key] = leaf(spec, name, path, ('val', 'required', {'name': key}))
    values, errors = positions(results)
    if errors is not None:
        return Err(path, children=errors)
    return Ok(dict(values))


def tuple_(spec, value, phase, serialized, path, name, partial):
    invalid = leaf(spec, name, path, ('type', 'invalid', {}))
    if not isinstance(value, (list, tuple)):
        return invalid
    if spec.get('pre'):
        try:
            value = run_container_preprocessor(spec, value)
        except Exception:
            return invalid
    if len(value) != len(spec['values']):
        return leaf(spec, name, path, ('val', 'length', {'length': len(spec['values'])}))
    values, errors = positions([process(s, v, phase, serialized, '%s[%d]' % (path, i))
        for i, (s, v) in enumerate(zip(spec['values'], value))])
    if errors is not None:
        return Err(path, children=errors)
    return Ok(tuple(values))


def union(spec, value, phase, serialized, path, name, partial):
    for alternative in spec['fields']:
        result = process(alternative, value, phase, serialized, path)
        if result.ok:
            return result
        kinds = result.kinds
        if kinds == {'val', 'type'}:
            raise Undecided()
        if kinds == {'val'}:
            return result
    return leaf(spec, name, path, ('type', 'invalid', {}))


def discriminator(spec):
    """The discriminator field's specification."""
    on = spec['on']
    if isinstance(on, str):
        return {'t': 'enumeration', 'values': sorted(v[0] for v in spec['variants']),
            'nonempty': True, 'name': on}
    return on


def variant_members(spec, identity):
    """Ordered members of a variant, the discriminator included, or None."""
    for candidate, members in spec['variants']:
        if candidate == identity:
            result = collections.OrderedDict(members)
            for key, member in spec.get('common') or ():
                result[key] = member
            on = discriminator(spec)
            result[on['name']] = dict(on, constant=candidate, required=True)
            return result
    return None


def form_members(spec, form):
    """Ordered members of the variant a serialized form belongs to."""
    if not spec.get('on'):
        return collections.OrderedDict(spec['members'])
    on = discriminator(spec)
    identity = process(on, form[on['name']], INBOUND, True)
    return variant_members(spec, identity.value)


def identity_form(spec, identity):
    """What an identity is called in a description: the serialized form of the discriminator."""
    return process(discriminator(spec), identity, OUTBOUND, True).value


def members_of(spec, value, phase, serialized, path, name):
    """(members, None) or (None, Err)"""
    if not spec.get('on'):
        return collections.OrderedDict(spec['members']), None
    on = discriminator(spec)
    identity = value.get(on['name'])
    if identity is None:
        return None, leaf(spec, name, path, ('val', 'required', {'name': on['name']}))
    result = process(on, identity, phase, serialized and phase == INBOUND,
        '%s.%s' % (path, on['name']))
    if not result.ok:
        return None, result
    try:
        hash(result.value)
    except TypeError:
        raise Undecided()
    members = variant_members(spec, result.value)
    if members is None:
        return None, leaf(spec, name, path, ('val', 'unrecognized', {}))
    return members, None


def structure(spec, value, phase, serialized, path, name, partial):
    invalid = leaf(spec, name, path, ('type', 'invalid', {}))
    if not isinstance(value, dict):
        return invalid
    if spec.get('pre'):
        try:
            value = run_container_preprocessor(spec, value)
        except Exception:
            return invalid
    members, error = members_of(spec, value, phase, serialized, path, name)
    if error:
        return error

    order = list(members)
    if spec.get('key_order'):
        wanted = spec['key_order'].split(' ') if isinstance(spec['key_order'], str) else spec['key_order']
        order = [k for k in wanted if k in members] + [k for k in members if k not in wanted]
    results = collections.OrderedDict()
    for key in order:
        member = resolve(members[key])
        present = key in value
        candidate = value.get(key)
        if present and candidate is None and member.get('ignore_null'):
            present = False
        if not present:
            if partial:
                continue
            if member['t'] == 'undef':
                if spec_stub(member):
                    continue
                raise Undef()
            if phase == INBOUND and member.get('default') is not None:
                candidate = member['default']
            elif is_required(member):
                results[key] = leaf(spec, name, path, ('val', 'required', {'name': key}))
                continue
            else:
                continue
        results[key] = process(member, candidate, phase, serialized, '%s.%s' % (path, key), key)
    if spec.get('strict', True):
        for key in value:
            if key not in members:
                results[key] = leaf(spec, name, path, ('val', 'unknown', {'name': key}))
    values, errors = positions(results)
    if errors is not None:
        return Err(path, children=errors)
    return Ok(values if spec.get('key_order') else dict(values))


def spec_stub(spec):
    """Where an unrolled recursive specification ends: nothing but null is ever there."""
    return spec.get('stub')


def resolve(spec):
    while spec['t'] == 'undef' and spec.get('target') is not None:
        target = spec['target']
        spec = target
    return spec


HANDLERS = {
    'integer': simple((int_unserialize, int_validate, None)),
    'float': simple((lambda s, v: float(v), float_validate, None)),
    'decimal': simple((decimal_unserialize, decimal_validate, lambda s, v: str(v))),
    'boolean': simple((None, bool_validate, None)),
    'date': simple((date_unserialize, date_validate, date_serialize)),
    'time': simple((time_unserialize, time_validate, time_serialize)),
    'datetime': simple((datetime_unserialize, datetime_validate, datetime_serialize)),
    'text': simple((None, text_validate, None)),
    'email': simple((None, email_validate, None)),
    'token': simple((None, token_validate, None)),
    'uuid': simple((None, uuid_validate, None)),
    'enumeration': simple((None, enumeration_validate, None)),
    'binary': simple((binary_unserialize, binary_validate, binary_serialize)),
    'field': simple((None, field_validate, None)),
    'sequence': sequence,
    'map': map_,
    'tuple': tuple_,
    'union': union,
    'structure': structure,
}
