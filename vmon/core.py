"""Ground shared by every monitor: loading the code under test, counting what was observed,
describing a violation, and comparing values exactly."""

import decimal
import datetime as dt
import os
import sys
import types
import math
import hashlib

REPO = os.environ.get('VMON_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings
warnings.simplefilter('ignore')

import scheme
import scheme.exceptions as exc

if not os.path.abspath(scheme.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise ImportError('scheme was imported from %r, not from %r' % (scheme.__file__, REPO))

from scheme.exceptions import (CannotExtractError, CannotFilterError, CannotInterpolateError,
    FieldExcludedError, InvalidTypeError, StructuralError, UndefinedFieldError,
    UndefinedParameterError, ValidationError, CannotDescribeError)

INBOUND, OUTBOUND = 'inbound', 'outbound'


class Violation(Exception):
    """The oracle observed an execution which breaks the property."""


class HarnessError(Exception):
    """The harness itself is at fault; never a verdict about the code under test."""


class CaseTimeout(BaseException):
    pass


class Ctx(object):
    """What one worker observed."""

    def __init__(self, tier='quick'):
        self.tier = tier
        self.evaluations = 0
        self.signatures = set()
        self.counters = {}
        self.samples = []
        self.known = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, *key):
        """Records one distinct, non-trivial execution the oracle decided."""
        digest = hashlib.blake2b(repr(key).encode('utf-8', 'replace'), digest_size=8).hexdigest()
        self.signatures.add(digest)

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(short(text, 300))

    def check(self, condition, message, **detail):
        self.evaluations += 1
        if not condition:
            self.fail(message, **detail)

    def fail(self, message, **detail):
        lines = [message]
        for name in sorted(detail):
            lines.append('  %s: %s' % (name, short(show(detail[name]), 3000)))
        raise Violation('\n'.join(lines))


def show(value):
    if isinstance(value, str):
        return value
    try:
        return repr(value)
    except Exception as e:
        return '<unprintable %s: %s>' % (type(value).__name__, type(e).__name__)


def short(text, limit=200):
    text = text if isinstance(text, str) else repr(text)
    return text if len(text) <= limit else text[:limit] + '...(%d more)' % (len(text) - limit)


# ---------------------------------------------------------------- outcomes of real calls

class Outcome(object):
    """What a call did: ``ok`` with a value, ``error`` with a structural error, ``other`` with any
    other exception."""

    __slots__ = ('kind', 'value')

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value

    def __repr__(self):
        if self.kind == 'ok':
            return 'OK(%s)' % short(show(self.value), 1200)
        text = '%s(%s)' % (type(self.value).__name__, short(safe_str(self.value), 1200))
        return text


def safe_str(e):
    try:
        return str(e)
    except Exception as error:
        return '<str() raised %s: %s>' % (type(error).__name__, error)


def attempt(function, *args, **params):
    try:
        return Outcome('ok', function(*args, **params))
    except StructuralError as e:
        return Outcome('error', e)
    except (HarnessError, Violation):
        raise
    except Exception as e:
        return Outcome('other', e)


def same_outcome(a, b):
    """Whether two calls of the real code had the same observable result."""
    if a.kind != b.kind:
        return False
    if a.kind == 'ok':
        return same(a.value, b.value)
    if type(a.value) is not type(b.value):
        return False
    if a.kind == 'error':
        return error_view(a.value) == error_view(b.value)
    return True


def error_view(e):
    """Everything a report says, position by position, as plain comparable data. The order of a
    mapping's positions is not part of it."""
    structure = e.structure
    if isinstance(structure, dict):
        view = ('dict', sorted(((repr(k), error_view(v)) for k, v in structure.items()
            if isinstance(v, StructuralError)), key=lambda p: p[0]))
    elif isinstance(structure, (list, tuple)):
        view = ('list', [error_view(v) if isinstance(v, StructuralError) else None for v in structure])
    else:
        view = None
    errors = [tuple(sorted((k, repr(v)) for k, v in x.items())) if isinstance(x, dict) else repr(x)
        for x in e.errors]
    return (type(e).__name__, ''.join(e.identity), errors, view)


# ---------------------------------------------------------------- exact comparison

def same(a, b):
    """Equality of value and type, through containers; NaN equals NaN, -0.0 differs from 0.0, and
    datetimes agree in instant and offset. Any two dict types agree if their items do."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            if k not in b:
                return False
            if not same(v, b[k]):
                return False
        return all(any(type(k) is type(j) for j in b if j == k) for k in a) if len(a) < 50 else True
    if ta is not tb:
        return False
    if ta in (list, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta is float:
        return repr(a) == repr(b)
    if ta is decimal.Decimal:
        return a.as_tuple() == b.as_tuple()
    if ta is dt.datetime or ta is dt.time:
        if (a.tzinfo is None) != (b.tzinfo is None):
            return False
        if a.tzinfo is None:
            return a == b
        return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset()
    try:
        return bool(a == b)
    except Exception:
        return False


def snapshot(value, depth=0):
    """A value copy of everything reachable from ``value``, for checking it was not altered."""
    if isinstance(value, dict):
        return ('dict', type(value).__name__, [(snapshot(k), snapshot(v)) for k, v in value.items()])
    if isinstance(value, (list, tuple, set, frozenset)):
        return (type(value).__name__, [snapshot(v) for v in value])
    if isinstance(value, float):
        return ('float', repr(value))
    if isinstance(value, (str, int, bytes, bool, type(None), decimal.Decimal, dt.date, dt.time)):
        return (type(value).__name__, repr(value))
    return ('object', id(value))


def json_native(value, path='$', keys=True):
    """None if ``value`` is made of natively serializable data only, else the offending place."""
    if value is None or type(value) in (bool, int, float, str):
        return None
    if isinstance(value, dict):
        for k, v in value.items():
            bad = (json_native(k, path + '.<key>') if keys else None) or json_native(v, '%s.%s' % (path, k), keys)
            if bad:
                return bad
        return None
    if isinstance(value, (list, tuple)):
        for i, v in enumerate(value):
            bad = json_native(v, '%s[%d]' % (path, i), keys)
            if bad:
                return bad
        return None
    if isinstance(value, (str, int, float)):
        return None
    return '%s is %s' % (path, type(value).__name__)
