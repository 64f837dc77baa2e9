"""Generators of specifications, of values valid for them, and of hostile values."""

import datetime as dt
import decimal
import string as strings

from vmon import model
from vmon.core import HarnessError

D = decimal.Decimal

INTS = [0, 1, -1, 2, 3, 7, 10, 255, 256, -128, 2**31 - 1, 2**31, -2**31, 2**63 - 1, 2**63, -2**63 - 1,
    10**20, -10**20]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1.5, 1e-7, 1e16, 1e22, 1.7976931348623157e308, 5e-324,
    2.2250738585072014e-308, 123456.789, -3.25, 1e15, 1e17, 9007199254740993.0]
ODD_FLOATS = [float('inf'), float('-inf'), float('nan')]
DECIMALS = [D('0'), D('-0'), D('1'), D('1.0'), D('1.00'), D('-1.5'), D('0.1'), D('1E+10'), D('1E-10'),
    D('123456789012345678901234567890.123456789'), D('3'), D('10'), D('0.000')]
ODD_DECIMALS = [D('Infinity'), D('-Infinity'), D('NaN')]
DATES = [dt.date(1, 1, 1), dt.date(9999, 12, 31), dt.date(999, 12, 31), dt.date(1000, 1, 1),
    dt.date(1970, 1, 1), dt.date(2000, 2, 29), dt.date(1900, 2, 28), dt.date(2012, 12, 31),
    dt.date(2013, 1, 1), dt.date(1969, 12, 31), dt.date(2024, 2, 29), dt.date(99, 3, 4)]
TIMES = [dt.time(0, 0, 0), dt.time(23, 59, 59), dt.time(12, 0, 0), dt.time(0, 0, 1), dt.time(1, 2, 3),
    dt.time(12, 59, 59), dt.time(13, 0, 0), dt.time(9, 30)]
DATETIMES = [dt.datetime(1, 1, 1), dt.datetime(9999, 12, 31, 23, 59, 59), dt.datetime(1970, 1, 1),
    dt.datetime(999, 12, 31, 23, 59, 59), dt.datetime(1969, 12, 31, 23, 59, 59),
    dt.datetime(2000, 2, 29, 12, 30, 15), dt.datetime(2012, 12, 31, 23, 59, 59),
    dt.datetime(2038, 1, 19, 3, 14, 8), dt.datetime(2024, 7, 1, 0, 0, 0), dt.datetime(1901, 1, 2)]
OFFSETS = [0, 60, -60, 330, -570, 840, -720, 1439, -1439, 1]
UUIDS = ['00000000-0000-0000-0000-000000000000', 'ffffffff-ffff-ffff-ffff-ffffffffffff',
    '9ec10a30-8a4d-4a3f-9f5a-0123456789ab']
KEYS = ['a', 'b', 'c', 'd', 'alpha', 'beta', 'x1', 'name', 'type', 'value', 'item', 'id']

TEXTS = ['', ' ', 'a', 'ab', 'abc', 'hello world', ' padded ', '\n', 'line\nbreak', 'trailing\n',
    '\tTab', 'true', 'false', 'null', 'None', '~', '0', '1', '-1', '1.5', '1e3', '2000-01-01',
    '12:30:00', '2000-01-01T00:00:00Z', 'yes', 'no', 'on', 'off', "it's", '"quoted"', "'", '"', '\\',
    '\\n', 'a: b', 'a:', ': a', 'a #b', '#a', '- a', '-', '?', '? a', '[', ']', '{', '}', '[a]', '{a: b}',
    '&a', '*a', '!a', '!!str a', '|', '>', '|-', '%a', '@a', '`a`', ',', 'a,b', 'a;b', 'a b  c',
    '\u00e9', '\u00fc\u00df', '\u4e2d\u6587', '\U0001f600', 'e\u0301', '\u00a0', '\u2028', '<a>', '&amp;',
    ']]>', '<![CDATA[x]]>', '${x}', '{{x}}', '{% x %}', 'x' * 70, 'word ' * 30, 'x' * 130, '||0||',
    'a=b&c=d', '%20', 'a+b', '.', '..', '=', '<<', '---', '...', 'a\n\nb', 'a\n  b', '  a\nb', 'a \nb',
    '0x1F', '0o17', '017', '1_000', '.5', '5.', '+1', '.inf', '.nan', '1:30', '\x7f', '\x85', '\x00',
    '\x1b', '\ufeff', '\ufffe', '\r', 'a\r\nb', 'null ', 'True', 'NO', 'y', 'n', 'nan', 'inf', '1,000',
    '(a)', '(', "a'b", 'a"b', '\u2029', 'ab\tcd', '\v', '\f']
PLAIN_TEXTS = ['a', 'b', 'ab', 'abc', 'hello', 'hello world', 'x1', 'A', 'value', 'some text',
    '\u00e9t\u00e9', 'Z9']
WORDS = ['a', 'b', 'one', 'two', 'alpha', 'x1', 'B', 'zz']
TOKENS = ['a', 'ab', 'a-b', 'a.b', 'a+b', 'a1:b2', 'a:b:c', '_x', 'x_', '0', '9:9', 'a-b.c+d:e', '\u00e9', 'a__b',
    'A:B']
BAD_TOKENS = ['', ':', 'a:', ':a', 'a::b', '-a', 'a-', '.a', 'a.', 'a b', 'a\n', 'a:b\n', ' a', 'a:-b', 'a/b',
    'a:b:', 'a+', '+', 'a\n:b', 'a:.b', 'a-:b']
EMAILS = ['a@b.co', 'first.last@example.com', 'x+y@sub.example.org', '"quo ted"@b.co', "o'hara@b-c.info",
    'a@b.museum', '!#$%@b.co', 'a_b@1.2.com', '"a@b"@c.de', '"\\""@x.yz', 'a@-.co']
BAD_EMAILS = ['', 'a', 'a@', '@b.co', 'a@b', 'a@b.c', 'a@b.toolong', 'a..b@c.de', '.a@b.co', 'a.@b.co',
    'a b@c.de', 'a@b..co', 'a@b_c.co', 'a@b.co\n', 'a@b.co.', 'a@@b.co', 'a@b.c0m', '"a@b.co', '"a"b@c.de',
    'a@b.co x', '(a)@b.co', 'a@b.\u00e9\u00e9', '\u00e9@b.co', 'a@b,co', 'a@b.co,', ',a@b.co', 'a@b.co,,c@d.ee',
    'a@b.co c@d.ee', 'a@b.co;c@d.ee', 'A@B.CO', ' a@b.co ', 'a@b.co, ', '"a\nb"@c.de', 'Name <a@b.co>',
    '"N M" <a@b.co>', '<a@b.co>', 'Name<a@b.co>', 'Name <a@b.co', 'Name a@b.co', ' <a@b.co>', '"" <a@b.co>',
    'N  <a@b.co>', '"N"<a@b.co>', 'N < a@b.co>', '"A<B" <a@b.co>', 'a@b.co <c@d.ee>', 'N <a@b.co>\n',
    'a@b.co\n,c@d.ee', 'a:b@c.de', 'a@b.co:c@d.ee', '\na@b.co']
PATTERNS = [(r'^\d+$', lambda r: str(r.randrange(10**r.randrange(1, 6)))),
    (r'^[a-z]{2,4}$', lambda r: ''.join(r.choice('abcz') for _ in range(r.randrange(2, 5)))),
    (r'a+b?', lambda r: 'a' * r.randrange(1, 4) + r.choice(['', 'b', 'c'])),
    (r'\w+@\w+', lambda r: 'ab@cd'),
    (r'.*x', lambda r: r.choice(['x', 'ax', 'xx', 'axa']))]
BYTES = [b'', b'a', b'\x00', b'\xff\xfe', b'abc', b'hello world', bytes(range(256)), b'====', b'YQ==', b'>>>???',
    b'\xfb\xff', b'ab\n']


def random_text(rng, limit=12):
    style = rng.randrange(6)
    if style == 0:
        return rng.choice(TEXTS)
    if style == 1:
        return ''.join(rng.choice(TEXTS) for _ in range(rng.randrange(1, 4)))
    if style == 2:
        alphabet = strings.ascii_letters
    elif style == 3:
        alphabet = strings.printable
    elif style == 4:
        alphabet = ' \n\t\'":#-[]{},&*!|>%@`?\\ab0'
    else:
        return ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(160, 0x250),
            rng.randrange(0x4e00, 0x4f00), rng.randrange(0x1f600, 0x1f640), rng.randrange(0x2000, 0x2070)]))
            for _ in range(rng.randrange(limit)))
    return ''.join(rng.choice(alphabet) for _ in range(rng.randrange(limit)))


class Thing(object):
    def __repr__(self):
        return 'Thing()'


THING = Thing()


def wild(rng, depth=2):
    """Any value of a basic type."""
    n = rng.randrange(20 if depth else 15)
    if n == 0:
        return None
    if n == 1:
        return rng.choice([True, False])
    if n == 2:
        return rng.choice(INTS)
    if n == 3:
        return rng.choice(FLOATS + ODD_FLOATS)
    if n in (4, 5):
        return rng.choice(TEXTS)
    if n == 6:
        return rng.choice(DATES)
    if n == 7:
        return rng.choice(TIMES)
    if n == 8:
        value = rng.choice(DATETIMES)
        if rng.random() < 0.4:
            value = value.replace(tzinfo=dt.timezone(dt.timedelta(minutes=rng.choice(OFFSETS))))
        return value
    if n == 9:
        return rng.choice(DECIMALS + ODD_DECIMALS)
    if n == 10:
        return rng.choice(BYTES)
    if n == 11:
        return rng.choice(UUIDS + EMAILS + TOKENS)
    if n == 12:
        return str(rng.choice(INTS + FLOATS))
    if n == 13:
        return rng.choice([[], {}, (), '', 0, 0.0, b''])
    if n == 14:
        return rng.choice([set(), frozenset([1]), THING, complex(1, 2), Ellipsis, bytearray(b'a'), range(3)])
    if n in (15, 16):
        return [wild(rng, depth - 1) for _ in range(rng.randrange(4))]
    if n == 17:
        return tuple(wild(rng, depth - 1) for _ in range(rng.randrange(4)))
    return dict((rng.choice(KEYS + ['', 1, None, (1, 2), 2.5]), wild(rng, depth - 1))
        for _ in range(rng.randrange(4)))


ALL_SIMPLE = ('integer', 'float', 'decimal', 'boolean', 'date', 'time', 'datetime', 'text', 'email',
    'token', 'uuid', 'enumeration', 'binary', 'field')
ALL_CONTAINERS = ('structure', 'sequence', 'map', 'tuple', 'union')


class Gen(object):
    """Generates specifications. Keyword options narrow what is generated."""

    def __init__(self, rng, simple=ALL_SIMPLE, containers=ALL_CONTAINERS, keys=KEYS, p_nonnull=0.2,
            p_required=0.3, p_default=0.2, p_ignore_null=0.1, p_constant=0.0, p_bounds=0.5, p_pre=0.0,
            p_errors=0.0, p_name=0.2, p_poly=0.2, p_strict=0.8, p_order=0.15, p_unique=0.2,
            p_required_keys=0.3, p_key=0.35, odd=True, enumerations='mixed', names=None, max_members=4,
            p_ignored=0.1, p_title=0.0, p_aspects=0.0, map_keys=('integer', 'text', 'enumeration', 'token',
            'date', 'boolean', 'tuple'), p_generate=0.0, texts=None):
        self.rng = rng
        self.__dict__.update((k, v) for k, v in locals().items() if k != 'self')

    def chance(self, p):
        return self.rng.random() < p

    def spec(self, depth=2, kind=None):
        rng = self.rng
        if kind is None:
            if depth > 0 and self.containers and rng.random() < 0.6:
                kind = rng.choice(self.containers)
            else:
                kind = rng.choice(self.simple)
        spec = {'t': kind}
        getattr(self, '_' + kind)(spec, depth)
        self.options(spec)
        return spec

    def options(self, spec):
        rng, t = self.rng, spec['t']
        if self.chance(self.p_nonnull):
            spec['nonnull'] = True
        if self.chance(self.p_required):
            spec['required'] = True
        if self.chance(0.07):
            spec['nonempty'] = True
        if self.chance(self.p_ignore_null):
            spec['ignore_null'] = True
        if self.chance(self.p_name):
            spec['name'] = rng.choice(self.names or KEYS)
        if self.chance(self.p_title):
            spec['title'] = rng.choice(['Title', 'A title'])
            spec['description'] = 'text'
            spec['notes'] = 'notes'
        if self.chance(self.p_aspects):
            spec['aspects'] = dict((rng.choice(['fast', 'color', 'level', 'hidden']),
                rng.choice([True, False, 'red', 'blue', 1, 2])) for _ in range(rng.randrange(1, 3)))
        if self.chance(self.p_pre):
            spec['pre'] = rng.choice(['identity', 'fails', 'fails_sometimes', 'lower', 'increment', 'negate',
                'drop_first'] if t in model.SIMPLE else ['identity', 'fails', 'fails_sometimes', 'drop_first'])
        if self.chance(self.p_errors):
            self.custom_errors(spec)
        if t in model.SIMPLE and self.chance(self.p_constant):
            value = self.try_valid(spec)
            if value is not None and not (t == 'datetime' and value.tzinfo is None):
                spec['constant'] = value
        if self.chance(self.p_default):
            value = self.try_valid(spec)
            if value is not None:
                spec['default'] = value
        return spec

    def custom_errors(self, spec):
        tokens = list(model.MESSAGES.get(spec['t'], {})) + ['nonnull', 'invalid']
        chosen = self.rng.sample(tokens, min(len(tokens), self.rng.randrange(1, 3)))
        spec['errors'] = [(token, 'custom ' + token, 'custom %(field)s message for ' + token)
            for token in dict.fromkeys(chosen)]
        spec['errors_as_dict'] = self.chance(0.5)

    # -------------------------------------------------- simple types

    def interval(self, spec, pool, key=None):
        rng = self.rng
        if self.chance(self.p_bounds):
            a, b = sorted([rng.choice(pool), rng.choice(pool)], key=key)
            which = rng.randrange(4)
            if which in (0, 2, 3):
                spec['minimum'] = a
            if which in (1, 2, 3):
                spec['maximum'] = b

    def _integer(self, spec, depth):
        self.interval(spec, INTS)

    def _float(self, spec, depth):
        pool = FLOATS + ([float('inf'), float('-inf')] if self.odd else [])
        self.interval(spec, pool)

    def _decimal(self, spec, depth):
        self.interval(spec, DECIMALS)
        spec['bounds_as_text'] = self.chance(0.4)

    def _boolean(self, spec, depth):
        pass

    def _date(self, spec, depth):
        self.interval(spec, DATES)
        spec['bounds_as_text'] = self.chance(0.4)

    def _time(self, spec, depth):
        self.interval(spec, TIMES)
        spec['bounds_as_text'] = self.chance(0.4)

    def _datetime(self, spec, depth):
        self.interval(spec, [v.replace(tzinfo=dt.timezone.utc) for v in DATETIMES])
        spec['utc'] = self.chance(0.5)
        spec['bounds_as_text'] = self.chance(0.4)

    def lengths(self, spec, limit=6):
        rng = self.rng
        if self.chance(self.p_bounds):
            a, b = sorted([rng.randrange(limit), rng.randrange(limit)])
            which = rng.randrange(4)
            if which in (0, 2, 3):
                spec['min_length'] = a
            if which in (1, 2, 3):
                spec['max_length'] = b

    def _text(self, spec, depth):
        rng = self.rng
        if self.chance(0.3):
            spec['strip'] = False
        if self.chance(0.25 if self.odd else 0):
            spec['pattern'] = rng.choice(PATTERNS)[0]
        else:
            self.lengths(spec)

    def _email(self, spec, depth):
        kind = self.rng.randrange(3)
        if kind == 1:
            spec['multiple'] = True
        elif kind == 2:
            spec['extended'] = True
        if self.chance(0.15):
            spec['max_length'] = self.rng.choice([6, 20, 40])
        if self.chance(0.1):
            spec['min_length'] = self.rng.choice([1, 6])

    def _token(self, spec, depth):
        if self.chance(0.3):
            spec['segments'] = self.rng.randrange(1, 4)

    def _uuid(self, spec, depth):
        pass

    def _enumeration(self, spec, depth):
        rng = self.rng
        if self.enumerations == 'text' or self.chance(0.6):
            spec['values'] = rng.sample(WORDS, rng.randrange(1, 5))
            if self.chance(WIDE):
                spec['values'] += ['w%d' % i for i in range(rng.choice([10, 30, 70]))]
            if self.chance(0.3):
                spec['as_text'] = True
        else:
            spec['values'] = rng.sample([1, 2, 3, 'a', 'b', 2.5, False, 'one', 'two words'], rng.randrange(1, 5))
        if self.chance(self.p_ignored):
            spec['ignored'] = rng.sample(['', 'none', 'zz', 0, 'a'], rng.randrange(1, 3))

    def _binary(self, spec, depth):
        self.lengths(spec)

    def _field(self, spec, depth):
        pass

    # -------------------------------------------------- containers

    def _sequence(self, spec, depth):
        spec['item'] = self.spec(depth - 1)
        self.lengths(spec, 4)
        if self.chance(self.p_unique):
            spec['unique'] = True

    def _map(self, spec, depth):
        rng = self.rng
        spec['value'] = self.spec(depth - 1)
        if self.chance(self.p_key):
            kind = rng.choice(self.map_keys)
            if kind == 'tuple':
                spec['key'] = {'t': 'tuple', 'values': [{'t': 'integer'}, {'t': 'text'}]}
            else:
                sub = Gen(rng, simple=(kind,), containers=(), p_nonnull=1.0, p_required=0, p_default=0,
                    p_name=self.p_name, p_ignored=0, odd=False, enumerations='text')
                spec['key'] = sub.spec(0, kind)
                spec['key'].pop('ignore_null', None)
        if self.chance(self.p_required_keys):
            if spec.get('key'):
                keys = [self.try_valid(spec['key']) for _ in range(rng.randrange(1, 3))]
                keys = [tuple(k) if isinstance(k, list) else k for k in keys if k is not None]
                if keys:
                    spec['required_keys'] = keys
            else:
                keys = rng.sample(self.keys, rng.randrange(1, 3))
                spec['required_keys'] = ' '.join(keys) if self.chance(0.3) else keys
                if isinstance(spec['required_keys'], str):
                    spec['required_keys_text'] = True

    def _tuple(self, spec, depth):
        if self.chance(WIDE):
            spec['values'] = [self.spec(0) for _ in range(self.rng.choice([6, 12, 20, 35]))]
            return
        spec['values'] = [self.spec(depth - 1) for _ in range(self.rng.randrange(1, 4))]

    def _union(self, spec, depth):
        if self.chance(WIDE):
            spec['fields'] = [self.spec(0) for _ in range(self.rng.choice([5, 8, 12]))]
            return
        spec['fields'] = [self.spec(depth - 1) for _ in range(self.rng.randrange(1, 4))]

    def members(self, depth, keys=None, low=0):
        rng = self.rng
        keys = keys or self.keys
        names = rng.sample(keys, min(len(keys), rng.randrange(low, max(low, self.max_members) + 1)))
        result = [(k, self.spec(depth - 1)) for k in names]
        if depth > 0 and self.chance(WIDE):
            result += [('m%d' % i, self.spec(0)) for i in range(rng.choice([8, 15, 25, 40]))]
        return result

    def _structure(self, spec, depth):
        rng = self.rng
        if not self.chance(self.p_strict):
            spec['strict'] = False
        if self.chance(self.p_poly):
            self._variants(spec, depth)
        else:
            spec['members'] = self.members(depth)
        if self.chance(self.p_order):
            names = [k for k, _ in (spec.get('members') or [])]
            for _, members in spec.get('variants') or ():
                names.extend(k for k, _ in members)
            if spec.get('on'):
                names.append(model.discriminator(spec)['name'])
            names = list(dict.fromkeys(names))
            rng.shuffle(names)
            names = names[:rng.randrange(len(names) + 1)]
            if self.chance(0.2):
                names.append('absent')
            if names:
                spec['key_order'] = ' '.join(names) if self.chance(0.5) else names

    def _variants(self, spec, depth):
        rng = self.rng
        on = rng.choice(['type', 'kind'])
        style = rng.randrange(6)
        identities = rng.sample(['one', 'two', 'three', 'other'], rng.randrange(1, 4))
        if style == 1:
            spec['on'] = {'t': 'text', 'name': on}
        elif style == 2:
            spec['on'] = {'t': 'enumeration', 'values': sorted(identities) + ['novariant'], 'name': on}
        elif style == 3:
            spec['on'] = {'t': 'integer', 'name': on}
            identities = rng.sample([0, 1, 2, 5], len(identities))
        elif style == 4 and self.odd:
            spec['on'] = {'t': 'boolean', 'name': on}
            identities = rng.sample([True, False], min(2, len(identities)))
        elif style == 5 and self.odd:
            # discriminators whose serialized form is not their value
            if self.chance(0.5):
                spec['on'] = {'t': 'date', 'name': on}
                pool = [dt.date(2000, 1, 1), dt.date(2012, 2, 29), dt.date(1999, 12, 31)]
            else:
                spec['on'] = {'t': 'decimal', 'name': on}
                pool = [D('1.50'), D('2'), D('0')]
            identities = rng.sample(pool, len(identities[:3]))
        else:
            spec['on'] = on
            if self.chance(WIDE * 3):
                identities = identities + ['v%d' % i for i in range(rng.choice([6, 12, 20]))]
        if isinstance(spec['on'], dict) and self.chance(0.3):
            spec['on']['nonnull'] = True
        keys = [k for k in self.keys if k != on]
        spec['variants'] = [(i, self.members(depth, keys)) for i in identities]
        if self.chance(0.4):
            used = set(k for _, members in spec['variants'] for k, _ in members)
            free = [k for k in keys if k not in used]
            if free:
                spec['common'] = self.members(depth, free)[:2]

    def try_valid(self, spec):
        try:
            return valid(self.rng, spec, null=0.0, texts=self.texts, odd=self.odd, extra=False)
        except Unsatisfiable:
            return None


# ---------------------------------------------------------------- valid values

class Unsatisfiable(Exception):
    pass


def valid(rng, spec, null=0.1, odd=True, present=0.7, extra=True, texts=None, size=4, budget=4000):
    """A native value the specification accepts as inbound input."""
    opts = {'null': null, 'odd': odd, 'present': present, 'extra': extra, 'texts': texts, 'size': size, 'budget': budget}
    value = _valid(rng, spec, opts)
    if LARGE and rng.random() < LARGE:
        larger = enlarge(rng, spec, value)
        try:
            if model.process(spec, larger).ok:
                return larger
        except model.Undecided:
            pass
    return value


LARGE = 0.012
WIDE = 0.015
COUNTS = (20, 40, 70, 110, 140, 270, 300, 600, 1100)


def enlarge(rng, spec, value, room=3000):
    """The value with more items, entries or characters than anyone writes by hand."""
    spec = model.resolve(spec)
    t = spec['t']
    if spec.get('constant') is not None:
        return value
    if t == 'text' and isinstance(value, str) and value and spec.get('max_length') is None:
        return value * (1 + rng.choice((80, 110, 300, 1100, 5000, 9000, 70000 if rng.random() < 0.3 else 300)) // len(value))
    if t == 'binary' and isinstance(value, bytes) and value and spec.get('max_length') is None:
        return value * (1 + rng.choice((80, 300, 1100, 5000)) // len(value))
    if t == 'sequence' and isinstance(value, list) and value:
        if spec.get('max_length') is None and not spec.get('unique') and rng.random() < 0.7:
            return value * max(1, min(rng.choice(COUNTS), room // extent(value)) // len(value))
        i = rng.randrange(len(value))
        return value[:i] + [enlarge(rng, spec['item'], value[i], room)] + value[i + 1:]
    if t == 'map' and isinstance(value, dict) and value:
        if not spec.get('key') and rng.random() < 0.7:
            values = list(value.values())
            if rng.random() < 0.2:
                key = rng.choice(list(value))
                if isinstance(key, str) and key:
                    return dict(value, **{key * (1 + rng.choice((200, 1010, 1023, 3000)) // len(key)): rng.choice(values)})
            count = min(rng.choice(COUNTS), 1 + room // extent(values))
            return dict(value, **dict(('k%d' % i, rng.choice(values)) for i in range(count)))
        key = rng.choice(list(value))
        return dict(value, **{key: enlarge(rng, spec['value'], value[key], room)}) if isinstance(key, str) else value
    if t == 'tuple' and isinstance(value, (list, tuple)) and value:
        i = rng.randrange(len(value))
        return type(value)(list(value[:i]) + [enlarge(rng, spec['values'][i], value[i], room)] + list(value[i + 1:]))
    if t == 'structure' and isinstance(value, dict) and value:
        members = dict(spec['members']) if not spec.get('on') else model.variant_members(spec, value.get(model.discriminator(spec)['name'])) or {}
        keys = [k for k in value if k in members]
        if keys:
            key = rng.choice(keys)
            return dict((k, enlarge(rng, members[k], v, room) if k == key else v) for k, v in value.items())
    return value


def extent(value):
    """How many parts a value has."""
    if isinstance(value, dict):
        return 1 + sum(extent(v) for v in value.values())
    if isinstance(value, (list, tuple)):
        return 1 + sum(extent(v) for v in value)
    return 1


def _valid(rng, spec, o):
    o['budget'] -= 1
    if o['budget'] < 0:
        raise Unsatisfiable()
    spec = model.resolve(spec)
    if spec['t'] == 'undef':
        if spec.get('stub'):
            return None
        raise Unsatisfiable()
    if not model.is_nonnull(spec) and rng.random() < o['null']:
        return None
    if spec.get('constant') is not None:
        candidates = [spec['constant']]
    else:
        candidates = (VALID[spec['t']](rng, spec, o) for _ in range(12))
    for candidate in candidates:
        try:
            if model.process(spec, candidate).ok:
                return candidate
        except model.Undecided:
            continue
    if not model.is_nonnull(spec) and o['null'] > 0:
        return None
    raise Unsatisfiable()


def within(rng, spec, pool, near):
    lo, hi = spec.get('minimum'), spec.get('maximum')
    if rng.random() < 0.6:
        bound = rng.choice([b for b in (lo, hi) if b is not None] or [rng.choice(pool)])
        value = near(rng, bound)
    else:
        value = rng.choice(pool)
    return value


def near_int(rng, v):
    return v + rng.choice([0, 0, 1, -1, 2, -2])


def near_float(rng, v):
    if v != v or v in (float('inf'), float('-inf')):
        return rng.choice(FLOATS + [v])
    return rng.choice([v, v, v * (1 + 2**-52), v * (1 - 2**-52), v + 1, v - 1])


def near_decimal(rng, v):
    if not v.is_finite():
        return rng.choice(DECIMALS + [v])
    return rng.choice([v, v, v + D('0.1'), v - D('0.1'), v + 1, v - 1, D(str(v) + ('0' if '.' in str(v)
        and 'E' not in str(v) else ''))])


def near_date(rng, v):
    try:
        return dt.date(v.year, v.month, v.day) + dt.timedelta(days=rng.choice([0, 0, 1, -1, 31, -365]))
    except OverflowError:
        return dt.date(v.year, v.month, v.day)


def near_time(rng, v):
    seconds = v.hour * 3600 + v.minute * 60 + v.second + rng.choice([0, 0, 1, -1, 60, -60])
    seconds %= 86400
    return dt.time(seconds // 3600, seconds // 60 % 60, seconds % 60)


def near_datetime(rng, v):
    try:
        return v + dt.timedelta(seconds=rng.choice([0, 0, 1, -1, 3600, -3600, 86400, -86400]))
    except OverflowError:
        return v


def v_integer(rng, spec, o):
    return within(rng, spec, INTS, near_int)


def v_float(rng, spec, o):
    return float(within(rng, spec, FLOATS + (ODD_FLOATS if o['odd'] else []), near_float))


def v_decimal(rng, spec, o):
    return within(rng, spec, DECIMALS + (ODD_DECIMALS if o['odd'] else []), near_decimal)


def v_boolean(rng, spec, o):
    return rng.random() < 0.5


def v_date(rng, spec, o):
    return within(rng, spec, DATES, near_date)


def v_time(rng, spec, o):
    return within(rng, spec, TIMES, near_time)


def v_datetime(rng, spec, o):
    value = within(rng, spec, DATETIMES, near_datetime)
    style = rng.randrange(3)
    if style == 0:
        return value.replace(tzinfo=None)
    if value.tzinfo is None:
        value = value.replace(tzinfo=dt.timezone.utc)
    if style == 1:
        try:
            return value.astimezone(dt.timezone(dt.timedelta(minutes=rng.choice(OFFSETS))))
        except OverflowError:
            pass
    return value


def v_text(rng, spec, o):
    if spec.get('pattern'):
        for pattern, example in PATTERNS:
            if pattern == spec['pattern'] and rng.random() < 0.8:
                return example(rng)
    if o['texts'] is not None:
        pool = o['texts']
        value = pool(rng) if callable(pool) else rng.choice(pool)
    else:
        value = random_text(rng)
    lo, hi = model.min_length(spec), spec.get('max_length')
    if rng.random() < 0.6 and (lo is not None or hi is not None):
        n = rng.choice([b for b in (lo, hi) if b is not None])
        value = (value + 'abcdefgh')[:n]
    if rng.random() < 0.15 and spec.get('strip', True) and o['texts'] is None:
        value = rng.choice([' ', '\n', '\t ', '\u00a0']) + value + rng.choice(['', ' ', '\r\n'])
    return value


def v_email(rng, spec, o):
    pool = EMAILS + BAD_EMAILS
    if spec.get('multiple') and rng.random() < 0.6:
        return rng.choice([',', ', ', ' ', ';', '; \n']).join(rng.choice(EMAILS) for _ in range(rng.randrange(1, 4)))
    if spec.get('extended') and rng.random() < 0.4:
        return rng.choice(['Name ', 'A B  ', '"A <B>" ', '"x" ']) + '<%s>' % rng.choice(EMAILS)
    return rng.choice(pool)


def v_token(rng, spec, o):
    if spec.get('segments') and rng.random() < 0.7:
        return ':'.join(rng.choice(['a', 'ab', 'x-y', '9']) for _ in range(spec['segments']))
    return rng.choice(TOKENS)


def v_uuid(rng, spec, o):
    if rng.random() < 0.5:
        return rng.choice(UUIDS)
    h = '%032x' % rng.getrandbits(128)
    return '-'.join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])


def v_enumeration(rng, spec, o):
    return rng.choice(spec['values'])


def v_binary(rng, spec, o):
    lo, hi = model.min_length(spec), spec.get('max_length')
    if rng.random() < 0.6 and (lo is not None or hi is not None):
        n = rng.choice([b for b in (lo, hi) if b is not None])
        return bytes(rng.randrange(256) for _ in range(n))
    return rng.choice(BYTES)


def v_field(rng, spec, o):
    return rng.choice([rng.choice(INTS), rng.choice(PLAIN_TEXTS), True, rng.choice(FLOATS), [1, 'a'], {'a': [None]},
        [], {}])


def v_sequence(rng, spec, o):
    lo, hi = spec.get('min_length') or 0, spec.get('max_length')
    n = rng.randrange(lo, max(lo, min(hi if hi is not None else o['size'], lo + o['size'])) + 1)
    if rng.random() < 0.3 and hi is not None:
        n = hi
    return [_valid(rng, spec['item'], o) for _ in range(n)]


def v_map(rng, spec, o):
    value = {}
    keys = list(model.required_keys(spec))
    for _ in range(rng.randrange(o['size'])):
        if spec.get('key'):
            key = _valid(rng, spec['key'], dict(o, null=0.0))
            keys.append(tuple(key) if isinstance(key, list) else key)
        elif o['texts'] is not None:
            keys.append(rng.choice(KEYS))
        else:
            keys.append(rng.choice(KEYS + ['', 'two words', '1', '\u00e9', 'a:b', 'true']))
    rng.shuffle(keys)
    for key in keys:
        value[key] = _valid(rng, spec['value'], o)
    return value


def v_tuple(rng, spec, o):
    values = [_valid(rng, s, o) for s in spec['values']]
    return tuple(values) if rng.random() < 0.7 else values


def v_union(rng, spec, o):
    return _valid(rng, rng.choice(spec['fields']), o)


def v_structure(rng, spec, o):
    if spec.get('on'):
        identity = rng.choice(spec['variants'])[0]
        members = model.variant_members(spec, identity)
        value = {model.discriminator(spec)['name']: identity}
    else:
        members = dict(spec['members'])
        value = {}
    for key, member in members.items():
        member = model.resolve(member)
        if key in value:
            continue
        if model.is_required(member) and member.get('default') is None or rng.random() < o['present']:
            value[key] = _valid(rng, member, o)
    if o['extra'] and not spec.get('strict', True) and rng.random() < 0.4:
        value[rng.choice(['extra', 'surplus'])] = rng.choice([1, 'x', None, []])
    items = list(value.items())
    rng.shuffle(items)
    return dict(items)


VALID = dict((name[2:], function) for name, function in list(globals().items())
    if name.startswith('v_') and callable(function))


# ---------------------------------------------------------------- near-valid values

def mutate(rng, value, times=1):
    """Alters ``value`` at random places."""
    for _ in range(times):
        value = _mutate(rng, value)
    return value


def _mutate(rng, value):
    if isinstance(value, dict) and value and rng.random() < 0.75:
        items = list(value.items())
        i = rng.randrange(len(items))
        action = rng.randrange(8)
        if action == 0:
            del items[i]
        elif action == 1:
            items.insert(i, (rng.choice(KEYS + ['unknown', 'extra', 1, None, '']), wild(rng, 1)))
        elif action == 2:
            items[i] = (items[i][0], None)
        else:
            items[i] = (items[i][0], _mutate(rng, items[i][1]))
        return dict(items)
    if isinstance(value, (list, tuple)) and value and rng.random() < 0.75:
        items = list(value)
        i = rng.randrange(len(items))
        action = rng.randrange(8)
        if action == 0:
            del items[i]
        elif action == 1:
            items.insert(i, items[rng.randrange(len(items))])
        elif action == 2:
            items[i] = None
        else:
            items[i] = _mutate(rng, items[i])
        return type(value)(items) if type(value) in (list, tuple) else items
    action = rng.randrange(4)
    if action == 0:
        return wild(rng)
    if action == 1:
        return neighbour(rng, value)
    if action == 2 and isinstance(value, dict):
        return dict(value, **{rng.choice(KEYS + ['unknown']): wild(rng, 1)})
    if action == 2 and isinstance(value, list):
        return value + [wild(rng, 1)]
    return wild(rng, 1)


def neighbour(rng, value):
    """A value close to ``value``: just outside a bound, or its spelling in another type."""
    if isinstance(value, bool):
        return rng.choice([int(value), str(value), str(value).lower(), not value])
    if isinstance(value, int):
        return rng.choice([value + 1, value - 1, float(value) if abs(value) < 2**1000 else 0.5, str(value), -value, D(value),
            '%d ' % value, bool(value)])
    if isinstance(value, float):
        return rng.choice([near_float(rng, value), repr(value), D(repr(value)), -value,
            int(value) if value == value and abs(value) < 1e300 else 1])
    if isinstance(value, D):
        return rng.choice([near_decimal(rng, value), str(value), -value])
    if isinstance(value, dt.datetime):
        return rng.choice([near_datetime(rng, value), value.isoformat(), value.replace(tzinfo=None),
            value.date(), value.time(), model.datetime_serialize(None, value)])
    if isinstance(value, dt.date):
        return rng.choice([near_date(rng, value), value.isoformat(), dt.datetime(value.year, value.month, value.day),
            dt.datetime(value.year, value.month, value.day, 23, 59, 59)])
    if isinstance(value, dt.time):
        return rng.choice([near_time(rng, value), value.isoformat(), value.replace(microsecond=1)])
    if isinstance(value, str):
        return rng.choice([value + 'x', value[:-1], value + '\n', ' ' + value, value.upper(), value.lower(),
            value.encode('utf-8', 'replace'), value + ' ', value[1:], value + value])
    if isinstance(value, bytes):
        return rng.choice([value + b'x', value[:-1], value.decode('latin-1')])
    if isinstance(value, list):
        return rng.choice([tuple(value), value + value, value[1:]])
    if isinstance(value, tuple):
        return rng.choice([list(value), value + value, value[1:]])
    if isinstance(value, dict):
        return rng.choice([list(value.items()), list(value)])
    return wild(rng, 1)
