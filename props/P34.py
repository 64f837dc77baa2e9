"""P34: any text given to a reader is read as plain data or refused with a value error, and runs nothing."""

import csv
import io
import datetime as dt
import json
import os
import shutil
import sys
import tempfile
import time
import types
import warnings
import xml.etree.ElementTree as etree

import yaml

from vmon import core, gen, model
from vmon.build import build, describe_spec, scheme
from vmon.core import attempt, same
from props.common import canonical_values, outbound, xml_gen, xml_text
from scheme.formats import StructuredText
from props import P11, P13, P14

Format = scheme.Format
FORMATS = ('json', 'yaml', 'xml', 'csv', 'structuredtext', 'urlencoded')
ACCEPTED = (ValueError, yaml.YAMLError, etree.ParseError, csv.Error)
SECONDS = 6.0
events = []

# what a document may try to reach
canary = types.ModuleType('vmon_canary')


class Trap(object):
    def __init__(self, *args, **params):
        events.append('constructed')

    def __setstate__(self, state):
        events.append('state set')

    def __reduce__(self):
        events.append('reduced')
        return (Trap, ())


def trigger(*args, **params):
    events.append('called')
    return 'triggered'


Trap.__module__ = trigger.__module__ = 'vmon_canary'
canary.Trap, canary.trigger, canary.secret = Trap, trigger, 'secret-of-the-canary'
sys.modules['vmon_canary'] = canary

YAML_TAGS = ['!!python/name:vmon_canary.trigger', "!!python/name:vmon_canary.trigger ''", "!!python/name:vmon_canary.secret ''",
    '!!python/module:vmon_canary', "!!python/module:vmon_canary ''", '!!python/object:vmon_canary.Trap {}', '!!python/object:vmon_canary.Trap {a: 1}',
    '!!python/object/apply:vmon_canary.trigger []', '!!python/object/apply:vmon_canary.trigger [1, 2]',
    '!!python/object/new:vmon_canary.Trap []', '!!python/object/new:vmon_canary.Trap {state: {a: 1}}', '!!python/tuple [1, 2]', '!!python/complex 1+2j',
    '!!python/object/apply:vmon_canary.Trap {}', "!!python/str 'a'", "!!python/bytes 'YQ=='", '!unknown 1', '!<tag:yaml.org,2002:python/name:vmon_canary.trigger> ""',
    '!vmon_canary.Trap {}', '!!python/dict {}', '!!python/list []', '!!python/long 1', '!!python/none', "!!python/unicode 'a'",
    "!!python/name:builtins.print ''", "!!python/name:vmon_canary.Trap ''", '!!set {a, b}', '!!omap [a: 1, b: 2]', '!!pairs [a: 1, a: 2]', '!!binary YWI=',
    '!!str 1', '!!map {}', '!!seq []', '!!null null', '*unknown', '&a 1', '&a [*a]', '<<: {a: 1}', '? {a: 1}\n: 1', '? [a]\n: 1', '%TAG ! tag:x,2000:\n---\n!a 1',
    '%YAML 1.2\n--- 1', '%YAML 3.0\n--- 1', '--- 1\n--- 2', '{', '[', '"', "'", '|', '>', '|9', '- - -', '? ?', ': :', '\t- a', 'a: b: c', '@', '`', '%', '2000-99-99',
    '2000-01-01T99:99:99Z', '0o9', '0b2', '1e', '.', '1:99', '\x00', '\ud800', '\ufffe', '"\\x"', '"\\ud800"', '!!', '!', '&', '*', '-1:0', '{a}', '{a: b, a: c}', '[a: b]']
XML_PIECES = ['<a/>', '<a></a>', '<a>x</a>', '<a> </a>', '<a>1.5</a>', '<a null="true">1</a>', '<a null="">1</a>', '<a><b/></a>', '<b/>', '<a>&x;</a>', '<a>&#0;</a>',
    '<a>&#55296;</a>', '<a>', '</a>', '<a b/>', '<a b=1/>', '<!-- -- -->', '<?xml?>', '<![CDATA[', ']]>', '<a xmlns="urn:x">1</a>', '<x:a>1</x:a>',
    '<a xmlns:x="urn:x"><x:a>1</x:a></a>', '&lt;', '&amp', '<', '>', '&', '<a\x00/>', '<!DOCTYPE a [<!ENTITY x "y">]><a>&x;</a>',
    '<!DOCTYPE a [<!ENTITY x SYSTEM "file:///etc/hostname">]><a>&x;</a>', '<!DOCTYPE root [<!ENTITY x "1">]><root><a>&x;</a></root>', '<item>x</item>', '<value/>', '<item/>',
    '<1/>', '<a>1</a><a>2</a>', '<a>1<b>2</b>3</a>', '<type/>', '<kind>x</kind>', '<type>x</type>', '\ufeff<a/>', '<a>\u00e9</a>', '<a>\ud800</a>', '']
# keys to which readers of other libraries give a meaning
KEYS = [('__complex__', 'real', 'imag'), ('__class__',), ('__class__', '__module__'), ('__type__', 'value'), ('py/object',), ('py/reduce',), ('py/type',), ('$ref',), ('$type',),
    ('__date__',), ('__datetime__',), ('$date',), ('__decimal__',), ('__import__',), ('__builtins__',), ('__fieldtype__',), ('fieldtype',), ('__schema__', '_'), ('_', '__version__'), ('_',),
    ('__proto__',), ('constructor', 'prototype'), ('__set__',), ('__tuple__',), ('__bytes__',), ('$oid',), ('isoformat',), ('@type',), ('include',), ('!include',)]
JSON_PIECES = ['{', '}', '[', ']', ',', ':', '"', '\\', '\\u', '\\ud800', 'null', 'nul', 'true', 'NaN', 'Infinity', '-', '1', '1e999', '01', '1.', '.5', '+1', "'a'",
    '"a"', '{"a":1,"a":2}', '{a:1}', '[1,]', '//', '/**/', '\x00', '\ufeff', '\ud800', '"\x01"', '"\\ud800"', '"__proto__"', '9' * 400, '1E400', '', ' ']
CSV_PIECES = ['a', '"', '""', ',', '\n', '\r\n', '\r', 'a,b', '"a', 'a"', '"a"b', 'a,a', '1', 'x', '1,2,3', '\x00', '\n\n', ' ', ';', '\t', 'unknown', 'b', 'nan', '\ud800', '\u00e9', '']
URL_PIECES = P14.HOSTILE + ['=', '&', '%', '%zz', '%ff', '%C3%28', '+', ';', '==', '&&', 'a=1', '=1', '\x00', '%00', '\ud800']
LITERALS = ["b'x'", "'q'", '"q"', '1j', '0x10', '0o7', '1_000', '()', '(1)', 'None', 'True', '1.5', '-3', '1e5', '1e999', 'nan', '-inf', '+1', ' 2 ', '1.', '.5', '\u0663',
    '1/2', 'x', '...', 'e']
PIECES = {'json': JSON_PIECES, 'yaml': YAML_TAGS, 'xml': XML_PIECES, 'csv': CSV_PIECES, 'structuredtext': P14.HOSTILE + LITERALS, 'urlencoded': URL_PIECES}
PLAIN = (type(None), bool, int, float, str, bytes, dt.date, dt.datetime)


def not_plain(value, format, depth=0):
    if isinstance(value, dict):
        for k, v in value.items():
            bad = not_plain(k, format, depth + 1) or not_plain(v, format, depth + 1)
            if bad:
                return bad
        return None
    if isinstance(value, (list, tuple) + ((set, frozenset) if format == 'yaml' else ())):
        for v in value:
            bad = not_plain(v, format, depth + 1) if depth < 300 else None
            if bad:
                return bad
        return None
    return None if type(value) in (PLAIN if format == 'yaml' else PLAIN[:5]) else type(value).__name__


def make(rng, format):
    """A schema the format serves."""
    options = dict(p_bounds=0.3, p_poly=0.3, p_default=0.1)
    if format == 'xml':
        return xml_gen(rng, **options).spec(rng.choice([0, 1, 1, 2]))
    if format == 'csv':
        g = gen.Gen(rng, simple=P13.SIMPLE, containers=(), enumerations='text', p_name=0.0, **options)
        return {'t': 'sequence', 'item': {'t': 'structure', 'members': [(k, g.spec(0)) for k in rng.sample(['a', 'b', 'c', 'd e'], rng.randrange(1, 4))]}}
    simple = P14.SIMPLE if format in ('structuredtext', 'urlencoded') else tuple(t for t in gen.ALL_SIMPLE if t not in ('binary', 'field'))
    g = gen.Gen(rng, simple=simple, containers=('structure', 'sequence', 'map', 'tuple'), enumerations='text', **options)
    return g.spec(rng.choice([0, 1, 1, 2]), 'structure' if format == 'urlencoded' else None)


def written(rng, spec, format):
    """A document of a valid value, or nothing."""
    for value in canonical_values(rng, spec, 1, texts=xml_text if format == 'xml' else P14.plain_text if 'text' in format else gen.PLAIN_TEXTS):
        text = attempt(build(spec).serialize, value, format)
        if text.kind == 'ok' and isinstance(text.value, str):
            return text.value


def damaged(rng, text, pieces):
    for _ in range(rng.randrange(1, 4)):
        at = rng.randrange(len(text) + 1)
        end = min(len(text), at + rng.randrange(1, 6))
        style = rng.randrange(7)
        if style == 0:
            text = text[:at]
        elif style == 1:
            text = text[:at] + text[end:]
        elif style == 2:
            text = text[:at] + rng.choice(pieces) + text[at:]
        elif style == 3:
            text = text[:at] + rng.choice(pieces) + text[end:]
        elif style == 4:
            text = text[:at] + text[at:end] * 2 + text[end:]
        elif style == 5:
            other = rng.randrange(len(text) + 1)
            text = text[:at] + text[other:]
        else:
            text = text[:at] + chr(rng.choice([0, 9, 10, 13, 32, 34, 39, 44, 58, 60, 62, 0x7f, 0x85, 0xa0, 0xe9, 0x2028, 0xfeff, 0xfffe, 0x1f600])) + text[end:]
    return text


def keyed(rng, format, names):
    """A mapping of keys which mean something elsewhere."""
    values = [rng.choice(['vmon_canary.Trap', 'vmon_canary.trigger', '1', '2000-01-01', 'true', 'os.getcwd']) for _ in names]
    if format in ('json', 'yaml'):
        quoted = [v if v in ('1', 'true') else '"%s"' % v for v in values]
        text = '{%s}' % ', '.join('"%s": %s' % pair for pair in zip(names, quoted))
        return text, dict(zip(names, map(json.loads, quoted)))
    if format == 'structuredtext':
        return '{%s}' % ','.join('%s:%s' % pair for pair in zip(names, values)), dict((k, {'true': True}.get(v, v)) for k, v in zip(names, values))
    return '&'.join('%s=%s' % pair for pair in zip(names, values)), dict((k, {'true': True}.get(v, v)) for k, v in zip(names, values))


def inert(ctx, rng, format, root):
    """Documents which spell what another reader may resolve: keys and files."""
    if format in ('json', 'yaml', 'structuredtext', 'urlencoded'):
        for names in KEYS:
            text, expected = keyed(rng, format, names)
            read = attempt(Format.unserialize, text, format, rng.choice([None, scheme.Field(), scheme.Map(scheme.Field())]))
            ctx.check(read.kind == 'ok' and same(read.value, expected), 'a mapping is read as something else', format=format, document=text,
                observed=read, expected=expected)
            ctx.count('special_keys')
    content = {'json': '["secret"]', 'yaml': '- secret', 'xml': '<root>secret</root>', 'csv': 'a\nsecret', 'structuredtext': '[secret]', 'urlencoded': 'a=secret'}[format]
    field = {'csv': scheme.Sequence(scheme.Structure({'a': scheme.Text()})), 'xml': scheme.Text(name='root')}.get(format, scheme.Field())
    path = os.path.join(root, 'document.' + rng.choice([format, {'yaml': 'yml'}.get(format, format), 'txt']))
    with open(path, 'w') as f:
        f.write(content)
    for text in (path, 'file://' + path, os.path.relpath(path), '@' + path, '<' + path, '!' + path, '!include ' + path, '{"$ref": "file://%s"}' % path, path + '\n',
            '<!DOCTYPE root [<!ENTITY x SYSTEM "file://%s">]><root>&x;</root>' % path,
            '<root xmlns:xi="http://www.w3.org/2001/XInclude"><xi:include parse="text" href="%s"/></root>' % path):
        read = attempt(Format.unserialize, text, format, field)
        ctx.check(read.kind != 'ok' or 'secret' not in repr(read.value), 'a document reads a file', format=format, document=text, observed=read)
        ctx.check(read.kind == 'ok' or isinstance(read.value, ACCEPTED), 'a document is answered with another exception', format=format,
            document=text, observed=read)
        ctx.count('paths_as_documents')


def odd_tag(text):
    """Whether a YAML document tags scalars with types they may not fit, or is built into itself."""
    return any(tag in text for tag in ('!!int', '!!float', '!!bool', '!!timestamp', '!!null', '!!value', '&a [*a'))


def case(ctx, rng, index):
    format = FORMATS[index % len(FORMATS)]
    spec = make(rng, format)
    field = build(spec)
    # what else is written in this format
    others = [make(rng, format) for _ in range(2)]
    for _ in range(12):
        style = rng.randrange(5)
        text = written(rng, spec if style < 3 else rng.choice(others), format)
        if text is None or style == 4:
            text = ''.join(rng.choice(PIECES[format]) for _ in range(rng.randrange(1, 7)))
            if rng.random() < 0.5:
                text = rng.choice({'xml': ['<root>%s</root>', '<root><a>%s</a></root>', '<item>%s</item>'], 'json': ['{"a":%s}', '[%s]', '"%s"'],
                    'yaml': ['a: %s', '- %s', '[%s]', '{a: %s}', '"%s"', 'a:\n  b: %s'], 'csv': ['a\n%s', 'a,b\n%s', '%s\n1,2'],
                    'structuredtext': ['{a:%s}', '[%s]'], 'urlencoded': ['a=%s', 'a={a:%s}', 'a=[%s]']}[format]).replace('%s', text)
        elif style < 3:
            text = damaged(rng, text, PIECES[format])
        if format == 'yaml' and rng.random() < 0.3:
            text = rng.choice(['%s', 'a: %s', '- %s', '[%s]', '{a: %s}', '? %s\n: 1']).replace('%s', rng.choice(YAML_TAGS))
        decide(ctx, rng, spec, field, format, text)
    if format == 'csv':
        misfit(ctx, rng)
    if index % 5 == 0:
        root = tempfile.mkdtemp(prefix='vmon34-')
        try:
            inert(ctx, rng, format, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
    if index % 25 < 6:
        for text in deep(rng, format):
            decide(ctx, rng, spec, field, format, text)
    ctx.sample('%s %r' % (format, text))


def misfit(ctx, rng):
    """A table of which one row has a cell more or less than the header."""
    names = rng.sample(['a', 'b', 'c', 'd e', 'f'], rng.randrange(1, 6))
    field = scheme.Sequence(scheme.Structure(dict((n, scheme.Text()) for n in names)))
    rows = [[rng.choice(['x', '1', 'a,b', '"', 'two\nlines', '']) + 'y' for _ in names] for _ in range(rng.choice([1, 2, 5]))]
    at = rng.randrange(len(rows))
    off = rng.choice([-1, 1, 1, 2, -2])
    if off > 0:
        rows[at] = rows[at] + ['more'] * off
    elif len(names) > -off:
        rows[at] = rows[at][:off]
    else:
        return
    out = io.StringIO()
    writer = csv.writer(out, quoting=rng.choice([csv.QUOTE_ALL, csv.QUOTE_MINIMAL]), lineterminator=rng.choice(['\n', '\r\n']))
    writer.writerows([names] + rows)
    for call in (lambda: Format.unserialize(out.getvalue(), 'csv', field), lambda: field.unserialize(out.getvalue(), 'csv')):
        read = attempt(call)
        ctx.check(read.kind == 'other' and isinstance(read.value, ValueError), 'a row which does not fit its header is not refused', document=out.getvalue(),
            observed=read)
    ctx.count('misfit_rows')


def deep(rng, format):
    n = rng.choice([20, 100, 200])
    m = rng.choice([1000, 4000])
    return {'json': ['[' * n, '[' * n + ']' * n, '{"a":' * n + '1' + '}' * n, '[' + '1,' * m, '"' + 'a' * m * 5, '"' + '\\u0041' * m],
        'yaml': ['[' * n + ']' * n, '- ' * n + 'a', '{a: ' * (n // 2) + '1' + '}' * (n // 2), 'a\n' * m, '- a\n' * (m // 4), "'" + 'a ' * m],
        'xml': ['<a>' * n + '</a>' * n, '<root>' + '<a>1</a>' * m + '</root>', '<root>' + '<item/>' * m + '</root>', '<a>' + 'x' * m * 10, '<a ' + 'b="c" ' * 50],
        'csv': ['a\n' + '1\n' * m, 'a\n' + '"' * m, 'a,' * m, 'a\n' + ',' * m, 'a\n"' + 'b' * 100000 + '"', '\n' * m],
        'structuredtext': ['[' * n + ']' * n, '{a:' * n + '1' + '}' * n, '[' * m, '{a:[' * n, '[' + 'a,' * m + ']', '[' + '[],' * n + ']', '\\' * m + '{'],
        'urlencoded': ['a=1&' * m, 'a=' + '[' * n + ']' * n, 'a' * m, '&' * m, '%' * m, 'a=' + '{a:[' * n]}[format]


class Sink(object):
    def __init__(self):
        self.parts = []

    def write(self, text):
        self.parts.append(text)

    def flush(self):
        pass


def numbered(ctx, text, data, detail):
    """Reading the numbers of a text as numbers changes nothing else."""
    read = attempt(StructuredText.unserialize, text, parse_numbers=True)
    ctx.check(read.kind == data.kind or read.kind != 'ok' and isinstance(read.value, ACCEPTED), 'a document is answered with another exception',
        observed=read, **detail)
    if read.kind == 'ok':
        ctx.check(only_numbers(read.value, data.value), 'reading numbers changes more than numbers', observed=read, plain=data, **detail)


def only_numbers(value, plain):
    if isinstance(plain, dict):
        return isinstance(value, dict) and list(value) == list(plain) and all(only_numbers(value[k], plain[k]) for k in plain)
    if isinstance(plain, list):
        return isinstance(value, list) and len(value) == len(plain) and all(map(only_numbers, value, plain))
    if type(value) not in (int, float):
        return type(value) is type(plain) and value == plain
    try:
        if type(value) is int:
            return int(plain) == value
        return same(float(plain), value)
    except (OverflowError, ValueError):
        return False


def decide(ctx, rng, spec, field, format, text):
    if format == 'yaml' and odd_tag(text):
        return
    detail = {'format': format, 'document': text, 'schema': describe_spec(spec)}
    del events[:]
    out, saved = Sink(), (sys.stdout, sys.stderr)
    sys.stdout = sys.stderr = out
    try:
        with warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter('always')
            started = time.process_time()
            data = attempt(Format.unserialize, text, format, field)
            through = attempt(field.unserialize, text, format)
            spent = time.process_time() - started
    finally:
        sys.stdout, sys.stderr = saved
    ctx.check(not events, 'reading a document runs what it names: %s' % events, observed=data, **detail)
    ctx.check(not ''.join(out.parts), 'reading a document writes to the console', printed=''.join(out.parts), **detail)
    warned = [str(w.message) for w in warned if not issubclass(w.category, (ResourceWarning, ImportWarning))]
    ctx.check(not warned, 'reading a document warns', warnings=warned, **detail)
    ctx.check(spent < SECONDS, 'reading a document took %.1f CPU seconds' % spent, **detail)
    ctx.check(data.kind == 'ok' or isinstance(data.value, ACCEPTED), 'a document is answered with another exception', observed=data, **detail)
    ctx.check(through.kind != 'other' or isinstance(through.value, ACCEPTED), 'a document is answered with another exception', observed=through, **detail)
    if format == 'structuredtext':
        numbered(ctx, text, data, detail)
    if data.kind == 'ok':
        bad = not_plain(data.value, format)
        ctx.check(not bad, 'a document gives something else than data: %s' % bad, observed=data, **detail)
        again = attempt(field.unserialize, data.value)
        ctx.check(core.same_outcome(again, through), 'reading in two steps gives another outcome', observed=again, expected=through, **detail)
        ctx.count('read')
        ctx.count('valid' if through.kind == 'ok' else 'refused_by_the_schema')
    else:
        ctx.check(through.kind != 'ok', 'a schema reads what its format refuses', observed=through, **detail)
        ctx.count('refused_by_the_format')
    ctx.count('documents_of_' + format)
    ctx.seen(format, detail['schema'], text)
