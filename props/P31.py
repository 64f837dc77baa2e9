"""P31: shared utilities equal their definitions."""

import ast
import copy
import string as strings

from vmon import core, gen
from vmon.core import attempt, same, snapshot
from scheme.util import (StructureFormatter, abbreviate_string, format_structure, getitem, indent, minimize_string, pluralize, recursive_merge, set_nested_value,
    traverse_to_key)

MASKED = '***MASKED***'
KEYS = ['a', 'b', 'c', 'secret', 'password', 'key', '', 'a b', u'\u00e9t\u00e9', "it's", '"', 'x\ny', '0', 'None', '\\', '#', 'a:b']
PATH_KEYS = ['a', 'b', 'c', 'd', '', 'x y', u'\u00e9', '0', '-']


def scalar(rng):
    roll = rng.randrange(9)
    if roll < 4:
        return gen.random_text(rng)
    return rng.choice([None, True, False, rng.randrange(-10, 10), 10 ** rng.randrange(1, 40), rng.choice([0.5, -0.0, 1e300, 1e-7, 2.0]),
        b'bytes\xff', 'a' * rng.randrange(30, 90), 'word ' * rng.randrange(1, 30), ''])


def structure(rng, depth, keys=KEYS, values=scalar, tuples=True):
    roll = rng.random()
    if depth == 0 or roll < 0.2:
        return values(rng)
    size = rng.choice([0, 1, 1, 2, 3, 5, 12] if depth > 1 else [0, 1, 2, 3, 8])
    if roll < 0.6:
        return dict((rng.choice(keys), structure(rng, depth - 1, keys, values, tuples)) for _ in range(size))
    items = [structure(rng, depth - 1, keys, values, tuples) for _ in range(size)]
    return tuple(items) if tuples and roll > 0.8 else items


def nested(rng, depth, keys=PATH_KEYS):
    """A nested mapping."""
    found = {}
    for key in rng.sample(keys, rng.randrange(0, 5)):
        if depth and rng.random() < 0.6:
            found[key] = nested(rng, depth - 1, keys)
        else:
            found[key] = rng.choice([None, 0, 1, 'text', [1, {'a': 1}], (1,), {}, False])
    return found


def case(ctx, rng, index):
    merging(ctx, rng)
    paths(ctx, rng)
    texts(ctx, rng)
    for _ in range(3):
        formatting(ctx, rng)
    keyed(ctx, rng)


def merged(a, b):
    found = {}
    for key in list(a) + [k for k in b if k not in a]:
        if key in a and key in b and isinstance(a[key], dict) and isinstance(b[key], dict):
            found[key] = merged(a[key], b[key])
        else:
            found[key] = b[key] if key in b else a[key]
    return found


def merging(ctx, rng):
    for _ in range(3):
        original, addition = nested(rng, 3), nested(rng, 3)
        wanted = merged(copy.deepcopy(original), copy.deepcopy(addition))
        before, given = snapshot(addition), copy.deepcopy(original)
        result = attempt(recursive_merge, original, addition)
        detail = {'original': given, 'addition': addition, 'observed': result, 'expected': wanted}
        ctx.check(result.kind == 'ok' and same(result.value, wanted), 'merging differs from its definition', **detail)
        ctx.check(result.value is original, 'merging does not change the original', **detail)
        ctx.check(snapshot(addition) == before, 'merging changed the addition', **detail)
        again = attempt(recursive_merge, original, addition)
        ctx.check(again.kind == 'ok' and same(again.value, wanted), 'merging twice differs from merging once', **detail)
        ctx.count('merges')
        ctx.seen('merge', repr(given), repr(addition))


def paths(ctx, rng):
    for _ in range(4):
        subject = nested(rng, 3)
        path = [rng.choice(PATH_KEYS) for _ in range(rng.randrange(1, 5))]
        if rng.random() < 0.6:
            path, at = [], subject
            while isinstance(at, dict) and at and len(path) < rng.randrange(1, 5):
                path.append(rng.choice(sorted(at)))
                at = at[path[-1]]
            if rng.random() < 0.4 or not path:
                path.append(rng.choice(PATH_KEYS))
        text = '.'.join(path)
        # reading
        at, refusal = subject, None
        for key in path:
            if not isinstance(at, dict):
                refusal = TypeError
                break
            if key not in at:
                refusal = KeyError
                break
            at = at[key]
        before = snapshot(subject)
        found = attempt(traverse_to_key, subject, text)
        detail = {'subject': subject, 'path': text, 'observed': found}
        if refusal:
            ctx.check(found.kind == 'other' and type(found.value) is refusal and (refusal is TypeError or found.value.args == (text,)),
                'a path which leads nowhere is not refused as such', expected=refusal, **detail)
            ctx.count('paths_refused')
        else:
            ctx.check(found.kind == 'ok' and found.value is at, 'a path leads elsewhere', expected=at, **detail)
            ctx.count('paths_followed')
        ctx.check(snapshot(subject) == before, 'following a path changed the subject', **detail)
        # writing
        value = rng.choice([1, 'new', None, {'a': {}}, [1]])
        at, refusal = subject, None
        for key in path[:-1]:
            if not isinstance(at, dict):
                refusal = TypeError
                break
            if key not in at:
                refusal = KeyError
                break
            at = at[key]
        if not refusal and not isinstance(at, dict):
            refusal = TypeError
        wanted = copy.deepcopy(subject)
        if not refusal:
            target = wanted
            for key in path[:-1]:
                target = target[key]
            target[path[-1]] = value
        done = attempt(set_nested_value, subject, text, value)
        detail = {'subject': subject, 'path': text, 'observed': done, 'value': value, 'expected': wanted}
        if refusal:
            ctx.check(done.kind == 'other' and type(done.value) is refusal and (refusal is TypeError or done.value.args == (text,)),
                'a value is set where no path leads', refusal=refusal, **detail)
        else:
            ctx.check(done.kind == 'ok', 'a value cannot be set', **detail)
        ctx.check(same(subject, wanted), 'setting a value changed something else', **detail)
        ctx.seen('path', repr(subject), text)
        key = rng.choice(PATH_KEYS)
        marker = object()
        for call, wanted in ((lambda: getitem(subject, key), subject[key] if key in subject else KeyError), (lambda: getitem(subject, key, marker),
                subject.get(key, marker)), (lambda: getitem(subject, key, None), subject.get(key))):
            outcome = attempt(call)
            ctx.check(type(outcome.value) is KeyError if wanted is KeyError else outcome.kind == 'ok' and outcome.value is wanted,
                'an item is read differently', subject=subject, key=key, observed=outcome)


def plural(word):
    vowels = 'aeiou'
    if word.endswith('ife'):
        return word[:-3] + 'ives'
    if word.endswith('eau'):
        return word + 'x'
    if word.endswith('lf'):
        return word[:-2] + 'lves'
    if word[-1:] and word[-1] in 'sxz':
        return word + 'es'
    if len(word) > 1 and word[-1] == 'h' and word[-2] not in vowels + 'dgkprt':
        return word + 'es'
    if word[-1:] == 'y' and (word.endswith('quy') or len(word) > 1 and word[-2] not in vowels):
        return word[:-1] + 'ies'
    return word + 's'


def texts(ctx, rng):
    for _ in range(4):
        text = ''.join(rng.choice([gen.random_text(rng), rng.choice([' ', '\t', '\n', '\r\n', '  ', u'\u00a0', u'\u2003', '\x0b', '\x1c', u'\u3000']),
            'word']) for _ in range(rng.randrange(7)))
        wanted, gap = [], False
        for c in text:
            if c.isspace():
                gap = True
            else:
                if gap and wanted:
                    wanted.append(' ')
                gap = False
                wanted.append(c)
        found = attempt(minimize_string, text)
        ctx.check(found.kind == 'ok' and same(found.value, ''.join(wanted)), 'minimized text differs', text=text, expected=''.join(wanted),
            observed=found)
        lines = rng.choice([text, '\n'.join([text, gen.random_text(rng), text]), ''])
        by = rng.choice([0, 1, 2, 4, 7, '', ' ', '\t', '> ', '--'])
        prefix = by if isinstance(by, str) else ' ' * by
        first = rng.choice([True, False, None])
        found = attempt(indent, lines, by) if first is None else attempt(indent, lines, by, first)
        wanted = ('' if first is False else prefix) + lines.replace('\n', '\n' + prefix)
        ctx.check(found.kind == 'ok' and same(found.value, wanted), 'indented text differs', text=lines, indent=by, indent_first=first,
            expected=wanted, observed=found)
        word = ''.join(rng.choice(strings.ascii_lowercase) for _ in range(rng.randrange(0, 6))) + rng.choice(['', 'ife', 'eau', 'lf', 's', 'x', 'z', 'sh',
            'ch', 'gh', 'th', 'h', 'y', 'ay', 'quy', 'oy', 'f', 'e', 'ly', 'aeiouh', 'hh', 'us'])
        quantity = rng.choice([None, 0, 1, 2, -1, 1.0, 0.5, 'absent', 100])
        found = attempt(pluralize, word) if quantity == 'absent' else attempt(pluralize, word, quantity)
        wanted = word if quantity == 1 else plural(word)
        ctx.check(found.kind == 'ok' and same(found.value, wanted), 'a plural differs', word=word, quantity=quantity, expected=wanted, observed=found)
        longest = rng.choice([0, 1, 3, 4, 5, 6, 7, 10, 20, 40])
        found = attempt(abbreviate_string, text, longest) if longest else attempt(abbreviate_string, text)
        wanted = abbreviation(text, longest)
        ctx.check(found.kind == 'ok' and same(found.value, wanted), 'abbreviated text differs', text=text, longest=longest, expected=wanted,
            observed=found)
        ctx.count('texts', 4)
        ctx.seen('texts', text, lines, by, word, quantity, longest)


def abbreviation(text, longest):
    longest = max(longest, 4)
    if len(text) <= longest:
        return text
    half = (longest - 3) // 2
    left, right = half, len(text) - half
    while left and not text[left - 1].isalnum():
        left -= 1
    while right < len(text) and not text[right].isalnum():
        right += 1
    return text[:left] + '...' + text[right:]


def shown_as(value, masks, abbreviate):
    """What the text of a structure evaluates to."""
    if isinstance(value, dict):
        return dict((k, MASKED if k in masks else shown_as(v, masks, abbreviate)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return type(value)(shown_as(v, masks, abbreviate) for v in value)
    if abbreviate and isinstance(value, str):
        return abbreviation(value, 0)
    return value


def formatting(ctx, rng):
    value = structure(rng, rng.choice([1, 2, 3, 4]))
    secret = 'sesame%d' % rng.randrange(10 ** 9)
    masks = rng.choice([None, None, [], ['secret'], ['secret', 'password'], ['a'], ('key', 'a'), ["it's", 'x\ny']])
    if masks:
        value = plant(rng, value, masks, secret)
    abbreviate = rng.random() < 0.2
    options = {}
    if masks is not None:
        options['masks'] = masks
    if abbreviate:
        options['abbreviate'] = True
    if rng.random() < 0.5:
        options['indent'] = rng.choice([0, 1, 2, 3, 8])
    if rng.random() < 0.2:
        options['level'] = rng.choice([0, 1, 2])
    before = snapshot(value)
    text = attempt(format_structure, value, **options)
    detail = {'structure': value, 'options': options, 'observed': text}
    ctx.check(text.kind == 'ok' and type(text.value) is str, 'a structure cannot be formatted', **detail)
    ctx.check(snapshot(value) == before, 'formatting changed the structure', **detail)
    if masks:
        ctx.check(secret not in text.value, 'a masked value is shown', **detail)
        ctx.count('masked')
    try:
        back = ast.literal_eval(text.value.replace(MASKED, repr(MASKED)))
    except Exception as e:
        back = e
    wanted = shown_as(value, masks or (), abbreviate)
    ctx.check(same(back, wanted), 'a formatted structure does not evaluate to the structure', evaluated=back, expected=wanted, **detail)
    width, level = options.get('indent', 4), options.get('level', 0)
    lines = text.value.split('\n')
    for line in lines:
        spaces = len(line) - len(line.lstrip(' '))
        ctx.check(not width or spaces % width == 0, 'a line is indented otherwise', line=line, **detail)
    if len(lines) > 1:
        ctx.check(max(len(l) - len(l.lstrip(' ')) for l in lines) == 0 or not width or any(l.startswith(' ' * width * (level + 1)) for l in lines),
            'nothing is indented', **detail)
    again = attempt(format_structure, value, **options)
    ctx.check(same(again.value, text.value), 'a structure is formatted differently the second time', **detail)
    ctx.count('formatted')
    ctx.seen('format', text.value)


def keyed(ctx, rng):
    """Mappings with keys other than texts, which are shown as their texts; and formatters as objects."""
    pool = [1, 2, 10, -3, 2.5, None, True, b'b', (1, 2), 'a', 'B', '', 'key', 'secret', 7 ** 30]
    keys = rng.sample(pool, rng.randrange(1, 6))
    value = dict((k, structure(rng, rng.choice([0, 1, 2]))) for k in keys if k is not True or 1 not in keys)
    if rng.random() < 0.4:
        value = {'outer': [value, 1]}
    masks = rng.choice([None, None, ['secret'], [str(rng.choice(keys))]])
    before = snapshot(value)
    formatter = StructureFormatter() if not masks else StructureFormatter(masks=masks)
    text = attempt(formatter.format, value)
    detail = {'structure': value, 'masks': masks, 'observed': text}
    ctx.check(text.kind == 'ok' and type(text.value) is str, 'a structure cannot be formatted', **detail)
    ctx.check(snapshot(value) == before, 'formatting changed the structure', **detail)
    back = attempt(ast.literal_eval, text.value.replace(MASKED, repr(MASKED)))
    ctx.check(back.kind == 'ok' and same(back.value, shown_as(texted(value), masks or (), False)), 'a formatted structure does not evaluate to the structure',
        evaluated=back, **detail)
    ctx.check(same(attempt(format_structure, value, masks=masks).value, text.value), 'a formatter and the function format otherwise', **detail)
    other = structure(rng, 2)
    ctx.check(same(attempt(formatter.format, other).value, attempt(format_structure, other, masks=masks).value), 'a formatter formats otherwise the second time',
        structure=other)
    shuffled = list(value.items())
    rng.shuffle(shuffled)
    ctx.check(attempt(formatter.format, dict(shuffled)).value == text.value, 'equal structures are formatted otherwise', **detail)
    ctx.count('keyed')


def texted(value):
    if isinstance(value, dict):
        return dict((str(k), texted(v)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return type(value)(texted(v) for v in value)
    return value


def plant(rng, value, masks, secret):
    """The structure with secrets at masked keys."""
    if isinstance(value, dict):
        found = dict((k, plant(rng, v, masks, secret)) for k, v in value.items())
        for key in masks:
            if key in found or rng.random() < 0.4:
                found[key] = rng.choice([secret, [secret], {'a': secret, 'b': [1, (secret,)]}, {secret: 1}, 'x' * 70 + secret])
        return found
    if isinstance(value, (list, tuple)):
        return type(value)(plant(rng, v, masks, secret) for v in value)
    return value
