"""P35: structural errors composed by an application are complete in text and in serialized form."""

import json

from vmon import core, gen
from vmon.build import build, describe_spec
from vmon.core import StructuralError, ValidationError, attempt, same, scheme, snapshot
from props.common import PHASES, inputs
from scheme.common import Errors
from scheme.field import FieldError

F = scheme.fields
KEYS = ['a', 'b', 'name', 'x y', '', '\u00e9', 'item']
TITLES = ['invalid value', 'too long', 'x', 'ERROR', '\u00e9t\u00e9']
MESSAGES = ['is wrong', '100% wrong', 'line\nbreak', '', '%(field)s', '{}', '\u4e2d', 'at (x): y']
TOKENS = ['invalid', 'nonnull', 'ours', 'unheard-of', 'required', '']


class Made(object):
    """An error under composition beside what it has to say."""

    def __init__(self, rng):
        self.rng = rng
        self.known = rng.random() < 0.75
        self.field = self.make_field() if self.known else None
        self.identity = rng.choice([['account'], ['account', '.name'], ['a', '[3]', '.b'], '(unknown)', ['(text)']])
        self.value = rng.choice([None, 1, 'secret', [1], {'a': 1}, 0, ''])
        self.errors, self.structure, self.captured, self.merged = [], None, 0, []
        params = {}
        if self.field:
            params['field'] = self.field
        if self.value is not None:
            params['value'] = self.value
        if self.identity != '(unknown)':
            params['identity'] = list(self.identity)
        given = [self.entry() for _ in range(rng.choice([0, 0, 1, 2]))]
        self.errors += given
        if rng.random() < 0.3:
            extra = {'token': rng.choice(TOKENS), 'title': rng.choice(TITLES), 'message': rng.choice(MESSAGES)}
            self.errors.append(extra)
            params = dict(params, **extra)
        self.error = rng.choice([StructuralError, ValidationError])(*given, **params)
        self.plain_text = not (self.field is None)

    def make_field(self):
        rng = self.rng
        declared = [FieldError('ours', 'our title', '%(field)s is %(what)s', rng.random() < 0.5, rng.random() < 0.5)]
        return rng.choice([F.Text, F.Integer, F.Boolean])(name=rng.choice([None, 'named']), errors=declared)

    def entry(self):
        rng = self.rng
        if rng.random() < 0.2:
            return rng.choice([m for m in MESSAGES if m])
        entry = {'token': rng.choice(TOKENS), 'title': rng.choice(TITLES), 'message': rng.choice(MESSAGES)}
        if rng.random() < 0.2:
            entry['extra'] = rng.choice([1, 'more'])
        return entry


def serialized(entries):
    return [e if isinstance(e, dict) else {'message': e} for e in entries]


def step(ctx, rng, made, depth):
    """One more operation on an error."""
    style = rng.randrange(6)
    error = made.error
    if style == 0:
        entry = made.entry()
        result = error.append(entry)
        made.errors.append(entry)
        what = 'append'
    elif style == 1:
        other = Made(rng)
        result = error.merge(other.error)
        made.errors += other.errors
        ctx.check(same(other.error.errors, other.errors), 'merging altered the error merged')
        made.merged.append((other.error, list(other.errors)))
        what = 'merge'
    elif style == 2 and made.field:
        token = rng.choice(['ours', 'invalid', 'nonnull'])
        if isinstance(error, ValidationError):
            result = error.construct(token, what='wrong')
            definition = made.field.errors[token]
            message = result.errors[-1].get('message')
            ctx.check(result.errors[-1].get('token') == token and result.errors[-1].get('title') == definition.title,
                'an error is constructed otherwise', observed=result.errors[-1])
            ctx.check(not made.field.name or 'named' in message, 'a constructed message does not name its field', observed=message)
            made.errors.append(result.errors[-1])
            what = 'construct'
        else:
            return 'nothing'
    elif style == 3:
        try:
            raise KeyError('the-cause-%d' % made.captured)
        except KeyError:
            result = error.capture()
        made.captured += 1
        what = 'capture'
    elif style == 4 and depth and not made.errors:
        parts = [compose(ctx, rng, depth - 1) for _ in range(rng.randrange(1, 4))]
        holes = [rng.choice([None, None, 1, 'x']) for _ in range(rng.randrange(3))]
        if rng.random() < 0.5:
            items = parts + holes
            rng.shuffle(items)
            structure = [i.error if isinstance(i, Made) else None if i is None else i for i in items]
            made.structure = items
        else:
            names = rng.sample(KEYS, len(parts))
            made.structure = dict(zip(names, parts))
            structure = dict((k, p.error) for k, p in made.structure.items())
            if rng.random() < 0.3:
                structure['valid'] = rng.choice([None, 1])
        result = error.attach(structure)
        what = 'attach'
    else:
        return 'nothing'
    ctx.check(result is error, '%s() does not return the error' % what)
    ctx.count(what)
    return what


def error_entries(made):
    return made.error.errors


def compose(ctx, rng, depth):
    made = Made(rng)
    done = [step(ctx, rng, made, depth) for _ in range(rng.randrange(1, 5))]
    for merged, errors in made.merged:
        ctx.check(same(merged.errors, errors), 'composing an error alters one merged into it', observed=merged.errors, wanted=errors)
        before = list(error_entries(made))
        merged.append(made.entry())
        ctx.check(same(list(error_entries(made)), before), 'composing an error alters one it was merged into')
    if made.structure is not None and made.errors and depth < 2:
        # a position has errors of its own or parts, not both
        made.error.errors, made.errors = [], []
    if made.structure is None and not made.errors:
        made.errors.append(made.entry())
        made.error.append(made.errors[-1])
    made.done = done
    return made


def wanted_structure(made):
    if isinstance(made.structure, dict):
        return dict((k, wanted_part(p)) for k, p in made.structure.items())
    if isinstance(made.structure, list):
        return [wanted_part(p) if isinstance(p, Made) else None for p in made.structure]


def wanted_part(made):
    return serialized(made.errors) if made.structure is None else wanted_structure(made)


def wanted_entries(made):
    """(path, error, field, value, captured) of every error the text has to list, in no order."""
    found = []
    if made.field and made.errors:
        for entry in made.errors:
            found.append((''.join(made.identity), entry, made.field, made.value, made.captured))
    parts = made.structure.values() if isinstance(made.structure, dict) else made.structure or ()
    for part in parts:
        if isinstance(part, Made):
            found += wanted_entries(part)
    return found


def check_text(ctx, made, detail):
    text = attempt(str, made.error)
    ctx.check(text.kind == 'ok', 'an error cannot be shown', observed=text, **detail)
    lines = text.value.split('\n')
    ctx.check(lines[0] == 'validation failed', 'the text starts otherwise', text=text.value, **detail)
    entries = wanted_entries(made)
    formatted = made.error.format_errors()
    ctx.check(len(formatted) == len(entries), 'the text lists %d errors instead of %d' % (len(formatted), len(entries)), text=text.value,
        **detail)
    ctx.check([f.split(' ')[0] for f in formatted] == ['[%02d]' % (i + 1) for i in range(len(entries))], 'the errors are numbered otherwise',
        text=text.value, **detail)
    remaining = list(formatted)
    for path, entry, field, value, captured in entries:
        message = entry['message'] if isinstance(entry, dict) else entry
        token = entry.get('token') if isinstance(entry, dict) else None
        title = entry.get('title') if isinstance(entry, dict) else None
        definition = field.errors.get(token)
        head = ' error at %s: %s' % (path, message.split('\n')[0])
        match = None
        for candidate in remaining:
            first = candidate.split('\n')[0]
            if not first.rstrip().endswith(head.rstrip()):
                continue
            if title and not first[5:].startswith(title.capitalize()):
                continue
            if definition and (('Field: %r' % field in candidate) != bool(definition.show_field) or
                    ('Value: %r' % (value,) in candidate) != bool(definition.show_value and value is not None)):
                continue
            if not all('the-cause-%d' % i in candidate for i in range(captured)) or ('Traceback' in candidate) != bool(captured):
                continue
            match = candidate
            break
        ctx.check(match is not None, 'an error is missing from the text', missing=(path, entry, captured), text=text.value, **detail)
        remaining.remove(match)
    for part in formatted:
        ctx.check(part.split('\n')[0] in lines, 'the text lacks an error', text=text.value, **detail)


def case(ctx, rng, index):
    if index % 3 == 2:
        return reports(ctx, rng)
    for _ in range(4):
        made = compose(ctx, rng, 2)
        detail = {'done': made.done}
        before = snapshot(made.errors)
        for again in range(2):
            expected = (serialized(made.errors) if made.errors else None, wanted_structure(made) if made.structure else None)
            form = attempt(made.error.serialize, True)
            ctx.check(form.kind == 'ok' and same(form.value, expected), 'a composed error serializes otherwise', expected=expected,
                observed=form, **detail)
            kept = attempt(made.error.serialize)
            ctx.check(kept.kind == 'ok' and same(kept.value, expected), 'a composed error serializes otherwise the second time', expected=expected,
                observed=kept, **detail)
            ctx.check(bool(made.error.substantive) == bool(made.errors or made.structure), 'an error is substantive or not against its content',
                **detail)
            check_text(ctx, made, detail)
            ctx.check(snapshot(made.errors) == before or again, 'showing an error alters it', **detail)
            restored(ctx, expected, detail)
            # composition goes on after an error was shown
            detail = {'done': made.done + [step(ctx, rng, made, 0)]}
            before = snapshot(made.errors)
        ctx.seen(repr(expected), ''.join(made.identity), made.known)
    ctx.sample('%s %r' % (made.done, expected))


def restored(ctx, form, detail):
    """Serialized errors come back the same."""
    back = attempt(StructuralError.unserialize, form)
    ctx.check(back.kind == 'ok' and same(back.value.serialize(), form) and isinstance(back.value, StructuralError),
        'a serialized error comes back as another', form=form, observed=back, **detail)
    ctx.check(attempt(str, back.value).kind == 'ok', 'a restored error cannot be shown', **detail)
    ctx.check(same(back.value.errors, list(form[0] or [])), 'a restored error holds other errors', observed=back.value.errors, form=form)
    through = attempt(StructuralError.unserialize, json.loads(json.dumps(form)))
    ctx.check(through.kind == 'ok' and same(list(through.value.serialize()), list(form)), 'an error does not survive JSON', observed=through,
        form=form)


def reports(ctx, rng):
    """Every report of the library is valid for its own schema of reports."""
    g = gen.Gen(rng, p_errors=0.2, p_required=0.4, p_nonnull=0.3, p_bounds=0.7)
    spec = g.spec(rng.choice([0, 1, 2, 3]))
    field = build(spec)
    for value in inputs(rng, spec, 4) + [gen.mutate(rng, v, 3) for v in inputs(rng, spec, 3, False)]:
        phase, ser = rng.choice(PHASES)
        outcome = attempt(field.process, value, phase, ser)
        if outcome.kind != 'error':
            continue
        form = outcome.value.serialize()
        detail = {'schema': describe_spec(spec), 'value': value, 'report': form}
        for p, s in PHASES:
            accepted = attempt(Errors.process, form, p, s)
            ctx.check(accepted.kind == 'ok' and same(accepted.value, form), 'a report is not valid for the schema of reports', observed=accepted,
                phase=p, serialized=s, **detail)
        if core.json_native(form, keys=True) is None and text_keys(form):
            for name in ('json', 'yaml'):
                text = attempt(Errors.serialize, form, name)
                back = attempt(Errors.unserialize, text.value, name) if text.kind == 'ok' else text
                ctx.check(back.kind == 'ok' and same(back.value, form), 'a report does not survive its schema through %s' % name, text=text,
                    observed=back, **detail)
                ctx.count('reports_through_' + name)
        merged = StructuralError(structure=[None, outcome.value]) if rng.random() < 0.5 else ValidationError(field=field).attach(
            {'part': outcome.value})
        part = form[1] if outcome.value.structure is not None else form[0]
        whole = merged.serialize()
        ctx.check(same(whole, (None, [None, part] if isinstance(whole[1], list) else {'part': part})),
            'a report attached to an error is serialized otherwise', observed=whole, **detail)
        inner = outcome.value.format_errors()
        ctx.check(merged.format_errors() == inner, 'a report attached to an error reads otherwise', observed=merged.format_errors(), wanted=inner,
            **detail)
        ctx.count('reports')
        ctx.seen(describe_spec(spec), core.show(value))
    token = rng.choice(['invalid', 'x', ''])
    for form in (([{'token': None}], None), ([None, 5], None), ([{'token': 5}], None), ('text', None), ([{'token': token}],), [[{'token': token}], None, None],
            {'errors': []}, [{'token': token}], ([[{'token': token}]], None), ({'token': token}, None), 'text', 5):
        outcome = attempt(Errors.process, form, *rng.choice(PHASES))
        ctx.check(outcome.kind == 'error', 'what is no report is valid for the schema of reports',
            form=form, observed=outcome)
    for form in (([{'token': token, 'message': 'm'}], None), ([], {'a': 1}), (None, [None, ([], None)]), ([], None), (None, None)):
        outcome = attempt(Errors.process, form, *rng.choice(PHASES))
        ctx.check(outcome.kind == 'ok' and same(outcome.value, form), 'a report is not valid for the schema of reports', form=form, observed=outcome)
    ctx.sample(describe_spec(spec))


def text_keys(value):
    if isinstance(value, dict):
        return all(isinstance(k, str) and text_keys(v) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return all(text_keys(v) for v in value)
    return True
