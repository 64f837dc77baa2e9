"""Compares what the real code did with what the reference model says it must do."""

import re

from vmon import core, model
from vmon.core import (InvalidTypeError, Outcome, StructuralError, UndefinedFieldError,
    ValidationError, attempt, same, show)
from vmon.build import describe_spec


def observe(ctx, spec, field, value, phase='inbound', serialized=False, text=False, **extra):
    """Processes ``value`` with the real field and checks the outcome against the model. Returns
    (outcome, expected) or None where the model is undecided."""
    try:
        expected = model.process(spec, value, phase, serialized, **extra)
    except model.Undecided:
        ctx.count('undecided')
        return None
    except model.Undef:
        expected = 'undefined'
    real = dict((k, v) for k, v in extra.items() if k == 'partial')
    outcome = attempt(field.process, value, phase, serialized, **real)
    judge(ctx, spec, outcome, expected, value, phase, serialized, text)
    return outcome, expected


def judge(ctx, spec, outcome, expected, value, phase, serialized, text=False):
    ctx.evaluations += 1
    problem = difference(outcome, expected, text)
    if problem:
        ctx.fail(problem, schema=describe_spec(spec), value=value, phase=phase,
            serialized=serialized, expected=expected, observed=outcome)
    if expected == 'undefined':
        ctx.count('undefined')
    elif expected.ok:
        ctx.count('accepted')
    else:
        ctx.count('refused')
        if expected.children is not None:
            ctx.count('multi_error' if expected.leaves() > 1 else 'single_nested_error')


def difference(outcome, expected, text=False):
    if expected == 'undefined':
        if outcome.kind == 'other' and isinstance(outcome.value, UndefinedFieldError):
            return None
        return 'an undefined placeholder was not reported as such'
    if outcome.kind == 'other':
        return 'an exception escaped: %s: %s' % (type(outcome.value).__name__, outcome.value)
    if expected.ok:
        if outcome.kind != 'ok':
            return 'a valid value was refused'
        if not same(outcome.value, expected.value):
            return 'the result differs from the expected value'
        order = wrong_order(outcome.value, expected.value)
        if order:
            return order
        return None
    if outcome.kind == 'ok':
        return 'an invalid value was accepted'
    problem = wrong_error(outcome.value, expected)
    if not problem and text:
        problem = wrong_text(outcome.value, expected)
    return problem


def wrong_order(value, expected):
    """Ordered mappings must be in the order of the model's ordered mappings."""
    from collections import OrderedDict
    if isinstance(expected, OrderedDict):
        if list(value) != list(expected):
            return 'keys are in the order %r rather than %r' % (list(value), list(expected))
    if isinstance(expected, dict):
        for key in expected:
            problem = wrong_order(value[key], expected[key])
            if problem:
                return problem
    elif isinstance(expected, (list, tuple)):
        for a, b in zip(value, expected):
            problem = wrong_order(a, b)
            if problem:
                return problem


def wrong_error(error, expected):
    if not isinstance(error, StructuralError):
        return 'position %s holds %r instead of an error' % (expected.path, error)
    if not isinstance(error, ValidationError):
        return 'the error at %s is a %s' % (expected.path, type(error).__name__)
    identity = ''.join(error.identity)
    if identity != expected.path:
        return 'an error names %r instead of %r' % (identity, expected.path)
    if expected.children is None:
        if error.structure is not None:
            return 'the error at %s has nested errors' % expected.path
        if len(error.errors) != 1:
            return '%d errors are reported at %s instead of one' % (len(error.errors), expected.path)
        entry = error.errors[0]
        if not isinstance(entry, dict):
            return 'the entry at %s is not a mapping' % expected.path
        kind = 'type' if isinstance(error, InvalidTypeError) else 'val'
        found = (kind, entry.get('token'), entry.get('title'), entry.get('message'))
        if found not in [tuple(a) for a in expected.alternatives]:
            return 'the report at %s is %r, the violated constraints are %r' % (expected.path, found,
                expected.alternatives)
        return wrong_subject(error, expected, entry)

    if isinstance(error, InvalidTypeError):
        return 'the nested report at %s claims an invalid type' % expected.path
    if error.errors:
        return 'the error at %s reports %r besides its positions' % (expected.path, error.errors)
    structure = error.structure
    if isinstance(expected.children, dict):
        if not isinstance(structure, dict):
            return 'the report at %s is not keyed' % expected.path
        wrong = dict((k, v) for k, v in structure.items() if isinstance(v, StructuralError))
        if set(wrong) != set(expected.children):
            return 'the erroneous keys at %s are %r instead of %r' % (expected.path,
                sorted(map(repr, wrong)), sorted(map(repr, expected.children)))
        pairs = [(wrong[k], expected.children[k]) for k in wrong]
    else:
        if not isinstance(structure, (list, tuple)):
            return 'the report at %s is not positional' % expected.path
        flags = [isinstance(v, StructuralError) for v in structure]
        if flags != [c is not None for c in expected.children]:
            return 'the erroneous positions at %s are %r instead of %r' % (expected.path, flags,
                [c is not None for c in expected.children])
        pairs = [(v, c) for v, c in zip(structure, expected.children) if c is not None]
    for child, model_child in pairs:
        problem = wrong_error(child, model_child)
        if problem:
            return problem


def wrong_subject(error, expected, entry):
    """An error about a value tells of that value."""
    if expected.about is None or entry.get('token') in ('nonnull', 'required', 'unknown'):
        return None
    value, exact = expected.about
    if error.value is None:
        return 'the report %r at %s lacks its value' % (entry.get('token'), expected.path)
    if exact and not (error.value is value or core.same(error.value, value)):
        return 'the report %r at %s is about %r' % (entry.get('token'), expected.path, error.value)


def leaf_errors(error):
    if error.structure is None:
        return [error]
    items = error.structure.values() if isinstance(error.structure, dict) else error.structure
    result = []
    for item in items:
        if isinstance(item, StructuralError):
            result.extend(leaf_errors(item))
    return result


def wrong_text(error, expected):
    """The text of a report lists each leaf exactly once, numbered from one."""
    text = str(error)
    lines = text.split('\n')
    if lines[0] != 'validation failed':
        return 'the text does not start with its summary line'
    numbers, headings = [], []
    for line in lines[1:]:
        match = re.match(r'\[(\d+)\] (.*)\Z', line, re.S)
        if match:
            numbers.append(int(match.group(1)))
            headings.append(match.group(2))
    wanted = []
    for item in leaf_errors(error):
        for entry in item.errors:
            wanted.append(('%s error at %s: %s' % (entry['title'].capitalize(),
                ''.join(item.identity), entry['message'])).split('\n')[0])
    if numbers != list(range(1, expected.leaves() + 1)):
        return 'the text numbers its entries %r for %d errors:\n%s' % (numbers, expected.leaves(), text)
    if sorted(headings) != sorted(wanted):
        return 'the text lists %r instead of %r' % (headings, wanted)


def wrong_serialized(error, serialized=None):
    """The serialized form mirrors the report position by position."""
    if serialized is None:
        serialized = error.serialize()
    if not isinstance(serialized, (list, tuple)) or len(serialized) != 2:
        return 'the serialized form is %r' % (serialized,)
    errors, structure = serialized
    wanted_errors = [dict(e) for e in error.errors] or None
    if (errors or None) != wanted_errors:
        return 'the serialized errors are %r instead of %r' % (errors, wanted_errors)
    wanted = serialized_view(error) if error.structure else None
    if (structure or None) != (wanted or None):
        return 'the serialized structure is %r instead of %r' % (structure, wanted)
    bad = core.json_native(serialized, keys=False)
    if bad:
        return 'the serialized form holds non-native data: %s' % bad


def serialized_view(error):
    structure = error.structure
    if structure is None:
        return [dict(e) for e in error.errors]
    if isinstance(structure, dict):
        return dict((k, serialized_view(v)) for k, v in structure.items()
            if isinstance(v, StructuralError))
    return [serialized_view(v) if isinstance(v, StructuralError) else None for v in structure]
