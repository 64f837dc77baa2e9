"""P18: nothing is altered, nothing leaks from call to call or from thread to thread."""

import copy
import random
import sys
import threading
import time

from vmon import core, gen, model, moves
from vmon.build import build, describe_spec, scheme, walk
from vmon.core import StructuralError, attempt, error_view, same, snapshot
from props.common import PHASES, has_kind, inputs, serialized_form, valid_or_none

Field = scheme.Field
FORMATS = ('json', 'yaml', 'xml', 'structuredtext', 'urlencoded', 'csv')


class Call(object):
    """One operation with its own input, repeatable."""

    def __init__(self, name, function, *subjects):
        self.name = name
        self.function = function
        self.subjects = subjects

    def __call__(self, ctx, field):
        return self.run(ctx, field)[0]

    def run(self, ctx, field):
        subjects = copy.deepcopy(self.subjects)
        before = snapshot(subjects)
        outcome = attempt(self.function, field, *subjects)
        if snapshot(subjects) != before:
            ctx.fail('%s alters its input' % self.name, before=self.subjects, after=subjects)
        return outcome, subjects

    def __repr__(self):
        return '%s%r' % (self.name, self.subjects)


def view(value):
    """Comparable data for an outcome, taken before its value is altered."""
    if isinstance(value, core.Outcome):
        if value.kind == 'ok':
            return ('ok', view(value.value))
        if isinstance(value.value, StructuralError):
            return ('error', error_view(value.value), core.attempt(str, value.value).value, repr(value.value.serialize()))
        return ('raised', type(value.value).__name__, str(value.value))
    if isinstance(value, Field):
        return ('field', repr(value), repr(attempt(value.describe).value))
    if isinstance(value, dict):
        return (type(value).__name__, [(view(k), view(v)) for k, v in value.items()])
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, [view(v) for v in value])
    if isinstance(value, moves.Box):
        return ('box', value.name, view(value.value))
    return (type(value).__name__, repr(value))


def spoil(rng, value):
    """Alters everything alterable in a result."""
    if isinstance(value, moves.Box):
        spoil(rng, value.value)
    elif isinstance(value, dict):
        for v in list(value.values()):
            spoil(rng, v)
        if rng.random() < 0.5:
            value.clear()
        else:
            value['spoiled'] = [1]
    elif isinstance(value, list):
        for v in value:
            spoil(rng, v)
        value.append('spoiled')
    elif isinstance(value, tuple):
        for v in value:
            spoil(rng, v)
    elif isinstance(value, core.Outcome):
        spoil(rng, value.value)
    elif isinstance(value, StructuralError):
        spoil(rng, value.serialize())
        value.errors.append({'token': 'spoiled'})
        if isinstance(value.structure, (dict, list)):
            for v in value.structure.values() if isinstance(value.structure, dict) else value.structure:
                if isinstance(v, StructuralError):
                    v.errors.append({'token': 'spoiled'})


def calls_for(rng, spec, hooked):
    calls = []
    subjects = [None]
    for value in inputs(rng, spec, 4, wild=False) + [valid_or_none(rng, spec)]:
        subjects.append(value)
        subjects.append(serialized_form(spec, value))
    for value in subjects:
        if core.json_native(value) and not deep_copyable(value):
            continue
        for phase, serialized in PHASES:
            calls.append(Call('process', lambda f, v, p=phase, s=serialized: f.process(v, p, s), value))
        calls.append(Call('extract', lambda f, v: f.extract(v), value))
        calls.append(Call('extract', lambda f, v: f.extract(v, False, color='red'), value))
        name = rng.choice(FORMATS)
        calls.append(Call('serialize ' + name, lambda f, v, n=name: f.serialize(v, n), value))
        text = attempt(build(spec).serialize, copy.deepcopy(value), name)
        if text.kind == 'ok' and isinstance(text.value, str):
            calls.append(Call('unserialize ' + name, lambda f, v, n=name: f.unserialize(v, n), text.value))
        if not has_kind(spec, 'union'):
            calls.append(Call('instantiate', lambda f, v: f.instantiate(v), value))
        subject = templated(rng, value)
        calls.append(Call('interpolate', lambda f, v, p: f.interpolate(v, p), subject,
            {'x': 1, 'y': 'text', 'z': [1, {'a': 2}]}))
    calls += [Call('describe', lambda f: f.describe()), Call('describe verbose', lambda f: f.describe(verbose=True)),
        Call('clone', lambda f: f.clone()), Call('clone named', lambda f: f.clone(name='other')),
        Call('deepcopy', lambda f: copy.deepcopy(f)), Call('repr', repr),
        Call('transform', lambda f: f.transform(lambda g: g.clone(description='new') if g.type in ('integer', 'text') else None)),
        Call('transform nothing', lambda f: f.transform(lambda g: None)),
        Call('screen', lambda f: f.screen(color='red')),
        Call('reconstruct', lambda f, d: Field.reconstruct(d), described(spec)),
        Call('visit', lambda f, d: Field.visit(d, lambda g: g.get('fieldtype')), described(spec))]
    if spec['t'] == 'structure':
        calls += [Call('filter', lambda f: f.filter(False, color='red')), Call('filter all', lambda f: f.filter(True, color='red'))]
        if not spec.get('on'):
            calls += [Call('extend', lambda f: f.extend([scheme.Integer(name='added')])),
                Call('replace', lambda f: f.replace(dict((k, None) for k in list(f.structure)[:1])))]
        calls.append(Call('generate', lambda f: f.generate_defaults()))
    rng.shuffle(calls)
    return calls[:60]


def described(spec):
    return attempt(build(spec).describe).value


def deep_copyable(value):
    return attempt(copy.deepcopy, value).kind == 'ok' and same(copy.deepcopy(value), value)


def templated(rng, value):
    if isinstance(value, dict):
        return dict((k, templated(rng, v)) for k, v in value.items())
    if isinstance(value, list):
        return [templated(rng, v) for v in value]
    if rng.random() < 0.4:
        return rng.choice(['${x}', ' ${y} ', '${z}', 'a ${x} b', '${missing}'])
    return value


def state(field):
    return (repr(field), view(attempt(field.describe)), defaults(field))


def defaults(field, depth=0):
    """The defaults of a field and of what it holds, by its public attributes."""
    found = [view(getattr(field, 'default', None))]
    if depth < 6:
        for name in ('item', 'value', 'key'):
            nested = getattr(field, name, None)
            if isinstance(nested, Field):
                found.append(defaults(nested, depth + 1))
        for name in ('values', 'fields'):
            nested = getattr(field, name, None)
            if isinstance(nested, (list, tuple)):
                found += [defaults(f, depth + 1) for f in nested if isinstance(f, Field)]
        nested = getattr(field, 'structure', None)
        if isinstance(nested, dict):
            for key, part in sorted(nested.items(), key=lambda p: repr(p[0])):
                if isinstance(part, Field):
                    found.append((repr(key), defaults(part, depth + 1)))
                elif isinstance(part, dict):
                    found.append((repr(key), [(repr(k), defaults(f, depth + 1)) for k, f in sorted(part.items(),
                        key=lambda p: repr(p[0]))]))
    return found


def registry():
    return (sorted(Field.types), sorted(map(repr, scheme.Format.formats)))


def case(ctx, rng, index):
    threaded = index % 4 == 3
    g = gen.Gen(rng, p_default=0.5, p_errors=0.1, p_aspects=0.3, p_pre=0.05, p_required=0.1, p_nonnull=0.1, p_order=0.3, p_poly=0.3)
    spec = g.spec(rng.choice([1, 2, 2, 3]), rng.choice(['structure', 'structure', 'sequence', 'map', 'tuple', 'union', None]))
    if threaded:
        for s in walk(spec):
            if s['t'] in model.SIMPLE and rng.random() < 0.3 and not s.get('pre') and s.get('constant') is None:
                s['pre'] = 'yields'
    if spec['t'] == 'structure' and not spec.get('on') and rng.random() < 0.3:
        spec['generate_default'] = True
    moves.attach(rng, spec, [], 0.15)
    for s in walk(spec):
        for hook in ('instantiator', 'extractor'):
            if s.get(hook):
                s[hook].calls = Forgetful()
    calls = calls_for(rng, spec, True)
    shown = describe_spec(spec)
    field = build(spec)
    libraries = registry()

    # what each call does when it is the first ever made on the schema
    first = []
    for call in calls:
        fresh = build(spec)
        before = state(fresh)
        outcome = call(ctx, fresh)
        first.append(view(outcome))
        ctx.check(state(fresh) == before, 'a call alters the schema', call=call, schema=shown, before=before, after=state(fresh))
    before = state(field)
    if threaded:
        return threads(ctx, rng, field, calls, first, shown, before)

    opaque = has_kind(spec, 'field')
    order = list(range(len(calls))) * 2
    rng.shuffle(order)
    made = []
    for i in order:
        outcome, subjects = calls[i].run(ctx, field)
        result = view(outcome)
        made.append(calls[i])
        ctx.check(result == first[i], 'a call has another outcome later', call=calls[i], schema=shown, first=first[i],
            later=result, previous=made[-4:-1])
        if not isinstance(outcome.value, Field):
            given = snapshot(subjects[:1])
            spoil(rng, outcome)
            if not opaque and calls[i].name.split(' ')[0] in ('process', 'serialize', 'unserialize'):
                ctx.check(snapshot(subjects[:1]) == given, 'what a call returns is part of what it was given', call=calls[i], schema=shown)
                ctx.count('results_spoilt')
        ctx.count('repeated_calls')
    after = state(field)
    ctx.check(after == before, 'the schema is altered by its use', schema=shown, before=before, after=after)
    ctx.check(registry() == libraries, 'the registries of the library are altered')
    for call in calls:
        ctx.seen(shown, repr(call))
    ctx.sample(shown)


class Forgetful(list):
    def append(self, item):
        pass


class Collected(object):
    """Stands for the context within a thread; violations are handed to the main thread."""

    def __init__(self):
        self.problems = []

    def fail(self, message, **detail):
        self.problems.append((message, detail))
        raise RuntimeError(message)


def threads(ctx, rng, field, calls, first, shown, before):
    count = rng.choice([3, 5])
    collected = Collected()
    barrier = threading.Barrier(count)
    interval = sys.getswitchinterval()
    traced = rng.random() < 0.5
    stats = {'yields': 0, 'switches': 0, 'last': None}

    def run(seed):
        r = random.Random(seed)
        me = threading.get_ident()

        def trace(frame, event, arg):
            if 'scheme' not in frame.f_code.co_filename:
                return None
            if stats['last'] != me:
                stats['switches'] += 1
                stats['last'] = me
            if r.random() < 0.03:
                stats['yields'] += 1
                time.sleep(0)
            return trace
        try:
            barrier.wait(20)
            if traced:
                sys.settrace(trace)
            order = list(range(len(calls)))
            r.shuffle(order)
            for i in order[:25 if traced else 60]:
                if collected.problems:
                    break
                outcome = calls[i](collected, field)
                result = view(outcome)
                if result != first[i]:
                    collected.fail('a call has another outcome when other threads use the schema', call=calls[i],
                        schema=shown, alone=first[i], together=result)
                if not isinstance(outcome.value, Field):
                    spoil(r, outcome)
        except RuntimeError as e:
            if not collected.problems:
                collected.problems.append(('a thread failed: %s' % e, {}))
        except BaseException as e:
            collected.problems.append(('a thread failed: %s: %s' % (type(e).__name__, e), {}))
        finally:
            sys.settrace(None)

    workers = [threading.Thread(target=run, args=(rng.random(),), daemon=True) for _ in range(count)]
    try:
        sys.setswitchinterval(1e-5)
        for worker in workers:
            worker.start()
        for worker in workers:
            worker.join(120)
            ctx.check(not worker.is_alive(), 'a thread does not end', schema=shown)
    finally:
        sys.setswitchinterval(interval)
    for message, detail in collected.problems[:1]:
        ctx.fail(message, **detail)
    after = state(field)
    ctx.check(after == before, 'the schema is altered by use from several threads', schema=shown, before=before, after=after)
    ctx.count('threaded_cases')
    ctx.count('thread_yields_injected', stats['yields'])
    ctx.count('thread_switches_seen', stats['switches'])
    ctx.evaluations += count * min(len(calls), 25 if traced else 60)
    ctx.seen('threads', shown)
