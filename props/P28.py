"""P28: objects, definitions and errors are carried by reference fields."""

import importlib
import json
import os
import shutil
import sys
import tempfile
import types

from vmon import core, gen, model
from vmon.build import build, describe_spec
from vmon.core import StructuralError, attempt, error_view, same, scheme, snapshot
from props.common import inputs
from props.P08 import all_text_keys, listed
from scheme.util import identify_object, import_object

F = scheme.fields
STANDARD = ['os', 'os.path', 'json', 'json.decoder', 'collections', 'collections.abc', 'datetime', 'decimal', 'functools', 'itertools',
    'math', 'random', 're', 'string', 'textwrap', 'uuid', 'xml.etree.ElementTree', 'logging', 'logging.handlers', 'email.message',
    'urllib.parse', 'unittest', 'unittest.case', 'fractions', 'calendar', 'copy', 'types', 'argparse', 'csv', 'heapq', 'bisect',
    'scheme', 'scheme.fields', 'scheme.util', 'scheme.field', 'scheme.fields.text', 'scheme.exceptions', 'scheme.formats']
counter = [0]


class Point(object):
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return isinstance(other, Point) and self.x == other.x

    def __hash__(self):
        return hash(self.x)

    def method(self):
        return self.x


class Loose(Point):
    __hash__ = None


SOURCE = '''
import functools
class {first}(object):
    class {second}(object):
        class {third}(object):
            pass
        VALUE = 7
    class Stranger(object):
        pass
class Stranger(object):
    pass
class Point(object):
    def __init__(self, x):
        self.x = x
    def __eq__(self, other):
        return isinstance(other, Point) and self.x == other.x
    def __hash__(self):
        return hash(self.x)
    def method(self):
        return self.x
class Loose(Point):
    __hash__ = None
def {function}(a=1):
    return a
@functools.wraps({function})
def wrapped(a=1):
    return {function}(a)
def factory():
    class Made(object):
        pass
    return Made
Made = factory()
Hidden = factory()
anonymous = lambda: 1
{one} = Point({number})
{two} = Point({number})
{three} = Loose({number})
{four} = Loose({number})
bound = {one}.method
'''


def package(rng, folder):
    """A package on disk, with a broken module in it."""
    counter[0] += 1
    name = 'objects_of_case_%d_%d' % (os.getpid(), counter[0])
    names = dict(first=rng.choice(['First', 'A', '_Private']), second=rng.choice(['Second', 'B', 'Inner']), third=rng.choice(['Third', 'C']),
        function=rng.choice(['function', 'f', '_f']), number=rng.randrange(50))
    for key, constant in zip(('one', 'two', 'three', 'four'), rng.sample(['ONE', 'TWO', 'x', 'y', '_z', 'Q', 'W'], 4)):
        names[key] = constant
    top = os.path.join(folder, name)
    os.makedirs(os.path.join(top, 'inner'))
    for path in ('__init__.py', 'mod.py', 'inner/__init__.py', 'inner/mod.py'):
        with open(os.path.join(top, path), 'w') as f:
            f.write(SOURCE.format(**names))
    broken = {'syntax': 'def (', 'raising': 'raise RuntimeError("x")', 'missing': 'import nowhere_at_all', 'value': 'int("x")',
        'attribute': 'import os\nos.nothing_there'}
    for key, text in broken.items():
        with open(os.path.join(top, key + '_broken.py'), 'w') as f:
            f.write(text + '\n')
    return name, names, sorted(k + '_broken' for k in broken)


def resolve(path):
    """The object at a path, found independently: (True, object) or (False, None)."""
    if ':' in path:
        module, _, rest = path.partition(':')
        names = rest.split('.')
        if ':' in rest or not module:
            return False, None
        try:
            target = importlib.import_module(module)
        except Exception:
            return False, None
    else:
        parts = path.split('.')
        if '' in parts:
            return False, None
        for split in range(len(parts), 0, -1):
            try:
                target = importlib.import_module('.'.join(parts[:split]))
            except ModuleNotFoundError as e:
                continue
            except Exception:
                return False, None
            names = parts[split:]
            break
        else:
            return False, None
    for name in names:
        try:
            target = getattr(target, name)
        except AttributeError:
            return False, None
    return True, target


def case(ctx, rng, index):
    folder = tempfile.mkdtemp(prefix='vmon-P28-')
    sys.path.insert(0, folder)
    importlib.invalidate_caches()
    wrote, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    name = None
    try:
        name, names, broken = package(rng, folder)
        objects(ctx, rng, name, names, broken)
        replaced(ctx, rng, name, names)
    finally:
        sys.dont_write_bytecode = wrote
        sys.path.remove(folder)
        for key in [k for k in sys.modules if name and (k == name or k.startswith(name + '.'))]:
            del sys.modules[key]
        shutil.rmtree(folder)
    definitions(ctx, rng)
    errors(ctx, rng)
    located(ctx, rng)
    ctx.sample('package %s' % sorted(names.values(), key=str))


def check_import(ctx, path, wanted):
    found = attempt(import_object, path)
    ctx.check(found.kind == 'ok' and (found.value is wanted or isinstance(
        wanted, types.MethodType) and found.value == wanted), 'a path does not lead to its object', path=path, wanted=wanted, observed=found)
    ctx.count('imported')


def check_refused(ctx, path):
    found = attempt(import_object, path)
    ctx.check(found.kind == 'other' and type(found.value) is ImportError, 'a path which leads nowhere is not refused as such', path=path,
        observed=found)
    ctx.count('import_refused')


def replaced(ctx, rng, name, names):
    """A path leads to what is there now."""
    for module in rng.sample([name, name + '.mod', name + '.inner', name + '.inner.mod'], 2):
        loaded = importlib.import_module(module)
        attribute = rng.choice([names['one'], names['first'], names['function'], 'Made'])
        paths = ['%s.%s' % (module, attribute), '%s:%s' % (module, attribute)]
        for replacement in (object(), type('New', (), {}), rng.choice([5, 'text', lambda: 1])):
            setattr(loaded, attribute, replacement)
            for path in paths:
                check_import(ctx, path, replacement)
                outcome = attempt(F.Object().unserialize, path)
                ctx.check(outcome.kind == 'ok' and outcome.value is replacement, 'a replaced object is not restored', path=path, observed=outcome)
        delattr(loaded, attribute)
        for path in paths:
            check_refused(ctx, path)
        if rng.random() < 0.5:
            importlib.reload(loaded)
            for path in paths:
                check_import(ctx, path, getattr(loaded, attribute))


def check_identity(ctx, rng, target, must, fields):
    """What identifies an object leads back to it, or the object is refused; ``must`` if it has a path of its own."""
    identity = attempt(identify_object, target)
    if identity.kind == 'ok':
        if must or not isinstance(target, (type, types.ModuleType)):
            found = attempt(import_object, identity.value)
            ctx.check(found.kind == 'ok' and found.value is target, 'the identity of an object leads to something else',
                identity=identity.value, target=target, observed=found)
    else:
        ctx.check(not must and type(identity.value) is TypeError, 'an object with a path cannot be identified', target=target,
            observed=identity)
    again = attempt(identify_object, target)
    ctx.check(again.kind == identity.kind and (identity.kind != 'ok' or same(identity.value, again.value)),
        'an object is identified differently the second time', first=identity, second=again)
    if target is None or isinstance(target, str):
        return
    field = rng.choice(fields)
    form = attempt(field.serialize, target)
    if identity.kind == 'ok':
        ctx.check(form.kind == 'ok' and same(form.value, identity.value), 'an object is serialized as something else', target=target,
            observed=form, expected=identity.value)
        if must:
            for format in rng.sample([None, 'json', 'yaml', 'text'], 2):
                back = attempt(field.unserialize, field.serialize(target, format), format) if format != 'text' else attempt(
                    field.unserialize, form.value)
                ctx.check(back.kind == 'ok' and back.value is target, 'an object is not restored', target=target, observed=back,
                    format=format)
            ctx.count('objects_restored')
            ctx.seen('object', identity.value)
    else:
        ctx.check(form.kind == 'error' and [e['token'] for e in form.value.errors] == ['invalid'],
            'an object without a path is not refused', target=target, observed=form)
        ctx.count('objects_refused')


def objects(ctx, rng, name, names, broken):
    fields = [F.Object(), F.Object(name='thing', required=True), F.Object(nonnull=True, description='x')]
    todo = []
    for module in rng.sample([name, name + '.mod', name + '.inner', name + '.inner.mod'], 2):
        n = names
        for path in (n['first'], n['first'] + '.' + n['second'], '.'.join([n['first'], n['second'], n['third']]), 'Stranger', n['first'] +
                '.Stranger', 'Point', n['function'], 'anonymous', n['one'], n['two'], n['three'], n['four'], 'bound'):
            todo.append((module, path, True))
        for path in ('wrapped', 'Made', 'Hidden', n['first'] + '.' + n['second'] + '.VALUE', n['one'] + '.method', 'factory.__doc__'):
            todo.append((module, path, False))
    rng.shuffle(todo)
    for module, path, must in todo:
        for form in ('%s.%s', '%s:%s'):
            found, target = resolve(form % (module, path))
            if not found:
                raise core.HarnessError('nothing at %s %s' % (module, path))
            check_import(ctx, form % (module, path), target)
        if path == 'bound':
            ctx.check(same(identify_object(target), module + '.bound'), 'a bound method of a module is identified differently', module=module)
        if path in ('Made', 'wrapped'):
            must = True
        elif path == 'Hidden':
            continue
        check_identity(ctx, rng, target, must, fields)
    module = importlib.import_module(name)
    for target in (module.Point(1), module.Loose(2), module.Point(names['number']), getattr(module, names['one']).method.__func__):
        if not isinstance(target, types.FunctionType):
            check_identity(ctx, rng, target, False, fields)
            ctx.check(attempt(identify_object, target).kind == 'other', 'an object of no module is identified', target=target)
    for target in (1, 2.5, [1], {}, None.__class__, b'x'):
        if not isinstance(target, type):
            check_identity(ctx, rng, target, False, fields)

    for module in rng.sample(STANDARD, 4):
        real = importlib.import_module(module)
        check_import(ctx, module, real)
        check_identity(ctx, rng, real, resolve(real.__name__)[1] is real, fields)
        for attr in rng.sample(sorted(vars(real)), min(6, len(vars(real)))):
            target = getattr(real, attr)
            for form in ('%s.%s', '%s:%s'):
                path = form % (module, attr)
                found, wanted = resolve(path)
                if found:
                    check_import(ctx, path, wanted)
            if isinstance(target, type):
                origin = '%s.%s' % (target.__module__, getattr(target, '__qualname__', '<'))
                check_identity(ctx, rng, target, '<' not in origin and resolve(origin) == (True, target), fields)
            elif isinstance(target, (types.FunctionType, types.BuiltinFunctionType)):
                home = sys.modules.get(target.__module__)
                must = home is not None and home.__name__ == target.__module__ and any(v is target for v in list(vars(home).values()))
                check_identity(ctx, rng, target, must, fields)
            elif isinstance(target, types.ModuleType):
                check_identity(ctx, rng, target, resolve(target.__name__)[1] is target, fields)

    bad = ['', '.', '..', ':', 'os:', ':path', 'os.', 'os..path', 'os:path:join', 'os path', 'nowhere', 'nowhere.at.all', 'os.nothing',
        'os:nothing', 'os.path.join.nothing', 'json.decoder:JSONDecoder.nothing', 'nowhere:x', '\0', 'os\0.path', u'\u00e9t\u00e9',
        u'os.\u00e9t\u00e9', 'a' * 300, 'os:path.', '1', '1.2', name + '.nothing', name + '.mod.nothing', name + ':mod.nothing',
        name + '.inner.mod.Point.nothing', name + 'x.Point', '-', ' os', 'os ', 'os/path', 'os.path ', '\n', 'os;sys', '__import__("os")']
    bad += [name + '.' + b for b in broken] + [name + '.' + b + '.x' for b in broken] + [name + '.' + b + ':x' for b in broken]
    for path in rng.sample(bad, 12):
        found, target = resolve(path)
        if found:
            raise core.HarnessError('something at %r' % path)
        before = dict(sys.modules)
        check_refused(ctx, path)
        field = rng.choice(fields)
        outcome = attempt(field.unserialize, path)
        ctx.check(outcome.kind == 'error' and [e['token'] for e in outcome.value.errors] == ['import'] and repr(path) in
            outcome.value.errors[0]['message'], 'a path which leads nowhere is not refused', path=path, observed=outcome)
    for value in (1, [], {'a': 1}, object(), len):
        outcome = attempt(rng.choice(fields).unserialize, value)
        ctx.check(outcome.kind == 'ok' and outcome.value is value, 'an object given as itself is not accepted', value=value,
            observed=outcome)

    whole = F.Structure({'one': F.Object(), 'many': F.Sequence(F.Object()), 'named': F.Map(F.Object()), 'pair': F.Tuple((F.Object(), F.Integer()))})
    pool = [resolve('%s.%s' % (m, p))[1] for m, p, must in todo if must]
    a, b, c, d, e = [rng.choice(pool) for _ in range(5)]
    value = {'one': a, 'many': [b, c, b], 'named': {'k': d}, 'pair': (e, 3)}
    form = attempt(whole.serialize, value, rng.choice([None, 'json', 'yaml']) and None)
    back = attempt(whole.unserialize, form.value) if form.kind == 'ok' else form
    ctx.check(back.kind == 'ok' and back.value['one'] is a and [x is y for x, y in zip(back.value['many'], [b, c, b])] == [True] * 3 and
        back.value['named']['k'] is d and back.value['pair'][0] is e, 'objects within containers are not restored', value=value, observed=back)


def definitions(ctx, rng):
    g = gen.Gen(rng, odd=False, p_name=0.3, p_default=0.1)
    for _ in range(3):
        spec = g.spec(rng.choice([0, 0, 1, 2]))
        given = build(spec)
        described = attempt(given.describe)
        if described.kind != 'ok':
            continue
        kinds = sorted(t for t in scheme.Field.types if t not in ('field',))
        allowed = rng.choice([None, None, [given.type], rng.sample(kinds, 2), [given.type] + rng.sample(kinds, 2)])
        handed = allowed if allowed is None or rng.random() < 0.5 else rng.choice([' '.join(allowed), tuple(allowed)])
        field = F.Definition(handed, name='definition')
        detail = {'schema': describe_spec(spec), 'allowed': allowed}
        accepted = allowed is None or given.type in allowed
        before = snapshot(described.value)
        for how, outcome in (('native', attempt(field.process, given, 'inbound', False)), ('serialized', attempt(field.unserialize,
                described.value)), ('instance', attempt(field.unserialize, given)), ('outbound', attempt(field.process, given, 'outbound'))):
            if accepted:
                ctx.check(outcome.kind == 'ok' and isinstance(outcome.value, type(given)), 'a definition is not accepted (%s)' % how,
                    observed=outcome, **detail)
                ctx.check(how == 'serialized' or outcome.value is given, 'a definition is not passed as it is', **detail)
                again = attempt(outcome.value.describe)
                ctx.check(again.kind == 'ok' and without_marks(again.value) == without_marks(described.value),
                    'a restored definition differs (%s)' % how, observed=again, expected=described.value, **detail)
            else:
                ctx.check(outcome.kind == 'error' and [e['token'] for e in outcome.value.errors] == ['invalidfield'],
                    'a definition of another type is not refused (%s)' % how, observed=outcome, **detail)
        ctx.check(snapshot(described.value) == before, 'reading a definition changed its description', **detail)
        written = attempt(field.serialize, given)
        if accepted:
            ctx.check(written.kind == 'ok' and same(written.value, given.describe()), 'a definition is serialized as something else',
                observed=written, **detail)
            restored = field.unserialize(written.value)
            if all_text_keys(written.value) and core.json_native(written.value) is None:
                for format in ('json', 'yaml'):
                    back = attempt(lambda: field.unserialize(field.serialize(given, format), format))
                    ctx.check(back.kind == 'ok' and listed(without_marks(back.value.describe())) == listed(without_marks(described.value)),
                        'a definition does not survive %s' % format, observed=back, **detail)
                ctx.count('definition_texts')
            if faithful(spec):
                for value in inputs(rng, spec, 3):
                    a, b = attempt(given.process, value, 'inbound', True), attempt(restored.process, value, 'inbound', True)
                    ctx.check(core.same_outcome(a, b), 'a restored definition behaves differently', value=value, original=a, restored=b,
                        **detail)
            ctx.seen('definition', detail['schema'], repr(allowed))
            ctx.count('definitions')
        else:
            ctx.check(written.kind == 'error', 'a definition of another type is serialized', observed=written, **detail)
            ctx.count('definitions_refused')
    field = F.Definition()
    for bad in (1, 'nothing', '', [], {}, {'fieldtype': 'nothing'}, {'fieldtype': None}, {'fieldtype': []}, {'name': 'x'}, True, b'x', object(),
            {'fieldtype': 'integer', 'minimum': 'x'}, {'fieldtype': 'text', 'min_length': -1}, {'fieldtype': 'sequence', 'item': 3},
            {'fieldtype': 'structure', 'structure': {'a': 3}}, {'fieldtype': 'tuple'}, {'fieldtype': 'map', 'value': {'fieldtype': 'nothing'}},
            {'fieldtype': 'enumeration'}, {'fieldtype': 'union', 'fields': []}, [('fieldtype', 'integer'), 3], 2.5,
            {'fieldtype': 'date', 'minimum': 'never'}, {'fieldtype': 'structure', 'structure': None}):
        before = snapshot(bad)
        outcome = attempt(field.unserialize, bad)
        ctx.check(outcome.kind == 'error' and [e['token'] for e in outcome.value.errors] == ['invalid'],
            'what describes no field is not refused', value=bad, observed=outcome)
        native = attempt(field.process, bad, 'inbound', False)
        ctx.check(native.kind == 'error' and [e['token'] for e in native.value.errors] == ['invalid'],
            'what is no field is accepted as a definition', value=bad, observed=native)
        ctx.check(snapshot(bad) == before, 'refusing changed the description', value=bad)
    for bad, kind in ((['nothing'], ValueError), ('text nothing', ValueError), (5, TypeError), ({'text': 1}, TypeError)):
        outcome = attempt(F.Definition, bad)
        ctx.check(outcome.kind == 'other' and type(outcome.value) is kind, 'a malformed list of allowed fields is accepted', given=bad,
            observed=outcome)


def faithful(spec):
    """Whether the description of the field says everything it does."""
    from vmon.build import walk
    for node in walk(spec):
        if node['t'] in ('field', 'binary', 'undef', 'union') or node.get('default') is not None or node.get('pre') or node.get('errors') or (
                node.get('constant') is not None or node.get('pattern')):
            return False
        if not all(isinstance(k, str) for k in node.get('required_keys') or ()):
            return False
    return True


def without_marks(description):
    """A description without the mark of descriptions made in full, which reconstruction keeps."""
    if isinstance(description, dict):
        return dict((k, without_marks(v)) for k, v in description.items() if k != 'structural')
    if isinstance(description, (list, tuple)):
        return [without_marks(v) for v in description]
    return description


def made_error(rng, depth=2):
    """An error tree made by hand."""
    def entries():
        found = []
        for _ in range(rng.randrange(1, 4)):
            found.append(rng.choice([{'token': 'invalid', 'title': 'invalid value', 'message': gen.random_text(rng)}, {'token': 'custom',
                'message': 'x', 'extra': [1, None]}, 'only a message', {'token': gen.random_text(rng)}]))
        return found
    cls = rng.choice([scheme.ValidationError, StructuralError, scheme.exceptions.InvalidTypeError])
    if depth and rng.random() < 0.6:
        if rng.random() < 0.5:
            structure = dict((k, made_error(rng, depth - 1)) for k in rng.sample(gen.KEYS, rng.randrange(1, 4)))
        else:
            structure = [rng.choice([None, made_error(rng, depth - 1)]) for _ in range(rng.randrange(1, 4))]
        return cls(structure=structure)
    return cls(*entries())


def errors(ctx, rng):
    field = rng.choice([F.Error(), F.Error(name='report'), F.Error(nonnull=True)])
    found = [made_error(rng) for _ in range(3)]
    spec = gen.Gen(rng, p_required=0.5, p_bounds=0.7, odd=False).spec(rng.choice([0, 1, 2]))
    real = build(spec)
    for value in [gen.mutate(rng, v, 3) for v in inputs(rng, spec, 4)]:
        outcome = attempt(real.process, value, 'inbound', True)
        if outcome.kind == 'error':
            found.append(outcome.value)
    for error in found:
        form = error.serialize()
        detail = {'report': form}
        before = snapshot(form)
        native = attempt(field.process, error, 'inbound', False)
        ctx.check(native.kind == 'ok' and native.value is error, 'a report is not accepted as it is', observed=native, **detail)
        also = attempt(field.process, error, 'inbound', True)
        ctx.check(also.kind == 'ok' and also.value is error, 'a report given as itself is not accepted', observed=also, **detail)
        written = attempt(field.serialize, error)
        ctx.check(written.kind == 'ok' and listed(written.value) == listed(form), 'a report is serialized as something else', observed=written,
            **detail)
        for given in (form, list(form)):
            back = attempt(field.unserialize, given)
            ctx.check(back.kind == 'ok' and isinstance(back.value, StructuralError) and listed(back.value.serialize()) == listed(form),
                'a report is not restored', observed=back, **detail)
            ctx.check(bool(back.value.substantive) == bool(error.substantive), 'a restored report lost its content', **detail)
            again = attempt(field.serialize, back.value)
            ctx.check(again.kind == 'ok' and listed(again.value) == listed(form), 'a restored report is serialized differently',
                observed=again, **detail)
            ctx.check(type(str(back.value)) is str, 'a restored report cannot be shown', **detail)
        ctx.check(snapshot(form) == before, 'a serialized report was changed', **detail)
        if all_text_keys(form):
            for format in ('json', 'yaml'):
                back = attempt(lambda: field.unserialize(field.serialize(error, format), format))
                ctx.check(back.kind == 'ok' and listed(back.value.serialize()) == listed(form), 'a report does not survive %s' % format,
                    observed=back, **detail)
            whole = F.Structure({'one': F.Error(), 'many': F.Sequence(F.Error())})
            back = attempt(lambda: whole.unserialize(whole.serialize({'one': error, 'many': [error, found[0]]}, 'json'), 'json'))
            ctx.check(back.kind == 'ok' and listed(back.value['one'].serialize()) == listed(form) and [listed(e.serialize()) for e in
                back.value['many']] == [listed(form), listed(found[0].serialize())], 'reports within containers are not restored',
                observed=back, **detail) if all_text_keys(found[0].serialize()) else None
        ctx.count('reports')
        ctx.seen('report', repr(form))
    for bad in (1, 'text', '', [], [1], [1, 2], [None, 3], ['text', None], [[], 'text'], [1, None], {}, {'a': 1}, {'a': 1, 'b': 2}, True, b'ab',
            object(), (1, 2, 3), [None, None, None], ValueError('x'), 'ab', [{}, None], [{'message': 'x'}, None]):
        outcome = attempt(field.unserialize, bad)
        ctx.check(outcome.kind == 'error' and [e['token'] for e in outcome.value.errors] == ['invalid'],
            'what is no report is accepted', value=bad, observed=outcome)
        native = attempt(field.process, bad, 'inbound', False)
        ctx.check(native.kind == 'error' and [e['token'] for e in native.value.errors] == ['invalid'],
            'what is no report is accepted natively', value=bad, observed=native)
        ctx.count('reports_refused')


def located(ctx, rng):
    """What is refused is reported at its place, by its field, with its value."""
    definition = F.Definition('text integer')
    fields = {'object': F.Object(), 'definition': F.Definition(), 'limited': definition, 'error': F.Error(), 'surrogate': F.Surrogate(),
        'named': F.Surrogate(['collections.abc'])}
    wrong = {'object': ['no.such.module', 'os.nothing'], 'definition': [5, 'no', {'fieldtype': 'no'}, []],
        'limited': [F.Boolean(), {'fieldtype': 'boolean'}, 7], 'error': [5, 'x', [1], {}], 'surrogate': [5, 'x', []],
        'named': [scheme.surrogate({'a': 1}), 6]}
    unwritable = {'object': [4, object(), 2.5, lambda: None, [], {}], 'definition': [5, 'no', {}], 'limited': [F.Boolean(), 7], 'error': [5, 'x', ValueError('x')],
        'surrogate': [5, 'x', []], 'named': [scheme.surrogate({'a': 1}), 6]}
    for kind, field in fields.items():
        value = rng.choice(wrong[kind])
        name = rng.choice([None, 'whole'])
        key = rng.choice(['a', 'key', '\u00e9'])
        shape = rng.randrange(4)
        if shape == 0:
            schema, given, path = F.Structure({key: field}, name=name), {key: value}, '(structure).%s' % key
        elif shape == 1:
            schema, given, path = F.Sequence(field, name=name), [None, value], '(sequence)[1]'
        elif shape == 2:
            schema, given, path = F.Map(F.Tuple((F.Text(), field)), name=name), {key: ('t', value)}, '(map)[%s][1]' % key
        else:
            schema, given, path = field.clone(name=name), value, '(%s)' % field.type
        if name:
            path = name + path[path.index(')') + 1:]
        for phase, serialized in (('inbound', True), ('inbound', False), ('outbound', True), ('outbound', False)):
            if kind == 'object' and not serialized:
                continue
            if phase == 'outbound':
                value = rng.choice(unwritable[kind])
                given = {key: value} if shape == 0 else [None, value] if shape == 1 else {key: ('t', value)} if shape == 2 else value
            outcome = attempt(schema.process, given, phase, serialized)
            detail = {'schema': repr(schema), 'value': given, 'phase': phase, 'serialized': serialized, 'observed': outcome}
            ctx.check(outcome.kind == 'error', 'what refers to nothing is accepted', **detail)
            leaf = outcome.value
            while leaf.structure is not None:
                parts = leaf.structure.values() if isinstance(leaf.structure, dict) else leaf.structure
                leaf = [p for p in parts if isinstance(p, StructuralError)][0]
            ctx.check(''.join(leaf.identity) == path, 'a refusal is reported at another place', wanted=path, found=leaf.identity, **detail)
            ctx.check(leaf.field is not None and leaf.field.type == field.type, 'a refusal is reported for another field', found=leaf.field, **detail)
            same_value = leaf.value is value or same(leaf.value, value) or isinstance(leaf.value, scheme.Field)
            ctx.check(same_value, 'a refusal is reported with another value', found=leaf.value, **detail)
            shown = str(outcome.value)
            ctx.check(' error at %s: ' % path in shown, 'the text of a report names another place', text=shown, **detail)
            ctx.count('located')
