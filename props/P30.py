"""P30: custom field types, errors and formats are isolated from each other."""

import copy
import json
import os
import tempfile
import shutil

from vmon import core, gen, model
from vmon.build import build, describe_spec
from vmon.core import attempt, error_view, same, scheme, snapshot
from vmon.oracle import difference
from props.common import PHASES, inputs
from scheme.field import FieldError
from scheme.format import Format
import scheme.formats as formats

F = scheme.fields
counter = [0]
STANDARD = ['json', 'yaml', 'xml', 'csv', 'structuredtext', 'urlencoded']


def fresh(prefix):
    counter[0] += 1
    return '%s%d' % (prefix, counter[0])


class Pool(object):
    """Fields which no customisation is about, and all they did before."""

    def __init__(self, rng):
        self.entries = []
        for t in rng.sample([t for t in gen.ALL_SIMPLE if t != 'field'], 4) + [None, None]:
            options = dict(p_errors=0.2, p_name=0.5, odd=False)
            spec = gen.Gen(rng, simple=(t,), **options).spec(0) if t else gen.Gen(rng, **options).spec(rng.choice([1, 2]))
            values = inputs(rng, spec, 2) + [gen.mutate(rng, v, 2) for v in inputs(rng, spec, 2, False)]
            calls = [(v, p, s) for v in values for p, s in rng.sample(PHASES, 2)]
            self.add(spec, build(spec), calls)

    def add(self, spec, field, calls):
        entry = [spec, field, calls, None]
        entry[3] = self.observe(entry)
        self.entries.append(entry)

    def observe(self, entry):
        spec, field, calls, _ = entry
        seen = [('repr', repr(field)), ('type', field.type), ('describe', snapshot(attempt(field.describe).value) if attempt(
            field.describe).kind == 'ok' else 'refused')]
        seen += [('errors', sorted((token, e.token, e.title, e.message, e.show_field, e.show_value) for token, e in field.errors.items())),
            ('parameters', sorted((k, repr(v)) for k, v in field.parameters.items()))]
        for value, phase, serialized in calls:
            outcome = attempt(field.process, value, phase, serialized)
            if outcome.kind == 'error':
                text = str(outcome.value)
                seen.append(('error', error_view(outcome.value), text if 'traceback' not in text.lower() and ' at 0x' not in text else ''))
            elif outcome.kind == 'ok':
                seen.append(('ok', outcome.value))
            else:
                seen.append(('other', type(outcome.value).__name__))
        return seen

    def unchanged(self, ctx, after):
        for entry in self.entries:
            again = self.observe(entry)
            for (what, *before), (now_what, *now) in zip(entry[3], again):
                ctx.check(what == now_what and all(same(a, b) for a, b in zip(before, now)), 'a customisation changed another field (%s)' % what,
                    schema=describe_spec(entry[0]) if entry[0] else repr(entry[1]), customisation=after, before=before, after=now)
            ctx.count('fields_unchanged')


def case(ctx, rng, index):
    types = dict(scheme.Field.types)
    registered = dict(Format.formats)
    folder = tempfile.mkdtemp(prefix='vmon-P30-')
    try:
        pool = Pool(rng)
        world = World(ctx, rng, pool, folder)
        for _ in range(rng.randrange(5, 9)):
            step = rng.choice(world.steps)
            what = step()
            pool.unchanged(ctx, what)
            world.all_formats(what)
            ctx.seen(what)
            ctx.count('customisations')
            ctx.count(step.__name__)
        ctx.sample(what)
    finally:
        shutil.rmtree(folder)
        for registry, before in ((scheme.Field.types, types), (Format.formats, registered)):
            registry.clear()
            registry.update(before)


class World(object):
    def __init__(self, ctx, rng, pool, folder):
        self.ctx, self.rng, self.pool, self.folder = ctx, rng, pool, folder
        self.classes = []
        self.formats = []
        self.steps = [self.subclass, self.subclass, self.subclass_of_custom, self.redefine, self.own_errors, self.own_attributes, self.own_format,
            self.own_format, self.mixed, self.failing]

    # field types ------------------------------------------------------------------------------

    def declare(self, base, name, errors, parameters, more=None):
        namespace = {'__module__': __name__}
        if errors:
            namespace['errors'] = list(errors)
        if parameters:
            namespace['parameters'] = dict(parameters)
        namespace.update(more or {})
        return type(base)(name, (base,), namespace)

    def message(self):
        return self.rng.choice(['%(field)s ', '%(field)s ', 'value ', '']) + self.rng.choice(['is not to our taste', 'has to be %(limit)s or so', u'n\u00e4', '100%% wrong'])

    def new_type(self, base, inherited=None):
        rng, ctx = self.rng, self.ctx
        name = fresh(rng.choice(['Custom', 'Special', 'Ours']))
        limit = rng.randrange(3, 30)
        errors = {'limit': FieldError('limit', rng.choice(['over limit', 'too much', 'x']), self.message(), rng.random() < 0.6, rng.random() < 0.6)}
        if rng.random() < 0.5:
            errors['invalid'] = FieldError('invalid', 'bad ' + name, rng.choice(['%(field)s is bad', 'bad', '100%% bad']), rng.random() < 0.5, rng.random() < 0.5)
        if rng.random() < 0.5:
            errors['nonnull'] = FieldError('nonnull', 'nothing', '%(field)s is nothing')

        def __init__(self, limit=limit, flavour=None, **params):
            base.__init__(self, **params)
            self.limit = limit
            self.flavour = flavour

        def _validate_value(self, value, *rest, **more):
            base._validate_value(self, value, *rest, **more)
            if abs(value) > self.limit:
                ancestry = rest[0] if rest else more.get('ancestry')
                raise scheme.ValidationError(identity=ancestry, field=self, value=value).construct('limit', limit=self.limit)

        cls = self.declare(base, name, errors.values(), {'limit': limit, 'flavour': None}, {'__init__': __init__,
            '_validate_value': _validate_value})
        wanted = dict(inherited or base_errors(base))
        wanted.update(errors)
        entry = {'cls': cls, 'name': name, 'errors': wanted, 'limit': limit, 'base': base}
        self.check_type(entry)
        return entry

    def check_type(self, entry, **instance):
        """A custom type does what was declared."""
        rng, ctx = self.rng, self.ctx
        cls, wanted, limit = entry['cls'], entry['errors'], entry['limit']
        ctx.check(scheme.Field.types.get(entry['name'].lower()) is cls and cls.type == entry['name'].lower(), 'a type is not known by its name',
            type=entry['name'])
        title = rng.choice([None, 'number'])
        field = cls(name=title, **instance)
        nonnull = cls(nonnull=True, name=title)
        for value, token, subject in ((limit, None, field), (-limit, None, field), (limit + 1, 'limit', field), ('x', 'invalid', field),
                (None, None, field), (None, 'nonnull', nonnull)):
            outcome = attempt(subject.process, value, rng.choice(['inbound', 'outbound']))
            detail = {'type': entry['name'], 'value': value, 'expected': token, 'observed': outcome}
            if token is None:
                ctx.check(outcome.kind == 'ok' and same(outcome.value, value), 'a custom type refuses a valid value', **detail)
                continue
            ctx.check(outcome.kind == 'error' and len(outcome.value.errors) == 1, 'a custom type accepts an invalid value', **detail)
            said = outcome.value.errors[0]
            definition = wanted[token]
            message = definition.message % {'field': title or 'unknown-field', 'limit': limit}
            ctx.check(same(said, {'token': token, 'title': definition.title, 'message': message}), 'a custom type reports differently',
                wanted=message, title=definition.title, **detail)
            text = str(outcome.value)
            head = '%s error at %s: %s' % (definition.title.capitalize(), title or '(%s)' % cls.type, message)
            ctx.check(head in text, 'the report of a custom type reads differently', wanted=head, **detail)
            ctx.check(('Field: %s' % entry['name'] in text) == bool(definition.show_field), 'the field is shown against its declaration', **detail)
            ctx.check(('Value: %r' % (value,) in text) == bool(definition.show_value and value is not None),
                'the value is shown against its declaration', **detail)
            ctx.count('reports_of_custom_types')
        other = rng.choice([limit + 5, 1])
        for given, described in (({}, {}), ({'limit': limit}, {}), ({'limit': other}, {'limit': other} if other != limit else {}),
                ({'flavour': 'sweet'}, {'flavour': 'sweet'})):
            made = cls(**given)
            shown = made.describe()
            ctx.check(same(dict(described, fieldtype=cls.type), shown), 'a custom type is described differently', expected=described, observed=shown)
            back = attempt(scheme.Field.reconstruct, json.loads(json.dumps(shown)))
            ctx.check(back.kind == 'ok' and type(back.value) is cls and same(back.value.describe(), shown) and back.value.limit == made.limit,
                'a custom type is not reconstructed', observed=back, description=shown)
        inside = F.Structure({'a': cls(), 'b': F.Sequence(cls(limit=2))})
        outcome = attempt(inside.process, {'a': limit + 1, 'b': [1, 3]})
        ctx.check(outcome.kind == 'error' and same(outcome.value.serialize()[1], {'a': [report(wanted['limit'], 'a', limit)], 'b': [None, [report(
            wanted['limit'], 'unknown-field', 2)]]}), 'a custom type within containers reports differently', observed=outcome)
        verbose = attempt(cls().describe, verbose=True)
        ctx.check(verbose.kind == 'ok' and verbose.value.get('limit') == limit, 'a parameter of a custom type is missing', observed=verbose)

    def subclass(self):
        base = F.Integer
        entry = self.new_type(base)
        self.classes.append(entry)
        return 'class %s(%s) with errors %s' % (entry['name'], base.__name__, sorted(entry['errors']))

    def subclass_of_custom(self):
        if not self.classes:
            return self.subclass()
        parent = self.rng.choice(self.classes)
        rng = self.rng
        name = fresh('Nested')
        own = {}
        if rng.random() < 0.7:
            own['limit'] = FieldError('limit', 'nested limit', '%(field)s is over %(limit)s for ' + name, rng.random() < 0.5, rng.random() < 0.5)
        cls = self.declare(parent['cls'], name, own.values(), {'extra': 5} if rng.random() < 0.5 else None)
        entry = dict(parent, cls=cls, name=name, errors=dict(parent['errors'], **own), base=parent['cls'])
        self.check_type(entry)
        self.check_type(parent)
        self.classes.append(entry)
        return 'class %s(%s)' % (name, parent['name'])

    def redefine(self):
        """A type of the same name replaces the type, though not what was made of it."""
        rng, ctx = self.rng, self.ctx
        if self.classes and rng.random() < 0.5:
            entry = rng.choice(self.classes)
            old = entry['cls']
            held = old(limit=2)
            before = held.describe()
            cls = self.declare(old, entry['name'], [], None)
            entry['cls'] = cls
            self.check_type(entry)
            ctx.check(type(held) is old and same(held.describe(), before), 'redefining a type changed its fields', type=entry['name'])
            return 'class %s again' % entry['name']
        name = rng.choice(['Integer', 'Text', 'Date', 'Boolean'])
        base = getattr(F, name)
        previous = scheme.Field.types[name.lower()]
        cls = self.declare(base, name, [FieldError('invalid', 'redefined', '%(field)s is redefined')], {'extra': None})
        made = attempt(scheme.Field.reconstruct, {'fieldtype': name.lower(), 'required': True})
        ctx.check(made.kind == 'ok' and type(made.value) is cls and made.value.required is True, 'a name leads to a replaced type',
            observed=made, type=name)
        ctx.check(getattr(F, name) is base and base.type == name.lower(), 'a type was replaced in place', type=name)
        scheme.Field.types[name.lower()] = previous
        return 'class %s(%s)' % (name, name)

    def mixed(self):
        """A type of several bases reports with the errors of all of them, the first winning."""
        rng, ctx = self.rng, self.ctx
        first = self.declare(scheme.Field, fresh('First'), [FieldError('one', 'one', 'first one'), FieldError('both', 'both', 'first both')],
            {'p': 1})
        second = self.declare(scheme.Field, fresh('Second'), [FieldError('two', 'two', 'second two'), FieldError('both', 'both', 'second both')],
            {'p': 2, 'q': 3})
        name = fresh('Mixed')
        cls = type(first)(name, (first, second), {'__module__': __name__, 'errors': [FieldError('own', 'own', 'own')]})
        seen = dict((k, e.message) for k, e in cls.errors.items())
        wanted = dict((k, e.message) for k, e in scheme.Field.errors.items())
        wanted.update(one='first one', both='first both', two='second two', own='own')
        ctx.check(same(seen, wanted) and cls.parameters['p'] == 1 and cls.parameters['q'] == 3, 'errors are inherited otherwise', observed=seen,
            expected=wanted)
        ctx.check('own' not in first.errors and 'own' not in second.errors and 'two' not in first.errors and first.parameters['p'] == 1 and
            second.parameters['p'] == 2 and 'q' not in first.parameters, 'inheriting changed the bases')
        return 'class %s(First, Second)' % name

    # single fields ----------------------------------------------------------------------------

    def failing(self):
        """What goes wrong in the code of a field type comes out unchanged, however deep the field is."""
        rng, ctx = self.rng, self.ctx
        failure = rng.choice([AttributeError, KeyError, TypeError, ValueError, LookupError, ZeroDivisionError, StopIteration, OverflowError])('of the type')
        hook = rng.choice(['_validate_value', '_serialize_value', '_unserialize_value', 'instantiate', 'extract', 'interpolate'])

        def broken(field, *args, **params):
            raise failure
        cls = type(fresh('Broken'), (F.Text,), {hook: broken})
        field, value = cls(), 'x'
        for _ in range(rng.randrange(4)):
            style = rng.randrange(6)
            if style == 0:
                field, value = F.Structure({'b': F.Text(), 'a': field}), {'a': value, 'b': 'y'}
            elif style == 1:
                field, value = F.Structure({'k': {'a': field}}, polymorphic_on='kind'), {'kind': 'k', 'a': value}
            elif style == 2:
                field, value = F.Map(field), {'k': value}
            elif style == 3:
                field, value = F.Sequence(field), [value]
            elif style == 4:
                field, value = F.Tuple((F.Integer(), field)), (1, value)
            elif hook not in ('instantiate', 'extract', 'interpolate'):
                field = F.Union((F.Integer(), field))
        use = {'_validate_value': rng.choice([lambda: field.process(value, 'inbound'), lambda: field.serialize(value), lambda: field.unserialize(value)]),
            '_serialize_value': lambda: field.serialize(value), '_unserialize_value': lambda: field.unserialize(value),
            'instantiate': lambda: field.instantiate(value), 'extract': lambda: field.extract(value),
            'interpolate': lambda: field.interpolate(value, {})}[hook]
        outcome = attempt(use)
        if hook == '_serialize_value' and isinstance(failure, OverflowError):
            found = reports_of(outcome.value) if outcome.kind == 'error' else []
            ctx.check([e['token'] for e in found] == ['overflow'], 'a value which cannot be serialized is not reported', field=repr(field), observed=outcome)
            mine = outcome.value
            while mine.structure is not None:
                parts = mine.structure.values() if isinstance(mine.structure, dict) else mine.structure
                mine = [p for p in parts if isinstance(p, core.StructuralError)][0]
            ctx.check(mine.value == 'x' and isinstance(mine.field, cls) and ''.join(mine.identity) in str(outcome.value) and 'overflow' in
                str(mine), 'the report of a value which cannot be serialized is incomplete', field=repr(field), text=str(outcome.value))
        else:
            ctx.check(outcome.kind == 'other' and outcome.value is failure, 'a failure within a field type comes out otherwise', hook=hook,
                field=repr(field), failure=failure, observed=outcome)
        ctx.count('failing_types')
        return 'a failing %s' % hook

    def own_errors(self):
        """Errors of one field."""
        rng, ctx = self.rng, self.ctx
        make, bad, token = rng.choice([(F.Integer, 'x', 'invalid'), (lambda **p: F.Integer(minimum=3, **p), 1, 'minimum'), (F.Text, 5, 'invalid'),
            (lambda **p: F.Sequence(F.Text(), **p), 5, 'invalid'), (lambda **p: F.Map(F.Text(), **p), 5, 'invalid'),
            (lambda **p: F.Structure({'a': F.Text()}, **p), 5, 'invalid'), (lambda **p: F.Structure({'a': F.Text(required=True)}, **p), {}, 'required'),
            (lambda **p: F.Structure({'a': F.Text()}, **p), {'b': 1}, 'unknown'), (lambda **p: F.Text(nonnull=True, **p), None, 'nonnull'),
            (lambda **p: F.Enumeration(['a'], **p), 'b', 'invalid'), (lambda **p: F.Tuple((F.Text(),), **p), (), 'length')])
        plain = make()
        usual = plain.errors[token]
        error = FieldError(token, 'our title', '%(field)s: ours', rng.random() < 0.5, rng.random() < 0.5)
        extra = FieldError('unrelated', 'unrelated', 'unrelated')
        given = rng.choice([[error, extra], (extra, error), {token: error, 'unrelated': extra}])
        before = snapshot(sorted(given)) if isinstance(given, dict) else snapshot([id(e) for e in given])
        field = make(errors=given, name='ours')
        ctx.check(before == (snapshot(sorted(given)) if isinstance(given, dict) else snapshot([id(e) for e in given])),
            'declaring errors changed the declarations')
        neighbour = make(name='theirs')
        clone = field.clone()
        again = field.clone(errors=[FieldError(token, 'another title', 'another')])
        for subject, title, message in ((field, 'our title', 'ours'), (clone, 'our title', 'ours'), (again, 'another title', 'another'),
                (neighbour, usual.title, None), (plain, usual.title, None), (field, 'our title', 'ours')):
            outcome = attempt(subject.process, bad, 'inbound')
            found = reports_of(outcome.value) if outcome.kind == 'error' else []
            mine = [e for e in found if e['token'] == token]
            ctx.check(mine and all(e['title'] == title and (message is None) == ('our' not in e['message'] and 'another' not in e['message']) for e in
                mine), 'errors of one field are reported otherwise', field=repr(subject), expected=title, observed=outcome)
            if title == 'our title' and token in outcome.value.errors[0].values() if outcome.value.errors else False:
                text = str(outcome.value)
                ctx.check(('Field: %r' % subject in text) == bool(error.show_field), 'the field is shown against its declaration', text=text,
                    shown=error.show_field)
                ctx.check(('Value: %r' % (bad,) in text) == bool(error.show_value and bad is not None), 'the value is shown against its declaration',
                    text=text, shown=error.show_value)
                ctx.count('own_error_texts')
        ctx.check(plain.errors[token] is usual and 'unrelated' not in plain.errors and 'unrelated' not in type(plain).errors,
            'errors of one field are those of another', field=repr(plain))
        ctx.count('own_error_reports')
        return 'errors of one %s: %s' % (type(plain).__name__, token)

    def own_attributes(self):
        """Aspects and attributes of one field."""
        rng, ctx = self.rng, self.ctx
        shared = {'stage': 1, 'audience': ['a']}
        before = snapshot(shared)
        first = F.Text(aspects=shared, stage=2, colour='red')
        second = F.Integer(aspects=shared)
        third = F.Structure({'a': F.Text(aspects=shared, weight=3)}, aspects=shared)
        ctx.check(snapshot(shared) == before, 'making a field changed the aspects given', before=before, after=shared)
        ctx.check(first.stage == 2 and first.colour == 'red' and second.stage == 1 and second.colour is None and third.weight is None and
            third.structure['a'].weight == 3 and first.weight is None, 'aspects of one field are those of another',
            fields=[f.describe() for f in (first, second, third)])
        first.aspects['later'] = 5
        ctx.check(second.later is None and third.later is None and F.Text().later is None and 'later' not in shared,
            'an aspect added to one field is one of another')
        clone = first.clone(colour='blue')
        ctx.check(clone.colour == 'blue' and first.colour == 'red' and clone.stage == 2, 'an aspect of a clone is one of the original')
        clone.aspects['stage'] = 9
        ctx.check(first.stage == 2 and shared['stage'] == 1, 'an aspect of a clone is one of the original')
        return 'aspects of one field'

    # formats ----------------------------------------------------------------------------------

    def own_format(self):
        rng, ctx = self.rng, self.ctx
        parent = rng.choice([Format, Format, formats.Json] + [f['cls'] for f in self.formats])
        name = fresh('format')
        extensions = rng.choice([None, ['.%s' % fresh('x')], ['.%s' % fresh('y'), '.%s' % fresh('z')], ['.%s' % fresh('w')] * 2])
        mimetype = rng.choice([None, 'application/x-%s' % fresh('m')])
        prefix = fresh('prefix') + ':'
        earlier = rng.choice(self.formats) if self.formats and rng.random() < 0.4 else None
        if earlier:
            # the most recent definition of a name is the one in use
            what = rng.choice(['name', 'extensions', 'mimetype'])
            if what == 'name' and earlier['name']:
                name, earlier['name'] = earlier['name'], None
            elif what == 'extensions' and earlier['extensions']:
                extensions = [earlier['extensions'].pop()] + (extensions or [])
            elif what == 'mimetype' and earlier['mimetype']:
                mimetype, earlier['mimetype'] = earlier['mimetype'], None
            else:
                earlier = None
            ctx.count('names_taken_over', 1 if earlier else 0)

        class Namespace(object):
            @classmethod
            def serialize(cls, value, schema=None, **params):
                calls.append(('serialize', schema, params))
                return prefix + json.dumps(value)

            @classmethod
            def unserialize(cls, value, schema=None, **params):
                calls.append(('unserialize', schema, params))
                if not value.startswith(prefix):
                    raise ValueError(value)
                return json.loads(value[len(prefix):])
        calls = []
        namespace = dict((k, Namespace.__dict__[k]) for k in ('serialize', 'unserialize'))
        namespace.update(__module__=__name__, name=name, extensions=extensions, mimetype=mimetype)
        before = snapshot([extensions, mimetype])
        cls = type(Format)(fresh('Format'), (parent,), namespace)
        ctx.check(before == snapshot([extensions, mimetype]), 'declaring a format changed the declaration')
        self.formats.append({'cls': cls, 'name': name, 'extensions': sorted(set(extensions or [])), 'mimetype': mimetype, 'prefix': prefix, 'calls': calls})
        return 'format %s of %s with %s, %s' % (name, parent.__name__, extensions, mimetype)

    def all_formats(self, after):
        rng, ctx = self.rng, self.ctx
        value = {'a': rng.choice(['text', u'n\u00e4', '']), 'b': rng.randrange(-5, 500)}
        schema = F.Structure({'a': F.Text(), 'b': F.Integer()})
        for entry in rng.sample(self.formats, min(3, len(self.formats))):
            wanted = entry['prefix'] + json.dumps(value)
            names = [entry['cls']] + ([entry['name']] if entry['name'] else []) + entry['extensions'] + ([entry['mimetype']] if entry['mimetype'] else [])
            for name in names:
                detail = {'format': name, 'value': value, 'after': after}
                del entry['calls'][:]
                params = rng.choice([{}, {'depth': 3}])
                text = attempt(schema.serialize, value, name, **params)
                ctx.check(text.kind == 'ok' and text.value.startswith(entry['prefix']) and json.loads(text.value[len(entry['prefix']):]) == value,
                    'a format is not used by its name', observed=text, **detail)
                back = attempt(schema.unserialize, text.value, name, **params)
                ctx.check(back.kind == 'ok' and same(back.value, value), 'what a format wrote is not read by it', observed=back, **detail)
                ctx.check(len(entry['calls']) == 2 and all(c[1] is schema and c[2] == params for c in entry['calls']),
                    'a format is not given the schema or the parameters', observed=entry['calls'], **detail)
                raw = attempt(Format.serialize, value, name)
                ctx.check(raw.kind == 'ok' and same(raw.value, wanted), 'a format is not used by its name', observed=raw, **detail)
                unraw = attempt(Format.unserialize, wanted, name)
                ctx.check(unraw.kind == 'ok' and same(unraw.value, value), 'a format is not used by its name', observed=unraw, **detail)
                ctx.count('custom_format_uses')
            for extension in entry['extensions'] + ['.none']:
                path = os.path.join(self.folder, 'file' + (extension.upper() if rng.random() < 0.3 else extension))
                known = extension != '.none'
                wrote = attempt(schema.write, path, value) if known else attempt(schema.write, path, value, entry['cls'])
                read = attempt(schema.read, path) if known else attempt(schema.read, path, entry['mimetype'] or entry['cls'])
                ctx.check(wrote.kind == 'ok' and open(path).read().startswith(entry['prefix']) and read.kind == 'ok' and same(read.value, value),
                    'a file is not of the format of its extension', path=os.path.basename(path), wrote=wrote, read=read, after=after)
                direct = attempt(entry['cls'].read, path)
                ctx.check(direct.kind == 'ok' and same(direct.value, value), 'a format does not read its file', observed=direct)
                os.remove(path)
        for name in rng.sample(STANDARD, 2):
            text = attempt(schema.serialize, value, name)
            back = attempt(schema.unserialize, text.value, name) if text.kind == 'ok' else text
            ctx.check(text.kind == 'ok' and (same(back.value, value) if back.kind == 'ok' and name in ('json', 'yaml', 'urlencoded') and
                value['a'] else back.kind == 'ok') and not text.value.startswith('prefix') if name != 'csv' else True,
                'a customisation changed the format %s' % name, observed=back, text=text, after=after)
        for name in ('format0', '.nothing', 'application/x-nothing', Format):
            outcome = attempt(schema.serialize, value, name)
            ctx.check(outcome.kind == 'other', 'a format which does not exist is used', format=name, observed=outcome)
            path = os.path.join(self.folder, 'file.nothing')
            for outcome in (attempt(schema.write, path, value), attempt(schema.write, path, value, name)):
                ctx.check(outcome.kind == 'other' and type(outcome.value) is ValueError and not os.path.exists(path),
                    'a file is written in a format which does not exist', format=name, observed=outcome)


def base_errors(cls):
    return dict(cls.errors)


def report(definition, name, limit):
    return {'token': definition.token, 'title': definition.title, 'message': definition.message % {'field': name, 'limit': limit}}


def reports_of(error):
    found = [e for e in error.errors if isinstance(e, dict)]
    structure = error.structure
    parts = structure.values() if isinstance(structure, dict) else structure or ()
    for part in parts:
        if isinstance(part, core.StructuralError):
            found += reports_of(part)
    return found
