"""P13: CSV."""

import csv
import io
import sys

from vmon import core, gen, model
from vmon.build import build, describe_spec, scheme
from vmon.core import attempt, same
from props.common import canonical_values, outbound

SIMPLE = ('integer', 'float', 'decimal', 'boolean', 'date', 'time', 'datetime', 'text', 'text', 'email', 'token', 'uuid',
    'enumeration')
NAMES = ['a', 'b', 'c', 'alpha', 'B', 'two words', 'q"uote', "it's", '\u00e9', 'semi;colon', ' lead', 'tab\tbed', '1']
TEXT = ['', ' ', 'a', ',', 'a,b', '"', '""', '"a"', 'a"b', '\n', 'a\nb', '\r\n', 'a\r\nb', '\r', 'a\rb', '\n\n', ';', '\t', "'",
    'true', 'false', '1', '1.5', '\u00e9', '\u4e2d\u6587', '\U0001f600', '"\n"', ',\n,', '","', '\\', '\\"', '#', '=1+1', 'x' * 200,
    '\u2028', '\x85', '\x0b', '\x0c', '\x1c', 'null', 'None', '-', '\ufeff', 'a\n', '\na', ' "', '" ']


def text(rng):
    if rng.random() < 0.7:
        return ''.join(rng.choice(TEXT) for _ in range(rng.randrange(1, 4)))
    return gen.random_text(rng).replace('\x00', '')


def cell(value):
    if value is None:
        return ''
    if value is True or value is False:
        return 'true' if value else 'false'
    return str(value)


def captured(function, *args, **params):
    out, err = io.StringIO(), io.StringIO()
    saved = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
        outcome = attempt(function, *args, **params)
    finally:
        sys.stdout, sys.stderr = saved
    return outcome, out.getvalue() + err.getvalue()


def case(ctx, rng, index):
    g = gen.Gen(rng, simple=SIMPLE, containers=(), p_required=0, p_default=0, p_ignore_null=0.1, p_nonnull=0.0,
        enumerations='text', texts=text, p_ignored=0.0, p_name=0.0, p_bounds=0.3)
    names = rng.sample(NAMES, rng.randrange(1, 6))
    members = []
    for name in names:
        member = g.spec(0)
        for option in ('required', 'nonempty', 'nonnull'):
            member.pop(option, None)
        members.append((name, member))
    if rng.random() < 0.3:
        members.append(('nested', {'t': 'structure', 'members': [('x', {'t': 'integer'})]}))
        members.append(('list', {'t': 'sequence', 'item': {'t': 'integer'}}))
    item = {'t': 'structure', 'members': members, 'strict': True}
    spec = {'t': 'sequence', 'item': item}
    if rng.random() < 0.2:
        item['key_order'] = rng.sample([m[0] for m in members], len(members))
    field = build(spec)
    simple = [m[0] for m in members if m[0] not in ('nested', 'list')]

    path, top, wrapped = None, field, spec
    if rng.random() < 0.35:
        path = rng.choice(['rows', 'outer.rows', 'a.b.rows'])
        for key in reversed(path.split('.')):
            wrapped = {'t': 'structure', 'members': [(key, wrapped), ('other', {'t': 'integer'})]}
        top = build(wrapped)

    for _ in range(3):
        rows = []
        for _ in range(rng.choice([0, 1, 2, 5, 12])):
            found = canonical_values(rng, item, 1, texts=text, null=0.15, odd=True, extra=False)
            rows.extend(v for v in found if v is not None)
        forms = [outbound(item, row) for row in rows]
        style = rng.randrange(4)
        params, columns = {}, sorted(simple)
        if style == 1:
            columns = rng.sample(simple, rng.randrange(1, len(simple) + 1))
            params['columns'] = list(columns)
        elif style == 2:
            columns = rng.sample(simple, rng.randrange(1, len(simple) + 1))
            params['columns'] = ','.join(columns)
        elif style == 3:
            columns = rng.sample(simple, rng.randrange(1, len(simple) + 1))
            params['columns'] = columns[:1] + ['unknown', 'nested', 'list'] + columns[1:]
        value = rows
        if path:
            params['path'] = path
            for key in reversed(path.split('.')):
                value = {key: value, 'other': 3}
        detail = {'schema': describe_spec(spec), 'rows': rows, 'params': params}
        text_, printed = captured(top.serialize, value, 'csv', **params)
        ctx.check(text_.kind == 'ok' and isinstance(text_.value, str), 'writing CSV failed', observed=text_, **detail)
        ctx.check(printed == '', 'something was written to the console', printed=printed, **detail)
        parsed = attempt(lambda: list(csv.reader(io.StringIO(text_.value, newline=''), strict=True)))
        wanted = [columns] + [[cell(form.get(c)) for c in columns] for form in forms]
        ctx.check(parsed.kind == 'ok' and parsed.value == wanted, 'a CSV reader finds other rows', text=text_.value,
            observed=parsed, expected=wanted, **detail)

        back, printed = captured(field.unserialize, text_.value, 'csv')
        expected = []
        for row, form in zip(rows, forms):
            expected.append(dict((c, row[c]) for c in columns if form.get(c) not in (None, '')))
        ctx.check(back.kind == 'ok' and same(back.value, expected), 'other rows are read back', text=text_.value,
            observed=back, expected=expected, **detail)
        ctx.check(printed == '', 'something was written to the console', printed=printed, **detail)
        read, printed = captured(scheme.formats.Csv.unserialize, text_.value, field)
        plain = [dict((c, form[c]) for c in columns if form.get(c) not in (None, '')) for form in forms]
        ctx.check(read.kind == 'ok' and same(read.value, plain), 'the format reads other data than was written', text=text_.value,
            observed=read, expected=plain, **detail)
        ctx.seen(describe_spec(spec), rows, sorted(params))
        ctx.count('rows', len(rows))
        ctx.count('documents')

        # a document written by another tool: minimal quoting, other line ends
        other = io.StringIO()
        writer = csv.writer(other, quoting=csv.QUOTE_MINIMAL, lineterminator=rng.choice(['\n', '\r\n']))
        writer.writerows(wanted)
        if all(any(r) and not any('\r' in c for c in r) for r in wanted):
            back, printed = captured(field.unserialize, other.getvalue(), 'csv')
            ctx.check(back.kind == 'ok' and same(back.value, expected), 'an equivalent document is read differently',
                text=other.getvalue(), observed=back, expected=expected, **detail)
    refusals(ctx, rng, field, top, path, rows)
    ctx.sample(text_.value)


def refusals(ctx, rng, field, top, path, rows):
    """What is no table under the schema is refused, when it is written and when it is read."""
    F, Csv = scheme.fields, scheme.formats.Csv
    table = F.Sequence(F.Structure({'a': F.Text(), 'n': F.Integer(), 's': F.Sequence(F.Text())}))
    around = F.Structure({'rows': table, 'inner': F.Structure({'rows': table})})
    good = [{'a': 'x', 'n': 1}]
    cases = [
        (table, {'a': 'x'}, {}), (table, 'text', {}), (table, 3, {}), (F.Structure({'a': F.Text()}), good, {}), (F.Sequence(F.Text()), ['a'], {}),
        (F.Map(F.Text()), good, {}), (around, {'rows': good}, {'path': 'other'}), (around, {'inner': {}}, {'path': 'rows'}),
        (around, {'inner': {}}, {'path': 'inner.rows'}), (around, {'rows': good}, {'path': 'inner.rows'}), (around, {'rows': good}, {'path': 'rows.a'}),
        (around, {'rows': good}, {}), (around, {'inner': {'rows': {'a': 'x'}}}, {'path': 'inner.rows'}),
        (around, {'inner': {'other': good}}, {'path': 'inner.other'}),
    ]
    schema, value, params = rng.choice(cases)
    outcome, printed = captured(Csv.serialize, value, schema, **params)
    ctx.check(outcome.kind != 'ok', 'what is no table is written', value=value, params=params, schema=repr(schema), observed=outcome)
    fine, printed = captured(Csv.serialize, {'rows': good, 'inner': {'rows': good}}, around, path=rng.choice(['rows', 'inner.rows']))
    ctx.check(fine.kind == 'ok' and fine.value == '"a","n"\r\n"x","1"\r\n', 'a table within is not written', observed=fine)
    text = rng.choice(['a,n\r\nx\r\n', '"a","n","unknown"\r\n"x","1","2"\r\n', '"a","s"\r\n"x","y"\r\n', 'a,n\r\nx,notanumber\r\n', 'n\r\n1.5\r\n',
        'a,,n\r\nx,y,1\r\n'])
    outcome, printed = captured(Csv.unserialize, text, table)
    ctx.check(outcome.kind != 'ok', 'a document which does not fit the schema is read', text=text, observed=outcome)
    for schema in (F.Structure({'a': F.Text()}), F.Sequence(F.Text()), F.Map(F.Text()), None):
        outcome, printed = captured(Csv.unserialize, 'a\r\nx\r\n', schema)
        ctx.check(outcome.kind != 'ok', 'a document is read with a schema which describes no table', schema=repr(schema), observed=outcome)
    ctx.count('refusals')
