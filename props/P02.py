"""P02: date, time and datetime fields."""

import datetime as dt

from vmon import gen
from vmon.build import build, describe_spec
from vmon.oracle import observe
from props.common import PHASES

KINDS = ('date', 'time', 'datetime')
TEXTS = ['2000-02-29', '1900-02-29', '2000-13-01', '2000-00-10', '0001-01-01', '0000-01-01', '9999-12-31',
    '99-01-01', '2000-1-1', ' 2000-01-01', '2000-01-01 ', '2000-01-01\n', '2000/01/01', '20000101', '',
    '2000-01-01T00:00:00Z', '2000-01-01T24:00:00Z', '2000-01-01T23:59:60Z', '2000-01-01T23:59:61Z',
    '2000-01-01T00:00:00', '2000-01-01T00:00:00z', '0001-01-01T00:00:00Z', '9999-12-31T23:59:59Z',
    '2000-01-01T00:00:00.5Z', '2000-01-01 00:00:00Z', '2000-02-30T00:00:00Z', '12:00:00', '24:00:00', '23:59:59',
    '23:59:60', '00:00:00', '1:2:3', '12:00', '12:60:00', ' 12:00:00', '12:00:00Z', '-1:00:00', 'noon',
    '\u0662\u0660\u0660\u0660-01-01']


def offset(rng):
    return dt.timezone(dt.timedelta(minutes=rng.choice(gen.OFFSETS)))


def jitter(rng, value):
    """The value with other sub-second parts or another, aware or naive, spelling."""
    if isinstance(value, dt.datetime):
        value = value.replace(microsecond=rng.choice([0, 0, 1, 999999]))
        style = rng.randrange(4)
        if style == 0:
            return value.replace(tzinfo=None)
        if style == 1:
            return value.replace(tzinfo=offset(rng))
        if style == 2 and value.tzinfo is not None:
            try:
                return value.astimezone(offset(rng))
            except OverflowError:
                return value
        return value
    if isinstance(value, dt.time):
        value = value.replace(microsecond=rng.choice([0, 0, 1, 999999]))
        return value.replace(tzinfo=offset(rng)) if rng.random() < 0.3 else value
    if isinstance(value, dt.date) and rng.random() < 0.4:
        return dt.datetime(value.year, value.month, value.day, *rng.choice([(0, 0), (23, 59, 59, 999999), (12,)]),
            tzinfo=rng.choice([None, None, offset(rng)]))
    return value


def candidates(rng, spec):
    pool = {'date': gen.DATES, 'time': gen.TIMES, 'datetime': gen.DATETIMES}[spec['t']]
    near = {'date': gen.near_date, 'time': gen.near_time, 'datetime': gen.near_datetime}[spec['t']]
    values = []
    for bound in (spec.get('minimum'), spec.get('maximum')):
        if bound is not None:
            for _ in range(6):
                value = jitter(rng, near(rng, bound))
                values.append(value)
                values.append(gen.neighbour(rng, value))
    values += [jitter(rng, v) for v in rng.sample(pool, 6)]
    values += [gen.neighbour(rng, v) for v in rng.sample(pool, 3)]
    values += rng.sample(TEXTS, 10)
    values += [rng.choice(gen.DATES), rng.choice(gen.TIMES), rng.choice(gen.DATETIMES), gen.wild(rng), None]
    return values


def case(ctx, rng, index):
    kind = KINDS[index % 3]
    g = gen.Gen(rng, simple=KINDS, p_bounds=0.85, p_name=0.5, p_default=0)
    spec = g.spec(0, kind)
    if not spec.get('bounds_as_text'):
        for name in ('minimum', 'maximum'):
            bound = spec.get(name)
            if bound is None:
                continue
            if kind == 'datetime':
                style = rng.randrange(3)
                if style == 0:
                    spec[name] = bound.replace(tzinfo=None)
                elif style == 1:
                    try:
                        spec[name] = bound.astimezone(offset(rng))
                    except OverflowError:
                        pass
                if rng.random() < 0.2:
                    spec[name] = spec[name].replace(microsecond=500000)
            elif kind == 'date' and rng.random() < 0.2:
                spec[name] = dt.datetime(bound.year, bound.month, bound.day, 12, 30)
            elif kind == 'time' and rng.random() < 0.2:
                spec[name] = bound.replace(microsecond=500000)
    field = build(spec)
    for value in candidates(rng, spec):
        for phase, serialized in PHASES:
            if observe(ctx, spec, field, value, phase, serialized):
                ctx.seen(describe_spec(spec), value, phase, serialized)
    ctx.sample(describe_spec(spec))
