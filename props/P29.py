"""P29: instants are exact in every local timezone."""

import datetime as dt
import json
import os
import time
import zoneinfo

from vmon import core, gen, model
from vmon.core import attempt, same, scheme
from vmon.oracle import observe
from scheme.timezone import LOCAL, UTC, FixedOffsetTimezone, current_timestamp

F = scheme.fields
EPOCH = dt.datetime(1970, 1, 1)
SECOND = dt.timedelta(seconds=1)
FORMS = ('naive', 'utc', 'offset', 'zone', 'local', 'scheme-utc')
state = {}


def setup(ctx):
    zone = state['zone'] = zoneinfo.ZoneInfo(os.environ['TZ'])
    if time.tzname[0] == os.environ['TZ'] != 'UTC':
        raise core.HarnessError('the system does not know %s' % os.environ['TZ'])
    state['transitions'] = transitions(zone, 1900, 2037)
    state['others'] = [zoneinfo.ZoneInfo(n) for n in ('Europe/Paris', 'America/Los_Angeles', 'Asia/Tokyo', 'Australia/Lord_Howe')]
    ctx.count('transitions_known', len(state['transitions']))
    # the system's two names of local times, if the zone keeps to them
    samples = [dt.datetime(y, m, 1, 12, tzinfo=dt.timezone.utc).astimezone(zone) for y in range(2024, 2036) for m in range(1, 13)]
    state['named'] = set(s.tzname() for s in samples) == set(time.tzname[:1 + bool(time.daylight)]) and (
        set(s.dst() for s in samples) <= {dt.timedelta(0), dt.timedelta(seconds=time.timezone - time.altzone)}) and all(
        (s.tzname() == time.tzname[1]) == bool(s.dst()) for s in samples if time.daylight)
    ctx.count('zones_with_two_names', int(state['named']))


def offset_at(zone, instant):
    """The offset of the zone at a UTC instant without tzinfo."""
    return instant.replace(tzinfo=dt.timezone.utc).astimezone(zone).utcoffset()


def transitions(zone, first, last):
    found = []
    day = dt.timedelta(days=5)
    at, end = dt.datetime(first, 1, 1), dt.datetime(last, 1, 1)
    before = offset_at(zone, at)
    while at < end:
        after = offset_at(zone, at + day)
        if after != before:
            low, high = at, at + day
            while high - low > SECOND:
                middle = low + (high - low) // 2
                middle = middle.replace(microsecond=0)
                if middle <= low:
                    middle = low + SECOND
                if offset_at(zone, middle) == before:
                    low = middle
                else:
                    high = middle
            found.append(high)
        at, before = at + day, after
    return found


def random_instant(rng):
    roll = rng.random()
    if roll < 0.4 and state['transitions']:
        near = rng.choice(state['transitions'])
        instant = near + dt.timedelta(seconds=rng.choice([-1, 0, 1, rng.randrange(-7200, 7200), rng.randrange(-90000, 90000)]))
    elif roll < 0.8:
        instant = dt.datetime(1970, 1, 1) + dt.timedelta(seconds=rng.randrange(0, 68 * 365 * 86400))
    else:
        instant = dt.datetime(rng.randrange(1860, 2500), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60),
            rng.randrange(60))
    if rng.random() < 0.4:
        instant += dt.timedelta(microseconds=rng.choice([1, 999999, 500000, rng.randrange(1000000)]))
    return instant


def spell(rng, instant, utc, form=None):
    """A datetime for the instant, as a field in UTC or local mode takes it, and what it was."""
    form = form or rng.choice(FORMS)
    aware = instant.replace(tzinfo=dt.timezone.utc)
    if form == 'naive':
        local = aware if utc else aware.astimezone(state['zone'])
        return local.replace(tzinfo=None), form
    if form == 'utc':
        return aware, form
    if form == 'offset':
        return aware.astimezone(dt.timezone(dt.timedelta(minutes=rng.randrange(-1439, 1440)))), form
    if form == 'zone':
        return aware.astimezone(rng.choice(state['others'])), form
    if form == 'local':
        return aware.astimezone(state['zone']).replace(tzinfo=LOCAL), form
    return instant.replace(tzinfo=UTC), form


def written(instant):
    return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (instant.year, instant.month, instant.day, instant.hour, instant.minute, instant.second)


def denotes(value, instant, utc):
    """None, or how the value differs from what a field makes of the instant."""
    if type(value) is not dt.datetime:
        return 'it is %r' % (value,)
    if value.tzinfo is None:
        return 'it has no timezone'
    offset = dt.timedelta(0) if utc else offset_at(state['zone'], instant)
    if value.utcoffset() != offset:
        return 'its offset is %s, not %s' % (value.utcoffset(), offset)
    if value.replace(tzinfo=None, fold=0) != instant + offset:
        return 'its time is %s, not %s' % (value.replace(tzinfo=None), instant + offset)


def case(ctx, rng, index):
    zone = os.environ['TZ']
    for _ in range(3):
        utc = rng.random() < 0.4
        low = random_instant(rng)
        params = {}
        bounds = {}
        if rng.random() < 0.7:
            bounds['minimum'] = low.replace(microsecond=0)
        if rng.random() < 0.7:
            bounds['maximum'] = low.replace(microsecond=0) + dt.timedelta(seconds=rng.choice([0, 1, 60, 3600, 7200, 86400, 86400 * 400]))
        for key, instant in bounds.items():
            params[key] = written(instant) if rng.random() < 0.3 else spell(rng, instant, utc)[0]
        made = attempt(F.DateTime, utc=utc, name='when', **params)
        ctx.check(made.kind == 'ok', 'a datetime field cannot be made', zone=zone, parameters=params, observed=made)
        described = attempt(made.value.describe)
        detail = {'zone': zone, 'utc': utc, 'bounds': bounds, 'given': params}
        ctx.check(described.kind == 'ok' and all(described.value.get(k) == (written(bounds[k]) if k in bounds else None) for k in (
            'minimum', 'maximum')) and bool(described.value.get('utc')) == utc, 'bounds are described as other instants', observed=described, **detail)
        fields = {'field': made.value, 'reconstructed': scheme.Field.reconstruct(json.loads(json.dumps(described.value))),
            'clone': made.value.clone()}
        for which, field in fields.items():
            for key, instant in bounds.items():
                ctx.check(repr(written(instant)) in repr(field), 'the printed form of a field shows another instant',
                    expected=written(instant), observed=repr(field), field=which, **dict(detail, bound=key))
        instants = [random_instant(rng)]
        for bound in bounds.values():
            instants += [bound, bound + dt.timedelta(seconds=rng.choice([-1, 1])), bound + dt.timedelta(seconds=rng.randrange(-7200, 7200)),
                bound + dt.timedelta(microseconds=rng.choice([-1, 1]))]
        for instant in instants:
            for which, field in fields.items():
                decide(ctx, rng, field, instant, utc, bounds, dict(detail, field=which, instant=instant))
        ctx.seen(zone, utc, str(bounds), [str(i) for i in instants])
        contained(ctx, rng, utc, zone)
    raw(ctx, rng, zone)
    # dates and times of day have nothing to do with the timezone
    for t in ('date', 'time'):
        spec = gen.Gen(rng, simple=(t,), p_bounds=0.6).spec(0)
        from vmon.build import build
        from props.common import inputs
        field = build(spec)
        for value in inputs(rng, spec, 3, False):
            if not isinstance(value, (dt.datetime, dt.time)) or value.tzinfo is None:
                observe(ctx, spec, field, value, 'inbound', rng.random() < 0.5)
    ctx.sample('%s: %s' % (zone, random_instant(rng)))


def decide(ctx, rng, field, instant, utc, bounds, detail):
    violated = []
    for key, beyond in (('minimum', lambda b, i: i < b), ('maximum', lambda b, i: i > b)):
        if key in bounds:
            violated += [key] if beyond(bounds[key], instant) else []
    value, form = spell(rng, instant, utc)
    detail.update(value=value, form=form)
    whole = instant.replace(microsecond=0)
    for phase in ('inbound', 'outbound'):
        outcome = attempt(field.process, value, phase, False)
        if violated:
            ctx.check(outcome.kind == 'error' and [e['token'] for e in outcome.value.errors] == violated[:1],
                'an instant beyond a bound is not refused as such (%s)' % phase, expected=violated, observed=outcome, **detail)
            ctx.check(written(bounds[violated[0]]) in outcome.value.errors[0]['message'], 'a report shows another instant as the bound',
                observed=outcome, **detail)
            ctx.count('refused')
        else:
            problem = denotes(outcome.value, instant, utc) if outcome.kind == 'ok' else outcome
            ctx.check(not problem, 'another instant results from processing (%s): %s' % (phase, problem), **detail)
            ctx.count('accepted')
    text = attempt(field.process, value, 'outbound', True)
    if violated:
        ctx.check(text.kind == 'error', 'an instant beyond a bound is serialized', observed=text, **detail)
    else:
        ctx.check(text.kind == 'ok' and same(text.value, written(whole)), 'an instant is serialized as another', expected=written(whole),
            observed=text, **detail)
        again = attempt(field.process, field.process(value, 'inbound', False), 'outbound', True)
        ctx.check(again.kind == 'ok' and same(again.value, written(whole)), 'a processed instant is serialized as another',
            expected=written(whole), observed=again, **detail)
    beyond = [k for k in violated] if instant == whole else [k for k in ('minimum', 'maximum') if k in bounds and (
        whole < bounds[k] if k == 'minimum' else whole > bounds[k])]
    back = attempt(field.unserialize, written(whole))
    if beyond:
        ctx.check(back.kind == 'error' and [e['token'] for e in back.value.errors] == beyond[:1],
            'a written instant beyond a bound is not refused as such', observed=back, **detail)
    else:
        problem = denotes(back.value, whole, utc) if back.kind == 'ok' else back
        ctx.check(not problem, 'a written instant is read as another: %s' % problem, **detail)
        once_more = attempt(field.serialize, back.value)
        ctx.check(once_more.kind == 'ok' and same(once_more.value, written(whole)), 'an instant changes by being read and written',
            observed=once_more, **detail)


def contained(ctx, rng, utc, zone):
    """Instants within containers and texts."""
    schema = F.Structure({'one': F.DateTime(utc=utc), 'many': F.Sequence(F.DateTime(utc=utc)), 'named': F.Map(F.DateTime(utc=utc))})
    instants = [random_instant(rng).replace(microsecond=0) for _ in range(4)]
    value = {'one': spell(rng, instants[0], utc)[0], 'many': [spell(rng, i, utc)[0] for i in instants[1:3]],
        'named': {'k': spell(rng, instants[3], utc)[0]}}
    detail = {'zone': zone, 'utc': utc, 'value': value}
    format = rng.choice([None, 'json', 'yaml', 'xml', 'urlencoded'])
    text = attempt(schema.serialize, value, format)
    ctx.check(text.kind == 'ok', 'instants within containers cannot be written', observed=text, **detail)
    back = attempt(schema.unserialize, text.value, format)
    ctx.check(back.kind == 'ok', 'instants within containers cannot be read', observed=back, text=text.value, **detail)
    parts = [back.value['one']] + back.value['many'] + [back.value['named']['k']]
    for part, instant in zip(parts, instants):
        problem = denotes(part, instant, utc)
        ctx.check(not problem, 'through %s, an instant changed: %s' % (format, problem), text=text.value, **detail)
    ctx.check(len(parts) == 4, 'instants within containers are lost', **detail)
    ctx.count('contained')


def raw(ctx, rng, zone):
    """The timezones themselves."""
    for _ in range(3):
        instant = random_instant(rng)
        aware = instant.replace(tzinfo=dt.timezone.utc)
        problem = denotes(aware.astimezone(LOCAL), instant, False)
        ctx.check(not problem, 'the local time of an instant differs: %s' % problem, zone=zone, instant=instant)
        back = aware.astimezone(LOCAL).astimezone(dt.timezone.utc)
        ctx.check(back == aware, 'an instant changes by being expressed in local time', zone=zone, instant=instant, observed=back)
        problem = denotes(aware.astimezone(UTC), instant, True)
        ctx.check(not problem, 'the UTC time of an instant differs: %s' % problem, zone=zone, instant=instant)
        if state['named']:
            recent = dt.datetime(2024, 1, 5, tzinfo=dt.timezone.utc) + dt.timedelta(seconds=rng.randrange(11 * 365 * 86400))
            if state['transitions'] and rng.random() < 0.5:
                after = [t for t in state['transitions'] if t.year >= 2024]
                if after:
                    recent = rng.choice(after).replace(tzinfo=dt.timezone.utc) + dt.timedelta(seconds=rng.choice([-3601, -1, 0, 1, 3601]))
            expected, local = recent.astimezone(state['zone']), recent.astimezone(LOCAL)
            ctx.check((local.tzname(), local.dst(), local.strftime('%Z %z')) == (
                expected.tzname(), expected.dst(), expected.strftime('%Z %z')), 'a local time bears another name or saving', zone=zone,
                instant=recent, expected=(expected.tzname(), expected.dst()), observed=(local.tzname(), local.dst()))
            ctx.count('named')
        ctx.check((UTC.tzname(None), instant.replace(tzinfo=UTC).strftime('%Z%z'), UTC.dst(None)) == (
            'UTC', instant.replace(tzinfo=dt.timezone.utc).strftime('UTC%z'), dt.timedelta(0)), 'UTC bears another name', instant=instant)
        minutes = rng.choice([rng.randrange(-1439, 1440), rng.randrange(-23, 24) * 60])
        name = FixedOffsetTimezone(minutes).tzname(None)
        sign, hours, rest = name[0], name[1:3], name[3:]
        ctx.check(sign in '+-' and len(hours) == 2 and (not rest or rest[0] == ':' and len(rest) == 3) and
            (int(hours) * 60 + int(rest[1:] or 0)) * (1 if sign == '+' else -1) == minutes, 'a fixed offset bears the name of another',
            minutes=minutes, observed=name)
        ctx.check(FixedOffsetTimezone(minutes, 'X').tzname(None) == 'X' == repr(FixedOffsetTimezone(minutes, 'X')), 'a timezone loses its name')
        shown = attempt(eval, repr(FixedOffsetTimezone(minutes)), {'FixedOffsetTimezone': FixedOffsetTimezone})
        ctx.check(shown.kind == 'ok' and shown.value.utcoffset(None) == dt.timedelta(minutes=minutes), 'a fixed offset is shown as another',
            minutes=minutes, shown=repr(FixedOffsetTimezone(minutes)))
        fixed = FixedOffsetTimezone(minutes)
        there = aware.astimezone(fixed)
        ctx.check(there == aware and there.utcoffset() == dt.timedelta(minutes=minutes), 'the time of an instant at a fixed offset differs',
            instant=instant, minutes=minutes, observed=there)
        missing = nonexistent(rng)
        if missing is not None:
            field = F.DateTime()
            text = attempt(field.serialize, missing)
            ctx.check(text.kind == 'ok' and field.serialize(field.unserialize(text.value)) == text.value,
                'a local time which does not exist is no instant', zone=zone, value=missing, observed=text)
            ctx.count('nonexistent')
    before = dt.datetime.now(dt.timezone.utc)
    for given, utc in ((None, True), (UTC, True), (LOCAL, False)):
        now = attempt(current_timestamp, given) if given or rng.random() < 0.5 else attempt(current_timestamp)
        after = dt.datetime.now(dt.timezone.utc)
        ctx.check(now.kind == 'ok' and now.value.tzinfo is not None and before <= now.value.astimezone(dt.timezone.utc) <= after,
            'the current timestamp is not the current time', observed=now, before=before, after=after, zone=zone)
        instant = now.value.astimezone(dt.timezone.utc).replace(tzinfo=None)
        problem = denotes(now.value, instant, utc)
        ctx.check(not problem, 'the current timestamp is of another timezone: %s' % problem, zone=zone)


def nonexistent(rng):
    """A local time which clocks skip, or None."""
    if not state['transitions']:
        return None
    at = rng.choice(state['transitions'])
    before, after = offset_at(state['zone'], at - SECOND), offset_at(state['zone'], at)
    if after <= before:
        return None
    return at + before + dt.timedelta(seconds=rng.randrange(int((after - before).total_seconds())))
