"""Workload pieces several properties share."""

from vmon import gen, model

PHASES = [('inbound', False), ('inbound', True), ('outbound', False), ('outbound', True)]


def serialized_form(spec, value):
    """What the model says the serialized form of a valid value is, or the value itself."""
    try:
        result = model.process(spec, value, 'outbound', True)
        if result.ok:
            return result.value
    except (model.Undecided, model.Undef):
        pass
    return value


def valid_or_none(rng, spec, **options):
    try:
        return gen.valid(rng, spec, **options)
    except gen.Unsatisfiable:
        return None


def inputs(rng, spec, count=6, wild=True):
    """(value, suits serialized input) pairs: valid, nearly valid and arbitrary values."""
    result = []
    for _ in range(count):
        value = valid_or_none(rng, spec)
        style = rng.randrange(6)
        if style >= 4:
            value = serialized_form(spec, value)
        if style in (1, 2, 4):
            value = gen.mutate(rng, value, rng.randrange(1, 4))
        if style == 3 and wild:
            value = gen.wild(rng)
        elif gen.LARGE and rng.random() < gen.LARGE:
            if isinstance(value, list) and 0 < gen.extent(value) < 20:
                value = value * rng.choice([10, 25, 40])
            elif isinstance(value, dict) and gen.extent(value) < 20:
                value = dict(value, **dict(('extra%d' % i, 1) for i in range(rng.choice([10, 30, 110]))))
            elif isinstance(value, str) and len(value) < 50:
                value = value * rng.choice([10, 100, 1000])
        result.append(value)
    return result


def canonical(spec, value):
    """The processed form of a valid native value, by the model, or Undecided."""
    result = model.process(spec, value)
    if not result.ok:
        raise model.Undecided()
    return result.value


def canonical_values(rng, spec, count, **options):
    """Valid, processed values."""
    found = []
    for _ in range(count):
        try:
            found.append(canonical(spec, gen.valid(rng, spec, **options)))
        except (gen.Unsatisfiable, model.Undecided, model.Undef):
            pass
    return found


def outbound(spec, value):
    """The serialized form of a processed value by the model, or Undecided."""
    result = model.process(spec, value, 'outbound', True)
    if not result.ok:
        raise model.Undecided()
    return result.value


def reads_back(spec, value, via=lambda form: form):
    """Whether, by the model, the serialized form of ``value`` denotes it; only unions whose
    alternatives overlap may be ambiguous."""
    from vmon.core import same
    try:
        result = model.process(spec, via(outbound(spec, value)), 'inbound', True)
    except model.Undecided:
        return False
    return result.ok and same(result.value, value)


def has_kind(spec, *kinds):
    from vmon.build import walk
    return any(s['t'] in kinds for s in walk(spec))


XML_KEYS = ['a', 'b', 'c', 'alpha', 'beta', 'x1', 'name', 'type', 'value', 'item', '_x', 'a-b', 'a.b', '\u00e9l', 'root',
    'null', 'A']


def xml_char(c):
    n = ord(c)
    return n in (9, 10) or 0x20 <= n <= 0xd7ff or 0xe000 <= n <= 0xfffd or n >= 0x10000


def xml_text(rng):
    return ''.join(c for c in gen.random_text(rng) if xml_char(c))


def any_text(value, test):
    if isinstance(value, str):
        return test(value)
    if isinstance(value, dict):
        return any(any_text(k, test) or any_text(v, test) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return any(any_text(v, test) for v in value)
    return False


def template_like(value):
    """Whether a text in ``value`` may be understood, or have its line ends changed, by the template
    engine."""
    return any_text(value, lambda s: '{' in s or '\r' in s or '$' in s)


XML_SIMPLE = ('integer', 'float', 'decimal', 'boolean', 'date', 'time', 'datetime', 'text', 'text', 'email', 'token',
    'uuid', 'enumeration')


def xml_gen(rng, **options):
    params = dict(simple=XML_SIMPLE, containers=('structure', 'structure', 'sequence', 'map', 'tuple'), keys=XML_KEYS,
        names=XML_KEYS, p_name=0.3, enumerations='text', map_keys=('enumeration',), p_ignored=0.0, texts=xml_text)
    params.update(options)
    return gen.Gen(rng, **params)
