"""What each check runs: cases per tier, how cases are made, what is assumed. MANIFEST.json is
generated from this by tools/make_manifest.py."""

PYTHON = '/opt/venv-pypy/bin/python'

META = {}

MODEL = 'runtime monitoring: online comparison of every observed call with an executable reference model'
META_REL = 'runtime monitoring: metamorphic and reference-model oracles over observed calls'
ROUND = 'runtime monitoring: round-trip and independent-reader oracles over observed calls'


def add(pid, quick, thorough, rule, technique=MODEL, note='', assumptions=(), envs=None, level='exploration',
        case_cpu=30):
    # run on every change as well: some ten to forty seconds on eight cores
    quick = quick * 3 // 2
    META[pid] = {'quick': quick, 'thorough': thorough, 'rule': rule, 'technique': technique, 'note': note,
        'assumptions': list(assumptions), 'level': level, 'case_cpu': case_cpu}
    if envs:
        META[pid]['envs'] = envs


SCHEMA = ('one evaluation is one oracle decision about one real call; distinct are the different (schema, value, phase, '
    'serialized) quadruples whose outcome the reference model decided. Schemas and values are drawn from seeded '
    'generators: valid values, values at and next to each bound, mutated valid values and arbitrary Python data')
BASIC = ('The reference model (vmon/model.py), written from the documentation and shared with no code of scheme, '
    'states the intended behaviour', 'Values are basic Python data; no cyclic values')

add('P01', 3000, 60000, SCHEMA, assumptions=BASIC)
add('P02', 3000, 60000, SCHEMA, assumptions=BASIC + ('The checks of this property run with TZ=UTC; P29 varies the zone',))
add('P03', 2500, 60000, SCHEMA, assumptions=BASIC)
add('P04', 2500, 60000, SCHEMA, assumptions=BASIC + ('Constants on containers are a recorded known finding',))
add('P05', 2000, 40000, SCHEMA, assumptions=BASIC + ('Key orders name each key once',))
add('P06', 1200, 30000, SCHEMA, assumptions=BASIC)
add('P07', 2000, 40000, SCHEMA, assumptions=BASIC + ('Map keys stay distinct after processing; no NaN in unique sequences',))
add('P08', 2000, 40000, SCHEMA + '; every refused value is compared with the report the model gives: positions, tokens, '
    'titles, messages, paths, text and serialized form', assumptions=BASIC)
add('P09', 2000, 40000, SCHEMA, technique=ROUND, assumptions=BASIC + ('Binary members, which serialize to bytes, are a '
    'recorded known finding', 'Union alternatives are told apart by their serialized form'))
add('P10', 1500, 40000, 'one evaluation is one decision about a JSON document; documents are read with the standard json '
    'module and rewritten in other standard spellings; distinct are different (schema, value) pairs', technique=ROUND,
    assumptions=BASIC)
add('P11', 1500, 30000, 'one evaluation is one decision about a YAML document, read both by PyYAML and by scheme; distinct '
    'are different data or (schema, value) pairs', technique=ROUND,
    assumptions=BASIC + ('PyYAML stands for any YAML 1.1 reader',))
add('P12', 1500, 30000, 'one evaluation is one decision about an XML document, parsed independently with expat; distinct are '
    'different (schema, value) pairs', technique=ROUND, assumptions=BASIC + ('Schemas are XML-representable: no unions, opaque '
    'or reference fields, string enumerations, names usable as tags',))
add('P13', 1500, 30000, 'one evaluation is one decision about a CSV text, parsed independently with the csv module; distinct '
    'are different (schema, rows) pairs', technique=ROUND, assumptions=BASIC + ('Cells are shorter than 128 KiB and hold no NUL',))
add('P14', 1500, 30000, 'one evaluation is one decision about a structured or url-encoded text; distinct are different data or '
    '(schema, value) pairs', technique=ROUND, assumptions=BASIC + ('Strings do not use the separators the structured text '
    'does not escape (comma, pipe, backslash), nor spell true, false or null',))
add('P15', 1500, 20000, 'one evaluation is one decision about the content of a scratch directory before and after a write or '
    'read, with injected serialization failures; distinct are different (schema, value, format, way) tuples',
    technique='runtime monitoring: snapshots of a scratch directory around each call, with injected failures', assumptions=BASIC,
    envs=[{}, {'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'PYTHONIOENCODING': 'utf-8'}])
add('P16', 1500, 30000, SCHEMA + '; each call is also compared with its alternatives processed alone and reordered',
    technique=META_REL, assumptions=BASIC)
add('P17', 1500, 40000, 'one evaluation is one call with hostile input, watched for escaping exceptions and for its CPU time '
    '(doubling inputs); distinct are different (schema, value, call) triples',
    technique='runtime monitoring: exception and CPU-time watchdog over hostile inputs', assumptions=('Inputs nest less deeply '
    'than the interpreter allows and are not cyclic', 'Decimal numbers have fewer than 4300 digits'))
add('P18', 240, 5000, 'one evaluation is one comparison of snapshots, of repeated outcomes or of concurrent with isolated '
    'outcomes; distinct are different (schema, value, call) triples and observed thread interleavings',
    technique='runtime monitoring: snapshot invariants, and linearizability against isolated runs under threads with injected yields',
    assumptions=BASIC + ('Threads are interleaved by the interpreter, with yields injected by a trace function',))
add('P19', 1500, 30000, 'one evaluation is one decision about a description, its reconstruction or one value processed by '
    'both schemas; distinct are different (schema, value) pairs', technique=META_REL, assumptions=BASIC + ('Recursive schemas '
    'are not described', 'JSON survival is asked of schemas whose keys are text'))
add('P20', 1500, 30000, 'one evaluation is one comparison of original and clone (outcomes, descriptions, later changes); '
    'distinct are different (schema, overrides) pairs', technique=META_REL, assumptions=BASIC)
add('P21', 1500, 30000, 'one evaluation is one decision after an edit: member set, original unchanged, values accepted; '
    'distinct are different (schema, edit sequence) pairs', assumptions=BASIC)
add('P22', 1500, 30000, 'one evaluation is one decision about a filtered or transformed schema; distinct are different (schema, '
    'criteria) pairs', assumptions=BASIC)
add('P23', 1500, 30000, 'one evaluation is one interpolation compared with the reference rendering; templates are built from '
    'known parts; distinct are different (schema, subject, parameters) triples', assumptions=BASIC + ('Templates use variable '
    'references and simple filters; carriage returns in templates are a recorded known finding',))
add('P24', 5000, 60000, 'one evaluation is one extraction or instantiation compared with the reference, with the recorded log of '
    'hook calls; distinct are different (schema, subject) pairs', technique='runtime monitoring: recorded hook-call logs checked '
    'for exactly-once and order against a reference model', assumptions=BASIC)
add('P25', 2000, 30000, 'one evaluation is one decision about an element object; distinct are different (schema, value) pairs',
    technique=META_REL, assumptions=BASIC)
add('P26', 2500, 40000, SCHEMA + '; placeholders stand at random positions, defined before or after use', technique=META_REL,
    assumptions=BASIC)
add('P27', 2000, 40000, 'one evaluation is one decision about a surrogate; distinct are different (implementation, version, '
    'value, schema) tuples', technique=ROUND, assumptions=BASIC + ('Versions are positive',))
add('P28', 1500, 30000, 'one evaluation is one decision about a reference, definition or error; distinct are different (field, '
    'value) pairs', technique=ROUND, assumptions=BASIC)
ZONES = ['UTC', 'America/New_York', 'Europe/London', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Pacific/Apia', 'Europe/Dublin', 'Africa/Casablanca',
    'America/St_Johns', 'Asia/Kathmandu', 'America/Sao_Paulo', 'Europe/Moscow', 'Pacific/Kiritimati', 'Asia/Pyongyang', 'America/Los_Angeles',
    'Antarctica/Troll']
add('P29', 1600, 40000, 'one evaluation is one decision about an instant; distinct are different (zone, schema, value) triples',
    technique='runtime monitoring: instants compared with zoneinfo in worker processes under different system timezones',
    envs=[{'TZ': z} for z in ZONES], assumptions=BASIC + ('The zone database of the system and of the oracle agree',))
add('P30', 800, 15000, 'one evaluation is one comparison of other fields\' behaviour before and after a customisation; distinct '
    'are different customisations', technique=META_REL, assumptions=BASIC)
add('P31', 3000, 60000, 'one evaluation is one utility call compared with its definition; distinct are different arguments',
    assumptions=('Structures to be formatted have text keys',))
add('P32', 2500, 40000, 'one evaluation is one construction, accepted or refused; distinct are different constructions',
    assumptions=BASIC)
add('P33', 2000, 40000, 'one evaluation is one decision about a document written by another writer, with spellings drawn at random; '
    'distinct are different documents', technique=ROUND, assumptions=BASIC + ('The documents are within the domains of P10 to P14',))
add('P34', 2500, 40000, 'one evaluation is one decision about a malformed, hostile or ill-typed document; distinct are different '
    '(format, schema, document) triples', technique='runtime monitoring: exception, side-effect and console watchdog over hostile documents',
    assumptions=('Documents nest at most a few hundred levels deep', 'YAML documents do not tag scalars with types they do not fit'))
add('P35', 1500, 30000, 'one evaluation is one decision about an error composed step by step, or about a report of the library; distinct are '
    'different compositions and different (schema, value) pairs', assumptions=('A position of an error holds errors of its own or parts, not both',))
add('P36', 2500, 40000, 'one evaluation is one decision about a printed field or about an error of a printed report; distinct are different '
    'printed fields', assumptions=BASIC)
add('P37', 2500, 40000, 'one evaluation is one decision about a block of generated documentation; distinct are different texts', assumptions=BASIC)
add('P38', 3000, 60000, 'one evaluation is one oracle decision about a schema which went through a drawn sequence of operations, or about one it came from; '
    'distinct are different (sequence, schema) pairs', technique=META_REL, assumptions=BASIC + ('The exclusions of P19 to P22 apply',))
add('P39', 2000, 40000, 'one evaluation is one decision about a container against its parts; distinct are different (schema, value) pairs', technique=META_REL,
    assumptions=('Values are basic Python data, objects, fields, reports and surrogates; no cyclic values',))
