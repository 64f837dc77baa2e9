"""Regenerates /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
F = 'scheme/fields/'
PROPS = []
def P(id, title, statement, over, text, why, files, mech, observe=None):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': observe or [], 'hook_needed': None}})

P('P01', 'Numeric and boolean fields accept exactly the values inside their constraints',
  "Integer, float, decimal and boolean fields accept a value exactly when it has the field's kind (a boolean is never an integer, an integer is never a float or a decimal; serialized input may instead spell the number as text or as another number, and is converted as the language converts it) and lies within the inclusive minimum and maximum, and an accepted value comes back numerically unchanged with the field's own type. Anything else, including not-a-number against a bound, is refused with a validation error whose token names a constraint the value really violates.",
  ['inputs', 'configurations'],
  'every numeric or boolean field configuration (any combination of bounds, including zero, negative, equal and infinite bounds) and every input value, native or serialized, inbound or outbound',
  'The tests try about a dozen values per field against one or two bounds; the statement ranges over all bounds and values, in particular values at, next to and far from a bound and of neighbouring types.',
  [F+'integer.py', F+'float.py', F+'decimal.py', F+'boolean.py'],
  [('type and bound checks', F+'integer.py:Integer._validate_value'), ('type and bound checks', F+'float.py:Float._validate_value'),
   ('type and bound checks', F+'decimal.py:Decimal._validate_value'), ('type check', F+'boolean.py:Boolean._validate_value'),
   ('conversion of serialized input', F+'integer.py:Integer._unserialize_value')])

P('P02', 'Date, time and datetime fields enforce their bounds and normalise instants',
  "Date, time and datetime fields accept exactly the values of their kind (or, in serialized input, the text of their documented pattern naming a real date or time) that lie within the inclusive bounds. A datetime is compared and returned as an instant in the field's timezone: naive values are taken to be in that timezone, aware values are converted without changing the instant. Everything else is refused with a validation error naming a violated constraint, also when the value or its conversion leaves the representable range.",
  ['inputs', 'configurations'],
  'every bound combination (given natively or as text), every date/time/datetime value from year 1 to 9999, naive or aware with any fixed offset, and every malformed text',
  'The tests use a handful of present-day values; they never cross day, year or offset boundaries, early years, or mixed naive and aware values.',
  [F+'date.py', F+'time.py', F+'datetime.py', 'scheme/timezone.py'],
  [('bounds and type', F+'date.py:Date._validate_value'), ('bounds and type', F+'time.py:Time._validate_value'),
   ('normalisation then bounds', F+'datetime.py:DateTime._normalize_value, DateTime._validate_value')])

P('P03', 'Text-like fields accept exactly the strings their constraints describe',
  "Text, email, token, UUID, enumeration and binary fields accept a value exactly when it is of the right type and satisfies every declared constraint (length bounds after stripping when stripping is on, the pattern from the start of the value, the address grammar, the number of token segments, membership of the enumeration). An accepted value is returned unchanged except for the documented normalisation (stripping, address lower-casing and separators, base64 decoding), and a refused one is reported with an error naming a violated constraint.",
  ['inputs', 'configurations'],
  'every configuration of the six field types and every value, including empty strings, whitespace and newlines at either edge, non-ASCII text and values of other types',
  'Tests check about ten strings per field and configuration; boundary lengths combined with stripping, trailing newlines, non-ASCII and grammar edge cases are not sampled.',
  [F+'text.py', F+'email.py', F+'token.py', F+'uuid.py', F+'enumeration.py', F+'binary.py'],
  [('strip, lengths, pattern', F+'text.py:Text._validate_value'), ('address expressions and separators', F+'email.py:Email.preprocessor'),
   ('token grammar', F+'token.py:Token._validate_value'), ('membership', F+'enumeration.py:Enumeration._validate_value'),
   ('length and base64', F+'binary.py:Binary._unserialize_value')])

P('P04', 'Null, constant and preprocessor options act uniformly on every field',
  "For every field and both phases, a null value is returned as null unless the field is declared non-null, in which case (and only then) it is refused with the non-null error; values an enumeration ignores count as null. A field with a constant accepts only values equal to it, a preprocessor sees each non-null value once, after unserialization and before validation, and a preprocessor that fails makes the value invalid instead of escaping.",
  ['inputs', 'configurations'],
  'every field type, nested at any depth, every combination of nonnull, nonempty, constant, ignored values and preprocessors, every value, both phases, serialized or not',
  'Tests set one option on one field at a time; interactions between options, phases and field types are not sampled.',
  ['scheme/field.py', F+'enumeration.py', F+'structure.py', F+'sequence.py', F+'map.py', F+'tuple.py'],
  [('processing order', 'scheme/field.py:Field.process'), ('null handling', 'scheme/field.py:Field._is_null'),
   ('ignored values', F+'enumeration.py:Enumeration._is_null')])

P('P05', 'Structures enforce membership, defaults, strictness and nulls exactly',
  "Processing a structure yields exactly the declared keys that were present plus, for inbound values only, the defaults of absent ones; absent required keys without an applicable default and, when strict, undeclared keys are each reported, while lenient structures drop undeclared keys. A null given for a key declared as ignoring nulls counts as absent, partial processing neither requires nor defaults absent keys, and a declared key order decides the order of the output without losing or refusing keys.",
  ['inputs', 'configurations'],
  'every structure schema (nesting, optional/required/default/nonnull/ignore-null members, strictness, key orders that are complete, partial or contain extra names) and every mapping, in both phases',
  'Tests cover each flag with one small structure; the product of flags, phases, nesting and presence patterns is not sampled.',
  [F+'structure.py'], [('membership loop', F+'structure.py:Structure.process')])

P('P06', 'Polymorphic structures select one variant by discriminator and keep it in step',
  "A polymorphic structure validates a value against exactly the variant its discriminator names (plus the common members), the discriminator itself being processed by its own field. A missing, null, unknown or ill-typed discriminator is refused: with a validation error in processing, and in extraction and interpolation with their own cannot-extract and cannot-interpolate errors; and the variant used for processing, serialization formats, extraction, instantiation, interpolation and transformation is always the same one. The mappings a structure is built from may be shared by several variants or structures: they are not altered.",
  ['inputs', 'configurations'],
  'every set of variants, discriminator field type (enumeration, text, integer, boolean), common members, and every value including discriminators of other types',
  'Tests use two fixed two-variant schemas with correct discriminators in most operations.',
  [F+'structure.py', 'scheme/formats/xml.py'],
  [('variant selection', F+'structure.py:Structure.process'), ('variant selection', F+'structure.py:Structure._get_definition'),
   ('discriminator injection', F+'structure.py:Structure.__init__')])

P('P07', 'Sequences, maps and tuples validate every element, keep order and report all',
  "A sequence, map or tuple accepts a value exactly when the container kind, its length or required keys, every element, every key and, if requested, uniqueness of the processed items all hold, and then returns a new container of the declared kind with each element processed and in its original place. Otherwise it is refused with an error naming a violated constraint or the erroneous positions, whatever kinds of items (also unhashable ones) it holds.",
  ['inputs', 'configurations'],
  'every item/key/value field, length bound, uniqueness flag and required-key list; every list, tuple or dict value of any size and nesting',
  'Tests use short lists of integers or strings; uniqueness after item normalisation, nested items, key processing and boundary lengths are not sampled.',
  [F+'sequence.py', F+'map.py', F+'tuple.py'],
  [('lengths, items, duplicates', F+'sequence.py:Sequence.process'), ('keys, values, required keys', F+'map.py:Map.process'),
   ('arity and positions', F+'tuple.py:Tuple.process')])

P('P08', 'Error reports are complete and point at the right place',
  "When a value is refused, the error holds one entry for every invalid part and none for valid parts, each with the token, title and message of a constraint violated there and the path that leads to that part, and its text lists each of them exactly once, numbered. An error about a value carries that value. The serialized form mirrors that hierarchy position by position, is stable, and survives serialization and unserialization.",
  ['inputs', 'configurations'],
  'every nested schema and every value with any number of errors at any depth; custom error definitions and parameters included',
  'Tests assert error structure for a few one- or two-error values; multi-error nested reports, their paths, text and serialized form are not enumerable by examples.',
  ['scheme/exceptions.py', 'scheme/field.py', F+'structure.py', F+'sequence.py', F+'map.py', F+'tuple.py'],
  [('error tree', 'scheme/exceptions.py:StructuralError'), ('text', 'scheme/exceptions.py:StructuralError.format_errors'),
   ('serialized form', 'scheme/exceptions.py:StructuralError.serialize'), ('ancestry paths', F+'structure.py:Structure.process')])

P('P09', 'Serializing a valid value and reading it back is the identity',
  "For every schema (the alternatives of a union being told apart by what each recognises) and every value valid for it, the serialized form is itself acceptable as serialized input, consists only of natively serializable data, and unserializes to a value equal to the original in value and type (up to the documented precision of the temporal patterns). Processing is idempotent: processing an already processed value again, in the same phase and without serialization, returns an equal value.",
  ['inputs', 'configurations'],
  'every schema over all value-carrying field types, nested to any depth, and every valid value of it',
  'Tests check serialization per field type on one or two values; compositions and extreme values are not sampled.',
  ['scheme/field.py', F+'date.py', F+'datetime.py', F+'time.py', F+'decimal.py', F+'binary.py', F+'structure.py'],
  [('phase and serialized switch', 'scheme/field.py:Field.process'), ('paired conversions', F+'*.py:_serialize_value/_unserialize_value')])

P('P10', 'Values survive a JSON round trip, and the JSON is standard',
  "For every schema without binary members and every valid value with finite numbers, serializing to JSON produces a standard JSON document denoting the serialized value, and unserializing that document with the same schema returns a value equal to the original. Any other standard JSON text of the same data unserializes to the same value, and values JSON cannot carry are refused rather than written as something else.",
  ['inputs', 'configurations'], 'every JSON-representable schema (nested, polymorphic, ordered) and every valid value of it, any Unicode text included; equivalent JSON spellings of the document',
  'Tests convert one fixed document.',
  ['scheme/formats/json.py', 'scheme/field.py', 'scheme/format.py'], [('conversion', 'scheme/formats/json.py:Json'), ('dispatch', 'scheme/field.py:Field.serialize, Field.unserialize')])

P('P11', 'Values survive a YAML round trip, whatever the text looks like',
  "Serializing natively serializable data to YAML produces a document that any YAML 1.1 reader loads back as equal data of the same types: strings that look like numbers, booleans, nulls, dates or markup, contain quotes, line breaks, control characters, leading or trailing blanks or are longer than a line stay the same strings, and dates and datetimes, which YAML can denote although JSON cannot, are read back to the microsecond and with their time zone. Hence for every schema and valid value, unserializing the YAML with the same schema returns an equal value.",
  ['inputs', 'configurations'], 'all nested data of null, booleans, integers, floats, strings, dates, datetimes, lists and dicts keyed by strings or dates, and every schema producing it',
  'Tests pin the output for around thirty fixed values; string content space is unbounded and the emitter is hand-written.',
  ['scheme/formats/yaml.py'], [('string styles', 'scheme/formats/yaml.py:Yaml._serialize_string'), ('block structure', 'scheme/formats/yaml.py:Yaml._serialize_structure, Yaml._serialize_sequence')])

P('P12', 'Values survive an XML round trip',
  "For every XML-representable schema and valid value (text of XML characters, names usable as tags), serializing to XML yields a well-formed document, with or without the preamble, and unserializing it with the same schema returns an equal value: empty, whitespace-only, null and markup-like text, empty containers, unnamed and named items, nested and polymorphic members all keep their identity. The format class by itself reads the data that was written, numbers and booleans as such; what XML cannot tell apart (unions), documents which are not well-formed and missing schemas are refused.",
  ['inputs', 'configurations'], 'every schema of simple, structure, map, sequence and tuple fields with XML-safe keys and every valid value of it',
  'Tests convert one small fixed document per container.',
  ['scheme/formats/xml.py'], [('emitter', 'scheme/formats/xml.py:Xml._serialize_content'), ('reader', 'scheme/formats/xml.py:Xml._unserialize_element')])

P('P13', 'Rows survive a CSV round trip',
  "Serializing a sequence of flat structures to CSV yields one header row of the selected columns followed by one row per item, in order, in a form a standard CSV reader parses, and unserializing it with the same schema returns the same rows, columns that were null or absent (or empty text) being absent. Embedded quotes, delimiters and line breaks, column selections and nested paths do not disturb neighbouring cells, and nothing is written to the console. The format class by itself reads numbers and booleans as such, and what is no table under the schema (other schemas, absent paths, unknown or structural columns, short rows, cells which are no numbers) is refused in both directions.",
  ['inputs', 'configurations'], 'every flat structure schema with simple columns, every column selection and path, every list of rows',
  'Tests convert two fixed tables without special characters.',
  ['scheme/formats/csv.py'], [('writer', 'scheme/formats/csv.py:Csv.serialize'), ('reader', 'scheme/formats/csv.py:Csv.unserialize')])

P('P14', 'Structured-text and url-encoded forms are read back as the data written',
  "Structured text written for nested lists and mappings of strings, booleans, nulls and (with number parsing) finite numbers is read back as equal data, brackets and braces inside strings included, and url-encoding a mapping of such data and decoding it returns the mapping, through the format classes and through a schema alike. Malformed input raises a value error and never hangs.",
  ['inputs', 'configurations'], 'all nested data over strings free of the separator characters, all url-encodable mappings, hostile texts',
  'Tests check about twenty fixed pairs.',
  ['scheme/formats/structuredtext.py', 'scheme/formats/urlencoded.py'],
  [('escaping', 'scheme/formats/structuredtext.py:StructuredText._serialize_content'), ('reduction parser', 'scheme/formats/structuredtext.py:StructuredText._unserialize_structured_value'), ('form encoding', 'scheme/formats/urlencoded.py:UrlEncoded')])

P('P15', 'Files: what is written is read back, and a failed write keeps the old content',
  "Writing a valid value to a file and reading it back through the same schema returns an equal value, the format being chosen by explicit name, class, mimetype or by extension in any case. The file holds the same bytes whatever the system's locale. A write refused by validation, an unknown format, a failing serialization or a text no file can hold leaves an existing file untouched and creates none, and reading a missing file reports it as asked (false when quiet, an error otherwise).",
  ['inputs', 'configurations', 'fault_sequences'], 'every file format, schema and valid value; every refused value, unknown format and fault raised while serializing, at any point of a sequence of reads and writes',
  'Tests write one fixed value per format to a fresh file and never inject a failure.',
  ['scheme/format.py', 'scheme/field.py'], [('file access', 'scheme/format.py:Format.read, Format.write'), ('process then write', 'scheme/field.py:Field.write, Field.read')])

P('P16', 'A union behaves as the first alternative that recognises the value',
  "Processing or extracting through a union returns, for every value and phase, exactly what its first alternative that does not reject the value's type returns, including that alternative's validation error; only when every alternative rejects the type is the union's own type error raised. The order of the alternatives is the only thing that breaks ties.",
  ['inputs', 'configurations'], 'every list of alternatives (simple, container, nested unions) and every value, in processing (both phases, serialized or not) and extraction',
  'Tests use one three-way union and a handful of values.',
  [F+'union.py'], [('first match', F+'union.py:Union.process')])

P('P17', 'Hostile input is answered with a verdict, never with a crash or a hang',
  "For every constructible schema and every input built from Python's basic data types, processing, serializing and unserializing either return a value or raise the library's structural validation error (or its undefined-field error for an undefined member), in bounded time, never more than quadratic in the size of the input. No other exception escapes.",
  ['inputs', 'configurations'], 'every schema over all field types and every value of any basic type, nested to moderate depth, extreme numbers, dates and strings included',
  'Tests feed each field the three or four invalid values its author thought of.',
  ['scheme/field.py', F+'*.py'], [('conversion of failures', F+'*.py:_unserialize_value'), ('process', 'scheme/field.py:Field.process')])

P('P18', 'Processing never alters its input, the schema, or other results',
  "No operation on a value changes the value or anything reachable from it, the schema, the schema's defaults, or the library's shared state: repeating any call later, in another order, on another thread or after mutating an earlier result, gives an equal outcome. Calls from several threads on one shared schema behave as if each ran alone.",
  ['inputs', 'histories', 'schedules'], 'every sequence and every concurrent interleaving of operations (process, serialize, extract, interpolate, instantiate, describe, clone, filter, transform) on shared schemas and values',
  'Each test uses fresh fields and one operation; histories and schedules are never exercised.',
  ['scheme/field.py', F+'*.py', 'scheme/exceptions.py', 'scheme/util.py'], [('fresh results', F+'structure.py:Structure.process'), ('shared caches', 'scheme/interpolation.py:Interpolator.default')])

P('P19', 'A described schema is serializable and reconstructs to an equivalent schema',
  "The description of a schema consists only of natively serializable data, survives JSON, is not altered by being reconstructed, and reconstructs to a schema that has the same description and gives the same outcome for every value, parameters that cannot be serialized (hooks, compiled patterns, non-native simple defaults and constants) being the only ones left out; the identities of polymorphic structures, which descriptions hold in serialized form, are restored. Verbose descriptions add every parameter without changing the meaning, and visiting a description reaches each nested field once.",
  ['inputs', 'configurations'], 'every schema (text keys where JSON is involved), every combination of parameters, and every value used to compare the two schemas',
  'Tests compare descriptions of a few fields by hand and never compare behaviour over values.',
  ['scheme/field.py', F+'*.py'], [('description', 'scheme/field.py:Field.describe'), ('reconstruction', 'scheme/field.py:FieldMeta.reconstruct, Field.construct'), ('visiting', 'scheme/field.py:Field.visit')])

P('P20', 'A clone is equivalent to and independent of its original',
  "Cloning or deep-copying a field yields a field of the same type that gives the same outcome and the same description for every value, except for parameters overridden in the call, which take effect and nothing else changes. Later changes to either field, at any depth, never show in the other.",
  ['inputs', 'configurations', 'histories'], 'every schema, with custom errors, aspects, instantiators, preprocessors and defaults; every override; every later mutation of either side',
  'Tests clone two trivial fields.',
  ['scheme/field.py', F+'*.py'], [('clone', 'scheme/field.py:Field.clone, Field.__deepcopy__')])

P('P21', 'Structure editing operations change exactly what they say',
  "Extending and replacing return a new structure and leave the original as it was; inserting, merging and removing change only the named members, honouring the overwrite and preference flags for every member independently; enumeration redefinition appends or replaces. After any sequence of edits the structure accepts exactly the values the resulting member set describes.",
  ['histories', 'inputs'], 'every sequence of editing operations on every structure, with overlapping and new names, followed by any value',
  'Tests run one operation on a one- or two-member structure.',
  [F+'structure.py', F+'enumeration.py'], [('editing', F+'structure.py:Structure.extend, insert, merge, remove, replace'), ('redefinition', F+'enumeration.py:Enumeration.redefine')])

P('P22', 'Filtering, screening and transforming keep exactly the selected fields',
  "Filtering keeps exactly the members whose attributes satisfy the criteria (any or all of them, as asked), at every depth through structures, maps, sequences and tuples, returns an ordinary schema itself when nothing is dropped, and reports containers that would lose a mandatory part. Transforming replaces, at every depth through those containers, exactly the fields the callback replaces, does not descend below a refusal, and leaves the original schema untouched.",
  ['configurations', 'inputs'], 'every schema with arbitrary aspects, every criteria set, every transformer decision at every position',
  'Tests filter four small schemas with one or two criteria.',
  ['scheme/field.py', F+'structure.py', F+'map.py', F+'sequence.py', F+'tuple.py', F+'union.py'],
  [('selection', 'scheme/field.py:Field.filter, Field.screen'), ('recursion', F+'structure.py:Structure.filter'), ('replacement', F+'structure.py:Structure.transform')])

P('P23', 'Interpolation substitutes parameters and nothing else',
  "Interpolating a subject against parameters replaces each variable reference by its parameter (with its type where the field is not textual, as rendered text where it is), through every level of structures, maps, sequences, tuples and unions, and leaves everything that is not a reference exactly as it was, trailing newlines included (an undefined parameter amid a text renders as nothing). Subjects consisting of a reference to an undefined parameter omit the member of a structure or map and otherwise raise the undefined-parameter error; the result does not depend on earlier interpolations.",
  ['inputs', 'configurations', 'histories'], 'every schema, every template subject (literals, single references, nested and filtered expressions) and parameter set; sequences of interpolations with default and custom interpolators',
  'Tests interpolate one or two templates per field.',
  ['scheme/interpolation.py', 'scheme/field.py', F+'*.py'], [('evaluation', 'scheme/interpolation.py:interpolate_parameters, Interpolator'), ('recursion', F+'*.py:interpolate')])

P('P24', 'Extraction and instantiation select and convert each member exactly once',
  "Extraction takes from a mapping (or, when lenient, an object) exactly the declared members that are present, non-null and not screened out, through every container, applying each extractor once; instantiation is its counterpart, calling each instantiator once per non-null value, children before parents, with the member's key. Subjects that do not fit are refused with the cannot-extract error, and extracting what was instantiated gives the original value back.",
  ['inputs', 'configurations'], 'every schema with extractors, instantiators and aspects, every subject (dicts, objects, wrong types), every screening',
  'Tests extract a handful of fixed objects.',
  ['scheme/field.py', F+'structure.py', F+'map.py', F+'sequence.py', F+'tuple.py', F+'union.py'],
  [('extraction', 'scheme/field.py:Field.extract'), ('instantiation', 'scheme/field.py:Field.instantiate'), ('recursion', F+'structure.py:Structure.extract, Structure.instantiate')])

P('P25', 'Schema-based element objects mirror their schema',
  "An element object built from a valid value has one attribute per declared member holding the given value (null included) or else the declared default, objects in a map have the key under their key attribute, serializing it and unserializing the result (natively or through a format) gives an equal object of the same class or of the variant class its discriminator selects. Objects never share mutable defaults with each other or with the schema.",
  ['inputs', 'configurations', 'histories'], 'every element class over structures, polymorphic structures and single fields, every valid value, every sequence of attribute changes on several instances',
  'Tests build a few fixed elements.',
  ['scheme/element.py'], [('attributes and defaults', 'scheme/element.py:Element.__init__'), ('variant dispatch', 'scheme/element.py:Element.instantiate')])

P('P26', 'Recursive and late-defined schemas behave as if written out',
  "A placeholder defined later, before or after the surrounding schema was built, at any position of any container, makes the schema behave exactly like the same schema written with the definition in place, also when the definition contains the schema itself and values nest to any depth. Using a placeholder while it is undefined raises the undefined-field error, and nothing else, when a value is processed, extracted, instantiated or interpolated through it. A placeholder defined again is what it was defined to be last.",
  ['inputs', 'configurations', 'histories'], 'every container kind and position of a placeholder, every order of construction and definition, several users of one placeholder, every value and depth',
  'Tests define one placeholder per container and process one shallow value.',
  ['scheme/field.py', F+'structure.py', F+'sequence.py', F+'map.py', F+'tuple.py', F+'union.py'],
  [('registration', 'scheme/field.py:Undefined'), ('substitution', F+'*.py:_define_undefined_field')])

P('P27', 'Surrogates keep their implementation, version and schema through serialization',
  "A surrogate constructed for an implementation and version, or with a dynamic schema, serializes to data from which the same implementation, version, schema and aspects are restored, older versions staying readable after newer ones are added, and versions which do not exist being refused. A surrogate field accepts exactly surrogates (or their serialized form) of its allowed implementations and leaves the serialized input unmodified. Aspects given by name prevail over those of the value a surrogate is constructed from, and an implementation contributes its aspects alike when a surrogate is constructed and when it is interpolated.",
  ['inputs', 'configurations'], 'every implementation with one or more versioned schemas, dynamic schemas, values valid for them, allowed-surrogate lists',
  'Tests use two fixed surrogates.',
  ['scheme/surrogate.py', F+'surrogate.py'], [('construction', 'scheme/surrogate.py:surrogate.construct'), ('serialization', 'scheme/surrogate.py:surrogate.serialize, surrogate.unserialize'), ('field', F+'surrogate.py:Surrogate._validate_value')])

P('P28', 'Reference fields carry objects, field definitions and errors faithfully',
  "Object, definition and error fields serialize a reference to data and restore from it the same object, an equivalent field, or an equal error report; whatever cannot be restored or is not an allowed kind is refused with a validation error. Importing by path and identifying an object are inverse to each other.",
  ['inputs', 'configurations'], 'every importable object path in dotted and colon form, every field definition and allow-list, every error tree',
  'Tests check two object paths, a few definitions and one error.',
  [F+'object.py', F+'definition.py', F+'error.py', 'scheme/util.py'], [('object identity', 'scheme/util.py:identify_object, import_object'), ('definition', F+'definition.py:Definition'), ('error', F+'error.py:Error')])

P('P29', 'Instants are exact in every local timezone',
  "Under any system timezone, a datetime field in local mode or in UTC mode denotes the same instant before and after processing, serialization, description and reconstruction, serialized datetimes and printed bounds are the UTC time of that instant, and comparisons with bounds are comparisons of instants. Daylight-saving and standard periods and offsets of the past are honoured, a repeated local hour being told apart by its fold, and local times, UTC and fixed offsets bear their own names.",
  ['inputs', 'configurations'], 'system timezones east and west of UTC, with and without daylight saving, fractional offsets; every instant of the platform clock range',
  'The test suite runs in one timezone.',
  ['scheme/timezone.py', F+'datetime.py'], [('offsets', 'scheme/timezone.py:LocalTimezone'), ('conversion', F+'datetime.py:DateTime._normalize_value, DateTime._serialize_value')])

P('P30', 'Custom field types, errors and formats are isolated from each other',
  "Defining a field type, error message or parameter in a subclass or on one field affects that type's or field's own uses and subclasses only: the reports, parameters and descriptions of every other field stay as they were, and each type name resolves to its most recent definition. A format registered under names, extensions and mimetypes is used for exactly those, and custom error messages, titles and value display are rendered as declared.",
  ['histories', 'configurations', 'inputs'], 'every sequence of subclass, error and format declarations interleaved with uses of other fields',
  'Tests define one custom field and never look for leakage.',
  ['scheme/field.py', 'scheme/format.py', 'scheme/exceptions.py'], [('type registry and inheritance', 'scheme/field.py:FieldMeta'), ('instance errors', 'scheme/field.py:Field.__init__'), ('format registry', 'scheme/format.py:FormatMeta')])

P('P31', 'Shared utilities: nested access, merging, pluralising and formatting',
  "Merging nested mappings yields every key of both with the addition winning and nothing else changed; setting or reading a nested value by a path of text keys touches exactly that location or reports the failing path; whitespace minimising, indenting, pluralising and structure formatting return text equal to their definition for every input, formatted structures evaluating back to the structure with masked keys never shown.",
  ['inputs'], 'all nested mappings, paths, texts and formatting options of the public utilities',
  'Tests check a couple of literals per helper.',
  ['scheme/util.py'], [('merge', 'scheme/util.py:recursive_merge'), ('paths', 'scheme/util.py:set_nested_value, traverse_to_key'), ('formatter', 'scheme/util.py:StructureFormatter')])

P('P32', 'Schema construction accepts valid parameters and rejects invalid ones up front',
  "Constructing a field with parameters of the documented kinds succeeds and records them; parameters of another kind (bounds of the wrong type, negative lengths, non-field members, malformed definitions, conflicting options) are refused at construction with a type or value error (malformed regular expressions with the error of the re module). Generated defaults are exactly the declared defaults and constants of the members.",
  ['inputs', 'configurations'], 'every constructor parameter of every field type with values of every kind',
  'Tests try one or two bad parameters per field.',
  ['scheme/field.py', F+'*.py'], [('parameter checks', F+'*.py:__init__'), ('defaults', F+'structure.py:Structure.generate_defaults')])

P('P33', 'A document means the data its format says, however it is spelled',
  "Two documents of a format which the format defines as equivalent (JSON escapes, whitespace and member order; YAML block, flow, quoting, comment, anchor and merge styles; XML entities, comments, CDATA, attribute and empty-element spellings; CSV quoting, column order, line ends and blank rows; percent-encoding and parameter order) are read as the same value, namely the one their data denotes. Reading a document through a schema equals reading it into data and reading the data through the schema.",
  ['inputs'], 'every valid value of every schema within the domains of the formats, every spelling another writer of the format may choose',
  'Tests read the one spelling the library writes, or a fixed literal per format.',
  ['scheme/formats/*.py', 'scheme/format.py'], [('readers', 'scheme/formats/*.py:unserialize'), ('two steps', 'scheme/field.py:Field.unserialize')])

P('P34', 'Any text given to a reader is plain data or refused, and nothing runs',
  "Reading any text as a document of any format either returns plain data (scalars, dates, lists and mappings) or raises a value error, a parse error of the format or a structural error. A document never imports, constructs, calls or names anything of the program, never prints or warns, and does not hang the reader; rows which do not fit their header are refused rather than misread.",
  ['inputs'], 'every text for every format, with and without a schema: truncated, spliced and mutated documents, hostile tags and entities, ill-typed documents',
  'Tests read well-formed documents only.',
  ['scheme/formats/*.py', 'scheme/format.py'], [('readers', 'scheme/formats/*.py:unserialize'), ('yaml loading', 'scheme/formats/yaml.py:Yaml.unserialize')])

P('P35', 'Errors composed by an application are complete in text and serialized form',
  "A structural error built up by appending, constructing, merging, capturing and attaching parts in any order can always be shown and serialized: the text lists every error below it exactly once, numbered, with the path, message, field, value and tracebacks its declaration asks for, the serialized form holds exactly the errors at their places, and it is restored from that form and from JSON unchanged. Every report of the library is valid for the library's own schema of reports.",
  ['inputs', 'histories'], 'every sequence of compositions of errors with any tokens, titles and messages; every report of every schema',
  'Tests compare two or three reports of the library and compose none.',
  ['scheme/exceptions.py', 'scheme/common.py'], [('text', 'scheme/exceptions.py:StructuralError.format_errors'), ('serialized form', 'scheme/exceptions.py:StructuralError.serialize, StructuralError.unserialize'), ('schema of reports', 'scheme/common.py:Errors')])

P('P36', 'Printed fields and reports show what they stand for',
  "The printed form of any field names its type, its name, every setting given to it which restricts or changes it (bounds, lengths, flags, defaults, titles, enumerated values, required keys, discriminators) and the printed forms of the fields within it, and nothing that was not given; equal fields print equally, and using a field does not change its print. The text of any report shows, for each error a declared token reports, its position, its field and the refused value wherever the declaration of that token says so.",
  ['inputs', 'configurations'], 'every schema, every report of every invalid value',
  'Tests never look at a printed field, and compare reports by structure, not by text.',
  ['scheme/field.py', F+'*.py', 'scheme/exceptions.py'], [('printed fields', 'scheme/field.py:Field.__repr__ and '+F+'*.py:__repr__'), ('printed reports', 'scheme/exceptions.py:StructuralError.format_errors')])

P('P37', 'Generated documentation says what the description of a schema says',
  "Documentation generated from the description of any schema (terse or verbose, with any texts) renders one block for each field of it, nested as the schema is, with its name, its type, its description, notes and title, its flags as far as the role shows them, its constant and default, its bounds, lengths, values, required keys and variants, and nothing which the description does not say; text of a description never breaks out of its place. Generating it changes no description, and generators of an application extend it without affecting others.",
  ['inputs', 'configurations'], 'every description of every schema, every role and text',
  'No test touches the documentation generator.',
  ['scheme/doc/generator.py'], [('blocks', 'scheme/doc/generator.py:DocumentationGenerator._document_field and _describe_*'), ('rendering', 'scheme/doc/generator.py:directive.render')])

P('P38', 'Schemas keep their meaning through any sequence of schema operations',
  "After any sequence of cloning, deep copying, describing and reconstructing, equivalent transformation and filtering, passing through a container which is itself copied or defined late, adding and removing members, overriding flags, and uses in between, the resulting schema processes every value as the original would (apart from the flags which were overridden and what descriptions leave out), and every schema passed on the way still behaves and describes itself as it did.",
  ['inputs', 'configurations', 'histories'], 'every sequence of schema operations on every schema, every value',
  'Tests apply one operation to one fixed schema.',
  ['scheme/field.py', F+'*.py'], [('copies', 'scheme/field.py:Field.clone'), ('descriptions', 'scheme/field.py:Field.describe, Field.construct'), ('rebuilds', F+'*.py:transform, filter')])

P('P39', 'The outcome of a container is that of its parts, put together',
  "For every sequence, map, tuple, structure or polymorphic structure of fields of any kind (the user's own types, surrogates, definitions, objects and error fields included), at any depth: processing a value in any phase and form is accepted exactly when every part of the value is accepted by its own field alone, gives the values the parts give, and is otherwise refused with a report which has exactly the errors the parts' own reports have, each under the path of the container; the serialized report nests the reports of the parts. Extraction, instantiation and interpolation give what they give for the parts, and the description and printed form of the container hold those of the parts.",
  ['inputs', 'configurations'], 'every container of every kind of field, every value, phase and form',
  'Tests use containers of a handful of built-in fields; composition must hold for all, also for types a user defines.',
  [F+'*.py', 'scheme/exceptions.py'], [('containers', F+'sequence.py, map.py, tuple.py, structure.py: process, extract, instantiate, interpolate'), ('reports', 'scheme/exceptions.py:StructuralError.serialize'), ('descriptions', 'scheme/field.py:Field.describe')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(PROPS))
