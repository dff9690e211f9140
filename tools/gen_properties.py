#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
M = 'crates/musli/src/'
MC = 'crates/musli-core/src/'
Z = 'crates/musli-zerocopy/src/'

def p(id, title, statement, over, text, why, files, mech, observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': hook}})

p('C01', 'Variable-length integers are canonical, lossless and exact',
  'Under variable-length options every integer of every width and signedness is stored, in each of the three binary formats, as the shortest continuation sequence of the value (of its zig-zag image where it is signed) and decodes to the same value while consuming exactly the bytes which were written. Decoding any byte sequence as an integer either fails, or yields exactly the number the sequence denotes having consumed exactly that sequence; a number which does not fit the requested type is an error and never has its bits dropped.',
  ['inputs', 'configurations'], 'all values of all integer types, all byte sequences, three formats',
  'The tests round-trip a handful of constants and random values; boundary group counts of 128-bit values and malformed sequences are practically never drawn.',
  [M + 'int/continuation.rs', M + 'int/zigzag.rs', M + 'int/encoding.rs', M + 'wire/int.rs', M + 'descriptive/integer_encoding.rs'],
  [('continuation encoding', 'int/continuation.rs encode/decode'), ('zig-zag mapping', 'int/zigzag.rs'), ('wire length and integer tags', 'wire/int.rs')],
  ['bytes written', 'decoded value', 'reader position'])

p('C02', 'Options fix layout, byte order and length width, and nothing else',
  'With fixed-width integers or floats every number occupies exactly its own width in the selected byte order, and with a fixed length width every length is stored in exactly that width while a length which does not fit is reported as an error rather than truncated. Each option affects only the kind of value it names, data written under a set of options reads back under the same options, and sequences of numbers which are copied in bulk hold exactly the bytes of their elements written one by one.',
  ['inputs', 'configurations'], 'all combinations of integer, float, length width and byte order options, all values',
  'The option space is a product of four options; the tests exercise the defaults and a few combinations on little-endian hosts only.',
  [M + 'options.rs', M + 'int/encoding.rs', M + 'int/traits.rs', M + 'storage/en.rs', M + 'storage/de.rs', M + 'wire/int.rs', MC + 'en/traits.rs'],
  [('packed option word', 'options.rs'), ('byte order aware read and write', 'int/traits.rs UnsignedOps'), ('bitwise fast path for native layouts', 'options.rs is_native_fixed, storage encode_slice')],
  ['bytes written', 'decoded value'])

p('C03', 'Storage format: every value survives, every invalid value is refused',
  'In the storage format every scalar, character, string, byte string, option and fixed tuple decodes to the value which was encoded, consuming exactly the bytes written, under every option set. Bytes which do not denote a value of the requested type (a boolean other than 0 or 1, a code point which is not a character, text which is not UTF-8, a truncated value) are an error and never a value.',
  ['inputs', 'configurations'], 'all values of the scalar types, all byte sequences of the modelled lengths',
  'Tests sample values; they never decode every invalid code point, boolean or truncated prefix.',
  [M + 'storage/en.rs', M + 'storage/de.rs', M + 'int/encoding.rs', M + 'str.rs'],
  [('scalar encoders', 'storage/en.rs'), ('validating decoders', 'storage/de.rs')], ['decoded value', 'reader position'])

p('C04', 'Wire format: every value survives and its tag announces what follows',
  'In the wire format every scalar, character, string, byte string, option and fixed tuple decodes to the value which was encoded, consuming exactly the bytes written, under every option set. Decoding fails for data whose tag announces another kind of value and for invalid booleans, characters and text.',
  ['inputs', 'configurations'], 'all values of the scalar types, all byte sequences of the modelled lengths',
  'Tests sample values; they do not enumerate the tag space nor the boundaries where a tag stops carrying the value itself.',
  [M + 'wire/en.rs', M + 'wire/de.rs', M + 'wire/tag.rs', M + 'wire/int.rs'],
  [('tag byte: kind and inline data', 'wire/tag.rs'), ('length prefix', 'wire/int.rs encode_length')], ['decoded value', 'reader position'])

p('C05', 'Wire format: skipping consumes exactly one value',
  'For every value encoded in the wire format, under every option set and at every nesting depth, skipping it consumes exactly the bytes which were written for it, so what follows decodes as if the skipped value had been read. Skipping arbitrary bytes never reads beyond them.',
  ['inputs', 'configurations'], 'all encoded values of the modelled shapes, all option sets, all byte sequences of the modelled lengths',
  'Skipping only happens when a decoder meets an unknown field; tests exercise a few such structs under the default options.',
  [M + 'wire/de.rs', M + 'wire/tag.rs'],
  [('iterative skip over tags', 'wire/de.rs skip_any')], ['reader position after skip'])

p('C06', 'Descriptive format: values survive and cross-type integers are exact',
  'In the descriptive format every scalar, character, string, byte string, option and fixed tuple decodes to the value which was encoded, consuming exactly the bytes written. An integer written as one integer type and read as another yields the identical number, or an error exactly when it is not representable in the requested type.',
  ['inputs', 'configurations'], 'all values of every integer type, all pairs of source and destination types',
  'The product of types and boundary values is far beyond sampling; tests cover a few conversions.',
  [M + 'descriptive/en.rs', M + 'descriptive/de.rs', M + 'descriptive/tag.rs', M + 'descriptive/integer_encoding.rs'],
  [('typed number tags', 'descriptive/tag.rs'), ('checked conversion on decode', 'descriptive/integer_encoding.rs')], ['decoded value'])

p('C07', 'Descriptive format: skipping consumes exactly one value',
  'For every value encoded in the descriptive format, at every nesting depth, skipping it consumes exactly the bytes which were written for it, so what follows decodes as if the skipped value had been read. Skipping arbitrary bytes never reads beyond them.',
  ['inputs'], 'all encoded values of the modelled shapes, all byte sequences of the modelled lengths',
  'Skipping only happens for unknown or ignored fields; tests exercise a few.',
  [M + 'descriptive/de.rs'], [('recursive and iterative skipping', 'descriptive/de.rs skip_any, skip_sequence_remaining')], ['reader position after skip'])

p('C08', 'Decoding hostile binary input is total',
  'Decoding any byte sequence as any supported type in the storage, wire and descriptive formats returns a value or an error: it never panics, never overflows an arithmetic operation, never reads outside of the input and never loops without consuming input. A length announced by the input is not trusted before that many bytes are known to be present.',
  ['inputs'], 'all byte sequences of the modelled lengths, representative types covering every decoder entry point',
  'Hostile lengths and tags are one in 2^64 under random testing.',
  [M + 'storage/de.rs', M + 'wire/de.rs', M + 'descriptive/de.rs', M + 'reader.rs'],
  [('bounds checked readers', 'reader.rs'), ('checked and saturating counters', 'wire/de.rs, descriptive/de.rs')], ['result', 'absence of panics'])

p('C09', 'Readers never read out of bounds and account for every byte',
  'Every reader yields exactly the bytes of its input in order, fails without yielding data when fewer bytes remain than requested, and reports end of input exactly when nothing remains. A limited reader never yields more than its limit and hands the rest back untouched; peeking never consumes.',
  ['inputs', 'histories'], 'all inputs and sequences of reader operations of the modelled length',
  'Readers are only tested through formats; failing reads and limits at the exact boundary are not.',
  [M + 'reader.rs'], [('slice readers', 'reader.rs'), ('Limit', 'reader.rs')], ['bytes read', 'remaining bytes', 'error'])

p('C10', 'Writers are bounded, complete and leave no gaps',
  'Every writer stores exactly the bytes it was given, in order, and reports how many; a writer into a fixed amount of memory fails rather than write past the end, and never changes bytes behind what it was given. The bytes produced for a value do not depend on which kind of writer receives them.',
  ['inputs', 'histories'], 'all byte contents and sequences of write operations of the modelled length',
  'Tests write into vectors; exhausting fixed-size writers at every position is not covered.',
  [M + 'writer.rs', M + 'writer/slice_mut_writer.rs', M + 'fixed.rs', M + 'wrap.rs'],
  [('bounded writers', 'writer/slice_mut_writer.rs, fixed.rs')], ['bytes written', 'reported length', 'frame'])

p('C11', 'JSON integers parse to exactly the number written, or fail',
  'Parsing a JSON number as an integer type yields exactly the mathematical value of its text, including fraction and exponent notation, whenever that value is an integer representable in the type and the integer part, the fraction and the exponent as written each fit as well (the type, and 32 bits for the exponent; unsigned types take no minus sign), and an error otherwise; it never wraps, panics or loses digits. Every integer formats to text which parses back to it.',
  ['inputs'], 'all numeric texts of the modelled lengths, all values of the integer types up to 32 bits, wider ones at their boundaries',
  'The tests use fixed tables of literals; exponent and overflow interplay has an unbounded input space.',
  [M + 'json/parser/integer.rs', M + 'json/en/mod.rs', M + 'json/de/mod.rs'],
  [('decimal parser with exponent', 'json/parser/integer.rs'), ('checked accumulation', 'json/parser/integer.rs')], ['parsed value or error', 'parser position'])

p('C12', 'JSON strings survive escaping and only valid text is accepted',
  'Every string encodes to JSON text which decodes to the same string, with every control character, quote and backslash escaped. Parsing accepts exactly the escapes of the JSON grammar, combines surrogate pairs into the character they denote, and rejects lone surrogates, unknown escapes and text which is not UTF-8.',
  ['inputs'], 'all characters, all escape sequences, all strings of the modelled lengths',
  'Tests use fixed strings; the escape grammar has 2^16 code units and 2^20 surrogate pairs.',
  [M + 'json/parser/string.rs', M + 'json/en/mod.rs', M + 'str.rs'],
  [('escape tables', 'json/parser/string.rs'), ('string encoder', 'json/en/mod.rs')], ['decoded string or error'])

p('C13', 'JSON parsing is total, and skipping agrees with parsing',
  'Parsing or skipping any text never panics, never reads out of bounds and always terminates (nesting deeper than the stack is out of scope). Skipping a value which is valid JSON consumes exactly that value, whatever it contains.',
  ['inputs'], 'all byte sequences of the modelled lengths',
  'Unbalanced brackets, quotes inside nested skipped values and truncated literals have too many combinations to sample.',
  [M + 'json/parser/parser.rs', M + 'json/parser/slice_parser.rs', M + 'json/parser/mut_slice_parser.rs', M + 'json/de/mod.rs'],
  [('token driven parser', 'json/parser/parser.rs')], ['parser position', 'result'])

p('C14', 'The slice allocator hands out disjoint, aligned, stable memory',
  'Whatever sequence of allocations, growths, merges and frees is performed over a caller-provided buffer, live allocations lie inside the buffer, are aligned for their type, and never overlap each other or the allocator\'s own bookkeeping, and each keeps its contents until it is written or freed through its owner. Running out of space is an error and changes nothing.',
  ['histories', 'inputs'], 'all sequences of allocator operations of the modelled length, all sizes, alignments and buffer offsets in the modelled range',
  'Corruption needs particular orders of frees, empty allocations and merges; the unit tests script a few of them.',
  [M + 'alloc/slice.rs', MC + 'alloc/alloc.rs', MC + 'alloc/vec.rs'],
  [('region headers growing down, memory growing up', 'alloc/slice.rs Internal'), ('free list', 'alloc/slice.rs alloc_header, free_region'), ('merging of neighbours', 'alloc/slice.rs try_merge')],
  ['contents of live allocations', 'addresses'])

p('C15', 'Allocator-backed collections behave like their standard counterparts',
  'A vector, string or box on any allocator holds, after any sequence of operations, exactly the elements the standard collection would hold, its capacity never understates what it can hold, and every element is dropped exactly once. A failed operation leaves the contents unchanged.',
  ['histories', 'inputs'], 'all sequences of operations of the modelled length on the system, slice and disabled allocators',
  'Tests cover each method once on one allocator.',
  [MC + 'alloc/vec.rs', MC + 'alloc/string.rs', MC + 'alloc/boxed.rs', MC + 'alloc/system.rs', MC + 'alloc/disabled.rs', M + 'alloc/slice.rs'],
  [('length and capacity bookkeeping', 'alloc/vec.rs'), ('raw allocations', 'alloc/system.rs')], ['contents', 'drop count'])

p('C16', 'Zero-copy loads only succeed in bounds, aligned and valid',
  'Loading any reference, offset, slice, string or enum from any buffer either fails or yields a value which lies entirely inside of the buffer, is aligned for its type, and whose bytes are a valid representation of the type at every nesting level. No offset, length or content in a hostile buffer makes a load panic or touch memory outside of the buffer.',
  ['inputs'], 'all buffers of the modelled sizes, all offsets and lengths, representative types',
  'Unsafe code whose preconditions are established by arithmetic on hostile offsets; overflow needs offsets near the top of the address range.',
  [Z + 'buf/buf.rs', Z + 'buf/validator.rs', Z + 'buf/load.rs', Z + 'traits.rs', 'crates/musli-zerocopy-macros/src/zero_copy.rs'],
  [('range and alignment checks', 'buf/buf.rs inner_get'), ('validators', 'buf/validator.rs'), ('derived validation', 'zero_copy.rs')], ['result', 'absence of out of bounds access'])

p('C17', 'References keep their target in every byte order and size',
  'A reference built from an offset and a length reports and loads exactly that target in either byte order and for every pointer size, and converting, coercing or re-typing it preserves the target; an offset or length which does not fit the pointer size is refused. Indexing and splitting a slice reference address exactly the elements the slice would.',
  ['inputs', 'configurations'], 'all offsets and lengths, all byte orders and pointer sizes',
  'Tests run with the native byte order and small offsets.',
  [Z + 'pointer/ref.rs', Z + 'pointer/size.rs', Z + 'pointer/coerce.rs', Z + 'pointer/coerce_slice.rs', Z + 'pointer/pointee.rs'],
  [('stored in the declared byte order', 'pointer/ref.rs'), ('checked conversions', 'pointer/size.rs')], ['offset', 'length', 'loaded target'])

p('C18', 'Zero-copy stores are aligned, padded with zeros, and load back',
  'Storing any value in a buffer yields a reference to a location aligned for its type from which the identical value loads back, without changing anything stored before, and all padding bytes written are zero. A buffer over a fixed slice refuses a store which does not fit and never writes outside of it.',
  ['inputs', 'histories'], 'all values of representative types, all sequences of stores of the modelled length, all starting offsets',
  'Padding and alignment depend on what was stored before; tests store a few sequences.',
  [Z + 'buf/owned_buf.rs', Z + 'buf/slice_mut.rs', Z + 'buf/padder.rs', Z + 'buf/mod.rs', Z + 'traits.rs'],
  [('alignment padding', 'buf/mod.rs padding_to'), ('struct padding', 'buf/padder.rs'), ('growth', 'buf/owned_buf.rs')], ['buffer contents', 'loaded value'])

p('C19', 'Swiss tables find every stored key and nothing else',
  'A map or set built from distinct keys reports the number of entries it was built from, finds every key with its own value and reports every other key as absent, whatever the hashes of the keys are. Looking a key up in a table loaded from arbitrary bytes terminates without panicking.',
  ['inputs'], 'all key sets of the modelled sizes with arbitrary hash values, all group contents',
  'Colliding hashes and full probe groups are rare; tests use one hash function with small integer keys.',
  [Z + 'swiss/constructor.rs', Z + 'swiss/raw.rs', Z + 'swiss/generic.rs', Z + 'swiss/bitmask.rs', Z + 'swiss/map.rs', Z + 'swiss/set.rs', Z + 'swiss/factory.rs'],
  [('probing and control bytes', 'swiss/raw.rs, swiss/constructor.rs'), ('group matching', 'swiss/generic.rs')], ['lookup result', 'length'], 'internal access to the table with explicit hashes')

p('C20', 'Perfect-hash tables find every stored key and nothing else',
  'A perfect-hash map or set built from distinct keys finds every key with its own value and reports every other key as absent. Looking a key up in a table loaded from arbitrary bytes returns a result or an error without panicking.',
  ['inputs'], 'key sets of the modelled sizes, all displacement tables for lookups',
  'Lookup errors only show from a certain number of keys upward; tests use two or three keys.',
  [Z + 'phf/generator.rs', Z + 'phf/factory.rs', Z + 'phf/hashing.rs', Z + 'phf/map.rs', Z + 'phf/set.rs'],
  [('displacement search', 'phf/generator.rs'), ('permutation of entries', 'phf/factory.rs')], ['lookup result'], 'internal access to the hashing helpers')

p('C21', 'Sorted slices and tries answer exactly by content',
  'Searching a sorted stored slice finds an element exactly when it is present, at a position where it is, and otherwise the position which keeps the order; a stored trie returns exactly the values inserted under a key and walks exactly the entries below a prefix, in order. Both hold for every content and length.',
  ['inputs', 'histories'], 'all sorted contents, all keys, insertion histories of the modelled length',
  'Search boundaries and node splits depend on the whole content; tests use a handful of keys.',
  [Z + 'slice/mod.rs', Z + 'slice/slice.rs', Z + 'slice/packed.rs', Z + 'trie/mod.rs', Z + 'trie/factory.rs', Z + 'trie/walk.rs'],
  [('binary search', 'slice/mod.rs'), ('prefix splitting', 'trie/factory.rs')], ['search result', 'values under a key'])

p('C22', 'Byte-order conversion is exact and reversible',
  'Storing a number in an explicit byte order and reading it back yields the identical number for every value and width, the stored bytes are in exactly that order, and converting twice is the identity. Converting a composite converts each of its numbers in place and nothing else.',
  ['inputs'], 'all values of all numeric types, both byte orders',
  'Tests use asymmetric constants for some widths only.',
  [Z + 'endian/mod.rs', Z + 'endian/endian.rs', Z + 'traits.rs', 'crates/musli-zerocopy-macros/src/zero_copy.rs'],
  [('swap per width', 'endian/mod.rs'), ('derived swap_bytes', 'zero_copy.rs')], ['bytes', 'value'])

p('C23', 'Derived types tolerate added, removed and reordered fields',
  'In the wire, descriptive and JSON formats, data written by a type decodes as another version of that type: fields which are unknown to the reader are skipped whatever they contain, fields which are absent take their declared default or are an error when required, and shared fields keep their values whatever their order. The storage format keeps the same guarantee only for trailing additions it documents.',
  ['inputs', 'programs'], 'all field values, representative pairs of type versions',
  'Tests check one version pair with constant values; the skipped content decides whether it works.',
  ['crates/musli-macros/src/de.rs', 'crates/musli-macros/src/en.rs', M + 'wire/de.rs', M + 'descriptive/de.rs', M + 'json/de/mod.rs'],
  [('generated field dispatch', 'musli-macros/src/de.rs'), ('skip of unknown fields', 'format decoders')], ['decoded value or error'])

p('C24', 'Collections, tuples and enums survive in every binary format',
  'Sequences, maps, tuples, nested options and enum variants encode and decode to the same value, preserving order and length, in the storage, wire and descriptive formats, consuming exactly what was written. A tuple or array whose stored length differs from the requested one, and an unknown variant, are errors.',
  ['inputs'], 'all contents of the modelled shapes and lengths',
  'Tests sample contents; length boundaries of tags (62, 63, 255) meet nested contents rarely.',
  [MC + 'impls/mod.rs', MC + 'impls/alloc.rs', MC + 'impls/tuples.rs', M + 'storage/de.rs', M + 'wire/de.rs', M + 'descriptive/de.rs', 'crates/musli-macros/src/de.rs'],
  [('sequence and map codecs', 'impls/*'), ('per format sequence framing', '*/en.rs, */de.rs')], ['decoded value', 'reader position'])

p('C25', 'The dynamic value type stands for any encoded value without loss',
  'Encoding a value into the dynamic value type and decoding it from there yields the same value, and a dynamic value decoded from descriptive data encodes back to data with the same meaning. Reading an integer out of a dynamic value as another integer type yields the identical number, or an error exactly when it does not fit.',
  ['inputs'], 'all values of the scalar types, all pairs of integer types, composites of the modelled shapes',
  'Tests sample values; conversions between all pairs of number types at their boundaries are not covered.',
  [M + 'value/value.rs', M + 'value/en.rs', M + 'value/de.rs', M + 'value/type_hint.rs'],
  [('number variants and conversions', 'value/value.rs, value/de.rs')], ['decoded value or error'])

p('C26', 'Packed mode writes fields back to back and reads them back',
  'In packed mode fields are stored in declaration order without framing and read back identical, with integers and floats in their fixed width; data which is too short is an error. What is written equals the concatenation of what is written for each field alone.',
  ['inputs'], 'all field values of representative types',
  'Tests round-trip constants.',
  [M + 'packed/mod.rs', M + 'storage/en.rs', M + 'storage/de.rs', 'crates/musli-macros/src/en.rs'],
  [('packed encoding over storage', 'packed/mod.rs')], ['bytes', 'decoded value'])

p('C27', 'JSON floating point numbers round-trip exactly',
  'Every finite float formats to JSON text which parses to the identical float, and parsing a decimal text yields the nearest representable float.',
  ['inputs'], 'all floats, all decimal texts',
  'Tests use tables of literals.',
  [M + 'dec2flt/mod.rs', M + 'dec2flt/lemire.rs', M + 'dec2flt/decimal.rs', M + 'json/parser/parser.rs'],
  [('decimal to float conversion', 'dec2flt/*')], ['parsed value'])

p('C28', 'The serde bridge agrees with the native codecs',
  'A type encoded through the serde bridge decodes through it to the same value, and compatible types produce the same data as the native derive.',
  ['inputs', 'programs'], 'all serde types',
  'Tests compare a few types.',
  [M + 'serde/ser.rs', M + 'serde/de.rs'], [('adapter types', 'serde/*')], ['encoded data', 'decoded value'])

p('C29', 'Diagnostics name the failing path and position',
  'When decoding fails, a tracing context reports the path of fields, indices and variants which leads to the failure and the range of input it stems from.',
  ['inputs', 'histories'], 'all failing decodes',
  'Tests compare a few messages.',
  [M + 'context/default_context.rs', M + 'context/trace.rs'], [('trace path', 'context/trace.rs')], ['reported errors'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
