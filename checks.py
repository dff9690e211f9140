"""What every check covers: read by run_check.py and gen_manifest.py."""

TRUSTED = [
    'rustc (Kani\'s nightly) MIR construction and Kani 0.68.0\'s translation of MIR to CBMC goto programs',
    'CBMC 6.11.0 and the cadical SAT solver',
    'Rust core/alloc library code is executed as is; allocation is modelled as always succeeding',
]

CHECKS = {
    'C01': {
        'level': 'proof',
        'technique': 'Kani contract harnesses (pre/call/post) over full-domain symbolic values, CBMC/SAT',
        'functions': [
            'musli::int::continuation::{encode, decode}', 'musli::int::zigzag::{encode, decode}',
            'musli::int::{encode_unsigned, decode_unsigned, encode_signed, decode_signed, encode_usize, decode_usize}',
            'musli::wire::int::{encode_unsigned, decode_unsigned, encode_signed, decode_signed, encode_length, decode_length}',
            'musli::descriptive::integer_encoding::*', 'the scalar methods of the storage, wire and descriptive encoders and decoders',
        ],
        'explanation': 'Every value of every integer type and every byte sequence: loops are bounded by the operand width and unwinding assertions are on, so this is complete.',
        'note': 'Complete for all values of all widths and for all byte sequences a decoder can look at; machine arithmetic is exact.',
    },
}

TECH = 'Kani contract harnesses (pre/call/post) on the real functions, CBMC/SAT'


def add(pid, functions, explanation, note, bounds='none', level='proof', technique=TECH, **kw):
    CHECKS[pid] = dict(level=level, technique=technique, functions=functions, explanation=explanation,
                       note=note, bounds=bounds, **kw)


add('C02', ['musli::options::{Options builder, accessors}', 'musli::int::encoding::{encode_*, decode_*}', 'musli::int::byte_order_io',
            'musli::storage::en/de scalar and bulk (bitwise) paths', 'musli::wire::int::*', 'musli::wire::en/de length paths', 'musli::descriptive length paths'],
    'Every accessor of every option set; every integer type under fixed integers in both orders in storage and wire; every length width with every length on both sides of its limit; bulk copies against element-wise layout.',
    'Complete per value; option sets are enumerated where the code has a case for them. Bulk copies are checked at length two (the copy is one memcpy of n*size bytes).',
    'bulk sequences: two elements; composites: one nesting')
add('C03', ['storage scalar, text, bytes, option, tuple encode/decode', 'char/bool/NonZero decoding'],
    'Every value of each scalar type against a byte-exact specification of the format, every invalid representation, every proper prefix.',
    'Scalars are complete; text and byte strings are bounded by their length.', 'text and byte strings up to 3 bytes (thorough: 4)')
add('C04', ['wire::{en, de, tag, int} scalar, text, bytes, option, tuple'],
    'Every value of each scalar type against a byte-exact specification; the whole tag space per requested type; every invalid representation, every proper prefix.',
    'Scalars and tags are complete; text and byte strings are bounded by their length.', 'text and byte strings up to 3 bytes (thorough: 4)')
add('C05', ['wire::de::WireDecoder::skip_any', 'wire::tag'],
    'For every value of the modelled shapes: encode then skip consumes exactly the encoding; for all short byte sequences skipping agrees with a specification of how many bytes a value occupies.',
    'Scalars complete up to 64-bit (128-bit values at their boundaries), shapes representative; arbitrary bytes bounded.', 'arbitrary bytes: 4; sequences to 66 elements')
add('C06', ['descriptive::{en, de, tag, integer_encoding} scalar, text, bytes, option, tuple', 'descriptive::integer_encoding::decode_typed_*'],
    'Every value of each integer type read as every other integer type against TryFrom; the tag space per requested type; byte-exact layout.',
    'All (type, value, requested type) triples listed in c06.rs are complete.', 'text and byte strings up to 3 bytes (thorough: 4); composites at constant contents')
add('C07', ['descriptive::de::SelfDecoder::skip_any', 'skip_sequence_remaining', 'skip_map_remaining'],
    'As C05, for the descriptive format.',
    'Scalars complete up to 64-bit (128-bit values at their boundaries), shapes representative; arbitrary bytes bounded.', 'arbitrary bytes: 2 (thorough: 4); sequences to 50 elements')

add('C09', ['musli::reader::Reader for &[u8], SliceReader, Limit<R>, &mut R: skip, read, read_bytes, read_bytes_uninit, read_byte, read_array, peek, is_eof, try_clone, limit', 'musli::reader::bounds_check_add'],
    'One call of every method from an arbitrary state: inputs of any length up to 2^40 and any contents, any request. The reader state is the remaining input, so one step from any state covers every history.',
    'Complete: no loop is involved, lengths are symbolic.', 'const-size array reads at 5 and 3; copies out of at most 6 bytes')
add('C10', ['musli::writer::{SliceMutWriter, BufWriter, Vec<u8>, &mut W}', 'musli::FixedBytes', 'musli::wrap::Wrap', 'Encoding::{to_slice_with, to_fixed_bytes_with, encode_with}'],
    'One write of any length into memory of any size, with the frame (every other byte unchanged) stated at a symbolic position; sequences of writes; every encoding entry point against each other and into every too short slice.',
    'Slice and fixed writers complete with symbolic lengths; growing writers bounded.', 'growing writers: 8 bytes; agreement: values listed in c10.rs')

add('C08', ['musli::{storage, wire, descriptive}::de::* for bytes, text, sequences, maps, structs, enums, packed, arrays, tuples, options, char', 'Vec<T> decoding and its allocation'],
    'Every input of the decoder, as the contract of Reader (arbitrary contents of arbitrary length); callees with a contract of their own (variable-length integers: C01, skipping: C05 and C07) are replaced by it. Each potential panic, overflow or access out of bounds of the code reached is an obligation.',
    'Modular: the input is the Reader contract, callees are replaced by their contracts; bounded by the number of bytes left in the input.', 'inputs of 2 to 10 bytes as listed per harness')

add('C16', ['musli_zerocopy::Buf::{load, load_mut, load_at, load_at_mut, load_at_unaligned, get, swap, validate_struct, is_aligned*, is_compatible_with}', 'ZeroCopy::validate of every primitive, arrays, Wrapping, Option<NonZero>, Ref, Packed and of derived structs (plain, packed, aligned, transparent, nested, generic) and enums', 'UnsizedZeroCopy::validate_unsized of [T] and str', 'buf::Validator'],
    'Bounds and alignment: any offset and length into a buffer of any length at any alignment. Validity: every content of the bytes of each type against a layout predicate written from offset_of!, at aligned and unaligned places. Text: the bytes returned are the bytes passed to core::str::from_utf8, whose contract replaces it.',
    'Sized loads are complete per type listed; slices of types with invalid bit patterns are bounded in their number of elements; the payload of errors is dropped (hook).', 'slices of validated elements: 2 to 4')
add('C17', ['musli_zerocopy::Ref: constructors, accessors, to_endian/to_ne/to_le/to_be, at/get/at_unchecked, iter, split_at, coerce/try_coerce, array_into_slice, Size conversions'],
    'Every offset, length and index of every size and byte order.',
    'Complete per combination of offset size, byte order and element type listed in c17.rs; targets the address space can hold.', 'iterators: 3 elements')
add('C22', ['ZeroCopy::swap_bytes of every type', 'musli_zerocopy::Endian', 'endian::{from_*, ByteOrder}', 'derived swap_bytes of structs and enums'],
    'Every value of every number type in both orders; structs and enums field by field.',
    'Complete.')
add('C18', ['OwnedBuf and SliceMut: store, store_slice, store_unsized, store_uninit, load_uninit_mut, extend_from_slice, request_align, next_offset, align_in_place, growth, clone', 'derived ZeroCopy padding of structs, packed structs and enums', 'buf::Padder', 'buf::StoreBuf'],
    'Every value of each listed type; a store into a fixed buffer from any state (any capacity, length and contents); what does not fit is refused by a panic from any state.',
    'Complete per type listed in c18.rs; refusal harnesses are marked should_panic: assertion failures are the expected outcome, anything else fails.', 'slices of 2 or 3 elements; texts of up to 3 bytes')

add('C11', ['musli::json::parser::integer::{Parts::compute, SignedPartsFull::compute, decode_unsigned_full, decode_signed_full, parse digits, checked_pow10, checked_neg_pow10}', 'musli::json de/en of every integer type', 'object keys: KeyUnsignedVisitor, KeySignedVisitor'],
    'The value a number stands for is computed exactly or refused: every (base, fraction, exponent) of the widths listed, against the mathematical definition; every text of digits as long as the type has, with every value on both sides of the range; every text of three characters (thorough: seven) against a grammar; every value of the types up to 16 bits (thorough: 32) formats to its digits, which parse back.',
    'Base, fraction, exponent: complete for the widths listed (arbitrary texts bounded). Numbers whose integer part, fraction or exponent do not fit on their own are refused, as the property says.', 'arbitrary texts: 3 (thorough: 4 to 7); wide types next to their limits')
add('C12', ['musli::json::parser::string::SliceAccess::{parse_escape, skip_escape, parse_hex_escape, parse_string}', 'musli::json::en::encode_string', 'Encoder for char'],
    'Every escape, hexadecimal escape and pair, well-formed or not, at function level against a specification; parsing every string of up to two bytes with its quote (thorough: five) with core::str::from_utf8 replaced by its contract for a caller; every string of up to three bytes and every character is written as specified.',
    'Escapes are complete (all 11 bytes a pair occupies are arbitrary); whole strings bounded. Writing and parsing are each checked against the same specification, which composes to the round trip.', 'whole strings: written 3 bytes, parsed 2 (thorough: 5)')
add('C13', ['musli::json::de::JsonDecoder::{skip_any, parse_null, parse_true, parse_false, decode_map, decode_sequence, decode_array, decode_bool, decode_option}', 'JsonSequenceDecoder, JsonObjectDecoder, JsonObjectPairDecoder skipping', 'musli::json::parser::integer::skip_number', 'SliceAccess::skip_string', 'MutSliceParser, SliceParser'],
    'Every text of the given length by its first byte: total, in bounds, and where the grammar has a value there exactly that is consumed; composites of fixed structure with one arbitrary byte; literals altered at every position and cut anywhere; arrays of bytes of a length other than wanted.',
    'Bounded. The decoder recurses on nested composites, which keeps arbitrary structure out of reach of symbolic execution; hexadecimal escapes are C12.', 'numbers: 4 or 5 bytes (thorough: 6); strings: 4 (thorough: 5); composites: the structures in c13.rs')
add('C14', ['musli::alloc::Slice: new, alloc, alloc_empty', 'SliceAlloc: resize, try_merge, capacity, as_ptr, drop', 'Internal: alloc_header, free_region, reserve, shift of vacant regions'],
    'An inductive invariant over the whole state of the allocator: every operation is run from an arbitrary state which satisfies it, given by the regions with arbitrary boundaries at an arbitrary offset in the buffer. Each operation preserves the invariant, the place and contents of every region it is not for (stated at an arbitrary byte of an arbitrary region), and its own contract. So the property holds after any history.',
    'Proof by induction over operations; 1 to 5 regions are the constellations an operation can tell apart, as it looks at its region, its neighbours, the first and the last. Element sizes as listed.', 'regions of up to 24 bytes in total; a growth of up to 24 bytes or more than 2^31', harness_timeout=400)

add('C15', ['musli::alloc::Vec: new_in, with_capacity_in, push, pop, clear, reserve, extend_from_slice, extend, as_slice, into_raw_parts, from_raw_parts, into_std, From<std Vec>, comparison, drop', 'musli::alloc::Box: new_in, deref, drop', 'musli::alloc::String: push, push_str, write_str, into_bytes', 'musli::alloc::System and SystemAlloc: alloc, resize, try_merge, capacity, drop'],
    'One operation from an arbitrary state (memory, capacity, length, contents) over an allocator which is only its contract: it grows to any capacity or fails as it likes, and keeps nothing beyond what it is told is in use. Drops are counted per element. The system allocator is checked against the same contract; the slice allocator is C14.',
    'Modular: collections against the contract of Alloc, so they hold on every allocator which satisfies it. Bounded by the number of elements.', 'vectors of up to 3 elements, growing to 6; texts of up to 5 bytes')

add('C26', ['musli::packed::Encoding', 'musli::storage::{en::StorageEncoder, de::StorageDecoder} in packed mode: scalars, encode_pack, decode_pack, bulk (bitwise) copies', 'code derived by #[musli(packed)]'],
    'Every value of packed structs of every fixed-width type, in both byte orders, against a byte-exact specification which is the concatenation of the fields; every proper prefix and every too small buffer is refused; sequences of packed values.',
    'Complete for the types listed in c26.rs; every number type occurs, with and without holes in memory, nested, and as tuple struct.', 'sequences: 2 elements')

add('C25', ['musli::value::en::ValueEncoder: scalars, option, sequence, bytes', 'musli::value::de::ValueDecoder and FromNumber for every integer type', 'Encode and Decode of Value', 'DescriptiveDecoder::decode_any'],
    'Every integer of every type into a dynamic value and out as the other integer types: the identical number or refused; every scalar, option, tuple and array of the listed types survives; a value of another kind is refused; descriptive data read as a dynamic value equals the same data read as the type, and is written as it was.',
    'Complete for scalars, options, tuples and arrays as listed in c25.rs (quick: 2 of the 12 targets per integer type, thorough: all). Dynamic values are leaked, not dropped. Structs, enums, maps and writing numbers back through the descriptive format did not answer in time and are not covered.', 'byte strings: 0, 3 and 4 bytes; descriptive numbers: 2 bytes')

SETUP = 'cargo kani --version && python3 kani/gen_registry.py && python3 kani/gen_registry.py kani-int/src'
HOOK_COMMITS = ['7a039808ae63cf499f007f7ab0d7d29b4fa4605c', 'a32f9b37cbe7bc2305843703b458ff09cdb829fd',
                '1a9b963c917e856b93903048fb54702f9ae2c42b', '43874e391d13e5d5e3a7a30bfa834fdd49d2d825',
                '18a90befd18f135d871600dbeca8ceec43262fad', '75622073124026915e4caaf9912bef44ee7123c5',
                '47662d93b557b19351646a3112e570a974fc4093']
NOTES = 'See DESIGN.md.'
_NOT_BUILT = 'planned (DESIGN.md says how); no check is registered yet'
NOT_APPLICABLE = {
    'C19': 'building a swiss table and finding a key in it was brought under contract for one entry (kani-int/src/c19.rs, not registered); two entries gave no answer in an hour, and a property about collisions cannot be decided on one entry; see DESIGN.md',
    'C20': 'the construction is a randomised search over seeds and sorted buckets whose termination and result depend on the hash function; symbolic execution of it did not answer for two keys; see DESIGN.md',
    'C21': 'no check was built: tries are recursive builders over heap-allocated nodes, which the verifier unwinds without bound; the loads they rest on are C16, C17; see DESIGN.md',
    'C23': 'quantifies over pairs of generated programs (every pair of versions of a type); the skipping it rests on is decided as C05, C07, C13; see DESIGN.md',
    'C24': 'the containers are loops over symbolic lengths with allocation and hashing per element; options, tuples, arrays and lengths are decided as part of C03, C04, C06, C08, and the rest did not answer; see DESIGN.md',
    'C27': 'floating point: the decision procedures within reach bit-blast binary64 arithmetic and 128-bit products of the conversion tables and do not answer, and no contract short of real arithmetic expresses nearest-representable; see DESIGN.md',
    'C28': 'the bridge is generic glue over serde\'s derive: its obligations are about generated programs (every serde type), not about a function which can carry a contract; see DESIGN.md',
    'C29': 'a whole-history property of diagnostic text assembled through formatting machinery; the strings are outside of what the verifier decides; see DESIGN.md',
}
for _i in range(1, 30):
    _p = 'C%02d' % _i
    if _p not in CHECKS:
        NOT_APPLICABLE.setdefault(_p, _NOT_BUILT)
