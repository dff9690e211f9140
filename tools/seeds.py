"""Planted bugs: SEEDS[id] = (property, [(file, old, new)..], needs, what_it_breaks, demo main.rs).
Read by mkseed.py, which builds seeded/<id>; no check reads this."""
SEEDS = {}


def seed(sid, prop, edits, needs, breaks, main):
    assert sid not in SEEDS
    SEEDS[sid] = (prop, edits, needs, breaks, main)


M = 'crates/musli/src/'
Z = 'crates/musli-zerocopy/src/'
K = 'crates/musli-core/src/'

seed('S01', 'C01', [(M + 'int/continuation.rs', 'if shift >= T::BITS {', 'if shift >= T::BITS + 7 {')],
     'a variable-length integer with one more continuation byte than the type has room for',
     'such an encoding is accepted (or panics) instead of being refused',
     r'''
fn main() {
    for bytes in [&[0x80u8, 0x80, 0x80, 0x00][..], &[0xff, 0x80, 0x80, 0x00]] {
        let r = std::panic::catch_unwind(|| musli::storage::from_slice::<u16>(bytes));
        assert!(matches!(r, Ok(Err(..))), "{bytes:?} is not the encoding of a u16: {r:?}");
    }
}
''')
seed('S02', 'C02', [(M + 'options.rs', 'const MASK: Options = Width::MASK << LENGTH_BIT;\n        Self((self.0 & !MASK) | ((width as Options) << LENGTH_BIT))',
                     'const MASK: Options = Width::MASK << LENGTH_BIT;\n        Self((self.0 | (MASK & self.0)) | ((width as Options) << LENGTH_BIT))')],
     'two settings of the length width on one builder, the later one narrower',
     'the widths are merged instead of the later one replacing the earlier one',
     r'''
use musli::options::{self, Options, Width};
const OPT: Options = options::new().fixed().pointer(Width::U16).build();
const ENC: musli::storage::Encoding<OPT> = musli::storage::Encoding::new().with_options();
fn main() {
    let b = ENC.to_vec("ab").unwrap();
    assert_eq!(b, [2, 0, b'a', b'b']);
}
''')
seed('S03', 'C02', [(M + 'int/encoding.rs', '''                    let Ok(value) = <$ty>::try_from(value) else {
                        return Err(cx.message("Size type out of bounds for value type"));
                    };

                    <$ty as UnsignedOps>''', '''                    let value = value as $ty;

                    <$ty as UnsignedOps>''')],
     'a length which does not fit the configured length width',
     'the length is truncated on the way out instead of being refused',
     r'''
use musli::options::{self, Options, Width};
const OPT: Options = options::new().pointer(Width::U8).build();
const ENC: musli::storage::Encoding<OPT> = musli::storage::Encoding::new().with_options();
fn main() {
    let s = "x".repeat(256);
    assert!(ENC.to_vec(s.as_str()).is_err());
}
''')
seed('S04', 'C03', [(M + 'storage/de.rs', '''        match byte {
            0 => Ok(false),
            1 => Ok(true),
            b => Err(self.cx.message_at(&mark, BadBoolean { actual: b })),''', '''        match byte & 0x7f {
            0 => Ok(false),
            1 => Ok(true),
            b => Err(self.cx.message_at(&mark, BadBoolean { actual: b })),''')],
     'a boolean byte of 0x80 or 0x81', 'an invalid boolean is decoded instead of refused',
     r'''
fn main() {
    assert!(musli::storage::from_slice::<bool>(&[0x81]).is_err());
    assert!(musli::storage::from_slice::<bool>(&[0x80]).is_err());
}
''')
seed('S05', 'C04', [(M + 'int/traits.rs', 'self < b as $unsigned', '(self as u64) < b as u64')],
     'a 128-bit integer which is a multiple of 2^64 plus something small',
     'it is encoded as the small remainder',
     r'''
fn main() {
    for v in [1u128 << 64, (5u128 << 64) + 62, (1u128 << 64) + 63, u128::MAX] {
        let b = musli::wire::to_vec(&v).unwrap();
        assert_eq!(musli::wire::from_slice::<u128>(&b).unwrap(), v);
    }
}
''')
seed('S06', 'C05', [(M + 'wire/de.rs', 'let _ = c::decode::<_, _, u128>(self.cx', 'let _ = c::decode::<_, _, u64>(self.cx')],
     'an unknown field holding a 128-bit integer which does not fit 64 bits',
     'skipping it fails',
     r'''
use musli::{Encode, Decode};
#[derive(Encode)]
#[musli(crate = musli_core)]
struct New { a: u32, extra: u128, b: u32 }
#[derive(Decode, Debug, PartialEq)]
#[musli(crate = musli_core)]
struct Old { a: u32, #[musli(Binary, name = 2)] b: u32 }
fn main() {
    let b = musli::wire::to_vec(&New { a: 1, extra: 1 << 100, b: 2 }).unwrap();
    assert_eq!(musli::wire::from_slice::<Old>(&b).unwrap(), Old { a: 1, b: 2 });
}
''')
seed('S07', 'C06', [(M + 'descriptive/integer_encoding.rs', '''            let Ok(value) = T::try_from(value) else {
                return Err(cx.message(format_args!("Unsigned value outside of signed range")));
            };

            Ok(value)''', '''            Ok(value.signed())''')],
     'an unsigned number above the signed maximum, decoded as the signed type of its width',
     'it wraps around to a negative number instead of being refused',
     r'''
fn main() {
    let b = musli::descriptive::to_vec(&200u8).unwrap();
    assert!(musli::descriptive::from_slice::<i8>(&b).is_err());
    let b = musli::descriptive::to_vec(&u64::MAX).unwrap();
    assert!(musli::descriptive::from_slice::<i64>(&b).is_err());
}
''')
seed('S08', 'C07', [(M + 'descriptive/de.rs', '''                    Mark::Char => {
                        _ = c::decode::<_, _, u32>''', '''                    Mark::Char => {
                        _ = c::decode::<_, _, u16>''')],
     'an unknown field holding a character outside of the basic multilingual plane',
     'skipping it fails',
     r'''
use musli::{Encode, Decode};
#[derive(Encode)]
#[musli(crate = musli_core)]
struct New { a: u32, extra: char, b: u32 }
#[derive(Decode, Debug, PartialEq)]
#[musli(crate = musli_core)]
struct Old { a: u32, #[musli(Binary, name = 2)] b: u32 }
fn main() {
    let b = musli::descriptive::to_vec(&New { a: 1, extra: '\u{1f600}', b: 2 }).unwrap();
    assert_eq!(musli::descriptive::from_slice::<Old>(&b).unwrap(), Old { a: 1, b: 2 });
}
''')
seed('S09', 'C09', [(M + 'reader.rs', 'if outcome > range.end || outcome < range.start {', 'if outcome > range.end {')],
     'a hostile length so large that the position wraps around the address space',
     'the reader moves backwards to before the start of its input',
     r'''
use musli::reader::{Reader, SliceReader};
fn main() {
    let data = [1u8, 2, 3, 4, 5, 6, 7, 8];
    let cx = musli::context::new();
    let mut r = SliceReader::new(&data[4..]);
    let p = r.as_slice().as_ptr();
    assert!(r.skip(&cx, usize::MAX - 2).is_err());
    assert_eq!(r.as_slice().as_ptr(), p);
}
''')
seed('S10', 'C10', [(M + 'fixed.rs', 'if source.len() > N.saturating_sub(self.init) {', 'if source.len() > N - (self.init & !1) {')],
     'a fixed buffer holding an odd number of bytes, and a write one byte longer than what remains',
     'the write runs one byte past the end of the buffer',
     r'''
use musli::FixedBytes;
fn main() {
    let mut b = Box::new(FixedBytes::<4>::new());
    assert!(b.push(1));
    assert!(!b.extend_from_slice(&[2, 3, 4, 5]));
    assert_eq!(b.len(), 1);
}
''')
seed('S11', 'C09', [(M + 'reader.rs', '''        self.bounds_check(cx, N)?;
        self.reader.read_array(cx)''', '''        self.bounds_check(cx, N.min(self.remaining.max(1)))?;
        self.reader.read_array(cx)''')],
     'a packed value read through a limited reader, whose length is shorter than the array read from it',
     'the limited reader reads past its limit into what follows',
     r'''
use musli::reader::{Reader, SliceReader};
fn main() {
    let data = [1u8, 2, 3, 4, 5, 6, 7, 8];
    let cx = musli::context::new();
    let mut r = SliceReader::new(&data).limit(3);
    assert!(r.read_array::<_, 5>(&cx).is_err());
}
''')
