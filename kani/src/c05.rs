//! C05: skipping in the wire format.
use crate::support::*;
use musli::mode::Binary;

macro_rules! enc {
    ($o:expr) => {
        musli::wire::Encoding::new().with_options::<{ $o }>()
    };
}
const LE: musli::wire::Encoding<{ FIXED_LE }, Binary> = enc!(FIXED_LE);
const BE: musli::wire::Encoding<{ FIXED_BE }, Binary> = enc!(FIXED_BE);
const V: musli::wire::Encoding<{ VARIABLE }, Binary> = enc!(VARIABLE);
const M: musli::wire::Encoding<{ opt(true, 0, true) }, Binary> = enc!(opt(true, 0, true));
const P2: musli::wire::Encoding<{ opt(false, 2, true) }, Binary> = enc!(opt(false, 2, true));
const P1: musli::wire::Encoding<{ opt(true, 1, false) }, Binary> = enc!(opt(true, 1, false));

const LONG: usize = 66;
include!("skips.inc");
skips!(p_unit, 8, (), ());
skips!(p_true, 8, bool, true);
skips!(p_false, 8, bool, false);
skips!(p_u8, 5, u8, kani::any(), LE, V);
skips!(p_i16, 6, i16, kani::any(), LE, BE);
skips!(p_i16_var, 6, i16, kani::any(), V);
skips!(p_u32, 8, u32, kani::any(), BE, LE);
skips!(p_u32_var, 8, u32, kani::any(), V);
skips!(p_i64, 12, i64, kani::any(), LE, M);
skips!(pt_u64_var, 12, u64, kani::any(), V);
skips!(p_u128_fixed, 20, u128, kani::any(), LE, BE);
skips!(p_f32, 8, f32, f32::from_bits(kani::any()), LE, BE);
skips!(p_f64, 12, f64, f64::from_bits(kani::any()), LE, BE);
skips!(p_usize, 12, usize, kani::any(), LE, BE);
skips!(b_usize_var, 6, usize, kani::any::<u16>() as usize, V);
skips!(p_isize, 12, isize, kani::any(), LE, BE);
skips!(p_char, 8, char, kani::any(), LE, BE);
skips!(p_char_var, 8, char, kani::any(), V);
skips!(p_option_none, 8, Option<Option<u8>>, None);
skips!(p_option_some_none, 8, Option<Option<u8>>, Some(None));
skips!(p_option_some, 8, Option<Option<u8>>, Some(Some(kani::any())), LE, BE);
skips!(p_option_some_var, 8, Option<Option<u8>>, Some(Some(kani::any())), V);
skips!(b_u128_max, 22, u128, u128::MAX);
skips!(b_u128_63, 22, u128, 63);
skips!(b_u64_top, 22, u64, 1 << 63);
skips!(b_usize_max, 22, usize, usize::MAX);
skips!(b_isize_min, 22, isize, isize::MIN);
skips!(b_i8, 22, (i8, i8, i8), (-128, -1, 127), LE, V);
skips!(p_tuple, 8, (bool, u8, u16), (true, kani::any(), kani::any()), LE, BE);
skips!(b_array, 8, [u16; 3], kani::any(), LE, BE);
skips!(p_nested, 14, ((u8, (u8, bool)), [Option<bool>; 2]), ((kani::any(), (kani::any(), true)), [Some(false), None]), LE, BE);
skips!(p_nested_var, 14, ((u8, (u8, bool)), [Option<bool>; 2]), ((200, (7, true)), [Some(false), None]), M, V);
skips!(p_bytes, 8, musli::compat::Bytes<[u8; 3]>, musli::compat::Bytes(kani::any()));
skips!(p_named, 10, Named, Named { a: kani::any(), b: Some(kani::any()) }, LE, BE);
skips!(p_named_none, 10, Named, Named { a: kani::any(), b: None }, LE, BE);
skips!(p_packed, 8, PackedPair, PackedPair { a: kani::any(), b: kani::any() }, LE, BE);
skips!(p_unit_variant, 8, Choice, Choice::A);
skips!(p_tuple_variant, 8, Choice, Choice::B(kani::any()), LE, BE);
skips!(p_tuple_variant_var, 8, Choice, Choice::B(kani::any()), V);
skips!(p_struct_variant, 8, Choice, Choice::C { x: kani::any() }, LE, BE);

long!(b_long_bytes_var, V, 6, musli::compat::Bytes<&[u8]>, musli::compat::Bytes(&[5u8; LONG][..]));
long!(b_long_bytes_le, LE, 6, musli::compat::Bytes<&[u8]>, musli::compat::Bytes(&[5u8; LONG - 2][..]));
long!(b_long_sequence_var, V, 70, [bool; LONG], [true; LONG]);
long!(b_long_sequence_be, BE, 70, [bool; LONG - 2], [true; LONG - 2]);


/// The number of bytes the value at the start of `s` occupies, written down
/// from the format's specification. `ptr` is the width of lengths.
fn spec_skip(s: &[u8], ptr: usize, big: bool) -> Option<usize> {
    let mut at = 0usize;
    let mut todo = 1u128;
    while todo > 0 {
        if at >= s.len() {
            return None;
        }
        let tag = s[at];
        at += 1;
        todo -= 1;
        let data = (tag & 0x3f) as u128;
        let len = if data != 63 {
            Some(data)
        } else if tag >= 0xc0 || tag < 0x40 {
            None
        } else if ptr == 0 {
            let (n, v) = varint_denotes(&s[at..], 64)?;
            at += n;
            Some(v)
        } else {
            if s.len() - at < ptr {
                return None;
            }
            let mut v = 0u128;
            let mut i = 0;
            while i < ptr {
                let k = if big { i } else { ptr - 1 - i };
                v = v << 8 | s[at + k] as u128;
                i += 1;
            }
            at += ptr;
            Some(v)
        };
        match tag >> 6 {
            1 => {
                if len.unwrap() > (s.len() - at) as u128 {
                    return None;
                }
                at += len.unwrap() as usize;
            }
            2 => todo += len.unwrap(),
            3 => {
                if len.is_none() {
                    let (n, _) = varint_denotes(&s[at..], 128)?;
                    at += n;
                }
            }
            _ => return None,
        }
    }
    Some(at)
}

// Any bytes: skipping consumes exactly what the format says the value occupies,
// at every nesting depth which fits the length, or fails.
macro_rules! any_bytes {
    ($name:ident, $e:expr, $ptr:literal, $big:literal, $n:literal) => {
        harness!($name, 7, {
            let b: [u8; $n] = kani::any();
            let s = &b[..];
            let mut r = s;
            let got: Result<Skipped, E> = $e.decode_with(Cx, &mut r);
            match spec_skip(s, $ptr, $big) {
                Some(n) => {
                    assert!(got.is_ok(), "what the format describes can be skipped");
                    assert!($n - r.len() == n, "exactly one value is skipped");
                }
                None => assert!(got.is_err(), "bytes which end early or have a reserved tag are refused"),
            }
        });
    };
}
any_bytes!(bt_any_var_2, V, 0, false, 2);
any_bytes!(b_any_var_3, V, 0, false, 3);
any_bytes!(bt_any_var_4, V, 0, false, 4);
any_bytes!(b_any_fixed1_3, P1, 1, false, 3);
any_bytes!(b_any_fixed2_be_4, P2, 2, true, 4);
