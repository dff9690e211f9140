//! C07: skipping in the descriptive format.
use crate::support::*;
use musli::mode::Binary;

macro_rules! enc {
    ($o:expr) => {
        musli::descriptive::Encoding::new().with_options::<{ $o }>()
    };
}
const LE: musli::descriptive::Encoding<{ FIXED_LE }, Binary> = enc!(FIXED_LE);
const BE: musli::descriptive::Encoding<{ FIXED_BE }, Binary> = enc!(FIXED_BE);
const V: musli::descriptive::Encoding<{ VARIABLE }, Binary> = enc!(VARIABLE);
const M: musli::descriptive::Encoding<{ opt(true, 0, true) }, Binary> = enc!(opt(true, 0, true));
const P2: musli::descriptive::Encoding<{ opt(false, 2, true) }, Binary> = enc!(opt(false, 2, true));
const P1: musli::descriptive::Encoding<{ opt(true, 1, false) }, Binary> = enc!(opt(true, 1, false));

const LONG: usize = 50;
include!("skips.inc");
skips!(p_unit, 8, (), ());
skips!(p_true, 8, bool, true);
skips!(p_false, 8, bool, false);
skips!(p_u8, 5, u8, kani::any(), V);
skips!(p_i16, 6, i16, kani::any(), BE);
skips!(p_u32, 8, u32, kani::any(), V);
skips!(pt_u64, 12, u64, kani::any(), V);
skips!(b_u128_max, 22, u128, u128::MAX, V);
skips!(b_i128_min, 22, i128, i128::MIN, V);
skips!(b_i64_min, 12, i64, i64::MIN, LE);
skips!(b_f64_nan, 12, f64, -f64::NAN, V);
skips!(p_f32, 8, f32, f32::from_bits(kani::any()), LE);
skips!(b_usize, 6, usize, kani::any::<u16>() as usize, V);
skips!(b_usize_fixed, 12, usize, usize::MAX, LE, BE, P2);
skips!(b_isize, 6, isize, kani::any::<i16>() as isize, M);
skips!(pt_char, 8, char, kani::any(), V);
skips!(b_char, 8, char, '\u{10ffff}', V);
skips!(p_option_none, 8, Option<Option<u8>>, None);
skips!(p_option_some_none, 8, Option<Option<u8>>, Some(None));
skips!(pt_option_some, 8, Option<Option<u8>>, Some(Some(kani::any())), V);
skips!(b_option_some, 8, Option<Option<u8>>, Some(Some(200)), V);
skips!(b_tuple, 8, (bool, u8, u16), (true, 200, 5000), LE, V);
skips!(pt_tuple, 8, (bool, u8), (false, kani::any()), V);
skips!(b_array, 8, [i16; 3], [-1, i16::MIN, i16::MAX], V);
skips!(b_nested, 14, ((u8, (u8, bool)), [Option<bool>; 2]), ((200, (7, true)), [Some(false), None]), V, M);
skips!(p_bytes, 8, musli::compat::Bytes<[u8; 3]>, musli::compat::Bytes(kani::any()));
skips!(b_named, 10, Named, Named { a: 200, b: Some(70) }, V, BE);
skips!(pt_named_none, 10, Named, Named { a: kani::any(), b: None }, V);
skips!(p_packed, 8, PackedPair, PackedPair { a: kani::any(), b: kani::any() }, LE, BE);
skips!(p_unit_variant, 8, Choice, Choice::A);
skips!(pt_tuple_variant, 8, Choice, Choice::B(kani::any()), V);
skips!(b_tuple_variant, 8, Choice, Choice::B(200), V);
skips!(b_struct_variant, 8, Choice, Choice::C { x: 70 }, V, BE);
long!(b_long_bytes_var, V, 6, musli::compat::Bytes<&[u8]>, musli::compat::Bytes(&[5u8; LONG][..]));
long!(b_long_bytes_le, LE, 6, musli::compat::Bytes<&[u8]>, musli::compat::Bytes(&[5u8; LONG - 2][..]));
long!(b_long_sequence_var, V, 70, [bool; LONG], [true; LONG]);
long!(b_long_sequence_be, BE, 70, [bool; LONG - 2], [true; LONG - 2]);


fn spec_skip(s: &[u8], ptr: usize, big: bool) -> Option<usize> {
    let mut at = 0usize;
    let mut todo = 1u128;
    while todo > 0 {
        if at >= s.len() {
            return None;
        }
        let tag = s[at];
        at += 1;
        todo -= 1;
        let kind = tag >> 5;
        let data = (tag & 0x1f) as u128;
        let len = if kind < 3 || kind == 7 || data != 31 {
            data
        } else if ptr == 0 {
            let (n, v) = varint_denotes(&s[at..], 64)?;
            at += n;
            v
        } else {
            if s.len() - at < ptr {
                return None;
            }
            let mut v = 0u128;
            let mut i = 0;
            while i < ptr {
                let k = if big { i } else { ptr - 1 - i };
                v = v << 8 | s[at + k] as u128;
                i += 1;
            }
            at += ptr;
            v
        };
        match kind {
            2 => {
                let (n, _) = varint_denotes(&s[at..], 128)?;
                at += n;
            }
            3 => todo += len,
            4 => todo += 2 * len,
            5 | 6 => {
                if len > (s.len() - at) as u128 {
                    return None;
                }
                at += len as usize;
            }
            7 => match tag & 7 {
                1 => todo += 1,
                4 => todo += 2,
                5 => {
                    let (n, _) = varint_denotes(&s[at..], 32)?;
                    at += n;
                }
                _ => {}
            },
            _ => return None,
        }
    }
    Some(at)
}

macro_rules! any_bytes {
    ($name:ident, $e:expr, $ptr:literal, $big:literal, $n:literal) => {
        harness!($name, 7, {
            let b: [u8; $n] = kani::any();
            let s = &b[..];
            let mut r = s;
            let got: Result<Skipped, E> = $e.decode_with(Cx, &mut r);
            match spec_skip(s, $ptr, $big) {
                Some(n) => {
                    assert!(got.is_ok(), "what the format describes can be skipped");
                    assert!($n - r.len() == n, "exactly one value is skipped");
                }
                None => assert!(got.is_err(), "bytes which end early or have a reserved tag are refused"),
            }
        });
    };
}
any_bytes!(bt_any_var_2, V, 0, false, 2);
any_bytes!(bt_any_var_3, V, 0, false, 3);
any_bytes!(bt_any_var_4, V, 0, false, 4);
any_bytes!(b_any_fixed1_2, P1, 1, false, 2);
any_bytes!(bt_any_fixed1_3, P1, 1, false, 3);
any_bytes!(bt_any_fixed2_be_4, P2, 2, true, 4);
