//! C11: JSON integers without fractions and exponents: what is in front of those
//! in every number. This crate is built without the feature which parses those.
use crate::support::*;
use musli::json::Encoding;
use musli::mode::Text;

const JSON: Encoding<Text> = Encoding::new();

/// Integers and what they are, mathematically.
pub trait Int: Copy + PartialEq {
    const BITS: u32;
    const SIGNED: bool;
    /// The largest magnitude representable with this sign.
    fn biggest(negative: bool) -> u128 {
        let bits = Self::BITS - Self::SIGNED as u32;
        let max = u128::MAX >> (128 - bits);
        match (Self::SIGNED, negative) {
            (true, true) => max + 1,
            (false, true) => 0,
            _ => max,
        }
    }
    /// Sign and magnitude.
    fn parts(self) -> (bool, u128);
}
macro_rules! int {
    ($($u:ty, $i:ty;)*) => {$(
        impl Int for $u {
            const BITS: u32 = <$u>::BITS;
            const SIGNED: bool = false;
            fn parts(self) -> (bool, u128) { (false, self as u128) }
        }
        impl Int for $i {
            const BITS: u32 = <$u>::BITS;
            const SIGNED: bool = true;
            fn parts(self) -> (bool, u128) { (self < 0, self.unsigned_abs() as u128) }
        }
    )*};
}
int!(u8, i8; u16, i16; u32, i32; u64, i64; u128, i128; usize, isize;);

// Digits, and a byte which is not part of a number: any text of any length.
macro_rules! digits {
    ($name:ident, $t:ty, $w:ty, $digits:literal, $u:literal) => {
        harness!($name, $u, {
            let s = any_slice();
            let mut at = 0;
            let negative = <$t>::SIGNED && s.len() > 0 && s[0] == b'-';
            if negative {
                at = 1;
            }
            // Whitespace in front is skipped.
            kani::assume(s.len() == 0 || !matches!(s[0], b' ' | b'\t' | b'\r' | b'\n'));
            let mut want: Option<$w> = None;
            let mut fits = true;
            let mut n = 0;
            // One digit more than the largest number does not fit.
            while n <= $digits && at < s.len() && s[at].is_ascii_digit() && want != Some(0) {
                let d = (s[at] - b'0') as $w;
                let v = match want {
                    None => Some(d),
                    Some(v) => v.checked_mul(10).and_then(|v| v.checked_add(d)),
                };
                match v {
                    Some(v) => want = Some(v),
                    _ => {
                        fits = false;
                        break;
                    }
                }
                at += 1;
                n += 1;
            }
            fits = fits && want.map_or(true, |v| v <= <$t>::biggest(negative) as $w);
            let got: Result<$t, E> = JSON.decode_with(Cx, s);
            match got {
                Ok(v) => {
                    assert!(fits && want.is_some(), "refused where it does not fit");
                    assert!(v.parts() == (negative && want != Some(0), want.unwrap() as u128), "the same value");
                    reachable!("accepted");
                }
                Err(_) => {
                    assert!(!fits || want.is_none(), "accepted where it fits");
                    reachable!("refused");
                }
            }
        });
    };
}
digits!(p_digits_u8, u8, u8, 3, 6);
digits!(p_digits_i8, i8, u8, 3, 6);
digits!(p_digits_u16, u16, u16, 5, 8);
digits!(p_digits_i16, i16, u16, 5, 8);
digits!(p_digits_u32, u32, u32, 10, 13);
digits!(pt_digits_i32, i32, u32, 10, 13);
digits!(pt_digits_u64, u64, u64, 20, 23);
digits!(pt_digits_i64, i64, u64, 19, 23);
digits!(pt_digits_usize, usize, usize, 20, 23);
digits!(pt_digits_isize, isize, usize, 19, 23);
digits!(pt_digits_u128, u128, u128, 39, 42);
digits!(pt_digits_i128, i128, u128, 39, 42);


// Around the largest numbers: all but the last two digits are those of the largest.
macro_rules! near {
    ($name:ident, $t:ty, $prefix:literal, $u:literal) => {
        harness!($name, $u, {
            const P: usize = $prefix.len();
            let mut text = [0u8; P + 3];
            text[..P].copy_from_slice($prefix);
            let (a, b): (u8, u8) = (kani::any(), kani::any());
            kani::assume(a < 10 && b < 10);
            let last: u8 = kani::any();
            kani::assume(last < b'0' || last > b'9');
            text[P] = b'0' + a;
            text[P + 1] = b'0' + b;
            text[P + 2] = last;
            let negative = $prefix[0] == b'-';
            // The last two digits of the largest.
            let most = (<$t>::biggest(negative) % 100) as u8;
            let got: Result<$t, E> = JSON.decode_with(Cx, &text[..]);
            match got {
                Ok(v) => {
                    assert!(a * 10 + b <= most, "refused where it does not fit");
                    let big = <$t>::biggest(negative);
                    assert!(v.parts() == (negative, big - (most - a * 10 - b) as u128), "the same value");
                    reachable!("accepted");
                }
                Err(_) => {
                    assert!(a * 10 + b > most, "accepted where it fits");
                    reachable!("refused");
                }
            }
            // And ten times as much.
            text[P + 2] = b'0';
            let got: Result<$t, E> = JSON.decode_with(Cx, &text[..]);
            assert!(got.is_err(), "refused where it does not fit");
        });
    };
}
near!(b_near_u64, u64, b"184467440737095516", 23);
near!(b_near_i64, i64, b"92233720368547758", 23);
near!(b_near_i64_neg, i64, b"-92233720368547758", 23);
near!(b_near_u128, u128, b"3402823669209384634633746074317682114", 42);
near!(bt_near_i128_neg, i128, b"-1701411834604692317316873037158841057", 42);
near!(bt_near_usize, usize, b"184467440737095516", 23);
near!(bt_near_isize_neg, isize, b"-92233720368547758", 23);
near!(bt_near_i32_neg, i32, b"-21474836", 14);
