//! C11: JSON integers.
use crate::support::*;
use musli::json::{verif_integer, Encoding};
use musli::mode::Text;

const JSON: Encoding<Text> = Encoding::new();

/// Integers and what they are, mathematically.
pub trait Int: Copy + PartialEq {
    const BITS: u32;
    const SIGNED: bool;
    /// The largest magnitude representable with this sign.
    fn biggest(negative: bool) -> u128 {
        let bits = Self::BITS - Self::SIGNED as u32;
        let max = u128::MAX >> (128 - bits);
        match (Self::SIGNED, negative) {
            (true, true) => max + 1,
            (false, true) => 0,
            _ => max,
        }
    }
    /// Sign and magnitude.
    fn parts(self) -> (bool, u128);
}
macro_rules! int {
    ($($u:ty, $i:ty;)*) => {$(
        impl Int for $u {
            const BITS: u32 = <$u>::BITS;
            const SIGNED: bool = false;
            fn parts(self) -> (bool, u128) { (false, self as u128) }
        }
        impl Int for $i {
            const BITS: u32 = <$u>::BITS;
            const SIGNED: bool = true;
            fn parts(self) -> (bool, u128) { (self < 0, self.unsigned_abs() as u128) }
        }
    )*};
}
int!(u8, i8; u16, i16; u32, i32; u64, i64; u128, i128; usize, isize;);

/// Powers of ten which fit.
const P10: [u128; 39] = {
    let mut p = [1; 39];
    let mut i = 1;
    while i < 39 {
        p[i] = p[i - 1] * 10;
        i += 1;
    }
    p
};

fn p10(n: i64) -> Option<u128> {
    if n < 0 || n >= 39 {
        None
    } else {
        Some(P10[n as usize])
    }
}

/// `(base + m / 10 ** exp) * 10 ** e` where that is an integer of at most `max`.
/// Requires that `m` is zero, or not divisible by ten and less than `10 ** exp`.
fn value(base: u128, m: u128, exp: i32, e: i32, max: u128) -> Option<u128> {
    let (exp, e) = (exp as i64, e as i64);
    if base == 0 && m == 0 {
        return Some(0);
    }
    if m != 0 && e < exp {
        // The last digit stays behind the decimal point.
        return None;
    }
    let mut v = 0;
    if base != 0 {
        if e < 0 {
            // Too small to be an integer.
            let p = p10(-e)?;
            return if base % p == 0 { Some(base / p) } else { None };
        }
        v = base.checked_mul(p10(e)?)?;
    }
    if m != 0 {
        v = v.checked_add(m.checked_mul(p10(e - exp)?)?)?;
    }
    if v <= max {
        Some(v)
    } else {
        None
    }
}

// What the parts of a number are worth, for every such parts.
macro_rules! compute {
    ($name:ident, $t:ty, $u:literal) => {
        harness!($name, $u, {
            let (base, m, exp, e): ($t, $t, i32, i32) = (kani::any(), kani::any(), kani::any(), kani::any());
            kani::assume(exp >= 0 && (m == 0 || m % 10 != 0 && exp > 0));
            let got = verif_integer::unsigned::<$t>(base, m, exp, e);
            let want = value(base as u128, m as u128, exp, e, <$t>::MAX as u128);
            assert!(got.map(|v| v as u128) == want, "exactly the value, or refused");
        });
    };
}
compute!(p_compute_u8, u8, 34);
compute!(pt_compute_u16, u16, 34);
compute!(pt_compute_u32, u32, 34);

// With a sign.
macro_rules! signed {
    ($name:ident, $t:ty, $u:ty) => {
        harness!($name, 34, {
            let (base, m, exp, e): ($u, $u, i32, i32) = (kani::any(), kani::any(), kani::any(), kani::any());
            kani::assume(exp >= 0 && (m == 0 || m % 10 != 0 && exp > 0));
            let n = kani::any();
            let got = verif_integer::signed::<$t, $u>(n, base, m, exp, e);
            let want = verif_integer::unsigned::<$u>(base, m, exp, e);
            let want = want.filter(|v| *v as u128 <= <$t as Int>::biggest(n));
            assert!(got.is_some() == want.is_some(), "refused where it does not fit");
            if let (Some(got), Some(want)) = (got, want) {
                assert!(got.parts() == (n && want != 0, want as u128), "the same magnitude");
            }
        });
    };
}
signed!(p_signed_i8, i8, u8);
signed!(p_signed_i16, i16, u16);


// The same, by exponent.
macro_rules! compute_at {
    ($name:ident, $t:ty, $e:expr) => {
        harness!($name, 34, {
            let (base, m, exp): ($t, $t, i32) = (kani::any(), kani::any(), kani::any());
            kani::assume(exp >= 0 && (m == 0 || m % 10 != 0 && exp > 0));
            let e: i32 = $e;
            let got = verif_integer::unsigned::<$t>(base, m, exp, e);
            let want = value(base as u128, m as u128, exp, e, <$t>::MAX as u128);
            assert!(got.map(|v| v as u128) == want, "exactly the value, or refused");
        });
    };
}
compute_at!(p_compute_u32_0, u32, 0);
compute_at!(p_compute_u32_1, u32, 1);
compute_at!(pt_compute_u32_9, u32, 9);
compute_at!(p_compute_u32_m1, u32, -1);
compute_at!(p_compute_u64_0, u64, 0);
compute_at!(p_compute_u64_2, u64, 2);
compute_at!(pt_compute_u64_19, u64, 19);
compute_at!(pt_compute_u64_m2, u64, -2);

/// As [`value`], for up to 16 bits.
fn value16(base: u16, m: u16, exp: i32, e: i32, max: u16) -> Option<u16> {
    const P: [u16; 5] = [1, 10, 100, 1000, 10000];
    if base == 0 && m == 0 {
        return Some(0);
    }
    if m != 0 && e < exp {
        return None;
    }
    let mut v = 0;
    if base != 0 {
        if e < 0 {
            if e < -4 {
                return None;
            }
            let p = P[-e as usize];
            return if base % p == 0 { Some(base / p) } else { None };
        }
        if e > 4 {
            return None;
        }
        v = base.checked_mul(P[e as usize])?;
    }
    if m != 0 {
        if e - exp > 4 {
            return None;
        }
        v = v.checked_add(m.checked_mul(P[(e - exp) as usize])?)?;
    }
    if v <= max {
        Some(v)
    } else {
        None
    }
}

/// A number at the start of `s`, up to `N` bytes: how long it is, its sign, the
/// digits in front of the decimal point, those behind without the zeros at the
/// end, how many those are, and the exponent.
fn number<const N: usize>(s: &[u8], signed: bool) -> Option<(usize, bool, i64, i64, i32, i32)> {
    let at = |i: usize| if i < s.len() { s[i] } else { 0 };
    let mut i = 0;
    let negative = signed && at(0) == b'-';
    if negative {
        i += 1;
    }
    if !at(i).is_ascii_digit() {
        return None;
    }
    let mut base = 0;
    if at(i) == b'0' {
        i += 1;
    } else {
        while at(i).is_ascii_digit() {
            base = base * 10 + (at(i) - b'0') as i64;
            i += 1;
        }
    }
    let (mut m, mut exp) = (0i64, 0);
    if at(i) == b'.' {
        i += 1;
        let mut all = 0i64;
        let mut n = 0;
        while at(i).is_ascii_digit() {
            all = all * 10 + (at(i) - b'0') as i64;
            n += 1;
            i += 1;
            if at(i - 1) != b'0' {
                (m, exp) = (all, n);
            }
        }
    }
    let mut e = 0;
    if at(i) == b'e' || at(i) == b'E' {
        i += 1;
        let neg = at(i) == b'-';
        if neg || at(i) == b'+' {
            i += 1;
        }
        while at(i).is_ascii_digit() {
            e = e * 10 + (at(i) - b'0') as i32;
            i += 1;
        }
        if neg {
            e = -e;
        }
    }
    Some((i, negative, base, m, exp, e))
}

// All texts up to a length.
macro_rules! text {
    ($name:ident, $t:ty, $n:literal, $u:literal) => {
        harness!($name, $u, {
            let text: [u8; $n] = any_bytes();
            let s = &text[..];
            kani::assume(!matches!(s[0], b' ' | b'\t' | b'\r' | b'\n'));
            let got: Result<$t, E> = JSON.decode_with(Cx, s);
            let want = number::<$n>(s, <$t>::SIGNED);
            let want = want.and_then(|(n, negative, base, m, exp, e)| {
                // The digits themselves have to fit.
                let most = u16::MAX >> (16 - <$t>::BITS);
                if base > most as i64 || m > most as i64 {
                    return None;
                }
                let v = value16(base as u16, m as u16, exp, e, <$t>::biggest(negative) as u16)? as u128;
                Some((n, (negative && v != 0, v)))
            });
            match (got, want) {
                (Ok(v), Some((n, want))) => {
                    assert!(v.parts() == want, "the same value");
                    reachable!("accepted");
                }
                (Err(_), None) => {
                    reachable!("refused");
                }
                (Ok(_), None) => assert!(false, "accepted a number which is no integer of the type"),
                (Err(_), Some(_)) => assert!(false, "refused an integer of the type"),
            }
        });
    };
}
text!(bt_text5_u8, u8, 5, 7);
text!(b_text3_i8, i8, 3, 5);
text!(b_text3_u8, u8, 3, 5);
text!(bt_text4_i8, i8, 4, 6);
text!(bt_text4_u8, u8, 4, 6);
text!(bt_text5_i8, i8, 5, 7);
text!(bt_text6_u16, u16, 6, 8);
text!(bt_text7_u8, u8, 7, 9);
text!(bt_text6_i16, i16, 6, 8);

// What is written parses back, and is the number.
macro_rules! format {
    ($name:ident, $t:ty, $digits:literal, $u:literal) => {
        harness!($name, $u, {
            let v: $t = kani::any();
            let mut out = [0u8; 44];
            let n = JSON.to_slice_with(Cx, &mut out, &v).unwrap();
            let (negative, mut rest) = v.parts();
            assert!(n > negative as usize && n <= $digits + negative as usize);
            // Digits from the back.
            let mut i = n;
            while i > negative as usize {
                i -= 1;
                assert!(out[i] == b'0' + (rest % 10) as u8, "the digits of the number");
                rest /= 10;
            }
            assert!(rest == 0 && (!negative || out[0] == b'-'), "the sign of the number");
            assert!(n == 1 + negative as usize || out[negative as usize] != b'0', "no zeros in front");
        });
    };
}
format!(p_format_u8, u8, 3, 6);
format!(p_format_i8, i8, 3, 6);
format!(p_format_u16, u16, 5, 8);
format!(p_format_i16, i16, 5, 8);
format!(pt_format_u32, u32, 10, 13);
format!(pt_format_i32, i32, 10, 13);

// As object keys.
struct Key<T>(T);
impl<'de, M, A, T> musli::Decode<'de, M, A> for Key<T>
where
    M: 'static,
    A: musli::Allocator,
    T: musli::Decode<'de, M, A>,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(d: D) -> Result<Self, D::Error>
    where
        D: musli::Decoder<'de, Mode = M, Allocator = A>,
    {
        use musli::de::{EntryDecoder, MapDecoder};
        d.decode_map(|m| {
            let Some(mut e) = m.decode_entry()? else {
                return Err(m.cx().message("no entry"));
            };
            let k = T::decode(e.decode_key()?)?;
            musli::Decoder::skip(e.decode_value()?)?;
            Ok(Key(k))
        })
    }
}

// Three characters of a key: a number, all of it, or refused.
macro_rules! key {
    ($name:ident, $t:ty) => {
        harness!($name, 8, {
            let k: [u8; 3] = any_bytes();
            kani::assume(k[0] < 0x80 && k[1] < 0x80 && k[2] < 0x80);
            // No escapes, ends, exponents or leading whitespace.
            kani::assume(!k.iter().any(|b| matches!(b, b'"' | b'\\' | b'.' | b'e' | b'E')));
            kani::assume(!matches!(k[0], b' ' | b'\t' | b'\r' | b'\n'));
            let text = [b'{', b'"', k[0], k[1], k[2], b'"', b':', b'0', b'}'];
            let got: Result<Key<$t>, E> = JSON.decode_with(Cx, &text[..]);
            let negative = <$t>::SIGNED && k[0] == b'-';
            let d = &k[negative as usize..];
            let mut want = 0;
            let mut i = 0;
            let mut digits = d[0] != b'0';
            while i < d.len() {
                digits = digits && d[i].is_ascii_digit();
                want = want * 10 + (d[i].wrapping_sub(b'0')) as u128;
                i += 1;
            }
            match got {
                Ok(v) => assert!(digits && v.0.parts() == (negative, want), "the number which is the key"),
                Err(_) => assert!(!digits || want > <$t>::biggest(negative), "refused where it fits"),
            }
        });
    };
}
key!(bt_key_u8, u8);
key!(bt_key_i8, i8);
key!(bt_key_u64, u64);

// A key is written as its digits.
harness!(b_key_format, 8, {
    use musli::en::MapEncoder;
    struct One(u8);
    impl<M> musli::Encode<M> for One {
        const IS_BITWISE_ENCODE: bool = false;
        type Encode = Self;
        fn encode<E>(&self, e: E) -> Result<(), E::Error>
        where
            E: musli::Encoder<Mode = M>,
        {
            e.encode_map_fn(1, |m| m.insert_entry(self.0, true))
        }
        fn as_encode(&self) -> &Self {
            self
        }
    }
    let v: u8 = kani::any();
    let mut out = [0u8; 32];
    let n = JSON.to_slice_with(Cx, &mut out, &One(v)).unwrap();
    let digits = if v < 10 { 1 } else if v < 100 { 2 } else { 3 };
    assert!(n == digits + 9 && out[0] == b'{' && out[1] == b'"' && out[2 + digits] == b'"' && out[3 + digits] == b':');
    let d = [v / 100, v / 10 % 10, v % 10];
    let i = any_len(digits - 1);
    assert!(out[2 + i] == b'0' + d[3 - digits + i], "the digits of the key");
});
