//! C01: variable-length integers.
use crate::support::*;
use musli::mode::Binary;

const S: musli::storage::Encoding<{ VARIABLE }, Binary> =
    musli::storage::Encoding::new().with_options::<VARIABLE>();
const W: musli::wire::Encoding<{ VARIABLE }, Binary> =
    musli::wire::Encoding::new().with_options::<VARIABLE>();
const D: musli::descriptive::Encoding<{ VARIABLE }, Binary> =
    musli::descriptive::Encoding::new().with_options::<VARIABLE>();

// Encode, compare with the specification, decode, compare with the value and
// with the amount which was written.
macro_rules! storage_roundtrip {
    ($name:ident, $t:ty) => {
        harness!($name, 21, {
            let v: $t = kani::any();
            let b = S.to_fixed_bytes_with::<_, 20, _>(Cx, &v).unwrap();
            let s = b.as_slice();
            assert!(is_canonical_varint(s, v.zig()), "canonical continuation encoding");
            let mut r = s;
            let back: Result<$t, E> = S.decode_with(Cx, &mut r);
            assert!(back == Ok(v), "decodes to the value which was encoded");
            assert!(r.is_empty(), "consumes exactly what was written");
        });
    };
}
storage_roundtrip!(p_storage_rt_u16, u16);
storage_roundtrip!(p_storage_rt_u32, u32);
storage_roundtrip!(p_storage_rt_u64, u64);
storage_roundtrip!(p_storage_rt_u128, u128);
storage_roundtrip!(p_storage_rt_usize, usize);
storage_roundtrip!(p_storage_rt_i16, i16);
storage_roundtrip!(p_storage_rt_i32, i32);
storage_roundtrip!(p_storage_rt_i64, i64);
storage_roundtrip!(p_storage_rt_i128, i128);

macro_rules! wire_roundtrip {
    ($name:ident, $t:ty) => {
        wire_roundtrip!($name, $t, |v: $t| v.zig());
    };
    ($name:ident, $t:ty, $image:expr) => {
        harness!($name, 22, {
            let v: $t = kani::any();
            let b = W.to_fixed_bytes_with::<_, 21, _>(Cx, &v).unwrap();
            let s = b.as_slice();
            let z: u128 = ($image)(v);
            if z < 63 {
                assert!(s.len() == 1 && s[0] == 0xc0 | z as u8, "small values are one byte");
            } else {
                assert!(s[0] == 0xff && is_canonical_varint(&s[1..], z), "canonical continuation encoding");
            }
            let mut r = s;
            let back: Result<$t, E> = W.decode_with(Cx, &mut r);
            assert!(back == Ok(v), "decodes to the value which was encoded");
            assert!(r.is_empty(), "consumes exactly what was written");
        });
    };
}
wire_roundtrip!(p_wire_rt_u8, u8);
wire_roundtrip!(p_wire_rt_u16, u16);
wire_roundtrip!(p_wire_rt_u32, u32);
wire_roundtrip!(p_wire_rt_u64, u64);
wire_roundtrip!(p_wire_rt_u128, u128);
wire_roundtrip!(p_wire_rt_usize, usize);
// `i8` and `isize` are stored as their two's complement image.
wire_roundtrip!(p_wire_rt_i8, i8, |v: i8| v as u8 as u128);
wire_roundtrip!(p_wire_rt_i16, i16);
wire_roundtrip!(p_wire_rt_i32, i32);
wire_roundtrip!(p_wire_rt_i64, i64);
wire_roundtrip!(p_wire_rt_i128, i128);
wire_roundtrip!(p_wire_rt_isize, isize, |v: isize| v as usize as u128);

macro_rules! descriptive_roundtrip {
    ($name:ident, $t:ty) => {
        harness!($name, 22, {
            let v: $t = kani::any();
            let b = D.to_fixed_bytes_with::<_, 21, _>(Cx, &v).unwrap();
            let s = b.as_slice();
            assert!(is_canonical_varint(&s[1..], v.zig()), "canonical continuation encoding");
            let mut r = s;
            let back: Result<$t, E> = D.decode_with(Cx, &mut r);
            assert!(back == Ok(v), "decodes to the value which was encoded");
            assert!(r.is_empty(), "consumes exactly what was written");
        });
    };
}
descriptive_roundtrip!(p_descriptive_rt_u8, u8);
descriptive_roundtrip!(p_descriptive_rt_u16, u16);
descriptive_roundtrip!(p_descriptive_rt_u32, u32);
descriptive_roundtrip!(p_descriptive_rt_u64, u64);
descriptive_roundtrip!(p_descriptive_rt_u128, u128);
descriptive_roundtrip!(p_descriptive_rt_usize, usize);
descriptive_roundtrip!(p_descriptive_rt_i8, i8);
descriptive_roundtrip!(p_descriptive_rt_i16, i16);
descriptive_roundtrip!(p_descriptive_rt_i32, i32);
descriptive_roundtrip!(p_descriptive_rt_i64, i64);
descriptive_roundtrip!(p_descriptive_rt_i128, i128);
descriptive_roundtrip!(p_descriptive_rt_isize, isize);

// Any sequence of bytes: either an error, or exactly the number it denotes and
// exactly the bytes it occupies. A decoder stops at the latest after the bytes
// an integer of that width can occupy, so the length below is not a bound on
// what is covered.
macro_rules! storage_decode {
    ($name:ident, $t:ty, $n:literal) => {
        harness!($name, 23, {
            let bytes: [u8; $n] = kani::any();
            let len = any_len($n);
            let s = &bytes[..len];
            let mut r = s;
            let got: Result<$t, E> = S.decode_with(Cx, &mut r);
            if let Ok(v) = got {
                let Some((used, value)) = varint_denotes(s, <$t>::BITS) else {
                    panic!("accepted bytes which do not denote a value of the type");
                };
                assert!(v.zig() == value, "no bits are lost");
                assert!(len - r.len() == used, "consumes exactly the sequence");
            } else if let Some((used, value)) = varint_denotes(s, <$t>::BITS) {
                assert!(used != groups(value), "a canonical sequence is accepted");
            }
        });
    };
}
storage_decode!(p_storage_decode_u16, u16, 5);
storage_decode!(p_storage_decode_u32, u32, 7);
storage_decode!(p_storage_decode_u64, u64, 12);
storage_decode!(p_storage_decode_u128, u128, 21);
storage_decode!(p_storage_decode_usize, usize, 12);
storage_decode!(p_storage_decode_i16, i16, 5);
storage_decode!(p_storage_decode_i32, i32, 7);
storage_decode!(p_storage_decode_i64, i64, 12);
storage_decode!(p_storage_decode_i128, i128, 21);

macro_rules! wire_decode {
    ($name:ident, $t:ty, $n:literal) => {
        harness!($name, 23, {
            let bytes: [u8; $n] = kani::any();
            let len = any_len($n);
            let s = &bytes[..len];
            let mut r = s;
            let got: Result<$t, E> = W.decode_with(Cx, &mut r);
            let denotes = if len == 0 || s[0] < 0xc0 {
                None
            } else if s[0] != 0xff {
                Some((1, (s[0] & 0x3f) as u128))
            } else {
                varint_denotes(&s[1..], <$t>::BITS).map(|(n, v)| (n + 1, v))
            };
            if let Ok(v) = got {
                let Some((used, value)) = denotes else {
                    panic!("accepted bytes which do not denote a value of the type");
                };
                assert!(v as u128 == value, "no bits are lost");
                assert!(len - r.len() == used, "consumes exactly the sequence");
            } else if let Some((used, value)) = denotes {
                assert!(used != 1 && used != 1 + groups(value), "a canonical sequence is accepted");
            }
        });
    };
}
wire_decode!(p_wire_decode_u8, u8, 5);
wire_decode!(p_wire_decode_u16, u16, 6);
wire_decode!(p_wire_decode_u32, u32, 8);
wire_decode!(p_wire_decode_u64, u64, 13);
wire_decode!(p_wire_decode_u128, u128, 22);
wire_decode!(p_wire_decode_usize, usize, 13);
