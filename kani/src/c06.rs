//! C06: descriptive scalars and numbers read as another type.
use crate::support::*;
use musli::mode::Binary;

macro_rules! enc {
    ($o:expr) => {
        musli::descriptive::Encoding::new().with_options::<{ $o }>()
    };
}
const LE: musli::descriptive::Encoding<{ FIXED_LE }, Binary> = enc!(FIXED_LE);
const BE: musli::descriptive::Encoding<{ FIXED_BE }, Binary> = enc!(FIXED_BE);
const V: musli::descriptive::Encoding<{ VARIABLE }, Binary> = enc!(VARIABLE);
const M: musli::descriptive::Encoding<{ opt(true, 0, true) }, Binary> = enc!(opt(true, 0, true));

/// How the first byte of text differs from that of a byte string.
const TEXT_XOR: u8 = 0x60;
include!("scalars.inc");
truncated!(p_truncated_option, 8, V, Option<u16>, Some(kani::any()));
truncated!(p_truncated_none, 8, V, Option<u16>, None);
truncated!(b_truncated_array, 8, V, [bool; 2], [false, true]);
truncated!(b_truncated_tuple, 8, V, (bool, i16), (true, -300));
same_in!(b_same_tuple, 8, (bool, u8, i32), (false, 255, -70000), V);
same_in!(b_same_array, 8, [i16; 2], [-300, 70], V);
same_in!(b_same_bools, 8, [bool; 3], [true, false, true], LE, V);


harness!(p_layout, 20, {
    let b: bool = kani::any();
    let mut o = Out::<48>::new();
    o.push(if b { 0xe2 } else { 0xe3 });
    roundtrip!(V, bool, b, o);
    let c: char = kani::any();
    let mut o = Out::<48>::new();
    o.push(0xe5);
    o.varint(c as u128);
    roundtrip!(V, char, c, o);
    let v: Option<bool> = if kani::any() { Some(kani::any()) } else { None };
    let mut o = Out::<48>::new();
    match v {
        Some(b) => o.bytes(&[0xe1, if b { 0xe2 } else { 0xe3 }]),
        None => o.push(0xe0),
    }
    roundtrip!(V, Option<bool>, v, o);
    let mut o = Out::<48>::new();
    o.push(0xe6);
    roundtrip!(V, (), (), o);
});

// The type of every number is announced: 0x40, width in bits 2..5, kind.
macro_rules! numbers {
    ($name:ident, $t:ty, $data:literal) => {
        harness!($name, 22, {
            let v: $t = kani::any();
            let mut o = Out::<48>::new();
            o.push(0x40 | $data);
            o.varint(v.zig());
            roundtrip!(LE, $t, v, o);
        });
    };
}
numbers!(p_number_u8, u8, 0x0d);
numbers!(pt_number_u16, u16, 0x11);
numbers!(p_number_u32, u32, 0x15);
numbers!(p_number_u64, u64, 0x19);
numbers!(pt_number_u128, u128, 0x1d);
numbers!(p_number_i8, i8, 0x0c);
numbers!(p_number_i16, i16, 0x10);
numbers!(p_number_i32, i32, 0x14);
numbers!(pt_number_i64, i64, 0x18);
numbers!(p_number_i128, i128, 0x1c);

// Written as one type and read as any other.
macro_rules! cross {
    ($name:ident, $from:ty, $($to:ty),*) => {
        harness!($name, 22, {
            let v: $from = kani::any();
            let b = V.to_fixed_bytes_with::<_, 24, _>(Cx, &v).unwrap();
            $({
                let mut r = b.as_slice();
                let got: Result<$to, E> = V.decode_with(Cx, &mut r);
                match <$to>::try_from(v) {
                    Ok(want) => assert!(got == Ok(want) && r.is_empty(), "the identical number"),
                    Err(_) => assert!(got.is_err(), "a number which does not fit is refused"),
                }
            })*
        });
    };
}
cross!(p_cross_u8, u8, i8, u16, i32, i128, isize);
cross!(p_cross_i8, i8, u8, i16, u64, u128, usize);
cross!(p_cross_u16, u16, u8, i16, i32, u64);
cross!(p_cross_i16, i16, u8, i8, u16, i64, isize);
cross!(p_cross_u32, u32, i8, u16, i32, u64, usize);
cross!(p_cross_i32, i32, u8, i16, u32, i64, u128);
cross!(p_cross_u64, u64, i8, u32, i64, usize);
cross!(p_cross_i64, i64, u8, i32, u64, isize);
cross!(p_cross_usize, usize, u8, i64, u64, isize);
cross!(p_cross_isize, isize, i16, i64, u64, usize);
cross!(p_cross_u128, u128, u8, u64, i64, i128);
cross!(p_cross_i128, i128, i32, u64, i64, u128);
// The rest of the pairs.
cross!(pt_cross_u8, u8, i8, u16, i16, u32, i64, u128, i128, usize, isize);
cross!(pt_cross_i8, i8, u8, u16, i16, u32, i64, u128, i128, usize, isize);
cross!(pt_cross_u16, u16, u8, i8, i16, u32, i32, u64, i128, usize, isize);
cross!(pt_cross_i16, i16, u8, i8, u16, u32, i32, u64, i128, usize, isize);
cross!(pt_cross_u32, u32, u8, i8, u16, i16, i32, u64, i64, usize, isize);
cross!(pt_cross_i32, i32, u8, i8, u16, i16, u32, u64, i64, u128, usize, isize);
cross!(pt_cross_u64, u64, u8, i8, u16, i16, u32, i32, i64);
cross!(pt_cross_i64, i64, u8, i8, u16, i16, u32, i32, u64);
cross!(pt_cross_u64_wide, u64, u128, i128, usize, isize);
cross!(pt_cross_i64_wide, i64, u128, i128, usize, isize);
cross!(pt_cross_usize, usize, u8, i16, u32, i64, u64, isize);
cross!(pt_cross_isize, isize, u8, i16, u32, i64, u64, usize);
cross!(pt_cross_u128, u128, u8, i32, u64, i64);
cross!(pt_cross_u128_wide, u128, i128, usize, isize);
cross!(pt_cross_i128, i128, u8, i32, u64, i64);
cross!(pt_cross_i128_wide, i128, u128, usize, isize);

// The whole tag space.
macro_rules! tags {
    ($name:ident, $t:ty, $accept:expr) => {
        harness!($name, 24, {
            let mut b = [0u8; 40];
            b[0] = kani::any();
            let mut r = &b[..];
            let got: Result<$t, E> = V.decode_with(Cx, &mut r);
            assert!(got.is_ok() == ($accept)(b[0]), "exactly the tags which announce the type");
        });
    };
}
tags!(p_tags_bool, bool, |t: u8| t == 0xe2 || t == 0xe3);
tags!(p_tags_char, char, |t: u8| t == 0xe5);
tags!(p_tags_i32, i32, |t: u8| t >> 5 == 2 && (t & 3) < 2);
tags!(p_tags_array, musli::compat::Bytes<[u8; 5]>, |t: u8| t == 0xa5);
tags!(p_tags_bytes, musli::compat::Bytes<&[u8]>, |t: u8| t >> 5 == 5);

harness!(p_tags_str, 12, {
    let mut kind = 1usize;
    while kind < 256 {
        let b = [kind as u8, 0, 0, 0];
        let mut r = &b[..];
        let got: Result<&str, E> = V.decode_with(Cx, &mut r);
        assert!(got.is_ok() == (b[0] == 0xc1));
        kind += 0x20;
    }
});

macro_rules! text {
    ($name:ident, $n:literal) => {
        harness!($name, 10, {
            let bytes: [u8; $n] = kani::any();
            let mut enc = [0u8; $n + 1];
            enc[0] = 0xc0 | $n;
            enc[1..].copy_from_slice(&bytes);
            let mut r = &enc[..];
            let got: Result<&str, E> = V.decode_with(Cx, &mut r);
            match core::str::from_utf8(&bytes) {
                Ok(_) => {
                    assert!(got.unwrap().len() == $n && r.is_empty());
                    let mut i = 0;
                    while i < $n {
                        assert!(got.unwrap().as_bytes()[i] == bytes[i]);
                        i += 1;
                    }
                }
                Err(_) => assert!(got.is_err(), "text which is not UTF-8 is refused"),
            }
        });
    };
}
text!(bt_text_1, 1);
text!(bt_text_2, 2);
text!(b_text_3, 3);
text!(bt_text_4, 4);

harness!(p_char_invalid, 8, {
    let n: u32 = kani::any();
    let mut o = Out::<8>::new();
    o.push(0xe5);
    o.varint(n as u128);
    let mut r = &o.b[..o.n];
    let got: Result<char, E> = V.decode_with(Cx, &mut r);
    assert!(got == char::from_u32(n).ok_or(E), "surrogates and numbers beyond the range are refused");
});
