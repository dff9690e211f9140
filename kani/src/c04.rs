//! C04: wire scalars.
use crate::support::*;
use musli::mode::Binary;

macro_rules! enc {
    ($o:expr) => {
        musli::wire::Encoding::new().with_options::<{ $o }>()
    };
}
const LE: musli::wire::Encoding<{ FIXED_LE }, Binary> = enc!(FIXED_LE);
const BE: musli::wire::Encoding<{ FIXED_BE }, Binary> = enc!(FIXED_BE);
const V: musli::wire::Encoding<{ VARIABLE }, Binary> = enc!(VARIABLE);
const M: musli::wire::Encoding<{ opt(true, 0, true) }, Binary> = enc!(opt(true, 0, true));

/// How the first byte of text differs from that of a byte string.
const TEXT_XOR: u8 = 0;
include!("scalars.inc");
truncated!(p_truncated_option, 10, BE, Option<u16>, if kani::any() { Some(kani::any()) } else { None });
truncated!(b_truncated_array, 10, LE, [u16; 2], kani::any());
truncated!(p_truncated_tuple, 10, M, (u8, u32), (kani::any(), kani::any()));
same!(p_same_tuple, (u8, i32, bool), (kani::any(), kani::any(), kani::any()));
same!(b_same_array, [i16; 3], kani::any());


// Integers of 128 bits: what is inlined in the tag is decided on all of them.
macro_rules! wide {
    ($name:ident, $t:ty) => {
        harness!($name, 22, {
            let v: $t = kani::any();
            let mut o = Out::<48>::new();
            o.w_int(false, false, 16, v.zig());
            roundtrip!(V, $t, v, o);
        });
    };
}
wide!(p_layout_u128_var, u128);
wide!(p_layout_i128_var, i128);

macro_rules! layout {
    ($name:ident, $e:expr, $fixed:literal, $big:literal, $ptr:literal) => {
        harness!($name, 20, {
            let b: bool = kani::any();
            let mut o = Out::<48>::new();
            o.push(0xc0 | b as u8);
            roundtrip!($e, bool, b, o);
            let b: u8 = kani::any();
            let mut o = Out::<48>::new();
            o.w_int($fixed, $big, 1, b as u128);
            roundtrip!($e, u8, b, o);
            let b: i8 = kani::any();
            let mut o = Out::<48>::new();
            o.w_int($fixed, $big, 1, b as u8 as u128);
            roundtrip!($e, i8, b, o);
            let c: char = kani::any();
            let mut o = Out::<48>::new();
            o.w_int($fixed, $big, 4, c as u128);
            roundtrip!($e, char, c, o);
            let v: Option<bool> = if kani::any() { Some(kani::any()) } else { None };
            let mut o = Out::<48>::new();
            match v {
                Some(b) => o.bytes(&[SEQ | 1, 0xc0 | b as u8]),
                None => o.push(SEQ),
            }
            roundtrip!($e, Option<bool>, v, o);
            let mut o = Out::<48>::new();
            o.push(SEQ);
            roundtrip!($e, (), (), o);
        });
    };
}
layout!(p_layout_le, LE, true, false, 8);
layout!(p_layout_be, BE, true, true, 8);
layout!(p_layout_var, V, false, false, 0);
layout!(p_layout_mixed, M, true, true, 0);

// The whole tag space: what a decoder accepts is exactly what its type announces.
macro_rules! tags {
    ($name:ident, $e:expr, $t:ty, $accept:expr) => {
        harness!($name, 24, {
            // Plenty of valid contents behind the tag.
            let mut b = [0u8; 40];
            b[0] = kani::any();
            let mut r = &b[..];
            let got: Result<$t, E> = $e.decode_with(Cx, &mut r);
            assert!(got.is_ok() == ($accept)(b[0]), "exactly the tags which announce the type");
        });
    };
}
tags!(p_tags_bool, V, bool, |t: u8| t == 0xc0 || t == 0xc1);
tags!(p_tags_u8_var, V, u8, |t: u8| t >= 0xc0);
tags!(p_tags_i32_var, V, i32, |t: u8| t >= 0xc0);
tags!(p_tags_u64_var, V, u64, |t: u8| t >= 0xc0);
tags!(p_tags_usize_var, V, usize, |t: u8| t >= 0xc0);
tags!(p_tags_u8_fixed, LE, u8, |t: u8| t == 0x41);
tags!(p_tags_u16_fixed, LE, u16, |t: u8| t == 0x42);
tags!(p_tags_i32_fixed, BE, i32, |t: u8| t == 0x44);
tags!(p_tags_u64_fixed, LE, u64, |t: u8| t == 0x48);
tags!(p_tags_i128_fixed, LE, i128, |t: u8| t == 0x50);
tags!(p_tags_usize_fixed, LE, usize, |t: u8| t == 0x48);
tags!(p_tags_char_fixed, LE, char, |t: u8| t == 0x44);
tags!(p_tags_f64_fixed, LE, f64, |t: u8| t == 0x48);
tags!(p_tags_array, V, musli::compat::Bytes<[u8; 5]>, |t: u8| t == 0x45);
tags!(p_tags_bytes, V, musli::compat::Bytes<&[u8]>, |t: u8| t >= 0x40 && t < 0x40 + 40 || t == 0x7f);

harness!(p_tags_str, 12, {
    let mut kind = 1usize;
    while kind < 256 {
        let b = [kind as u8, 0, 0, 0];
        let mut r = &b[..];
        let got: Result<&str, E> = V.decode_with(Cx, &mut r);
        assert!(got.is_ok() == (b[0] == PREFIX | 1));
        kind += 0x40;
    }
});

harness!(p_tags_option, 6, {
    let b: [u8; 2] = kani::any();
    let mut r = &b[..];
    let got: Result<Option<bool>, E> = V.decode_with(Cx, &mut r);
    assert!(got == match (b[0], b[1]) {
        (0x80, _) => Ok(None),
        (0x81, 0xc0) => Ok(Some(false)),
        (0x81, 0xc1) => Ok(Some(true)),
        _ => Err(E),
    });
});

harness!(p_char_invalid, 8, {
    let n: u32 = kani::any();
    let want = char::from_u32(n).ok_or(E);
    let mut b = [0x44u8; 5];
    b[1..].copy_from_slice(&n.to_le_bytes());
    let mut r = &b[..];
    let got: Result<char, E> = LE.decode_with(Cx, &mut r);
    assert!(got == want, "surrogates and numbers beyond the range are refused");
});

macro_rules! text {
    ($name:ident, $n:literal) => {
        harness!($name, 10, {
            let bytes: [u8; $n] = kani::any();
            let mut enc = [0u8; $n + 1];
            enc[0] = PREFIX | $n;
            enc[1..].copy_from_slice(&bytes);
            let mut r = &enc[..];
            let got: Result<&str, E> = V.decode_with(Cx, &mut r);
            match core::str::from_utf8(&bytes) {
                Ok(_) => {
                    assert!(got.unwrap().len() == $n && r.is_empty());
                    let mut i = 0;
                    while i < $n {
                        assert!(got.unwrap().as_bytes()[i] == bytes[i]);
                        i += 1;
                    }
                }
                Err(_) => assert!(got.is_err(), "text which is not UTF-8 is refused"),
            }
        });
    };
}
text!(b_text_1, 1);
text!(bt_text_2, 2);
text!(b_text_3, 3);
text!(bt_text_4, 4);

