//! C03: storage scalars.
use crate::support::*;
use musli::mode::Binary;

macro_rules! enc {
    ($o:expr) => {
        musli::storage::Encoding::new().with_options::<{ $o }>()
    };
}
const LE: musli::storage::Encoding<{ FIXED_LE }, Binary> = enc!(FIXED_LE);
const BE: musli::storage::Encoding<{ FIXED_BE }, Binary> = enc!(FIXED_BE);
const V: musli::storage::Encoding<{ VARIABLE }, Binary> = enc!(VARIABLE);
const M: musli::storage::Encoding<{ opt(true, 0, true) }, Binary> = enc!(opt(true, 0, true));

/// How the first byte of text differs from that of a byte string.
const TEXT_XOR: u8 = 0;
include!("scalars.inc");
truncated!(p_truncated_option, 10, BE, Option<u16>, if kani::any() { Some(kani::any()) } else { None });
truncated!(b_truncated_array, 14, LE, [u16; 2], kani::any());
truncated!(p_truncated_tuple, 10, M, (u8, u32), (kani::any(), kani::any()));
same!(p_same_tuple, (u8, i32, bool), (kani::any(), kani::any(), kani::any()));
same!(b_same_array, [i16; 3], kani::any());


// Layout of the scalars which the options do not name.
macro_rules! layout {
    ($name:ident, $e:expr, $fixed:literal, $big:literal, $ptr:literal) => {
        harness!($name, 20, {
            let b: bool = kani::any();
            let mut o = Out::<48>::new();
            o.push(b as u8);
            roundtrip!($e, bool, b, o);
            let b: u8 = kani::any();
            let mut o = Out::<48>::new();
            o.push(b);
            roundtrip!($e, u8, b, o);
            let b: i8 = kani::any();
            let mut o = Out::<48>::new();
            o.push(b as u8);
            roundtrip!($e, i8, b, o);
            let c: char = kani::any();
            let mut o = Out::<48>::new();
            o.s_int($fixed, $big, 4, c as u128, c as u128);
            roundtrip!($e, char, c, o);
            let v: Option<u8> = if kani::any() { Some(kani::any()) } else { None };
            let mut o = Out::<48>::new();
            match v {
                Some(b) => o.bytes(&[1, b]),
                None => o.push(0),
            }
            roundtrip!($e, Option<u8>, v, o);
            let mut o = Out::<48>::new();
            assert!(o.s_len($ptr, $big, 0));
            roundtrip!($e, (), (), o);
        });
    };
}
layout!(p_layout_le, LE, true, false, 8);
layout!(p_layout_be, BE, true, true, 8);
layout!(p_layout_var, V, false, false, 0);
layout!(p_layout_mixed, M, true, true, 0);

// Invalid representations.
harness!(p_bool_invalid, 4, {
    let b: [u8; 1] = kani::any();
    let mut r = &b[..];
    let got: Result<bool, E> = LE.decode_with(Cx, &mut r);
    assert!(got == match b[0] {
        0 => Ok(false),
        1 => Ok(true),
        _ => Err(E),
    });
});

harness!(p_option_invalid, 4, {
    let b: [u8; 2] = kani::any();
    let mut r = &b[..];
    let got: Result<Option<u8>, E> = V.decode_with(Cx, &mut r);
    assert!(got == match b[0] {
        0 => Ok(None),
        1 => Ok(Some(b[1])),
        _ => Err(E),
    });
});

harness!(p_char_invalid, 8, {
    let n: u32 = kani::any();
    let want = char::from_u32(n).ok_or(E);
    let b = n.to_le_bytes();
    let mut r = &b[..];
    let got: Result<char, E> = LE.decode_with(Cx, &mut r);
    assert!(got == want, "surrogates and numbers beyond the range are refused");
    let b = n.to_be_bytes();
    let mut r = &b[..];
    let got: Result<char, E> = BE.decode_with(Cx, &mut r);
    assert!(got == want);
});

harness!(p_char_variable_invalid, 8, {
    let bytes: [u8; 6] = kani::any();
    let len = any_len(6);
    let s = &bytes[..len];
    let mut r = s;
    let got: Result<char, E> = V.decode_with(Cx, &mut r);
    if let Ok(c) = got {
        let (n, v) = varint_denotes(s, 32).unwrap();
        assert!(v == c as u128 && len - r.len() == n);
    }
});

// Text: exactly what is UTF-8 decodes.
macro_rules! text {
    ($name:ident, $n:literal) => {
        harness!($name, 10, {
            let bytes: [u8; $n] = kani::any();
            let mut enc = [0u8; $n + 1];
            enc[0] = $n;
            enc[1..].copy_from_slice(&bytes);
            let mut r = &enc[..];
            let got: Result<&str, E> = V.decode_with(Cx, &mut r);
            match core::str::from_utf8(&bytes) {
                Ok(_) => {
                    assert!(got.unwrap().len() == $n && r.is_empty());
                    let mut i = 0;
                    while i < $n {
                        assert!(got.unwrap().as_bytes()[i] == bytes[i]);
                        i += 1;
                    }
                }
                Err(_) => assert!(got.is_err(), "text which is not UTF-8 is refused"),
            }
        });
    };
}
text!(b_text_1, 1);
text!(bt_text_2, 2);
text!(b_text_3, 3);
text!(bt_text_4, 4);


harness!(p_nonzero, 8, {
    use core::num::*;
    let b: [u8; 4] = kani::any();
    let mut r = &b[..];
    let got: Result<NonZeroU32, E> = LE.decode_with(Cx, &mut r);
    assert!(got == NonZeroU32::new(u32::from_le_bytes(b)).ok_or(E));
    let mut r = &b[..];
    let got: Result<NonZeroI16, E> = BE.decode_with(Cx, &mut r);
    assert!(got == NonZeroI16::new(i16::from_be_bytes([b[0], b[1]])).ok_or(E));
    let mut r = &b[..];
    let got: Result<NonZeroU8, E> = V.decode_with(Cx, &mut r);
    assert!(got == NonZeroU8::new(b[0]).ok_or(E));
    let mut r = &b[..];
    let got: Result<Wrapping<u32>, E> = LE.decode_with(Cx, &mut r);
    assert!(got == Ok(Wrapping(u32::from_le_bytes(b))));
});
