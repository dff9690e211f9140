// Included by C03, C04 and C06: what all three formats have in common.

// A value which is cut short is an error: no proper prefix of it decodes.
macro_rules! truncated {
    ($name:ident, $u:literal, $e:expr, $t:ty, $v:expr) => {
        harness!($name, $u, {
            let v: $t = $v;
            let b = $e.to_fixed_bytes_with::<_, 48, _>(Cx, &v).unwrap();
            let s = b.as_slice();
            let mut n = 0;
            while n < s.len() {
                let mut r = &s[..n];
                let back: Result<$t, E> = $e.decode_with(Cx, &mut r);
                assert!(back.is_err(), "a truncated value is refused");
                n += 1;
            }
        });
    };
}
truncated!(p_truncated_u32_le, 8, LE, u32, kani::any());
truncated!(p_truncated_u32_var, 8, V, u32, kani::any());
truncated!(p_truncated_i16_be, 8, BE, i16, kani::any());
truncated!(p_truncated_char, 8, V, char, kani::any());

macro_rules! same {
    ($name:ident, $t:ty, $v:expr) => {
        same_in!($name, 20, $t, $v, LE, BE, M);
    };
}
macro_rules! same_in {
    ($name:ident, $u:literal, $t:ty, $v:expr, $($e:expr),*) => {
        harness!($name, $u, {
            let v: $t = $v;
            $({
                let b = $e.to_fixed_bytes_with::<_, 64, _>(Cx, &v).unwrap();
                let mut r = b.as_slice();
                let back: Result<$t, E> = $e.decode_with(Cx, &mut r);
                assert!(back == Ok(v), "decodes to the value which was encoded");
                assert!(r.is_empty(), "consumes exactly what was written");
            })*
        });
    };
}
same!(p_same_char, char, kani::any());
same_in!(p_same_option, 20, Option<Option<i8>>, if kani::any() { Some(if kani::any() { Some(kani::any()) } else { None }) } else { None }, LE);
same_in!(pt_same_option, 20, Option<Option<i16>>, if kani::any() { Some(if kani::any() { Some(kani::any()) } else { None }) } else { None }, LE, BE, M);
same!(p_same_unit_some, Option<()>, Some(()));
same!(p_same_unit_none, Option<()>, None);
same_in!(p_same_i128, 20, i128, kani::any(), LE);
same_in!(pt_same_i128_be, 20, i128, kani::any(), BE);

macro_rules! same_float {
    ($name:ident, $one:expr) => {
        harness!($name, 24, {
            let a: u32 = kani::any();
            let b: u64 = kani::any();
            let w = $one.to_fixed_bytes_with::<_, 48, _>(Cx, &f32::from_bits(a)).unwrap();
            let mut r = w.as_slice();
            let back: Result<f32, E> = $one.decode_with(Cx, &mut r);
            assert!(back.unwrap().to_bits() == a && r.is_empty(), "the bits survive");
            let w = $one.to_fixed_bytes_with::<_, 48, _>(Cx, &f64::from_bits(b)).unwrap();
            let mut r = w.as_slice();
            let back: Result<f64, E> = $one.decode_with(Cx, &mut r);
            assert!(back.unwrap().to_bits() == b && r.is_empty(), "the bits survive");
        });
    };
}
same_float!(p_same_float, LE);
same_float!(p_same_float_be, BE);

// Byte strings of any content, at the length given.
macro_rules! strings {
    ($name:ident, $e:expr, $n:literal) => {
        harness!($name, 12, {
            let data: [u8; $n] = kani::any();
            let v = musli::compat::Bytes(&data[..]);
            let b = $e.to_fixed_bytes_with::<_, 24, _>(Cx, &v).unwrap();
            let mut r = b.as_slice();
            let back: Result<musli::compat::Bytes<&[u8]>, E> = $e.decode_with(Cx, &mut r);
            let back = back.unwrap().0;
            assert!(back.len() == $n && r.is_empty());
            let mut i = 0;
            while i < $n {
                assert!(back[i] == data[i], "the contents survive");
                i += 1;
            }

            // A fixed array of bytes is written alike.
            let v = musli::compat::Bytes(data);
            let a = $e.to_fixed_bytes_with::<_, 24, _>(Cx, &v).unwrap();
            let mut r = a.as_slice();
            let back: Result<musli::compat::Bytes<[u8; $n]>, E> = $e.decode_with(Cx, &mut r);
            assert!(back.unwrap().0 == data && r.is_empty());
        });
    };
}
strings!(b_strings_le_0, LE, 0);
strings!(b_strings_le_3, LE, 3);
strings!(b_strings_var_0, V, 0);
strings!(b_strings_var_4, V, 4);
strings!(b_strings_mixed_2, M, 2);

// Text is written as its bytes are (with its own kind where there is one).
// What decodes as text is in `b_text_*`.
macro_rules! text_of {
    ($name:ident, $e:expr, $n:literal) => {
        harness!($name, 12, {
            let data: [u8; $n] = kani::any();
            // Whether the contents are valid makes no difference to an encoder.
            kani::assume(data[0] < 0x80);
            let s = unsafe { core::str::from_utf8_unchecked(&data) };
            let a = $e.to_fixed_bytes_with::<_, 24, _>(Cx, s).unwrap();
            let b = $e.to_fixed_bytes_with::<_, 24, _>(Cx, &musli::compat::Bytes(&data[..])).unwrap();
            let (a, b) = (a.as_slice(), b.as_slice());
            assert!(a.len() == b.len());
            assert!(a[0] == b[0] ^ TEXT_XOR);
            let mut i = 1;
            while i < a.len() {
                assert!(a[i] == b[i], "text is written as its bytes");
                i += 1;
            }
        });
    };
}
text_of!(b_text_of_1, LE, 1);
text_of!(b_text_of_3, V, 3);
text_of!(b_text_of_4, M, 4);
