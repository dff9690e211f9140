//! C25: the dynamic value type stands for any encoded value.
use crate::support::*;
use core::mem::ManuallyDrop;
use musli::alloc::System;
use musli::compat::Bytes;
use musli::mode::Binary;
use musli::value::Value;

type V = Value<System>;

// Dynamic values are not dropped here: that is C15's, and not what these are about.
fn read<'de, T>(v: &'de ManuallyDrop<V>) -> Result<T, E>
where
    T: Decode<'de, Binary, System>,
{
    musli::value::decode_with::<_, T, Binary>(Cx, v)
}

fn write<T>(v: T) -> ManuallyDrop<V>
where
    T: Encode<Binary>,
{
    match musli::value::verif_encode_with(Cx, v) {
        Ok(v) => ManuallyDrop::new(v),
        Err(..) => panic!("every value has a dynamic image"),
    }
}

/// An integer read as another integer type.
macro_rules! integer {
    ($name:ident, $from:ty, $($to:ty),*) => {
        harness!($name, 4, {
            let v: $from = kani::any();
            let d = write(v);
            $({
                let got: Result<$to, E> = read(&d);
                match <$to>::try_from(v) {
                    Ok(want) => assert!(got == Ok(want), "the identical number"),
                    Err(_) => assert!(got.is_err(), "a number which does not fit is refused"),
                }
            })*
        });
    };
}

integer!(p_u8, u8, i8, usize);
integer!(pt_u8_a, u8, u8, u16, u32, u64);
integer!(pt_u8_b, u8, u128, i16, i32, i64);
integer!(pt_u8_c, u8, i128, isize);
integer!(p_u16, u16, i16, i8);
integer!(pt_u16_a, u16, u8, u16, u32, u64);
integer!(pt_u16_b, u16, u128, usize, i32, i64);
integer!(pt_u16_c, u16, i128, isize);
integer!(p_u32, u32, i32, i16);
integer!(pt_u32_a, u32, u8, u16, u32, u64);
integer!(pt_u32_b, u32, u128, usize, i8, i64);
integer!(pt_u32_c, u32, i128, isize);
integer!(p_u64, u64, i64, i32);
integer!(pt_u64_a, u64, u8, u16, u32, u64);
integer!(pt_u64_b, u64, u128, usize, i8, i16);
integer!(pt_u64_c, u64, i128, isize);
integer!(p_u128, u128, i128, i64);
integer!(pt_u128_a, u128, u8, u16, u32, u64);
integer!(pt_u128_b, u128, u128, usize, i8, i16);
integer!(pt_u128_c, u128, i32, isize);
integer!(p_usize, usize, isize, i128);
integer!(pt_usize_a, usize, u8, u16, u32, u64);
integer!(pt_usize_b, usize, u128, usize, i8, i16);
integer!(pt_usize_c, usize, i32, i64);
integer!(p_i8, i8, u8, isize);
integer!(pt_i8_a, i8, u16, u32, u64, u128);
integer!(pt_i8_b, i8, usize, i8, i16, i32);
integer!(pt_i8_c, i8, i64, i128);
integer!(p_i16, i16, u16, u8);
integer!(pt_i16_a, i16, u32, u64, u128, usize);
integer!(pt_i16_b, i16, i8, i16, i32, i64);
integer!(pt_i16_c, i16, i128, isize);
integer!(p_i32, i32, u32, u16);
integer!(pt_i32_a, i32, u8, u64, u128, usize);
integer!(pt_i32_b, i32, i8, i16, i32, i64);
integer!(pt_i32_c, i32, i128, isize);
integer!(p_i64, i64, u64, u32);
integer!(pt_i64_a, i64, u8, u16, u128, usize);
integer!(pt_i64_b, i64, i8, i16, i32, i64);
integer!(pt_i64_c, i64, i128, isize);
integer!(p_i128, i128, u128, u64);
integer!(pt_i128_a, i128, u8, u16, u32, usize);
integer!(pt_i128_b, i128, i8, i16, i32, i64);
integer!(pt_i128_c, i128, i128, isize);
integer!(p_isize, isize, usize, u128);
integer!(pt_isize_a, isize, u8, u16, u32, u64);
integer!(pt_isize_b, isize, i8, i16, i32, i64);
integer!(pt_isize_c, isize, i128, isize);

/// The same value comes back, and nothing of another type.
macro_rules! same {
    ($t:ty, $v:expr) => {{
        let v: $t = $v;
        let d = write(&v);
        let got: Result<$t, E> = read(&d);
        assert!(got == Ok(v), "the same value");
    }};
}
macro_rules! refuses {
    ($v:expr, $($t:ty),*) => {{
        let d = write($v);
        $({
            let got: Result<$t, E> = read(&d);
            assert!(got.is_err(), "a value of another type");
        })*
    }};
}

harness!(p_scalars, 8, {
    same!((), ());
    same!(bool, kani::any());
    same!(char, kani::any());
    let f = f32::from_bits(kani::any());
    let got: Result<f32, E> = read(&write(f));
    assert!(got.unwrap().to_bits() == f.to_bits());
    let f = f64::from_bits(kani::any());
    let got: Result<f64, E> = read(&write(f));
    assert!(got.unwrap().to_bits() == f.to_bits());
});

harness!(p_kind_bool, 8, { refuses!(kani::any::<bool>(), (), char, u8, Option<bool>) });
harness!(p_kind_bool_more, 8, { refuses!(kani::any::<bool>(), f32, &str, [bool; 1]) });
harness!(p_kind_char, 8, { refuses!(kani::any::<char>(), (), bool, u32, Option<char>) });
harness!(p_kind_u8, 8, { refuses!(kani::any::<u8>(), (), bool, char, [u8; 1]) });
harness!(p_kind_unit, 8, { refuses!((), bool, char, i8, Option<()>) });

/// Some value, or none.
fn some<T>(f: impl Fn() -> T) -> Option<T> {
    if kani::any() {
        Some(f())
    } else {
        None
    }
}

macro_rules! keeps {
    ($name:ident, $t:ty, $v:expr) => {
        harness!($name, 10, { same!($t, $v) });
    };
}
keeps!(p_option, Option<u8>, some(kani::any));
keeps!(p_option_option, Option<Option<bool>>, some(|| some(kani::any)));
keeps!(p_option_unit, Option<()>, some(|| ()));
keeps!(p_pair, (u8, bool), (kani::any(), kani::any()));
keeps!(p_units, ((), char, ()), ((), kani::any(), ()));
keeps!(p_tuple, (i64, (u16, ())), (kani::any(), (kani::any(), ())));
keeps!(p_array_units, [(); 2], [(), ()]);
keeps!(p_array_bool, [bool; 2], kani::any());
keeps!(bt_list0, Vec<i32>, Vec::new());
keeps!(bt_list1, Vec<()>, vec![()]);
keeps!(bt_list2, Vec<u8>, vec![kani::any(), kani::any()]);
harness!(p_array_length, 8, { refuses!([kani::any::<bool>(), kani::any()], [bool; 1], [bool; 3]) });

macro_rules! bytes {
    ($name:ident, $n:literal) => {
        harness!($name, 10, {
            let b: [u8; $n] = any_bytes();
            let d = write(Bytes(&b[..]));
            let got: Result<Bytes<&[u8]>, E> = read(&d);
            assert!(got.unwrap().0 == &b[..], "the same bytes");
            let got: Result<Bytes<[u8; 3]>, E> = read(&d);
            assert!(got.is_ok() == ($n == 3), "exactly the length asked for");
        });
    };
}
bytes!(b_bytes0, 0);
bytes!(b_bytes3, 3);
bytes!(b_bytes4, 4);
/// Descriptive data read as a dynamic value and written again. That the data is
/// what the format writes for the value is C06's.
const D: musli::descriptive::Encoding<{ musli::descriptive::OPTIONS }, Binary> = musli::descriptive::Encoding::new();
macro_rules! passes {
    ($name:ident, $t:ty, $s:expr) => {
        harness!($name, 22, {
            let s = $s;
            let v: Result<$t, E> = D.decode_with(Cx, &mut &s[..]);
            let v = v.unwrap();
            let mut r = &s[..];
            let d: Result<V, E> = D.decode_with(Cx, &mut r);
            let d = ManuallyDrop::new(d.unwrap());
            assert!(r.is_empty(), "the whole of the value");
            let got: Result<$t, E> = read(&d);
            assert!(got == Ok(v), "read out of the dynamic value");
            let b = D.to_fixed_bytes_with::<_, 48, _>(Cx, &*d).unwrap();
            assert!(b.as_slice() == s, "written as it was");
        });
    };
}
passes!(p_via_unit, (), [0xe6]);
passes!(p_via_true, bool, [0xe2]);
passes!(p_via_false, bool, [0xe3]);
passes!(p_via_none, Option<u8>, [0xe0]);
passes!(b_via_bytes, Bytes<[u8; 2]>, [0xa2, kani::any(), kani::any()]);
// Numbers: what the data says they are, by type.
macro_rules! reads {
    ($name:ident, $t:ty, $tag:literal) => {
        harness!($name, 22, {
            let s = [$tag, kani::any(), 0x01];
            let mut r = &s[..];
            let d: Result<V, E> = D.decode_with(Cx, &mut r);
            let d = ManuallyDrop::new(d.unwrap());
            let mut t = &s[..];
            let v: Result<$t, E> = D.decode_with(Cx, &mut t);
            let v = v.unwrap();
            assert!(r.len() == t.len(), "the whole of the number");
            let got: Result<$t, E> = read(&d);
            assert!(got == Ok(v), "read out of the dynamic value");
        });
    };
}
reads!(b_reads_u8, u8, 0x4d);
reads!(b_reads_i8, i8, 0x4c);
reads!(b_reads_u16, u16, 0x51);
reads!(b_reads_i16, i16, 0x50);
reads!(b_reads_u32, u32, 0x55);
reads!(b_reads_i32, i32, 0x54);
reads!(b_reads_u64, u64, 0x59);
reads!(b_reads_i64, i64, 0x58);
reads!(b_reads_u128, u128, 0x5d);
reads!(b_reads_i128, i128, 0x5c);
passes!(b_via_char, char, [0xe5, 0xe4, 0x01]);
