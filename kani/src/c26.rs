//! C26: packed mode: fields back to back.
use crate::support::*;
use musli::mode::Binary;
use musli::options::Options;

// Every field type of a fixed width, in an order which leaves holes between them
// in memory.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Encode, Decode)]
#[musli(crate = musli, packed)]
pub struct Ints {
    a: u8,
    b: u64,
    c: i16,
    d: i32,
    e: i8,
    f: u16,
}

#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(crate = musli, packed)]
pub struct Mixed {
    a: bool,
    b: f32,
    c: char,
    d: f64,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Encode, Decode)]
#[musli(crate = musli, packed)]
pub struct Inner {
    a: u16,
    b: u8,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Encode, Decode)]
#[musli(crate = musli, packed)]
pub struct Nested {
    x: u8,
    y: Inner,
    z: u32,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Encode, Decode)]
#[musli(crate = musli, packed)]
pub struct Wide(u128, i128, i64);

// Fields which are in order, and without holes: those may be copied at once.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Encode, Decode)]
#[musli(crate = musli, packed)]
#[repr(C)]
pub struct Even {
    a: u32,
    b: i32,
    c: u16,
    d: u8,
    e: i8,
}

/// What a value is in packed mode.
pub trait Spec: Copy + PartialEq {
    const LEN: usize;
    fn any() -> Self;
    fn write(&self, o: &mut Out<48>, big: bool);
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

macro_rules! ints {
    ($t:ty, $len:literal, $($f:tt : $ft:ty),*) => {
        impl Spec for $t {
            const LEN: usize = $len;
            fn any() -> Self {
                Self { $($f: kani::any()),* }
            }
            fn write(&self, o: &mut Out<48>, big: bool) {
                $(o.fixed(self.$f.raw(), core::mem::size_of::<$ft>(), big);)*
            }
        }
    };
}
ints!(Ints, 18, a: u8, b: u64, c: i16, d: i32, e: i8, f: u16);
ints!(Inner, 3, a: u16, b: u8);
ints!(Wide, 40, 0: u128, 1: i128, 2: i64);
ints!(Even, 12, a: u32, b: i32, c: u16, d: u8, e: i8);
impl Spec for Nested {
    const LEN: usize = 8;
    fn any() -> Self {
        Self { x: kani::any(), y: Inner::any(), z: kani::any() }
    }
    fn write(&self, o: &mut Out<48>, big: bool) {
        o.push(self.x);
        self.y.write(o, big);
        o.fixed(self.z.raw(), 4, big);
    }
}
impl Spec for Mixed {
    const LEN: usize = 17;
    fn any() -> Self {
        Self { a: kani::any(), b: f32::from_bits(kani::any()), c: kani::any(), d: f64::from_bits(kani::any()) }
    }
    fn write(&self, o: &mut Out<48>, big: bool) {
        o.push(self.a as u8);
        o.fixed(self.b.to_bits() as u128, 4, big);
        o.fixed(self.c as u128, 4, big);
        o.fixed(self.d.to_bits() as u128, 8, big);
    }
    fn same(&self, o: &Self) -> bool {
        // The bits of floats, whatever they stand for.
        self.a == o.a && self.b.to_bits() == o.b.to_bits() && self.c == o.c && self.d.to_bits() == o.d.to_bits()
    }
}

/// In memory of exactly that size, and of any smaller size.
fn check<T, const O: Options>(big: bool)
where
    T: Spec + Encode<Binary> + for<'de> Decode<'de, Binary, musli::alloc::System>,
{
    let enc: musli::packed::Encoding<O, Binary> = musli::packed::Encoding::new().with_options::<O>();
    let v = T::any();
    let mut o = Out::<48>::new();
    v.write(&mut o, big);
    assert!(o.n == T::LEN);
    let b = enc.to_fixed_bytes_with::<_, 48, _>(Cx, &v).unwrap();
    assert!(o.is(b.as_slice()), "fields back to back, in order, in their width");
    let mut r = b.as_slice();
    let back: Result<T, E> = enc.decode_with(Cx, &mut r);
    assert!(back.unwrap().same(&v) && r.is_empty(), "the same value, and all of it");
}

/// Cut short anywhere: refused.
fn check_short<T, const O: Options>()
where
    T: Spec + Encode<Binary> + for<'de> Decode<'de, Binary, musli::alloc::System>,
{
    let enc: musli::packed::Encoding<O, Binary> = musli::packed::Encoding::new().with_options::<O>();
    let s: [u8; 48] = any_bytes();
    let n = any_len(T::LEN - 1);
    let got: Result<T, E> = enc.decode_with(Cx, &mut &s[..n]);
    assert!(got.is_err(), "too short");
    let mut out: [u8; 48] = any_bytes();
    let n = any_len(T::LEN - 1);
    let got = enc.to_slice_with(Cx, &mut out[..n], &T::any());
    assert!(got.is_err(), "no room");
}

const LE: Options = opt(true, 0, false);
const BE: Options = opt(true, 0, true);
macro_rules! packed {
    ($name:ident, $t:ty, $o:expr, $big:literal) => {
        harness!($name, 50, { check::<$t, { $o }>($big) });
    };
}
packed!(p_ints, Ints, musli::packed::OPTIONS, false);
packed!(p_ints_be, Ints, BE, true);
packed!(p_mixed, Mixed, musli::packed::OPTIONS, false);
packed!(p_mixed_be, Mixed, BE, true);
packed!(p_nested, Nested, LE, false);
packed!(p_nested_be, Nested, BE, true);
packed!(p_wide, Wide, musli::packed::OPTIONS, false);
packed!(p_even, Even, musli::packed::OPTIONS, false);
packed!(p_even_be, Even, BE, true);

macro_rules! short {
    ($name:ident, $t:ty, $o:expr) => {
        harness!($name, 50, { check_short::<$t, { $o }>() });
    };
}
short!(p_short_ints, Ints, musli::packed::OPTIONS);
short!(p_short_ints_be, Ints, BE);
short!(p_short_mixed, Mixed, LE);
short!(p_short_nested, Nested, BE);
short!(p_short_even, Even, musli::packed::OPTIONS);

// Sequences of packed values: as many as there are, back to back behind their
// number.
macro_rules! seq {
    ($name:ident, $t:ty, $o:expr, $big:literal) => {
        harness!($name, 50, {
            const ENC: musli::storage::Encoding<{ $o }, Binary> = musli::storage::Encoding::new().with_options::<{ $o }>();
            let v = [<$t>::any(), <$t>::any()];
            let mut o = Out::<48>::new();
            o.push(2);
            v[0].write(&mut o, $big);
            v[1].write(&mut o, $big);
            let b = ENC.to_fixed_bytes_with::<_, 48, _>(Cx, &v[..]).unwrap();
            assert!(o.is(b.as_slice()), "back to back");
            let mut r = b.as_slice();
            let back: Result<Vec<$t>, E> = ENC.decode_with(Cx, &mut r);
            let back = back.unwrap();
            assert!(back.len() == 2 && back[0].same(&v[0]) && back[1].same(&v[1]) && r.is_empty());
        });
    };
}
seq!(b_seq_even, Even, LE, false);
seq!(b_seq_even_be, Even, BE, true);
seq!(b_seq_ints, Ints, LE, false);
seq!(b_seq_nested, Nested, LE, false);
