//! C22: byte orders of numbers, and of what is made of numbers.
use crate::support::*;
use core::num::*;
use musli_zerocopy::endian::{self, Big, Little};
use musli_zerocopy::{ByteOrder, Endian, ZeroCopy};

// Stored bytes are those of the named order, reading back is the identity, and
// converting twice is too.
macro_rules! number {
    ($name:ident, $t:ty) => {
        harness!($name, 18, {
            let v: $t = kani::any();
            let be = ZeroCopy::swap_bytes::<Big>(v);
            let le = ZeroCopy::swap_bytes::<Little>(v);
            assert!(<$t>::to_ne_bytes(be) == v.to_be_bytes(), "stored with the most significant byte first");
            assert!(<$t>::to_ne_bytes(le) == v.to_le_bytes(), "stored with the least significant byte first");
            assert!(ZeroCopy::swap_bytes::<Big>(be).to_ne_bytes() == v.to_ne_bytes(), "twice is the identity");
            assert!(ZeroCopy::swap_bytes::<Little>(le).to_ne_bytes() == v.to_ne_bytes(), "twice is the identity");
            assert!(endian::from_be(be).to_ne_bytes() == v.to_ne_bytes());
            assert!(endian::from_le(le).to_ne_bytes() == v.to_ne_bytes());
            assert!(endian::from_endian::<_, Big>(be).to_ne_bytes() == v.to_ne_bytes());

            let mut b = Endian::<$t, Big>::new(v);
            assert!(b.to_ne().to_ne_bytes() == v.to_ne_bytes(), "reads back");
            assert!(b.to_raw().to_ne_bytes() == v.to_be_bytes());
            assert!(b.to_bytes() == &v.to_be_bytes()[..], "most significant byte first in memory");
            let mut l = Endian::<$t, Little>::new(v);
            assert!(l.to_ne().to_ne_bytes() == v.to_ne_bytes(), "reads back");
            assert!(l.to_bytes() == &v.to_le_bytes()[..], "least significant byte first in memory");
            assert!(Endian::<$t, Big>::be(v).to_raw().to_ne_bytes() == v.to_be_bytes());
            assert!(Endian::<$t, Little>::le(v).to_raw().to_ne_bytes() == v.to_le_bytes());
            // What is wrapped is already in its order.
            assert!(b.swap_bytes::<Big>().to_raw().to_ne_bytes() == v.to_be_bytes());
            assert!(l.swap_bytes::<Big>().to_raw().to_ne_bytes() == v.to_le_bytes());
            assert!(core::num::Wrapping(v).swap_bytes::<Big>().0.to_ne_bytes() == v.to_be_bytes());
        });
    };
}
number!(p_u8, u8);
number!(p_u16, u16);
number!(p_u32, u32);
number!(p_u64, u64);
number!(p_u128, u128);
number!(p_usize, usize);
number!(p_i8, i8);
number!(p_i16, i16);
number!(p_i32, i32);
number!(p_i64, i64);
number!(p_i128, i128);
number!(p_isize, isize);

macro_rules! float {
    ($name:ident, $t:ty, $u:ty) => {
        harness!($name, 10, {
            let bits: $u = kani::any();
            let v = <$t>::from_bits(bits);
            assert!(ZeroCopy::swap_bytes::<Big>(v).to_bits() == bits.to_be(), "most significant byte first");
            assert!(ZeroCopy::swap_bytes::<Little>(v).to_bits() == bits.to_le());
            assert!(ZeroCopy::swap_bytes::<Big>(v).swap_bytes::<Big>().to_bits() == bits, "twice is the identity");
            let b = Endian::<$t, Big>::new(v);
            assert!(b.to_raw().to_bits() == bits.to_be() && b.to_ne().to_bits() == bits);
            let l = Endian::<$t, Little>::new(v);
            assert!(l.to_raw().to_bits() == bits.to_le() && l.to_ne().to_bits() == bits);
        });
    };
}
float!(p_f32, f32, u32);
float!(p_f64, f64, u64);

macro_rules! nonzero {
    ($name:ident, $($t:ty, $n:ty);*) => {
        harness!($name, 18, {
            $({
                let v: $t = kani::any();
                let o = <$n>::new(v);
                let be = o.swap_bytes::<Big>();
                let le = o.swap_bytes::<Little>();
                assert!(be.map_or(0, <$n>::get) == v.to_be() && le.map_or(0, <$n>::get) == v.to_le());
                assert!(ZeroCopy::swap_bytes::<Big>(be) == o && le.swap_bytes::<Little>() == o);
                if let Some(n) = o {
                    assert!(n.swap_bytes::<Big>().get() == v.to_be() && n.swap_bytes::<Little>().get() == v.to_le());
                    assert!(Endian::<$n, Big>::new(n).to_ne() == n && Endian::<$n, Little>::new(n).to_ne() == n);
                    assert!(Endian::<$n, Big>::new(n).to_raw().get() == v.to_be());
                }
            })*
        });
    };
}
nonzero!(p_nonzero_unsigned, u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64; u128, NonZeroU128; usize, NonZeroUsize);
nonzero!(p_nonzero_signed, i8, NonZeroI8; i16, NonZeroI16; i32, NonZeroI32; i64, NonZeroI64; i128, NonZeroI128; isize, NonZeroIsize);

harness!(p_other, 4, {
    let b: bool = kani::any();
    assert!(b.swap_bytes::<Big>() == b && b.swap_bytes::<Little>() == b);
    assert!(Endian::<bool, Big>::new(b).to_ne() == b);
    let c: char = kani::any();
    assert!(c.swap_bytes::<Big>() == c && c.swap_bytes::<Little>() == c, "a character is left alone");
    ().swap_bytes::<Big>();
});

harness!(p_array, 6, {
    let a: [u16; 4] = kani::any();
    let b = a.swap_bytes::<Big>();
    let l = a.swap_bytes::<Little>();
    let i = any_len(3);
    assert!(b[i] == a[i].to_be() && l[i] == a[i].to_le(), "each element in its place");
    let n: [[i32; 2]; 2] = kani::any();
    let m = n.swap_bytes::<Big>();
    let (i, j) = (any_len(1), any_len(1));
    assert!(m[i][j] == n[i][j].to_be());
    let e: [u64; 0] = [];
    e.swap_bytes::<Big>();
});

#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
struct Inner {
    x: u16,
    y: [i32; 2],
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
struct Outer {
    a: u8,
    b: u64,
    inner: Inner,
    f: bool,
    e: Endian<u32, Big>,
    z: Option<NonZeroU16>,
    #[zero_copy(ignore)]
    m: core::marker::PhantomData<u8>,
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(transparent)]
struct Thin(u32);
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C, packed)]
struct Packed(u8, u32, u16);

harness!(p_struct, 6, {
    let v = Outer {
        a: kani::any(),
        b: kani::any(),
        inner: Inner { x: kani::any(), y: kani::any() },
        f: kani::any(),
        e: Endian::new(kani::any()),
        z: NonZeroU16::new(kani::any()),
        m: core::marker::PhantomData,
    };
    fn to<E: ByteOrder>(v: Outer, order: impl Fn(u128, u32) -> u128) {
        let w = v.swap_bytes::<E>();
        assert!(w.a == v.a && w.f == v.f, "bytes stay");
        assert!(w.b as u128 == order(v.b as u128, 8), "each number is converted");
        assert!(w.inner.x as u128 == order(v.inner.x as u128, 2));
        let i = any_len(1);
        assert!(w.inner.y[i] as u32 as u128 == order(v.inner.y[i] as u32 as u128, 4));
        assert!(w.e.to_raw() == v.e.to_raw(), "what has an order of its own stays");
        let z = |z: Option<NonZeroU16>| z.map_or(0, |n| n.get()) as u128;
        assert!(z(w.z) == order(z(v.z), 2));
        let x = w.swap_bytes::<E>();
        assert!(x.b == v.b && x.inner.x == v.inner.x && x.inner.y[i] == v.inner.y[i] && x.z == v.z, "twice is the identity");
    }
    to::<Little>(v, |n, _| n);
    to::<Big>(v, |n, w| n.swap_bytes() >> (128 - 8 * w));

    let t = Thin(kani::any());
    assert!(t.swap_bytes::<Big>().0 == t.0.to_be() && t.swap_bytes::<Little>().0 == t.0.to_le());
    let p = Packed(kani::any(), kani::any(), kani::any());
    let q = p.swap_bytes::<Big>();
    let (p0, p1, p2) = (p.0, p.1, p.2);
    let (q0, q1, q2) = (q.0, q.1, q.2);
    assert!(q0 == p0 && q1 == p1.to_be() && q2 == p2.to_be());
});

#[derive(ZeroCopy, Clone, Copy, PartialEq)]
#[zero_copy(swap_bytes)]
#[repr(u16)]
enum Swap {
    A { x: u32, y: u8 } = 1,
    #[zero_copy(swap = A)]
    A_ { x: u32, y: u8 } = u16::swap_bytes(1),
    B(i16) = 2,
    #[zero_copy(swap = B)]
    B_(i16) = u16::swap_bytes(2),
}
harness!(p_enum, 4, {
    let (x, y, z) = (kani::any::<u32>(), kani::any::<u8>(), kani::any::<i16>());
    assert!(Swap::A { x, y }.swap_bytes::<Big>() == Swap::A_ { x: x.to_be(), y }, "the variant of swapped discriminant");
    assert!(Swap::A_ { x, y }.swap_bytes::<Big>() == Swap::A { x: x.to_be(), y });
    assert!(Swap::B(z).swap_bytes::<Big>() == Swap::B_(z.to_be()));
    assert!(Swap::B_(z).swap_bytes::<Big>() == Swap::B(z.to_be()));
    assert!(Swap::A { x, y }.swap_bytes::<Little>() == Swap::A { x, y });
    assert!(Swap::B_(z).swap_bytes::<Little>() == Swap::B_(z));
    assert!(Endian::<Swap, Big>::new(Swap::B(z)).to_ne() == Swap::B(z));
    let mut v = Swap::B(z);
    let first = v.to_bytes()[0];
    assert!(first == 2u16.to_ne_bytes()[0]);
});

// Every number of a stored composite is found in the order it was declared in.
harness!(p_stored, 10, {
    #[derive(ZeroCopy)]
    #[repr(C)]
    struct S {
        a: Endian<u16, Big>,
        b: Endian<u16, Little>,
        c: Endian<u32, Big>,
    }
    let (a, b, c) = (kani::any::<u16>(), kani::any::<u16>(), kani::any::<u32>());
    let mut s = S { a: Endian::new(a), b: Endian::new(b), c: Endian::new(c) };
    let m = s.to_bytes();
    assert!(m[..2] == a.to_be_bytes() && m[2..4] == b.to_le_bytes() && m[4..] == c.to_be_bytes());
    let s = S::from_bytes(m).unwrap();
    assert!(s.a.to_ne() == a && s.b.to_ne() == b && s.c.to_ne() == c);
});
