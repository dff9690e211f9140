//! Zero-copy types of every shape, and which bytes represent them.
use crate::support::*;
use core::mem::{offset_of, size_of};
use core::num::*;
use musli_zerocopy::endian::{Big, Little};
use musli_zerocopy::{Endian, Ref, ZeroCopy};
use musli_zerocopy::slice::Packed;

/// Whether the bytes `s` (of the size of the type) represent a value of it.
pub trait Bits: ZeroCopy {
    fn bits(s: &[u8]) -> bool;

    /// Whether byte `i` belongs to a field, and not to padding.
    fn used(_: &[u8], _: usize) -> bool {
        true
    }

    /// Make arbitrary bytes represent a value (only used running natively).
    fn make(_: &mut [u8]) {}
}

macro_rules! any_bits {
    ($($t:ty),* $(,)?) => {$(impl Bits for $t { fn bits(_: &[u8]) -> bool { true } })*};
}
any_bits!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, ());
any_bits!(Option<NonZeroU8>, Option<NonZeroU64>, Option<NonZeroI16>);
any_bits!(Endian<u32, Big>, Endian<u64, Little>, Ref<u32>, Ref<str, Big, u16>, Ref<[u64], Little, usize>, Packed<[char], u16, u8, Big>);

macro_rules! nonzero {
    ($($t:ty, $i:ty, $n:literal);* $(;)?) => {$(impl Bits for $t {
        fn bits(s: &[u8]) -> bool {
            let b: [u8; $n] = s[..$n].try_into().unwrap();
            <$i>::from_ne_bytes(b) != 0
        }
        fn make(s: &mut [u8]) {
            if !Self::bits(s) {
                s[$n - 1] = 1;
            }
        }
    })*};
}
nonzero!(NonZeroU8, u8, 1; NonZeroI8, i8, 1; NonZeroU16, u16, 2; NonZeroI16, i16, 2; NonZeroU32, u32, 4; NonZeroI32, i32, 4; NonZeroU64, u64, 8; NonZeroI64, i64, 8; NonZeroUsize, usize, 8; NonZeroIsize, isize, 8; NonZeroU128, u128, 16; NonZeroI128, i128, 16);

impl Bits for bool {
    fn bits(s: &[u8]) -> bool {
        s[0] <= 1
    }
    fn make(s: &mut [u8]) {
        s[0] &= 1;
    }
}
impl Bits for char {
    fn bits(s: &[u8]) -> bool {
        let v = u32::from_ne_bytes([s[0], s[1], s[2], s[3]]);
        v < 0xd800 || (v >= 0xe000 && v < 0x110000)
    }
    fn make(s: &mut [u8]) {
        if !Self::bits(s) {
            s[1] = 0;
            s[2] = 0;
            s[3] = 0;
            s[if cfg!(target_endian = "big") { 0 } else { 3 }] = 0;
        }
    }
}
impl<T: Bits, const N: usize> Bits for [T; N] {
    fn bits(s: &[u8]) -> bool {
        let mut i = 0;
        while i < N {
            if !T::bits(&s[i * size_of::<T>()..]) {
                return false;
            }
            i += 1;
        }
        true
    }
    fn used(s: &[u8], i: usize) -> bool {
        let n = size_of::<T>();
        n > 0 && T::used(&s[i / n * n..], i % n)
    }
    fn make(s: &mut [u8]) {
        for i in 0..N {
            T::make(&mut s[i * size_of::<T>()..]);
        }
    }
}
impl<T: Bits> Bits for Wrapping<T> {
    fn bits(s: &[u8]) -> bool {
        T::bits(s)
    }
}

fn field<T: Bits>(s: &[u8], i: usize, at: usize) -> bool {
    i >= at && i < at + size_of::<T>() && T::used(&s[at..], i - at)
}

macro_rules! strukt {
    ($(#[$m:meta])* $name:ident { $($f:ident: $t:ty),* }) => {
        #[derive(ZeroCopy, Clone, Copy)]
        $(#[$m])*
        pub struct $name { $(pub $f: $t),* }
        impl Bits for $name {
            fn bits(s: &[u8]) -> bool {
                true $(&& <$t>::bits(&s[offset_of!($name, $f)..]))*
            }
            fn used(s: &[u8], i: usize) -> bool {
                false $(|| field::<$t>(s, i, offset_of!($name, $f)))*
            }
            fn make(s: &mut [u8]) {
                $(<$t>::make(&mut s[offset_of!($name, $f)..]);)*
            }
        }
    };
}

strukt!(#[repr(C)] #[derive(PartialEq, Debug)] Plain { a: u8, b: char, c: bool, d: NonZeroU16 });
strukt!(#[repr(C)] #[derive(PartialEq, Debug)] Wide { a: bool, b: NonZeroU64, c: u8, d: u16 });
strukt!(#[repr(C, packed)] Packed1 { a: bool, b: char, c: NonZeroI16 });
strukt!(#[repr(C, packed(2))] Packed2 { a: bool, b: char, c: u8, d: NonZeroU32, e: bool });
strukt!(#[repr(C, packed(4))] Packed4 { a: u8, b: NonZeroU64, c: bool, d: u16, e: char });
strukt!(#[repr(C, align(8))] #[derive(PartialEq, Debug)] Aligned { a: bool, b: u16 });
strukt!(#[repr(transparent)] #[derive(PartialEq, Debug)] Thin { a: char });
strukt!(#[repr(C)] #[derive(PartialEq, Debug)] Outer { x: u8, y: Plain, z: [bool; 2], w: u32 });
strukt!(#[repr(C, packed)] InPacked { x: bool, y: Plain });
strukt!(#[repr(C)] OfPacked { x: bool, y: Packed2, z: u8 });

#[derive(ZeroCopy, Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum Unit {
    A,
    B = 5,
    C,
}
impl Bits for Unit {
    fn bits(s: &[u8]) -> bool {
        s[0] == 0 || s[0] == 5 || s[0] == 6
    }
    fn make(s: &mut [u8]) {
        s[0] = [0, 5, 6][s[0] as usize % 3];
    }
}

#[derive(ZeroCopy, Clone, Copy, PartialEq, Debug)]
#[repr(i16)]
pub enum Signed {
    A = -2,
    B,
    C { x: u8, y: bool } = 300,
    D(char, NonZeroU8) = -300,
}
impl Bits for Signed {
    fn bits(s: &[u8]) -> bool {
        // The discriminant, then the fields as in a struct which starts with it.
        match i16::from_ne_bytes([s[0], s[1]]) {
            -2 | -1 => true,
            300 => s[3] <= 1,
            -300 => char::bits(&s[4..]) && s[8] != 0,
            _ => false,
        }
    }
    fn used(s: &[u8], i: usize) -> bool {
        i < 2
            || match i16::from_ne_bytes([s[0], s[1]]) {
                300 => i < 4,
                -300 => i >= 4 && i < 9,
                _ => false,
            }
    }
    fn make(s: &mut [u8]) {
        let v: i16 = [-2, -1, 300, -300][s[0] as usize % 4];
        s[..2].copy_from_slice(&v.to_ne_bytes());
        s[3] = if s[0] == 44 { s[3] & 1 } else { s[3] };
        char::make(&mut s[4..]);
        s[8] |= 1;
    }
}

#[derive(ZeroCopy, Clone, Copy, PartialEq, Debug)]
#[repr(u32)]
pub enum Deep {
    C,
    A(bool, u64),
    E = 77,
    B { s: Signed, c: Plain } = u32::MAX,
}
impl Bits for Deep {
    fn bits(s: &[u8]) -> bool {
        match u32::from_ne_bytes([s[0], s[1], s[2], s[3]]) {
            1 => s[4] <= 1,
            u32::MAX => Signed::bits(&s[4..]) && Plain::bits(&s[16..]),
            0 | 77 => true,
            _ => false,
        }
    }
    fn used(s: &[u8], i: usize) -> bool {
        i < 4
            || match u32::from_ne_bytes([s[0], s[1], s[2], s[3]]) {
                1 => i < 5 || (i >= 8 && i < 16),
                u32::MAX => field::<Signed>(s, i, 4) || field::<Plain>(s, i, 16),
                _ => false,
            }
    }
    fn make(s: &mut [u8]) {
        let d = [0, 1, 77, u32::MAX][s[0] as usize % 4];
        s[..4].copy_from_slice(&d.to_ne_bytes());
        match d {
            1 => bool::make(&mut s[4..]),
            u32::MAX => {
                Signed::make(&mut s[4..]);
                Plain::make(&mut s[16..]);
            }
            _ => {}
        }
    }
}

strukt!(#[repr(C)] OfEnum { a: u8, b: Signed, c: Unit });
strukt!(#[repr(C, packed)] PackedEnum { a: u8, b: Signed, c: Unit });

#[derive(ZeroCopy, Clone, Copy, PartialEq, Debug)]
#[repr(C)]
pub struct Generic<T> where T: ZeroCopy {
    pub a: u8,
    pub b: T,
}
impl Bits for Generic<bool> {
    fn bits(s: &[u8]) -> bool {
        s[1] <= 1
    }
    fn make(s: &mut [u8]) {
        s[1] &= 1;
    }
}

/// Any value, its padding holding anything, too.
#[repr(C, align(16))]
pub struct Place<const N: usize>(pub [u8; N]);

impl<const N: usize> Place<N> {
    pub fn any<T: Bits>() -> Self {
        let mut p = Self(any_bytes());
        #[cfg(not(kani))]
        T::make(&mut p.0);
        kani::assume(T::bits(&p.0));
        p
    }

    pub fn get<T: Bits>(&self) -> &T {
        assert!(size_of::<T>() == N && core::mem::align_of::<T>() <= 16);
        // SAFETY: the bytes represent a value.
        unsafe { &*self.0.as_ptr().cast() }
    }
}
