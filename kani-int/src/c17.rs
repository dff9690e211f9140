//! C17: references.
use crate::support::*;
use musli_zerocopy::endian::{Big, Little};
use musli_zerocopy::pointer::{Coerce, Pointee};
use musli_zerocopy::{ByteOrder, Ref, Size, ZeroCopy};

fn raw<T: Copy>(v: &T) -> &[u8] {
    unsafe { core::slice::from_raw_parts((v as *const T).cast(), core::mem::size_of::<T>()) }
}

// One reference of every kind, from its offset and length.
macro_rules! refs {
    ($name:ident, $o:ty, $e:ty, $bytes:ident) => {
        harness!($name, 10, {
            let (offset, len): (usize, usize) = (kani::any(), kani::any());
            let max = <$o>::MAX as usize;
            type S = Ref<[u32], $e, $o>;
            match S::try_with_metadata(offset, len) {
                Ok(r) => {
                    assert!(offset <= max && len <= max, "what does not fit is refused");
                    assert!(r.offset() == offset && r.len() == len && r.is_empty() == (len == 0), "reports its target");
                    assert!(r.metadata().as_usize::<$e>() == len);
                    let n = core::mem::size_of::<$o>();
                    let i = any_len(n - 1);
                    assert!(raw(&r)[i] == (offset as $o).$bytes()[i], "stored in its byte order");
                    assert!(raw(&r)[n + i] == (len as $o).$bytes()[i], "stored in its byte order");
                    let w = S::with_metadata(offset, len);
                    assert!(w == r);

                    // Any other byte order has the same target.
                    let b = r.to_be();
                    assert!(b.offset() == offset && b.len() == len);
                    let l = r.to_le();
                    assert!(l.offset() == offset && l.len() == len);
                    let n = r.to_ne();
                    assert!(n.offset() == offset && n.len() == len);
                    assert!(b.to_endian::<$e>() == r && l.to_endian::<$e>() == r);
                }
                Err(..) => assert!(offset > max || len > max, "what fits is accepted"),
            }
            match Ref::<str, $e, $o>::try_with_metadata(offset, len) {
                Ok(r) => {
                    assert!(offset <= max && len <= max);
                    assert!(r.offset() == offset && r.len() == len && r.is_empty() == (len == 0));
                    assert!(r.to_be().len() == len && r.to_le().len() == len && r.to_be().offset() == offset);
                    let c = r.coerce::<[u8]>();
                    assert!(c.offset() == offset && c.len() == len, "the same bytes");
                    let c = c.coerce::<str>();
                    assert!(c == r);
                }
                Err(..) => assert!(offset > max || len > max),
            }
            match Ref::<u64, $e, $o>::try_with_metadata(offset, ()) {
                Ok(r) => {
                    assert!(offset <= max);
                    assert!(r.offset() == offset && r == Ref::new(offset));
                    assert!(r.to_be().offset() == offset && r.to_le().offset() == offset && r.to_ne().offset() == offset);
                }
                Err(..) => assert!(offset > max),
            }
            assert!(Ref::<u64, $e, $o>::zero().offset() == 0);
        });
    };
}
refs!(p_refs_u8_be, u8, Big, to_be_bytes);
refs!(p_refs_u8_le, u8, Little, to_le_bytes);
refs!(p_refs_u16_be, u16, Big, to_be_bytes);
refs!(p_refs_u16_le, u16, Little, to_le_bytes);
refs!(p_refs_u32_be, u32, Big, to_be_bytes);
refs!(p_refs_u32_le, u32, Little, to_le_bytes);
refs!(p_refs_usize_be, usize, Big, to_be_bytes);
refs!(p_refs_usize_le, usize, Little, to_le_bytes);
#[cfg(target_pointer_width = "64")]
refs!(p_refs_u64_be, u64, Big, to_be_bytes);
#[cfg(target_pointer_width = "64")]
refs!(p_refs_u64_le, u64, Little, to_le_bytes);

// Elements of a slice, by index, by iterating, and by splitting.
macro_rules! index {
    ($name:ident, $o:ty, $e:ty, $t:ty) => {
        harness!($name, 5, {
            const SIZE: usize = core::mem::size_of::<$t>();
            let (offset, len): (usize, usize) = (kani::any(), kani::any());
            // The target is addressable.
            let end = len.checked_mul(SIZE).and_then(|n| n.checked_add(offset));
            kani::assume(end.is_some_and(|end| end <= <$o>::MAX as usize && end <= isize::MAX as usize));
            kani::assume(len <= <$o>::MAX as usize);
            let r = Ref::<[$t], $e, $o>::with_metadata(offset, len);
            let i: usize = kani::any();
            match r.get(i) {
                Some(e) => {
                    assert!(i < len && e.offset() == offset + i * SIZE, "the element of that index");
                    assert!(r.get_unchecked(i) == e);
                }
                None => assert!(i >= len, "every element is there"),
            }
            let at: usize = kani::any();
            kani::assume(at <= len);
            let (a, b) = r.split_at(at);
            assert!(a.offset() == offset && a.len() == at, "the first half");
            assert!(b.offset() == offset + at * SIZE && b.len() == len - at, "the second half");
            let mut it = r.iter();
            let (first, last) = (it.next(), it.next_back());
            assert!(first.map(|e| e.offset()) == if len > 0 { Some(offset) } else { None });
            assert!(last.map(|e| e.offset()) == if len > 1 { Some(offset + (len - 1) * SIZE) } else { None });
            if len > 2 {
                assert!(it.next().unwrap().offset() == offset + SIZE);
            } else {
                assert!(it.next().is_none() && it.next_back().is_none(), "no element twice");
            }
        });
    };
}
index!(p_index_u8, u8, Big, u16);
index!(p_index_u16, u16, Little, u32);
index!(p_index_u32, u32, Big, u64);
index!(p_index_usize, usize, Big, u32);
index!(p_index_bytes, u32, Little, u8);

#[cfg(not(kani))]
fn refused<R>(f: impl FnOnce() -> R + std::panic::UnwindSafe) -> bool {
    std::panic::catch_unwind(f).is_err()
}

// The bytes which are addressed stay the same, and a length which does not fit
// is refused.
macro_rules! coerce {
    ($name:ident, $o:ty, $e:ty, $($t:ty => $u:ty),*) => {
        harness!($name, 5, {
            let (offset, len): ($o, $o) = (kani::any(), kani::any());
            $({
                const F: usize = core::mem::size_of::<$t>() / core::mem::size_of::<$u>();
                let r = Ref::<[$t], $e, $o>::with_metadata(offset, len as usize);
                let want = len.checked_mul(F as $o);
                let got = r.try_coerce::<[$u]>();
                match (got, want) {
                    (Some(c), Some(n)) => {
                        assert!(c.offset() == offset as usize && c.len() == n as usize, "the same bytes");
                        assert!(r.coerce::<[$u]>() == c);
                    }
                    (got, want) => assert!(got.is_none() && want.is_none(), "exactly when the length fits"),
                }
                let one = Ref::<$t, $e, $o>::new(offset);
                let c = one.coerce::<[$u]>();
                assert!(c.offset() == offset as usize && c.len() == F, "the same bytes");
                assert!(one.try_coerce::<[$u]>() == Some(c));
            })*
        });
    };
}
coerce!(p_coerce_narrow_u8_be, u8, Big, u16 => u8, u32 => i8, u64 => u8, u128 => u8, i32 => u16, i64 => u32, u128 => i64, u64 => u16, i128 => [u16; 4]);
coerce!(p_coerce_narrow_u16_be, u16, Big, u16 => i8, i32 => u8, u64 => i8, i128 => u8, u32 => [u8; 2], u64 => [u16; 2], u128 => u32);
coerce!(p_coerce_narrow_u16_le, u16, Little, u16 => u8, u32 => u8, u64 => u8, u128 => u8, u128 => [u32; 2]);
coerce!(p_coerce_narrow_u32_be, u32, Big, i16 => u8, u32 => u8, u64 => u8, u64 => u32, u128 => u8, u128 => u16);
coerce!(p_coerce_narrow_usize_be, usize, Big, u16 => u8, u32 => u8, u64 => u8, u128 => u8, u64 => i32);
coerce!(p_coerce_same_u16_be, u16, Big, u8 => i8, u16 => i16, u32 => [u16; 2], u32 => [i8; 4], u64 => [u8; 8], u128 => [u64; 2], i128 => i128, i64 => u64);
coerce!(p_coerce_same_u32_le, u32, Little, i8 => u8, i16 => [u8; 2], u32 => i32, i64 => [i32; 2], u64 => [u16; 4], u128 => [u8; 16]);

macro_rules! coerce_sized {
    ($name:ident, $o:ty, $e:ty, $($t:ty => $u:ty),*) => {
        harness!($name, 5, {
            let offset: $o = kani::any();
            $({
                let r = Ref::<$t, $e, $o>::new(offset);
                assert!(core::mem::size_of::<$t>() == core::mem::size_of::<$u>());
                assert!(r.coerce::<$u>().offset() == offset as usize);
                assert!(r.try_coerce::<$u>().unwrap().offset() == offset as usize);
            })*
        });
    };
}
coerce_sized!(p_coerce_sized_be, u16, Big, u8 => i8, u16 => [u8; 2], i32 => [u16; 2], u64 => [i32; 2], u128 => [u64; 2], core::num::NonZeroU32 => u32,
    core::num::NonZeroI64 => u64, core::num::Wrapping<u32> => i32);
coerce_sized!(p_coerce_sized_le, u32, Little, i8 => u8, u32 => u32, core::num::NonZeroU16 => i16, core::num::NonZeroU128 => i128);

harness!(p_array, 5, {
    let offset: u16 = kani::any();
    let r = Ref::<[u32; 7], Big, u16>::new(offset);
    let s = r.array_into_slice();
    assert!(s.offset() == offset as usize && s.len() == 7, "every element");
    let s = r.coerce::<[u32]>();
    assert!(s.offset() == offset as usize && s.len() == 7);
    let s = r.coerce::<[u8]>();
    assert!(s.offset() == offset as usize && s.len() == 28);
    assert!(r.try_coerce::<[u8]>() == Some(s));
    // 300 does not fit.
    let r = Ref::<[u16; 300], Little, u8>::new(offset as u8);
    assert!(r.try_coerce::<[u8]>().is_none() && r.try_coerce::<[u16]>().is_none());
    let r = Ref::<[u16; 200], Little, u8>::new(offset as u8);
    assert!(r.try_coerce::<[u8]>().is_none());
    assert!(r.try_coerce::<[i16]>().unwrap().len() == 200);
});

// Sizes by themselves.
macro_rules! size {
    ($name:ident, $($o:ty),*) => {
        harness!($name, 4, {
            let n: usize = kani::any();
            $({
                assert!(<$o>::try_from_usize(n) == if n <= <$o>::MAX as usize { Some(n as $o) } else { None });
                let v: $o = kani::any();
                assert!(v.as_usize::<Little>() == <$o>::from_le(v) as usize && v.as_usize::<Big>() == <$o>::from_be(v) as usize);
                assert!(Size::is_zero(v) == (v == 0));
            })*
        });
    };
}
size!(p_size, u8, u16, u32, usize);
#[cfg(target_pointer_width = "64")]
size!(p_size_64, u64);

// A reference loads the target it reports, however it came about.
harness!(p_loads, 8, {
    use musli_zerocopy::Buf;
    #[repr(C, align(8))]
    struct Memory([u8; 16]);
    let m = Memory(kani::any());
    let buf = Buf::new(&m.0);
    let at = any_len(2) * 4;
    let r = Ref::<u32, Big, u16>::new(at as u16);
    let want = u32::from_ne_bytes([m.0[at], m.0[at + 1], m.0[at + 2], m.0[at + 3]]);
    assert!(*buf.load(r).unwrap() == want && *buf.load(r.to_le()).unwrap() == want);
    let n = any_len(2);
    let s = Ref::<[u16], Big, u32>::with_metadata(at, n);
    let got = buf.load(s).unwrap();
    assert!(got.as_ptr() as usize == m.0.as_ptr() as usize + at && got.len() == n);
    let got = buf.load(s.to_le()).unwrap();
    assert!(got.as_ptr() as usize == m.0.as_ptr() as usize + at && got.len() == n);
    let got = buf.load(s.coerce::<[u8]>()).unwrap();
    assert!(got.as_ptr() as usize == m.0.as_ptr() as usize + at && got.len() == 2 * n);
});
