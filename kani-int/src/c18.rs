//! C18: storing into buffers.
use crate::support::*;
use crate::zc::*;
use core::mem::{align_of, size_of};
use core::num::*;
use musli_zerocopy::endian::{Big, Little};
use musli_zerocopy::{buf, Buf, ByteOrder, Endian, OwnedBuf, Ref, SliceMut, ZeroCopy};

// A value of any type behind bytes which are there already: where it goes, what
// is written, and that it loads back.
macro_rules! stored {
    ($s:expr, $t:ty, $before:ident, $r:ident, $v:ident) => {{
        const N: usize = size_of::<$t>();
        let at = $r.offset();
        assert!(at % align_of::<$t>() == 0, "aligned");
        assert!(at >= $before.len() && at < $before.len() + align_of::<$t>(), "behind what is there");
        assert!($s.len() == at + N, "as long as what is stored");
        let mut i = 0;
        while i < $before.len() {
            assert!($s.as_slice()[i] == $before[i], "what was there stays");
            i += 1;
        }
        while i < at {
            assert!($s.as_slice()[i] == 0, "padding is zero");
            i += 1;
        }
        if N > 0 {
            let i = any_len(N - 1);
            if <$t>::used(&$v.0, i) {
                assert!($s.as_slice()[at + i] == $v.0[i], "the same value");
            } else {
                assert!($s.as_slice()[at + i] == 0, "padding is zero");
            }
        }
        let back = $s.load($r);
        assert!(back.is_ok(), "loads back");
        let back: *const $t = back.unwrap();
        assert!(back.cast::<u8>() == $s.as_slice().as_ptr().wrapping_add(at));
        assert!($s.load_at_unaligned::<$t>(at).is_ok());
    }};
}
macro_rules! store {
    ($name:ident, $t:ty, $before:literal) => {
        harness!($name, 18, {
            let v = Place::<{ size_of::<$t>() }>::any::<$t>();
            let before: [u8; $before] = any_bytes();
            let mut place = Place::<64>(any_bytes());
            let mut b = SliceMut::new(&mut place.0).with_byte_order::<Big>().with_size::<u16>();
            b.extend_from_slice(&before);
            let r = b.store(v.get::<$t>());
            stored!(b, $t, before, r, v);
            reachable!("stored");
        });
    };
}
macro_rules! owned {
    ($name:ident, $t:ty, $before:literal) => {
        harness!($name, 18, {
            let v = Place::<{ size_of::<$t>() }>::any::<$t>();
            let before: [u8; $before] = any_bytes();
            let mut b = OwnedBuf::with_capacity_and_alignment::<u128>(64);
            b.extend_from_slice(&before);
            let r = b.store(v.get::<$t>());
            stored!(b, $t, before, r, v);
            reachable!("stored");
        });
    };
}
store!(p_store_u8, u8, 1);
store!(p_store_u64, u64, 3);
store!(p_store_unit, (), 1);
store!(p_store_char, char, 2);
store!(p_store_nonzero, NonZeroI128, 1);
store!(p_store_option, Option<NonZeroU64>, 0);
store!(p_store_endian, Endian<u32, Big>, 1);
store!(p_store_ref, Ref<[u64], Little, usize>, 1);
store!(p_store_array, [u16; 3], 1);
store!(p_store_plain, Plain, 1);
store!(p_store_wide, Wide, 3);
store!(p_store_packed1, Packed1, 1);
store!(p_store_packed2, Packed2, 1);
store!(pt_store_packed4, Packed4, 1);
store!(p_store_aligned, Aligned, 1);
store!(p_store_thin, Thin, 1);
store!(pt_store_outer, Outer, 1);
store!(pt_store_in_packed, InPacked, 1);
store!(pt_store_of_packed, OfPacked, 1);
store!(pt_store_plains, [Plain; 2], 1);
store!(p_store_enum_unit, Unit, 1);
store!(p_store_enum_signed, Signed, 1);
store!(pt_store_enum_deep, Deep, 1);
store!(pt_store_of_enum, OfEnum, 1);
store!(pt_store_packed_enum, PackedEnum, 1);
store!(p_store_generic, Generic<bool>, 1);
owned!(pt_owned_u8, u8, 1);
owned!(p_owned_u64, u64, 3);
owned!(pt_owned_unit, (), 1);
owned!(pt_owned_char, char, 2);
owned!(pt_owned_nonzero, NonZeroI128, 1);
owned!(pt_owned_option, Option<NonZeroU64>, 0);
owned!(pt_owned_endian, Endian<u32, Big>, 1);
owned!(pt_owned_ref, Ref<[u64], Little, usize>, 1);
owned!(pt_owned_array, [u16; 3], 1);
owned!(p_owned_plain, Plain, 1);
owned!(pt_owned_wide, Wide, 3);
owned!(pt_owned_packed1, Packed1, 1);
owned!(p_owned_packed2, Packed2, 1);
owned!(pt_owned_packed4, Packed4, 1);
owned!(pt_owned_aligned, Aligned, 1);
owned!(pt_owned_thin, Thin, 1);
owned!(pt_owned_outer, Outer, 1);
owned!(pt_owned_in_packed, InPacked, 1);
owned!(pt_owned_of_packed, OfPacked, 1);
owned!(pt_owned_plains, [Plain; 2], 1);
owned!(pt_owned_enum_unit, Unit, 1);
owned!(pt_owned_enum_signed, Signed, 1);
owned!(pt_owned_enum_deep, Deep, 1);
owned!(pt_owned_of_enum, OfEnum, 1);
owned!(pt_owned_packed_enum, PackedEnum, 1);
owned!(pt_owned_generic, Generic<bool>, 1);

// Slices.
macro_rules! slices {
    ($name:ident, $t:ty, $n:literal, $unwind:literal) => {
        harness!($name, $unwind, {
            const N: usize = size_of::<[$t; $n]>();
            let v = Place::<N>::any::<[$t; $n]>();
            let mut place = Place::<64>(any_bytes());
            let mut b = SliceMut::new(&mut place.0);
            b.extend_from_slice(&[7]);
            let n = any_len($n);
            let r = b.store_slice(&v.get::<[$t; $n]>()[..n]);
            let at = r.offset();
            assert!(r.len() == n && at % align_of::<$t>() == 0, "aligned");
            assert!(at >= 1 && at < 1 + align_of::<$t>() && b.len() == at + n * size_of::<$t>());
            let i = any_len(b.len() - 1);
            let got = b.as_slice()[i];
            if i == 0 {
                assert!(got == 7, "what was there stays");
            } else if i < at || !<[$t; $n]>::used(&v.0, i - at) {
                assert!(got == 0, "padding is zero");
            } else {
                assert!(got == v.0[i - at], "the same values");
            }
            let back = b.load(r);
            assert!(back.is_ok() && back.unwrap().len() == n, "loads back");
        });
    };
}
slices!(b_slice_u8, u8, 3, 6);
slices!(b_slice_u64, u64, 2, 6);
slices!(b_slice_char, char, 2, 6);
slices!(bt_slice_plain, Plain, 2, 6);
slices!(b_slice_packed2, Packed2, 2, 6);
slices!(bt_slice_enum, Signed, 2, 6);

// Text.
harness!(b_text, 6, {
    let mut place = Place::<64>(any_bytes());
    let mut b = SliceMut::new(&mut place.0);
    b.extend_from_slice(&[1, 2, 3]);
    let v = ["", "a", "\u{e9}x", "\u{20ac}"][any_len(3)];
    let r = b.store_unsized(v);
    assert!(r.offset() == 3 && r.len() == v.len() && b.len() == 3 + v.len());
    assert!(b.load(r).unwrap() == v, "loads back");
});

// A place is reserved, and written later.
macro_rules! uninit {
    ($name:ident, $t:ty) => {
        harness!($name, 18, {
            const N: usize = size_of::<$t>();
            let v = Place::<N>::any::<$t>();
            let mut b = OwnedBuf::with_capacity_and_alignment::<u128>(64);
            b.extend_from_slice(&[7]);
            let r = b.store_uninit::<$t>();
            let at = r.offset();
            assert!(at % align_of::<$t>() == 0 && at < 1 + align_of::<$t>() && b.len() == at + N);
            let i = any_len(N - 1);
            assert!(b.as_slice()[at + i] == 0 && b.as_slice()[0] == 7);
            let last = b.store(&9u8);
            b.load_uninit_mut(r).write(v.get::<$t>());
            assert!(b.as_slice()[at + i] == if <$t>::used(&v.0, i) { v.0[i] } else { 0 }, "the same value");
            assert!(b.load(r.assume_init()).is_ok(), "loads back");
            assert!(*b.load(last).unwrap() == 9 && b.as_slice()[0] == 7, "nothing else changes");
        });
    };
}
uninit!(p_uninit_u32, u32);
uninit!(p_uninit_plain, Plain);
uninit!(p_uninit_packed2, Packed2);
uninit!(p_uninit_enum, Signed);

// One store from any state of a fixed buffer: any capacity, length, contents.
macro_rules! any_state {
    ($name:ident, $t:ty, $a:ty) => {
        harness!($name, 18, {
            const N: usize = size_of::<$t>();
            let s = any_slice_mut();
            let (p, cap) = (s.as_ptr(), s.len());
            let other = any_at(cap);
            kani::assume(other < cap);
            let before = s[other];
            let v: $t = kani::any();
            let bytes = v.to_ne_bytes();
            let mut b = SliceMut::with_alignment::<$a>(s).with_size::<usize>();
            let len = any_at(cap);
            let at = len.wrapping_add(align_of::<$t>() - 1) & !(align_of::<$t>() - 1);
            kani::assume(len <= cap && at >= len && at <= cap && N <= cap - at && align_of::<$t>().max(align_of::<$a>()) <= cap);
            // SAFETY: the bytes are initialised.
            unsafe { b.advance(len) };
            let r = b.store(&v);
            assert!(r.offset() == at && b.len() == at + N && b.capacity() == cap, "the next aligned place");
            assert!(b.as_slice().as_ptr() == p && b.requested() >= align_of::<$t>());
            // SAFETY: the buffer is still there.
            let now = unsafe { *p.add(other) };
            if other < len || other >= at + N {
                assert!(now == before, "nothing else changes");
            } else if other < at {
                assert!(now == 0, "padding is zero");
            } else {
                assert!(now == bytes[other - at], "the same value");
            }
        });
    };
}
any_state!(p_any_state_u8, u8, u8);
any_state!(p_any_state_u32, u32, u8);
any_state!(p_any_state_u64, u64, u32);
any_state!(p_any_state_u128, u128, u64);

// Raw bytes, from any state.
harness!(p_any_state_bytes, 3, {
    let s = any_slice_mut();
    let (p, cap) = (s.as_ptr(), s.len());
    let other = any_at(cap);
    kani::assume(other < cap);
    let before = s[other];
    let mut b = SliceMut::with_alignment::<u8>(s);
    let len = any_at(cap);
    let v: [u8; 5] = any_bytes();
    let n = any_len(5);
    kani::assume(len <= cap && n <= cap - len);
    // SAFETY: the bytes are initialised.
    unsafe { b.advance(len) };
    b.extend_from_slice(&v[..n]);
    assert!(b.len() == len + n);
    // SAFETY: the buffer is still there.
    let now = unsafe { *p.add(other) };
    if other < len || other >= len + n {
        assert!(now == before, "nothing else changes");
    } else {
        assert!(now == v[other - len], "the same bytes");
    }
});

// What does not fit is refused by a panic, and so writes nothing outside.
macro_rules! refuse {
    ($name:ident, $b:ident, $room:expr, $does:expr) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind(18))]
        #[cfg_attr(kani, kani::should_panic)]
        pub fn $name() {
            let s = any_slice_mut();
            let cap = s.len();
            let mut $b = SliceMut::with_alignment::<u8>(s);
            let len = any_at(cap);
            kani::assume(len <= cap);
            // SAFETY: the bytes are initialised.
            unsafe { $b.advance(len) };
            kani::assume(!($room)(len, cap));
            refused(move || $does);
        }
    };
}
refuse!(p_refuse_u8, b, |len: usize, cap: usize| len < cap, { b.store(&1u8); });
refuse!(p_refuse_u64, b, |len: usize, cap: usize| (len + 7) / 8 * 8 + 8 <= cap, { b.store(&1u64); });
refuse!(p_refuse_u128, b, |len: usize, cap: usize| (len + 15) / 16 * 16 + 16 <= cap, { b.store(&1u128); });
refuse!(p_refuse_slice, b, |len: usize, cap: usize| (len + 3) / 4 * 4 + 12 <= cap, { b.store_slice(&[1u32, 2, 3]); });
refuse!(p_refuse_text, b, |len: usize, cap: usize| len + 4 <= cap, { b.store_unsized("abcd"); });
refuse!(p_refuse_bytes, b, |len: usize, cap: usize| len + 5 <= cap, { b.extend_from_slice(&[1; 5]); });
refuse!(p_refuse_uninit, b, |len: usize, cap: usize| (len + 1) / 2 * 2 + 2 <= cap, { b.store_uninit::<u16>(); });

// Growing keeps everything.
harness!(bt_grow, 18, {
    let mut b = OwnedBuf::with_capacity(any_len(2));
    let (x, y, z): (u8, u64, [u16; 5]) = (kani::any(), kani::any(), kani::any());
    let rx = b.store(&x);
    let ry = b.store(&y);
    let rz = b.store_slice(&z);
    let rw = b.store(&u128::MAX);
    b.align_in_place();
    assert!(*b.load(rx).unwrap() == x && *b.load(ry).unwrap() == y, "loads back");
    assert!(b.load(rz).unwrap() == &z[..] && *b.load(rw).unwrap() == u128::MAX, "loads back");
    let i = any_len(6);
    assert!(b.as_slice()[1 + i] == 0, "padding is zero");
    assert!(b.capacity() >= b.len() && b.requested() == 16);
    let c = b.clone();
    let i = any_len(b.len() - 1);
    assert!(c.as_slice()[i] == b.as_slice()[i] && c.len() == b.len(), "a copy is the same");
});

harness!(b_request, 18, {
    let n = any_len(3);
    let mut b = OwnedBuf::with_alignment::<u8>();
    b.extend_from_slice(&[1, 2, 3][..n]);
    b.request_align::<u64>();
    assert!(b.len() == if n == 0 { 0 } else { 8 } && b.requested() == 8);
    if n > 0 {
        let i = any_len(7);
        assert!(b.as_slice()[i] == if i < n { i as u8 + 1 } else { 0 }, "padding is zero");
    }
    let at = b.next_offset::<u32>();
    assert!(at == b.len());
    let r = b.store(&5u32);
    assert!(r.offset() == at, "the offset announced is the one used");
    let len = b.len();
    let at = b.next_offset::<u64>();
    assert!(at == (len + 7) / 8 * 8 && b.len() == at);
    b.align_in_place();
    assert!(*b.load(r).unwrap() == 5);
});

harness!(b_grow, 10, {
    let mut b = OwnedBuf::new();
    let (x, y): (u8, u64) = (kani::any(), kani::any());
    let rx = b.store(&x);
    let ry = b.store(&y);
    b.align_in_place();
    assert!(*b.load(rx).unwrap() == x && *b.load(ry).unwrap() == y, "loads back");
    let i = any_len(6);
    assert!(b.as_slice()[1 + i] == 0 && b.len() == 16, "padding is zero");
    assert!(b.capacity() >= b.len() && b.requested() == 8);
});
