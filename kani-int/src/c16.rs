//! C16: loading from buffers which anyone may have written.
use crate::support::*;
use crate::zc::*;
use core::mem::{align_of, size_of};
use core::num::*;
use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::{Buf, ByteOrder, Endian, Ref, Size, ZeroCopy};
use musli_zerocopy::slice::{Packed, Slice};

/// Any buffer, at any alignment.
fn any_buf() -> &'static [u8] {
    let s = any_slice();
    let base = any_len(s.len().min(7));
    &s[base..]
}
fn any_buf_mut() -> &'static mut [u8] {
    let s = any_slice_mut();
    let base = any_len(s.len().min(7));
    &mut s[base..]
}

fn is_at<T: ?Sized>(v: &T, s: &[u8], at: usize) -> bool {
    (v as *const T).cast::<u8>() == s.as_ptr().wrapping_add(at)
}

// A value of a type, wherever the reference points, in a buffer of any length.
macro_rules! bounds {
    ($name:ident, $t:ty) => {
        harness!($name, 3, {
            let s = any_buf();
            let at = any_at(s.len());
            let n = size_of::<$t>();
            if let Ok(v) = Buf::new(s).load_at::<$t>(at) {
                assert!(at <= s.len() && n <= s.len() - at, "inside of the buffer");
                assert!(is_at(v, s, at), "where the reference points");
                assert!((v as *const $t as usize) % align_of::<$t>() == 0, "aligned");
                assert!(<$t>::bits(&s[at..at + n]), "a representation of the type");
                reachable!("some buffers load");
            }
            if Buf::new(s).load_at_unaligned::<$t>(at).is_ok() {
                assert!(at <= s.len() && n <= s.len() - at, "inside of the buffer");
                assert!(<$t>::bits(&s[at..at + n]), "a representation of the type");
                reachable!("some buffers load");
            }
        });
    };
}
bounds!(p_bounds_u8, u8);
bounds!(p_bounds_u32, u32);
bounds!(p_bounds_u128, u128);
bounds!(p_bounds_array, [u16; 1]);
bounds!(p_bounds_none, [u64; 0]);
bounds!(p_bounds_unit, ());
bounds!(p_bounds_bool, bool);
bounds!(p_bounds_char, char);
bounds!(pt_bounds_nonzero, NonZeroI64);

// Composites refuse what lies (partly) outside, too.
macro_rules! outside {
    ($name:ident, $t:ty) => {
        harness!($name, 3, {
            let s = any_buf();
            let at = any_at(s.len());
            let buf = Buf::new(s);
            kani::assume(at > s.len() || size_of::<$t>() > s.len() - at);
            assert!(buf.load_at_unaligned::<$t>(at).is_err());
            assert!(buf.load_at::<$t>(at).is_err());
        });
    };
}
outside!(p_outside_unit, Unit);
outside!(p_outside_plain, Plain);

// What the bytes of a type may be, for each place they may be at.
macro_rules! sized {
    ($name:ident, $t:ty, $unwind:literal) => {
        harness!($name, $unwind, {
            const N: usize = size_of::<$t>();
            #[repr(C, align(16))]
            struct Place([u8; 16 + N]);
            let p = Place(any_bytes());
            let s = &p.0[..];
            macro_rules! at {
                ($at:literal) => {
                    if let Ok(v) = Buf::new(s).load_at::<$t>($at) {
                        assert!($at % align_of::<$t>() == 0, "aligned");
                        assert!(is_at(v, s, $at), "where the reference points");
                        assert!(<$t>::bits(&s[$at..$at + N]), "a representation of the type");
                    }
                    if Buf::new(s).load_at_unaligned::<$t>($at).is_ok() {
                        assert!(<$t>::bits(&s[$at..$at + N]), "a representation of the type");
                        reachable!("some buffers load");
                    }
                };
            }
            at!(0);
            at!(1);
        });
    };
}
sized!(p_load_u8, u8, 3);
sized!(p_load_u32, u32, 3);
sized!(p_load_u128, u128, 3);
sized!(p_load_f64, f64, 3);
sized!(p_load_unit, (), 3);
sized!(p_load_bool, bool, 3);
sized!(p_load_char, char, 3);
sized!(p_load_nonzero_u8, NonZeroU8, 3);
sized!(pt_load_nonzero_i8, NonZeroI8, 3);
sized!(pt_load_nonzero_u16, NonZeroU16, 3);
sized!(p_load_nonzero_i16, NonZeroI16, 3);
sized!(p_load_nonzero_u32, NonZeroU32, 3);
sized!(pt_load_nonzero_i32, NonZeroI32, 3);
sized!(pt_load_nonzero_u64, NonZeroU64, 3);
sized!(p_load_nonzero_i64, NonZeroI64, 3);
sized!(pt_load_nonzero_usize, NonZeroUsize, 3);
sized!(pt_load_nonzero_isize, NonZeroIsize, 3);
sized!(p_load_nonzero_u128, NonZeroU128, 3);
sized!(p_load_nonzero_i128, NonZeroI128, 3);
sized!(p_load_option, Option<NonZeroU64>, 3);
sized!(p_load_endian, Endian<u32, Big>, 3);
sized!(p_load_ref, Ref<[u64], Little, usize>, 3);
sized!(p_load_packed_ref, Packed<[char], u16, u8, Big>, 3);
sized!(p_load_array_bool, [bool; 5], 7);
sized!(p_load_array_char, [char; 3], 5);
sized!(p_load_array_none, [char; 0], 3);
sized!(p_load_array_array, [[NonZeroU16; 2]; 2], 4);
sized!(pt_load_array_struct, [Plain; 2], 4);
sized!(p_load_wrapping, Wrapping<u16>, 3);
sized!(p_load_plain, Plain, 3);
sized!(p_load_wide, Wide, 3);
sized!(p_load_packed1, Packed1, 3);
sized!(p_load_packed2, Packed2, 3);
sized!(p_load_packed4, Packed4, 3);
sized!(p_load_aligned, Aligned, 3);
sized!(p_load_thin, Thin, 3);
sized!(p_load_outer, Outer, 4);
sized!(pt_load_in_packed, InPacked, 3);
sized!(p_load_of_packed, OfPacked, 3);
sized!(p_load_enum_unit, Unit, 3);
sized!(p_load_enum_signed, Signed, 3);
sized!(pt_load_enum_deep, Deep, 3);
sized!(p_load_of_enum, OfEnum, 3);
sized!(pt_load_packed_enum, PackedEnum, 3);
sized!(p_load_generic, Generic<bool>, 3);

// Through references, for reading and writing.
macro_rules! through {
    ($name:ident, $t:ty, $e:ty, $o:ty, $unwind:literal) => {
        harness!($name, $unwind, {
            let s = any_buf_mut();
            let at = any_at(s.len()) as $o as usize;
            let n = size_of::<$t>();
            let (p, len) = (s.as_ptr(), s.len());
            let r = Ref::<$t, $e, $o>::new(at);
            let i = any_len(n - 1);
            if let Ok(v) = Buf::new(s).load(r) {
                assert!(at <= len && n <= len - at, "inside of the buffer");
                assert!(is_at(v, s, at) && <$t>::bits(&s[at..at + n]));
                assert!((v as *const $t as usize) % align_of::<$t>() == 0, "aligned");
                reachable!("some buffers load");
            }
            let ok = Buf::new(s).load(r).is_ok();
            let before = if ok { s[at + i] } else { 0 };
            let mut exclusive = false;
            if let Ok(v) = Buf::new_mut(s).load_mut(r) {
                exclusive = true;
                assert!((v as *mut $t).cast_const().cast::<u8>() == p.wrapping_add(at), "where the reference points");
                assert!((v as *const $t as usize) % align_of::<$t>() == 0, "aligned");
                reachable!("some buffers load");
            }
            assert!(exclusive == ok, "both refuse the same");
            let mut direct = false;
            if let Ok(v) = Buf::new_mut(s).load_at_mut::<$t>(at) {
                direct = true;
                assert!((v as *mut $t).cast_const().cast::<u8>() == p.wrapping_add(at), "where the reference points");
            }
            assert!(direct == ok, "both refuse the same");
            if ok {
                assert!(s[at + i] == before, "loading changes nothing");
                assert!(<$t>::bits(&s[at..at + n]));
            }
        });
    };
}
through!(p_ref_u32, u32, Native, u32, 3);
through!(p_ref_bool, bool, Big, u8, 3);
through!(p_ref_char, char, Little, usize, 3);
through!(pt_ref_nonzero, NonZeroI64, Big, usize, 3);

macro_rules! through_fixed {
    ($name:ident, $t:ty, $e:ty, $o:ty) => {
        harness!($name, 18, {
            const N: usize = size_of::<$t>();
            #[repr(C, align(16))]
            struct Place([u8; 8 + N]);
            let mut p = Place(any_bytes());
            let before = Place(p.0);
            let s = &mut p.0[..];
            let r = Ref::<$t, $e, $o>::new(8);
            let mut ok = false;
            if let Ok(v) = Buf::new(s).load(r) {
                ok = true;
                assert!(is_at(v, s, 8) && <$t>::bits(&s[8..]));
                reachable!("some buffers load");
            }
            let exclusive = Buf::new_mut(s).load_mut(r).is_ok();
            let direct = Buf::new_mut(s).load_at_mut::<$t>(8).is_ok();
            assert!(exclusive == ok && direct == ok, "all refuse the same");
            let i = any_len(8 + N - 1);
            assert!(s[i] == before.0[i], "loading changes nothing");
            // Between aligned places there is nothing to load.
            if align_of::<$t>() > 1 {
                assert!(Buf::new(s).load(Ref::<$t, $e, $o>::new(7)).is_err());
                assert!(Buf::new_mut(s).load_mut(Ref::<$t, $e, $o>::new(7)).is_err());
            }
            assert!(Buf::new(s).load(Ref::<$t, $e, $o>::new(10)).is_err());
        });
    };
}
through_fixed!(p_ref_plain, Plain, Native, u32);
through_fixed!(p_ref_packed2, Packed2, Big, u16);
through_fixed!(p_ref_enum, Signed, Native, usize);

// Slices of what any bytes represent.
macro_rules! any_slices {
    ($name:ident, $t:ty, $e:ty, $o:ty) => {
        harness!($name, 3, {
            let s = any_buf_mut();
            let (at, count) = (any_at(s.len()) as $o as usize, any_at(s.len()) as $o as usize);
            let n = size_of::<$t>();
            let (p, len) = (s.as_ptr(), s.len());
            let r = Ref::<[$t], $e, $o>::with_metadata(at, count);
            let mut ok = false;
            if let Ok(v) = Buf::new(s).load(r) {
                ok = true;
                assert!(v.len() == count);
                assert!(at <= len && n as u128 * count as u128 <= (len - at) as u128, "inside of the buffer");
                assert!(is_at(v, s, at), "where the reference points");
                assert!(v.as_ptr() as usize % align_of::<$t>() == 0, "aligned");
                reachable!("some buffers load");
            }
            let mut exclusive = false;
            if let Ok(v) = Buf::new_mut(s).load_mut(r) {
                exclusive = true;
                assert!(v.len() == count && v.as_ptr().cast::<u8>() == p.wrapping_add(at));
            }
            assert!(exclusive == ok, "both refuse the same");
            if let Ok(v) = Buf::new(s).load(Packed::<[$t], $o, $o, $e>::from_ref(r)) {
                assert!(v.len() == count && is_at(v, s, at) && ok);
            } else {
                assert!(!ok);
            }
        });
    };
}
any_slices!(p_slice_u8, u8, Native, u32);
any_slices!(p_slice_u16, u16, Big, u16);
any_slices!(p_slice_u64, u64, Little, usize);
any_slices!(pt_slice_array, [u32; 3], Big, usize);
any_slices!(p_slice_ref, Ref<u16, Big, u16>, Native, u8);

// Slices of what only some bytes represent.
macro_rules! some_slices {
    ($name:ident, $t:ty, $e:ty, $o:ty, $max:literal, $unwind:literal) => {
        harness!($name, $unwind, {
            const N: usize = size_of::<$t>();
            #[repr(C, align(16))]
            struct Place([u8; 8 + N * $max]);
            let p = Place(any_bytes());
            let s = &p.0[..];
            let count = any_len($max + 1);
            let r = Ref::<[$t], $e, $o>::with_metadata(8, count);
            if let Ok(v) = Buf::new(s).load(r) {
                assert!(v.len() == count && count <= $max && is_at(v, s, 8));
                let mut i = 0;
                while i < $max {
                    if i < count {
                        assert!(<$t>::bits(&s[8 + i * N..8 + i * N + N]), "each is a representation of the type");
                    }
                    i += 1;
                }
                if count == $max {
                    reachable!("some buffers load");
                }
            }
        });
    };
}
some_slices!(b_slice_bool, bool, Native, u32, 4, 6);
some_slices!(b_slice_char, char, Big, u16, 3, 5);
some_slices!(b_slice_nonzero, NonZeroU32, Little, usize, 3, 5);
some_slices!(bt_slice_plain, Plain, Native, usize, 3, 5);
some_slices!(b_slice_enum, Signed, Big, u8, 3, 5);
some_slices!(b_slice_array, [bool; 2], Native, u32, 2, 4);

// More elements than fit are refused, whatever their number.
macro_rules! too_long {
    ($name:ident, $t:ty) => {
        harness!($name, 3, {
            let s = any_buf();
            let (at, count) = (any_at(s.len()), any_at(s.len()));
            kani::assume(at > s.len() || count as u128 * size_of::<$t>() as u128 > (s.len() - at) as u128);
            assert!(Buf::new(s).load(Ref::<[$t], Big, usize>::with_metadata(at, count)).is_err());
        });
    };
}
too_long!(p_too_long_bool, bool);
too_long!(p_too_long_nonzero, NonZeroU32);

// Strings: exactly the bytes which are validated are what is returned.
#[cfg(kani)]
static mut SEEN: (usize, usize, bool) = (0, 0, false);
#[cfg(kani)]
fn any_utf8(v: &[u8]) -> Result<&str, core::str::Utf8Error> {
    let ok: bool = kani::any();
    unsafe {
        SEEN = (v.as_ptr() as usize, v.len(), ok);
        if ok {
            Ok(core::str::from_utf8_unchecked(v))
        } else {
            // The error carries nothing which is looked at.
            Err(core::mem::transmute::<[u8; core::mem::size_of::<core::str::Utf8Error>()], _>(core::mem::zeroed()))
        }
    }
}

macro_rules! strings {
    ($name:ident, $load:ident, $new:ident, $e:ty, $o:ty) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind(6))]
        #[cfg_attr(kani, kani::stub(core::str::from_utf8, any_utf8))]
        pub fn $name() {
            let s = any_buf_mut();
            let (p, len) = (s.as_ptr(), s.len());
            let (at, count) = (any_at(len) as $o as usize, any_at(len) as $o as usize);
            let r = Ref::<str, $e, $o>::with_metadata(at, count);
            if let Ok(v) = Buf::$new(s).$load(r) {
                assert!(at <= len && count <= len - at && v.len() == count, "inside of the buffer");
                assert!(v.as_ptr() == p.wrapping_add(at), "where the reference points");
                #[cfg(kani)]
                assert!(unsafe { SEEN } == (p as usize + at, count, true), "these very bytes were found to be well-formed");
                #[cfg(not(kani))]
                assert!(core::str::from_utf8(v.as_bytes()).is_ok(), "well-formed");
                reachable!("some buffers load");
            }
            kani::cover!(true, "end of harness is reachable");
        }
    };
}
strings!(p_str, load, new, Big, usize);
strings!(p_str_mut, load_mut, new_mut, Native, u16);

harness!(b_str, 6, {
    let bytes: [u8; 3] = kani::any();
    if let Ok(v) = Buf::new(&bytes).load(Ref::<str, Big, usize>::with_metadata(0, 3)) {
        // Well-formed: no lonely continuation bytes, none missing.
        let (a, b, c) = (bytes[0], bytes[1], bytes[2]);
        let k = |x: u8| x & 0xc0 == 0x80;
        let two = |x: u8, y: u8| x >= 0xc2 && x < 0xe0 && k(y);
        let three = a & 0xf0 == 0xe0 && k(b) && k(c) && (a != 0xe0 || b >= 0xa0) && (a != 0xed || b < 0xa0);
        assert!((a < 128 && b < 128 && c < 128) || (a < 128 && two(b, c)) || (two(a, b) && c < 128) || three);
        reachable!("some buffers load");
    }
});

// References which were themselves loaded.
harness!(b_indirect, 5, {
    #[repr(C, align(16))]
    struct Place([u8; 12]);
    let p = Place(any_bytes());
    let s = &p.0[..];
    let buf = Buf::new(s);
    if let Ok(r) = buf.load_at::<Ref<[u32], Big, u16>>(2) {
        if let Ok(v) = buf.load(*r) {
            let at = r.offset();
            assert!(at + v.len() * 4 <= 12 && is_at(v, s, at) && at % 4 == 0);
            reachable!("some buffers load");
        }
    }
    if let Ok(r) = buf.load_at::<Ref<Ref<bool, Native, u8>, Little, u16>>(0) {
        if let Ok(r) = buf.load(*r) {
            if let Ok(v) = buf.load(*r) {
                assert!(r.offset() < 12 && s[r.offset()] <= 1 && is_at(v, s, r.offset()));
                reachable!("some buffers load");
            }
        }
    }
});

// A prefix validated field by field.
harness!(p_validate, 3, {
    #[repr(C, align(16))]
    struct Place([u8; 14]);
    let p = Place(any_bytes());
    let from = any_len(2);
    let to = if kani::any() { 14 } else { 11 };
    let s = &p.0[from..to];
    let buf = Buf::new(s);
    if let Ok(mut v) = buf.validate_struct::<Plain>() {
        assert!(s.len() >= size_of::<Plain>() && from == 0, "what does not fit is refused");
        let s = &p.0[..];
        unsafe {
            if v.field::<u8>().is_ok() && v.field::<char>().is_ok() {
                assert!(char::bits(&s[4..]));
                if v.field::<bool>().is_ok() {
                    assert!(bool::bits(&s[8..]));
                    if v.field::<NonZeroU16>().is_ok() {
                        assert!(Plain::bits(s));
                        reachable!("some buffers load");
                    }
                }
            }
        }
    }
});

// Exchanging two values touches only them.
macro_rules! swap {
    ($name:ident, $t:ty, $unwind:literal) => {
        harness!($name, $unwind, {
            const N: usize = size_of::<$t>();
            let s = any_buf_mut();
            let (a, b) = (any_at(s.len()), any_at(s.len()));
            let other = any_at(s.len());
            let at = any_len(N - 1);
            let len = s.len();
            let fits = a <= len && b <= len && N <= len - a && N <= len - b;
            let apart = fits && (a >= b + N || b >= a + N);
            let (x, y) = if apart { (s[a + at], s[b + at]) } else { (0, 0) };
            let far = other < len && (!fits || ((other < a || other >= a + N) && (other < b || other >= b + N)));
            let o = if far { s[other] } else { 0 };
            let done = Buf::new_mut(s).swap(Ref::<$t, Big, usize>::new(a), Ref::new(b)).is_ok();
            assert!(!done || fits || a == b, "only inside of the buffer");
            if done && apart {
                assert!(s[a + at] == y && s[b + at] == x, "exchanged");
                reachable!("some are exchanged");
            }
            if far {
                assert!(s[other] == o, "nothing else changes");
            }
        });
    };
}
swap!(p_swap_u32, u32, 3);
swap!(pt_swap_array, [u16; 3], 3);

// Pieces of a buffer.
harness!(p_get, 3, {
    let s = any_buf();
    let buf = Buf::new(s);
    let (a, b) = (any_at(s.len()), any_at(s.len()));
    match buf.get(a..b) {
        Some(v) => assert!(a <= b && b <= s.len() && v.len() == b - a && v.as_ptr() == s.as_ptr().wrapping_add(a)),
        None => assert!(a > b || b > s.len()),
    }
    match buf.get(a..) {
        Some(v) => assert!(a <= s.len() && v.len() == s.len() - a),
        None => assert!(a > s.len()),
    }
    match buf.get(a) {
        Some(v) => assert!(a < s.len() && *v == s[a]),
        None => assert!(a >= s.len()),
    }
    assert!(buf.len() == s.len() && buf.is_empty() == s.is_empty());
    let addr = s.as_ptr() as usize;
    assert!(buf.is_aligned::<u64>() == (addr % 8 == 0));
    assert!(buf.is_aligned_with(4) == (addr % 4 == 0));
    let fit = addr % 4 == 0 && s.len() >= 12;
    assert!(buf.is_compatible_with::<Plain>() == fit);
    assert!(buf.ensure_compatible_with::<Plain>().is_ok() == fit);
});
