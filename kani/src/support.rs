//! Shared by all harnesses: a silent context, option sets, and spec functions.
#[cfg(not(kani))]
pub use crate::shim as kani;

pub use core::cell::Cell;
pub use musli::options::{self, ByteOrder, Float, Integer, Width};
pub use musli::{Context, Decode, Encode, Options, Reader, Writer};

/// Error of [`Cx`]. Carries nothing: the messages are not part of any property.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct E;

impl core::fmt::Display for E {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("E")
    }
}

/// A context which drops all diagnostics and allocates on the system heap.
#[derive(Clone, Copy)]
pub struct Cx;

impl Context for Cx {
    type Error = E;
    type Mark = ();
    type Allocator = musli::alloc::System;

    #[inline(always)]
    fn clear(self) {}
    #[inline(always)]
    fn advance(self, _: usize) {}
    #[inline(always)]
    fn mark(self) {}
    #[inline(always)]
    fn restore(self, _: &()) {}
    #[inline(always)]
    fn alloc(self) -> Self::Allocator {
        musli::alloc::System::new()
    }
    #[inline(always)]
    fn custom<T>(self, _: T) -> E
    where
        T: 'static + Send + Sync + core::error::Error,
    {
        E
    }
    #[inline(always)]
    fn message<M>(self, _: M) -> E
    where
        M: core::fmt::Display,
    {
        E
    }
}

/// Declare a harness.
macro_rules! harness {
    ($name:ident, $unwind:literal, $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn $name() {
            $body;
            kani::cover!(true, "end of harness is reachable");
        }
    };
}

/// The end of this branch has to be reachable, or the harness is vacuous.
macro_rules! reachable {
    ($what:literal) => {
        kani::cover!(true, $what);
    };
}

/// Symbolic length of at most `N`.
pub fn any_len(max: usize) -> usize {
    let n: usize = kani::any();
    // Running natively, most numbers would be rejected.
    #[cfg(not(kani))]
    let n = if max < usize::MAX { n % (max + 1) } else { n };
    kani::assume(n <= max);
    n
}

/// Any range within `0..=max`.
pub fn any_range(max: usize) -> (usize, usize) {
    let to = any_len(max);
    (any_len(to), to)
}

pub const FIXED_LE: Options = options::new().fixed().byte_order(ByteOrder::Little).build();
pub const FIXED_BE: Options = options::new().fixed().byte_order(ByteOrder::Big).build();
pub const VARIABLE: Options = options::new().variable().build();

/// Number of 7-bit groups needed to represent `v`.
pub fn groups(v: u128) -> usize {
    let mut n = 1;
    while n < 19 && (v >> (7 * n)) != 0 {
        n += 1;
    }
    n
}

/// The canonical continuation encoding of `v` starts at `s` and fills it.
pub fn is_canonical_varint(s: &[u8], v: u128) -> bool {
    let n = groups(v);
    if s.len() != n {
        return false;
    }
    let mut i = 0;
    while i < n {
        let g = ((v >> (7 * i)) & 0x7f) as u8;
        let want = if i + 1 < n { g | 0x80 } else { g };
        if s[i] != want {
            return false;
        }
        i += 1;
    }
    true
}

/// What a continuation sequence at the start of `s` denotes: the number of
/// bytes it occupies and its mathematical value, or `None` where it is not
/// terminated or its value does not fit `bits` bits.
pub fn varint_denotes(s: &[u8], bits: u32) -> Option<(usize, u128)> {
    let mut i = 0;
    let mut v = 0u128;
    while i < s.len() {
        let g = (s[i] & 0x7f) as u128;
        let shift = 7 * i as u32;
        if g != 0 {
            if shift >= bits {
                return None;
            }
            // g << shift < 2^bits
            if bits - shift < 7 && g >> (bits - shift) != 0 {
                return None;
            }
            v |= g << shift;
        }
        i += 1;
        if s[i - 1] & 0x80 == 0 {
            return Some((i, v));
        }
    }
    None
}

/// Signed integers as their zig-zag image.
pub trait Zig: Copy {
    fn zig(self) -> u128;
}

macro_rules! zig {
    ($($u:ty, $i:ty);*) => {$(
        impl Zig for $u { fn zig(self) -> u128 { self as u128 } }
        impl Zig for $i {
            fn zig(self) -> u128 {
                // 0, -1, 1, -2, 2, ...
                if self >= 0 { (self as $u as u128) << 1 } else { ((!self) as $u as u128) << 1 | 1 }
            }
        }
    )*};
}
zig!(u8, i8; u16, i16; u32, i32; u64, i64; usize, isize);
impl Zig for u128 {
    fn zig(self) -> u128 {
        self
    }
}
impl Zig for i128 {
    fn zig(self) -> u128 {
        if self >= 0 {
            (self as u128) << 1
        } else {
            ((!self) as u128) << 1 | 1
        }
    }
}

/// An option set by its parts. `ptr` is the width of lengths in bytes, zero for
/// variable.
pub const fn opt(fixed: bool, ptr: usize, big: bool) -> Options {
    let b = options::new()
        .integer(if fixed { Integer::Fixed } else { Integer::Variable })
        .pointer(match ptr {
            0 => Width::Variable,
            1 => Width::U8,
            2 => Width::U16,
            4 => Width::U32,
            _ => Width::U64,
        })
        .byte_order(if big { ByteOrder::Big } else { ByteOrder::Little });
    b.build()
}

/// The bytes a format specifies for a value, written down independently of the
/// code: what an encoder has to produce.
#[derive(Clone, Copy)]
pub struct Out<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
}

impl<const N: usize> Out<N> {
    pub fn new() -> Self {
        Self { b: [0; N], n: 0 }
    }

    pub fn push(&mut self, b: u8) {
        self.b[self.n] = b;
        self.n += 1;
    }

    pub fn bytes(&mut self, s: &[u8]) {
        let mut i = 0;
        while i < s.len() {
            self.push(s[i]);
            i += 1;
        }
    }

    /// `width` bytes of `v` in the given order.
    pub fn fixed(&mut self, v: u128, width: usize, big: bool) {
        let mut i = 0;
        while i < width {
            let k = if big { width - 1 - i } else { i };
            self.push((v >> (8 * k)) as u8);
            i += 1;
        }
    }

    pub fn varint(&mut self, v: u128) {
        let n = groups(v);
        let mut i = 0;
        while i < n {
            let g = ((v >> (7 * i)) & 0x7f) as u8;
            self.push(if i + 1 < n { g | 0x80 } else { g });
            i += 1;
        }
    }

    /// The storage format: an integer of `width` bytes. `raw` is its two's
    /// complement image, `zig` what is stored where integers are variable.
    pub fn s_int(&mut self, fixed: bool, big: bool, width: usize, raw: u128, zig: u128) {
        if fixed {
            self.fixed(raw, width, big);
        } else {
            self.varint(zig);
        }
    }

    /// The storage format: a length. False where it does not fit.
    pub fn s_len(&mut self, ptr: usize, big: bool, v: usize) -> bool {
        if ptr == 0 {
            self.varint(v as u128);
        } else {
            if ptr < 8 && v >> (8 * ptr) != 0 {
                return false;
            }
            self.fixed(v as u128, ptr, big);
        }
        true
    }

    /// The wire format: an integer of `width` bytes. Signed integers are zig-zag
    /// images in both encodings.
    pub fn w_int(&mut self, fixed: bool, big: bool, width: usize, zig: u128) {
        if fixed {
            self.push(0x40 | width as u8);
            self.fixed(zig, width, big);
        } else if zig < 63 {
            self.push(0xc0 | zig as u8);
        } else {
            self.push(0xff);
            self.varint(zig);
        }
    }

    /// The wire format: a number of type `usize`.
    pub fn w_len(&mut self, ptr: usize, big: bool, v: usize) -> bool {
        if ptr == 0 {
            self.w_int(false, big, 8, v as u128);
            true
        } else {
            self.push(0x40 | ptr as u8);
            self.s_len(ptr, big, v)
        }
    }

    /// The wire format: a tag of the given kind which carries a length.
    pub fn w_tag(&mut self, kind: u8, ptr: usize, big: bool, v: usize) -> bool {
        if v < 63 {
            self.push(kind | v as u8);
            true
        } else {
            self.push(kind | 63);
            self.s_len(ptr, big, v)
        }
    }

    /// The descriptive format: a tag of the given kind which carries a length.
    pub fn d_tag(&mut self, kind: u8, ptr: usize, big: bool, v: usize) -> bool {
        if v < 31 {
            self.push(kind | v as u8);
            true
        } else {
            self.push(kind | 31);
            self.s_len(ptr, big, v)
        }
    }

    pub fn is(&self, s: &[u8]) -> bool {
        if s.len() != self.n {
            return false;
        }
        let mut i = 0;
        while i < self.n {
            if s[i] != self.b[i] {
                return false;
            }
            i += 1;
        }
        true
    }
}

/// The two's complement image of an integer.
pub trait Raw: Copy + Zig {
    const WIDTH: usize;
    fn raw(self) -> u128;
}
macro_rules! raw {
    ($($t:ty, $u:ty);*) => {$(
        impl Raw for $t {
            const WIDTH: usize = core::mem::size_of::<$t>();
            fn raw(self) -> u128 { self as $u as u128 }
        }
    )*};
}
raw!(u8, u8; u16, u16; u32, u32; u64, u64; u128, u128; usize, usize; i8, u8; i16, u16; i32, u32; i64, u64; i128, u128; isize, usize);
pub const SEQ: u8 = 0x80;
pub const PREFIX: u8 = 0x40;

/// Encode with the given encoding: equal to the specified bytes, decodes to the
/// same value, and consumes exactly what was written.
macro_rules! roundtrip {
    ($enc:expr, $t:ty, $v:expr, $want:expr) => {{
        let v: $t = $v;
        let b = $enc.to_fixed_bytes_with::<_, 48, _>(Cx, &v).unwrap();
        let s = b.as_slice();
        assert!($want.is(s), "exactly the specified bytes");
        let mut r = s;
        let back: Result<$t, E> = $enc.decode_with(Cx, &mut r);
        assert!(back == Ok(v), "decodes to the value which was encoded");
        assert!(r.is_empty(), "consumes exactly what was written");
    }};
}

/// Memory of arbitrary length and contents.
#[cfg(kani)]
pub fn any_slice_mut() -> &'static mut [u8] {
    let n: usize = kani::any();
    kani::assume(n < 1 << 40);
    // SAFETY: the allocation is of that size and, in the verifier, its contents
    // are arbitrary.
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(if n == 0 { 1 } else { n }, 1));
        kani::assume(!p.is_null());
        core::slice::from_raw_parts_mut(p, n)
    }
}

#[cfg(not(kani))]
pub fn any_slice_mut() -> &'static mut [u8] {
    let n: usize = kani::any();
    let n = if n < 1 << 40 && n > 1 << 16 { 1 << 16 } else { n % 24 };
    Box::leak((0..n).map(|i| if i < 64 { kani::any() } else { i as u8 }).collect::<Box<[u8]>>())
}

pub fn any_slice() -> &'static [u8] {
    any_slice_mut()
}

/// Any position, within a buffer of `len` bytes or not.
pub fn any_at(len: usize) -> usize {
    let n: usize = kani::any();
    // Running natively, most of them would be far outside.
    #[cfg(not(kani))]
    let n = if n % 8 != 7 { (n / 8) % (len + 9) } else { n };
    n
}

/// Any bytes.
pub fn any_bytes<const N: usize>() -> [u8; N] {
    #[cfg(kani)]
    return kani::any();
    #[cfg(not(kani))]
    core::array::from_fn(|_| kani::any())
}

/// Running `f` has to panic. In the verifier, the harness has to be marked
/// `should_panic`: what matters then is that this does not return, and that no
/// memory is touched which must not be.
pub fn refused<F: FnOnce()>(f: F) {
    #[cfg(kani)]
    {
        f();
        // Panics are expected here, so anything but a panic.
        // SAFETY: never reached, which is the obligation.
        unsafe { core::ptr::read_volatile(core::ptr::null::<u8>()) };
    }
    #[cfg(not(kani))]
    {
        kani::expect_panic(true);
        let r = std::panic::catch_unwind(core::panic::AssertUnwindSafe(f));
        kani::expect_panic(false);
        assert!(r.is_err(), "this has to be refused");
    }
}
