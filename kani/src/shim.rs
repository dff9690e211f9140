//! Native stand-in for the parts of the `kani` crate the harnesses use.
//!
//! Nondeterministic values are read from a byte stream, in the same order and
//! with the same layout as Kani's concrete playback prints them.
use std::cell::RefCell;

thread_local! {
    static STREAM: RefCell<(Vec<u8>, usize, bool)> = RefCell::new((Vec::new(), 0, false));
}

/// Marker payload for violated assumptions.
pub struct Assume;

pub fn set_stream(bytes: Vec<u8>) {
    STREAM.with(|s| *s.borrow_mut() = (bytes, 0, false));
}

/// The bytes consumed so far.
pub fn hex() -> String {
    STREAM.with(|s| {
        let s = s.borrow();
        s.0[..s.1.min(s.0.len())].iter().map(|b| format!("{b:02x}")).collect()
    })
}

fn take(n: usize) -> Vec<u8> {
    STREAM.with(|s| {
        let mut s = s.borrow_mut();
        let at = s.1;
        s.1 += n;
        (at..at + n).map(|i| s.0.get(i).copied().unwrap_or(0)).collect()
    })
}

pub trait Arbitrary: Sized {
    fn any() -> Self;
}

macro_rules! int {
    ($($t:ty),*) => {$(
        impl Arbitrary for $t {
            fn any() -> Self {
                <$t>::from_ne_bytes(take(core::mem::size_of::<$t>()).try_into().unwrap())
            }
        }
    )*};
}

int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);

impl Arbitrary for bool {
    fn any() -> Self {
        let b = take(1)[0];
        assume(b < 2);
        b == 1
    }
}

impl Arbitrary for char {
    fn any() -> Self {
        let v = u32::any();
        match char::from_u32(v) {
            Some(c) => c,
            None => std::panic::panic_any(Assume),
        }
    }
}

impl<T: Arbitrary, const N: usize> Arbitrary for [T; N] {
    fn any() -> Self {
        core::array::from_fn(|_| T::any())
    }
}

impl Arbitrary for () {
    fn any() -> Self {}
}

pub fn any<T: Arbitrary>() -> T {
    T::any()
}

pub fn assume(cond: bool) {
    if !cond {
        std::panic::panic_any(Assume);
    }
}

#[macro_export]
macro_rules! __cover {
    ($($tt:tt)*) => {};
}
pub use crate::__cover as cover;

static EXPECTED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// While set, panics are not failures.
pub fn expect_panic(yes: bool) {
    EXPECTED.store(yes, std::sync::atomic::Ordering::Relaxed);
}
pub fn is_expected() -> bool {
    EXPECTED.load(std::sync::atomic::Ordering::Relaxed)
}
