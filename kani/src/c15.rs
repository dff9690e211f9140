//! C15: collections over any allocator: `Room` is the contract of `Alloc`, and no
//! more than that. The state of a collection is its memory and its length, so
//! one operation from any state covers every history.
use crate::support::*;
use core::fmt::Write;
use core::mem::MaybeUninit;
use musli::alloc::{Alloc, AllocError, Allocator, Box, String, System, Vec};

/// Elements there is memory for.
const K: usize = 6;

/// Memory of which `cap` elements may be used. Growing it keeps what is said to
/// be in use, and nothing else; it fails as it likes.
pub struct Room<T> {
    at: [MaybeUninit<T>; K],
    cap: usize,
}

/// How many elements there is memory for.
static mut FREED: usize = 0;
impl<T> Drop for Room<T> {
    fn drop(&mut self) {
        unsafe { FREED += 1 };
    }
}

fn flip() -> bool {
    kani::any::<u8>() & 1 == 1
}

impl<T> Room<T> {
    fn new(cap: usize) -> Self {
        Room { at: [const { MaybeUninit::uninit() }; K], cap }
    }

    fn forget(&mut self, from: usize) {
        let mut i = 0;
        while i < K {
            if i >= from {
                self.at[i] = MaybeUninit::uninit();
            }
            i += 1;
        }
    }
}

impl<T> Alloc<T> for Room<T> {
    fn as_ptr(&self) -> *const T {
        self.at.as_ptr().cast()
    }
    fn as_mut_ptr(&mut self) -> *mut T {
        self.at.as_mut_ptr().cast()
    }
    fn capacity(&self) -> usize {
        self.cap
    }
    fn resize(&mut self, len: usize, additional: usize) -> Result<(), AllocError> {
        assert!(len <= self.cap, "no more than there is is in use");
        let want = len.checked_add(additional).ok_or(AllocError)?;
        if want <= self.cap {
            return Ok(());
        }
        if want > K || flip() {
            return Err(AllocError);
        }
        self.cap = if flip() { want } else { K };
        self.forget(len);
        Ok(())
    }
    fn try_merge<B>(&mut self, len: usize, other: B, other_len: usize) -> Result<(), B>
    where
        B: Alloc<T>,
    {
        assert!(len <= self.cap && other_len <= other.capacity());
        if len + other_len > K || flip() {
            return Err(other);
        }
        unsafe { other.as_ptr().copy_to_nonoverlapping(self.as_mut_ptr().add(len), other_len) };
        if self.cap < len + other_len {
            self.cap = len + other_len;
        }
        Ok(())
    }
}

/// Hands out `Room`, or fails.
#[derive(Clone, Copy)]
pub struct Any;
unsafe impl Allocator for Any {
    const IS_SYSTEM: bool = false;
    type Alloc<T> = Room<T>;
    fn alloc_empty<T>(self) -> Room<T> {
        Room::new(0)
    }
    fn alloc<T>(self, v: T) -> Result<Room<T>, AllocError> {
        if flip() {
            return Err(AllocError);
        }
        let mut f = Room::new(1);
        f.at[0] = MaybeUninit::new(v);
        Ok(f)
    }
}

/// Any vector of up to three elements, and what is in it.
fn any_vec() -> (Vec<u32, Any>, [u32; 3], usize) {
    let want: [u32; 3] = [kani::any(), kani::any(), kani::any()];
    let n = any_len(3);
    let cap = any_len(K);
    kani::assume(cap >= n);
    let mut b = Room::new(cap);
    let mut i = 0;
    while i < n {
        b.at[i] = MaybeUninit::new(want[i]);
        i += 1;
    }
    (Vec::from_raw_parts(b, n), want, n)
}

/// It has the first `n` of `want` and then `more`.
fn is(v: &Vec<u32, Any>, want: &[u32; 3], n: usize, more: &[u32]) -> bool {
    if v.len() != n + more.len() || v.capacity() < v.len() || v.is_empty() != (v.len() == 0) {
        return false;
    }
    let s = v.as_slice();
    let i = any_len(K);
    i >= s.len() || s[i] == if i < n { want[i] } else { more[i - n] }
}

harness!(p_push, 8, {
    let (mut v, want, n) = any_vec();
    let x: u32 = kani::any();
    match v.push(x) {
        Ok(()) => assert!(is(&v, &want, n, &[x])),
        Err(_) => assert!(is(&v, &want, n, &[])),
    }
});

harness!(p_pop, 8, {
    let (mut v, want, n) = any_vec();
    match v.pop() {
        Some(x) => assert!(n > 0 && x == want[n - 1] && is(&v, &want, n - 1, &[])),
        None => assert!(n == 0 && is(&v, &want, 0, &[])),
    }
});

harness!(p_clear, 8, {
    let (mut v, want, n) = any_vec();
    let cap = v.capacity();
    v.clear();
    assert!(is(&v, &want, 0, &[]) && v.capacity() == cap);
});

harness!(b_extend_from_slice, 8, {
    let (mut v, want, n) = any_vec();
    let more: [u32; 3] = [kani::any(), kani::any(), kani::any()];
    let m = any_len(3);
    match v.extend_from_slice(&more[..m]) {
        Ok(()) => assert!(is(&v, &want, n, &more[..m])),
        Err(_) => assert!(is(&v, &want, n, &[])),
    }
});

harness!(b_extend, 8, {
    let (mut v, want, n) = any_vec();
    let (o, more, m) = any_vec();
    unsafe { FREED = 0 };
    match v.extend(o) {
        Ok(()) => assert!(is(&v, &want, n, &more[..m])),
        Err(_) => assert!(is(&v, &want, n, &[])),
    }
    assert!(unsafe { FREED } == 1, "the other is freed once");
    drop(v);
    assert!(unsafe { FREED } == 2, "freed once");
});

harness!(p_reserve, 8, {
    let (mut v, want, n) = any_vec();
    let more: usize = kani::any();
    let got = v.reserve(more);
    assert!(is(&v, &want, n, &[]));
    assert!(got.is_err() || v.capacity() - n >= more);
});

harness!(p_with_capacity, 8, {
    let n: usize = kani::any();
    if let Ok(v) = Vec::<u32, Any>::with_capacity_in(n, Any) {
        assert!(v.len() == 0 && v.capacity() >= n);
    }
    assert!(is(&Vec::new_in(Any), &[0; 3], 0, &[]));
});

harness!(p_parts, 8, {
    let (v, want, n) = any_vec();
    let cap = v.capacity();
    let (b, m) = v.into_raw_parts();
    assert!(m == n && b.capacity() == cap);
    let mut v = Vec::<u32, Any>::from_raw_parts(b, m);
    assert!(is(&v, &want, n, &[]));
    let i = any_len(2);
    if i < n {
        v.as_slice_mut()[i] = 7;
        assert!(v[i] == 7 && v.as_ref()[i] == 7);
    }
    let v = v.into_std();
    assert!(v.is_err(), "not the memory of the system");
});

harness!(b_compare, 14, {
    let (v, want, n) = any_vec();
    let (o, more, m) = any_vec();
    let mut k = 0;
    while k < n && k < m && want[k] == more[k] {
        k += 1;
    }
    assert!((v == o) == (n == m && k == n), "equal");
    let less = if k < n && k < m { want[k] < more[k] } else { k == n && k < m };
    assert!((v < o) == less, "in order");
});

/// Counts how often each of them is dropped.
pub struct Tok(u8);
static mut DROPS: [u8; 8] = [0; 8];
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe { DROPS[self.0 as usize & 7] += 1 };
    }
}
fn drops(n: usize) -> bool {
    // The first `n` of them once, the others not.
    let i = any_len(7);
    unsafe { DROPS[i] as usize == (i < n) as usize }
}
fn any_toks() -> (Vec<Tok, Any>, usize) {
    unsafe { DROPS = [0; 8] };
    let n = any_len(3);
    let cap = any_len(K);
    kani::assume(cap >= n);
    let mut b = Room::new(cap);
    let mut i = 0;
    while i < n {
        b.at[i] = MaybeUninit::new(Tok(i as u8));
        i += 1;
    }
    (Vec::from_raw_parts(b, n), n)
}

harness!(p_drop_vec, 8, {
    let (v, n) = any_toks();
    drop(v);
    assert!(drops(n), "each once");
});
harness!(p_drop_clear, 8, {
    let (mut v, n) = any_toks();
    v.clear();
    assert!(drops(n), "each once");
    drop(v);
    assert!(drops(n), "not again");
});
harness!(p_drop_pop, 8, {
    let (mut v, n) = any_toks();
    if let Some(t) = v.pop() {
        assert!(t.0 as usize == n - 1 && drops(0));
    }
    assert!(unsafe { n == 0 || DROPS[n - 1] == 1 });
    drop(v);
    assert!(drops(n), "each once");
});
harness!(p_drop_push, 8, {
    let (mut v, n) = any_toks();
    let got = v.push(Tok(n as u8)).is_ok();
    // What is not taken is dropped.
    assert!(got || unsafe { DROPS[n] } == 1);
    assert!(!got || drops(0));
    drop(v);
    assert!(drops(n + 1), "each once");
});
harness!(p_drop_parts, 8, {
    let (v, n) = any_toks();
    unsafe { FREED = 0 };
    let (b, m) = v.into_raw_parts();
    assert!(drops(0) && unsafe { FREED } == 0);
    drop(Vec::<Tok, Any>::from_raw_parts(b, m));
    assert!(drops(n) && unsafe { FREED } == 1);
});
harness!(p_drop_box, 8, {
    unsafe { DROPS = [0; 8] };
    match Box::new_in(Tok(0), Any) {
        Ok(b) => {
            assert!(b.0 == 0 && drops(0));
            drop(b);
        }
        Err(_) => {}
    }
    assert!(drops(1), "once");
});

// Values without a size.
pub struct Mark;
static mut MARKS: usize = 0;
impl Drop for Mark {
    fn drop(&mut self) {
        unsafe { MARKS += 1 };
    }
}
harness!(p_drop_marks, 8, {
    unsafe { MARKS = 0 };
    let mut v = Vec::new_in(System::new());
    assert!(v.push(Mark).is_ok() && v.push(Mark).is_ok() && v.push(Mark).is_ok());
    assert!(v.len() == 3 && v.capacity() >= 3 && unsafe { MARKS } == 0);
    assert!(v.pop().is_some() && unsafe { MARKS } == 1);
    drop(v);
    assert!(unsafe { MARKS } == 3, "each once");
    let b = Box::new_in(Mark, System::new());
    assert!(b.is_ok() && unsafe { MARKS } == 3);
    drop(b);
    assert!(unsafe { MARKS } == 4, "once");
});

// Text.
harness!(p_string_push, 8, {
    let mut s = String::new_in(Any);
    let c: char = kani::any();
    let got = s.push(c).is_ok();
    let mut b = [0; 4];
    let want = c.encode_utf8(&mut b).as_bytes();
    assert!(if got { same_bytes(s.as_str().as_bytes(), want) } else { s.is_empty() });
    assert!(s.len() <= s.capacity());
});
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    let i = any_len(4);
    a.len() == b.len() && (i >= a.len() || a[i] == b[i])
}
harness!(b_string_push_str, 8, {
    let (a, b): ([u8; 2], [u8; 3]) = (any_bytes(), any_bytes());
    kani::assume(a[0] < 128 && a[1] < 128 && b[0] < 128 && b[1] < 128 && b[2] < 128);
    // ASCII.
    let (x, y) = unsafe { (core::str::from_utf8_unchecked(&a), core::str::from_utf8_unchecked(&b)) };
    let mut s = String::new_in(Any);
    if s.push_str(x).is_ok() {
        let got = if flip() { s.push_str(y).is_ok() } else { write!(s, "{y}").is_ok() };
        let want = [a[0], a[1], b[0], b[1], b[2]];
        let n = if got { 5 } else { 2 };
        assert!(s.len() == n && s.capacity() >= n);
        let i = any_len(4);
        assert!(i >= n || s.as_str().as_bytes()[i] == want[i]);
        let v = s.into_bytes();
        assert!(v.len() == n && (i >= n || v[i] == want[i]));
    }
});

// The memory of the system satisfies the contract of `Alloc`.
macro_rules! system {
    ($name:ident, $t:ty) => {
        harness!($name, 8, {
            let n = any_len(3);
            let want: [$t; 3] = [kani::any(), kani::any(), kani::any()];
            let mut b = System::new().alloc_empty::<$t>();
            assert!(b.capacity() == 0);
            let got = b.resize(0, n);
            kani::assume(got.is_ok());
            assert!(b.capacity() >= n);
            let mut i = 0;
            while i < n {
                unsafe { b.as_mut_ptr().add(i).write(want[i]) };
                i += 1;
            }
            let more: usize = kani::any();
            kani::assume(more <= 12 || more >= isize::MAX as usize / core::mem::size_of::<$t>());
            let cap = b.capacity();
            match b.resize(n, more) {
                Ok(()) => assert!(b.capacity() >= n + more, "room for them"),
                Err(_) => assert!(more > 12 && b.capacity() == cap, "unchanged"),
            }
            let i = any_len(2);
            assert!(i >= n || unsafe { *b.as_ptr().add(i) } == want[i], "what was in use is kept");
        });
    };
}
system!(b_system_u8, u8);
system!(b_system_u64, u64);
harness!(p_system_box, 8, {
    let x: u64 = kani::any();
    let mut b = Box::new_in(x, System::new()).unwrap();
    assert!(*b == x);
    *b = !x;
    assert!(*b.as_ref() == !x);
});
harness!(b_system_std, 8, {
    let (x, y): (u32, u32) = (kani::any(), kani::any());
    let mut v = Vec::from(vec![x, y]);
    assert!(v.len() == 2 && v.capacity() >= 2 && v[0] == x && v[1] == y);
    assert!(v.push(!x).is_ok());
    let v = v.into_std().map_err(|_| ()).unwrap();
    assert!(v.len() == 3 && v[0] == x && v[1] == y && v[2] == !x);
});
