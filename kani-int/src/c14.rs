//! C14: the slice allocator. Its invariant is stated over its whole state; every
//! operation is checked from an arbitrary state which satisfies it, so what holds
//! after one operation holds after any sequence of them.
//!
//! A state is a list of regions which cover the memory in use from the start of
//! the buffer without gaps, headers which are free, and at most one region, the
//! first, which is vacant. Every other region is treated as owned by someone.
//! Operations look at the region they are for, its neighbours, and the first and
//! the last region, so five regions are all constellations there are; headers are
//! numbered in order, which no operation looks at.
use crate::support::*;
use core::mem::{align_of, size_of};
use musli::alloc::verif_slice::{Memory, Region, State, HEADER};
use musli::alloc::{Alloc, Allocator, Slice};

type P = *mut u8;

/// Stands for any length.
const ANY: usize = usize::MAX;

/// Bytes for data in front of headers.
const D: usize = 24;
type Mem<const H: usize> = Memory<D, H, B>;
/// How far pointers get behind the buffer. Pointers are compared; the verifier
/// compares those which stay close only.
const B: usize = 32;

const _: () = assert!(HEADER == 24 && D % 8 == 0);

fn any_mem<const H: usize>() -> Mem<H> {
    Memory::new(any_bytes())
}

/// Length in bytes.
fn dist(from: P, to: P) -> usize {
    to as usize - from as usize
}

/// Put the allocator into any state of `m` regions and `f` free headers.
fn arbitrary<const H: usize>(s: &Slice<'_>, base: P, m: u16, f: u16, vacant: bool, at: &mut [(P, P); 6]) {
    let end = base.wrapping_add(D + H * HEADER);
    let free_end = end.wrapping_sub((m + f) as usize * HEADER);
    // Buffers start anywhere.
    let start = base.wrapping_add(any_len(7));
    // Headers are found from the end.
    unsafe { s.verif_set_state(State { full: (start, end), ..s.verif_state() }) };
    let mut p = start;
    let mut i = 1;
    while i <= m {
        let q = p.wrapping_add(any_len(D));
        kani::assume(q as usize <= base as usize + D);
        at[i as usize] = (p, q);
        unsafe { s.verif_set_region(i, Region { range: (p, q), prev: i - 1, next: if i < m { i + 1 } else { 0 } }) };
        p = q;
        i += 1;
    }
    let mut i = m + 1;
    while i <= m + f {
        unsafe { s.verif_set_region(i, Region { range: (start, start), prev: 0, next: if i < m + f { i + 1 } else { 0 } }) };
        i += 1;
    }
    unsafe {
        s.verif_set_state(State {
            free_head: if f > 0 { m + 1 } else { 0 },
            tail: m,
            occupied: vacant as u16,
            full: (start, end),
            free: (p, free_end),
        })
    };
}

/// The invariant. Returns which regions there are, and how many.
fn invariant(s: &Slice<'_>, full: (P, P)) -> [bool; 9] {
    let st = s.verif_state();
    let mut seen = [false; 9];
    assert!(st.full == full, "the buffer stays the buffer");
    assert!(st.full.0 <= st.free.0 && st.free.0 <= st.free.1 && st.free.1 <= st.full.1, "memory in use does not reach headers");
    let heads = dist(st.free.1, st.full.1) / HEADER;
    assert!(heads * HEADER == dist(st.free.1, st.full.1) && heads <= 8, "headers are consecutive");
    // The regions, from the back.
    let (mut id, mut next, mut end, mut n) = (st.tail, 0, st.free.0, 0);
    let mut first = 0;
    while id != 0 && n <= 7 {
        assert!((id as usize) <= heads && !seen[id as usize], "a header once");
        seen[id as usize] = true;
        let r = unsafe { s.verif_region(id) };
        assert!(r.next == next && r.range.1 == end && r.range.0 <= r.range.1, "regions without gaps and overlaps");
        (first, next, end, id) = (id, id, r.range.0, r.prev);
        n += 1;
    }
    assert!(id == 0 && end == st.full.0, "regions from the start of the buffer");
    assert!(st.occupied == 0 || st.occupied == first && n > 1, "the vacant region is the first and not the last");
    // The free headers: all others.
    let mut other = 0;
    let mut id = st.free_head;
    while id != 0 && other <= 7 {
        let bit = 1usize << id;
        assert!((id as usize) <= heads && !seen[id as usize], "no header of a region is free");
        let _ = bit;
        id = unsafe { s.verif_region(id) }.next;
        other += 1;
    }
    assert!(id == 0 && n + other == heads, "every header is in use or free");
    seen
}

/// What is observable of a region: where it is, and one of its bytes.
#[derive(Clone, Copy)]
struct Watch {
    id: u16,
    range: (P, P),
    at: usize,
    byte: u8,
}

/// Any byte of any region other than the vacant one and `x`.
fn watch(s: &Slice<'_>, m: u16, vacant: bool, x: u16) -> Option<Watch> {
    let id: u16 = kani::any();
    #[cfg(not(kani))]
    let id = id % 6;
    if id <= vacant as u16 || id > m || id == x {
        return None;
    }
    let r = unsafe { s.verif_region(id) };
    let at = any_len(D);
    if at >= dist(r.range.0, r.range.1) {
        return Some(Watch { id, range: r.range, at: D, byte: 0 });
    }
    Some(Watch { id, range: r.range, at, byte: unsafe { *r.range.0.wrapping_add(at) } })
}

/// It is still where it was, and still has what it had.
fn kept(s: &Slice<'_>, seen: &[bool; 9], w: Option<Watch>) {
    if let Some(w) = w {
        assert!(seen[w.id as usize] && s.verif_state().occupied != w.id, "still owned");
        let r = unsafe { s.verif_region(w.id) };
        // Where it has room nobody can tell where it starts.
        assert!(r.range.0 == w.range.0 && r.range.1 >= w.range.1, "still where it was");
        assert!(w.at == D || unsafe { *w.range.0.wrapping_add(w.at) } == w.byte, "still what it was");
    }
}

/// The region handed out is nobody else's, aligned, inside, and of the size.
fn fresh(s: &Slice<'_>, seen: &[bool; 9], id: u16, size: usize, align: usize, w: Option<Watch>) -> P {
    assert!(id != 0 && seen[id as usize] && s.verif_state().occupied != id, "a region");
    assert!(w.map_or(true, |w| w.id != id), "nobody else's");
    let r = unsafe { s.verif_region(id) };
    assert!(r.range.0 as usize % align == 0, "aligned");
    assert!(dist(r.range.0, r.range.1) >= size, "of the size");
    r.range.0
}

fn alloc_any<T: Copy + PartialEq, const H: usize>(m: u16, f: u16, vacant: bool, v: T) -> bool {
    let mut done = false;
    let mut mem = any_mem::<H>();
    let base = mem.base();
    let s = Slice::new(mem.data());
    let mut at = [(base, base); 6];
    arbitrary::<H>(&s, base, m, f, vacant, &mut at);
    let full = s.verif_state().full;
    let w = watch(&s, m, vacant, 0);
    let got = (&s).alloc::<T>(v);
    match got {
        Ok(a) => {
            let seen = invariant(&s, full);
            let p = fresh(&s, &seen, a.verif_id(), size_of::<T>(), align_of::<T>(), w);
            kept(&s, &seen, w);
            assert!(a.as_ptr() as P == p && unsafe { *a.as_ptr() } == v && a.capacity() >= 1, "the value");
            done = true;
            core::mem::forget(a);
        }
        Err(_) => {
            let seen = invariant(&s, full);
            kept(&s, &seen, w);
        }
    }
    done
}

fn empty_any<T, const H: usize>(m: u16, f: u16, vacant: bool) -> bool {
    let mut done = false;
    let mut mem = any_mem::<H>();
    let base = mem.base();
    let s = Slice::new(mem.data());
    let mut at = [(base, base); 6];
    arbitrary::<H>(&s, base, m, f, vacant, &mut at);
    let full = s.verif_state().full;
    let w = watch(&s, m, vacant, 0);
    let a = (&s).alloc_empty::<T>();
    let seen = invariant(&s, full);
    kept(&s, &seen, w);
    if a.verif_id() != 0 {
        fresh(&s, &seen, a.verif_id(), 0, align_of::<T>(), w);
        done = true;
    } else {
        assert!(a.capacity() == 0, "no memory");
    }
    core::mem::forget(a);
    done
}

fn drop_any<const H: usize>(m: u16, f: u16, vacant: bool, x: u16) -> bool {
    let mut done = false;
    let mut mem = any_mem::<H>();
    let base = mem.base();
    let s = Slice::new(mem.data());
    let mut at = [(base, base); 6];
    arbitrary::<H>(&s, base, m, f, vacant, &mut at);
    let full = s.verif_state().full;
    let w = watch(&s, m, vacant, x);
    drop(unsafe { s.verif_alloc::<u8>(x, 0) });
    done = true;
    let seen = invariant(&s, full);
    kept(&s, &seen, w);
    done
}

fn resize_any<T, const H: usize>(m: u16, f: u16, vacant: bool, x: u16, len: usize) -> bool {
    let mut done = false;
    let mut mem = any_mem::<H>();
    let base = mem.base();
    let s = Slice::new(mem.data());
    let mut at = [(base, base); 6];
    arbitrary::<H>(&s, base, m, f, vacant, &mut at);
    let full = s.verif_state().full;
    let w = watch(&s, m, vacant, x);
    let r = at[x as usize];
    kani::assume(r.0 as usize % align_of::<T>() == 0);
    let room = dist(r.0, r.1) / size_of::<T>();
    let cap = any_len(room);
    let mut a = unsafe { s.verif_alloc::<T>(x, cap) };
    let len = if len == ANY { any_len(room) } else { len };
    kani::assume(len <= room);
    let more: usize = kani::any();
    #[cfg(not(kani))]
    let more = more % 40;
    // All there is, or more than any buffer has.
    kani::assume(more <= 24 / size_of::<T>() || more > i32::MAX as usize / size_of::<T>());
    // One byte which is in use.
    let i = any_len(D);
    kani::assume(i < len * size_of::<T>() || len == 0);
    let byte = if len == 0 { 0 } else { unsafe { *r.0.wrapping_add(i) } };
    let got = a.resize(len, more);
    let seen = invariant(&s, full);
    kept(&s, &seen, w);
    let p = fresh(&s, &seen, a.verif_id(), 0, align_of::<T>(), w);
    assert!(a.as_ptr() as P == p && a.as_mut_ptr() as P == p, "the memory");
    let now = unsafe { s.verif_region(a.verif_id()) };
    assert!(a.verif_cap() * size_of::<T>() <= dist(now.range.0, now.range.1), "no more room than there is");
    assert!(len == 0 || unsafe { *p.wrapping_add(i) } == byte, "what was in use is kept");
    match got {
        Ok(()) => {
            let want = len.checked_add(more);
            assert!(want.is_some() && a.capacity() >= want.unwrap(), "the room which was asked for");
            done = true;
        }
        Err(_) => {
            assert!(a.verif_id() == x && p == r.0 && a.capacity() >= room, "unchanged");
        }
    }
    core::mem::forget(a);
    done
}

fn merge_any<T, const H: usize>(m: u16, f: u16, vacant: bool, x: u16, y: u16, lx: usize, ly: usize) -> bool {
    let mut done = false;
    let mut mem = any_mem::<H>();
    let base = mem.base();
    let s = Slice::new(mem.data());
    let mut at = [(base, base); 6];
    arbitrary::<H>(&s, base, m, f, vacant, &mut at);
    let full = s.verif_state().full;
    let w = watch(&s, m, vacant, x).filter(|w| w.id != y);
    let (rx, ry) = (at[x as usize], at[y as usize]);
    kani::assume(rx.0 as usize % align_of::<T>() == 0 && ry.0 as usize % align_of::<T>() == 0);
    let (cx, cy) = (dist(rx.0, rx.1) / size_of::<T>(), dist(ry.0, ry.1) / size_of::<T>());
    let (lx, ly) = (if lx == ANY { any_len(cx) } else { lx }, if ly == ANY { any_len(cy) } else { ly });
    kani::assume(lx <= cx && ly <= cy);
    let (capx, capy) = (any_len(cx), any_len(cy));
    let mut a = unsafe { s.verif_alloc::<T>(x, capx) };
    let b = unsafe { s.verif_alloc::<T>(y, capy) };
    let (i, j) = (any_len(D), any_len(D));
    kani::assume((i < lx * size_of::<T>() || lx == 0) && (j < ly * size_of::<T>() || ly == 0));
    let bx = if lx == 0 { 0 } else { unsafe { *rx.0.wrapping_add(i) } };
    let by = if ly == 0 { 0 } else { unsafe { *ry.0.wrapping_add(j) } };
    match a.try_merge(lx, b, ly) {
        Ok(()) => {
            let seen = invariant(&s, full);
            kept(&s, &seen, w);
            let p = fresh(&s, &seen, x, (lx + ly) * size_of::<T>(), align_of::<T>(), w);
            assert!(p == rx.0 && a.verif_id() == x && !seen[y as usize], "one region out of two");
            assert!(lx == 0 || unsafe { *p.wrapping_add(i) } == bx, "what the first had");
            assert!(ly == 0 || unsafe { *p.wrapping_add(lx * size_of::<T>() + j) } == by, "what the second had");
            assert!(a.capacity() >= lx + ly && a.verif_cap() <= a.capacity(), "room for both");
            done = true;
        }
        Err(b) => {
            let seen = invariant(&s, full);
            kept(&s, &seen, w);
            assert!(a.verif_id() == x && b.verif_id() == y && seen[x as usize] && seen[y as usize], "both are left");
            let (nx, ny) = unsafe { (s.verif_region(x), s.verif_region(y)) };
            assert!(nx.range == rx && ny.range == ry, "where they were");
            assert!(lx == 0 || unsafe { *rx.0.wrapping_add(i) } == bx, "what the first had");
            assert!(ly == 0 || unsafe { *ry.0.wrapping_add(j) } == by, "what the second had");
            core::mem::forget(b);
        }
    }
    core::mem::forget(a);
    done
}

macro_rules! op {
    ($name:ident, $e:expr) => {
        harness!($name, 10, {
            if $e {
                reachable!("done");
            }
        });
    };
}
macro_rules! refused_op {
    ($name:ident, $e:expr) => {
        harness!($name, 10, {
            if !$e {
                reachable!("refused");
            }
        });
    };
}
// By the number of regions, of free headers, and whether there is a vacant one;
// with (and without) room for one more header than there are.
op!(p_alloc_u8_000, alloc_any::<u8, 1>(0, 0, false, kani::any()));
op!(p_alloc_u64_000, alloc_any::<u64, 1>(0, 0, false, kani::any()));
op!(p_alloc_u64_000_room, alloc_any::<u64, 2>(0, 0, false, kani::any()));
op!(p_alloc_u64_010, alloc_any::<u64, 1>(0, 1, false, kani::any()));
refused_op!(p_alloc_u64_100, alloc_any::<u64, 1>(1, 0, false, kani::any()));
op!(p_alloc_u64_100_room, alloc_any::<u64, 2>(1, 0, false, kani::any()));
op!(pt_alloc_u64_210, alloc_any::<u64, 3>(2, 1, false, kani::any()));
op!(p_alloc_u32_201, alloc_any::<u32, 3>(2, 0, true, kani::any()));
op!(pt_alloc_u64_301, alloc_any::<u64, 4>(3, 0, true, kani::any()));
op!(pt_alloc_u16_311, alloc_any::<u16, 4>(3, 1, true, kani::any()));
op!(p_empty_u64_000, empty_any::<u64, 2>(0, 0, false));
op!(p_empty_u64_210, empty_any::<u64, 3>(2, 1, false));
op!(p_empty_u64_201, empty_any::<u64, 3>(2, 0, true));
op!(pt_empty_u64_301, empty_any::<u64, 3>(3, 0, true));
op!(p_drop_1_1, drop_any::<1>(1, 0, false, 1));
op!(p_drop_2_1, drop_any::<2>(2, 0, false, 1));
op!(p_drop_2_2, drop_any::<2>(2, 0, false, 2));
op!(p_drop_v2_2, drop_any::<2>(2, 0, true, 2));
op!(p_drop_v3_2, drop_any::<3>(3, 0, true, 2));
op!(p_drop_v3_3, drop_any::<4>(3, 1, true, 3));
op!(p_drop_5_3, drop_any::<5>(5, 0, false, 3));
op!(p_drop_v5_3, drop_any::<6>(5, 1, true, 3));
op!(p_resize_u8_1, resize_any::<u8, 1>(1, 0, false, 1, ANY));
op!(p_resize_u64_1, resize_any::<u64, 1>(1, 0, false, 1, ANY));
op!(p_resize_u64_2_2, resize_any::<u64, 2>(2, 0, false, 2, ANY));
op!(p_resize_u64_v2_2, resize_any::<u64, 2>(2, 0, true, 2, ANY));
op!(bt_resize_u32_2_1, resize_any::<u32, 3>(2, 0, false, 1, 1));
op!(b_resize_u32_2_1_free, resize_any::<u32, 3>(2, 1, false, 1, 1));
op!(bt_resize_u32_v3_2, resize_any::<u32, 4>(3, 0, true, 2, 1));
op!(bt_resize_u8_v3_2, resize_any::<u8, 4>(3, 1, true, 2, 0));
op!(bt_resize_u32_v3_3, resize_any::<u32, 3>(3, 0, true, 3, 2));
op!(bt_resize_u16_5_3, resize_any::<u16, 6>(5, 0, false, 3, 2));
op!(bt_resize_u16_v5_3, resize_any::<u16, 6>(5, 1, true, 3, 2));
op!(pt_resize_u8_2_1, resize_any::<u8, 3>(2, 0, false, 1, ANY));
op!(pt_resize_u8_v3_2, resize_any::<u8, 4>(3, 0, true, 2, ANY));
op!(b_merge_u8_2, merge_any::<u8, 2>(2, 0, false, 1, 2, 1, 2));
refused_op!(b_merge_u8_2_00, merge_any::<u8, 2>(2, 0, false, 1, 2, 0, 0));
refused_op!(b_merge_u8_2_back, merge_any::<u8, 2>(2, 0, false, 2, 1, 1, 1));
refused_op!(bt_merge_u16_3_13, merge_any::<u16, 3>(3, 0, false, 1, 3, 1, 1));
op!(bt_merge_u32_3_23, merge_any::<u32, 4>(3, 1, false, 2, 3, 1, 1));
op!(bt_merge_u16_v3_23, merge_any::<u16, 3>(3, 0, true, 2, 3, 0, 2));
op!(bt_merge_u16_v5_23, merge_any::<u16, 5>(5, 0, true, 2, 3, 1, 2));
refused_op!(bt_merge_u16_5_13, merge_any::<u16, 5>(5, 0, false, 1, 3, 2, 1));
refused_op!(bt_merge_u16_5_24, merge_any::<u16, 5>(5, 0, false, 2, 4, 0, 2));
op!(pt_merge_u8_2, merge_any::<u8, 2>(2, 0, false, 1, 2, ANY, ANY));

// Any buffer.
harness!(p_new, 10, {
    let mut mem = any_mem::<3>();
    let base = mem.base();
    let (from, to) = any_range(D + 3 * HEADER);
    let b = unsafe { core::slice::from_raw_parts_mut(base.wrapping_add(from), to - from) };
    let s = Slice::new(b);
    let st = s.verif_state();
    let (lo, hi) = (base.wrapping_add(from), base.wrapping_add(to));
    assert!(st.full.0 >= lo && st.full.1 <= hi && st.full.0 <= st.full.1, "inside of the buffer");
    assert!(st.full.1 as usize % 8 == 0 || st.full.0 == st.full.1, "headers are aligned");
    assert!(dist(st.full.1, hi) < 8 || st.full.0 == st.full.1, "what is left out is less than a header is aligned to");
    invariant(&s, st.full);
});

// Values without a size take no memory.
harness!(p_zst, 10, {
    let mut mem = any_mem::<1>();
    let s = Slice::new(mem.data());
    let before = s.verif_state();
    let mut a = (&s).alloc(()).unwrap();
    let n: usize = kani::any();
    assert!(a.resize(n, 0).is_ok() && a.resize(0, n).is_ok() && a.capacity() >= n && a.as_ptr() as usize != 0);
    drop(a);
    assert!(s.verif_state() == before);
});
