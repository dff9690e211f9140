//! C19: swiss tables, under any hash function.
use crate::support::*;
use musli_zerocopy::{buf, sip, swiss, Buf, OwnedBuf, Ref, ZeroCopy};

/// Any hash function of the keys `0..4`.
static mut HASHES: [u64; 4] = [0; 4];
fn table(_: u64, value: u64) -> (u64, u64) {
    // SAFETY: single threaded.
    (unsafe { HASHES[(value & 3) as usize] }, 0)
}
fn any_hashes() {
    // SAFETY: single threaded.
    unsafe {
        HASHES = [kani::any(), kani::any(), kani::any(), kani::any()];
        sip::HASH = table;
    }
}

harness!(b_set2, 6, {
    any_hashes();
    let (x, y): (u8, u8) = (kani::any(), kani::any());
    kani::assume(x < 4 && y < 4 && x != y);
    let mut b = OwnedBuf::with_capacity_and_alignment::<u128>(96);
    let s = swiss::store_set(&mut b, [x, y]);
    assert!(s.is_ok());
    let s = b.bind(s.unwrap()).unwrap();
    let k: u8 = kani::any();
    kani::assume(k < 4);
    assert!(s.contains(&k).unwrap() == (k == x || k == y));
});

harness!(b_set1, 10, {
    any_hashes();
    let x: u8 = kani::any();
    kani::assume(x < 4);
    let mut p = crate::zc::Place::<96>([0; 96]);
    let mut b = musli_zerocopy::SliceMut::new(&mut p.0);
    let s = swiss::store_set(&mut b, [x]);
    kani::assume(s.is_ok());
});
harness!(b_set1_find, 4, {
    any_hashes();
    let x: u8 = kani::any();
    kani::assume(x < 4);
    let mut p = crate::zc::Place::<96>([0; 96]);
    let mut b = musli_zerocopy::SliceMut::new(&mut p.0);
    let s = swiss::store_set(&mut b, [x]);
    kani::assume(s.is_ok());
    let s = b.bind(s.unwrap()).unwrap();
    let k: u8 = kani::any();
    kani::assume(k < 4);
    assert!(s.contains(&k).unwrap() == (k == x));
});
