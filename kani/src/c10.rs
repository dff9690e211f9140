//! C10: writers. The state of a bounded writer is the memory which remains, so
//! one write into memory of any size covers every history.
use crate::support::*;
use musli::mode::Binary;
use musli::writer::{BufWriter, IntoWriter};
use musli::FixedBytes;

const LE: musli::storage::Encoding<{ FIXED_LE }, Binary> =
    musli::storage::Encoding::new().with_options::<{ FIXED_LE }>();
const W: musli::wire::Encoding<{ VARIABLE }, Binary> = musli::wire::Encoding::new().with_options::<{ VARIABLE }>();
const D: musli::descriptive::Encoding<{ VARIABLE }, Binary> =
    musli::descriptive::Encoding::new().with_options::<{ VARIABLE }>();

/// Memory, and the part of it a writer is given.
fn any_target() -> (&'static mut [u8], usize, usize) {
    let base = any_slice_mut();
    let (from, to) = any_range(base.len());
    (base, from, to)
}

// Into a slice: all or nothing, only behind what was written before, and what
// remains is accounted for.
harness!(p_slice_bytes, 4, {
    let (base, from, to) = any_target();
    let src = any_slice();
    let room = to - from;
    // The verifier only orders addresses within one allocation.
    kani::assume(src.len() <= base.len() - from);
    kani::assume(base.len() > 0);
    let at = any_len(base.len() - 1);
    let old = base[at];
    let mut w = (&mut base[from..to]).into_writer();
    let got = w.write_bytes(Cx, src);
    let left = w.finish(Cx).unwrap();
    if src.len() <= room {
        assert!(got.is_ok(), "what fits is written");
        assert!(left == room - src.len(), "what was written is accounted for");
        let want = if at >= from && at - from < src.len() { src[at - from] } else { old };
        assert!(base[at] == want, "exactly the bytes given, and nothing else changes");
    } else {
        assert!(got.is_err(), "what does not fit is refused");
        assert!(left == room && base[at] == old, "and nothing changes");
    }
});

harness!(p_slice_byte, 4, {
    let (base, from, to) = any_target();
    let room = to - from;
    kani::assume(base.len() > 0);
    let at = any_len(base.len() - 1);
    let old = base[at];
    let b: u8 = kani::any();
    let mut w = (&mut base[from..to]).into_writer();
    let got = w.write_byte(Cx, b);
    let left = w.finish(Cx).unwrap();
    if room > 0 {
        assert!(got.is_ok() && left == room - 1);
        assert!(base[at] == if at == from { b } else { old });
    } else {
        assert!(got.is_err() && left == 0 && base[at] == old);
    }
});

// The next write starts where the last one ended, whatever kind it was.
harness!(p_slice_sequence, 6, {
    let mut base = [0u8; 8];
    let n = any_len(8);
    let (a, b, c): ([u8; 2], u8, [u8; 3]) = (kani::any(), kani::any(), kani::any());
    let mut w = (&mut base[..n]).into_writer();
    let mut o = Out::<8>::new();
    if w.write_bytes(Cx, &a).is_ok() {
        o.bytes(&a);
    }
    if w.write_byte(Cx, b).is_ok() {
        o.push(b);
    }
    if w.borrow_mut().write_bytes(Cx, &c).is_ok() {
        o.bytes(&c);
    }
    if w.borrow_mut().write_byte(Cx, b).is_ok() {
        o.push(b);
    }
    assert!(w.finish(Cx) == Ok(n - o.n));
    let i = any_len(7);
    assert!(base[i] == if i < o.n { o.b[i] } else { 0 });
});

// Into a fixed array, from any fill level.
harness!(p_fixed, 10, {
    let mut w = FixedBytes::<8>::new();
    let before: [u8; 8] = kani::any();
    let fill = any_len(8);
    assert!(w.extend_from_slice(&before[..fill]) && w.len() == fill && w.remaining() == 8 - fill);
    assert!(w.is_empty() == (fill == 0));
    let src = any_slice();
    let i = any_len(7);
    let ok = if kani::any() { Writer::write_bytes(&mut w, Cx, src).is_ok() } else { w.extend_from_slice(src) };
    assert!(ok == (src.len() <= 8 - fill), "exactly what fits is written");
    let len = if ok { fill + src.len() } else { fill };
    assert!(w.len() == len && w.as_slice().len() == len && w.remaining() == 8 - len);
    if i < len {
        assert!(w.as_slice()[i] == if i < fill { before[i] } else { src[i - fill] }, "in order, without gaps");
    }
    let b: u8 = kani::any();
    let pushed = if kani::any() { w.push(b) } else { w.write_byte(Cx, b).is_ok() };
    assert!(pushed == (len < 8));
    if pushed {
        assert!(w.as_slice()[len] == b && w.len() == len + 1);
    } else {
        assert!(w.len() == 8 && (len <= i || w.as_slice()[i] == if i < fill { before[i] } else { src[i - fill] }));
    }
    let full = w.len() == 8;
    match w.into_bytes() {
        Some(a) => assert!(full && (i >= len || a[i] == if i < fill { before[i] } else { src[i - fill] })),
        None => assert!(!full),
    }
});

harness!(p_fixed_mut, 10, {
    let mut w = FixedBytes::<4>::new();
    let src: [u8; 4] = kani::any();
    let n = any_len(4);
    assert!(w.extend_from_slice(&src[..n]));
    assert!(w.as_mut_slice().len() == n && (&*w).len() == n);
    w.clear();
    assert!(w.is_empty() && w.as_slice().is_empty() && w.as_mut_slice().is_empty() && w.remaining() == 4);
    assert!(w.extend_from_slice(&src) && w.into_bytes() == Some(src));
});

// Writers which grow.
macro_rules! grows {
    ($name:ident, $new:expr, $view:expr) => {
        harness!($name, 10, {
            let (a, b, c): ([u8; 2], u8, [u8; 3]) = (kani::any(), kani::any(), kani::any());
            let mut w = $new;
            w.write_bytes(Cx, &a).unwrap();
            w.write_byte(Cx, b).unwrap();
            w.borrow_mut().write_bytes(Cx, &c).unwrap();
            w.borrow_mut().write_bytes(Cx, &[]).unwrap();
            let mut buf = musli::alloc::Vec::new_in(musli::alloc::System::new());
            buf.push(b).unwrap();
            buf.push(a[0]).unwrap();
            Writer::extend(&mut w, Cx, buf).unwrap();
            w.finish(Cx).unwrap();
            let got = ($view)(&w);
            assert!(got.len() == 8, "everything is there");
            assert!(got[0] == a[0] && got[1] == a[1] && got[2] == b, "in order");
            assert!(got[3] == c[0] && got[4] == c[1] && got[5] == c[2] && got[6] == b && got[7] == a[0]);
        });
    };
}
grows!(b_vec, Vec::<u8>::new(), |w: &Vec<u8>| -> [u8; 8] { w[..].try_into().unwrap() });
grows!(b_fixed_grows, FixedBytes::<8>::new(), |w: &FixedBytes<8>| -> [u8; 8] { w.as_slice().try_into().unwrap() });

harness!(b_buf, 10, {
    let (a, b, c): ([u8; 2], u8, [u8; 3]) = (kani::any(), kani::any(), kani::any());
    let mut w = BufWriter::new(musli::alloc::System::new());
    w.write_bytes(Cx, &a).unwrap();
    w.write_byte(Cx, b).unwrap();
    w.borrow_mut().write_bytes(Cx, &c).unwrap();
    let mut buf = musli::alloc::Vec::new_in(musli::alloc::System::new());
    buf.push(b).unwrap();
    Writer::extend(&mut w, Cx, buf).unwrap();
    w.finish(Cx).unwrap();
    let v = w.into_inner();
    let got = v.as_slice();
    assert!(got.len() == 7);
    assert!(got[0] == a[0] && got[1] == a[1] && got[2] == b && got[3] == c[0] && got[4] == c[1] && got[5] == c[2] && got[6] == b);
});

harness!(b_wrapped, 10, {
    let (a, b): ([u8; 2], u8) = (kani::any(), kani::any());
    let mut out = [0u8; 3];
    let n = any_len(3);
    let room = &mut out[..n];
    let mut w = musli::wrap::wrap(room).into_writer();
    let first = w.write_bytes(Cx, &a).is_ok();
    assert!(first == (n >= 2));
    if first {
        assert!(w.write_byte(Cx, b).is_ok() == (n == 3));
    }
    drop(w);
    assert!(n < 2 || out[0] == a[0] && out[1] == a[1]);
    assert!(out[2] == if n == 3 { b } else { 0 });
});

// The bytes of a value do not depend on the writer, and a slice which is too
// short is an error at every length.
macro_rules! agree {
    ($name:ident, $e:expr, $t:ty, $v:expr) => {
        harness!($name, 16, {
            let v: $t = $v;
            let a = $e.to_fixed_bytes_with::<_, 24, _>(Cx, &v).unwrap();
            let a = a.as_slice();
            let mut out = [0x5au8; 24];
            let n = $e.to_slice_with(Cx, &mut out[..], &v).unwrap();
            assert!(n == a.len(), "the number of bytes written is reported");
            let mut w = Vec::new();
            $e.encode_with(Cx, &mut w, &v).unwrap();
            assert!(w.len() == n);
            let mut b = BufWriter::new(musli::alloc::System::new());
            $e.encode_with(Cx, &mut b, &v).unwrap();
            let b = b.into_inner();
            assert!(b.len() == n);
            let mut i = 0;
            while i < n {
                assert!(out[i] == a[i] && w[i] == a[i] && b.as_slice()[i] == a[i], "the same bytes");
                i += 1;
            }
            assert!(out[n] == 0x5a);
            let mut k = 0;
            while k < n {
                let mut short = [0x5au8; 24];
                assert!($e.to_slice_with(Cx, &mut short[..k], &v).is_err(), "what does not fit is refused");
                assert!(short[k] == 0x5a, "nothing is written behind the slice");
                k += 1;
            }
        });
    };
}
agree!(p_agree_storage, LE, (u16, Option<u8>), (kani::any(), Some(kani::any())));
agree!(p_agree_wire, W, (bool, Option<bool>), (true, Some(false)));
agree!(p_agree_wire_u16, W, u16, kani::any());
agree!(pt_agree_descriptive, D, u16, kani::any());
agree!(b_agree_bytes, W, musli::compat::Bytes<[u8; 4]>, musli::compat::Bytes(kani::any()));
