//! C09: readers. The state of a reader is the input which remains, so one call
//! from an arbitrary state (a slice of any length and contents) covers every
//! history.
use crate::support::*;
use core::fmt;
use musli::de::UnsizedVisitor;
use musli::reader::SliceReader;

/// Returns the address and length of what it was given.
pub struct Where;

#[musli::de::unsized_visitor]
impl<C> UnsizedVisitor<'_, C, [u8]> for Where
where
    C: Context,
{
    type Ok = (*const u8, usize);

    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("bytes")
    }

    fn visit_ref(self, _: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
        Ok((bytes.as_ptr(), bytes.len()))
    }
}

/// What a reader still has: its address and length.
trait State {
    fn state(&self) -> (*const u8, usize);
}
impl State for &[u8] {
    fn state(&self) -> (*const u8, usize) {
        (self.as_ptr(), self.len())
    }
}
impl State for SliceReader<'_> {
    fn state(&self) -> (*const u8, usize) {
        (self.as_slice().as_ptr(), self.remaining())
    }
}
impl<R> State for &mut R
where
    R: State,
{
    fn state(&self) -> (*const u8, usize) {
        (**self).state()
    }
}

/// Any input, and any number of bytes which can be asked for.
fn any_source() -> (&'static [u8], usize) {
    (any_slice(), kani::any())
}

/// The same for readers which compare addresses: the verifier only orders
/// addresses within one allocation, so the input lies somewhere inside of a
/// larger one and requests stay in it. Requests close to the largest number wrap
/// around to what is before the input.
fn any_inner_source() -> (&'static [u8], usize) {
    let s = any_slice();
    // Requests of constant size stay in it, too.
    kani::assume(s.len() >= 8);
    let (from, to) = any_range(s.len() - 8);
    let n: usize = kani::any();
    #[cfg(not(kani))]
    let n = if n < 1 << 40 { n % (s.len() - from + 1) } else { n };
    kani::assume(n <= s.len() - from || n > usize::MAX - from);
    (&s[from..to], n)
}

// The contract of every method: from any state with `len` bytes remaining, a
// request for `n` bytes yields exactly the next `n` and leaves the rest, or
// fails and leaves everything.
macro_rules! contract {
    ($m:ident, $source:ident, $new:expr) => {
        pub mod $m {
            use super::*;

            pub fn skip() {
                let (s, n) = $source();
                let mut r = ($new)(s);
                let got = r.skip(Cx, n);
                if n <= s.len() {
                    assert!(got.is_ok(), "what is there can be skipped");
                    assert!(r.state() == (s.as_ptr().wrapping_add(n), s.len() - n), "exactly n bytes are consumed");
                } else {
                    assert!(got.is_err(), "more than there is can not be skipped");
                    assert!(r.state() == (s.as_ptr(), s.len()), "nothing is consumed");
                }
            }

            pub fn bytes() {
                let (s, n) = $source();
                let mut r = ($new)(s);
                let got = r.read_bytes(Cx, n, Where);
                if n <= s.len() {
                    assert!(got == Ok((s.as_ptr(), n)), "exactly the next n bytes");
                    assert!(r.state() == (s.as_ptr().wrapping_add(n), s.len() - n), "exactly n bytes are consumed");
                } else {
                    assert!(got.is_err(), "no data is yielded where less remains");
                    assert!(r.state() == (s.as_ptr(), s.len()), "nothing is consumed");
                }
            }

            pub fn byte() {
                let (s, n) = $source();
                let mut r = ($new)(s);
                assert!(r.is_eof() == s.is_empty(), "the end is reported exactly where nothing remains");
                assert!(r.peek() == s.first().copied(), "the next byte");
                assert!(r.state() == (s.as_ptr(), s.len()), "peeking does not consume");
                let got = r.read_byte(Cx);
                if s.len() > 0 {
                    assert!(got == Ok(s[0]));
                    assert!(r.state() == (s.as_ptr().wrapping_add(1), s.len() - 1));
                } else {
                    assert!(got.is_err());
                    assert!(r.state() == (s.as_ptr(), s.len()));
                }
            }

            pub fn array() {
                let (s, n) = $source();
                let mut r = ($new)(s);
                let got: Result<[u8; 5], E> = r.read_array(Cx);
                if s.len() >= 5 {
                    assert!(got == Ok([s[0], s[1], s[2], s[3], s[4]]));
                    assert!(r.state() == (s.as_ptr().wrapping_add(5), s.len() - 5));
                } else {
                    assert!(got.is_err());
                    assert!(r.state() == (s.as_ptr(), s.len()));
                }
            }

            pub fn read() {
                let (s, n) = $source();
                let mut r = ($new)(s);
                let mut buf = [kani::any::<u8>(); 6];
                let old = buf[0];
                let n = if n <= 6 { n } else { 6 };
                let got = r.read(Cx, &mut buf[..n]);
                let i = any_len(5);
                if n <= s.len() {
                    assert!(got.is_ok());
                    assert!(buf[i] == if i < n { s[i] } else { old }, "exactly the next n bytes");
                    assert!(r.state() == (s.as_ptr().wrapping_add(n), s.len() - n));
                } else {
                    assert!(got.is_err());
                    assert!(buf[i] == old, "no data is yielded where less remains");
                    assert!(r.state() == (s.as_ptr(), s.len()));
                }
            }

            pub fn uninit() {
                let (s, n) = $source();
                let mut r = ($new)(s);
                let mut buf = [kani::any::<u8>(); 6];
                let old = buf[0];
                let n = if n <= 6 { n } else { 6 };
                // SAFETY: n is within the buffer.
                let got = unsafe { r.read_bytes_uninit(Cx, buf.as_mut_ptr(), n) };
                let i = any_len(5);
                if n <= s.len() {
                    assert!(got.is_ok());
                    assert!(buf[i] == if i < n { s[i] } else { old }, "exactly the next n bytes");
                    assert!(r.state() == (s.as_ptr().wrapping_add(n), s.len() - n));
                } else {
                    assert!(got.is_err());
                    assert!(buf[i] == old, "no data is yielded where less remains");
                    assert!(r.state() == (s.as_ptr(), s.len()));
                }
            }

            pub fn clone() {
                let (s, n) = $source();
                let mut r = ($new)(s);
                let mut c = r.try_clone().unwrap();
                kani::assume(n <= s.len());
                c.skip(Cx, n).unwrap();
                assert!(r.state() == (s.as_ptr(), s.len()), "a clone reads on its own");
                assert!(c.state() == (s.as_ptr().wrapping_add(n), s.len() - n));
                r.borrow_mut().skip(Cx, n).unwrap();
                assert!(r.state() == c.state(), "reborrowing reads from the reader itself");
            }
        }
    };
}
contract!(slice, any_source, |s: &'static [u8]| s);
contract!(reader, any_inner_source, |s: &'static [u8]| SliceReader::new(s));

harness!(p_slice_skip, 8, { slice::skip() });
harness!(p_slice_bytes, 8, { slice::bytes() });
harness!(p_slice_byte, 8, { slice::byte() });
harness!(p_slice_array, 8, { slice::array() });
harness!(p_slice_read, 8, { slice::read() });
harness!(p_slice_uninit, 8, { slice::uninit() });
harness!(p_slice_clone, 8, { slice::clone() });
harness!(p_reader_skip, 8, { reader::skip() });
harness!(p_reader_bytes, 8, { reader::bytes() });
harness!(p_reader_byte, 8, { reader::byte() });
harness!(p_reader_array, 8, { reader::array() });
harness!(p_reader_read, 8, { reader::read() });
harness!(p_reader_uninit, 8, { reader::uninit() });
harness!(p_reader_clone, 8, { reader::clone() });

// A limited reader: from any input and any limit.
macro_rules! limited {
    ($name:ident, $source:ident, $new:expr) => {
        pub fn $name() {
            let (s, n) = $source();
            let mut r = ($new)(s);
            let limit: usize = kani::any();
            let op: u8 = kani::any();
            let avail = if limit < s.len() { limit } else { s.len() };
            let mut l = (&mut r).limit(limit);
            assert!(l.remaining() == limit);
            assert!(l.is_eof() == (avail == 0), "the end is the limit or the end of the input");
            assert!(l.peek() == if avail > 0 { Some(s[0]) } else { None }, "peeking sees no further than the limit");
            let mut want = n;
            let ok = match op {
                0 => l.skip(Cx, n).is_ok(),
                1 => {
                    let got = l.read_bytes(Cx, n, Where);
                    assert!(got.is_err() || got == Ok((s.as_ptr(), n)));
                    got.is_ok()
                }
                2 => {
                    want = 1;
                    let got = l.read_byte(Cx);
                    assert!(got.is_err() || got == Ok(s[0]));
                    got.is_ok()
                }
                3 => {
                    want = 3;
                    let got: Result<[u8; 3], E> = l.read_array(Cx);
                    assert!(got.is_err() || got == Ok([s[0], s[1], s[2]]));
                    got.is_ok()
                }
                4 => {
                    want = 2;
                    let mut b = [0u8; 2];
                    let ok = l.read(Cx, &mut b).is_ok();
                    assert!(!ok || b == [s[0], s[1]]);
                    ok
                }
                5 => {
                    want = 2;
                    let mut b = [0u8; 2];
                    // SAFETY: two bytes fit.
                    let ok = unsafe { l.read_bytes_uninit(Cx, b.as_mut_ptr(), 2).is_ok() };
                    assert!(!ok || b == [s[0], s[1]]);
                    ok
                }
                _ => {
                    let mut c = l.try_clone().unwrap();
                    let ok = c.skip(Cx, n).is_ok();
                    assert!(ok == (n <= avail), "a clone has the same limit");
                    assert!(l.remaining() == limit);
                    want = 0;
                    true
                }
            };
            assert!(ok == (want <= avail), "never more than the limit, never less than what is there");
            if ok {
                assert!(l.remaining() == limit - want, "the limit accounts for every byte");
            }
            drop(l);
            let took = if ok { want } else { 0 };
            assert!(r.state() == (s.as_ptr().wrapping_add(took), s.len() - took), "the rest is handed back untouched");
        }
    };
}
mod lim {
    use super::*;
    limited!(slice, any_source, |s: &'static [u8]| s);
    limited!(reader, any_inner_source, |s: &'static [u8]| SliceReader::new(s));
}
harness!(p_limit_slice, 8, { lim::slice() });
harness!(p_limit_reader, 8, { lim::reader() });

// The accessors of the pointer based reader.
harness!(p_reader_views, 4, {
    let s: &'static [u8] = any_slice();
    let r = SliceReader::new(s);
    assert!(r.as_slice().as_ptr() == s.as_ptr() && r.as_slice().len() == s.len());
    assert!(r.remaining() == s.len());
});
