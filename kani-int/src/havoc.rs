//! Contracts as implementations: what generic code is verified against.
use crate::support::*;

/// The contract of `Reader`, as a reader: it has some number of bytes left, what
/// it reads is arbitrary, and it refuses what goes beyond its end. Code which is
/// generic over readers is verified against this; that the readers of the crate
/// satisfy it is C09.
pub struct Havoc {
    /// What it lends out: arbitrary contents.
    pub lend: &'static [u8],
}

// What it has left is kept out of it, so that it is known to the contracts of
// functions which hide their reader.
static mut LEFT: usize = 0;
// What was peeked at is what is read next.
static mut PEEKED: Option<u8> = None;
pub fn left() -> usize {
    unsafe { LEFT }
}
fn set_left(n: usize) {
    unsafe { LEFT = n }
}
fn any_byte() -> u8 {
    // SAFETY: nothing runs concurrently.
    unsafe {
        match PEEKED {
            Some(b) => {
                PEEKED = None;
                b
            }
            None => kani::any(),
        }
    }
}
pub fn take<C: Context>(cx: C, n: usize) -> Result<(), C::Error> {
    if n > left() {
        return Err(cx.message("the end"));
    }
    set_left(left() - n);
    Ok(())
}
fn forget_peeked(n: usize) {
    if n > 0 {
        unsafe { PEEKED = None }
    }
}

/// The contract of reading a variable-length integer, which C01 discharges: at
/// least one byte is consumed, and any value or an error results.
#[cfg(kani)]
pub fn any_varint<'de, C, R, T>(cx: C, mut r: R) -> Result<T, C::Error>
where
    C: Context,
    R: Reader<'de>,
    T: kani::Arbitrary,
{
    // A longer one is a shorter input.
    r.read_byte(cx)?;
    if kani::any() {
        return Err(cx.message("not an integer"));
    }
    Ok(kani::any())
}

/// The contract of skipping a value, which C05 and C07 discharge: at least one
/// byte is consumed, or it is refused. It may only be used on unlimited readers.
#[cfg(kani)]
fn any_skip<D, C: Context>(_: D) -> Result<(), C::Error> {
    // SAFETY: the context of the harnesses is a unit.
    assert!(core::mem::size_of::<C>() == 0);
    let cx = unsafe { core::mem::MaybeUninit::<C>::uninit().assume_init() };
    if kani::any() {
        return Err(cx.message("not a value"));
    }
    take(cx, 1)
}
#[cfg(kani)]
pub fn any_wire_skip<'de, const OPT: Options, R, C, M>(this: musli::wire::VerifDecoder<OPT, R, C, M>) -> Result<(), C::Error>
where
    R: Reader<'de>,
    C: Context,
    M: 'static,
{
    any_skip::<_, C>(this)
}
#[cfg(kani)]
pub fn any_descriptive_skip<'de, const OPT: Options, R, C, M>(
    this: musli::descriptive::VerifDecoder<OPT, R, C, M>,
) -> Result<(), C::Error>
where
    R: Reader<'de>,
    C: Context,
    M: 'static,
{
    any_skip::<_, C>(this)
}

impl Havoc {
    /// At most `max` bytes, of which there are at most eight lent at a time.
    pub fn new(max: usize) -> Self {
        let lend: &'static [u8; 8] = Box::leak(Box::new(kani::any()));
        set_left(any_len(max));
        unsafe { PEEKED = None }
        Self { lend }
    }

    fn take<C: Context>(&mut self, cx: C, n: usize) -> Result<(), C::Error> {
        take(cx, n)
    }
}

impl<'de> Reader<'de> for Havoc {
    type Mut<'this> = &'this mut Self;
    type TryClone = Havoc;

    fn borrow_mut(&mut self) -> &mut Self {
        self
    }
    fn try_clone(&self) -> Option<Havoc> {
        Some(Havoc { lend: self.lend })
    }
    fn is_eof(&mut self) -> bool {
        left() == 0
    }
    fn skip<C: Context>(&mut self, cx: C, n: usize) -> Result<(), C::Error> {
        self.take(cx, n)?;
        forget_peeked(n);
        Ok(())
    }
    fn read_bytes<C, V>(&mut self, cx: C, n: usize, visitor: V) -> Result<V::Ok, V::Error>
    where
        C: Context,
        V: musli::de::UnsizedVisitor<'de, C, [u8], Error = C::Error, Allocator = C::Allocator>,
    {
        self.take(cx, n)?;
        forget_peeked(n);
        visitor.visit_borrowed(cx, &self.lend[..n])
    }
    unsafe fn read_bytes_uninit<C: Context>(&mut self, cx: C, ptr: *mut u8, n: usize) -> Result<(), C::Error> {
        self.take(cx, n)?;
        let mut i = 0;
        while i < n {
            ptr.add(i).write(any_byte());
            i += 1;
        }
        Ok(())
    }
    fn read<C: Context>(&mut self, cx: C, buf: &mut [u8]) -> Result<(), C::Error> {
        self.take(cx, buf.len())?;
        let mut i = 0;
        while i < buf.len() {
            buf[i] = any_byte();
            i += 1;
        }
        Ok(())
    }
    fn read_byte<C: Context>(&mut self, cx: C) -> Result<u8, C::Error> {
        self.take(cx, 1)?;
        Ok(any_byte())
    }
    fn read_array<C: Context, const N: usize>(&mut self, cx: C) -> Result<[u8; N], C::Error> {
        let mut buf = [0; N];
        self.read(cx, &mut buf)?;
        Ok(buf)
    }
    fn peek(&mut self) -> Option<u8> {
        if left() == 0 {
            return None;
        }
        let b = any_byte();
        unsafe { PEEKED = Some(b) }
        Some(b)
    }
}

impl musli::reader::VerifSealed for Havoc {}
