//! C12: escapes in JSON strings, function by function.
#[cfg(not(kani))]
use crate::support::kani;
use crate::support::{any_bytes, Context, Out, E};
use musli::alloc::Vec;
use musli::json::verif_string::{parse_escape, skip_escape};

/// Memory which satisfies the contract of `Alloc`: six elements, which are
/// there from the start.
pub struct Fix<T>([core::mem::MaybeUninit<T>; 6]);
impl<T> musli::alloc::Alloc<T> for Fix<T> {
    fn as_ptr(&self) -> *const T {
        self.0.as_ptr().cast()
    }
    fn as_mut_ptr(&mut self) -> *mut T {
        self.0.as_mut_ptr().cast()
    }
    fn capacity(&self) -> usize {
        6
    }
    fn resize(&mut self, len: usize, additional: usize) -> Result<(), musli::alloc::AllocError> {
        if len > 6 || additional > 6 - len {
            return Err(musli::alloc::AllocError);
        }
        Ok(())
    }
    fn try_merge<B>(&mut self, _: usize, other: B, _: usize) -> Result<(), B>
    where
        B: musli::alloc::Alloc<T>,
    {
        Err(other)
    }
}

#[derive(Clone, Copy)]
pub struct FixIn;
unsafe impl musli::Allocator for FixIn {
    const IS_SYSTEM: bool = false;
    type Alloc<T> = Fix<T>;
    fn alloc_empty<T>(self) -> Fix<T> {
        Fix([const { core::mem::MaybeUninit::uninit() }; 6])
    }
    fn alloc<T>(self, v: T) -> Result<Fix<T>, musli::alloc::AllocError> {
        let mut f = self.alloc_empty();
        f.0[0] = core::mem::MaybeUninit::new(v);
        Ok(f)
    }
}

/// As `support::Cx`, with the allocator above.
#[derive(Clone, Copy)]
pub struct Cx;
impl Context for Cx {
    type Error = E;
    type Mark = ();
    type Allocator = FixIn;
    fn clear(self) {}
    fn advance(self, _: usize) {}
    fn mark(self) {}
    fn restore(self, _: &()) {}
    fn alloc(self) -> FixIn {
        FixIn
    }
    fn custom<T>(self, _: T) -> E
    where
        T: 'static + Send + Sync + core::error::Error,
    {
        E
    }
    fn message<M>(self, _: M) -> E
    where
        M: core::fmt::Display,
    {
        E
    }
}

fn hex(b: u8) -> Option<u32> {
    match b {
        b'0'..=b'9' => Some((b - b'0') as u32),
        b'a'..=b'f' => Some((b - b'a' + 10) as u32),
        b'A'..=b'F' => Some((b - b'A' + 10) as u32),
        _ => None,
    }
}

fn hex4(s: &[u8], i: usize) -> Option<u32> {
    if i + 4 > s.len() {
        return None;
    }
    Some(hex(s[i])? << 12 | hex(s[i + 1])? << 8 | hex(s[i + 2])? << 4 | hex(s[i + 3])?)
}

/// The character which the escape behind a backslash stands for, and where it
/// ends.
fn escape(s: &[u8]) -> Option<(u32, usize)> {
    if s.is_empty() {
        return None;
    }
    match s[0] {
        b @ (b'"' | b'\\' | b'/') => Some((b as u32, 1)),
        b'b' => Some((8, 1)),
        b'f' => Some((12, 1)),
        b'n' => Some((10, 1)),
        b'r' => Some((13, 1)),
        b't' => Some((9, 1)),
        b'u' => {
            let c = hex4(s, 1)?;
            if c < 0xd800 || c > 0xdfff {
                return Some((c, 5));
            }
            if c >= 0xdc00 || s.len() < 7 || s[5] != b'\\' || s[6] != b'u' {
                return None;
            }
            let d = hex4(s, 7)?;
            if d < 0xdc00 || d > 0xdfff {
                return None;
            }
            Some((0x10000 + (c - 0xd800) * 0x400 + (d - 0xdc00), 11))
        }
        _ => None,
    }
}

fn push_char<const N: usize>(o: &mut Out<N>, c: u32) {
    if c < 0x80 {
        o.push(c as u8);
    } else if c < 0x800 {
        o.push(0xc0 | (c >> 6) as u8);
        o.push(0x80 | (c & 63) as u8);
    } else if c < 0x10000 {
        o.push(0xe0 | (c >> 12) as u8);
        o.push(0x80 | (c >> 6 & 63) as u8);
        o.push(0x80 | (c & 63) as u8);
    } else {
        o.push(0xf0 | (c >> 18) as u8);
        o.push(0x80 | (c >> 12 & 63) as u8);
        o.push(0x80 | (c >> 6 & 63) as u8);
        o.push(0x80 | (c & 63) as u8);
    }
}

/// Behind what is in the scratch space already, the character of the escape.
fn check(s: &[u8]) {
    let old: u8 = kani::any();
    let mut scratch = Vec::new_in(FixIn);
    assert!(scratch.push(old).is_ok());
    let (got, end) = parse_escape(Cx, s, 0, true, &mut scratch);
    match (got, escape(s)) {
        (Ok(done), Some((c, n))) => {
            assert!(done && end == n, "the escape was consumed");
            let mut o = Out::<5>::new();
            o.push(old);
            push_char(&mut o, c);
            let got: &[u8] = &scratch;
            assert!(o.is(got), "the character of the escape");
            kani::cover!(true, "a character");
        }
        (Err(_), None) => {}
        (Ok(_), None) => assert!(false, "accepted what is no escape of a character"),
        (Err(_), Some(_)) => assert!(false, "refused an escape"),
    }
}

fn check_skip(s: &[u8]) {
    let (got, end) = skip_escape(Cx, s, 0, true);
    match (got, escape(s)) {
        (Ok(()), Some((_, n))) => {
            assert!(end == n, "the escape was consumed");
        }
        (Err(_), None) => {}
        _ => assert!(false, "skipped exactly what is an escape"),
    }
}

// Everything which has no hexadecimal digits.
harness!(p_escape_short, 8, {
    let mut s: [u8; 2] = any_bytes();
    kani::assume(s[0] != b'u');
    check(&s);
    check_skip(&s);
});

// All hexadecimal escapes, and everything else which starts like one.
harness!(p_escape_hex, 8, {
    let h: [u8; 5] = any_bytes();
    let s = [b'u', h[0], h[1], h[2], h[3], h[4]];
    check(&s);
});

// All pairs, and everything else which starts like one.
harness!(p_escape_pair, 8, {
    let h: [u8; 9] = any_bytes();
    let s = [b'u', b'd', h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8]];
    check(&s);
});
harness!(p_escape_pair_upper, 8, {
    let h: [u8; 9] = any_bytes();
    let s = [b'u', b'D', h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8]];
    check(&s);
});

// As above, skipped.
harness!(p_skip_escape, 8, {
    let h: [u8; 10] = any_bytes();
    let s = [b'u', h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9]];
    check_skip(&s);
});

// Cut short anywhere.
macro_rules! cut {
    ($name:ident, $n:literal) => {
        harness!($name, 8, {
            let mut s: [u8; $n] = any_bytes();
            s[0] = b'u';
            assert!(escape(&s).is_none() || $n > 5);
            check_skip(&s);
            let mut scratch = Vec::new_in(FixIn);
            let (got, end) = parse_escape(Cx, &s, 0, true, &mut scratch);
            assert!(got.is_ok() == escape(&s).is_some() && end <= $n, "refused, in bounds");
        });
    };
}
cut!(p_cut1, 1);
cut!(p_cut4, 4);
cut!(p_cut6, 6);
cut!(p_cut8, 8);
cut!(p_cut10, 10);

// The contract of `core::str::from_utf8` for a caller: whether it accepts is up
// to what it is passed; what is returned is what was passed. `CHECKED` adds up
// what was.
static mut VALID: bool = true;
static mut CHECKED: usize = 0;

#[cfg(kani)]
fn from_utf8(v: &[u8]) -> Result<&str, core::str::Utf8Error> {
    unsafe {
        CHECKED += v.len();
        if VALID {
            Ok(core::str::from_utf8_unchecked(v))
        } else {
            Err(core::mem::transmute::<[u8; core::mem::size_of::<core::str::Utf8Error>()], _>(core::mem::zeroed()))
        }
    }
}

/// The string in `s`: its contents, where it ends, how many bytes of it are as
/// they were.
fn string<const N: usize>(s: &[u8]) -> Option<(Out<N>, usize, usize)> {
    let mut o = Out::new();
    let (mut i, mut raw) = (0, 0);
    while i < s.len() {
        match s[i] {
            b'"' => return Some((o, i + 1, raw)),
            0..=0x1f => return None,
            b'\\' => {
                let (c, n) = escape(&s[i + 1..])?;
                push_char(&mut o, c);
                i += 1 + n;
            }
            b => {
                o.push(b);
                raw += 1;
                i += 1;
            }
        }
    }
    None
}

macro_rules! parse {
    ($name:ident, $n:literal, $u:literal) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($u))]
        #[cfg_attr(kani, kani::stub(core::str::from_utf8, from_utf8))]
        pub fn $name() {
            let s: [u8; $n] = any_bytes();
            // Escapes in place: above.
            let mut scratch = Vec::new_in(FixIn);
            let want = string::<$n>(&s);
            #[cfg(kani)]
            let valid = kani::any();
            #[cfg(not(kani))]
            let valid = want.as_ref().map_or(true, |w| core::str::from_utf8(&w.0.b[..w.0.n]).is_ok());
            unsafe { (VALID, CHECKED) = (valid, 0) };
            let (got, end) = musli::json::verif_string::parse_string(Cx, &s, 0, true, &mut scratch);
            match (got, want) {
                (Ok(v), Some((want, n, raw))) => {
                    let v = match v {
                        musli::json::VerifStringReference::Borrowed(v) => {
                            assert!(raw + 1 == n && v.as_ptr() == s.as_ptr(), "what is borrowed is the input");
                            v.as_bytes()
                        }
                        musli::json::VerifStringReference::Scratch(v) => {
                            assert!(raw + 1 < n, "what has escapes");
                            v.as_bytes()
                        }
                    };
                    assert!(valid, "refused if not valid");
                    assert!(end == n, "the string was consumed");
                    assert!(want.is(v), "the characters the text denotes");
                    assert!(!cfg!(kani) || unsafe { CHECKED } == raw, "all of it was checked, once");
                    kani::cover!(true, "a string");
                }
                (Err(_), None) => {}
                (Ok(_), None) => assert!(false, "accepted what is no string"),
                (Err(_), Some(_)) => assert!(!valid, "refused a string"),
            }
            kani::cover!(true, "end of harness is reachable");
        }
    };
}
parse!(b_parse1, 1, 4);
parse!(b_parse2, 2, 4);
parse!(bt_parse3, 3, 5);
parse!(bt_parse4, 4, 6);
parse!(bt_parse5, 5, 7);
