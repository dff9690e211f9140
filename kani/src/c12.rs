//! C12: JSON strings. `core::str::from_utf8` is replaced by its specification.
#[cfg(not(kani))]
use crate::support::kani;
use crate::support::{any_bytes, Context, Decode, Encode, Out, E};
use core::fmt;
use musli::de::UnsizedVisitor;
use musli::json::Encoding;
use musli::mode::Text;

const JSON: Encoding<Text> = Encoding::new();

/// Well-formed UTF-8, by the table of the Unicode standard.
fn utf8(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        let at = |k: usize| if i + k < s.len() { s[i + k] } else { 0 };
        let cont = |k: usize| at(k) & 0xc0 == 0x80;
        i += match (at(0), at(1)) {
            (0x00..=0x7f, _) => 1,
            (0xc2..=0xdf, _) if cont(1) => 2,
            (0xe0, 0xa0..=0xbf) | (0xe1..=0xec | 0xee..=0xef, 0x80..=0xbf) | (0xed, 0x80..=0x9f) if cont(2) => 3,
            (0xf0, 0x90..=0xbf) | (0xf1..=0xf3, 0x80..=0xbf) | (0xf4, 0x80..=0x8f) if cont(2) && cont(3) => 4,
            _ => return false,
        };
    }
    true
}

#[cfg(kani)]
fn from_utf8(v: &[u8]) -> Result<&str, core::str::Utf8Error> {
    unsafe {
        if utf8(v) {
            Ok(core::str::from_utf8_unchecked(v))
        } else {
            // The error carries nothing which is looked at.
            Err(core::mem::transmute::<[u8; core::mem::size_of::<core::str::Utf8Error>()], _>(core::mem::zeroed()))
        }
    }
}

/// Memory which satisfies the contract of `Alloc`: twelve elements, which are
/// there from the start.
pub struct Fix<T>([core::mem::MaybeUninit<T>; 12]);
impl<T> musli::alloc::Alloc<T> for Fix<T> {
    fn as_ptr(&self) -> *const T {
        self.0.as_ptr().cast()
    }
    fn as_mut_ptr(&mut self) -> *mut T {
        self.0.as_mut_ptr().cast()
    }
    fn capacity(&self) -> usize {
        12
    }
    fn resize(&mut self, len: usize, additional: usize) -> Result<(), musli::alloc::AllocError> {
        if len > 12 || additional > 12 - len {
            return Err(musli::alloc::AllocError);
        }
        Ok(())
    }
    fn try_merge<B>(&mut self, _: usize, other: B, _: usize) -> Result<(), B>
    where
        B: musli::alloc::Alloc<T>,
    {
        Err(other)
    }
}

#[derive(Clone, Copy)]
pub struct FixIn;
unsafe impl musli::Allocator for FixIn {
    const IS_SYSTEM: bool = false;
    type Alloc<T> = Fix<T>;
    fn alloc_empty<T>(self) -> Fix<T> {
        Fix([const { core::mem::MaybeUninit::uninit() }; 12])
    }
    fn alloc<T>(self, v: T) -> Result<Fix<T>, musli::alloc::AllocError> {
        let mut f = self.alloc_empty();
        f.0[0] = core::mem::MaybeUninit::new(v);
        Ok(f)
    }
}

/// As `support::Cx`, with the allocator above.
#[derive(Clone, Copy)]
pub struct Cx;
impl Context for Cx {
    type Error = E;
    type Mark = ();
    type Allocator = FixIn;
    fn clear(self) {}
    fn advance(self, _: usize) {}
    fn mark(self) {}
    fn restore(self, _: &()) {}
    fn alloc(self) -> FixIn {
        FixIn
    }
    fn custom<T>(self, _: T) -> E
    where
        T: 'static + Send + Sync + core::error::Error,
    {
        E
    }
    fn message<M>(self, _: M) -> E
    where
        M: core::fmt::Display,
    {
        E
    }
}

macro_rules! with_utf8 {
    ($name:ident, $u:literal, $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($u))]
        #[cfg_attr(kani, kani::stub(core::str::from_utf8, from_utf8))]
        pub fn $name() {
            $body;
            kani::cover!(true, "end of harness is reachable");
        }
    };
}

fn hex(b: u8) -> Option<u32> {
    match b {
        b'0'..=b'9' => Some((b - b'0') as u32),
        b'a'..=b'f' => Some((b - b'a' + 10) as u32),
        b'A'..=b'F' => Some((b - b'A' + 10) as u32),
        _ => None,
    }
}

fn hex4(s: &[u8], i: usize) -> Option<u32> {
    if i + 4 > s.len() {
        return None;
    }
    Some(hex(s[i])? << 12 | hex(s[i + 1])? << 8 | hex(s[i + 2])? << 4 | hex(s[i + 3])?)
}

/// What an escape without hexadecimal digits stands for.
fn simple(b: u8) -> Option<u8> {
    Some(match b {
        b'"' | b'\\' | b'/' => b,
        b'b' => 8,
        b'f' => 12,
        b'n' => 10,
        b'r' => 13,
        b't' => 9,
        _ => return None,
    })
}

fn push_char<const N: usize>(o: &mut Out<N>, c: u32) {
    if c < 0x80 {
        o.push(c as u8);
    } else if c < 0x800 {
        o.push(0xc0 | (c >> 6) as u8);
        o.push(0x80 | (c & 63) as u8);
    } else if c < 0x10000 {
        o.push(0xe0 | (c >> 12) as u8);
        o.push(0x80 | (c >> 6 & 63) as u8);
        o.push(0x80 | (c & 63) as u8);
    } else {
        o.push(0xf0 | (c >> 18) as u8);
        o.push(0x80 | (c >> 12 & 63) as u8);
        o.push(0x80 | (c >> 6 & 63) as u8);
        o.push(0x80 | (c & 63) as u8);
    }
}

/// The string at the start of `s`: its length with quotes, and its contents.
pub fn string<const N: usize>(s: &[u8]) -> Option<(usize, Out<N>)> {
    let mut o = Out::new();
    if s.len() == 0 || s[0] != b'"' {
        return None;
    }
    let (mut i, mut raw) = (1, 1);
    while i < s.len() {
        match s[i] {
            b'"' => return if utf8(&s[raw..i]) { Some((i + 1, o)) } else { None },
            0..=0x1f => return None,
            b'\\' => {
                if i + 1 == s.len() || !utf8(&s[raw..i]) {
                    return None;
                }
                if s[i + 1] == b'u' {
                    let mut c = hex4(s, i + 2)?;
                    i += 6;
                    if c >= 0xdc00 && c < 0xe000 {
                        return None;
                    }
                    if c >= 0xd800 && c < 0xdc00 {
                        if i + 6 > s.len() || s[i] != b'\\' || s[i + 1] != b'u' {
                            return None;
                        }
                        let d = hex4(s, i + 2)?;
                        if d < 0xdc00 || d >= 0xe000 {
                            return None;
                        }
                        i += 6;
                        c = 0x10000 + ((c - 0xd800) << 10 | (d - 0xdc00));
                    }
                    push_char(&mut o, c);
                } else {
                    o.push(simple(s[i + 1])?);
                    i += 2;
                }
                raw = i;
            }
            b => {
                o.push(b);
                i += 1;
            }
        }
    }
    None
}

/// Some text, up to twelve bytes.
#[derive(Clone, Copy)]
pub struct Short {
    b: [u8; 12],
    n: usize,
}

#[musli::de::unsized_visitor]
impl<C> UnsizedVisitor<'_, C, str> for Short
where
    C: Context,
{
    type Ok = Short;

    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("text")
    }

    fn visit_ref(mut self, cx: C, s: &str) -> Result<Self::Ok, C::Error> {
        let s = s.as_bytes();
        if s.len() > 12 {
            return Err(cx.message("long"));
        }
        self.n = s.len();
        let mut i = 0;
        while i < s.len() {
            self.b[i] = s[i];
            i += 1;
        }
        Ok(self)
    }
}

impl<'de, M: 'static, A> Decode<'de, M, A> for Short
where
    A: musli::Allocator,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(d: D) -> Result<Self, D::Error>
    where
        D: musli::Decoder<'de, Mode = M, Allocator = A>,
    {
        d.decode_string(Short { b: [0; 12], n: 0 })
    }
}

impl<M> Encode<M> for Short {
    const IS_BITWISE_ENCODE: bool = false;
    type Encode = Self;
    fn encode<E>(&self, e: E) -> Result<(), E::Error>
    where
        E: musli::Encoder<Mode = M>,
    {
        // Only made of well-formed text.
        e.encode_string(unsafe { core::str::from_utf8_unchecked(&self.b[..self.n]) })
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

/// Decoding `s` yields exactly the string it is, and is refused where it is none.
fn check(s: &[u8]) {
    let want = string::<12>(s);
    let got: Result<Short, E> = JSON.decode_with(Cx, s);
    match (got, want) {
        (Ok(v), Some((_, want))) => {
            assert!(want.is(&v.b[..v.n]), "the characters the text denotes");
            reachable!("accepted");
        }
        (Err(_), None) => {
            reachable!("refused");
        }
        (Ok(_), None) => assert!(false, "accepted what is no string"),
        (Err(_), Some(_)) => assert!(false, "refused a string"),
    }
}

// All texts of a length.
macro_rules! text {
    ($name:ident, $n:literal, $u:literal) => {
        with_utf8!($name, $u, {
            let mut s: [u8; $n] = any_bytes();
            s[0] = b'"';
            check(&s);
        });
    };
}
text!(bt_text3, 3, 5);
text!(bt_text4, 4, 6);
text!(bt_text5, 5, 7);
text!(bt_text6, 6, 8);
text!(bt_text7, 7, 9);

// Every escape in between of other characters.
with_utf8!(p_escape, 6, {
    let mut s = *b"\"a\\bc\"";
    s[3] = kani::any();
    kani::assume(s[3] != b'u');
    check(&s);
});

// Every hexadecimal escape.
with_utf8!(pt_escape_hex, 10, {
    let h: [u8; 4] = any_bytes();
    let s = [b'"', b'\\', b'u', h[0], h[1], h[2], h[3], b'"'];
    let got: Result<Short, E> = JSON.decode_with(Cx, &s[..]);
    let c = hex4(&s, 3).filter(|c| *c < 0xd800 || *c > 0xdfff);
    match got {
        Ok(v) => {
            let mut o = Out::<4>::new();
            assert!(c.is_some(), "not a character");
            push_char(&mut o, c.unwrap());
            assert!(o.is(&v.b[..v.n]), "the character of the escape");
            reachable!("accepted");
        }
        Err(_) => assert!(c.is_none(), "refused a character"),
    }
});

// Every pair of hexadecimal escapes, where the first half is a surrogate.
with_utf8!(pt_escape_pair, 6, {
    let (h, l): ([u8; 3], [u8; 4]) = (any_bytes(), any_bytes());
    let d = if kani::any() { b'd' } else { b'D' };
    kani::assume(matches!(h[0], b'8' | b'9' | b'a' | b'b' | b'A' | b'B'));
    let s = [b'"', b'\\', b'u', d, h[0], h[1], h[2], b'\\', b'u', l[0], l[1], l[2], l[3], b'"'];
    let got: Result<Short, E> = JSON.decode_with(Cx, &s[..]);
    let c = hex4(&s, 3).and_then(|h| Some((h, hex4(&s, 9).filter(|l| *l >= 0xdc00 && *l < 0xe000)?)));
    match got {
        Ok(v) => {
            let mut o = Out::<4>::new();
            assert!(c.is_some(), "a lone surrogate");
            let (h, l) = c.unwrap();
            push_char(&mut o, 0x10000 + (h - 0xd800) * 0x400 + (l - 0xdc00));
            assert!(o.is(&v.b[..v.n]), "the character of the pair");
            reachable!("accepted");
        }
        Err(_) => assert!(c.is_none(), "refused a character"),
    }
});

// What follows a leading surrogate is the escape of a trailing one.
with_utf8!(pt_escape_lone, 8, {
    let mut s = *b"\"\\ud800\\udc00\"";
    s[7] = kani::any();
    s[8] = kani::any();
    let got: Result<Short, E> = JSON.decode_with(Cx, &s[..]);
    assert!(got.is_ok() == (s[7] == b'\\' && s[8] == b'u'), "a lone surrogate");
});
with_utf8!(pt_escape_lone_end, 8, {
    let mut s = *b"\"\\ud800\"";
    s[3] = kani::any();
    s[7] = kani::any();
    let got: Result<Short, E> = JSON.decode_with(Cx, &s[..]);
    assert!(got.is_err() || s[3] != b'd' && s[3] != b'D', "a lone surrogate");
});

/// The text a string is written as.
fn written<const N: usize>(s: &[u8]) -> Out<N> {
    let mut o = Out::new();
    o.push(b'"');
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        let e = match b {
            b'"' | b'\\' => b,
            8 => b'b',
            9 => b't',
            10 => b'n',
            12 => b'f',
            13 => b'r',
            _ => 0,
        };
        if e != 0 {
            o.push(b'\\');
            o.push(e);
        } else if b < 0x20 {
            o.bytes(b"\\u00");
            o.push(b'0' + (b >> 4));
            let l = b & 15;
            o.push(if l < 10 { b'0' + l } else { b'a' + l - 10 });
        } else {
            o.push(b);
        }
        i += 1;
    }
    o.push(b'"');
    o
}

// Every string of a few characters: what it is written as, which parses back.
macro_rules! format {
    ($name:ident, $n:literal, $u:literal) => {
        with_utf8!($name, $u, {
            let mut v = Short { b: [0; 12], n: $n };
            let mut i = 0;
            while i < $n {
                v.b[i] = kani::any();
                i += 1;
            }
            kani::assume(utf8(&v.b[..$n]));
            let mut out = [0u8; 26];
            let n = JSON.to_slice_with(Cx, &mut out, &v).unwrap();
            assert!(written::<26>(&v.b[..$n]).is(&out[..n]), "written as the string with escapes");
        });
    };
}
format!(b_format0, 0, 10);
format!(b_format1, 1, 10);
format!(b_format2, 2, 16);
format!(b_format3, 3, 22);
format!(bt_format4, 4, 28);

// Every character is written as the string of it is.
macro_rules! character {
    ($name:ident, $from:literal ..= $to:literal, $u:literal) => {
        with_utf8!($name, $u, {
            let c: char = kani::any();
            kani::assume(c as u32 >= $from && c as u32 <= $to);
            let mut out = [0u8; 10];
            let n = JSON.to_slice_with(Cx, &mut out, &c).unwrap();
            let mut o = Out::<4>::new();
            push_char(&mut o, c as u32);
            assert!(written::<10>(&o.b[..o.n]).is(&out[..n]), "written as the string with escapes");
        });
    };
}
character!(p_char1, 0 ..= 0x7f, 12);
character!(pt_char2, 0x80 ..= 0x7ff, 12);
character!(pt_char3, 0x800 ..= 0xffff, 12);
character!(p_char4, 0x10000 ..= 0x10ffff, 12);

// A string is no single character.
with_utf8!(pt_char_more, 8, {
    let a: u8 = kani::any();
    kani::assume(a >= 0x20 && a < 0x80 && a != b'"' && a != b'\\');
    let got: Result<char, E> = JSON.decode_with(Cx, &[b'"', b'x', a, b'"'][..]);
    assert!(got.is_err());
    let got: Result<char, E> = JSON.decode_with(Cx, &[b'"', b'"', a][..]);
    assert!(got.is_err());
});

/// An object of one entry.
struct Entry(Short);
impl<M> Encode<M> for Entry {
    const IS_BITWISE_ENCODE: bool = false;
    type Encode = Self;
    fn encode<E>(&self, e: E) -> Result<(), E::Error>
    where
        E: musli::Encoder<Mode = M>,
    {
        use musli::en::MapEncoder;
        e.encode_map_fn(1, |m| m.insert_entry(self.0, true))
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M: 'static, A> Decode<'de, M, A> for Entry
where
    A: musli::Allocator,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(d: D) -> Result<Self, D::Error>
    where
        D: musli::Decoder<'de, Mode = M, Allocator = A>,
    {
        use musli::de::{EntryDecoder, MapDecoder};
        d.decode_map(|m| {
            let Some(mut e) = m.decode_entry()? else {
                return Err(m.cx().message("no entry"));
            };
            let k = Short::decode(e.decode_key()?)?;
            musli::Decoder::skip(e.decode_value()?)?;
            Ok(Entry(k))
        })
    }
}

// Keys of objects are strings as all others.
with_utf8!(bt_key_format, 26, {
    let mut v = Short { b: [0; 12], n: 2 };
    v.b[0] = kani::any();
    v.b[1] = kani::any();
    kani::assume(utf8(&v.b[..2]));
    let mut out = [0u8; 24];
    let n = JSON.to_slice_with(Cx, &mut out, &Entry(v)).unwrap();
    let key = written::<20>(&v.b[..2]);
    let mut o = Out::<24>::new();
    o.push(b'{');
    o.bytes(&key.b[..key.n]);
    o.bytes(b":true}");
    assert!(o.is(&out[..n]), "written as the string with escapes");
});
with_utf8!(bt_key, 8, {
    let (a, b, c): (u8, u8, u8) = (kani::any(), kani::any(), kani::any());
    let s = [b'{', b'"', a, b, c, b'"', b':', b'0', b'}'];
    kani::assume(a != b'"' && b != b'"' && c != b'\\' && c != b'"');
    let want = string::<12>(&s[1..6]);
    let got: Result<Entry, E> = JSON.decode_with(Cx, &s[..]);
    match (got, want) {
        (Ok(v), Some((_, want))) => assert!(want.is(&v.0.b[..v.0.n]), "the characters the text denotes"),
        (Err(_), None) => {}
        _ => assert!(false, "accepted exactly the strings"),
    }
});

// From a reader of a slice: exactly the string is consumed.
macro_rules! consumed {
    ($name:ident, $n:literal, $u:literal) => {
        with_utf8!($name, $u, {
            let mut s: [u8; $n] = any_bytes();
            s[0] = b'"';
            let mut r = &s[..];
            let got: Result<Short, E> = JSON.decode_with(Cx, &mut r);
            match (got, string::<12>(&s)) {
                (Ok(v), Some((n, want))) => {
                    assert!(want.is(&v.b[..v.n]), "the characters the text denotes");
                    assert!(r.len() == $n - n && r.as_ptr() == s.as_ptr().wrapping_add(n), "the string was consumed");
                }
                (Err(_), None) => {}
                _ => assert!(false, "accepted exactly the strings"),
            }
        });
    };
}
consumed!(bt_consumed4, 4, 6);
consumed!(bt_consumed5, 5, 7);

// A string without escapes is borrowed from the input.
with_utf8!(bt_borrow, 6, {
    let s: [u8; 5] = any_bytes();
    if let Ok(v) = JSON.decode_with::<_, _, &str>(Cx, &s[..]) {
        assert!(v.as_ptr() as usize > s.as_ptr() as usize);
        assert!(v.as_ptr() as usize + v.len() < s.as_ptr() as usize + 5, "inside of the quotes");
        assert!(utf8(v.as_bytes()), "well-formed");
        reachable!("borrowed");
    }
});
