//! C13: parsing and skipping any JSON text. The position of the reader shows
//! what was consumed.
use crate::support::*;
use musli::json::Encoding;
use musli::mode::Text;

const JSON: Encoding<Text> = Encoding::new();

/// Skips a value.
pub struct Any;
impl<'de, M, A> Decode<'de, M, A> for Any
where
    A: musli::Allocator,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(d: D) -> Result<Self, D::Error>
    where
        D: musli::Decoder<'de, Mode = M, Allocator = A>,
    {
        d.skip()?;
        Ok(Any)
    }
}

fn byte(s: &[u8], i: usize) -> u8 {
    if i < s.len() {
        s[i]
    } else {
        0
    }
}

fn white(s: &[u8], mut i: usize) -> usize {
    while matches!(byte(s, i), b' ' | b'\t' | b'\r' | b'\n') {
        i += 1;
    }
    i
}

fn digits(s: &[u8], mut i: usize) -> usize {
    while byte(s, i).is_ascii_digit() {
        i += 1;
    }
    i
}

fn is(s: &[u8], i: usize, what: &[u8]) -> bool {
    let mut k = 0;
    while k < what.len() {
        if byte(s, i + k) != what[k] {
            return false;
        }
        k += 1;
    }
    true
}

/// Where the scalar which starts at `i` ends, by the grammar of JSON, for as
/// long a match as there is. Text is not checked to be UTF-8.
fn scalar(s: &[u8], i: usize) -> Option<usize> {
    match byte(s, i) {
        b'n' if is(s, i, b"null") => Some(i + 4),
        b't' if is(s, i, b"true") => Some(i + 4),
        b'f' if is(s, i, b"false") => Some(i + 5),
        b'"' => string(s, i),
        b'-' | b'0'..=b'9' => number(s, i),
        _ => None,
    }
}

fn number(s: &[u8], mut i: usize) -> Option<usize> {
    if byte(s, i) == b'-' {
        i += 1;
    }
    i = match byte(s, i) {
        b'0' => i + 1,
        b'1'..=b'9' => digits(s, i),
        _ => return None,
    };
    if byte(s, i) == b'.' {
        let n = digits(s, i + 1);
        if n == i + 1 {
            return None;
        }
        i = n;
    }
    if matches!(byte(s, i), b'e' | b'E') {
        let mut k = i + 1;
        if matches!(byte(s, k), b'+' | b'-') {
            k += 1;
        }
        let n = digits(s, k);
        if n == k {
            return None;
        }
        i = n;
    }
    Some(i)
}

fn string(s: &[u8], mut i: usize) -> Option<usize> {
    i += 1;
    while i < s.len() {
        match s[i] {
            b'"' => return Some(i + 1),
            0..=0x1f => return None,
            b'\\' => match byte(s, i + 1) {
                b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => i += 2,
                // Hexadecimal escapes: C12.
                _ => return None,
            },
            _ => i += 1,
        }
    }
    None
}

/// Skip what is at the start of `s`: where it ends.
fn skip(s: &[u8]) -> Option<usize> {
    let mut r = s;
    let got: Result<Any, E> = JSON.decode_with(Cx, &mut r);
    let n = s.len() - r.len();
    assert!(r.len() <= s.len() && r.as_ptr() == s.as_ptr().wrapping_add(n), "a suffix is left");
    got.ok().map(|_| n)
}

fn check(s: &[u8], want: Option<usize>) {
    let got = skip(s);
    if let Some(want) = want {
        assert!(got == Some(want), "exactly the value was consumed");
        reachable!("a value");
    }
}

// Any text at all which is no array and no object: those are below.
macro_rules! text {
    ($name:ident, $n:literal, $u:literal) => {
        harness!($name, $u, {
            let s: [u8; $n] = any_bytes();
            let i = white(&s, 0);
            kani::assume(!matches!(byte(&s, i), b'[' | b'{'));
            check(&s, scalar(&s, i));
        });
    };
}
text!(bt_text2, 2, 8);
text!(bt_text3, 3, 8);
text!(bt_text4, 4, 8);
text!(bt_text5, 5, 8);

// Numbers and strings, by what they start with.
macro_rules! from {
    ($name:ident, $n:literal, $first:literal, $u:literal) => {
        harness!($name, $u, {
            let mut s: [u8; $n] = any_bytes();
            s[0] = $first;
            check(&s, scalar(&s, 0));
        });
    };
}
from!(b_zero, 5, b'0', 7);
from!(b_digit, 4, b'1', 6);
from!(b_minus, 4, b'-', 6);
from!(b_string3, 3, b'"', 5);
from!(b_string4, 4, b'"', 6);
from!(bt_digit6, 6, b'9', 8);
from!(bt_minus6, 6, b'-', 8);
from!(bt_string5, 5, b'"', 7);

// Altered and truncated literals.
macro_rules! literal {
    ($name:ident, $text:literal) => {
        harness!($name, 8, {
            let mut at = 1;
            while at < $text.len() {
                let mut s = *$text;
                s[at] = kani::any();
                let ok = s[at] == $text[at];
                let got = skip(&s);
                assert!(got == if ok { Some($text.len()) } else { None }, "the literal, or refused");
                assert!(skip(&$text[..at]).is_none(), "cut short");
                at += 1;
            }
            let mut s = [kani::any(); $text.len() + 1];
            s[..$text.len()].copy_from_slice($text);
            assert!(skip(&s) == Some($text.len()), "no further");
        });
    };
}
literal!(p_null, b"null");
literal!(p_true, b"true");
literal!(p_false, b"false");

/// A template: `?` stands for any byte.
fn fill<const N: usize>(t: &[u8; N]) -> [u8; N] {
    let mut s = *t;
    let mut i = 0;
    while i < N {
        if t[i] == b'?' {
            s[i] = kani::any();
        }
        i += 1;
    }
    s
}

// Strings with brackets and quotes in them, inside of composites: two bytes of
// a string do not matter to where the composite ends.
macro_rules! nested_string {
    ($name:ident, $text:literal, $at:literal, $u:literal) => {
        harness!($name, $u, {
            let s = fill($text);
            let end = string(&s, $at);
            // The string is as long as it looks.
            kani::assume(end == Some($at + 4));
            check(&s, Some(s.len() - 1));
        });
    };
}
nested_string!(bt_array_string, b"[\"??\"]]", 1, 9);
nested_string!(bt_object_string, b"{\"a\":\"??\"}}", 5, 13);
nested_string!(bt_object_key, b"{\"??\":0}}", 1, 11);

// Composites of known structure: the byte at a literal which is altered decides
// whether there is a value, and the composite ends where it ends.
macro_rules! nested {
    ($name:ident, $text:literal, $at:literal, $u:literal) => {
        harness!($name, $u, {
            let mut s = *$text;
            s[$at] = kani::any();
            let ok = s[$at] == $text[$at];
            let got = skip(&s);
            assert!(got == if ok { Some(s.len() - 1) } else { None }, "exactly the value, or refused");
        });
    };
}
nested!(b_array1, b"[null]]", 2, 9);
nested!(b_array2, b"[ 1 , true\n] ", 8, 9);
nested!(b_array_array, b"[[],[1 ],[],null]]", 13, 9);
nested!(bt_array_array, b"[[],[null ],[]]]", 7, 9);
nested!(b_object1, b"{\"\":false}}", 6, 9);
nested!(b_object2, b"{\"a\" : 1 , \"b\":null } ", 18, 9);
nested!(b_object_array, b"{\"a\":[{},{\"c\":1}],\"\":true}]", 23, 9);
nested!(bt_object_array, b"{\"a\":[{},{\"c\":true}]}]", 17, 9);
nested!(b_array_object, b"[{\"\":[]},{},null]]", 14, 9);

// Anything: total, and in bounds.
macro_rules! open {
    ($name:ident, $text:literal, $u:literal) => {
        harness!($name, $u, {
            let s = fill($text);
            skip(&s);
        });
    };
}
open!(bt_array_open, b"[???", 8);
open!(bt_object_open, b"{\"\":??", 9);

// Nothing at all.
harness!(p_empty, 4, {
    assert!(skip(b"").is_none());
    assert!(skip(b" ").is_none());
    assert!(skip(b"[").is_none() && skip(b"{").is_none());
});

// Typed decoding of any text: total.
macro_rules! total {
    ($name:ident, $t:ty, $text:literal, $u:literal) => {
        harness!($name, $u, {
            let s = fill($text);
            let got: Result<$t, E> = JSON.decode_with(Cx, &s[..]);
            match got {
                Ok(v) => core::mem::forget(v),
                Err(E) => {}
            }
        });
    };
}
total!(b_total_bool, bool, b"?????", 8);
total!(b_total_option, Option<bool>, b"?????", 8);
total!(bt_total_unit, (), b"???", 8);
total!(bt_total_char, char, b"\"??", 8);
total!(bt_total_pair, (bool, bool), b"[true?????", 12);
total!(bt_total_array, Bytes<2>, b"[?,?,?]", 9);
total!(bt_total_array_short, Bytes<2>, b"[?]", 9);
total!(bt_total_vec, Vec<u8>, b"[?,?]", 9);
total!(bt_total_f32, f32, b"???", 8);
total!(bt_total_f64, f64, b"???", 8);

/// An array of bytes.
pub struct Bytes<const N: usize>([u8; N]);
impl<'de, M, A, const N: usize> Decode<'de, M, A> for Bytes<N>
where
    A: musli::Allocator,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(d: D) -> Result<Self, D::Error>
    where
        D: musli::Decoder<'de, Mode = M, Allocator = A>,
    {
        Ok(Self(d.decode_array::<N>()?))
    }
}

// An array of bytes has exactly as many elements as there are.
harness!(bt_array_exact, 9, {
    let s = fill(b"[?,?]");
    kani::assume(s[1].is_ascii_digit() && s[3].is_ascii_digit());
    let got: Result<Bytes<2>, E> = JSON.decode_with(Cx, &s[..]);
    assert!(got.unwrap().0 == [s[1] - b'0', s[3] - b'0']);
    assert!(JSON.decode_with::<_, _, Bytes<1>>(Cx, &s[..]).is_err());
    assert!(JSON.decode_with::<_, _, Bytes<3>>(Cx, &s[..]).is_err());
});

// As many as there are, however many are wanted.
macro_rules! elements {
    ($name:ident, $text:literal, $have:literal, $($n:literal),*) => {
        harness!($name, 9, {
            $(
                let got: Result<Bytes<$n>, E> = JSON.decode_with(Cx, &$text[..]);
                assert!(got.is_ok() == ($n == $have), "all of them, or refused");
            )*
        });
    };
}
elements!(b_array_len0, b"[]", 0, 0, 1, 2);
elements!(b_array_len1, b"[7]", 1, 0, 1, 2);
elements!(b_array_len2, b"[7,8]", 2, 0, 1, 2, 3);
elements!(b_array_len3, b"[7,8,9]", 3, 1, 2, 3);
