//! C02: options fix the layout.
use crate::support::*;
use musli::mode::Binary;

macro_rules! enc {
    ($m:ident, $o:expr) => {
        musli::$m::Encoding::new().with_options::<{ $o }>()
    };
}

// One harness per combination of the integer, length and byte order options:
// what each of them names is laid out as it says, whatever the others say.
macro_rules! storage_layout {
    ($name:ident, $fixed:literal, $ptr:literal, $big:literal) => {
        harness!($name, 20, {
            const ENC: musli::storage::Encoding<{ opt($fixed, $ptr, $big) }, Binary> =
                enc!(storage, opt($fixed, $ptr, $big));
            {
                let v: u32 = kani::any();
                let mut o = Out::<48>::new();
                o.s_int($fixed, $big, 4, v.raw(), v.zig());
                roundtrip!(ENC, u32, v, o);
            }
            {
                let v: i16 = kani::any();
                let mut o = Out::<48>::new();
                o.s_int($fixed, $big, 2, v.raw(), v.zig());
                roundtrip!(ENC, i16, v, o);
            }
            {
                let v: u32 = kani::any();
                let mut o = Out::<48>::new();
                o.s_int($fixed, $big, 4, v.raw(), v.zig());
                let b = ENC.to_fixed_bytes_with::<_, 48, _>(Cx, &f32::from_bits(v)).unwrap();
                assert!(o.is(b.as_slice()), "floats are laid out as integers of their width");
                let mut r = b.as_slice();
                let back: Result<f32, E> = ENC.decode_with(Cx, &mut r);
                assert!(back.unwrap().to_bits() == v);
            }
            {
                let v: usize = kani::any();
                let mut o = Out::<48>::new();
                let fits = o.s_len($ptr, $big, v);
                match ENC.to_fixed_bytes_with::<_, 48, _>(Cx, &v) {
                    Ok(b) => {
                        assert!(fits && o.is(b.as_slice()), "a length has its own width");
                        let mut r = b.as_slice();
                        let back: Result<usize, E> = ENC.decode_with(Cx, &mut r);
                        assert!(back == Ok(v) && r.is_empty());
                    }
                    Err(E) => assert!(!fits, "a length which fits is stored"),
                }
            }
        });
    };
}
storage_layout!(p_storage_v0_le, false, 0, false);
storage_layout!(pt_storage_v1_le, false, 1, false);
storage_layout!(pt_storage_v2_be, false, 2, true);
storage_layout!(pt_storage_v4_be, false, 4, true);
storage_layout!(pt_storage_v8_le, false, 8, false);
storage_layout!(pt_storage_v8_be, false, 8, true);
storage_layout!(pt_storage_f0_le, true, 0, false);
storage_layout!(p_storage_f0_be, true, 0, true);
storage_layout!(p_storage_f1_be, true, 1, true);
storage_layout!(p_storage_f2_le, true, 2, false);
storage_layout!(p_storage_f2_be, true, 2, true);
storage_layout!(p_storage_f4_le, true, 4, false);
storage_layout!(p_storage_f4_be, true, 4, true);
storage_layout!(p_storage_f8_le, true, 8, false);
storage_layout!(p_storage_f8_be, true, 8, true);

macro_rules! wire_layout {
    ($name:ident, $fixed:literal, $ptr:literal, $big:literal) => {
        harness!($name, 20, {
            const ENC: musli::wire::Encoding<{ opt($fixed, $ptr, $big) }, Binary> =
                enc!(wire, opt($fixed, $ptr, $big));
            {
                let v: u32 = kani::any();
                let mut o = Out::<48>::new();
                o.w_int($fixed, $big, 4, v.zig());
                roundtrip!(ENC, u32, v, o);
            }
            {
                let v: i16 = kani::any();
                let mut o = Out::<48>::new();
                o.w_int($fixed, $big, 2, v.zig());
                roundtrip!(ENC, i16, v, o);
            }
            {
                let v: u32 = kani::any();
                let mut o = Out::<48>::new();
                o.w_int($fixed, $big, 4, v.zig());
                let b = ENC.to_fixed_bytes_with::<_, 48, _>(Cx, &f32::from_bits(v)).unwrap();
                assert!(o.is(b.as_slice()), "floats are laid out as integers of their width");
                let mut r = b.as_slice();
                let back: Result<f32, E> = ENC.decode_with(Cx, &mut r);
                assert!(back.unwrap().to_bits() == v);
            }
            {
                let v: usize = kani::any();
                let mut o = Out::<48>::new();
                let fits = o.w_len($ptr, $big, v);
                match ENC.to_fixed_bytes_with::<_, 48, _>(Cx, &v) {
                    Ok(b) => {
                        assert!(fits && o.is(b.as_slice()), "a length has its own width");
                        let mut r = b.as_slice();
                        let back: Result<usize, E> = ENC.decode_with(Cx, &mut r);
                        assert!(back == Ok(v) && r.is_empty());
                    }
                    Err(E) => assert!(!fits, "a length which fits is stored"),
                }
            }
        });
    };
}
wire_layout!(p_wire_v0_be, false, 0, true);
wire_layout!(pt_wire_v1_le, false, 1, false);
wire_layout!(pt_wire_v2_be, false, 2, true);
wire_layout!(pt_wire_v4_be, false, 4, true);
wire_layout!(pt_wire_v8_be, false, 8, true);
wire_layout!(pt_wire_f0_le, true, 0, false);
wire_layout!(p_wire_f0_be, true, 0, true);
wire_layout!(p_wire_f1_be, true, 1, true);
wire_layout!(p_wire_f2_le, true, 2, false);
wire_layout!(p_wire_f2_be, true, 2, true);
wire_layout!(p_wire_f4_le, true, 4, false);
wire_layout!(p_wire_f4_be, true, 4, true);
wire_layout!(p_wire_f8_le, true, 8, false);
wire_layout!(p_wire_f8_be, true, 8, true);

// Every width of integer under fixed layouts.
macro_rules! storage_fixed {
    ($name:ident, $t:ty) => {
        harness!($name, 20, {
            const LE: musli::storage::Encoding<{ opt(true, 8, false) }, Binary> = enc!(storage, opt(true, 8, false));
            const BE: musli::storage::Encoding<{ opt(true, 8, true) }, Binary> = enc!(storage, opt(true, 8, true));
            // All three fixed: the native fast path.
            const NE: musli::storage::Encoding<{ FIXED_LE }, Binary> = enc!(storage, FIXED_LE);
            const NB: musli::storage::Encoding<{ FIXED_BE }, Binary> = enc!(storage, FIXED_BE);
            let v: $t = kani::any();
            let mut le = Out::<48>::new();
            le.fixed(v.raw(), <$t>::WIDTH, false);
            let mut be = Out::<48>::new();
            be.fixed(v.raw(), <$t>::WIDTH, true);
            roundtrip!(LE, $t, v, le);
            roundtrip!(BE, $t, v, be);
            roundtrip!(NE, $t, v, le);
            roundtrip!(NB, $t, v, be);
        });
    };
}
storage_fixed!(p_storage_fixed_u8, u8);
storage_fixed!(p_storage_fixed_u16, u16);
storage_fixed!(p_storage_fixed_u32, u32);
storage_fixed!(p_storage_fixed_u64, u64);
storage_fixed!(p_storage_fixed_u128, u128);
storage_fixed!(p_storage_fixed_usize, usize);
storage_fixed!(p_storage_fixed_i8, i8);
storage_fixed!(p_storage_fixed_i16, i16);
storage_fixed!(p_storage_fixed_i32, i32);
storage_fixed!(p_storage_fixed_i64, i64);
storage_fixed!(p_storage_fixed_i128, i128);
storage_fixed!(p_storage_fixed_isize, isize);

macro_rules! wire_fixed {
    ($name:ident, $t:ty, $image:expr) => {
        harness!($name, 20, {
            const LE: musli::wire::Encoding<{ FIXED_LE }, Binary> = enc!(wire, FIXED_LE);
            const BE: musli::wire::Encoding<{ FIXED_BE }, Binary> = enc!(wire, FIXED_BE);
            let v: $t = kani::any();
            let image: u128 = ($image)(v);
            let mut le = Out::<48>::new();
            le.w_int(true, false, <$t>::WIDTH, image);
            let mut be = Out::<48>::new();
            be.w_int(true, true, <$t>::WIDTH, image);
            roundtrip!(LE, $t, v, le);
            roundtrip!(BE, $t, v, be);
        });
    };
}
wire_fixed!(p_wire_fixed_u8, u8, |v: u8| v.zig());
wire_fixed!(p_wire_fixed_u16, u16, |v: u16| v.zig());
wire_fixed!(p_wire_fixed_u32, u32, |v: u32| v.zig());
wire_fixed!(p_wire_fixed_u64, u64, |v: u64| v.zig());
wire_fixed!(p_wire_fixed_u128, u128, |v: u128| v.zig());
wire_fixed!(p_wire_fixed_usize, usize, |v: usize| v.zig());
wire_fixed!(p_wire_fixed_i8, i8, |v: i8| v.raw());
wire_fixed!(p_wire_fixed_i16, i16, |v: i16| v.zig());
wire_fixed!(p_wire_fixed_i32, i32, |v: i32| v.zig());
wire_fixed!(p_wire_fixed_i64, i64, |v: i64| v.zig());
wire_fixed!(p_wire_fixed_i128, i128, |v: i128| v.zig());
wire_fixed!(p_wire_fixed_isize, isize, |v: isize| v.raw());

// A sequence of numbers is its length followed by each element's own bytes,
// whether or not it is copied in bulk.
macro_rules! bulk {
    ($name:ident, $t:ty, $n:literal, $opt:expr, $fixed:literal, $ptr:literal, $big:literal) => {
        harness!($name, 42, {
            const ENC: musli::storage::Encoding<{ $opt }, Binary> = enc!(storage, $opt);
            let mut v: [$t; $n] = kani::any();
            if !$fixed {
                v[0] = 200;
            }
            let mut o = Out::<48>::new();
            assert!(o.s_len($ptr, $big, $n));
            let mut i = 0;
            while i < $n {
                if <$t>::WIDTH == 1 {
                    o.push(v[i] as u8);
                } else {
                    o.s_int($fixed, $big, <$t>::WIDTH, v[i].raw(), v[i].zig());
                }
                i += 1;
            }
            roundtrip!(ENC, [$t; $n], v, o);
            let s: &[$t] = &v;
            let b = ENC.to_fixed_bytes_with::<_, 48, _>(Cx, s).unwrap();
            assert!(o.is(b.as_slice()), "the same for a slice");
            let mut r = b.as_slice();
            let back: Result<std::vec::Vec<$t>, E> = ENC.decode_with(Cx, &mut r);
            let back = back.unwrap();
            assert!(back.len() == $n && r.is_empty());
            let mut i = 0;
            while i < $n {
                assert!(back[i] == v[i], "the same for a vector");
                i += 1;
            }
        });
    };
}
bulk!(b_bulk_u16_native, u16, 3, FIXED_LE, true, 8, false);
bulk!(b_bulk_u16_foreign, u16, 3, FIXED_BE, true, 8, true);
bulk!(b_bulk_i32_native, i32, 2, FIXED_LE, true, 8, false);
bulk!(b_bulk_i32_foreign, i32, 2, FIXED_BE, true, 8, true);
bulk!(b_bulk_u64_foreign, u64, 2, FIXED_BE, true, 8, true);
bulk!(b_bulk_u128_native, u128, 2, FIXED_LE, true, 8, false);
bulk!(b_bulk_u8_native, u8, 4, FIXED_LE, true, 8, false);
bulk!(b_bulk_u32_fixed_varlen, u32, 2, opt(true, 0, false), true, 0, false);
bulk!(b_bulk_u32_fixed_len4, u32, 2, opt(true, 4, false), true, 4, false);

// A composite which is copied in bulk in the native layout holds exactly the
// bytes of its fields.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Encode, Decode)]
#[musli(crate = musli, packed)]
#[repr(C)]
pub struct Bits {
    a: u32,
    b: u32,
    c: u16,
    d: u16,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Encode, Decode)]
#[musli(crate = musli, packed)]
pub struct Holes {
    a: u8,
    b: u32,
    c: u16,
}

macro_rules! composite {
    ($name:ident, $opt:expr, $fixed:literal, $big:literal) => {
        harness!($name, 34, {
            const ENC: musli::storage::Encoding<{ $opt }, Binary> = enc!(storage, $opt);
            let mut v = Bits { a: kani::any(), b: kani::any(), c: kani::any(), d: kani::any() };
            if !$fixed {
                v.a = 300;
                v.b = 7;
                v.c = 70;
            }
            let mut o = Out::<48>::new();
            o.s_int($fixed, $big, 4, v.a.raw(), v.a.zig());
            o.s_int($fixed, $big, 4, v.b.raw(), v.b.zig());
            o.s_int($fixed, $big, 2, v.c.raw(), v.c.zig());
            o.s_int($fixed, $big, 2, v.d.raw(), v.d.zig());
            roundtrip!(ENC, Bits, v, o);
            let mut v = Holes { a: kani::any(), b: kani::any(), c: kani::any() };
            if !$fixed {
                v.b = 70000;
            }
            let mut o = Out::<48>::new();
            o.push(v.a);
            o.s_int($fixed, $big, 4, v.b.raw(), v.b.zig());
            o.s_int($fixed, $big, 2, v.c.raw(), v.c.zig());
            roundtrip!(ENC, Holes, v, o);
        });
    };
}
composite!(p_composite_native, FIXED_LE, true, false);
composite!(p_composite_foreign, FIXED_BE, true, true);
composite!(bt_composite_variable, VARIABLE, false, false);

// Lengths of byte strings under every width, at the boundary where the tag of
// the wire and descriptive formats stops carrying them.
macro_rules! length {
    ($name:ident, $ptr:literal, $big:literal) => {
        harness!($name, 20, {
            const O: Options = opt(true, $ptr, $big);
            const S: musli::storage::Encoding<{ O }, Binary> = enc!(storage, O);
            const W: musli::wire::Encoding<{ O }, Binary> = enc!(wire, O);
            const D: musli::descriptive::Encoding<{ O }, Binary> = enc!(descriptive, O);
            static DATA: [u8; 80] = [7; 80];
            let n = any_len(66);
            kani::assume(n >= 29 && n <= 32 || n >= 61);
            let s: musli::compat::Bytes<&[u8]> = musli::compat::Bytes(&DATA[..n]);
            macro_rules! one {
                ($e:expr, $head:expr) => {{
                    let head = $head;
                    let b = $e.to_fixed_bytes_with::<_, 100, _>(Cx, &s).unwrap();
                    let w = b.as_slice();
                    assert!(w.len() == head.n + n, "header and contents");
                    let mut i = 0;
                    while i < head.n {
                        assert!(w[i] == head.b[i], "exactly the specified header");
                        i += 1;
                    }
                    let mut r = w;
                    let back: Result<musli::compat::Bytes<&[u8]>, E> = $e.decode_with(Cx, &mut r);
                    let back = back.unwrap();
                    assert!(back.0.len() == n && r.is_empty(), "the length survives");
                }};
            }
            let mut h = Out::<12>::new();
            assert!(h.s_len($ptr, $big, n));
            one!(S, h);
            let mut h = Out::<12>::new();
            assert!(h.w_tag(PREFIX, $ptr, $big, n));
            one!(W, h);
            let mut h = Out::<12>::new();
            assert!(h.d_tag(0xa0, $ptr, $big, n));
            one!(D, h);
        });
    };
}
length!(pt_length_var, 0, false);
length!(pt_length_1, 1, false);
length!(p_length_2_be, 2, true);
length!(pt_length_4, 4, false);
length!(pt_length_8_be, 8, true);

// The option set itself: for every raw option set, every setter replaces its own
// field and leaves the others alone, so a builder means the last value set for
// each option in any order. What a field means is fixed by the layouts above.
macro_rules! lens {
    ($name:ident, $o:ident, $all:expr; $($set:ident)*) => {
        harness!($name, 2, {
            let $o = options::from_raw(kani::any());
            let all = $all;
            let base = $o.build();
            let (a, b) = (all.0, all.1);
            $(
                {
                    let once = Setter::$set(options::from_raw(base), b).build();
                    let twice = Setter::$set(Setter::$set(options::from_raw(base), a), b).build();
                    assert!(once == twice, "the value set last replaces the one before it");
                    let again = Setter::$set(options::from_raw(once), b).build();
                    assert!(again == once, "setting an option to what it is changes nothing");
                }
            )*
        });
    };
}

/// Which value is given to a setter, by number.
#[derive(Clone, Copy)]
pub struct Pick(u8);

pub struct Setter;
impl Setter {
    fn integer(b: options::Builder, p: Pick) -> options::Builder {
        b.integer(if p.0 & 1 == 0 { Integer::Variable } else { Integer::Fixed })
    }
    fn float(b: options::Builder, p: Pick) -> options::Builder {
        b.float(match p.0 % 3 {
            0 => Float::Integer,
            1 => Float::Variable,
            _ => Float::Fixed,
        })
    }
    fn byte_order(b: options::Builder, p: Pick) -> options::Builder {
        b.byte_order(if p.0 & 1 == 0 { ByteOrder::Little } else { ByteOrder::Big })
    }
    fn pointer(b: options::Builder, p: Pick) -> options::Builder {
        b.pointer(match p.0 % 5 {
            0 => Width::Variable,
            1 => Width::U8,
            2 => Width::U16,
            3 => Width::U32,
            _ => Width::U64,
        })
    }
    fn keys(b: options::Builder, _: Pick) -> options::Builder {
        b.map_keys_as_numbers()
    }
    fn fixed(b: options::Builder, _: Pick) -> options::Builder {
        b.fixed()
    }
    fn variable(b: options::Builder, _: Pick) -> options::Builder {
        b.variable()
    }
    fn nth(n: u8, b: options::Builder, p: Pick) -> options::Builder {
        match n {
            0 => Self::integer(b, p),
            1 => Self::float(b, p),
            2 => Self::byte_order(b, p),
            3 => Self::pointer(b, p),
            _ => Self::keys(b, p),
        }
    }
}

lens!(p_options_replace, o, (Pick(kani::any()), Pick(kani::any())); integer float byte_order pointer keys fixed variable);

harness!(p_options_commute, 2, {
    let base: Options = kani::any();
    let (m, n): (u8, u8) = (kani::any(), kani::any());
    kani::assume(m < 5 && n < 5 && m != n);
    let (p, q) = (Pick(kani::any()), Pick(kani::any()));
    let one = Setter::nth(n, Setter::nth(m, options::from_raw(base), p), q).build();
    let two = Setter::nth(m, Setter::nth(n, options::from_raw(base), q), p).build();
    assert!(one == two, "different options do not disturb each other");
    // the named combinations are what they abbreviate
    let f = options::from_raw(base).fixed().build();
    let g = options::from_raw(base).integer(Integer::Fixed).float(Float::Fixed).pointer(Width::NATIVE).build();
    assert!(f == g);
    let f = options::from_raw(base).variable().build();
    let g = options::from_raw(base).integer(Integer::Variable).float(Float::Variable).pointer(Width::Variable).build();
    assert!(f == g);
    let f = options::from_raw(base).native_byte_order().build();
    let g = options::from_raw(base).byte_order(ByteOrder::NATIVE).build();
    assert!(f == g);
    assert!(options::from_raw(base).build() == base);
});
