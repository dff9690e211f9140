//! C08: decoding hostile binary input is total. No panic, overflow or read out
//! of bounds is an obligation of every harness here (Kani generates one at every
//! such place of the code reached); what is stated is that a refused or accepted
//! input is accounted for within its bounds.
use crate::havoc::*;
use crate::support::*;
use musli::mode::Binary;

macro_rules! encs {
    ($m:ident, $le:ident, $be:ident, $v:ident, $p1:ident, $p2:ident) => {
        const $le: musli::$m::Encoding<{ FIXED_LE }, Binary> = musli::$m::Encoding::new().with_options::<{ FIXED_LE }>();
        const $be: musli::$m::Encoding<{ FIXED_BE }, Binary> = musli::$m::Encoding::new().with_options::<{ FIXED_BE }>();
        const $v: musli::$m::Encoding<{ VARIABLE }, Binary> = musli::$m::Encoding::new().with_options::<{ VARIABLE }>();
        const $p1: musli::$m::Encoding<{ opt(true, 1, false) }, Binary> =
            musli::$m::Encoding::new().with_options::<{ opt(true, 1, false) }>();
        const $p2: musli::$m::Encoding<{ opt(false, 2, true) }, Binary> =
            musli::$m::Encoding::new().with_options::<{ opt(false, 2, true) }>();
    };
}
encs!(storage, SLE, SBE, SV, SP1, SP2);
encs!(wire, WLE, WBE, WV, WP1, WP2);
encs!(descriptive, DLE, DBE, DV, DP1, DP2);

#[derive(Encode, Decode)]
#[musli(crate = musli)]
pub struct Named {
    a: u8,
    b: Option<u16>,
}

#[derive(Encode, Decode)]
#[musli(crate = musli, packed)]
pub struct Packed {
    a: u16,
    b: u8,
}

#[derive(Encode, Decode)]
#[musli(crate = musli)]
pub enum Choice {
    A,
    B(u8),
    C { x: u16 },
}

// Every input of up to N bytes, through the contract of `Reader`.
// Variable-length integers are read through the contract of their decoder, which
// C01 discharges: at least one byte is consumed, and any value or an error results.
macro_rules! total {
    ($name:ident, $u:literal, $n:literal, $t:ty, $($e:expr),*) => {
        #[cfg_attr(kani, kani::stub(musli::int::continuation::decode, any_varint))]
        #[cfg_attr(kani, kani::stub(musli::wire::VerifDecoder::skip_any, any_wire_skip))]
        #[cfg_attr(kani, kani::stub(musli::descriptive::VerifDecoder::skip_any, any_descriptive_skip))]
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($u))]
        pub fn $name() {
            $({
                let mut r = Havoc::new($n);
                let got: Result<$t, E> = $e.decode_with(Cx, &mut r);
                core::mem::forget(got);
            })*
            kani::cover!(true, "end of harness is reachable");
        }
    };
}
total!(b_storage_bytes, 10, 8, &[u8], SV, SLE);
total!(b_storage_seq_u8, 6, 4, Vec<u8>, SV);
// The bulk copy, which only slices take.
#[cfg_attr(kani, kani::stub(musli::int::continuation::decode, any_varint))]
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn b_storage_seq_bulk() {
    let data: [u8; 14] = kani::any();
    let mut r = &data[..any_len(14)];
    let got: Result<Vec<u16>, E> = SLE.decode_with(Cx, &mut r);
    core::mem::forget(got);
    kani::cover!(true, "end of harness is reachable");
}
total!(b_storage_seq_u16, 5, 3, Vec<u16>, SBE, SV);
total!(b_storage_named, 6, 4, Named, SV);
total!(b_storage_choice, 6, 4, Choice, SV);
total!(b_storage_packed, 6, 4, Packed, SLE, SV);
total!(b_storage_array, 6, 4, [u16; 2], SV);
total!(b_storage_tuple, 6, 4, (u16, Option<bool>), SV);
total!(b_storage_text, 8, 3, &str, SV);
total!(b_storage_char, 6, 4, char, SV, SBE);
total!(b_wire_bytes, 10, 8, &[u8], WV, WLE, WP1);
total!(b_wire_seq, 4, 2, Vec<u8>, WV);
total!(bt_wire_seq_3, 5, 3, Vec<u8>, WV);
total!(bt_wire_named, 4, 2, Named, WV);
total!(b_wire_choice, 4, 2, Choice, WV);
total!(bt_wire_choice_3, 5, 3, Choice, WV);
total!(b_wire_packed, 7, 5, Packed, WV);
total!(b_wire_array, 4, 2, [u16; 2], WV);
total!(b_wire_tuple, 4, 2, (u16, Option<bool>), WP2);
total!(b_wire_char, 6, 3, char, WV);
total!(b_descriptive_bytes, 10, 8, &[u8], DV, DLE, DP1);
total!(b_descriptive_seq, 4, 2, Vec<u8>, DV);
total!(bt_descriptive_seq_3, 5, 3, Vec<u8>, DV);
total!(bt_descriptive_named, 4, 2, Named, DV);
total!(b_descriptive_choice, 4, 2, Choice, DV);
total!(bt_descriptive_choice_3, 5, 3, Choice, DV);
total!(b_descriptive_packed, 7, 5, Packed, DV);
total!(b_descriptive_array, 4, 2, [u16; 2], DV);
total!(b_descriptive_tuple, 4, 2, (u16, Option<bool>), DP2);
total!(b_descriptive_char, 6, 3, char, DV);
