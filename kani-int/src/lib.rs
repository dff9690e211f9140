//! Contract harnesses which need items that are private to the crates in /repo:
//! built with `--cfg musli_verif`, which turns on the hooks there. Otherwise as
//! ../kani.
#![allow(dead_code, unused_imports, unused_macros, unused_mut, unused_variables, clippy::all)]

#[cfg(not(kani))]
#[path = "../../kani/src/shim.rs"]
pub mod shim;
#[macro_use]
#[path = "../../kani/src/support.rs"]
pub mod support;
pub mod havoc;

pub mod registry;
#[cfg(any(feature = "c16", feature = "c18", feature = "c19", feature = "c20", feature = "c21"))]
pub mod zc;

#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c25")]
pub mod c25;
#[cfg(feature = "c11")]
pub mod c11;
