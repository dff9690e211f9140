//! Contract harnesses over the public API of the crates in /repo.
//!
//! Every harness is one obligation bundle: it states the precondition with
//! `kani::assume`, calls the real function, and states the postcondition with
//! `assert!`. Naming: `p_*` is complete (full-domain symbolic inputs, loops
//! bounded by the width of the operand with unwinding assertions on), `b_*` is a
//! bounded stand-in (symbolic contents up to the length in its body), `pt_*` and
//! `bt_*` are the same but only run by the thorough command.
//!
//! Without `--cfg kani` the same functions are ordinary functions which draw
//! their inputs from a recorded byte stream: see `src/bin/replay.rs`.
#![allow(dead_code, unused_imports, unused_macros, unused_mut, unused_variables, clippy::all)]

#[cfg(not(kani))]
pub mod shim;
#[macro_use]
pub mod support;

pub mod registry;

#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c22")]
pub mod c22;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c26")]
pub mod c26;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c12")]
pub mod c12;
