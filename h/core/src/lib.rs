//! Operation vocabulary, reference model and generators shared by all harnesses. `no_std`, no
//! allocation: it runs under every emulator.
#![no_std]
#![cfg_attr(portable_atomic_unstable_f16, feature(f16))]
#![cfg_attr(portable_atomic_unstable_f128, feature(f128))]
#![allow(clippy::all)]

#[cfg(not(target_pointer_width = "16"))]
pub mod fu;
#[cfg(not(target_pointer_width = "16"))]
pub mod gpin;
pub mod op;
#[cfg(not(target_pointer_width = "16"))]
pub mod ord;
pub mod real;
#[cfg(not(target_pointer_width = "16"))]
pub mod rep;
pub mod mir;
pub mod rng;
#[cfg(not(target_pointer_width = "16"))]
pub mod seq;
