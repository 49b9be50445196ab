//! Bounded model checking harnesses for the parts of the library that work on plain data. Each
//! harness is compiled twice: by Kani, where every `any` is a symbolic value, and natively, where
//! `any` reads the values of a counterexample, so that a failure is replayed against the real build.
#![allow(clippy::all)]
#[macro_use]
mod mac;
pub mod nd;
pub mod container;
pub mod ffi;
pub mod fuzzy;
pub mod ser;

pub fn table() -> Vec<(&'static str, fn())> {
    [container::TABLE, ffi::TABLE, fuzzy::TABLE, ser::TABLE].concat()
}
