//! `std` with its sources of nondeterminism simulated. Everything else is the real thing.
#![allow(ambiguous_glob_reexports)]
pub use ::std::*;

pub mod collections;
pub mod env;
pub mod fs;
pub mod io;
pub mod os;
pub mod process;
pub mod sync;
pub mod thread;
pub mod time;
