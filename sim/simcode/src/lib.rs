//! The simulated machine code: what SimLLVM emits, what "object files" and "shared libraries" contain, and what runs
//! when the code under test calls a compiled function.
//!
//! A compiled function is a slot in a table. Its address is a small real thunk that jumps to the interpreter with the
//! slot number, so the code under test calls it exactly as it calls machine code. The table knows whether the memory
//! behind a function has been given back: calling it after that, giving it back twice, or leaving it behind is a
//! recorded failure instead of undefined behaviour.

pub mod exec;
pub mod ir;
mod registry;

pub use registry::*;
