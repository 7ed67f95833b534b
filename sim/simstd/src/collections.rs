//! Real collections, with the default hasher fixed so that iteration order depends on nothing but the contents.
pub use ::std::collections::*;
