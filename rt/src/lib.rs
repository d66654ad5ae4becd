//! The parts of dice-runtime that compile at this commit, taken from /repo by symbolic links.
#![allow(warnings)]

pub mod module;
pub mod runtime;
pub mod type_id;
pub mod upvalue;
pub mod value;
