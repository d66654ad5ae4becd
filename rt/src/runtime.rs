//! Stands in for dice-runtime's runtime.rs, which does not compile at this commit: only what the parts under test take from it.

use crate::value::SymbolInterner;
use gc_arena::Mutation;

pub struct RuntimeContext<'gc> {
    pub mutation: &'gc Mutation<'gc>,
    pub interner: &'gc SymbolInterner,
}
