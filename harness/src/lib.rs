//! Reference models and exhaustive explorers for Yet-Another-Rust-Parser.
pub mod fam;
pub mod gen;
pub mod gram;
pub mod mem;
pub mod misc;
pub mod par;
pub mod rx;
pub mod tok;
pub mod tokc;
pub mod util;

#[global_allocator]
static ALLOC: util::Guarded = util::Guarded;
