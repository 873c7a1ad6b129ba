//! The parallel build with the real rayon.
#[path = "../../nshim/src/lib.rs"]
mod nshim;
