//! Environment stub for `clap`: the parsed options come from the harness.
pub use clap_macros::{Args, Parser, Subcommand, ValueEnum};
pub trait Parser: Sized { fn parse() -> Self; }
pub trait ValueEnum {}
pub trait Subcommand {}
pub trait Args {}
