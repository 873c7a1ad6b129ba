#![no_std]
#[path = "../../shim/src/lib.rs"]
mod shim;
