//! Native entry points used to replay counterexamples and to validate the encoding.
//! Every function returns 0 on success and 1 when the real code panicked.
use std::panic::{catch_unwind, AssertUnwindSafe};
use texpresso::*;
fn fmt(f: u32) -> Format { match f { 1 => Format::Bc1, 2 => Format::Bc2, 3 => Format::Bc3, 4 => Format::Bc4, _ => Format::Bc5 } }
fn par(alg: u32, wba: u32, w: [f32; 3]) -> Params {
    Params { algorithm: match alg { 0 => Algorithm::RangeFit, 1 => Algorithm::ClusterFit, _ => Algorithm::IterativeClusterFit }, weights: w, weigh_colour_by_alpha: wba != 0 }
}
fn guard<F: FnOnce()>(f: F) -> u32 {
    std::panic::set_hook(Box::new(|_| {}));
    if catch_unwind(AssertUnwindSafe(f)).is_ok() { 0 } else { 1 }
}
#[no_mangle]
pub unsafe extern "C" fn n_decode(f: u32, block: *const u8, len: usize, out: *mut [[u8; 4]; 16]) -> u32 {
    guard(|| *out = fmt(f).decompress_block(core::slice::from_raw_parts(block, len)))
}
#[no_mangle]
pub unsafe extern "C" fn n_encode(f: u32, px: *const [[u8; 4]; 16], mask: u32, alg: u32, wba: u32, w: *const [f32; 3], out: *mut u8, len: usize) -> u32 {
    guard(|| fmt(f).compress_block_masked(*px, mask, par(alg, wba, *w), core::slice::from_raw_parts_mut(out, len)))
}
#[no_mangle]
pub unsafe extern "C" fn n_compress(f: u32, px: *const u8, pxlen: usize, w: usize, h: usize, alg: u32, wba: u32, ws: *const [f32; 3], out: *mut u8, len: usize) -> u32 {
    guard(|| fmt(f).compress(core::slice::from_raw_parts(px, pxlen), w, h, par(alg, wba, *ws), core::slice::from_raw_parts_mut(out, len)))
}
#[no_mangle]
pub unsafe extern "C" fn n_decompress(f: u32, data: *const u8, dlen: usize, w: usize, h: usize, out: *mut u8, len: usize) -> u32 {
    guard(|| fmt(f).decompress(core::slice::from_raw_parts(data, dlen), w, h, core::slice::from_raw_parts_mut(out, len)))
}
#[no_mangle]
pub unsafe extern "C" fn n_csize(f: u32, w: usize, h: usize, out: *mut usize) -> u32 { guard(|| *out = fmt(f).compressed_size(w, h)) }
#[no_mangle]
pub unsafe extern "C" fn n_bsize(f: u32, out: *mut usize) -> u32 { guard(|| *out = fmt(f).block_size()) }
#[no_mangle]
pub unsafe extern "C" fn n_nblocks(s: usize, out: *mut usize) -> u32 { guard(|| *out = num_blocks(s)) }
