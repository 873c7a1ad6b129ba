#![no_std]
use texpresso::*;
#[panic_handler]
fn ph(_: &core::panic::PanicInfo) -> ! { loop {} }
fn fmt(f:u32)->Format{match f{1=>Format::Bc1,2=>Format::Bc2,3=>Format::Bc3,4=>Format::Bc4,_=>Format::Bc5}}
fn par(alg:u32,wba:u32,w:[f32;3])->Params{Params{algorithm:match alg{0=>Algorithm::RangeFit,1=>Algorithm::ClusterFit,_=>Algorithm::IterativeClusterFit},weights:w,weigh_colour_by_alpha:wba!=0}}
#[no_mangle] pub unsafe extern "C" fn v_decode(f:u32, block:*const u8, len:usize, out:*mut [[u8;4];16]) {
  *out=fmt(f).decompress_block(core::slice::from_raw_parts(block,len));
}
#[no_mangle] pub unsafe extern "C" fn v_encode(f:u32, px:*const [[u8;4];16], mask:u32, alg:u32, wba:u32, w:*const [f32;3], out:*mut u8, len:usize) {
  fmt(f).compress_block_masked(*px,mask,par(alg,wba,*w),core::slice::from_raw_parts_mut(out,len));
}
#[no_mangle] pub unsafe extern "C" fn v_compress(f:u32, px:*const u8, pxlen:usize, w:usize,h:usize, alg:u32, wba:u32, ws:*const [f32;3], out:*mut u8, len:usize) {
  fmt(f).compress(core::slice::from_raw_parts(px,pxlen),w,h,par(alg,wba,*ws),core::slice::from_raw_parts_mut(out,len));
}
#[no_mangle] pub unsafe extern "C" fn v_decompress(f:u32, data:*const u8, dlen:usize, w:usize,h:usize, out:*mut u8, len:usize) {
  fmt(f).decompress(core::slice::from_raw_parts(data,dlen),w,h,core::slice::from_raw_parts_mut(out,len));
}
#[no_mangle] pub extern "C" fn v_csize(f:u32,w:usize,h:usize)->usize{fmt(f).compressed_size(w,h)}
#[no_mangle] pub extern "C" fn v_bsize(f:u32)->usize{fmt(f).block_size()}
#[no_mangle] pub extern "C" fn v_nblocks(s:usize)->usize{num_blocks(s)}
