//! Entry points: the parsed command line and the files come from the caller.
use crate::verif_fs as fs;
use std::alloc::{GlobalAlloc, Layout};
use std::path::PathBuf;
struct A;
extern "C" {
    fn verif_alloc(n: usize, zero: u32) -> *mut u8;
    fn verif_dealloc(p: *mut u8);
    fn verif_realloc(p: *mut u8, old: usize, n: usize) -> *mut u8;
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { verif_alloc(l.size(), 0) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { verif_alloc(l.size(), 1) }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) { verif_dealloc(p) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { verif_realloc(p, l.size(), n) }
}
#[global_allocator]
static GLOBAL: A = A;
static mut FMT: u32 = 0;
static mut PROFILE: u32 = 0;
static mut WBA: u32 = 0;
static mut WS: *const f32 = core::ptr::null();
static mut WN: usize = 0;
static mut NAMED: u32 = 0;
pub fn opt() -> crate::Opt {
    unsafe {
        let outfile = if NAMED != 0 { Some(PathBuf::from("out.bin")) } else { None };
        let infile = PathBuf::from(fs::in_name());
        if fs::KIND == 3 { return crate::Opt::Decompress { outfile, infile }; }
        let format = match FMT { 1 => crate::CliFormat::Bc1, 2 => crate::CliFormat::Bc2, 3 => crate::CliFormat::Bc3, 4 => crate::CliFormat::Bc4, _ => crate::CliFormat::Bc5 };
        let profile = match PROFILE { 0 => crate::Profile::Speed, 1 => crate::Profile::Balanced, _ => crate::Profile::Quality };
        let weights = core::slice::from_raw_parts(WS, WN).to_vec();
        crate::Opt::Compress { outfile, infile, format, profile, weigh_colour_by_alpha: WBA != 0, weights }
    }
}
/// kind: 0 and 4 PNG, 1, 2 and 7 JPEG, 3 decompress, 5 and 6 unknown file types; returns the length of the output file
#[no_mangle]
pub unsafe extern "C" fn v_cli(kind: u32, data: *const u8, len: usize, out: *mut u8, cap: usize, fmt: u32, profile: u32, wba: u32, ws: *const f32, wn: usize, named: u32) -> usize {
    fs::KIND = kind; fs::IN = data; fs::IN_LEN = len; fs::OUT = out; fs::OUT_CAP = cap; fs::OUT_LEN = 0;
    FMT = fmt; PROFILE = profile; WBA = wba; WS = ws; WN = wn; NAMED = named;
    if !crate::main().done() { panic!("the program reports an error"); }
    fs::OUT_LEN
}
trait Done { fn done(self) -> bool; }
impl Done for () { fn done(self) -> bool { true } }
impl<T, E> Done for Result<T, E> { fn done(self) -> bool { self.is_ok() } }
fn fmt(f: u32) -> texpresso::Format { match f { 1 => texpresso::Format::Bc1, 2 => texpresso::Format::Bc2, 3 => texpresso::Format::Bc3, 4 => texpresso::Format::Bc4, _ => texpresso::Format::Bc5 } }
fn par(alg: u32, wba: u32, w: [f32; 3]) -> texpresso::Params {
    texpresso::Params { algorithm: match alg { 0 => texpresso::Algorithm::RangeFit, 1 => texpresso::Algorithm::ClusterFit, _ => texpresso::Algorithm::IterativeClusterFit }, weights: w, weigh_colour_by_alpha: wba != 0 }
}
#[no_mangle] pub unsafe extern "C" fn v_decode(f: u32, block: *const u8, len: usize, out: *mut [[u8; 4]; 16]) { *out = fmt(f).decompress_block(core::slice::from_raw_parts(block, len)); }
#[no_mangle] pub unsafe extern "C" fn v_encode(f: u32, px: *const [[u8; 4]; 16], mask: u32, alg: u32, wba: u32, w: *const [f32; 3], out: *mut u8, len: usize) {
    fmt(f).compress_block_masked(*px, mask, par(alg, wba, *w), core::slice::from_raw_parts_mut(out, len));
}
#[no_mangle] pub unsafe extern "C" fn v_compress(f: u32, px: *const u8, pxlen: usize, w: usize, h: usize, alg: u32, wba: u32, ws: *const [f32; 3], out: *mut u8, len: usize) {
    fmt(f).compress(core::slice::from_raw_parts(px, pxlen), w, h, par(alg, wba, *ws), core::slice::from_raw_parts_mut(out, len));
}
#[no_mangle] pub unsafe extern "C" fn v_decompress(f: u32, data: *const u8, dlen: usize, w: usize, h: usize, out: *mut u8, len: usize) {
    fmt(f).decompress(core::slice::from_raw_parts(data, dlen), w, h, core::slice::from_raw_parts_mut(out, len));
}
