//! Environment stub for `libm`, used only when the solver encoding is built.
//! Every function is an opaque external symbol which the symbolic executor
//! interprets by its IEEE-754 / C99 contract (round half away from zero, ...).
//! Native replays use the real `libm` crate.
#![no_std]
macro_rules! f1 { ($($name:ident),*) => { $(
    #[inline(never)]
    pub fn $name(x: f32) -> f32 { extern "C" { #[link_name = concat!("verif_", stringify!($name))] fn ext(x: f32) -> f32; } unsafe { ext(x) } }
)* } }
macro_rules! f2 { ($($name:ident),*) => { $(
    #[inline(never)]
    pub fn $name(x: f32, y: f32) -> f32 { extern "C" { #[link_name = concat!("verif_", stringify!($name))] fn ext(x: f32, y: f32) -> f32; } unsafe { ext(x, y) } }
)* } }
f1!(sqrtf, roundf, truncf, floorf, ceilf, rintf, fabsf, cbrtf, expf, exp2f, logf, log2f, sinf, cosf);
f2!(fmaxf, fminf, copysignf, powf, hypotf, fdimf, fmodf);
#[inline(never)]
pub fn fmaf(x: f32, y: f32, z: f32) -> f32 { extern "C" { fn verif_fmaf(x: f32, y: f32, z: f32) -> f32; } unsafe { verif_fmaf(x, y, z) } }
