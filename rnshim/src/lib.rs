//! The parallel build over the rayon stub, processing rows in a given order.
#[path = "../../nshim/src/lib.rs"]
mod nshim;
use std::sync::atomic::{AtomicUsize, Ordering};
static PICKS: [AtomicUsize; 100] = [const { AtomicUsize::new(0) }; 100];
#[no_mangle] pub extern "C" fn n_pick(step: usize, c: usize) { PICKS[step].store(c, Ordering::SeqCst) }
#[no_mangle] pub extern "C" fn verif_pick(step: usize, remaining: usize) -> usize { PICKS[step].load(Ordering::SeqCst) % remaining }
#[no_mangle] pub extern "C" fn verif_item(_: usize) {}
