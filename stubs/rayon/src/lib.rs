//! Environment stub for `rayon`: the items of a parallel iterator are processed one after the other in an
//! order that the environment chooses (`verif_pick`): each of up to four items next, forwards or backwards
//! for longer ones.  The symbolic executor makes these choices variables; a native build reads them from a schedule.
#![no_std]
use core::marker::PhantomData;
use core::ops::Range;
extern "C" { fn verif_pick(step: usize, remaining: usize) -> usize; fn verif_item(begin: usize); }
fn schedule<F: FnMut(usize)>(n: usize, mut f: F) {
    // what happens between the two calls belongs to one item; others may interfere with memory they share
    let mut f = |i: usize| { unsafe { verif_item(1) }; f(i); unsafe { verif_item(0) } };
    if n < 2 { if n == 1 { f(0) } return; }
    if n > 4 {
        if unsafe { verif_pick(99, 2) } == 0 { for i in 0..n { f(i) } } else { for i in (0..n).rev() { f(i) } }
        return;
    }
    let mut done = [false; 4];
    for k in 0..n {
        let mut c = if n - k > 1 { unsafe { verif_pick(k, n - k) } } else { 0 };
        for i in 0..n {
            if done[i] { continue; }
            if c == 0 { done[i] = true; f(i); break; }
            c -= 1;
        }
    }
}
pub fn join<A: FnOnce() -> RA, B: FnOnce() -> RB, RA, RB>(a: A, b: B) -> (RA, RB) {
    if unsafe { verif_pick(98, 2) } == 0 { let x = a(); let y = b(); (x, y) } else { let y = b(); let x = a(); (x, y) }
}
pub fn current_num_threads() -> usize { 4 }
pub trait ParallelIterator: Sized {
    type Item;
    fn len(&self) -> usize;
    /// at most once per index
    unsafe fn get(&self, i: usize) -> Self::Item;
    fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) { schedule(self.len(), |i| f(unsafe { self.get(i) })) }
    fn for_each_with<T: Clone, F: Fn(&mut T, Self::Item) + Sync + Send>(self, init: T, f: F) { schedule(self.len(), |i| f(&mut init.clone(), unsafe { self.get(i) })) }
    fn for_each_init<T, I: Fn() -> T, F: Fn(&mut T, Self::Item) + Sync + Send>(self, init: I, f: F) { schedule(self.len(), |i| f(&mut init(), unsafe { self.get(i) })) }
    fn enumerate(self) -> Enumerate<Self> { Enumerate(self) }
    fn take(self, n: usize) -> Take<Self> { Take(self, n) }
    fn skip(self, n: usize) -> Skip<Self> { Skip(self, n) }
    fn rev(self) -> Rev<Self> { Rev(self) }
    fn map<R, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Map<Self, F> { Map(self, f) }
    fn zip<J: IntoParallelIterator>(self, j: J) -> Zip<Self, J::Iter> { Zip(self, j.into_par_iter()) }
    fn zip_eq<J: IntoParallelIterator>(self, j: J) -> Zip<Self, J::Iter> { let j = j.into_par_iter(); assert!(self.len() == j.len()); Zip(self, j) }
    fn step_by(self, n: usize) -> StepBy<Self> { StepBy(self, n) }
    fn with_min_len(self, _: usize) -> Self { self }
    fn with_max_len(self, _: usize) -> Self { self }
    fn count(self) -> usize { self.len() }
}
pub use ParallelIterator as IndexedParallelIterator;
pub trait IntoParallelIterator { type Iter: ParallelIterator<Item = Self::Item>; type Item; fn into_par_iter(self) -> Self::Iter; }
impl<I: ParallelIterator> IntoParallelIterator for I { type Iter = I; type Item = I::Item; fn into_par_iter(self) -> I { self } }
pub struct RangeIter(Range<usize>);
impl IntoParallelIterator for Range<usize> { type Iter = RangeIter; type Item = usize; fn into_par_iter(self) -> RangeIter { RangeIter(self) } }
impl ParallelIterator for RangeIter { type Item = usize; fn len(&self) -> usize { self.0.end.saturating_sub(self.0.start) } unsafe fn get(&self, i: usize) -> usize { self.0.start + i } }
impl<'a, T> IntoParallelIterator for &'a [T] { type Iter = Iter<'a, T>; type Item = &'a T; fn into_par_iter(self) -> Iter<'a, T> { Iter(self) } }
impl<'a, T> IntoParallelIterator for &'a mut [T] { type Iter = IterMut<'a, T>; type Item = &'a mut T; fn into_par_iter(self) -> IterMut<'a, T> { IterMut(self.as_mut_ptr(), self.len(), PhantomData) } }
pub struct Iter<'a, T>(&'a [T]);
impl<'a, T> ParallelIterator for Iter<'a, T> { type Item = &'a T; fn len(&self) -> usize { self.0.len() } unsafe fn get(&self, i: usize) -> &'a T { &self.0[i] } }
pub struct IterMut<'a, T>(*mut T, usize, PhantomData<&'a mut T>);
impl<'a, T> ParallelIterator for IterMut<'a, T> { type Item = &'a mut T; fn len(&self) -> usize { self.1 } unsafe fn get(&self, i: usize) -> &'a mut T { assert!(i < self.1); &mut *self.0.add(i) } }
pub struct Enumerate<I>(I);
impl<I: ParallelIterator> ParallelIterator for Enumerate<I> { type Item = (usize, I::Item); fn len(&self) -> usize { self.0.len() } unsafe fn get(&self, i: usize) -> Self::Item { (i, self.0.get(i)) } }
pub struct Take<I>(I, usize);
impl<I: ParallelIterator> ParallelIterator for Take<I> { type Item = I::Item; fn len(&self) -> usize { self.0.len().min(self.1) } unsafe fn get(&self, i: usize) -> I::Item { self.0.get(i) } }
pub struct Skip<I>(I, usize);
impl<I: ParallelIterator> ParallelIterator for Skip<I> { type Item = I::Item; fn len(&self) -> usize { self.0.len().saturating_sub(self.1) } unsafe fn get(&self, i: usize) -> I::Item { self.0.get(self.1 + i) } }
pub struct Rev<I>(I);
impl<I: ParallelIterator> ParallelIterator for Rev<I> { type Item = I::Item; fn len(&self) -> usize { self.0.len() } unsafe fn get(&self, i: usize) -> I::Item { self.0.get(self.0.len() - 1 - i) } }
pub struct StepBy<I>(I, usize);
impl<I: ParallelIterator> ParallelIterator for StepBy<I> { type Item = I::Item; fn len(&self) -> usize { (self.0.len() + self.1 - 1) / self.1 } unsafe fn get(&self, i: usize) -> I::Item { self.0.get(i * self.1) } }
pub struct Map<I, F>(I, F);
impl<I: ParallelIterator, R, F: Fn(I::Item) -> R> ParallelIterator for Map<I, F> { type Item = R; fn len(&self) -> usize { self.0.len() } unsafe fn get(&self, i: usize) -> R { (self.1)(self.0.get(i)) } }
pub struct Zip<A, B>(A, B);
impl<A: ParallelIterator, B: ParallelIterator> ParallelIterator for Zip<A, B> { type Item = (A::Item, B::Item); fn len(&self) -> usize { self.0.len().min(self.1.len()) } unsafe fn get(&self, i: usize) -> Self::Item { (self.0.get(i), self.1.get(i)) } }
pub struct Chunks<'a, T>(&'a [T], usize, usize);
impl<'a, T> ParallelIterator for Chunks<'a, T> {
    type Item = &'a [T];
    fn len(&self) -> usize { self.2 }
    unsafe fn get(&self, i: usize) -> &'a [T] { let s = i * self.1; &self.0[s..(s + self.1).min(self.0.len())] }
}
pub struct ChunksMut<'a, T>(*mut T, usize, usize, usize, PhantomData<&'a mut T>);
impl<'a, T> ParallelIterator for ChunksMut<'a, T> {
    type Item = &'a mut [T];
    fn len(&self) -> usize { self.3 }
    unsafe fn get(&self, i: usize) -> &'a mut [T] { assert!(i < self.3); let s = i * self.2; core::slice::from_raw_parts_mut(self.0.add(s), self.2.min(self.1 - s)) }
}
pub trait ParallelSlice<T> {
    fn par_chunks(&self, n: usize) -> Chunks<'_, T>;
    fn par_chunks_exact(&self, n: usize) -> Chunks<'_, T>;
    fn par_iter(&self) -> Iter<'_, T>;
}
impl<T> ParallelSlice<T> for [T] {
    fn par_chunks(&self, n: usize) -> Chunks<'_, T> { assert!(n != 0, "chunk_size must not be zero"); Chunks(self, n, (self.len() + n - 1) / n) }
    fn par_chunks_exact(&self, n: usize) -> Chunks<'_, T> { assert!(n != 0, "chunk_size must not be zero"); Chunks(self, n, self.len() / n) }
    fn par_iter(&self) -> Iter<'_, T> { Iter(self) }
}
pub trait ParallelSliceMut<T> {
    fn par_chunks_mut(&mut self, n: usize) -> ChunksMut<'_, T>;
    fn par_chunks_exact_mut(&mut self, n: usize) -> ChunksMut<'_, T>;
    fn par_iter_mut(&mut self) -> IterMut<'_, T>;
}
impl<T> ParallelSliceMut<T> for [T] {
    fn par_chunks_mut(&mut self, n: usize) -> ChunksMut<'_, T> { assert!(n != 0, "chunk_size must not be zero"); ChunksMut(self.as_mut_ptr(), self.len(), n, (self.len() + n - 1) / n, PhantomData) }
    fn par_chunks_exact_mut(&mut self, n: usize) -> ChunksMut<'_, T> { assert!(n != 0, "chunk_size must not be zero"); ChunksMut(self.as_mut_ptr(), self.len(), n, self.len() / n, PhantomData) }
    fn par_iter_mut(&mut self) -> IterMut<'_, T> { IterMut(self.as_mut_ptr(), self.len(), PhantomData) }
}
pub mod iter { pub use crate::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator}; }
pub mod slice { pub use crate::{ParallelSlice, ParallelSliceMut}; }
pub mod prelude { pub use crate::{IntoParallelIterator, ParallelIterator, ParallelSlice, ParallelSliceMut}; }
