//! Verification stand-in for rayon: the same data-parallel API, executed sequentially.
extern "C" { fn vf_second() -> bool; }
/// for_each visits the items in order in the first modelled process and in reverse in the second one
pub struct Sched<I>(I);
impl<I: Iterator> Iterator for Sched<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn for_each<F: FnMut(I::Item)>(mut self, mut f: F) {
        if unsafe { vf_second() } { let mut v: Vec<I::Item> = vec![]; while let Some(x) = self.0.next() { v.push(x); } while let Some(x) = v.pop() { f(x); } } else { while let Some(x) = self.0.next() { f(x); } }
    }
}
pub mod iter {
    use crate::Sched;
    pub trait IntoParallelIterator { type Iter: Iterator<Item = Self::Item>; type Item; fn into_par_iter(self) -> Self::Iter; }
    impl<T: IntoIterator> IntoParallelIterator for T { type Iter = Sched<T::IntoIter>; type Item = T::Item; fn into_par_iter(self) -> Self::Iter { Sched(self.into_iter()) } }
    pub trait IntoParallelRefIterator<'a> { type Iter: Iterator<Item = Self::Item>; type Item: 'a; fn par_iter(&'a self) -> Self::Iter; }
    impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T where &'a T: IntoIterator { type Iter = Sched<<&'a T as IntoIterator>::IntoIter>; type Item = <&'a T as IntoIterator>::Item; fn par_iter(&'a self) -> Self::Iter { Sched(self.into_iter()) } }
    pub trait IntoParallelRefMutIterator<'a> { type Iter: Iterator<Item = Self::Item>; type Item: 'a; fn par_iter_mut(&'a mut self) -> Self::Iter; }
    impl<'a, T: 'a + ?Sized> IntoParallelRefMutIterator<'a> for T where &'a mut T: IntoIterator { type Iter = Sched<<&'a mut T as IntoIterator>::IntoIter>; type Item = <&'a mut T as IntoIterator>::Item; fn par_iter_mut(&'a mut self) -> Self::Iter { Sched(self.into_iter()) } }
    pub trait ParallelIterator: Iterator + Sized {
        fn with_min_len(self, _n: usize) -> Self { self }
        fn with_max_len(self, _n: usize) -> Self { self }
        fn map_init<I, T, F, R>(self, init: I, f: F) -> MapInit<Self, T, F> where I: Fn() -> T, F: FnMut(&mut T, Self::Item) -> R { MapInit { i: self, t: init(), f } }
        fn for_each_init<I, T, F>(self, init: I, mut f: F) where I: Fn() -> T, F: FnMut(&mut T, Self::Item) { let mut t = init(); for x in self { f(&mut t, x) } }
        fn reduce_with<F: FnMut(Self::Item, Self::Item) -> Self::Item>(self, f: F) -> Option<Self::Item> { Iterator::reduce(self, f) }
        fn find_any<P: FnMut(&Self::Item) -> bool>(mut self, p: P) -> Option<Self::Item> { Iterator::find(&mut self, p) }
        fn find_first<P: FnMut(&Self::Item) -> bool>(mut self, p: P) -> Option<Self::Item> { Iterator::find(&mut self, p) }
        fn position_any<P: FnMut(Self::Item) -> bool>(mut self, p: P) -> Option<usize> { Iterator::position(&mut self, p) }
        fn flat_map_iter<U: IntoIterator, F: FnMut(Self::Item) -> U>(self, f: F) -> std::iter::FlatMap<Self, U, F> { Iterator::flat_map(self, f) }
        fn collect_into_vec(self, v: &mut Vec<Self::Item>) { v.clear(); v.extend(self) }
    }
    impl<T: Iterator> ParallelIterator for T {}
    pub trait IndexedParallelIterator: Iterator {}
    impl<T: Iterator> IndexedParallelIterator for T {}
    pub struct MapInit<I, T, F> { i: I, t: T, f: F }
    impl<I: Iterator, T, R, F: FnMut(&mut T, I::Item) -> R> Iterator for MapInit<I, T, F> { type Item = R; fn next(&mut self) -> Option<R> { let x = self.i.next()?; Some((self.f)(&mut self.t, x)) } }
}
pub mod slice {
    pub trait ParallelSlice<T> { fn ps(&self) -> &[T]; fn par_chunks(&self, n: usize) -> std::slice::Chunks<'_, T> { self.ps().chunks(n) } fn par_windows(&self, n: usize) -> std::slice::Windows<'_, T> { self.ps().windows(n) } }
    impl<T> ParallelSlice<T> for [T] { fn ps(&self) -> &[T] { self } }
    pub trait ParallelSliceMut<T> { fn psm(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> std::slice::ChunksMut<'_, T> { self.psm().chunks_mut(n) }
        fn par_sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { self.psm().sort_by(f) }
        fn par_sort_unstable_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { self.psm().sort_unstable_by(f) } }
    impl<T> ParallelSliceMut<T> for [T] { fn psm(&mut self) -> &mut [T] { self } }
}
pub mod prelude { pub use crate::iter::*; pub use crate::slice::*; }
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA, B: FnOnce() -> RB { (a(), b()) }
pub fn current_num_threads() -> usize { 1 }
