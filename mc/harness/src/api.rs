//! One interface over vectors and slices, and the storage kinds.
use crate::val::*;
use orx_concurrent_vec::*;
use orx_fixed_vec::FixedVec;
use orx_pinned_vec::{IntoConcurrentPinnedVec, PinnedVec};
use orx_split_vec::{Doubling, Linear, SplitVec};

pub type El<T> = ConcurrentElement<T>;

/// A storage type. `Extra` operations exist only for the default storage.
pub trait St<T>: IntoConcurrentPinnedVec<El<T>> + PinnedVec<El<T>> + Sized + 'static {
    fn make(k: Kind) -> ConcurrentVec<T, Self>;
    fn vec_eq(_a: &ConcurrentVec<T, Self>, _b: &ConcurrentVec<T, Self>) -> Option<bool>
    where
        T: PartialEq,
    {
        None
    }
    fn vec_eq_slice(_a: &ConcurrentVec<T, Self>, _b: &ConcurrentSlice<T, Self>) -> Option<bool>
    where
        T: PartialEq,
    {
        None
    }
    fn slice_eq_vec(_a: &ConcurrentSlice<T, Self>, _b: &ConcurrentVec<T, Self>) -> Option<bool>
    where
        T: PartialEq,
    {
        None
    }
    fn slice_eq(_a: &ConcurrentSlice<T, Self>, _b: &ConcurrentSlice<T, Self>) -> Option<bool>
    where
        T: PartialEq,
    {
        None
    }
    fn vec_eq_arr(_a: &ConcurrentVec<T, Self>, _b: &[T]) -> Option<bool>
    where
        T: PartialEq,
    {
        None
    }
    fn slice_eq_arr(_a: &ConcurrentSlice<T, Self>, _b: &[T]) -> Option<bool>
    where
        T: PartialEq,
    {
        None
    }
    fn vec_eq_arr2(_a: &ConcurrentVec<T, Self>, _b: &[T; 2]) -> Option<bool>
    where
        T: PartialEq,
    {
        None
    }
    fn slice_eq_arr2(_a: &ConcurrentSlice<T, Self>, _b: &[T; 2]) -> Option<bool>
    where
        T: PartialEq,
    {
        None
    }
    fn vec_clone(_a: &ConcurrentVec<T, Self>) -> Option<ConcurrentVec<T, Self>>
    where
        T: Clone,
    {
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// doubling growth: blocks of 4, 8, 16, ...
    Dbl,
    /// linear growth: blocks of 2^exp, at most `frags` of them
    Lin(usize, usize),
    /// fixed capacity
    Fix(usize),
}

impl<T: 'static> St<T> for SplitVec<El<T>, Doubling> {
    fn make(_: Kind) -> ConcurrentVec<T, Self> {
        ConcurrentVec::new()
    }
    fn vec_eq(a: &ConcurrentVec<T, Self>, b: &ConcurrentVec<T, Self>) -> Option<bool>
    where
        T: PartialEq,
    {
        Some(a == b)
    }
    fn vec_eq_slice(a: &ConcurrentVec<T, Self>, b: &ConcurrentSlice<T, Self>) -> Option<bool>
    where
        T: PartialEq,
    {
        Some(a == b)
    }
    fn slice_eq_vec(a: &ConcurrentSlice<T, Self>, b: &ConcurrentVec<T, Self>) -> Option<bool>
    where
        T: PartialEq,
    {
        Some(a == b)
    }
    fn slice_eq(a: &ConcurrentSlice<T, Self>, b: &ConcurrentSlice<T, Self>) -> Option<bool>
    where
        T: PartialEq,
    {
        Some(a == b)
    }
    fn vec_eq_arr(a: &ConcurrentVec<T, Self>, b: &[T]) -> Option<bool>
    where
        T: PartialEq,
    {
        Some(a == b)
    }
    fn slice_eq_arr(a: &ConcurrentSlice<T, Self>, b: &[T]) -> Option<bool>
    where
        T: PartialEq,
    {
        Some(a == b)
    }
    fn vec_eq_arr2(a: &ConcurrentVec<T, Self>, b: &[T; 2]) -> Option<bool>
    where
        T: PartialEq,
    {
        Some(a == b)
    }
    fn slice_eq_arr2(a: &ConcurrentSlice<T, Self>, b: &[T; 2]) -> Option<bool>
    where
        T: PartialEq,
    {
        Some(a == b)
    }
    fn vec_clone(a: &ConcurrentVec<T, Self>) -> Option<ConcurrentVec<T, Self>>
    where
        T: Clone,
    {
        Some(a.clone())
    }
}
impl<T: 'static> St<T> for SplitVec<El<T>, Linear> {
    fn make(k: Kind) -> ConcurrentVec<T, Self> {
        match k {
            Kind::Lin(e, f) => ConcurrentVec::with_linear_growth(e, f),
            _ => unreachable!(),
        }
    }
}
impl<T: 'static> St<T> for FixedVec<El<T>> {
    fn make(k: Kind) -> ConcurrentVec<T, Self> {
        match k {
            Kind::Fix(n) => ConcurrentVec::with_fixed_capacity(n),
            _ => unreachable!(),
        }
    }
}

/// A computation generic over the storage.
pub trait Generic<T> {
    fn run<P: St<T>>(&self, k: Kind);
}
pub fn dispatch<T: 'static, G: Generic<T>>(k: Kind, g: &G) {
    match k {
        Kind::Dbl => g.run::<SplitVec<El<T>, Doubling>>(k),
        Kind::Lin(..) => g.run::<SplitVec<El<T>, Linear>>(k),
        Kind::Fix(..) => g.run::<FixedVec<El<T>>>(k),
    }
}

/// The operations vectors and slices share.
pub trait Api<T, P: St<T>> {
    fn a_len(&self) -> usize;
    fn a_is_empty(&self) -> bool;
    fn a_get(&self, i: usize) -> Option<&El<T>>;
    fn a_index(&self, i: usize) -> &El<T>;
    fn a_get_cloned(&self, i: usize) -> Option<T>
    where
        T: Clone;
    fn a_get_copied(&self, i: usize) -> Option<T>
    where
        T: Copy;
    fn a_iter(&self, f: &mut dyn FnMut(&El<T>));
    fn a_iter_take(&self, n: usize, f: &mut dyn FnMut(&El<T>));
    fn a_iter_cloned(&self, f: &mut dyn FnMut(T))
    where
        T: Clone;
    fn a_map(&self, f: &mut dyn FnMut(&T) -> u64, g: &mut dyn FnMut(u64));
    fn a_filter(&self, f: &mut dyn FnMut(&T) -> bool, g: &mut dyn FnMut(&El<T>));
    fn a_fold(&self, init: u64, f: &mut dyn FnMut(u64, &T) -> u64) -> u64;
    fn a_reduce(&self, f: &mut dyn FnMut(&T, &T) -> T) -> Option<T>
    where
        T: Clone;
    fn a_index_of(&self, x: &T) -> Option<usize>
    where
        T: PartialEq;
    fn a_contains(&self, x: &T) -> bool
    where
        T: PartialEq;
    fn a_clone_to_vec(&self) -> Vec<T>
    where
        T: Clone;
    fn a_swap(&self, i: usize, j: usize) -> bool;
    fn a_fill(&self, x: T)
    where
        T: Clone;
    fn a_fill_with(&self, f: &mut dyn FnMut(usize) -> T);
    fn a_debug(&self) -> String
    where
        T: std::fmt::Debug;
    fn a_get_raw(&self, i: usize) -> Option<*const T>;
    fn a_get_raw_mut(&self, i: usize) -> Option<*mut T>;
    unsafe fn a_get_ref(&self, i: usize) -> Option<&T>;
    #[allow(clippy::mut_from_ref)]
    unsafe fn a_get_mut(&self, i: usize) -> Option<&mut T>;
    unsafe fn a_iter_ref(&self, f: &mut dyn FnMut(&T));
    unsafe fn a_iter_mut(&self, f: &mut dyn FnMut(&mut T));
    fn a_slice(&self, r: (std::ops::Bound<usize>, std::ops::Bound<usize>)) -> ConcurrentSlice<'_, T, P>;
    fn a_chunks(&self, n: usize, f: &mut dyn FnMut(ConcurrentSlice<'_, T, P>)) -> usize;
    fn a_split_at(&self, m: usize, f: &mut dyn FnMut(ConcurrentSlice<'_, T, P>, ConcurrentSlice<'_, T, P>));
    fn a_split_first(&self, f: &mut dyn FnMut(&El<T>, ConcurrentSlice<'_, T, P>)) -> bool;
    fn a_split_last(&self, f: &mut dyn FnMut(&El<T>, ConcurrentSlice<'_, T, P>)) -> bool;
    fn a_eq_arr(&self, b: &[T]) -> Option<bool>
    where
        T: PartialEq;
    fn a_eq_arr2(&self, b: &[T; 2]) -> Option<bool>
    where
        T: PartialEq;
    fn a_eq_slice(&self, b: &ConcurrentSlice<'_, T, P>) -> Option<bool>
    where
        T: PartialEq;
    fn a_eq_vec(&self, b: &ConcurrentVec<T, P>) -> Option<bool>
    where
        T: PartialEq;
}

macro_rules! api {
    ($ty:ty, $eqarr:ident, $eqarr2:ident, $eqs:ident, $eqv:ident) => {
        impl<T: 'static, P: St<T>> Api<T, P> for $ty {
            fn a_len(&self) -> usize {
                self.len()
            }
            fn a_is_empty(&self) -> bool {
                self.is_empty()
            }
            fn a_get(&self, i: usize) -> Option<&El<T>> {
                self.get(i)
            }
            fn a_index(&self, i: usize) -> &El<T> {
                &self[i]
            }
            fn a_get_cloned(&self, i: usize) -> Option<T>
            where
                T: Clone,
            {
                self.get_cloned(i)
            }
            fn a_get_copied(&self, i: usize) -> Option<T>
            where
                T: Copy,
            {
                self.get_copied(i)
            }
            fn a_iter_take(&self, n: usize, f: &mut dyn FnMut(&El<T>)) {
                for e in self.iter().take(n) {
                    f(e)
                }
            }
            fn a_iter(&self, f: &mut dyn FnMut(&El<T>)) {
                for e in self.iter() {
                    f(e)
                }
            }
            fn a_iter_cloned(&self, f: &mut dyn FnMut(T))
            where
                T: Clone,
            {
                for e in self.iter_cloned() {
                    f(e)
                }
            }
            fn a_map(&self, f: &mut dyn FnMut(&T) -> u64, g: &mut dyn FnMut(u64)) {
                for x in self.map(|x| f(x)) {
                    g(x)
                }
            }
            fn a_filter(&self, f: &mut dyn FnMut(&T) -> bool, g: &mut dyn FnMut(&El<T>)) {
                for x in self.filter(|x| f(x)) {
                    g(x)
                }
            }
            fn a_fold(&self, init: u64, f: &mut dyn FnMut(u64, &T) -> u64) -> u64 {
                self.fold(init, |a, x| f(a, x))
            }
            fn a_reduce(&self, f: &mut dyn FnMut(&T, &T) -> T) -> Option<T>
            where
                T: Clone,
            {
                self.reduce(|a, b| f(a, b))
            }
            fn a_index_of(&self, x: &T) -> Option<usize>
            where
                T: PartialEq,
            {
                self.index_of(x)
            }
            fn a_contains(&self, x: &T) -> bool
            where
                T: PartialEq,
            {
                self.contains(x)
            }
            fn a_clone_to_vec(&self) -> Vec<T>
            where
                T: Clone,
            {
                self.clone_to_vec()
            }
            fn a_swap(&self, i: usize, j: usize) -> bool {
                self.swap(i, j)
            }
            fn a_fill(&self, x: T)
            where
                T: Clone,
            {
                self.fill(x)
            }
            fn a_fill_with(&self, f: &mut dyn FnMut(usize) -> T) {
                self.fill_with(|i| f(i))
            }
            fn a_debug(&self) -> String
            where
                T: std::fmt::Debug,
            {
                format!("{:?}", self)
            }
            fn a_get_raw(&self, i: usize) -> Option<*const T> {
                self.get_raw(i)
            }
            fn a_get_raw_mut(&self, i: usize) -> Option<*mut T> {
                self.get_raw_mut(i)
            }
            unsafe fn a_get_ref(&self, i: usize) -> Option<&T> {
                self.get_ref(i)
            }
            unsafe fn a_get_mut(&self, i: usize) -> Option<&mut T> {
                self.get_mut(i)
            }
            unsafe fn a_iter_ref(&self, f: &mut dyn FnMut(&T)) {
                for x in self.iter_ref() {
                    f(x)
                }
            }
            unsafe fn a_iter_mut(&self, f: &mut dyn FnMut(&mut T)) {
                for x in self.iter_mut() {
                    f(x)
                }
            }
            fn a_slice(&self, r: (std::ops::Bound<usize>, std::ops::Bound<usize>)) -> ConcurrentSlice<'_, T, P> {
                self.slice(r)
            }
            fn a_chunks(&self, n: usize, f: &mut dyn FnMut(ConcurrentSlice<'_, T, P>)) -> usize {
                let it = self.chunks(n);
                let len = it.len();
                for x in it {
                    f(x)
                }
                len
            }
            fn a_split_at(&self, m: usize, f: &mut dyn FnMut(ConcurrentSlice<'_, T, P>, ConcurrentSlice<'_, T, P>)) {
                let (a, b) = self.split_at(m);
                f(a, b)
            }
            fn a_split_first(&self, f: &mut dyn FnMut(&El<T>, ConcurrentSlice<'_, T, P>)) -> bool {
                match self.split_first() {
                    Some((a, b)) => {
                        f(a, b);
                        true
                    }
                    None => false,
                }
            }
            fn a_split_last(&self, f: &mut dyn FnMut(&El<T>, ConcurrentSlice<'_, T, P>)) -> bool {
                match self.split_last() {
                    Some((a, b)) => {
                        f(a, b);
                        true
                    }
                    None => false,
                }
            }
            fn a_eq_arr(&self, b: &[T]) -> Option<bool>
            where
                T: PartialEq,
            {
                P::$eqarr(self, b)
            }
            fn a_eq_arr2(&self, b: &[T; 2]) -> Option<bool>
            where
                T: PartialEq,
            {
                P::$eqarr2(self, b)
            }
            fn a_eq_slice(&self, b: &ConcurrentSlice<'_, T, P>) -> Option<bool>
            where
                T: PartialEq,
            {
                P::$eqs(self, b)
            }
            fn a_eq_vec(&self, b: &ConcurrentVec<T, P>) -> Option<bool>
            where
                T: PartialEq,
            {
                P::$eqv(self, b)
            }
        }
    };
}
api!(ConcurrentVec<T, P>, vec_eq_arr, vec_eq_arr2, vec_eq_slice, vec_eq);
api!(ConcurrentSlice<'_, T, P>, slice_eq_arr, slice_eq_arr2, slice_eq, slice_eq_vec);

pub fn vals<T: Clone + 'static, P: St<T>>(v: &ConcurrentVec<T, P>, f: impl Fn(&T) -> u64) -> Vec<u64> {
    let mut o = Vec::new();
    v.a_iter(&mut |e| o.push(e.map(|x| f(x))));
    o
}
pub fn vvals<P: St<V>>(v: &ConcurrentVec<V, P>) -> Vec<u64> {
    vals(v, |x| x.get())
}
