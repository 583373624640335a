//! Element types of all shapes, the protocol of all iterators, and vectors larger than those of the other scenarios.
use crate::api::{dispatch, Generic, Kind, St};
use crate::ensure;
use crate::mc::{self, choose, ensure_eq, Job};
use crate::ops::leaks;
use crate::seq::SeqScen;
use crate::val::V;
use orx_concurrent_vec::*;
use orx_fixed_vec::FixedVec;
use orx_pinned_vec::{IntoConcurrentPinnedVec, PinnedVec};
use orx_split_vec::{Doubling, Linear, SplitVec};
use std::fmt::Debug;
use std::num::NonZeroU8;
use std::sync::atomic::{AtomicIsize, Ordering};

type El<T> = ConcurrentElement<T>;
type Dbl<T> = SplitVec<El<T>, Doubling>;
type Lin<T> = SplitVec<El<T>, Linear>;
type Fix<T> = FixedVec<El<T>>;

// ------------------------------------------------------------------ element types

pub trait Tv: Clone + PartialEq + Debug + 'static {
    const NAME: &'static str;
    /// values are told apart up to this number
    const DISTINCT: u64;
    fn mk(i: u64) -> Self;
    /// number of live values, where it is counted
    fn live() -> Option<isize> {
        None
    }
}

macro_rules! tv {
    ($t:ty, $n:literal, $d:expr, |$i:ident| $e:expr) => {
        impl Tv for $t {
            const NAME: &'static str = $n;
            const DISTINCT: u64 = $d;
            fn mk($i: u64) -> Self {
                $e
            }
        }
    };
}
tv!((), "unit", 1, |_i| ());
tv!(u8, "u8", 200, |i| i as u8);
tv!(bool, "bool", 2, |i| i % 2 == 1);
tv!(u128, "u128", u64::MAX, |i| (i as u128) << 70 | i as u128);
tv!(String, "String", u64::MAX, |i| format!("value {}", i));
tv!(&'static str, "str", 4, |i| ["", "a", "b", "a rather long text"][i as usize % 4]);
tv!(Box<u64>, "Box", u64::MAX, |i| Box::new(i));
tv!(Option<Box<u16>>, "Option-Box", 500, |i| if i == 0 { None } else { Some(Box::new(i as u16)) });
tv!(NonZeroU8, "NonZeroU8", 200, |i| NonZeroU8::new(i as u8 + 1).unwrap());
tv!([u64; 33], "array", u64::MAX, |i| [i.wrapping_mul(0x1234567); 33]);
tv!(Vec<u8>, "Vec", 60, |i| vec![i as u8; i as usize % 60]);
tv!((u8, u64, u8), "padded", 200, |i| (i as u8, i, !(i as u8)));
tv!(Option<Option<bool>>, "niches", 4, |i| [None, Some(None), Some(Some(false)), Some(Some(true))][i as usize % 4]);

#[derive(Clone, PartialEq, Debug)]
#[repr(align(64))]
pub struct Wide(u64);
tv!(Wide, "aligned", u64::MAX, |i| Wide(i));

/// a zero-sized value whose lifetime matters
static ALIVE: AtomicIsize = AtomicIsize::new(0);
#[derive(PartialEq, Debug)]
pub struct Token;
impl Token {
    fn new() -> Self {
        ALIVE.fetch_add(1, Ordering::SeqCst);
        Token
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        Token::new()
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        ALIVE.fetch_sub(1, Ordering::SeqCst);
    }
}
impl Tv for Token {
    const NAME: &'static str = "token";
    const DISTINCT: u64 = 1;
    fn mk(_: u64) -> Self {
        Token::new()
    }
    fn live() -> Option<isize> {
        Some(ALIVE.load(Ordering::SeqCst))
    }
}

fn alive<T: Tv>(n: usize, what: &str) {
    if let Some(k) = T::live() {
        ensure!(k == n as isize, "{} of {}: {} values are alive instead of {}", T::NAME, what, k, n);
    }
}

fn addr<X>(x: &X) -> usize {
    x as *const X as usize
}

fn same<T: Tv>(a: &T, i: u64, what: &str) {
    ensure!(*a == T::mk(i), "{} {}: {:?} instead of {:?}", T::NAME, what, a, T::mk(i));
}

fn contents<T: Tv, P: IntoConcurrentPinnedVec<El<T>>>(v: &ConcurrentVec<T, P>, m: &[u64], what: &str) {
    let n = m.len();
    ensure!(v.len() == n && v.is_empty() == (n == 0), "{} {}: length {} instead of {}", T::NAME, what, v.len(), n);
    ensure!(v.capacity() >= n && v.maximum_capacity() >= v.capacity(), "{} {}: capacity {}", T::NAME, what, v.capacity());
    let mut last = vec![];
    for i in 0..n + 2 {
        let e = v.get(i);
        ensure!(e.is_some() == (i < n) && v.get_cloned(i).is_some() == (i < n), "{} {}: presence of {}", T::NAME, what, i);
        let r = unsafe { v.get_ref(i) };
        let p = v.get_raw(i);
        let q = v.get_raw_mut(i);
        ensure!(r.is_some() == (i < n) && p.is_some() == (i < n) && q.is_some() == (i < n), "{} {}: reference to {}", T::NAME, what, i);
        if let (Some(e), Some(r), Some(p), Some(q)) = (e, r, p, q) {
            e.map(|x| same(x, m[i], what));
            same(&e.cloned(), m[i], what);
            same(r, m[i], what);
            same(&v.get_cloned(i).unwrap(), m[i], what);
            ensure!(addr(r) % align_of::<T>() == 0 && addr(r) == p as usize && addr(r) == q as usize, "{} {}: address of {}", T::NAME, what, i);
            ensure!(e.map(|x| addr(x)) == addr(r), "{} {}: address of {} in a closure", T::NAME, what, i);
            if size_of::<T>() > 0 {
                ensure!(!last.contains(&addr(r)), "{} {}: value {} shares its place", T::NAME, what, i);
                last.push(addr(r));
            }
        }
    }
    let mut k = 0;
    v.iter_cloned().for_each(|x| {
        same(&x, m[k], what);
        k += 1
    });
    ensure_eq(k, n, "values cloned by iteration");
    let c = v.clone_to_vec();
    ensure_eq(c.len(), n, "length of the copy");
    c.iter().enumerate().for_each(|(i, x)| same(x, m[i], what));
    ensure!(format!("{:?}", v) == format!("{:?}", c), "{} {}: formatted as {:?}", T::NAME, what, v);
    for (i, x) in m.iter().enumerate() {
        let t = T::mk(*x);
        let first = c.iter().position(|y| *y == t);
        ensure!(v.index_of(&t) == first && v.contains(&t), "{} {}: search for value {}", T::NAME, what, i);
        ensure!(v.slice(i..).index_of(&t) == Some(0), "{} {}: search in a slice from {}", T::NAME, what, i);
    }
    drop(c);
    alive::<T>(n, what);
}

fn shapes<T: Tv, P: IntoConcurrentPinnedVec<El<T>> + PinnedVec<El<T>>>(make: fn() -> ConcurrentVec<T, P>) {
    let start = T::live().unwrap_or(0);
    ensure_eq(start, 0, "values alive at the start");
    {
        let n = choose(10);
        let v = make();
        let mut m: Vec<u64> = vec![];
        let how = choose(4);
        while m.len() < n {
            let b = m.len() as u64;
            let r = match how {
                0 => v.push(T::mk(b)),
                1 => v.push_for_idx(|i| T::mk(i as u64)),
                2 => v.extend((0..(n - m.len()).min(3)).map(|k| T::mk(b + k as u64)).collect::<Vec<_>>()),
                _ => v.extend_for_idx(|i| (i..(i + 5).min(n)).map(|k| T::mk(k as u64)).collect::<Vec<_>>(), (n - m.len()).min(5)),
            };
            ensure_eq(r as u64, b, "position of growth");
            let k = match how {
                0 | 1 => 1,
                2 => (n - m.len()).min(3),
                _ => (n - m.len()).min(5),
            };
            m.extend((0..k as u64).map(|k| b + k));
        }
        contents(&v, &m, "after growth");
        // updates of one element
        if n > 0 {
            let i = choose(n);
            v[i].set(T::mk(50));
            m[i] = 50;
            contents(&v, &m, "after set");
            same(&v[i].replace(T::mk(51)), 50, "replaced");
            m[i] = 51;
            v[i].update(|x| {
                same(x, 51, "updated");
                *x = T::mk(52)
            });
            m[i] = 52;
            contents(&v, &m, "after update");
            let j = (i + n / 2) % n;
            ensure!(v.swap(i, j), "swap");
            m.swap(i, j);
            contents(&v, &m, "after swap");
            unsafe { v.get_mut(j).map(|x| *x = T::mk(3)) };
            m[j] = 3;
            contents(&v, &m, "after a write through a reference");
            ensure!(!v.swap(i, n) && v[i] == T::mk(m[i]) && (v[i] == v[j]) == (T::mk(m[i]) == T::mk(m[j])), "{}: comparison of elements", T::NAME);
            v.slice(i..).fill(T::mk(9));
            m[i..].fill(9);
            contents(&v, &m, "after fill");
            v.fill_with(|i| T::mk(20 + i as u64));
            m = (20..20 + n as u64).collect();
            contents(&v, &m, "after fill_with");
            let k = v.fold(0, |k, x| k + (*x == T::mk(20)) as usize);
            ensure_eq(k, m.iter().filter(|x| T::mk(**x) == T::mk(20)).count(), "values counted by fold");
            same(&v.reduce(|_, x| x.clone()).unwrap(), m[n - 1], "reduced");
            ensure_eq(v.map(|x| (*x == T::mk(21)) as usize).sum::<usize>(), m.iter().filter(|x| T::mk(**x) == T::mk(21)).count(), "values counted by map");
            ensure_eq(v.filter(|x| *x == T::mk(20)).count(), k, "values counted by filter");
        }
        // the end
        match choose(7) {
            0 => drop(v),
            1 => {
                let o = v.to_vec();
                ensure_eq(o.len(), n, "length as plain vector");
                o.iter().zip(&m).for_each(|(x, i)| same(x, *i, "in a plain vector"));
                alive::<T>(n, "a plain vector");
            }
            2 => {
                let mut k = 0;
                v.into_iter().for_each(|x| {
                    same(&x, m[k], "iterated by value");
                    k += 1;
                    alive::<T>(n + 1 - k, "iteration by value");
                });
                ensure_eq(k, n, "number of values iterated");
            }
            3 => {
                let mut it = v.into_iter();
                for x in m.iter().take(n / 2) {
                    same(&it.next().unwrap(), *x, "iterated by value");
                }
                alive::<T>(n - n / 2, "iteration by value");
            }
            4 => {
                let mut v = v;
                v.clear();
                contents(&v, &[], "after clear");
                v.push(T::mk(1));
                v.extend([T::mk(2), T::mk(3)]);
                contents(&v, &[1, 2, 3], "after clear and growth");
            }
            5 => {
                let p = v.into_inner();
                ensure_eq(p.len(), n, "inner length");
                let v = ConcurrentVec::from(p);
                contents(&v, &m, "after a conversion");
                v.push(T::mk(90));
                m.push(90);
                contents(&v, &m, "after a conversion and growth");
            }
            _ => {
                let mut v = v;
                let want = v.maximum_capacity().min(1000) + 3;
                let got = v.reserve_maximum_capacity(want);
                ensure!(got >= want, "{}: maximum capacity {} after asking for {}", T::NAME, got, want);
                contents(&v, &m, "after reserving");
                v.extend([T::mk(91), T::mk(92)]);
                m.extend([91, 92]);
                contents(&v, &m, "after reserving and growth");
            }
        }
    }
    alive::<T>(0, "the end");
    leaks();
}

/// what exists for the default storage only
fn defaults<T: Tv>() {
    {
        let n = choose(7);
        let m: Vec<T> = (0..n as u64).map(T::mk).collect();
        let v: ConcurrentVec<T> = m.iter().cloned().collect();
        let w = v.clone();
        ensure!(v == w && v == m[..] && v.as_slice() == w.as_slice() && w.as_slice() == m[..] && v == w.as_slice(), "{}: copies of {} values differ", T::NAME, n);
        w.push(T::mk(1));
        ensure!(v != w && w.as_slice() != v && w != m[..], "{}: vectors of {} and {} values are equal", T::NAME, n, n + 1);
        if n > 0 && T::DISTINCT > n as u64 {
            let w = v.clone();
            let i = choose(n);
            w[i].set(T::mk(n as u64));
            ensure!(v != w && w != v && w != m[..] && v.as_slice() != w.as_slice(), "{}: vectors which differ at {} are equal", T::NAME, i);
            ensure!(v.slice(..i) == w.slice(..i) && v.slice(i + 1..) == w.slice(i + 1..), "{}: equal windows differ", T::NAME);
        }
        ensure!(v == m[..], "{}: changing a copy changed the original", T::NAME);
        drop((w, m));
        contents(&v, &(0..n as u64).collect::<Vec<_>>()[..], "collected");
    }
    alive::<T>(0, "the end");
    leaks();
}
/// two threads and elements of every shape
fn shapes_conc<T: Tv, P: IntoConcurrentPinnedVec<El<T>>>(make: fn() -> ConcurrentVec<T, P>, n: usize, k: usize) {
    {
        let v = make();
        for i in 0..n {
            v.push(T::mk(i as u64));
        }
        let ok = |x: &T| (0..n as u64).chain(50..60).any(|i| *x == T::mk(i));
        let mut at = [usize::MAX; 2];
        let (a, b) = at.split_at_mut(1);
        let jobs: Vec<Job<'_>> = vec![
            Box::new(|| {
                a[0] = match k % 3 {
                    0 => v.push(T::mk(50)),
                    1 => v.extend([T::mk(50), T::mk(51)]),
                    _ => v.push_for_idx(|_| T::mk(50)),
                };
                if k == 4 {
                    v[0].update(|x| *x = T::mk(53));
                }
            }),
            Box::new(|| match k {
                0 | 1 => b[0] = v.push(T::mk(52)),
                2 => {
                    let c = v.clone_to_vec();
                    ensure!(c.len() >= n && c.iter().all(ok), "{}: values read while another thread grows the vector", T::NAME);
                }
                3 => {
                    v.iter().for_each(|e| ensure!(e.map(ok), "{}: value read while another thread grows the vector", T::NAME));
                    let l = v.len();
                    ensure!(v.get_cloned(n).is_some_and(|x| ok(&x)) || l == n, "{}: element below the length", T::NAME);
                }
                4 => {
                    ensure!(v.swap(0, n - 1) && ok(&v[0].replace(T::mk(54))), "{}: value replaced", T::NAME);
                }
                _ => {
                    v.fill_with(|_| T::mk(55));
                    ensure!(unsafe { v.get_ref(0) }.is_some(), "{}: reference", T::NAME);
                }
            }),
        ];
        mc::threads(jobs);
        let adds = 1 + (k % 3 == 1) as usize + (k < 2) as usize;
        ensure_eq(v.len(), n + adds, "length");
        if k < 2 {
            ensure!(v[at[0]] == T::mk(50) && v[at[1]] == T::mk(52) && at[0] != at[1], "{}: values at {:?}", T::NAME, at);
        }
        ensure!(v.iter_cloned().all(|x| ok(&x)), "{}: values at the end", T::NAME);
        alive::<T>(n + adds, "the end of the threads");
    }
    alive::<T>(0, "the end");
    leaks();
}

/// values which differ from themselves
fn nan() {
    {
        let nan = f64::NAN;
        let m = [[1.0, nan, 2.0], [nan, nan, nan], [1.0, 2.0, nan], [0.0, 3.0, -0.0]][choose(4)];
        let v: ConcurrentVec<f64> = m.iter().copied().collect();
        let w = v.clone();
        let eq = m == m;
        let chk = |r: bool, want: bool, how: &str| ensure!(r == want, "{} of {:?} gave {}", how, m, r);
        chk(v == v, eq, "comparison of a vector with itself");
        chk(v == w, eq, "comparison of a vector with its copy");
        chk(v.as_slice() == v.as_slice(), eq, "comparison of a slice with itself");
        chk(v == v.as_slice() || v.as_slice() == v, eq, "comparison of a vector with its slice");
        chk(v == m || v == m[..] || v.as_slice() == m || v.as_slice() == m[..], eq, "comparison with an array");
        for i in 0..3 {
            chk(v[i] == v[i], m[i] == m[i], "comparison of an element with itself");
            chk(v[i] == w[i], m[i] == m[i], "comparison of an element with its copy");
            chk(v[i] == m[i], m[i] == m[i], "comparison of an element with a value");
            for j in 0..3 {
                chk(v[i] == v[j], m[i] == m[j], "comparison of two elements");
                chk(v.slice(i..j) == w.slice(i..j), j <= i || m[i..j] == m[i..j], "comparison of slices");
            }
            chk(v.contains(&m[i]), m.contains(&m[i]), "search");
            ensure!(v.index_of(&m[i]) == m.iter().position(|x| *x == m[i]), "index of {} in {:?}", m[i], m);
            ensure!(w[i].copied().to_bits() == m[i].to_bits() && v.get_copied(i).unwrap().to_bits() == m[i].to_bits(), "copy of {}", m[i]);
        }
        ensure!(format!("{:?}", v) == format!("{:?}", m), "formatted as {:?}", v);
    }
    leaks();
}

// ------------------------------------------------------------------ iterators

fn hint<I: Iterator>(it: &I, left: usize, what: &str) {
    let (lo, hi) = it.size_hint();
    ensure!(lo <= left && hi.is_none_or(|h| h >= left), "{}: {} items left, announced {:?}", what, left, (lo, hi));
}

/// all ways of going through an iterator
fn proto<I: Iterator, X: PartialEq + Debug>(what: &str, mk: &dyn Fn() -> I, cv: &dyn Fn(I::Item) -> X, want: &[X]) {
    let n = want.len();
    let at = |i: usize| want.get(i);
    let same = |x: Option<I::Item>, i: usize, how: &str| {
        let x = x.map(cv);
        ensure!(x.as_ref() == at(i), "{}: {} gave {:?} instead of {:?}", what, how, x, at(i));
    };
    {
        let mut it = mk();
        for i in 0..n + 3 {
            hint(&it, n.saturating_sub(i), what);
            same(it.next(), i, "next");
        }
    }
    for k in 0..n + 2 {
        let mut it = mk();
        same(it.nth(k), k, "nth");
        if k < n {
            hint(&it, n - k - 1, what);
            same(it.next(), k + 1, "next after nth");
            same(it.nth(1), k + 3, "nth after nth");
        }
        let mut o = vec![];
        mk().skip(k).for_each(|x| o.push(cv(x)));
        ensure!(o[..] == want[k.min(n)..], "{}: {:?} after skipping {}", what, o, k);
        let mut it = mk();
        let mut o: Vec<X> = it.by_ref().take(k).map(cv).collect();
        o.extend(it.map(cv));
        ensure!(o == want, "{}: {:?} in two parts, {} first", what, o, k);
        let mut it = mk();
        for _ in 0..k {
            it.next();
        }
        ensure_eq(it.count(), n.saturating_sub(k), what);
        let mut i = 0;
        let r = mk().try_for_each(|x| {
            same(Some(x), i, "try_for_each");
            i += 1;
            if i == k { None } else { Some(()) }
        });
        ensure!(r.is_none() == (k > 0 && k <= n) && i == if k == 0 { n } else { k.min(n) }, "{}: {} items visited until {}", what, i, k);
    }
    for k in 1..4 {
        let o: Vec<X> = mk().step_by(k).map(cv).collect();
        ensure!(o.iter().eq(want.iter().step_by(k)), "{}: {:?} in steps of {}", what, o, k);
    }
    same(mk().last(), n.wrapping_sub(1), "last");
    same(mk().fold(None, |_, x| Some(x)), n.wrapping_sub(1), "fold");
}

fn protocols<P: IntoConcurrentPinnedVec<El<V>>>(make: fn() -> ConcurrentVec<V, P>, n: usize) {
    {
        let m: Vec<u64> = (0..n as u64).map(|x| x * 3 + 1).collect();
        let fresh = || {
            let v = make();
            m.iter().for_each(|x| {
                v.push(V::new(*x));
            });
            v
        };
        let el = |e: &El<V>| e.map(|x| x.get());
        let even: Vec<u64> = m.iter().copied().filter(|x| x % 2 == 0).collect();
        match choose(4) {
            0 => {
                let v = fresh();
                proto("iter", &|| v.iter(), &|e| el(e), &m);
                proto("iter_cloned", &|| v.iter_cloned(), &|x| x.get(), &m);
                proto("map", &|| v.map(|x| x.get() + 1), &|x| x - 1, &m);
                proto("filter", &|| v.filter(|x| x.get() % 2 == 0), &|e| el(e), &even);
                proto("iter_ref", &|| unsafe { v.iter_ref() }, &|x| x.get(), &m);
                proto("iter_mut", &|| unsafe { v.iter_mut() }, &|x| x.get(), &m);
            }
            1 => {
                let v = fresh();
                for (a, b) in [(0, n), (1.min(n), n), (n / 2, n), (n / 3, n - n / 4)] {
                    let s = v.slice(a..b);
                    let m = &m[a..b];
                    let even: Vec<u64> = m.iter().copied().filter(|x| x % 2 == 0).collect();
                    proto("iter of a slice", &|| s.iter(), &|e| el(e), m);
                    proto("iter_cloned of a slice", &|| s.iter_cloned(), &|x| x.get(), m);
                    proto("map of a slice", &|| s.map(|x| x.get() + 1), &|x| x - 1, m);
                    proto("filter of a slice", &|| s.filter(|x| x.get() % 2 == 0), &|e| el(e), &even);
                    proto("iter_ref of a slice", &|| unsafe { s.iter_ref() }, &|x| x.get(), m);
                    proto("iter_mut of a slice", &|| unsafe { s.iter_mut() }, &|x| x.get(), m);
                }
            }
            2 => {
                let v = fresh();
                let s = v.as_slice();
                for k in 1..n + 2 {
                    let want: Vec<Vec<u64>> = m.chunks(k).map(|c| c.to_vec()).collect();
                    proto("chunks", &|| v.chunks(k), &|s| s.iter().map(el).collect::<Vec<_>>(), &want);
                    proto("chunks of a slice", &|| s.chunks(k), &|s| s.iter().map(el).collect::<Vec<_>>(), &want);
                    let mut it = v.chunks(k);
                    for i in 0..=want.len() {
                        ensure_eq(it.len(), want.len() - i, "number of chunks left");
                        it.next();
                    }
                }
            }
            _ => proto("into_iter", &|| fresh().into_iter(), &|x| x.get(), &m),
        }
    }
    leaks();
}

/// what an iterator obtained before the vector grows or changes visits afterwards
fn late<P: IntoConcurrentPinnedVec<El<V>>>(make: fn() -> ConcurrentVec<V, P>, n: usize) {
    {
        let v = make();
        for i in 0..n {
            v.push(V::new(i as u64));
        }
        let before = choose(n + 1);
        let add = choose(4);
        let k = choose(7);
        let grow = || {
            for i in 0..add {
                v.push(V::new((n + i) as u64));
            }
        };
        macro_rules! go {
            ($it:expr, $cv:expr, $win:expr) => {{
                let mut it = $it;
                let mut o: Vec<u64> = it.by_ref().take(before).map($cv).collect();
                grow();
                o.extend(it.map($cv));
                let total = o.len();
                ensure!(o.iter().copied().eq(0..total as u64), "iterator {}: visited {:?}", k, o);
                ensure!(if $win { total == n } else { (n..=n + add).contains(&total) }, "iterator {}: visited {} elements of {}, then {}", k, total, n, n + add);
            }};
        }
        let el = |e: &El<V>| e.map(|x| x.get());
        let s = v.as_slice();
        match k {
            0 => go!(v.iter(), el, false),
            1 => go!(v.iter_cloned(), |x: V| x.get(), false),
            2 => go!(v.map(|x| x.get()), |x| x, false),
            3 => go!(v.filter(|_| true), el, false),
            4 => go!(unsafe { v.iter_ref() }, |x: &V| x.get(), false),
            5 => go!(s.iter(), el, true),
            _ => go!(s.iter_cloned(), |x: V| x.get(), true),
        }
    }
    leaks();
}

// ------------------------------------------------------------------ large vectors

/// growth far beyond the first blocks; everything is inspected where blocks begin and end
fn large<P: IntoConcurrentPinnedVec<El<u64>> + PinnedVec<El<u64>>>(make: fn() -> ConcurrentVec<u64, P>, top: usize) {
    {
        let how = choose(4);
        let v = make();
        let mut m: Vec<u64> = vec![];
        let mut last = 0;
        let mut addrs: Vec<usize> = vec![];
        let mut step = 1;
        while m.len() < top {
            let b = m.len();
            step = (step * 7 + 3) % 61 + 1;
            let k = match how {
                0 | 1 => 1,
                2 => step.min(top - b),
                _ => (step * 5).min(top - b),
            };
            let x = |i: usize| (i as u64 + 1) * 1_000_003;
            let r = match how {
                0 => v.push(x(b)),
                1 => v.push_for_idx(x),
                2 => v.extend((b..b + k).map(x).collect::<Vec<_>>()),
                _ => v.extend_for_idx(|i| (i..i + k).map(x).collect::<Vec<_>>(), k),
            };
            ensure_eq(r, b, "position of growth");
            m.extend((b..b + k).map(x));
            let c = v.capacity();
            ensure!(v.len() == m.len() && c >= m.len() && c <= v.maximum_capacity(), "length {} and capacity {} of {} elements", v.len(), c, m.len());
            for i in [b, b + k - 1] {
                ensure!(v.get_cloned(i) == Some(m[i]) && v[i].copied() == m[i] && unsafe { v.get_ref(i) } == Some(&m[i]), "element {}", i);
            }
            ensure!(v.get(m.len()).is_none() && v.get_cloned(m.len()).is_none() && v.get_raw(m.len()).is_none(), "element beyond {}", m.len());
            for i in b..b + k {
                addrs.push(v.get_raw(i).unwrap() as usize);
            }
            // when a block is full or has just been added, or now and then
            if c != last || c == m.len() || m.len() % 257 == 0 || m.len() == top {
                last = c;
                let n = m.len();
                ensure!(v.iter_cloned().eq(m.iter().copied()), "contents of {} elements", n);
                ensure!(v.iter().zip(&m).filter(|(e, x)| **e == **x).count() == n, "elements of {}", n);
                ensure!((0..n).all(|i| v.get_raw(i).unwrap() as usize == addrs[i]), "addresses of {} elements", n);
                ensure!(unsafe { v.iter_ref() }.eq(m.iter()), "references to {} elements", n);
                for a in [0, n / 2, n - 1] {
                    ensure!(v.slice(a..n).iter_cloned().eq(m[a..].iter().copied()) && v.slice(..a).len() == a, "slices at {} of {}", a, n);
                }
                ensure!(v.index_of(&m[n - 1]) == Some(n - 1) && !v.contains(&7), "search in {}", n);
                ensure!(v.swap(0, n - 1) && v[0] == m[n - 1] && v.swap(n - 1, 0) && v[0] == m[0] && !v.swap(0, n), "swap in {}", n);
                ensure_eq(v.chunks(n.div_ceil(3)).map(|s| s.len()).sum::<usize>(), n, "sum of the chunks");
            }
        }
        match choose(3) {
            0 => ensure!(v.to_vec() == m, "as plain vector"),
            1 => ensure!(v.into_iter().eq(m), "iterated by value"),
            _ => {
                let v = ConcurrentVec::from(v.into_inner());
                ensure!(v.iter_cloned().eq(m) && v.len() == top, "after a conversion");
                if v.maximum_capacity() > top {
                    ensure_eq(v.push(5), top, "position of a push after a conversion");
                }
            }
        }
    }
    leaks();
}

/// every operation once on a vector of very many elements
struct Huge(usize);
impl Generic<u64> for Huge {
    fn run<P: St<u64>>(&self, k: Kind) {
        {
            let top = self.0;
            let mut v = P::make(k);
            let max = v.maximum_capacity();
            let x = |i: usize| (i as u64 + 1) * 1_000_003;
            let mut m: Vec<u64> = (0..top).map(x).collect();
            let mut some: Vec<(usize, usize)> = vec![];
            match choose(2) {
                0 => {
                    for i in 0..top {
                        ensure_eq(v.push(m[i]), i, "position of a push");
                        if i % 1009 == 0 {
                            some.push((i, v.get_raw(i).unwrap() as usize));
                            mc::progress();
                        }
                    }
                }
                _ => {
                    let cut = top / 3;
                    ensure_eq(v.extend(m[..cut].to_vec()), 0, "position of extend");
                    some.extend((0..cut).step_by(1009).map(|i| (i, v.get_raw(i).unwrap() as usize)));
                    mc::progress();
                    ensure_eq(v.extend_for_idx(|i| (i..top - 1).map(x).collect::<Vec<_>>(), top - 1 - cut), cut, "position of extend_for_idx");
                    ensure_eq(v.push_for_idx(x), top - 1, "position of push_for_idx");
                }
            }
            let all = |v: &ConcurrentVec<u64, P>, m: &[u64], what: &str| {
                mc::progress();
                ensure_eq(v.len(), m.len(), what);
                ensure!(v.iter_cloned().eq(m.iter().copied()), "contents: {}", what);
                mc::progress();
            };
            all(&v, &m, "after growth");
            ensure!(v.capacity() >= top && v.maximum_capacity() == max && max >= top, "capacity {} and {}", v.capacity(), v.maximum_capacity());
            for (i, a) in &some {
                ensure_eq(v.get_raw(*i).unwrap() as usize, *a, "address");
                ensure!(unsafe { v.get_ref(*i) } == Some(&m[*i]) && v[*i].copied() == m[*i], "element {}", i);
            }
            let near: Vec<usize> = [0, 255, 256, 4095, 4096, 65_534, 65_535, 65_536, 65_537, 131_071, 131_072, 131_073, top - 1, top].into_iter().filter(|i| *i <= top).collect();
            for &i in &near {
                ensure!(v.get(i).map(|e| e.copied()) == m.get(i).copied() && v.get_copied(i) == m.get(i).copied(), "element {}", i);
                ensure!(unsafe { v.get_ref(i) } == m.get(i) && unsafe { v.get_mut(i) }.copied() == m.get(i).copied() && v.get_raw(i).is_some() == (i < top) && v.get_raw_mut(i).is_some() == (i < top), "references to {}", i);
                ensure!(v.swap(i, top - 1) == (i < top) && v.swap(top - 1, i) == (i < top), "swap of {}", i);
                let (a, b) = v.split_at(i);
                ensure!(a.len() == i && b.len() == top - i && b.get(0).map(|e| e.copied()) == m.get(i).copied() && b.get(top - i).is_none() && a.get(i).is_none(), "split at {}", i);
                for j in [i, (i + 3).min(top), top] {
                    let w = v.slice(i..j);
                    ensure!(w.len() == j - i && w.iter().count() == j - i && w.get(0).map(|e| e.copied()) == m[i..j].first().copied(), "slice {}..{}", i, j);
                    ensure!(j == i || (w[j - i - 1].copied() == m[j - 1] && w.slice(j - i - 1..).iter_cloned().eq([m[j - 1]])), "end of slice {}..{}", i, j);
                    mc::progress();
                }
                if i < top {
                    ensure!(v.index_of(&m[i]) == Some(i) && v.slice(i..).index_of(&m[i]) == Some(0), "search of {}", i);
                    v[i].update(|x| *x += 1);
                    ensure!(v[i].replace(m[i]) == m[i] + 1, "replaced {}", i);
                }
                mc::progress();
            }
            ensure!(!v.contains(&7), "absent value");
            ensure_eq(v.map(|x| *x).max(), m.last().copied(), "map");
            ensure_eq(v.filter(|x| *x % 2 == 0).count(), m.iter().filter(|x| *x % 2 == 0).count(), "filter");
            mc::progress();
            ensure_eq(v.fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x)), m.iter().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x)), "fold");
            ensure_eq(v.reduce(|a, b| a.wrapping_mul(31).wrapping_add(*b)), m.iter().copied().reduce(|a, b| a.wrapping_mul(31).wrapping_add(b)), "reduce");
            mc::progress();
            for c in [1000, 65_535, 65_536, top - 1, top, top + 1] {
                let mut at = 0;
                for w in v.chunks(c) {
                    ensure!(w.len() == c.min(top - at) && w[0].copied() == m[at] && w.iter().count() == w.len(), "chunk of {} at {}", c, at);
                    at += w.len();
                }
                ensure_eq(at, top, "sum of the chunks");
                ensure_eq(v.chunks(c).len(), top.div_ceil(c), "number of chunks");
                mc::progress();
            }
            ensure!(unsafe { v.iter_ref() }.eq(m.iter()) && unsafe { v.iter_mut() }.map(|x| *x).eq(m.iter().copied()), "references");
            mc::progress();
            ensure!(v.clone_to_vec() == m && v.as_slice().clone_to_vec() == m, "as plain vector");
            mc::progress();
            ensure!(P::vec_eq(&v, &v) != Some(false) && P::vec_eq_arr(&v, &m) != Some(false), "equality");
            mc::progress();
            m[top - 1] += 1;
            ensure!(P::vec_eq_arr(&v, &m) != Some(true) && P::vec_eq_arr(&v, &m[..top - 1]) != Some(true), "inequality");
            mc::progress();
            m[top - 1] -= 1;
            if let Some(w) = P::vec_clone(&v) {
                w[top - 1].set(3);
                ensure!(P::vec_eq(&v, &w) == Some(false) && v[top - 1].copied() == m[top - 1], "inequality with the copy");
                mc::progress();
                w.fill(4);
                ensure!(w.push(5) == top && w.iter().filter(|e| e.copied() == 4).count() == top && w.into_iter().count() == top + 1, "filled copy");
                mc::progress();
            }
            v.fill_with(|i| x(i) + 1);
            m.iter_mut().for_each(|x| *x += 1);
            all(&v, &m, "after fill_with");
            let last = v.slice(top - 2..);
            last.fill_with(|i| i as u64);
            m[top - 2] = 0;
            m[top - 1] = 1;
            let v2 = v.into_inner();
            ensure_eq(v2.len(), top, "length of the pinned vector");
            v = ConcurrentVec::from(v2);
            all(&v, &m, "after a conversion");
            let room = v.maximum_capacity() > top;
            if room {
                ensure_eq(v.push(9), top, "position of a push after a conversion");
                m.push(9);
            }
            v.reserve_maximum_capacity(top + 100);
            all(&v, &m, "after reserve");
            match choose(3) {
                0 => ensure!(v.to_vec() == m, "as plain vector"),
                1 => ensure!(v.into_iter().eq(m), "iterated by value"),
                _ => {
                    v.clear();
                    ensure!(v.is_empty() && v.get_raw(0).is_none(), "cleared");
                    ensure_eq(v.extend(m.clone()), 0, "position after clear");
                    all(&v, &m, "after clear");
                }
            }
        }
        leaks();
    }
}

/// threads growing a vector where one of its later blocks ends
fn large_conc<P: IntoConcurrentPinnedVec<El<V>>>(make: fn() -> ConcurrentVec<V, P>, n: usize, k: usize) {
    {
        let v = make();
        v.extend((0..n).map(|i| V::new(i as u64)).collect::<Vec<_>>());
        let mut at = [(usize::MAX, 0u64, 0usize); 2];
        let (a, b) = at.split_at_mut(1);
        let vals = |x: u64, c: usize| (0..c).map(move |i| V::new(x + i as u64)).collect::<Vec<_>>();
        let jobs: Vec<Job<'_>> = vec![
            Box::new(|| {
                a[0] = match k {
                    0 | 3 => (v.push(V::new(5000)), 5000, 1),
                    1 => (v.extend(vals(5000, 3)), 5000, 3),
                    _ => (v.extend_for_idx(|_| vals(5000, 12), 12), 5000, 12),
                }
            }),
            Box::new(|| match k {
                0 | 2 => b[0] = (v.push(V::new(6000)), 6000, 1),
                1 => b[0] = (v.extend(vals(6000, 9)), 6000, 9),
                _ => {
                    let l = v.len();
                    let e = v.get(n).map(|e| e.map(|x| x.get()));
                    ensure!(e.is_none_or(|x| x == 5000) && (l == n || e.is_some()) && l <= n + 1, "length {} and element {:?} of {}", l, e, n);
                    ensure!(v.iter().skip(n - 2).map(|e| e.map(|x| x.get())).all(|x| x == 5000 || (n as u64 - 2..n as u64).contains(&x)), "last elements");
                    b[0] = (n - 1, n as u64 - 1, 1);
                }
            }),
        ];
        mc::threads(jobs);
        let mut m: Vec<u64> = (0..n as u64).collect();
        let mut o = at;
        o.sort();
        for (p, x, c) in o {
            if p >= n {
                ensure_eq(m.len(), p, "position of growth");
                m.extend((0..c as u64).map(|i| x + i));
            }
        }
        ensure_eq(v.len(), m.len(), "length");
        ensure!(v.into_iter().map(|x| x.get()).eq(m.iter().copied()), "contents: {:?}", at);
    }
    leaks();
}

/// the maximum capacity is what was asked for on construction, and all of it can be used
fn limits() {
    let max = |v: usize, want: usize, what: &str| ensure_eq(v, want, what);
    match choose(4) {
        0 => {
            let huge = u32::MAX as usize;
            let a: ConcurrentVec<u64> = ConcurrentVec::new();
            let b: ConcurrentVec<u64> = Default::default();
            let c: ConcurrentVec<u64> = ConcurrentVec::with_doubling_growth();
            let d: ConcurrentVec<u64> = (0..3).collect();
            let e: ConcurrentVec<u64> = (0..9).filter(|x| x % 3 > 0).collect();
            let f = d.clone();
            for (v, what) in [(&a, "new"), (&b, "default"), (&c, "with_doubling_growth"), (&d, "collect"), (&e, "collect filtered"), (&f, "clone")] {
                ensure!(v.maximum_capacity() >= huge, "{}: a vector of the default growth holds up to {}", what, v.maximum_capacity());
                ensure!(v.capacity() >= v.len() && v.capacity() < 100, "{}: capacity {}", what, v.capacity());
            }
            for (v, l) in [(a, 0), (b, 0), (c, 0), (d, 3), (e, 6), (f, 3)] {
                let w = ConcurrentVec::from(v.into_inner());
                ensure!(w.maximum_capacity() >= huge && w.len() == l, "converted: length {}, maximum {}", w.len(), w.maximum_capacity());
            }
        }
        1 => {
            let (e, f) = (1 + choose(6), 1 + choose(6));
            let v: ConcurrentVec<u64, _> = ConcurrentVec::with_linear_growth(e, f);
            max(v.maximum_capacity(), f << e, "maximum capacity of linear growth");
            fill_up(v);
        }
        2 => {
            let n = choose(20);
            let v: ConcurrentVec<u64, _> = ConcurrentVec::with_fixed_capacity(n);
            max(v.maximum_capacity(), n, "maximum capacity of a fixed vector");
            max(v.capacity(), n, "capacity of a fixed vector");
            fill_up(v);
        }
        _ => {
            let f = 1 + choose(5);
            let v: ConcurrentVec<u64, _> = SplitVec::with_doubling_growth_and_fragments_capacity(f).into();
            max(v.maximum_capacity(), 4 * ((1 << f) - 1), "maximum capacity of doubling growth");
            fill_up(v);
        }
    }
    leaks();
}

fn fill_up<P: IntoConcurrentPinnedVec<El<u64>> + PinnedVec<El<u64>>>(v: ConcurrentVec<u64, P>) {
    let max = v.maximum_capacity();
    ensure!(v.capacity() <= max, "capacity {} of at most {}", v.capacity(), max);
    let step = [1, 2, 3, 7, max.max(1)][choose(5)];
    let mut n = 0;
    while n < max {
        let k = step.min(max - n);
        let at = match (k, n % 2) {
            (1, 0) => v.push(n as u64),
            (1, _) => v.push_for_idx(|i| i as u64),
            (_, 0) => v.extend((n..n + k).map(|x| x as u64).collect::<Vec<_>>()),
            _ => v.extend_for_idx(|i| (i..i + k).map(|x| x as u64).collect::<Vec<_>>(), k),
        };
        ensure_eq(at, n, "position of growth");
        n += k;
        ensure!(v.len() == n && v.capacity() >= n && v.capacity() <= max && v.maximum_capacity() == max, "length {} of {}, capacity {}, maximum {}", v.len(), n, v.capacity(), v.maximum_capacity());
    }
    let r = match choose(3) {
        0 => mc::catch(|| v.push(77)),
        1 => mc::catch(|| v.extend([77])),
        _ => mc::catch(|| v.push_for_idx(|_| 77)),
    };
    ensure!(r.is_none(), "an element is stored beyond the maximum capacity {}", max);
    ensure!(v.len() == max && v.iter_cloned().eq(0..max as u64), "contents after reaching the maximum capacity");
    ensure!(v.to_vec().into_iter().eq(0..max as u64), "contents after conversion");
}

/// positions, ranges and sizes at the end of what a `usize` holds
fn extremes<P: IntoConcurrentPinnedVec<El<u64>> + PinnedVec<El<u64>>>(make: fn() -> ConcurrentVec<u64, P>, n: usize) {
    use std::ops::Bound::{self, *};
    const M: usize = usize::MAX;
    {
        let v = make();
        let m: Vec<u64> = (0..n as u64).collect();
        m.iter().for_each(|x| {
            v.push(*x);
        });
        let k = choose(n + 1);
        let whole = v.as_slice();
        let part = v.slice(k..);
        let starts: [(Bound<usize>, usize); 6] = [(Included(M), n), (Included(M - 1), n), (Excluded(M), n), (Excluded(M - 1), n), (Included(n), n), (Unbounded, 0)];
        let ends: [(Bound<usize>, usize); 7] = [(Included(M), n), (Included(M - 1), n), (Excluded(M), n), (Excluded(M - 1), n), (Included(n), n), (Unbounded, n), (Excluded(1), 1.min(n))];
        match choose(4) {
            0 => {
                let (s, a) = starts[choose(6)];
                let (e, b) = ends[choose(7)];
                for (w, off) in [(&whole, 0), (&part, k)] {
                    let len = n - off;
                    let (a, b) = (a.min(len), b.min(len));
                    let got: Vec<u64> = w.slice((s, e)).iter_cloned().collect();
                    ensure!(got[..] == m[off..][a.min(b)..b], "slice {:?} of {} elements: {:?}", (s, e), len, got);
                }
                let got: Vec<u64> = v.slice((s, e)).iter_cloned().collect();
                ensure!(got[..] == m[a.min(b)..b], "slice {:?} of a vector of {} elements: {:?}", (s, e), n, got);
            }
            1 => {
                for i in [M, M - 1, M - k, M / 2, M / 2 + 1, M - n] {
                    let r = (v.get(i).is_none(), v.get_cloned(i), v.get_copied(i), v.get_raw(i).is_none(), v.get_raw_mut(i).is_none(), unsafe { (v.get_ref(i).is_none(), v.get_mut(i).is_none()) });
                    ensure!(r == (true, None, None, true, true, (true, true)), "element {} of {}", i, n);
                    let s = &part;
                    let r = (s.get(i).is_none(), s.get_cloned(i), s.get_copied(i), s.get_raw(i).is_none(), s.get_raw_mut(i).is_none(), unsafe { (s.get_ref(i).is_none(), s.get_mut(i).is_none()) });
                    ensure!(r == (true, None, None, true, true, (true, true)), "element {} of a slice of {}", i, n - k);
                    ensure!(!v.swap(0, i) && !v.swap(i, 0) && !v.swap(i, i) && !s.swap(0, i) && !s.swap(i, 0) && !s.swap(i, i), "swap with {}", i);
                    ensure!(mc::catch(|| v[i].cloned()).is_none() && mc::catch(|| s[i].cloned()).is_none(), "indexing by {}", i);
                    ensure!(mc::catch(|| v.split_at(i).0.len()).is_none() && mc::catch(|| s.split_at(i).0.len()).is_none(), "split at {}", i);
                }
            }
            2 => {
                for i in [M, M - 1, M / 2 + 1] {
                    let c: Vec<Vec<u64>> = v.chunks(i).map(|s| s.clone_to_vec()).collect();
                    ensure!(c.concat() == m && c.len() == 1.min(n), "chunks of {}: {:?}", i, c);
                    let c: Vec<Vec<u64>> = part.chunks(i).map(|s| s.clone_to_vec()).collect();
                    ensure!(c.concat() == m[k..] && c.len() == 1.min(n - k), "chunks of {} of a slice: {:?}", i, c);
                    let mut it = v.iter_cloned();
                    ensure!(it.nth(i).is_none() && v.iter().skip(i).next().is_none() && part.iter_cloned().take(i).count() == n - k, "skipping {}", i);
                }
            }
            _ => {
                for i in [M, M - 1, M - n, M / 2 + 1] {
                    if i > v.maximum_capacity() {
                        ensure!(mc::catch(|| v.extend_n_items(Some(1), i)).is_none(), "extending by {}", i);
                        ensure!(mc::catch(|| v.extend_for_idx(|_| Some(1), i)).is_none(), "extending by {}", i);
                    }
                }
            }
        }
        ensure!(v.len() == n && v.iter_cloned().eq(m.iter().copied()), "contents");
        ensure!(v.to_vec() == m, "contents after conversion");
    }
    leaks();
}

/// a slice of a slice of a slice ..., and equality of windows of one vector
fn deep_slices() {
    {
        let v: ConcurrentVec<u64> = (0..14u64).map(|x| x % 3).collect();
        let m: Vec<u64> = (0..14u64).map(|x| x % 3).collect();
        let (a, b) = (choose(15), choose(15));
        let (s, t) = (v.slice(a.min(b)..a.max(b)), &m[a.min(b)..a.max(b)]);
        let l = choose(15);
        for c in 0..=14 - l {
            ensure!((s == v.slice(c..c + l)) == (*t == m[c..c + l]), "comparison of {}..{} with {}..{}", a.min(b), a.max(b), c, c + l);
        }
    }
    leaks();
}

// ------------------------------------------------------------------ the list

pub fn sequential(deep: bool) -> Vec<SeqScen> {
    let mut out: Vec<SeqScen> = vec![];
    let mut add = |name: String, props: &[&'static str], run: Box<dyn Fn()>| out.push(SeqScen { name, props: props.to_vec(), run });
    macro_rules! types {
        ($($t:ty),*) => { $(
            let p: &[&'static str] = match <$t>::NAME {
                "token" => &["C09", "C11", "C16", "C17", "C02", "C12"],
                "unit" => &["C11", "C16", "C03", "C01"],
                "aligned" | "padded" | "u8" => &["C08", "C11", "C18", "C07"],
                _ => &["C11", "C16", "C15", "C18", "C09"],
            };
            add(format!("types/{}/Dbl", <$t>::NAME), p, Box::new(|| shapes::<$t, Dbl<$t>>(ConcurrentVec::new)));
            add(format!("types/{}/Lin", <$t>::NAME), p, Box::new(|| shapes::<$t, Lin<$t>>(|| ConcurrentVec::with_linear_growth(1, 6))));
            add(format!("types/{}/Fix", <$t>::NAME), p, Box::new(|| shapes::<$t, Fix<$t>>(|| ConcurrentVec::with_fixed_capacity(11))));
            add(format!("types/{}/defaults", <$t>::NAME), &["C15", "C16"], Box::new(|| defaults::<$t>()));
        )* };
    }
    types!((), u8, bool, u128, String, &'static str, Box<u64>, Option<Box<u16>>, NonZeroU8, [u64; 33], Vec<u8>, (u8, u64, u8), Option<Option<bool>>, Wide, Token);
    add("types/nan".into(), &["C15", "C16"], Box::new(nan));
    add("types/windows".into(), &["C15", "C10"], Box::new(deep_slices));
    for n in 0..=if deep { 14 } else { 9 } {
        let p = &["C14", "C10", "C11", "C18", "C16", "C09"];
        add(format!("iterators/Dbl/{}", n), p, Box::new(move || protocols::<Dbl<V>>(ConcurrentVec::new, n)));
        add(format!("iterators/Lin/{}", n), p, Box::new(move || protocols::<Lin<V>>(|| ConcurrentVec::with_linear_growth(1, 8), n)));
        add(format!("iterators/Fix/{}", n), p, Box::new(move || protocols::<Fix<V>>(|| ConcurrentVec::with_fixed_capacity(14), n)));
    }
    for n in [0, 1, 2, 3, 4, 5] {
        let p = &["C14", "C10", "C18"];
        add(format!("late/Dbl/{}", n), p, Box::new(move || late::<Dbl<V>>(ConcurrentVec::new, n)));
        add(format!("late/Lin/{}", n), p, Box::new(move || late::<Lin<V>>(|| ConcurrentVec::with_linear_growth(1, 8), n)));
        add(format!("late/Fix/{}", n), p, Box::new(move || late::<Fix<V>>(|| ConcurrentVec::with_fixed_capacity(14), n)));
    }
    let p = &["C11", "C08", "C03", "C16", "C01"];
    for n in [0, 1, 3, 5] {
        let p = &["C10", "C11", "C12", "C18"];
        add(format!("extremes/Dbl/{}", n), p, Box::new(move || extremes::<Dbl<u64>>(ConcurrentVec::new, n)));
        add(format!("extremes/Lin/{}", n), p, Box::new(move || extremes::<Lin<u64>>(|| ConcurrentVec::with_linear_growth(1, 4), n)));
        add(format!("extremes/Fix/{}", n), p, Box::new(move || extremes::<Fix<u64>>(|| ConcurrentVec::with_fixed_capacity(6), n)));
    }
    add("large/limits".into(), &["C12", "C11", "C17"], Box::new(limits));
    let top = if deep { 4200 } else { 1100 };
    add(format!("large/Dbl/{}", top), p, Box::new(move || large::<Dbl<u64>>(ConcurrentVec::new, top)));
    add(format!("large/Lin4/{}", top), p, Box::new(move || large::<Lin<u64>>(|| ConcurrentVec::with_linear_growth(4, 400), top)));
    add(format!("large/Lin10/{}", top), p, Box::new(move || large::<Lin<u64>>(|| ConcurrentVec::with_linear_growth(10, 5), top)));
    add(format!("large/Fix/{}", top), p, Box::new(move || large::<Fix<u64>>(|| ConcurrentVec::with_fixed_capacity(5000), top)));
    let p = &["C11", "C10", "C14", "C16", "C08", "C01", "C15", "C17"];
    let (e, top) = if deep { (10, 131_080) } else { (9, 65_540) };
    for (name, k) in [("Dbl", Kind::Dbl), ("Lin", Kind::Lin(e, 300)), ("Fix", Kind::Fix(top + 50))] {
        add(format!("huge/{}/{}", name, top), p, Box::new(move || dispatch::<u64, _>(k, &Huge(top))));
    }
    out
}

pub fn concurrent() -> Vec<SeqScen> {
    let mut out: Vec<SeqScen> = vec![];
    let mut add = |name: String, props: &[&'static str], run: Box<dyn Fn()>| out.push(SeqScen { name, props: props.to_vec(), run });
    macro_rules! types {
        ($($t:ty),*) => { $(
            for k in 0..6 {
                let p: &[&'static str] = match k {
                    0 | 1 => &["C01", "C07", "C09", "C02"],
                    2 | 3 => &["C02", "C07", "C03", "C14"],
                    4 => &["C04", "C05", "C07", "C09"],
                    _ => &["C04", "C07", "C18"],
                };
                add(format!("types/{}/Dbl/threads{}", <$t>::NAME, k), p, Box::new(move || shapes_conc::<$t, Dbl<$t>>(ConcurrentVec::new, 3, k)));
                add(format!("types/{}/Lin/threads{}", <$t>::NAME, k), p, Box::new(move || shapes_conc::<$t, Lin<$t>>(|| ConcurrentVec::with_linear_growth(1, 6), 2, k)));
                if k % 2 == 0 {
                    add(format!("types/{}/Fix/threads{}", <$t>::NAME, k), p, Box::new(move || shapes_conc::<$t, Fix<$t>>(|| ConcurrentVec::with_fixed_capacity(8), 1, k)));
                }
            }
        )* };
    }
    types!((), u8, String, Option<Box<u16>>, [u64; 33], (u8, u64, u8), Wide, Token);
    for k in 0..4 {
        let p: &[&'static str] = &["C01", "C02", "C03", "C06"];
        for n in [10, 11, 12, 26, 27, 28, 59, 60, 123, 124, 251, 252] {
            add(format!("large/Dbl/{}/threads{}", n, k), p, Box::new(move || large_conc::<Dbl<V>>(ConcurrentVec::new, n, k)));
        }
        for n in [7, 8, 15, 31, 32, 63] {
            add(format!("large/Lin3/{}/threads{}", n, k), p, Box::new(move || large_conc::<Lin<V>>(|| ConcurrentVec::with_linear_growth(3, 12), n, k)));
        }
        for n in [5, 6, 20] {
            add(format!("large/Lin1/{}/threads{}", n, k), p, Box::new(move || large_conc::<Lin<V>>(|| ConcurrentVec::with_linear_growth(1, 32), n, k)));
        }
        for n in [20, 100] {
            add(format!("large/Fix/{}/threads{}", n, k), p, Box::new(move || large_conc::<Fix<V>>(|| ConcurrentVec::with_fixed_capacity(128), n, k)));
        }
    }
    out
}
