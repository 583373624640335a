//! Sequential programs: every sequence of operations up to a depth, every range, every pair of contents,
//! every conversion chain; compared with an ordinary vector after each sequence.
use crate::api::*;
use crate::ensure;
use crate::mc::{self, catch, choose, ensure_eq};
use crate::ops::{build, leaks, Build};
use crate::val::*;
use orx_concurrent_vec::*;
use std::ops::Bound;

pub struct SeqScen {
    pub name: String,
    pub props: Vec<&'static str>,
    pub run: Box<dyn Fn()>,
}

fn addr_of<X: ?Sized>(x: &X) -> usize {
    x as *const X as *const u8 as usize
}

// ------------------------------------------------------------------ audit

/// Every read-only operation on a vector or slice whose content must be `m`.
pub fn audit<T: Val, P: St<T>, A: Api<T, P>>(a: &A, m: &[u64], what: &str) {
    let n = m.len();
    ensure!(a.a_len() == n, "{}: length {} instead of {}", what, a.a_len(), n);
    ensure!(a.a_is_empty() == (n == 0), "{}: is_empty", what);
    for i in 0..n + 3 {
        let want = m.get(i).copied();
        let el = a.a_get(i);
        ensure!(el.map(|e| e.map(|x| x.val())) == want, "{}: get({})", what, i);
        ensure!(a.a_get_cloned(i).map(|x| x.val()) == want, "{}: get_cloned({})", what, i);
        ensure!(T::get_copied(a, i) == want, "{}: get_copied({})", what, i);
        let raw = a.a_get_raw(i);
        let rawm = a.a_get_raw_mut(i);
        ensure!(raw.map(|p| unsafe { &*p }.val()) == want, "{}: get_raw({})", what, i);
        ensure!(rawm.map(|p| p as usize) == raw.map(|p| p as usize), "{}: get_raw_mut({})", what, i);
        let (r, va) = unsafe { a.a_get_ref(i) }.map_or((None, None), |x| (Some(x.val()), Some(addr_of(x))));
        ensure!(r == want && va == raw.map(|p| p as usize), "{}: get_ref({})", what, i);
        let (r, va) = unsafe { a.a_get_mut(i) }.map_or((None, None), |x| (Some(x.val()), Some(addr_of(x))));
        ensure!(r == want && va == raw.map(|p| p as usize), "{}: get_mut({})", what, i);
        match el {
            Some(el) => {
                let e = a.a_index(i);
                ensure!(std::ptr::eq(e, el), "{}: index {} and get differ", what, i);
                ensure!(e.map(|x| addr_of(x)) == raw.unwrap() as usize, "{}: address of the value at {}", what, i);
                ensure!(e.cloned().val() == m[i] && T::el_copied(e) == m[i], "{}: element {} cloned", what, i);
                ensure!(format!("{:?}", e) == format!("v{}", m[i]), "{}: element {} formatted", what, i);
                ensure!(*e == T::mk(m[i]) && *e != T::mk(m[i] + 1), "{}: element {} compared with a value", what, i);
                for (j, y) in m.iter().enumerate() {
                    ensure!((e == a.a_index(j)) == (m[i] == *y), "{}: elements {} and {} compared", what, i, j);
                }
            }
            None if i < n + 2 => {
                let r = catch(|| addr_of(a.a_index(i)));
                ensure!(r.is_none(), "{}: index {} of {} elements did not panic", what, i, n);
            }
            None => (),
        }
    }
    let mut o = vec![];
    a.a_iter(&mut |e| o.push((e.map(|x| x.val()), addr_of(e))));
    ensure!(o.iter().map(|x| x.0).eq(m.iter().copied()), "{}: iter {:?}, expected {:?}", what, o, m);
    for (i, x) in o.iter().enumerate() {
        ensure!(x.1 == addr_of(a.a_index(i)), "{}: iter and index {} differ", what, i);
    }
    for k in 0..n + 1 {
        let mut o = vec![];
        a.a_iter_take(k, &mut |e| o.push(e.map(|x| x.val())));
        ensure!(o[..] == m[..k], "{}: first {} elements", what, k);
    }
    let mut o = vec![];
    a.a_iter_cloned(&mut |x| o.push(x.val()));
    ensure!(o == m, "{}: iter_cloned {:?}, expected {:?}", what, o, m);
    let mut o = vec![];
    a.a_map(&mut |x| x.val() * 2, &mut |x| o.push(x));
    ensure!(o.iter().copied().eq(m.iter().map(|x| x * 2)), "{}: map {:?}, expected {:?}", what, o, m);
    for k in 0..2 {
        let mut o = vec![];
        a.a_filter(&mut |x| x.val() % 2 == k, &mut |e| o.push(e.map(|x| x.val())));
        ensure!(o.iter().copied().eq(m.iter().copied().filter(|x| x % 2 == k)), "{}: filter {:?}, expected {:?}", what, o, m);
    }
    let f = a.a_fold(5, &mut |s, x| s.wrapping_mul(31).wrapping_add(x.val()));
    ensure!(f == m.iter().fold(5u64, |s, x| s.wrapping_mul(31).wrapping_add(*x)), "{}: fold", what);
    let mut calls = vec![];
    let r = a.a_reduce(&mut |s, x| {
        calls.push((s.val(), x.val()));
        T::mk((s.val() * 3 + x.val()) % (1 << 30))
    });
    let mut want_calls = vec![];
    let want = m.iter().copied().reduce(|s, x| {
        want_calls.push((s, x));
        (s * 3 + x) % (1 << 30)
    });
    ensure!(r.map(|x| x.val()) == want && calls == want_calls, "{}: reduce", what);
    let mut o = vec![];
    unsafe { a.a_iter_ref(&mut |x| o.push(x.val())) };
    ensure!(o == m, "{}: iter_ref {:?}, expected {:?}", what, o, m);
    let mut o = vec![];
    unsafe { a.a_iter_mut(&mut |x| o.push(x.val())) };
    ensure!(o == m, "{}: iter_mut {:?}, expected {:?}", what, o, m);
    let c = a.a_clone_to_vec();
    ensure!(c.iter().map(|x| x.val()).eq(m.iter().copied()), "{}: clone_to_vec", what);
    drop(c);
    let d = format!("[{}]", m.iter().map(|x| format!("v{}", x)).collect::<Vec<_>>().join(", "));
    ensure!(a.a_debug() == d, "{}: formatted as {}, expected {}", what, a.a_debug(), d);
    for x in m.iter().chain(&[1 << 39, 0]) {
        let t = T::mk(*x);
        ensure!(a.a_index_of(&t) == m.iter().position(|y| y == x), "{}: index_of({})", what, x);
        ensure!(a.a_contains(&t) == m.contains(x), "{}: contains({})", what, x);
    }
    // comparisons with plain sequences
    let mut cand: Vec<Vec<u64>> = vec![m.to_vec()];
    if n > 0 {
        cand.push(m[..n - 1].to_vec());
        cand.push(m[1..].to_vec());
        for i in [0, n / 2, n - 1] {
            let mut x = m.to_vec();
            x[i] += 1;
            cand.push(x);
        }
        cand.push(vec![]);
    }
    let mut x = m.to_vec();
    x.push(*m.last().unwrap_or(&0));
    cand.push(x);
    for x in cand {
        let ts: Vec<T> = x.iter().map(|y| T::mk(*y)).collect();
        if let Some(r) = a.a_eq_arr(&ts) {
            ensure!(r == (x == m), "{}: comparison with {:?} gave {}", what, x, r);
        }
        if let [p, q] = x[..] {
            if let Some(r) = a.a_eq_arr2(&[T::mk(p), T::mk(q)]) {
                ensure!(r == (x == m), "{}: comparison with the array {:?} gave {}", what, x, r);
            }
        }
    }
    let full = a.a_slice((Bound::Unbounded, Bound::Unbounded));
    ensure!(full.len() == n, "{}: full slice has length {}", what, full.len());
    if let Some(r) = a.a_eq_slice(&full) {
        ensure!(r, "{}: differs from its full slice", what);
    }
    if n > 0 {
        let part = a.a_slice((Bound::Unbounded, Bound::Excluded(n - 1)));
        if let Some(r) = a.a_eq_slice(&part) {
            ensure!(!r, "{}: equals a shorter slice", what);
        }
    }
}

fn audit_vec<T: Val, P: St<T>>(v: &ConcurrentVec<T, P>, m: &[u64], max: usize, what: &str) {
    audit(v, m, what);
    let c = v.capacity();
    ensure!(m.len() <= c && c <= v.maximum_capacity(), "{}: length {}, capacity {}, maximum {}", what, m.len(), c, v.maximum_capacity());
    ensure!(v.maximum_capacity() >= max, "{}: maximum capacity {} instead of {}", what, v.maximum_capacity(), max);
    audit(&v.as_slice(), m, what);
    if let Some(r) = P::vec_eq(v, v) {
        ensure!(r, "{}: differs from itself", what);
    }
}

// ------------------------------------------------------------------ operation sequences

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum S {
    Push,
    PushIdx,
    Ext(usize),
    ExtVec(usize),
    ExtArr,
    ExtN(usize),
    ExtIdx(usize),
    Set(usize),
    Repl(usize),
    Upd(usize),
    MutW(usize),
    RawW(usize),
    IterMutW,
    IterSet,
    Swap(usize, usize),
    Fill,
    FillWith,
    SlFill(usize, usize),
    SlFillWith(usize, usize),
    SlSwap(usize, usize),
    SlMut,
    ChunkW(usize),
    SplitW,
    Clear,
    Reserve(usize),
    Round,
    CloneSwap,
    CloneDrop,
    Rebuild,
    Partial(usize),
    UpdPanic(usize),
    FillPanic(usize),
    SlFillPanic,
    BoomCl,
    ExtOver(usize),
    PushFull,
    PushIdxFull,
    ExtIdxOver(usize),
    ExtHuge,
    PushAll,
}

/// index standing for the last element, and for one beyond
const LAST: usize = 100;
const LEN: usize = 101;
const BEYOND: usize = 102;

pub struct State<T: Val, P: St<T>> {
    kind: Kind,
    v: ConcurrentVec<T, P>,
    m: Vec<u64>,
    max: usize,
    next: u64,
    /// a growth operation failed: reservations may be exhausted until the vector is rebuilt
    stuck: bool,
    hist: Vec<S>,
    /// address of each value
    addrs: Vec<usize>,
}

impl<T: Val, P: St<T>> State<T, P> {
    pub fn new(kind: Kind, b: Build, n: usize) -> Self {
        let init: Vec<u64> = (1..=n as u64).collect();
        let v = build::<T, P>(kind, b, &init);
        let max = v.maximum_capacity();
        let mut s = State { kind, v, m: init, max, next: 1000, stuck: false, hist: vec![], addrs: vec![] };
        s.look();
        s
    }
    fn x(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    /// remembers the addresses of all values, and compares those already known
    fn look(&mut self) {
        for i in 0..self.m.len() {
            let p = self.v.get_raw(i).map_or(0, |x| x as usize);
            if i < self.addrs.len() {
                ensure!(self.addrs[i] == p, "{:?}: value {} moved", self.hist, i);
            } else {
                self.addrs.push(p);
            }
        }
    }
    fn at(&self, i: usize) -> usize {
        match i {
            LAST => self.m.len().wrapping_sub(1),
            LEN => self.m.len(),
            BEYOND => self.m.len() + 1,
            i => i,
        }
    }
    fn grown(&mut self, r: Option<usize>, vals: Vec<u64>, told: usize) {
        match r {
            // after a failed growth the position of an empty extension says nothing
            Some(_) if vals.is_empty() && self.stuck => {}
            Some(b) => {
                ensure!(b == self.m.len(), "{:?}: growth at position {} instead of {}", self.hist, b, self.m.len());
                ensure!(told == usize::MAX || told == b, "{:?}: the closure was told {} instead of {}", self.hist, told, b);
                ensure!(b + vals.len() <= self.v.maximum_capacity(), "{:?}: more elements than the maximum capacity", self.hist);
                self.m.extend(vals);
            }
            None => {
                let fits = self.m.len() + vals.len() <= self.v.maximum_capacity();
                ensure!(!fits || self.stuck, "{:?}: growth by {} failed although it fits: {}", self.hist, vals.len(), mc::last_panic());
                self.stuck = true;
            }
        }
    }
    /// whether the operation makes sense in this state
    fn enabled(&self, s: S) -> bool {
        let n = self.m.len();
        let limited = self.kind != Kind::Dbl;
        match s {
            S::Set(i) | S::Repl(i) | S::Upd(i) | S::UpdPanic(i) => self.at(i) < n,
            S::FillPanic(k) => k < n,
            S::SlFillPanic => n >= 2,
            S::BoomCl => n >= 1,
            S::SlFill(a, b) | S::SlFillWith(a, b) => a < b && a < n,
            S::SlSwap(..) | S::SlMut => n >= 2,
            S::ChunkW(_) | S::SplitW => n >= 1,
            S::Reserve(_) | S::ExtOver(_) | S::PushFull | S::PushIdxFull | S::ExtIdxOver(_) | S::PushAll => limited,
            S::CloneSwap | S::CloneDrop => !limited,
            _ => true,
        }
    }
    fn step(&mut self, s: S) {
        self.hist.push(s);
        let n = self.m.len();
        let room = self.max - n.min(self.max);
        match s {
            S::Push | S::PushFull | S::PushIdx | S::PushIdxFull => {
                let times = if matches!(s, S::PushFull | S::PushIdxFull) && !self.stuck { room + 1 } else { 1 };
                for _ in 0..times {
                    let x = self.x();
                    let mut told = usize::MAX;
                    let r = catch(|| match s {
                        S::Push | S::PushFull => self.v.push(T::mk(x)),
                        _ => self.v.push_for_idx(|i| {
                            told = i;
                            T::mk(x)
                        }),
                    });
                    self.grown(r, vec![x], told);
                }
            }
            S::PushAll => {
                while !self.stuck && self.m.len() < self.max {
                    let x = self.x();
                    let r = catch(|| self.v.push(T::mk(x)));
                    self.grown(r, vec![x], usize::MAX);
                }
            }
            S::Ext(_) | S::ExtVec(_) | S::ExtArr | S::ExtN(_) | S::ExtOver(_) => {
                let k = match s {
                    S::Ext(k) | S::ExtVec(k) | S::ExtN(k) => k,
                    S::ExtOver(k) => room + k,
                    _ => 3,
                };
                let xs: Vec<u64> = (0..k).map(|_| self.x()).collect();
                let r = catch(|| match s {
                    S::ExtVec(_) => self.v.extend(xs.iter().map(|x| T::mk(*x)).collect::<Vec<_>>()),
                    S::ExtArr => self.v.extend([T::mk(xs[0]), T::mk(xs[1]), T::mk(xs[2])]),
                    S::ExtN(_) => self.v.extend_n_items(xs.iter().map(|x| T::mk(*x)), k),
                    _ => self.v.extend(xs.iter().map(|x| T::mk(*x))),
                });
                self.grown(r, xs, usize::MAX);
            }
            S::ExtIdx(_) | S::ExtIdxOver(_) => {
                let k = match s {
                    S::ExtIdx(k) => k,
                    S::ExtIdxOver(k) => room + k,
                    _ => 0,
                };
                let xs: Vec<u64> = (0..k).map(|_| self.x()).collect();
                let mut told = usize::MAX;
                let r = catch(|| {
                    self.v.extend_for_idx(
                        |i| {
                            told = i;
                            xs.iter().map(|x| T::mk(*x)).collect::<Vec<_>>()
                        },
                        k,
                    )
                });
                self.grown(r, xs.clone(), told);
            }
            S::ExtHuge => {
                let r = catch(|| self.v.extend_n_items(std::iter::empty(), usize::MAX));
                ensure!(r.is_none(), "{:?}: an enormous extension was accepted", self.hist);
                let r = catch(|| self.v.extend_for_idx(|_| vec![], usize::MAX - 1));
                ensure!(r.is_none(), "{:?}: an enormous extension was accepted", self.hist);
            }
            S::Set(i) => {
                let (i, x) = (self.at(i), self.x());
                self.v[i].set(T::mk(x));
                self.m[i] = x;
            }
            S::Repl(i) => {
                let (i, x) = (self.at(i), self.x());
                let old = self.v[i].replace(T::mk(x)).val();
                ensure!(old == self.m[i], "{:?}: replace returned {} instead of {}", self.hist, old, self.m[i]);
                self.m[i] = x;
            }
            S::Upd(i) => {
                let i = self.at(i);
                let mut c = 0;
                self.v[i].update(|x| {
                    c += 1;
                    x.put(x.val() + 7)
                });
                ensure_eq(c, 1, "calls of the closure of update");
                self.m[i] += 7;
            }
            S::UpdPanic(i) => {
                let i = self.at(i);
                let r = catch(|| {
                    self.v[i].update(|x| {
                        x.put(x.val() + 3);
                        panic!("user code panics")
                    })
                });
                ensure!(r.is_none(), "{:?}: panic swallowed", self.hist);
                self.m[i] += 3;
            }
            S::MutW(i) | S::RawW(i) => {
                let (i, x) = (self.at(i), self.x());
                let r = unsafe {
                    match s {
                        S::MutW(_) => self.v.get_mut(i),
                        _ => self.v.get_raw_mut(i).map(|p| &mut *p),
                    }
                };
                ensure!(r.is_some() == (i < n), "{:?}: mutable access to {} of {}", self.hist, i, n);
                if let Some(p) = r {
                    p.put(x);
                    self.m[i] = x;
                }
            }
            S::IterMutW => {
                let mut k = 0;
                unsafe {
                    self.v.iter_mut().for_each(|x| {
                        x.put(x.val() + 1);
                        k += 1
                    })
                };
                ensure!(k == n, "{:?}: iter_mut visited {} of {}", self.hist, k, n);
                self.m.iter_mut().for_each(|x| *x += 1);
            }
            S::IterSet => {
                for e in self.v.iter() {
                    e.update(|x| x.put(x.val() + 2));
                }
                self.m.iter_mut().for_each(|x| *x += 2);
            }
            S::Swap(i, j) => {
                let (i, j) = (self.at(i), self.at(j));
                let r = self.v.swap(i, j);
                let ok = i < n && j < n;
                ensure!(r == ok, "{:?}: swap({}, {}) of {} elements gave {}", self.hist, i, j, n, r);
                if ok {
                    self.m.swap(i, j);
                }
            }
            S::Fill => {
                let x = self.x();
                self.v.fill(T::mk(x));
                self.m.iter_mut().for_each(|y| *y = x);
            }
            S::FillWith => {
                let x = self.x() * 10;
                let mut idx = vec![];
                self.v.fill_with(|i| {
                    idx.push(i);
                    T::mk(x + i as u64)
                });
                ensure!(idx.iter().copied().eq(0..n), "{:?}: fill_with called with {:?}", self.hist, idx);
                self.m.iter_mut().enumerate().for_each(|(i, y)| *y = x + i as u64);
            }
            S::FillPanic(k) => {
                let x = self.x();
                let r = catch(|| {
                    self.v.fill_with(|i| {
                        if i == k {
                            panic!("user code panics")
                        }
                        T::mk(x)
                    })
                });
                ensure!(r.is_none(), "{:?}: panic swallowed", self.hist);
                self.m[..k].iter_mut().for_each(|y| *y = x);
            }
            S::SlFillPanic => {
                let x = self.x();
                let r = catch(|| {
                    self.v.slice(1..).fill_with(|i| {
                        if i == 0 {
                            panic!("user code panics")
                        }
                        T::mk(x)
                    })
                });
                ensure!(r.is_none(), "{:?}: panic swallowed", self.hist);
            }
            S::BoomCl => {
                // the last value panics when it is cloned, compared or formatted
                let i = n - 1;
                let old = self.v[i].replace(T::mk(BOOM | 1));
                for k in 0..6 {
                    let r = catch(|| match k {
                        0 => drop(self.v[i].cloned()),
                        1 => drop(self.v.clone_to_vec()),
                        2 => drop(format!("{:?}", self.v)),
                        3 => drop(self.v.contains(&T::mk(1 << 38))),
                        4 => drop(self.v.as_slice().iter_cloned().count()),
                        _ => drop(self.v.get_cloned(i)),
                    });
                    ensure!(!T::TRACKED || r.is_none(), "{:?}: panic {} swallowed", self.hist, k);
                }
                drop(self.v[i].replace(old));
            }
            S::SlFill(a, b) => {
                let x = self.x();
                let b2 = b.min(n);
                self.v.slice(a..b).fill(T::mk(x));
                self.m[a..b2].iter_mut().for_each(|y| *y = x);
            }
            S::SlFillWith(a, b) => {
                let x = self.x() * 10;
                let b2 = b.min(n);
                let mut idx = vec![];
                self.v.slice(a..b).fill_with(|i| {
                    idx.push(i);
                    T::mk(x + i as u64)
                });
                ensure!(idx.iter().copied().eq(0..b2 - a), "{:?}: fill_with called with {:?}", self.hist, idx);
                self.m[a..b2].iter_mut().enumerate().for_each(|(i, y)| *y = x + i as u64);
            }
            S::SlSwap(i, j) => {
                let sl = self.v.slice(1..);
                let w = n - 1;
                let f = |i: usize| match i {
                    LAST => w - 1,
                    LEN => w,
                    i => i,
                };
                let (i, j) = (f(i), f(j));
                let r = sl.swap(i, j);
                let ok = i < w && j < w;
                ensure!(r == ok, "{:?}: swap({}, {}) of a slice of {} gave {}", self.hist, i, j, w, r);
                if ok {
                    self.m.swap(1 + i, 1 + j);
                }
            }
            S::SlMut => {
                let x = self.x();
                let sl = self.v.slice(1..n);
                unsafe {
                    sl.iter_mut().for_each(|y| y.put(y.val() + 1));
                    sl.get_mut(0).unwrap().put(x);
                    ensure!(sl.get_mut(n - 1).is_none() && sl.get_raw_mut(n - 1).is_none(), "{:?}: mutable access beyond a slice", self.hist);
                }
                self.m[1..].iter_mut().for_each(|y| *y += 1);
                self.m[1] = x;
            }
            S::ChunkW(k) => {
                for (c, s) in self.v.chunks(k).enumerate() {
                    s.iter().enumerate().for_each(|(i, e)| e.set(T::mk(5000 + (c * 100 + i) as u64)));
                }
                self.m.iter_mut().enumerate().for_each(|(i, y)| *y = 5000 + ((i / k) * 100 + i % k) as u64);
            }
            S::SplitW => {
                let (x, y) = (self.x(), self.x());
                {
                    let (a, b) = self.v.split_at(n / 2);
                    a.fill(T::mk(x));
                    b.fill(T::mk(y));
                }
                self.m[..n / 2].iter_mut().for_each(|q| *q = x);
                self.m[n / 2..].iter_mut().for_each(|q| *q = y);
            }
            S::Clear => {
                self.v.clear();
                self.m.clear();
                self.addrs.clear();
                self.stuck = false;
                ensure_eq(self.v.maximum_capacity(), self.max, "maximum capacity after clear");
                if T::TRACKED {
                    ensure_eq(mc::track_live(), 0, "values left after clear");
                }
            }
            S::Reserve(k) => {
                let want = self.max + k;
                let got = self.v.reserve_maximum_capacity(want);
                ensure!(got >= want && got == self.v.maximum_capacity(), "{:?}: reserving {} gave {}", self.hist, want, got);
                self.max = got;
                self.stuck = false;
                if matches!(self.kind, Kind::Fix(_)) {
                    self.addrs.clear();
                }
            }
            S::Round => {
                let v = std::mem::replace(&mut self.v, P::make(self.kind));
                let p = v.into_inner();
                ensure_eq(p.len(), n, "length of the inner vector");
                for (i, e) in p.iter().enumerate() {
                    ensure!(e.map(|x| x.val()) == self.m[i], "{:?}: inner vector at {}", self.hist, i);
                }
                self.v = ConcurrentVec::from(p);
                self.stuck = false;
                ensure_eq(self.v.maximum_capacity(), self.max, "maximum capacity after a conversion");
            }
            S::CloneSwap | S::CloneDrop => {
                if let Some(c) = P::vec_clone(&self.v) {
                    if s == S::CloneSwap {
                        self.v = c;
                        self.stuck = false;
                        self.addrs.clear();
                    } else {
                        for i in 0..n {
                            c[i].set(T::mk(1));
                        }
                        c.push(T::mk(2));
                    }
                }
            }
            S::Rebuild => {
                let v = std::mem::replace(&mut self.v, P::make(self.kind));
                self.max = self.v.maximum_capacity();
                let d = v.to_vec();
                ensure!(d.iter().map(|x| x.val()).eq(self.m.iter().copied()), "{:?}: to_vec", self.hist);
                self.stuck = false;
                self.addrs.clear();
                self.m.truncate(self.max);
                self.v.extend(d.into_iter().take(self.m.len()));
            }
            S::Partial(k) => {
                let v = std::mem::replace(&mut self.v, P::make(self.kind));
                self.max = self.v.maximum_capacity();
                let o: Vec<u64> = v.into_iter().take(k).map(|x| x.val()).collect();
                ensure!(o[..] == self.m[..k.min(n)], "{:?}: into_iter", self.hist);
                self.m.clear();
                self.stuck = false;
                self.addrs.clear();
            }
        }
    }
    pub fn finish(mut self) {
        self.look();
        let what = format!("{:?}", self.hist);
        audit_vec(&self.v, &self.m, self.max, &what);
        let n = self.m.len();
        match (self.hist.len() + n) % 3 {
            0 => drop(self.v),
            1 => {
                let d = self.v.to_vec();
                ensure!(d.iter().map(|x| x.val()).eq(self.m.iter().copied()), "{}: to_vec", what);
            }
            _ => {
                let d: Vec<u64> = self.v.into_iter().map(|x| x.val()).collect();
                ensure!(d == self.m, "{}: into_iter", what);
            }
        }
    }
}

fn alphabet(kind: Kind) -> Vec<S> {
    let mut v = vec![
        S::Push,
        S::PushIdx,
        S::Ext(0),
        S::Ext(1),
        S::Ext(2),
        S::Ext(5),
        S::ExtVec(2),
        S::ExtArr,
        S::ExtN(3),
        S::ExtIdx(0),
        S::ExtIdx(4),
        S::Set(LAST),
        S::Repl(0),
        S::Upd(LAST),
        S::MutW(0),
        S::MutW(LEN),
        S::RawW(LAST),
        S::RawW(LEN),
        S::IterMutW,
        S::IterSet,
        S::Swap(0, LAST),
        S::Swap(LAST, 0),
        S::Swap(0, 0),
        S::Swap(0, LEN),
        S::Swap(LEN, BEYOND),
        S::Fill,
        S::FillWith,
        S::SlFill(1, 3),
        S::SlFillWith(0, 2),
        S::SlSwap(0, LAST),
        S::SlSwap(0, LEN),
        S::SlMut,
        S::ChunkW(2),
        S::SplitW,
        S::Clear,
        S::Round,
        S::CloneSwap,
        S::CloneDrop,
        S::Rebuild,
        S::Partial(1),
        S::UpdPanic(0),
        S::FillPanic(1),
        S::FillPanic(0),
        S::SlFillPanic,
        S::BoomCl,
        S::ExtHuge,
    ];
    if kind != Kind::Dbl {
        v.extend([S::Reserve(0), S::Reserve(3), S::ExtOver(0), S::ExtOver(1), S::ExtIdxOver(2), S::PushFull, S::PushIdxFull, S::PushAll]);
    }
    v
}

/// structural operations only, for deeper sequences
fn alphabet_deep(kind: Kind) -> Vec<S> {
    let mut v = vec![S::Push, S::Ext(2), S::ExtIdx(4), S::Repl(LAST), S::Swap(0, LAST), S::FillWith, S::Clear, S::Round];
    if kind == Kind::Dbl {
        v.extend([S::CloneSwap, S::Rebuild, S::SlMut, S::UpdPanic(0)]);
    } else {
        v.extend([S::Reserve(3), S::ExtOver(1), S::PushFull, S::PushAll]);
    }
    v
}

fn sequences<T: Val, P: St<T>>(kind: Kind, b: Build, n: usize, alpha: &[S], first: &[S], depth: usize) {
    {
        let mut st = State::<T, P>::new(kind, b, n);
        for d in 0..depth {
            let en: Vec<S> = if d == 0 { first } else { alpha }.iter().copied().filter(|s| st.enabled(*s)).collect();
            // the last alternative ends the sequence
            let k = choose(en.len() + (d > 0) as usize);
            if k == en.len() {
                break;
            }
            st.step(en[k]);
        }
        st.finish();
    }
    leaks();
}

// ------------------------------------------------------------------ slices

fn bounds(len: usize) -> Vec<(Bound<usize>, Bound<usize>, usize, usize)> {
    let mut v = vec![];
    let top = len + 2;
    let mut starts = vec![(Bound::Unbounded, 0)];
    let mut ends = vec![(Bound::Unbounded, len)];
    for i in 0..=top {
        starts.push((Bound::Included(i), i));
        if i < 3 {
            starts.push((Bound::Excluded(i), i + 1));
        }
        ends.push((Bound::Excluded(i), i.min(len)));
        if i < 3 || i + 2 > len {
            ends.push((Bound::Included(i), (i + 1).min(len)));
        }
    }
    for (s, a) in &starts {
        for (e, b) in &ends {
            v.push((*s, *e, (*a).min(*b), *b));
        }
    }
    v
}

fn check_window<T: Val, P: St<T>>(v: &ConcurrentVec<T, P>, s: &ConcurrentSlice<'_, T, P>, off: usize, m: &[u64], what: &str) {
    audit(s, m, what);
    for i in 0..m.len() {
        ensure!(std::ptr::eq(&v[off + i], &s[i]), "{}: element {} is not element {} of the vector", what, i, off + i);
    }
}

/// all ranges of a vector of `n` elements, and all ranges of those if `nest`
fn slices<T: Val, P: St<T>>(kind: Kind, n: usize, nest: bool) {
    {
        let m: Vec<u64> = (1..=n as u64).map(|x| x * 3).collect();
        let v = build::<T, P>(kind, Build::Push, &m);
        let bs = bounds(n);
        let (x, y, a, b) = bs[choose(bs.len())];
        let what = format!("slice {:?} of {}", (x, y), n);
        let s = v.slice((x, y));
        check_window(&v, &s, a, &m[a..b], &what);
        if nest {
            let bs = bounds(b - a);
            let (x, y, c, d) = bs[choose(bs.len())];
            let what = format!("slice {:?} of {}", (x, y), what);
            let t = s.slice((x, y));
            check_window(&v, &t, a + c, &m[a + c..a + d], &what);
            let u = t.as_slice_again();
            check_window(&v, &u, a + c, &m[a + c..a + d], &what);
        } else {
            // the window stays while the vector grows
            if v.maximum_capacity() > n {
                v.push(T::mk(1000));
                check_window(&v, &s, a, &m[a..b], &what);
            }
            // operations stay within the window
            let mut w = m.clone();
            s.fill(T::mk(7));
            w[a..b].iter_mut().for_each(|x| *x = 7);
            let check = |w: &[u64], what: &str| {
                let o: Vec<u64> = vals(&v, |x| x.val());
                ensure!(o[..n] == w[..], "{}: contents {:?} instead of {:?}", what, o, w);
            };
            check(&w, &format!("fill of {}", what));
            s.fill_with(|i| T::mk(i as u64 * 2));
            w[a..b].iter_mut().enumerate().for_each(|(i, x)| *x = i as u64 * 2);
            check(&w, &format!("fill_with of {}", what));
            for i in 0..b - a + 1 {
                for j in 0..b - a + 1 {
                    let r = s.swap(i, j);
                    ensure!(r == (i < b - a && j < b - a), "{}: swap({}, {}) gave {}", what, i, j, r);
                    if r {
                        w.swap(a + i, a + j);
                    }
                    check(&w, &format!("swap({}, {}) of {}", i, j, what));
                }
            }
            unsafe { s.iter_mut().for_each(|x| x.put(x.val() + 100)) };
            w[a..b].iter_mut().for_each(|x| *x += 100);
            check(&w, &format!("iter_mut of {}", what));
        }
    }
    leaks();
}

trait Again<'a, T: Val, P: St<T>> {
    fn as_slice_again(&'a self) -> ConcurrentSlice<'a, T, P>;
}
impl<'a, T: Val, P: St<T>> Again<'a, T, P> for ConcurrentSlice<'a, T, P> {
    fn as_slice_again(&'a self) -> ConcurrentSlice<'a, T, P> {
        self.slice(..)
    }
}

fn split_all<T: Val, P: St<T>, A: Api<T, P>>(v: &ConcurrentVec<T, P>, a: &A, off: usize, m: &[u64], what: &str) {
    let n = m.len();
    match choose(4) {
        0 => {
            let k = choose(n + 3);
            let r = catch(|| {
                a.a_split_at(k, &mut |l, r| {
                    let what = format!("split at {} of {}", k, what);
                    check_window(v, &l, off, &m[..k.min(n)], &what);
                    check_window(v, &r, off + k, &m[k.min(n)..], &what);
                })
            });
            ensure!(r.is_some() == (k <= n), "{}: split at {} of {} elements", what, k, n);
        }
        1 => {
            let r = a.a_split_first(&mut |e, s| {
                ensure!(std::ptr::eq(e, &v[off]), "{}: first element", what);
                check_window(v, &s, off + 1, &m[1..], what);
            });
            ensure!(r == (n > 0), "{}: split_first of {} elements", what, n);
        }
        2 => {
            let r = a.a_split_last(&mut |e, s| {
                ensure!(std::ptr::eq(e, &v[off + n - 1]), "{}: last element", what);
                check_window(v, &s, off, &m[..n - 1], what);
            });
            ensure!(r == (n > 0), "{}: split_last of {} elements", what, n);
        }
        _ => {
            let k = choose(n + 3);
            let mut at = 0;
            let r = catch(|| {
                a.a_chunks(k, &mut |s| {
                    let w = k.min(n - at.min(n));
                    ensure!(w > 0, "{}: too many chunks of {}", what, k);
                    let what = format!("chunk of {} of {}", k, what);
                    check_window(v, &s, off + at, &m[at..at + w], &what);
                    at += w;
                })
            });
            match (k, r) {
                (0, r) => ensure!(r.is_none(), "{}: chunks of size 0", what),
                (_, None) => mc::fail(&format!("{}: chunks of size {} panicked: {}", what, k, mc::last_panic())),
                (_, Some(c)) => ensure!(c == n.div_ceil(k) && at == n, "{}: {} chunks of {} announced, {} elements covered", what, c, k, at),
            }
        }
    }
}

fn splits<T: Val, P: St<T>>(kind: Kind, n: usize) {
    {
        let m: Vec<u64> = (1..=n as u64).map(|x| x * 3).collect();
        let v = build::<T, P>(kind, Build::Push, &m);
        match choose(3) {
            0 => split_all(&v, &v, 0, &m, "vector"),
            1 => split_all(&v, &v.as_slice(), 0, &m, "full slice"),
            _ => {
                let a = choose(n + 1);
                let b = a + choose(n - a + 1);
                split_all(&v, &v.slice(a..b), a, &m[a..b], &format!("slice {}..{}", a, b))
            }
        }
    }
    leaks();
}

// ------------------------------------------------------------------ comparisons

fn words(n: usize, v: u64) -> Vec<Vec<u64>> {
    let mut o = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|w: &Vec<u64>| (1..=v).map(move |x| w.iter().copied().chain([x]).collect::<Vec<u64>>())).collect();
        o.extend(last.clone());
    }
    o
}

/// all pairs of words over a two-letter alphabet, in all pairs of containers
fn pairs<T: Val, P: St<T>>(kind: Kind, n: usize) {
    {
        let ws = words(n, 2);
        let x = &ws[choose(ws.len())];
        let y = &ws[choose(ws.len())];
        let (v, w) = (build::<T, P>(kind, Build::Push, x), build::<T, P>(kind, Build::Ext, y));
        let want = x == y;
        let chk = |r: Option<bool>, how: &str| {
            if let Some(r) = r {
                ensure!(r == want, "{}: {:?} == {:?} gave {}", how, x, y, r);
            }
        };
        chk(P::vec_eq(&v, &w), "vector with vector");
        chk(P::vec_eq_slice(&v, &w.as_slice()), "vector with slice");
        chk(P::slice_eq_vec(&v.as_slice(), &w), "slice with vector");
        chk(P::slice_eq(&v.as_slice(), &w.as_slice()), "slice with slice");
        let ts: Vec<T> = y.iter().map(|x| T::mk(*x)).collect();
        chk(P::vec_eq_arr(&v, &ts), "vector with array");
        chk(P::slice_eq_arr(&v.as_slice(), &ts), "slice with array");
        if let [a, b] = y[..] {
            chk(P::vec_eq_arr2(&v, &[T::mk(a), T::mk(b)]), "vector with array of two");
            chk(P::slice_eq_arr2(&v.as_slice(), &[T::mk(a), T::mk(b)]), "slice with array of two");
        }
        // windows of one vector that may overlap
        for a in 0..=x.len() {
            for b in a..=x.len() {
                for c in 0..=y.len() {
                    for d in c..=y.len() {
                        let (s, t) = (v.slice(a..b), w.slice(c..d));
                        if let Some(r) = P::slice_eq(&s, &t) {
                            ensure!(r == (x[a..b] == y[c..d]), "{:?}[{}..{}] == {:?}[{}..{}] gave {}", x, a, b, y, c, d, r);
                        }
                        if d <= x.len() {
                            let t = v.slice(c..d);
                            if let Some(r) = P::slice_eq(&s, &t) {
                                ensure!(r == (x[a..b] == x[c..d]), "overlapping {:?}[{}..{}] == [{}..{}] gave {}", x, a, b, c, d, r);
                            }
                        }
                    }
                }
            }
        }
        for p in 0..x.len() {
            for q in 0..y.len() {
                ensure!((v[p] == w[q]) == (x[p] == y[q]), "elements compared");
            }
        }
        for z in 1..=3 {
            let t = T::mk(z);
            ensure!(v.index_of(&t) == x.iter().position(|a| *a == z), "index_of {} in {:?}", z, x);
            ensure!(v.contains(&t) == x.contains(&z), "contains {} in {:?}", z, x);
            for a in 0..=x.len() {
                let s = v.slice(a..);
                ensure!(s.index_of(&t) == x[a..].iter().position(|b| *b == z), "index_of {} in {:?}[{}..]", z, x, a);
                ensure!(s.contains(&t) == x[a..].contains(&z), "contains {} in {:?}[{}..]", z, x, a);
            }
        }
        audit_vec(&v, x, 0, "pairs");
    }
    leaks();
}

// ------------------------------------------------------------------ conversions

/// iterators with all kinds of length hints
struct Hint<I> {
    it: I,
    lo: usize,
    hi: Option<usize>,
}
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.it.next();
        self.lo = self.lo.saturating_sub(1);
        self.hi = self.hi.map(|x| x.saturating_sub(1));
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo, self.hi)
    }
}

fn collects<T: Val>(max: usize) {
    {
        let n = choose(max + 1);
        let m: Vec<u64> = (0..n as u64).map(|x| x + 10).collect();
        let it = || m.iter().map(|x| T::mk(*x));
        let k = choose(6);
        let v: ConcurrentVec<T> = match k {
            0 => it().collect(),
            1 => Hint { it: it(), lo: 0, hi: None }.collect(),
            2 => Hint { it: it(), lo: n / 2, hi: Some(n + 3) }.collect(),
            3 => Hint { it: it(), lo: n, hi: None }.collect(),
            4 => Hint { it: it(), lo: n, hi: Some(n) }.collect(),
            _ => m.iter().map(|x| T::mk(*x)).filter(|_| true).collect(),
        };
        let what = format!("collected {} with hint {}", n, k);
        if n <= 6 {
            audit_vec(&v, &m, 0, &what);
        }
        ensure!(vals(&v, |x| x.val()) == m && v.len() == n, "{}", what);
        ensure_eq(v.push(T::mk(1)), n, "position of a push after collecting");
        let o: Vec<u64> = v.into_iter().map(|x| x.val()).collect();
        ensure!(o.len() == n + 1 && o[..n] == m[..], "{}: into_iter", what);
    }
    leaks();
}

fn grow_more<T: Val, P: St<T>>(v: &ConcurrentVec<T, P>, m: &mut Vec<u64>, what: &str) {
    let max = v.maximum_capacity();
    for k in 0..4u64 {
        if m.len() < max {
            ensure!(v.push(T::mk(k)) == m.len(), "{}: push", what);
            m.push(k);
        }
    }
    if m.len() + 5 <= max {
        ensure!(v.extend((0..5usize).map(|k| T::mk(k as u64 + 50))) == m.len(), "{}: extend", what);
        m.extend(50..55);
    }
    if !m.is_empty() {
        let l = m.len() - 1;
        v[l].set(T::mk(77));
        m[l] = 77;
        v.swap(0, l);
        m.swap(0, l);
    }
    ensure!(v.len() == m.len() && vals(v, |x| x.val()) == *m, "{}: contents after growing", what);
}

/// chains of two conversions for every length in `lens`
fn convert<T: Val, P: St<T>>(kind: Kind, lens: &[usize], full: bool) {
    {
        let n = lens[choose(lens.len())];
        let bi = choose(5);
        let b = [Build::Push, Build::Ext, Build::Conv, Build::Clear, Build::Reserve][bi];
        let mut m: Vec<u64> = (0..n as u64).collect();
        let mut v = build::<T, P>(kind, b, &m);
        let mut what = format!("{:?} of {} by {:?}", kind, n, b);
        for _ in 0..2 {
            let k = choose(if full { 9 } else { 5 });
            what = format!("{} then {}", what, k);
            match k {
                0 => {
                    let max = v.maximum_capacity();
                    let p = v.into_inner();
                    ensure!(p.len() == m.len(), "{}: inner length {}", what, p.len());
                    let mut o = vec![];
                    for e in p.iter() {
                        o.push(e.map(|x| x.val()));
                    }
                    ensure!(o == m, "{}: inner contents", what);
                    v = ConcurrentVec::from(p);
                    ensure!(v.maximum_capacity() == max, "{}: maximum capacity", what);
                }
                1 => grow_more(&v, &mut m, &what),
                2 => {
                    let c = v.clone_to_vec();
                    ensure!(c.iter().map(|x| x.val()).eq(m.iter().copied()), "{}: clone_to_vec", what);
                    let d = v.to_vec();
                    ensure!(d.len() == m.len() && d.iter().map(|x| x.val()).eq(m.iter().copied()), "{}: to_vec", what);
                    v = P::make(kind);
                    m.truncate(v.maximum_capacity());
                    v.extend(d.into_iter().take(m.len()));
                }
                3 => {
                    let mut it = v.into_iter();
                    let mut o = vec![];
                    for _ in 0..m.len() / 2 {
                        o.push(it.next().map(|x| x.val()).unwrap_or(u64::MAX));
                    }
                    ensure!(o[..] == m[..m.len() / 2], "{}: first half of into_iter", what);
                    v = P::make(kind);
                    m.drain(..m.len() / 2);
                    m.truncate(v.maximum_capacity());
                    v.extend(it.take(m.len()).collect::<Vec<_>>());
                }
                4 => {
                    if let Some(c) = P::vec_clone(&v) {
                        ensure!(vals(&c, |x| x.val()) == m, "{}: clone", what);
                        let mut m2 = m.clone();
                        grow_more(&c, &mut m2, &format!("{}: clone", what));
                        ensure!(vals(&v, |x| x.val()) == m, "{}: the original changed", what);
                        if !m.is_empty() {
                            v[0].set(T::mk(9999));
                            m[0] = 9999;
                        }
                        ensure!(vals(&c, |x| x.val()) == m2, "{}: the clone changed", what);
                    }
                }
                5 => {
                    v.clear();
                    m.clear();
                    ensure!(v.is_empty() && v.get(0).is_none(), "{}: clear", what);
                }
                6 => {
                    let want = if kind == Kind::Dbl { 0 } else { v.maximum_capacity() + 5 };
                    let got = v.reserve_maximum_capacity(want);
                    ensure!(got >= want, "{}: reserve", what);
                }
                7 => {
                    let c = ConcurrentVec::<T>::from_iter(v.iter_cloned());
                    ensure!(vals(&c, |x| x.val()) == m, "{}: collected from iter_cloned", what);
                    let c: ConcurrentVec<T> = v.slice(..m.len() / 2).iter_cloned().collect();
                    ensure!(vals(&c, |x| x.val())[..] == m[..m.len() / 2], "{}: collected from a slice", what);
                }
                _ => {
                    // an ordinary pinned vector, modified exclusively, becomes concurrent again
                    let mut p = v.into_inner();
                    if p.len() > 1 {
                        drop(p.pop());
                        m.pop();
                        p.swap(0, m.len() - 1);
                        let l = m.len() - 1;
                        m.swap(0, l);
                    }
                    v = ConcurrentVec::from(p);
                }
            }
            ensure!(v.len() == m.len(), "{}: length {} instead of {}", what, v.len(), m.len());
        }
        if m.len() <= 6 {
            audit_vec(&v, &m, 0, &what);
        }
        ensure!(vals(&v, |x| x.val()) == m, "{}: contents", what);
        for (i, x) in m.iter().enumerate() {
            ensure!(v[i].map(|y| y.val()) == *x, "{}: element {}", what, i);
        }
        grow_more(&v, &mut m, &what);
        if choose(2) == 0 {
            drop(v)
        } else {
            let d = v.to_vec();
            ensure!(d.iter().map(|x| x.val()).eq(m.iter().copied()), "{}: final to_vec", what);
        }
    }
    leaks();
}

// ------------------------------------------------------------------ panics leaving positions without a value

/// a vector in which panics of user code left positions without a value
struct Gaps<T: Val, P: St<T>> {
    v: ConcurrentVec<T, P>,
    /// what each position handed out so far holds
    m: Vec<Option<u64>>,
    next: u64,
    hist: Vec<usize>,
}
impl<T: Val, P: St<T>> Gaps<T, P> {
    fn vals(&mut self, n: usize) -> Vec<u64> {
        self.next += n as u64;
        (0..n as u64).map(|i| self.next - i).collect()
    }
    fn last(&self) -> usize {
        self.m.iter().rposition(|x| x.is_some()).map_or(0, |x| x + 1)
    }
    fn prefix(&self) -> usize {
        self.m.iter().position(|x| x.is_none()).unwrap_or(self.m.len())
    }
    /// `x` was stored at the returned position `r`
    fn grown(&mut self, r: Option<usize>, x: &[u64]) {
        let Some(r) = r else { mc::fail(&format!("{:?}: growth failed: {}", self.hist, mc::last_panic())) };
        ensure!(r >= self.last(), "{:?}: position {} is already in use", self.hist, r);
        self.m.resize(r, None);
        self.m.extend(x.iter().map(|x| Some(*x)));
    }
    /// the growth by `n` positions panicked after the values `x` had been taken
    fn failed(&mut self, r: Option<usize>, n: usize, x: &[u64]) {
        ensure!(r.is_none(), "{:?}: panic swallowed", self.hist);
        let p = self.m.len();
        for i in 0..n {
            let y = unsafe { self.v.get_ref(p + i) }.map(|x| x.val());
            ensure!(y.is_none() || y == x.get(i).copied(), "{:?}: position {} holds {:?} after a panic", self.hist, p + i, y);
            self.m.push(y);
        }
    }
    fn step(&mut self, k: usize, kind: Kind) {
        self.hist.push(k);
        match k {
            0 => {
                let x = self.vals(1);
                let r = catch(|| self.v.push(T::mk(x[0])));
                self.grown(r, &x)
            }
            1 => {
                let x = self.vals(2);
                let r = catch(|| self.v.extend(x.iter().map(|x| T::mk(*x)).collect::<Vec<_>>()));
                self.grown(r, &x)
            }
            2 => {
                let r = catch(|| self.v.push_for_idx(|_| panic!("user code panics")));
                self.failed(r, 1, &[])
            }
            3 | 4 => {
                let (n, at) = if k == 3 { (3, 1) } else { (2, 0) };
                let x = self.vals(n);
                let it = x.iter().enumerate().map(|(i, x)| {
                    if i == at {
                        panic!("user code panics")
                    }
                    T::mk(*x)
                });
                let r = catch(|| self.v.extend(it));
                self.failed(r, n, &x[..at])
            }
            5 => {
                let x = self.vals(2);
                let r = catch(|| self.v.extend_n_items(x.iter().map(|x| T::mk(*x)), 3));
                self.failed(r, 3, &x)
            }
            6 => {
                let r = catch(|| self.v.extend_for_idx(|_| -> Vec<T> { panic!("user code panics") }, 2));
                self.failed(r, 2, &[])
            }
            7 => {
                let x = self.vals(3);
                let r = catch(|| self.v.extend_for_idx(|_| x.iter().map(|x| T::mk(*x)).collect::<Vec<_>>(), 2));
                self.failed(r, 2, &x)
            }
            8 => {
                let n = self.prefix();
                let x = self.vals(n);
                for (i, x) in x.iter().enumerate() {
                    self.v[i].set(T::mk(*x));
                    self.m[i] = Some(*x);
                }
                if n > 0 {
                    ensure!(self.v.swap(0, n - 1), "{:?}: swap", self.hist);
                    self.m.swap(0, n - 1);
                    ensure!(!self.v.swap(0, self.m.len()), "{:?}: swap out of bounds", self.hist);
                }
            }
            9 => {
                let x = self.vals(1)[0];
                self.v.fill(T::mk(x));
                let n = self.prefix();
                self.m[..n].iter_mut().for_each(|y| *y = Some(x));
            }
            10 => {
                let max = self.v.maximum_capacity();
                let want = if kind == Kind::Dbl { 0 } else { max + 3 };
                let got = self.v.reserve_maximum_capacity(want);
                ensure!(got >= want && got >= max, "{:?}: reserving {} gave {}", self.hist, want, got);
                self.m.truncate(self.last());
            }
            11 => {
                let p = std::mem::replace(&mut self.v, P::make(kind)).into_inner();
                ensure!(p.len() >= self.last() && p.len() <= self.m.len(), "{:?}: inner length {} of {:?}", self.hist, p.len(), self.m);
                self.m.truncate(p.len());
                for (i, e) in p.iter().enumerate() {
                    ensure!(self.m[i].is_none() || Some(e.map(|x| x.val())) == self.m[i], "{:?}: inner vector at {}", self.hist, i);
                }
                self.v = ConcurrentVec::from(p);
            }
            _ => {
                self.v.clear();
                self.m.clear();
            }
        }
        self.look()
    }
    fn look(&self) {
        let (v, h, n) = (&self.v, &self.hist, self.prefix());
        let pre: Vec<u64> = self.m[..n].iter().map(|x| x.unwrap()).collect();
        ensure!(v.len() == n && v.is_empty() == (n == 0), "{:?}: length {} with {:?}", h, v.len(), self.m);
        ensure!(v.capacity() >= n && v.capacity() <= v.maximum_capacity(), "{:?}: capacity", h);
        for i in 0..self.m.len() + 2 {
            let want = self.m.get(i).copied().flatten();
            ensure!(v.get(i).map(|e| e.map(|x| x.val())) == if i < n { want } else { None }, "{:?}: get({}) of {:?}", h, i, self.m);
            let c = v.get_cloned(i).map(|x| x.val());
            ensure!(c == want || (i >= n && c.is_none()), "{:?}: get_cloned({}) gave {:?} of {:?}", h, i, c, self.m);
            let r = unsafe { v.get_ref(i) }.map(|x| x.val());
            ensure!(r == want, "{:?}: get_ref({}) gave {:?} of {:?}", h, i, r, self.m);
            let r = unsafe { v.get_mut(i) }.map(|x| x.val());
            ensure!(r == want, "{:?}: get_mut({}) gave {:?} of {:?}", h, i, r, self.m);
            let (r, w) = (v.get_raw(i).map(|x| x as usize), v.get_raw_mut(i).map(|x| x as usize));
            ensure!(r == w && r.is_some() == want.is_some(), "{:?}: get_raw({}) of {:?}", h, i, self.m);
        }
        let all: Vec<u64> = self.m.iter().filter_map(|x| *x).collect();
        let o: Vec<u64> = unsafe { v.iter_ref() }.map(|x| x.val()).collect();
        ensure!(o == all, "{:?}: iter_ref {:?} of {:?}", h, o, self.m);
        let o: Vec<u64> = unsafe { v.iter_mut() }.map(|x| x.val()).collect();
        ensure!(o == all, "{:?}: iter_mut {:?} of {:?}", h, o, self.m);
        let o: Vec<u64> = v.iter().map(|e| e.map(|x| x.val())).collect();
        ensure!(o == pre, "{:?}: iter {:?} of {:?}", h, o, self.m);
        let o: Vec<u64> = v.iter_cloned().map(|x| x.val()).collect();
        ensure!(o == pre, "{:?}: iter_cloned {:?} of {:?}", h, o, self.m);
        let o: Vec<u64> = v.clone_to_vec().iter().map(|x| x.val()).collect();
        ensure!(o == pre, "{:?}: clone_to_vec {:?} of {:?}", h, o, self.m);
        let o: Vec<u64> = v.slice(..).iter_cloned().map(|x| x.val()).collect();
        ensure!(o == pre, "{:?}: slice {:?} of {:?}", h, o, self.m);
        ensure!(v.fold(0, |k, _| k + 1) == n, "{:?}: fold", h);
        let d = format!("[{}]", pre.iter().map(|x| format!("v{}", x)).collect::<Vec<_>>().join(", "));
        ensure!(v.a_debug() == d, "{:?}: formatted as {}, expected {}", h, v.a_debug(), d);
    }
    fn finish(mut self) {
        let whole = self.last() == self.prefix();
        let all: Vec<u64> = self.m.iter().filter_map(|x| *x).collect();
        match choose(5) {
            0 => drop(self.v),
            1 => {
                let v = self.v;
                match catch(|| v.to_vec()) {
                    Some(d) => ensure!(d.iter().map(|x| x.val()).eq(all.iter().copied()), "{:?}: to_vec of {:?}", self.hist, self.m),
                    None => ensure!(!whole, "{:?}: to_vec of {:?} panicked", self.hist, self.m),
                }
            }
            2 => {
                let n = self.prefix();
                let mut it = self.v.into_iter();
                let mut o = vec![];
                for _ in 0..n {
                    o.push(it.next().map_or(0, |x| x.val()));
                }
                ensure!(o[..] == all[..n], "{:?}: into_iter of {:?}", self.hist, self.m);
                while let Some(Some(x)) = catch(|| it.next()) {
                    o.push(x.val());
                }
                ensure!(o.iter().all(|x| all.contains(x)), "{:?}: into_iter of {:?}", self.hist, self.m);
            }
            3 => drop(self.v.into_inner()),
            _ => {
                self.v.clear();
                for i in 0..3 {
                    ensure_eq(self.v.push(T::mk(i)), i as usize, "position of a push after clear");
                }
                ensure!(self.v.iter_cloned().map(|x| x.val()).eq(0..3), "{:?}: contents after clear", self.hist);
            }
        }
    }
}
fn gaps<T: Val, P: St<T>>(kind: Kind, n: usize, depth: usize) {
    {
        let m: Vec<u64> = (1..=n as u64).collect();
        let v = build::<T, P>(kind, Build::Push, &m);
        let mut s = Gaps { v, m: m.iter().map(|x| Some(*x)).collect(), next: 100, hist: vec![] };
        for d in 0..depth {
            let room = s.v.maximum_capacity() - s.m.len();
            let en: Vec<usize> = (0..13).filter(|k| (1..8).contains(k) && room >= 3 || *k == 0 && room >= 1 || *k >= 8).collect();
            let k = choose(en.len() + (d > 0) as usize);
            if k == en.len() {
                break;
            }
            s.step(en[k], kind);
        }
        s.finish();
    }
    leaks();
}

// ------------------------------------------------------------------ panics while a vector is being built or converted

/// panics of the iterator, of `clone` and of `drop` in conversions
fn broken<T: Val>(max: usize) {
    {
        let n = choose(max + 1);
        let at = choose(n + 1);
        let k = choose(7);
        let what = format!("{} values, panic at {}, {}", n, at, k);
        let it = || {
            (0..n).map(|i| {
                if i == at {
                    panic!("user code panics")
                }
                T::mk(i as u64 + 10)
            })
        };
        let r: Option<ConcurrentVec<T>> = match k {
            0 => catch(|| it().collect()),
            1 => catch(|| Hint { it: it(), lo: 0, hi: None }.collect()),
            2 => catch(|| Hint { it: it(), lo: n / 2, hi: Some(n + 3) }.collect()),
            3 => catch(|| it().filter(|_| true).collect()),
            _ => {
                let v: ConcurrentVec<T> = (0..n).map(|i| T::mk(if i == at { BOOM | 1 } else { i as u64 + 10 })).collect();
                let r = match k {
                    4 => catch(|| v.clone()),
                    5 => catch(|| v.clone_to_vec().into_iter().collect()),
                    _ => catch(|| v.slice(at / 2..).iter_cloned().collect::<ConcurrentVec<T>>()).map(|_| v.iter().map(|e| e.map(|x| T::mk(x.val()))).collect()),
                };
                // the original is as before
                ensure!(v.len() == n, "{}: length", what);
                for (i, e) in v.iter().enumerate() {
                    let x = e.map(|x| x.val());
                    ensure!(x == if i == at { BOOM | 1 } else { i as u64 + 10 }, "{}: value {}", what, i);
                    e.set(T::mk(5));
                }
                ensure_eq(v.push(T::mk(6)), n, "position of a push after a panic");
                ensure!(v.iter_cloned().map(|x| x.val()).eq((0..n).map(|_| 5).chain([6])), "{}: contents", what);
                r
            }
        };
        ensure!(r.is_some() == (at == n || (k >= 4 && !T::TRACKED)), "{}: panic {}", what, if r.is_some() { "swallowed" } else { "out of nowhere" });
        if let Some(v) = r {
            ensure!(v.len() == n, "{}: length {}", what, v.len());
            if at == n {
                ensure!(v.iter_cloned().map(|x| x.val()).eq((0..n as u64).map(|x| x + 10)), "{}: contents", what);
            }
        }
    }
    leaks();
}

// ------------------------------------------------------------------ capacity

/// every distribution of growth over calls of every kind, around the maximum capacity
fn limits<T: Val, P: St<T>>(kind: Kind, depth: usize) {
    {
        let mut st = State::<T, P>::new(kind, Build::Push, 0);
        let max = st.max;
        for _ in 0..depth {
            let s = match choose(5) {
                0 => S::Push,
                1 => S::PushIdx,
                2 => S::Ext(choose(max + 2)),
                3 => S::ExtIdx(choose(max + 2)),
                _ => S::ExtN(choose(max + 2)),
            };
            st.step(s);
            ensure!(st.v.len() == st.m.len() && vals(&st.v, |x| x.val()) == st.m, "{:?}: contents {:?}, expected {:?}", st.hist, vals(&st.v, |x| x.val()), st.m);
        }
        let s = [S::IterSet, S::Clear, S::Round, S::Reserve(2), S::Rebuild, S::Partial(1)][choose(6)];
        st.step(s);
        if !st.stuck {
            st.step(S::PushAll);
            ensure_eq(st.v.len(), st.v.maximum_capacity(), "length of a full vector");
            ensure_eq(st.v.capacity(), st.v.maximum_capacity(), "capacity of a full vector");
        }
        st.finish();
    }
    leaks();
}

// ------------------------------------------------------------------ the list

struct Run<F>(F);
trait Family<T: Val> {
    fn go<P: St<T>>(&self, k: Kind);
}
impl<T: Val, F: Family<T>> Generic<T> for Run<F> {
    fn run<P: St<T>>(&self, k: Kind) {
        self.0.go::<P>(k)
    }
}

macro_rules! family {
    ($name:ident { $($f:ident : $ft:ty),* } |$s:ident, $k:ident| $body:expr) => {
        #[derive(Clone)]
        struct $name { $($f: $ft),* }
        impl<T: Val> Family<T> for $name {
            fn go<P: St<T>>(&self, $k: Kind) {
                let $s = self;
                $body
            }
        }
    };
}
family!(FSeq { b: Build, n: usize, alpha: Vec<S>, first: Vec<S>, depth: usize } |s, k| sequences::<T, P>(k, s.b, s.n, &s.alpha, &s.first, s.depth));
family!(FSlices { n: usize, nest: bool } |s, k| slices::<T, P>(k, s.n, s.nest));
family!(FSplits { n: usize } |s, k| splits::<T, P>(k, s.n));
family!(FPairs { n: usize } |s, k| pairs::<T, P>(k, s.n));
family!(FConv { lens: Vec<usize>, full: bool } |s, k| convert::<T, P>(k, &s.lens, s.full));
family!(FGaps { n: usize, depth: usize } |s, k| gaps::<T, P>(k, s.n, s.depth));
family!(FBroken { max: usize } |s, _k| {
    let _ = std::marker::PhantomData::<P>;
    broken::<T>(s.max)
});
family!(FLimits { depth: usize } |s, k| limits::<T, P>(k, s.depth));
family!(FCollect { max: usize } |s, _k| {
    let _ = std::marker::PhantomData::<P>;
    collects::<T>(s.max)
});

pub struct List {
    pub all: Vec<SeqScen>,
    pub ty: usize,
}
impl List {
    fn add<F: Family<V> + Family<C2> + Clone + 'static>(&mut self, props: &[&'static str], name: String, k: Kind, f: F) {
        self.ty += 1;
        let c2 = self.ty % 5 == 0;
        let f = Run(f);
        let run: Box<dyn Fn()> = if c2 { Box::new(move || dispatch::<C2, _>(k, &f)) } else { Box::new(move || dispatch::<V, _>(k, &f)) };
        self.all.push(SeqScen { name: format!("seq/{}/{:?}/{}", if c2 { "C2" } else { "V" }, k, name), props: props.to_vec(), run });
    }
}

/// `deep` scenarios are explored by the thorough checks only
pub fn scenarios(deep: bool) -> Vec<SeqScen> {
    let mut l = List { all: vec![], ty: 0 };
    let kinds = [Kind::Dbl, Kind::Lin(1, 8), Kind::Lin(2, 4), Kind::Fix(10), Kind::Lin(1, 2), Kind::Fix(5)];
    let small = |k: Kind| matches!(k, Kind::Lin(1, 2) | Kind::Fix(5));
    for k in kinds {
        // operation sequences
        let al = alphabet(k);
        for n in [0usize, 2, 3, 4] {
            for (b, d) in [(Build::Push, 3), (Build::Conv, 2), (Build::Clear, 2), (Build::Reserve, 2), (Build::Cloned, 2), (Build::Ext, 2)] {
                let quick = match k {
                    Kind::Dbl => matches!(n, 0 | 3),
                    Kind::Lin(1, 8) => n == 4,
                    Kind::Lin(2, 4) => false,
                    Kind::Fix(10) => n == 0,
                    Kind::Lin(1, 2) => matches!(n, 0 | 3),
                    _ => n == 4,
                };
                let d = if d == 3 && (!quick && !deep || n == 2) { 2 } else { d };
                let chunk = if d == 3 { 4 } else { al.len() };
                for (i, first) in al.chunks(chunk).enumerate() {
                    let mut t = vec!["C11", "C09", "C08", "C16", "C17", "C03", "C10", "C18", "C15", "C14"];
                    if k != Kind::Dbl {
                        t.push("C12");
                    }
                    t.push("C13");
                    if d == 3 {
                        t = vec!["C11"];
                        let has = |f: &dyn Fn(&S) -> bool| first.iter().any(f);
                        if has(&|s| matches!(s, S::Clear | S::Reserve(_))) {
                            t.push("C17");
                        }
                        if has(&|s| matches!(s, S::Round | S::CloneSwap | S::CloneDrop | S::Rebuild | S::Partial(_))) {
                            t.extend(["C16", "C09"]);
                        }
                        if has(&|s| matches!(s, S::ExtOver(_) | S::PushFull | S::PushIdxFull | S::ExtIdxOver(_) | S::ExtHuge)) {
                            t.extend(["C12"]);
                        }
                        if has(&|s| matches!(s, S::UpdPanic(_) | S::FillPanic(_) | S::SlFillPanic | S::BoomCl)) {
                            t.push("C13");
                        }
                        if has(&|s| matches!(s, S::Swap(..))) {
                            t.push("C05");
                        }
                        if has(&|s| matches!(s, S::Push | S::Ext(_))) {
                            t.push("C01");
                        }
                    }
                    l.add(&t, format!("ops{}/{:?}/{}/{}", d, b, n, i), k, FSeq { b, n, alpha: al.clone(), first: first.to_vec(), depth: d });
                }
            }
            let dp = alphabet_deep(k);
            for (i, f) in dp.iter().enumerate() {
                let d = if deep { 5 } else { 4 };
                if n == 3 || (deep && n != 2) {
                    l.add(&["C11", "C09", "C16", "C17", "C12", "C08"][..if k == Kind::Dbl { 4 } else { 6 }], format!("deep{}/{}/{}", d, n, i), k, FSeq { b: Build::Push, n, alpha: dp.clone(), first: vec![*f], depth: d });
                }
            }
            if deep {
                for (i, f) in al.iter().enumerate() {
                    l.add(&["C11", "C09", "C08"], format!("ops4/{}/{}", n, i), k, FSeq { b: Build::Push, n, alpha: al.clone(), first: vec![*f], depth: 4 });
                }
            }
        }
        // slices
        for n in 0..=(if small(k) { 4 } else { 8 }) {
            l.add(&["C10", "C11"], format!("slices/{}", n), k, FSlices { n, nest: false });
            l.add(&["C10", "C11", "C14"], format!("splits/{}", n), k, FSplits { n });
            if n <= if deep { 8 } else { 5 } {
                l.add(&["C10"], format!("nested-slices/{}", n), k, FSlices { n, nest: true });
            }
        }
        if k == Kind::Dbl || k == Kind::Lin(1, 8) {
            for n in [11, 12, 13, 14] {
                l.add(&["C10"], format!("slices/{}", n), k, FSlices { n, nest: false });
                l.add(&["C10"], format!("splits/{}", n), k, FSplits { n });
            }
        }
        l.add(&["C15"], "pairs/3".into(), k, FPairs { n: 3 });
        if deep && !small(k) {
            l.add(&["C15"], "pairs/4".into(), k, FPairs { n: 4 });
        }
        // conversions
        let cap = match k {
            Kind::Dbl => usize::MAX,
            Kind::Lin(1, 8) => 16,
            Kind::Lin(2, 4) => 16,
            Kind::Fix(n) => n,
            _ => 4,
        };
        let lens: Vec<usize> = (0..=20).filter(|x| *x <= cap).collect();
        for c in lens.chunks(3) {
            l.add(&["C16", "C09", "C17"], format!("convert/{}..={}", c[0], c[c.len() - 1]), k, FConv { lens: c.to_vec(), full: true });
        }
        for n in [0, 1, 2, 3, 4, 5] {
            if n < cap {
                l.add(&["C13", "C09", "C03", "C18", "C17"], format!("gaps/{}", n), k, FGaps { n, depth: if deep { 4 } else { 3 } });
            }
        }
    }
    for k in [Kind::Lin(1, 3), Kind::Lin(4, 8), Kind::Lin(6, 4), Kind::Fix(64)] {
        let lens: Vec<usize> = match k {
            Kind::Lin(1, 3) => vec![0, 1, 2, 3, 4, 5, 6],
            Kind::Lin(4, 8) => vec![15, 16, 17, 31, 32, 33],
            Kind::Lin(6, 4) => vec![63, 64, 65, 127, 128, 129],
            _ => vec![31, 63, 64],
        };
        l.add(&["C16", "C11"], "convert/boundaries".into(), k, FConv { lens, full: true });
    }
    for lens in [vec![27, 28, 29], vec![59, 60, 61], vec![123, 124, 125, 126], vec![251, 252, 253], vec![508, 509, 1019, 1020, 1021]] {
        l.add(&["C16", "C11", "C01"], format!("convert/{:?}", lens), Kind::Dbl, FConv { lens, full: false });
    }
    for k in [Kind::Fix(0), Kind::Fix(1), Kind::Fix(2), Kind::Fix(3), Kind::Lin(1, 1), Kind::Lin(1, 3), Kind::Lin(1, 2), Kind::Lin(2, 1)] {
        if deep || k != Kind::Lin(1, 3) {
            l.add(&["C12", "C11", "C17"], "limits".into(), k, FLimits { depth: 3 });
        }
        if deep {
            l.add(&["C12"], "limits4".into(), k, FLimits { depth: 4 });
        }
    }
    for max in [3, 5, 9, 18] {
        for _ in 0..2 {
            l.add(&["C13", "C09", "C16"], format!("broken/{}", max), Kind::Dbl, FBroken { max });
        }
        l.ty += 1;
    }
    for max in [40, 130] {
        l.add(&["C16", "C11"], format!("collect/{}", max), Kind::Dbl, FCollect { max });
    }
    l.all
}
