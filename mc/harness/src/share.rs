//! Which thread gets to touch which value: element types with every combination of `Send` and `Sync`.
//! What the compiler lets threads do with a vector of them is probed, and then done, on every schedule.
use crate::api::Kind;
use crate::ensure;
use crate::mc::{self, Job};
use crate::ops::leaks;
use crate::seq::SeqScen;
use crate::val::V;
use orx_concurrent_vec::*;
use orx_fixed_vec::FixedVec;
use orx_split_vec::{Doubling, Linear, SplitVec};
use std::marker::PhantomData;

/// A value which knows where it belongs.
pub struct K<const SEND: bool, const SYNC: bool> {
    v: V,
    home: u32,
    _not: PhantomData<*const u8>,
}
unsafe impl<const SYNC: bool> Send for K<true, SYNC> {}
unsafe impl<const SEND: bool> Sync for K<SEND, true> {}
impl<const SEND: bool, const SYNC: bool> K<SEND, SYNC> {
    fn new(x: u64) -> Self {
        K { v: V::new(x), home: mc::tid(), _not: PhantomData }
    }
    fn look(&self) -> u64 {
        ensure!(SYNC || SEND || self.home == mc::tid(), "a thread accesses a value which may neither be sent nor shared and belongs to another thread");
        self.v.get()
    }
    fn own(&self) {
        ensure!(SEND || self.home == mc::tid(), "a value which must not be sent has been moved to another thread");
    }
}
impl<const SEND: bool, const SYNC: bool> Drop for K<SEND, SYNC> {
    fn drop(&mut self) {
        if mc::active() {
            self.own()
        }
    }
}
impl<const SEND: bool, const SYNC: bool> Clone for K<SEND, SYNC> {
    fn clone(&self) -> Self {
        Self::new(self.look())
    }
}

// ------------------------------------------------------------------ what the compiler permits

pub struct Pr<T: ?Sized>(PhantomData<*const T>);
pub trait Not {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T: ?Sized> Not for Pr<T> {}
impl<T: ?Sized + Send> Pr<T> {
    pub fn send(&self) -> bool {
        true
    }
}
/// `Sync` has its own type, as inherent methods of both would clash with the default ones otherwise
pub struct Ps<T: ?Sized>(PhantomData<*const T>);
impl<T: ?Sized> Not for Ps<T> {}
impl<T: ?Sized + Sync> Ps<T> {
    pub fn sync(&self) -> bool {
        true
    }
}
fn pr<T>(_: &T) -> Pr<T> {
    Pr(PhantomData)
}
fn ps<T>(_: &T) -> Ps<T> {
    Ps(PhantomData)
}

type El<T> = ConcurrentElement<T>;
type Dbl<T> = SplitVec<El<T>, Doubling>;
type Lin<T> = SplitVec<El<T>, Linear>;
type Fix<T> = FixedVec<El<T>>;

fn judge(what: &str, permitted: bool, sound: bool) -> bool {
    ensure!(permitted || !sound, "{} is not possible although the elements permit it", what);
    permitted
}

macro_rules! scen {
    ($out:ident, $send:literal, $sync:literal, $st:ident, $make:expr) => {{
        type T = K<$send, $sync>;
        type W = ConcurrentVec<T, $st<T>>;
        let make = || -> W { $make };
        let name = |x: &str| format!("share/{}/{}/{}/{}", x, if $send { "Send" } else { "!Send" }, if $sync { "Sync" } else { "!Sync" }, stringify!($st));
        let fill = |v: &W| {
            v.push(T::new(1));
            v.push(T::new(2));
        };
        // a vector used by two threads through shared references
        for k in 0..8 {
            let run = move || {
                {
                    let v = make();
                    fill(&v);
                    let by_vec = judge("sharing the vector", ps(&v).sync() && pr(&&v).send(), $send && $sync);
                    let by_slice = judge("sending a slice", pr(&v.as_slice()).send(), $send && $sync) || ps(&v.as_slice()).sync();
                    let by_el = judge("sharing an element", ps(&v[0]).sync(), $send && $sync);
                    let by_iter = pr(&v.iter()).send()
                        || pr(&v.iter_cloned()).send()
                        || pr(&v.map(|x: &T| x.look())).send()
                        || pr(&v.filter(|x: &T| x.look() > 0)).send()
                        || unsafe { pr(&v.iter_ref()).send() || pr(&v.iter_mut()).send() }
                        || pr(&v.slice(..).iter()).send()
                        || pr(&v.slice(..).iter_cloned()).send();
                    let any = by_vec || by_slice || by_el || by_iter;
                    if any {
                        // the main thread only waits, and gets its values back afterwards
                        let slice = v.as_slice();
                        let mut parts: Vec<Option<T>> = vec![None, None, None];
                        let (a, b) = {
                            let (x, y) = parts.split_at_mut(1);
                            (&mut x[0], &mut y[0])
                        };
                        let el = &v[0];
                        let jobs: Vec<Job<'_>> = vec![
                            Box::new(|| match k {
                                0 | 1 if by_vec => drop(v.push(T::new(3))),
                                2 if by_vec => drop(v.extend([T::new(3), T::new(4)])),
                                _ => *a = Some(el.replace(T::new(5))),
                            }),
                            Box::new(|| match k {
                                0 | 2 if by_vec || by_iter => v.iter().for_each(|e| {
                                    e.map(|x| x.look());
                                }),
                                1 | 3 if by_slice => slice.fill_with(|i| T::new(i as u64)),
                                4 => *b = Some(el.replace(T::new(6))),
                                5 => drop(el.cloned()),
                                6 => el.update(|x| {
                                    x.look();
                                    *x = T::new(7)
                                }),
                                _ => el.set(T::new(8)),
                            }),
                        ];
                        mc::threads(jobs);
                        ensure!(v[1].map(|x| x.look()) < 10, "value");
                        for p in parts.iter().flatten() {
                            p.own();
                        }
                        drop(parts);
                        ensure!(
                            $send && $sync,
                            "the elements must not be {}, but threads can share the vector: {}, a slice: {}, an element: {}, an iterator: {}",
                            if $send { "shared" } else { "sent" },
                            by_vec,
                            by_slice,
                            by_el,
                            by_iter
                        );
                    }
                }
                leaks();
            };
            $out.push(SeqScen { name: name(&format!("shared{}", k)), props: vec!["C19"], run: Box::new(run) });
        }
        // a vector handed over to another thread
        for k in 0..5 {
            let run = move || {
                {
                    let v = make();
                    fill(&v);
                    let vec = judge("sending the vector", pr(&v).send(), $send);
                    match k {
                        3 => {
                            let mut it = v.into_iter();
                            ensure!(it.next().map(|x| x.look()) == Some(1), "first value");
                            if pr(&it).send() {
                                mc::threads(vec![Box::new(move || drop(it))]);
                                ensure!($send, "an iterator over values which must not be sent can be sent");
                            }
                        }
                        4 => {
                            let mut p = v.into_inner();
                            if let Some(e) = orx_pinned_vec::PinnedVec::pop(&mut p) {
                                if pr(&e).send() {
                                    mc::threads(vec![Box::new(move || drop(e))]);
                                    ensure!($send, "an element with a value which must not be sent can be sent");
                                }
                            }
                        }
                        _ if vec => {
                            mc::threads(vec![
                                Box::new(move || match k {
                                    0 => drop(v),
                                    1 => v.into_iter().for_each(|x| x.own()),
                                    _ => v.to_vec().iter().for_each(|x| x.own()),
                                }),
                                Box::new(|| drop(T::new(9))),
                            ]);
                            ensure!($send, "a vector of values which must not be sent can be sent");
                        }
                        _ => (),
                    }
                }
                leaks();
            };
            $out.push(SeqScen { name: name(&format!("sent{}", k)), props: vec!["C19"], run: Box::new(run) });
        }
    }};
}

pub fn scenarios() -> Vec<SeqScen> {
    let _ = Kind::Dbl;
    let mut out = vec![];
    macro_rules! all {
        ($($s:literal $y:literal),*) => { $(
            scen!(out, $s, $y, Dbl, ConcurrentVec::new());
            scen!(out, $s, $y, Lin, ConcurrentVec::with_linear_growth(1, 4));
            scen!(out, $s, $y, Fix, ConcurrentVec::with_fixed_capacity(6));
        )* };
    }
    all!(true true, true false, false true, false false);
    out
}
