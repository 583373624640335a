//! Elements which change through shared references (atomics, cells): what user code is given is the element itself.
use crate::api::{dispatch, Api, Generic, Kind, St};
use crate::ensure;
use crate::mc::{self, choose, ensure_eq, Job};
use crate::ops::leaks;
use crate::seq::SeqScen;
use orx_concurrent_vec::*;
use std::fmt;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

/// Counts the visits it gets.
pub struct Tally<X> {
    n: AtomicU32,
    id: u32,
    _x: X,
}
impl<X: Default> Tally<X> {
    fn new(id: usize) -> Self {
        Tally { n: AtomicU32::new(0), id: id as u32, _x: X::default() }
    }
    fn hit(&self) {
        self.n.fetch_add(1, Relaxed);
    }
    fn hits(&self) -> u32 {
        self.n.load(Relaxed)
    }
}
impl<X: Default> Clone for Tally<X> {
    fn clone(&self) -> Self {
        self.hit();
        Tally::new(self.id as usize)
    }
}
impl<X: Default> PartialEq for Tally<X> {
    fn eq(&self, o: &Self) -> bool {
        self.hit();
        o.hit();
        self.id == o.id
    }
}
impl<X: Default> fmt::Debug for Tally<X> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.hit();
        write!(f, "{}", self.id)
    }
}

fn hits<X: Default, P: St<Tally<X>>>(v: &ConcurrentVec<Tally<X>, P>) -> Vec<u32> {
    (0..v.len()).map(|i| unsafe { v.get_ref(i) }.unwrap().hits()).collect()
}

struct Paths<X>(usize, std::marker::PhantomData<X>);
impl<X: Default + 'static> Generic<Tally<X>> for Paths<X> {
    fn run<P: St<Tally<X>>>(&self, k: Kind) {
        {
            let n = self.0;
            let v = P::make(k);
            for i in 0..n {
                v.push(Tally::<X>::new(i));
            }
            let a = choose(n + 1);
            let b = a + choose(n - a + 1);
            // every operation of the vector, and of the slice a..b
            let whole = choose(2) == 0;
            let (a, b) = if whole { (0, n) } else { (a, b) };
            let l = b - a;
            let s = v.slice(a..b);
            for op in 0..22 {
                let before = hits(&v);
                let mut least = vec![0; n];
                let mut exact = true;
                let mut every = |x: u32| least[a..b].iter_mut().for_each(|h| *h = x);
                match op {
                    0 => {
                        every(1);
                        (0..l).for_each(|i| if whole { v[i].map(|x| x.hit()) } else { s[i].map(|x| x.hit()) })
                    }
                    1 => {
                        every(1);
                        (0..l).for_each(|i| if whole { v.get(i) } else { s.get(i) }.unwrap().map(|x| x.hit()))
                    }
                    2 => {
                        every(1);
                        if whole { v.iter().for_each(|e| e.map(|x| x.hit())) } else { s.iter().for_each(|e| e.map(|x| x.hit())) }
                    }
                    3 => {
                        every(1);
                        ensure_eq(if whole { v.map(|x| x.hit()).count() } else { s.map(|x| x.hit()).count() }, l, "values mapped")
                    }
                    4 => {
                        every(1);
                        let f = |x: &Tally<X>| {
                            x.hit();
                            x.id % 2 == 0
                        };
                        ensure_eq(if whole { v.filter(f).count() } else { s.filter(f).count() }, (a..b).filter(|i| i % 2 == 0).count(), "values kept")
                    }
                    5 => {
                        every(1);
                        let f = |k: usize, x: &Tally<X>| {
                            x.hit();
                            k + x.id as usize
                        };
                        ensure_eq(if whole { v.fold(0, f) } else { s.fold(0, f) }, (a..b).sum(), "values folded")
                    }
                    6 => {
                        // may work on copies, except that the first element has to be cloned
                        exact = false;
                        let f = |x: &Tally<X>, y: &Tally<X>| {
                            y.hit();
                            Tally::new((x.id + y.id) as usize)
                        };
                        ensure_eq(if whole { v.reduce(f) } else { s.reduce(f) }.map(|x| x.id as usize), (l > 0).then_some((a..b).sum()), "values reduced")
                    }
                    7 => {
                        every(1);
                        (0..l).for_each(|i| if whole { v[i].update(|x| x.hit()) } else { s[i].update(|x| x.hit()) })
                    }
                    8 => {
                        every(1);
                        unsafe { if whole { v.iter_ref().for_each(|x| x.hit()) } else { s.iter_ref().for_each(|x| x.hit()) } }
                    }
                    9 => {
                        every(1);
                        unsafe { if whole { v.iter_mut().for_each(|x| x.hit()) } else { s.iter_mut().for_each(|x| x.hit()) } }
                    }
                    10 => {
                        every(2);
                        for i in 0..l {
                            unsafe {
                                if whole { v.get_ref(i) } else { s.get_ref(i) }.unwrap().hit();
                                if whole { v.get_mut(i) } else { s.get_mut(i) }.unwrap().hit();
                            }
                        }
                    }
                    11 => {
                        every(2);
                        for i in 0..l {
                            unsafe {
                                (*if whole { v.get_raw(i) } else { s.get_raw(i) }.unwrap()).hit();
                                (*if whole { v.get_raw_mut(i) } else { s.get_raw_mut(i) }.unwrap()).hit();
                            }
                        }
                    }
                    12 => {
                        every(1);
                        if whole { v.chunks(2).for_each(|c| c.iter().for_each(|e| e.map(|x| x.hit()))) } else { s.chunks(2).for_each(|c| c.iter().for_each(|e| e.map(|x| x.hit()))) }
                    }
                    13 => {
                        every(1);
                        let (x, y) = if whole { v.split_at(l / 2) } else { s.split_at(l / 2) };
                        [x, y].iter().for_each(|s| s.iter().for_each(|e| e.map(|x| x.hit())));
                    }
                    14 => {
                        if let Some((e, r)) = if whole { v.split_first() } else { s.split_first() } {
                            every(1);
                            e.map(|x| x.hit());
                            ensure_eq(r.map(|x| x.hit()).count(), l - 1, "values behind the first one");
                        }
                    }
                    15 => {
                        if let Some((e, r)) = if whole { v.split_last() } else { s.split_last() } {
                            every(1);
                            e.map(|x| x.hit());
                            ensure_eq(r.fold(0, |k, x| {
                                x.hit();
                                k + 1
                            }), l - 1, "values before the last one");
                        }
                    }
                    // cloning, comparing and formatting happen at least once per element
                    16 => {
                        exact = false;
                        every(3);
                        (0..l).for_each(|i| drop((if whole { v[i].cloned() } else { s[i].cloned() }, if whole { v.get_cloned(i) } else { s.get_cloned(i) })));
                        ensure_eq(if whole { v.iter_cloned().count() } else { s.iter_cloned().count() }, l, "values cloned");
                    }
                    17 => {
                        exact = false;
                        every(1);
                        ensure_eq(if whole { v.clone_to_vec().len() } else { s.clone_to_vec().len() }, l, "values cloned");
                    }
                    18 => {
                        exact = false;
                        every(1);
                        let t = if whole { format!("{:?}", v) } else { format!("{:?}", s) };
                        ensure!(t == format!("{:?}", (a..b).collect::<Vec<_>>()), "formatted as {}", t);
                    }
                    19 => {
                        exact = false;
                        if l > 0 {
                            every(1);
                            let x = Tally::new(b - 1);
                            ensure_eq(if whole { v.index_of(&x) } else { s.index_of(&x) }, Some(l - 1), "position");
                            ensure!(x.hits() >= l as u32, "the value searched for was compared {} times", x.hits());
                        }
                    }
                    20 => {
                        exact = false;
                        every(1);
                        for i in 0..l {
                            let x = Tally::new(a + i);
                            ensure!(if whole { v[i] == x } else { s[i] == x } && x.hits() > 0, "element {} is not equal to its value", i);
                            drop((format!("{:?}", s[i]), v[a + i] == v[a]));
                        }
                    }
                    _ => {
                        exact = false;
                        if let Some(w) = P::vec_clone(&v) {
                            every(2);
                            ensure!(P::slice_eq(&s, &w.slice(a..b)) == Some(true), "equality");
                            ensure!(hits(&w)[a..b].iter().all(|x| *x > 0), "elements not compared");
                        }
                    }
                }
                let after = hits(&v);
                for i in 0..n {
                    let d = after[i] - before[i];
                    ensure!(d >= least[i] && (!exact || d == least[i]), "operation {} on {}..{} of {}: element {} was given out {} times, user code saw it {} times", op, a, b, n, i, d, least[i]);
                }
            }
            // values move with their counts
            let mut m: Vec<(u32, u32)> = hits(&v).into_iter().zip(0..).collect();
            if n > 1 {
                ensure!(v.swap(0, n - 1), "swap");
                m.swap(0, n - 1);
                let x = v[0].replace(Tally::new(70));
                ensure!((x.hits(), x.id) == m[0], "replaced value");
                m[0] = (0, 70);
                v[1].set(Tally::new(71));
                m[1] = (0, 71);
                ensure!(hits(&v).into_iter().eq(m.iter().map(|x| x.0)), "visits after changes");
            }
            let is = |x: &Tally<X>, i: usize| ensure!((x.hits(), x.id) == m[i], "value {} has {} visits instead of {:?}", x.id, x.hits(), m[i]);
            match choose(3) {
                0 => v.to_vec().iter().enumerate().for_each(|(i, x)| is(x, i)),
                1 => v.into_iter().enumerate().for_each(|(i, x)| is(&x, i)),
                _ => {
                    let mut v = ConcurrentVec::from(v.into_inner());
                    v.reserve_maximum_capacity(n + 5);
                    v.push(Tally::new(9));
                    (0..n).for_each(|i| v[i].map(|x| is(x, i)));
                }
            }
        }
        leaks();
    }
}

/// threads visiting the same elements
struct Visits<X>(usize, usize, std::marker::PhantomData<X>);
impl<X: Default + 'static> Generic<Tally<X>> for Visits<X> {
    fn run<P: St<Tally<X>>>(&self, k: Kind) {
        {
            let v = P::make(k);
            v.extend([Tally::<X>::new(0), Tally::new(1)]);
            let v = &v;
            let job = |op: usize| -> Job<'_> {
                Box::new(move || match op {
                    0 => v[0].map(|x| x.hit()),
                    1 => drop(v.map(|x| x.hit()).count()),
                    2 => drop(v.filter(|x| x.hits() < u32::MAX && { x.hit(); true }).count()),
                    3 => v.fold((), |_, x| x.hit()),
                    4 => v.slice(0..1).iter().for_each(|e| e.map(|x| x.hit())),
                    5 => v.as_slice().fold((), |_, x| x.hit()),
                    6 => v[0].update(|x| x.hit()),
                    7 => unsafe { v.get_ref(0) }.unwrap().hit(),
                    8 => unsafe { v.iter_ref() }.for_each(|x| x.hit()),
                    9 => v.as_slice().map(|x| x.hit()).for_each(drop),
                    _ => v.a_fold_hits(),
                })
            };
            mc::threads(vec![job(self.0), job(self.1)]);
            let mut want = [0; 2];
            for op in [self.0, self.1] {
                want[0] += 1;
                want[1] += [1, 2, 3, 5, 8, 9, 10].contains(&op) as u32;
            }
            ensure_eq(hits(v), want.to_vec(), "visits counted by the elements");
        }
        leaks();
    }
}
trait Visit {
    fn a_fold_hits(&self);
}
impl<X: Default + 'static, P: St<Tally<X>>> Visit for ConcurrentVec<Tally<X>, P> {
    fn a_fold_hits(&self) {
        let mut o = vec![];
        Api::<Tally<X>, P>::a_iter(self, &mut |e| e.map(|x| {
            x.hit();
            o.push(x.id)
        }));
        ensure_eq(o, vec![0, 1], "elements visited");
    }
}

const KINDS: [(&str, Kind); 3] = [("Dbl", Kind::Dbl), ("Lin", Kind::Lin(1, 8)), ("Fix", Kind::Fix(9))];

pub fn sequential(deep: bool) -> Vec<SeqScen> {
    let mut out = vec![];
    let p = ["C08", "C04", "C14", "C10", "C11", "C18", "C16"];
    for (name, k) in KINDS {
        for n in 0..if deep { 9 } else { 6 } {
            out.push(SeqScen { name: format!("inner/{}/plain/{}", name, n), props: p.to_vec(), run: Box::new(move || dispatch(k, &Paths::<()>(n, Default::default()))) });
            out.push(SeqScen { name: format!("inner/{}/dropped/{}", name, n), props: p.to_vec(), run: Box::new(move || dispatch(k, &Paths::<Box<u8>>(n, Default::default()))) });
        }
    }
    out
}

pub fn concurrent() -> Vec<SeqScen> {
    let mut out = vec![];
    let p = ["C04", "C08", "C14", "C02"];
    for (name, k) in KINDS {
        for a in 0..11 {
            for b in a..11 {
                out.push(SeqScen { name: format!("inner/{}/plain/threads/{}/{}", name, a, b), props: p.to_vec(), run: Box::new(move || dispatch(k, &Visits::<()>(a, b, Default::default()))) });
                if k == Kind::Dbl {
                    out.push(SeqScen { name: format!("inner/{}/dropped/threads/{}/{}", name, a, b), props: p.to_vec(), run: Box::new(move || dispatch(k, &Visits::<Box<u8>>(a, b, Default::default()))) });
                }
            }
        }
    }
    out
}
