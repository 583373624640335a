//! Elements whose own code (cloning, comparing, formatting, dropping) uses the vector they are stored in.
use crate::api::{dispatch, Generic, Kind, St};
use crate::ensure;
use crate::mc::{self, choose, ensure_eq, Job};
use crate::ops::leaks;
use crate::seq::SeqScen;
use crate::val::V;
use orx_concurrent_vec::*;
use std::cell::Cell;
use std::fmt;

type F<'a> = dyn Fn(u64, u64) + 'a;

/// what the code of the elements does, and in which threads it is being executed
struct Ctl {
    f: Cell<Option<*const F<'static>>>,
    busy: [Cell<bool>; 4],
    calls: [Cell<usize>; 4],
    drops: Cell<bool>,
}
impl Ctl {
    fn new() -> Ctl {
        Ctl { f: Cell::new(None), busy: Default::default(), calls: Default::default(), drops: Cell::new(true) }
    }
    fn set(&self, f: Option<&F<'_>>) {
        self.f.set(f.map(|f| unsafe { std::mem::transmute::<*const F<'_>, *const F<'static>>(f as *const F<'_>) }));
    }
    fn fire(&self, a: u64, b: u64) {
        if !mc::active() {
            return;
        }
        let t = mc::tid() as usize;
        if let (Some(f), false) = (self.f.get(), self.busy[t].get()) {
            self.busy[t].set(true);
            self.calls[t].set(self.calls[t].get() + 1);
            unsafe { (*f)(a, b) };
            self.busy[t].set(false);
        }
    }
    fn quiet<R>(&self, g: impl FnOnce() -> R) -> R {
        let t = mc::tid() as usize;
        let was = self.busy[t].replace(true);
        let r = g();
        self.busy[t].set(was);
        r
    }
}

struct H {
    v: V,
    c: *const Ctl,
}
impl H {
    fn new(c: &Ctl, x: u64) -> H {
        H { v: V::new(x), c }
    }
    fn get(&self) -> u64 {
        self.v.get()
    }
    fn ctl(&self) -> &Ctl {
        unsafe { &*self.c }
    }
}
impl Clone for H {
    fn clone(&self) -> H {
        self.ctl().fire(self.get(), self.get());
        H { v: V::new(self.get()), c: self.c }
    }
}
impl PartialEq for H {
    fn eq(&self, o: &H) -> bool {
        let r = self.get() == o.get();
        self.ctl().fire(self.get(), o.get());
        r && self.get() == o.get()
    }
}
impl fmt::Debug for H {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.ctl().fire(self.get(), self.get());
        write!(f, "h{}", self.get())
    }
}
impl Drop for H {
    fn drop(&mut self) {
        if mc::active() && self.ctl().drops.get() {
            self.ctl().fire(self.get(), self.get());
        }
    }
}

const NEW: u64 = 55;
const OPS: [&str; 23] = [
    "get_cloned", "cloned", "iter_cloned", "clone_to_vec", "slice-clone_to_vec", "reduce", "fill", "fill_with", "set", "replace", "debug", "slice-debug", "element-debug", "index_of", "contains", "eq-array", "slice-eq-array",
    "eq-vec", "eq-itself", "clone", "element-eq", "element-eq-value", "update",
];
const ACTS: [&str; 9] = ["push", "extend", "push_for_idx", "lengths", "reads", "writes", "swaps", "slices", "iterators"];

/// the elements which the running code may be holding are those with the values `a` and `b`
fn act<P: St<H>>(c: &Ctl, v: &ConcurrentVec<H, P>, n: usize, k: usize, a: u64, b: u64) {
    let t = mc::tid() as usize;
    let free = |j: &usize| *j as u64 != a && *j as u64 != b;
    let x = 100 + 10 * t as u64;
    match k {
        0..=2 => {
            // only the first two calls grow the vector
            let i = c.calls[t].get() as u64;
            if i <= 2 {
                match k {
                    0 => {
                        v.push(H::new(c, x + i));
                    }
                    1 => {
                        v.extend([H::new(c, x + i), H::new(c, x + 5 + i)]);
                    }
                    _ => {
                        v.push_for_idx(|_| H::new(c, x + i));
                    }
                }
            }
        }
        3 => {
            let l = v.len();
            ensure!(l >= n && !v.is_empty() && v.capacity() >= l && v.maximum_capacity() >= l, "length {} and capacity {} seen by an element", l, v.capacity());
            ensure!(v.get(l - 1).is_some() && v.as_slice().len() >= l, "element {} of {}", l - 1, l);
        }
        4 => (0..n).filter(free).for_each(|j| {
            let y = v[j].map(|h| h.get());
            ensure!((y == j as u64 || y >= NEW) && v.get_cloned(j).is_some(), "element {} is {}", j, y);
        }),
        5 => (0..n).filter(free).for_each(|j| {
            let y = v[j].map(|h| h.get());
            if y < NEW {
                v[j].update(|h| h.v.set(y));
            }
        }),
        6 => {
            let o: Vec<usize> = (0..n).filter(free).collect();
            if let [i, .., j] = o[..] {
                ensure!(v.swap(i, j) && v.swap(j, i), "swap of {} and {}", i, j);
            }
        }
        7 => {
            let cut = |x: u64| (x as usize).min(n);
            let (p, q) = (cut(a.min(b)), cut(a.max(b)));
            for (i, j) in [(0, p), (p + 1, q), (q + 1, n)] {
                if i < j {
                    let s = v.slice(i..j);
                    let k = s.fold(0, |r, h| r + (h.get() == NEW) as usize);
                    ensure!(k <= j - i && s.iter().count() == j - i, "slice {}..{}", i, j);
                }
            }
        }
        _ => {
            let k = v.iter().count();
            ensure!(k >= n && v.slice(1..).iter().count() >= n - 1, "{} elements visited", k);
            v.chunks(2).for_each(|s| ensure!(!s.is_empty(), "an empty chunk"));
        }
    }
}

/// the observed values are those of the vector, which may have grown meanwhile
fn prefix(o: &[u64], now: &[u64], n: usize, what: &str) {
    ensure!(o.len() >= n && o.len() <= now.len() && *o == now[..o.len()], "{}: {:?} of {:?}", what, o, now);
}

fn op<P: St<H>>(c: &Ctl, v: &ConcurrentVec<H, P>, n: usize, o: usize, i: usize, exact: bool) {
    let what = OPS[o];
    let arr = |l: usize| c.quiet(|| (0..l as u64).map(|x| H::new(c, x)).collect::<Vec<_>>());
    let now = || v.map(|h| h.get()).collect::<Vec<_>>();
    let check = |x: Vec<H>, n: usize| {
        let x = c.quiet(move || x.iter().map(|h| h.get()).collect::<Vec<_>>());
        let m: Vec<u64> = now();
        // with other threads at work the elements may differ from those observed
        if exact {
            prefix(&x, &m, n, what);
        } else {
            ensure!(x.len() >= n, "{}: {} elements", what, x.len());
        }
    };
    let one = |h: H| {
        let x = h.get();
        ensure!(x == i as u64 || (!exact && x >= NEW), "{}: element {} is {}", what, i, x)
    };
    let text = |s: String, l: usize| {
        if exact {
            let m = now();
            ensure!((l..=m.len()).any(|k| s == format!("[{}]", m[..k].iter().map(|x| format!("h{}", x)).collect::<Vec<_>>().join(", "))), "{}: {} of {:?}", what, s, m)
        }
    };
    match o {
        0 => one(v.get_cloned(i).unwrap()),
        1 => one(v[i].cloned()),
        2 => check(v.iter_cloned().collect(), n),
        3 => check(v.clone_to_vec(), n),
        4 => check(v.slice(0..i + 1).clone_to_vec(), i + 1),
        5 => {
            let r = v.reduce(|a, b| c.quiet(|| H::new(c, a.get().max(b.get()))));
            ensure!(r.is_some_and(|r| r.get() >= n as u64 - 1), "{}: maximum", what);
        }
        6 => v.fill(c.quiet(|| H::new(c, NEW))),
        7 => v.fill_with(|_| H::new(c, NEW)),
        8 => v[i].set(H::new(c, NEW)),
        9 => one(v[i].replace(H::new(c, NEW))),
        10 => text(format!("{:?}", v), n),
        11 => {
            let s = format!("{:?}", v.slice(0..n));
            if exact {
                ensure_eq(s, format!("[{}]", (0..n).map(|x| format!("h{}", x)).collect::<Vec<_>>().join(", ")), what)
            }
        }
        12 => {
            let s = format!("{:?}", v[i]);
            ensure!(s == format!("h{}", i) || (!exact && s == format!("h{}", NEW)), "{}: {}", what, s)
        }
        13 => {
            let r = v.index_of(&arr(i + 1)[i]);
            ensure!(r == Some(i) || (!exact && r.is_none()), "{}: {:?}", what, r)
        }
        14 => {
            let x = c.quiet(|| H::new(c, 99));
            ensure!(!v.contains(&x), "{}: absent value found", what)
        }
        15 | 16 => {
            let r = match o {
                15 => P::vec_eq_arr(v, &arr(n)),
                _ => P::slice_eq_arr(&v.slice(0..n), &arr(n)),
            };
            ensure!(r != Some(false) || !exact || (o == 15 && v.len() > n), "{}: not equal", what)
        }
        17 => {
            let w = P::make(kind_of(v.maximum_capacity()));
            w.extend(arr(n));
            ensure!(P::vec_eq(v, &w) != Some(false) || !exact || v.len() > n, "{}: not equal", what);
            c.quiet(|| drop(w));
        }
        18 => ensure!(P::vec_eq(v, v) != Some(false) || !exact || v.len() > n, "{}: not equal", what),
        19 => {
            if let Some(w) = P::vec_clone(v) {
                check(c.quiet(|| w.to_vec()), n);
            }
        }
        20 => {
            let r = v[i] == v[(i + 1) % n];
            ensure!(!exact || r == (n == 1), "{}: {}", what, r);
            ensure!(v[i] == v[i], "{}: not equal to itself", what);
        }
        21 => ensure!(v[i] == arr(i + 1)[i] || !exact, "{}: not equal", what),
        _ => v[i].update(|h| *h = H::new(c, NEW)),
    }
}

fn kind_of(max: usize) -> Kind {
    match max {
        16 => Kind::Lin(1, 8),
        14 => Kind::Fix(14),
        _ => Kind::Dbl,
    }
}

fn finish<P: St<H>>(v: ConcurrentVec<H, P>, n: usize, o: usize, i: usize, set: bool) {
    let m: Vec<u64> = v.map(|h| h.get()).collect();
    for (j, x) in m.iter().enumerate().take(n) {
        let written = matches!(o, 6 | 7) || (matches!(o, 8 | 9 | 22) && i == j);
        ensure!(*x == if written { NEW } else { j as u64 } || (set && j == 1 && *x == 1), "element {} is {}", j, x);
    }
    let mut t: Vec<u64> = m[n..].to_vec();
    t.sort();
    t.retain(|x| *x != NEW);
    t.windows(2).for_each(|w| ensure!(w[0] < w[1], "added elements {:?}", t));
    ensure!(t.iter().all(|x| *x > 100), "added elements {:?}", t);
    ensure_eq(v.to_vec().iter().map(|h| h.get()).collect::<Vec<_>>(), m, "contents");
}

struct Alone {
    n: usize,
    o: usize,
}
impl Alone {
    /// the code of the elements panics once
    fn panics<P: St<H>>(&self, c: &Ctl, v: ConcurrentVec<H, P>, i: usize) {
        let at = choose(2 * self.n + 2);
        let t = mc::tid() as usize;
        let f = |_: u64, _: u64| {
            if c.calls[t].get() == at + 1 && !std::thread::panicking() {
                c.set(None);
                c.busy[t].set(false);
                panic!("user code panics");
            }
        };
        // which temporary values are lost when the drop of another one panics is not up to the vector
        c.drops.set(self.o != 5);
        c.set(Some(&f));
        let r = mc::catch(|| op(c, &v, self.n, self.o, i, true));
        c.set(None);
        c.busy[t].set(false);
        ensure_eq(r.is_none(), c.calls[t].get() > at, "the panic reaches the caller");
        ensure_eq(v.len(), self.n, "length");
        for j in 0..self.n {
            let x = v[j].map(|h| h.get());
            let written = match self.o {
                6 | 7 => true,
                8 | 9 | 22 => i == j,
                _ => false,
            };
            ensure!(x == j as u64 || (written && x == NEW), "element {} is {} after a panic", j, x);
            v[j].set(H::new(c, j as u64));
            ensure!(v.swap(j, 0) && v.swap(0, j), "swap after a panic");
        }
        v.push(H::new(c, self.n as u64));
        ensure!(v.to_vec().iter().map(|h| h.get()).eq(0..=self.n as u64), "contents after a panic");
    }
}
impl Generic<H> for Alone {
    fn run<P: St<H>>(&self, k: Kind) {
        {
            let c = Ctl::new();
            let v = P::make(k);
            for x in 0..self.n as u64 {
                v.push(H::new(&c, x));
            }
            let a = choose(ACTS.len() + 1);
            let i = choose(self.n);
            if a == ACTS.len() {
                self.panics(&c, v, i);
                return leaks();
            }
            let f = |x: u64, y: u64| act(&c, &v, self.n, a, x, y);
            c.set(Some(&f));
            op(&c, &v, self.n, self.o, i, true);
            c.set(None);
            let grown = match a {
                0 | 2 => c.calls[0].get().min(2),
                1 => 2 * c.calls[0].get().min(2),
                _ => 0,
            };
            ensure_eq(v.len(), self.n + grown, "length");
            finish(v, self.n, self.o, i, false);
        }
        leaks();
    }
}

/// operations of a slice neither run the code of elements out of the slice nor wait for them
struct Outside {
    n: usize,
}
impl Generic<H> for Outside {
    fn run<P: St<H>>(&self, k: Kind) {
        {
            let n = self.n;
            let c = Ctl::new();
            let v = P::make(k);
            for x in 0..n as u64 {
                v.push(H::new(&c, x));
            }
            let a = choose(n);
            let b = a + 1 + choose(n - a);
            let o = choose(20);
            let how = choose(4);
            let f = |x: u64, y: u64| {
                let ok = |x: u64| x >= NEW || (a as u64 <= x && x < b as u64);
                ensure!(ok(x) && ok(y), "operation {} of slice {}..{} runs the code of elements {} and {}", o, a, b, x, y);
            };
            let job = || {
                let v = &v;
                let whole = v.as_slice();
                let (l, m, r);
                let s = match how {
                    0 => v.slice(a..b),
                    1 => {
                        l = v.slice(0..b);
                        l.slice(a..)
                    }
                    2 => {
                        m = whole.split_at(a).1;
                        m.slice(..b - a)
                    }
                    _ => {
                        r = v.split_at(b).0;
                        r.slice(a..b)
                    }
                };
                let want = c.quiet(|| (a as u64..b as u64).map(|x| H::new(&c, x)).collect::<Vec<_>>());
                c.set(Some(&f));
                let vals = |x: Vec<H>| ensure!(x == want, "operation {} of slice {}..{}", o, a, b);
                match o {
                    0 => vals(s.iter_cloned().collect()),
                    1 => vals(s.clone_to_vec()),
                    2 => ensure!(s.iter().zip(&want).all(|(e, x)| e == x), "iter of slice {}..{}", a, b),
                    3 => ensure!(s.map(|h| h.get()).eq(a as u64..b as u64), "map of slice {}..{}", a, b),
                    4 => ensure_eq(s.filter(|h| h.get() >= a as u64).count(), b - a, "filter"),
                    5 => ensure_eq(s.fold(0, |r, h| r + h.get()), (a as u64..b as u64).sum(), "fold"),
                    6 => ensure!(s.reduce(|_, y| y.clone()).is_some_and(|h| h.get() == b as u64 - 1), "reduce of slice {}..{}", a, b),
                    7 => ensure_eq(s.index_of(&want[b - a - 1]), Some(b - a - 1), "index_of"),
                    8 => ensure!(s.contains(&want[0]), "contains in slice {}..{}", a, b),
                    9 => ensure!(P::slice_eq_arr(&s, &want) != Some(false), "equality of slice {}..{}", a, b),
                    10 => ensure_eq(format!("{:?}", s), format!("[{}]", (a..b).map(|x| format!("h{}", x)).collect::<Vec<_>>().join(", ")), "text"),
                    11 => s.fill_with(|i| H::new(&c, (a + i) as u64)),
                    12 => {
                        let x = H::new(&c, a as u64);
                        s.slice(..1).fill(x)
                    }
                    13 => ensure!(s.swap(0, b - a - 1) && s.swap(0, b - a - 1), "swap in slice {}..{}", a, b),
                    14 => ensure!((0..b - a).all(|i| s.get_cloned(i).is_some_and(|x| x == want[i]) && s[i] == want[i] && s.get(i).is_some()) && s.get_cloned(b - a).is_none(), "elements of slice {}..{}", a, b),
                    15 => ensure!(s.split_first().is_some_and(|(e, t)| *e == want[0] && t.iter_cloned().eq(want[1..].iter().cloned())), "split_first of slice {}..{}", a, b),
                    16 => ensure!(s.split_last().is_some_and(|(e, t)| *e == want[b - a - 1] && t.iter_cloned().eq(want[..b - a - 1].iter().cloned())), "split_last of slice {}..{}", a, b),
                    17 => ensure!(s.chunks(2).flat_map(|t| t.clone_to_vec()).eq(want.iter().cloned()), "chunks of slice {}..{}", a, b),
                    18 => ensure!(P::slice_eq(&s, &s) != Some(false), "slice {}..{} differs from itself", a, b),
                    _ => ensure!(unsafe { s.iter_ref() }.zip(&want).all(|(x, y)| x == y) && unsafe { s.iter_mut() }.count() == b - a, "references of slice {}..{}", a, b),
                }
                c.set(None);
                c.quiet(|| drop(want));
            };
            // an element out of the slice is being held all the time
            let held = choose(n + 1);
            let held = if (a..b).contains(&held) { n } else { held };
            match held < n {
                true => v[held].update(|_| job()),
                false => job(),
            }
            ensure!(v.to_vec().iter().map(|h| h.get()).eq(0..n as u64), "contents");
        }
        leaks();
    }
}

struct Together {
    n: usize,
    o: usize,
    a: usize,
    b: usize,
}
impl Generic<H> for Together {
    fn run<P: St<H>>(&self, k: Kind) {
        {
            let c = Ctl::new();
            let v = P::make(k);
            for x in 0..self.n as u64 {
                v.push(H::new(&c, x));
            }
            let f = |x: u64, y: u64| act(&c, &v, self.n, self.a, x, y);
            c.set(Some(&f));
            let (n, cr, vr) = (self.n, &c, &v);
            let other = || {
                cr.quiet(|| match self.b {
                    0 => ensure!(vr.push(H::new(cr, 177)) >= n, "position of growth"),
                    // the value remains the same, so that the elements which are being held are known
                    1 => vr[1].set(H::new(cr, 1)),
                    2 => {
                        let l = vr.len();
                        ensure!(l >= n && (vr[l - 1].map(|h| h.get()) > 0 || self.a == 6), "length {}", l);
                    }
                    _ => ensure!(vr.get_cloned(0).is_some_and(|h| h.get() == 0 || h.get() == NEW || self.a == 6), "element 0"),
                })
            };
            let jobs: Vec<Job<'_>> = vec![Box::new(|| op(cr, vr, n, self.o, 0, false)), Box::new(other)];
            mc::threads(jobs);
            c.set(None);
            finish(v, self.n, self.o, 0, self.b == 1);
        }
        leaks();
    }
}

fn props(o: usize) -> &'static [&'static str] {
    match o {
        0..=2 => &["C06", "C04", "C14"],
        3 | 4 | 19 => &["C06", "C16"],
        5 => &["C06", "C14"],
        6..=9 | 22 => &["C06", "C09", "C04"],
        _ => &["C06", "C15"],
    }
}

const KINDS: [(Kind, &str); 3] = [(Kind::Dbl, "Dbl"), (Kind::Lin(1, 8), "Lin"), (Kind::Fix(14), "Fix")];

pub fn sequential() -> Vec<SeqScen> {
    let mut out = vec![];
    for (k, name) in KINDS {
        for n in [1, 2, 3, 4, 5, 6] {
            let run = Box::new(move || dispatch::<H, _>(k, &Outside { n }));
            out.push(SeqScen { name: format!("hooks/{}/{}/outside", name, n), props: vec!["C10", "C06"], run });
        }
        for (o, op) in OPS.iter().enumerate() {
            for n in [1, 2, 3, 4, 6] {
                let run = Box::new(move || dispatch::<H, _>(k, &Alone { n, o }));
                let mut props = props(o).to_vec();
                props.push("C13");
                out.push(SeqScen { name: format!("hooks/{}/{}/{}", name, n, op), props, run });
            }
        }
    }
    out
}

pub fn concurrent() -> Vec<SeqScen> {
    let mut out = vec![];
    for (k, name) in [KINDS[0], KINDS[1]] {
        for (o, op) in OPS.iter().enumerate() {
            for (a, act) in ACTS.iter().enumerate() {
                for b in 0..4 {
                    // elements are exchanged and exchanged again
                    if a == 6 && b == 1 {
                        continue;
                    }
                    let n = if name == "Dbl" { 3 } else { 2 };
                    let run = Box::new(move || dispatch::<H, _>(k, &Together { n, o, a, b }));
                    out.push(SeqScen { name: format!("hooks/{}/{}/{}/{}/threads{}", name, n, op, act, b), props: props(o).to_vec(), run });
                }
            }
        }
    }
    out
}
