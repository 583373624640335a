//! Concurrent programs over a vector: operations, execution with event logging, oracles.
use crate::api::*;
use crate::mc::{self, catch, ensure_eq, ev, ev_any, E};
use crate::val::*;
use crate::ensure;
use orx_concurrent_vec::*;
use orx_split_vec::{Doubling, SplitVec};
use std::cell::{Cell, RefCell};

/// What a thread keeps while it executes further operations.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum H {
    El,
    Ref,
    Mut,
    Raw,
    RawMut,
    Slice,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tr {
    Iter,
    IterCl,
    Map,
    Filter,
    Fold,
    FillWith,
    Chunks(usize),
}

#[derive(Clone, Debug)]
pub enum Op {
    Push,
    PushIdx,
    Ext(usize),
    ExtN(usize),
    ExtIdx(usize),
    Len,
    IsEmpty,
    Cap,
    Get(usize),
    Idx(usize),
    GetCl(usize),
    GetCp(usize),
    ElCl(usize),
    ElCp(usize),
    DbgEl(usize),
    EqEl(usize, usize, Option<bool>),
    EqElVal(usize, u64),
    Iter,
    IterTake(usize),
    IterCl,
    Map,
    Filter,
    Fold,
    Reduce,
    ClVec,
    CloneV,
    Dbg,
    IndexOf(u64),
    Contains(u64),
    EqArr(Vec<u64>, Option<bool>),
    EqArr2(u64, u64),
    EqSelf(Option<bool>),
    EqW(Option<bool>),
    Set(usize),
    Repl(usize),
    Upd(usize),
    Swap(usize, usize),
    Fill,
    FillX(u64),
    FillWith,
    GetRef(usize),
    GetRaw(usize),
    GetRawMut(usize),
    GetMut(usize),
    MutW(usize),
    RawW(usize),
    /// takes the raw pointers without reading through them
    RawOnly(usize),
    /// replaces the value if the position exists
    WIf(usize),
    IterMutW,
    IterRef,
    IterMut,
    Sl(usize, usize, Box<Op>),
    SlAll(Box<Op>),
    Chunks(usize),
    SplitAt(usize),
    SplitFirst,
    SplitLast,
    Hold(usize, H, Vec<Op>),
    /// operations executed inside the closure of `map` on an element
    In(usize, Vec<Op>),
    /// the same inside the closure of `update`
    UpdIn(usize, Vec<Op>),
    PushIdxIn(Vec<Op>),
    ExtIdxIn(usize, Vec<Op>),
    ExtIn(usize, Vec<Op>),
    /// operations executed whenever the closure or the loop body of a traversal gets the next element
    TravIn(Tr, Vec<Op>),
    /// the thread pauses for as long as the others can go on without it
    Rest,
    ExtIdxFew(usize),
    OnW(Box<Op>),
    MustPanic(Box<Op>),
    UpdPanic(usize),
    FillWithPanic(usize),
    PushIdxPanic,
    ExtPanic(usize, usize),
    ExtShort(usize, usize),
    ExtIdxBad(usize),
    ExtIdxPanic(usize),
    PushCap,
    PushIdxCap,
    ExtCap(usize),
    ExtIdxCap(usize),
}
use Op::*;

#[derive(Default)]
pub struct Log {
    addrs: RefCell<Vec<(usize, usize, usize)>>,
    refs: RefCell<Vec<(usize, Vec<u64>)>>,
    inits: RefCell<Vec<(usize, u64, usize)>>,
    attempted: Cell<usize>,
    failed: Cell<usize>,
}

pub struct Ctx<'a, T: Val, P: St<T>> {
    v: &'a ConcurrentVec<T, P>,
    w: Option<&'a ConcurrentVec<T, P>>,
    log: &'a Log,
    tid: usize,
    next: Cell<usize>,
    n0: usize,
}

fn xval(id: usize, k: usize) -> u64 {
    (id as u64 + 1) * 100 + k as u64
}

impl<T: Val, P: St<T>> Ctx<'_, T, P> {
    fn begin(&self) -> usize {
        let k = self.next.get();
        self.next.set(k + 1);
        ensure!(k < 16, "an operation does not come to an end: too many steps in one thread");
        let id = self.tid * 16 + k;
        mc::op_begin(id);
        id
    }
    fn end(&self, id: usize) {
        mc::op_end(id)
    }
    fn init(&self, id: usize, pos: usize, x: u64) {
        ensure!(pos < 32, "position {} was never handed out", pos);
        ev(id, E::Init, pos, x, 0);
        self.log.inits.borrow_mut().push((pos, x, id));
    }
    fn addr(&self, pos: usize, el: usize, val: usize) {
        self.log.addrs.borrow_mut().push((pos, el, val));
    }
    fn trav(&self, id: usize, off: usize, win: Option<usize>, vals: &[u64]) {
        for (k, x) in vals.iter().enumerate() {
            ev(id, E::Read, off + k, *x, 0);
        }
        match win {
            None => ev(id, E::Len, 0, vals.len() as u64, 0),
            Some(n) => ensure!(vals.len() == n, "traversal of a slice of {} elements visited {}", n, vals.len()),
        }
    }
    fn trav_any(&self, id: usize, off: usize, win: Option<usize>, vals: &[u64]) {
        for (k, x) in vals.iter().enumerate() {
            ev_any(id, E::Read, off + k, *x, 0);
        }
        match win {
            None => ev(id, E::Len, 0, vals.len() as u64, 0),
            Some(n) => ensure!(vals.len() == n, "a slice of {} elements was compared as if it had {}", n, vals.len()),
        }
    }
    fn absent(&self, id: usize, k: usize, off: usize, win: Option<usize>, strict: bool) {
        match win {
            Some(n) => ensure!(k >= n, "index {} of a slice of {} elements reported absent", k, n),
            None => ev(id, if strict { E::None } else { E::GetNone }, off + k, 0, 0),
        }
    }
    fn inb(&self, k: usize, win: Option<usize>) {
        if let Some(n) = win {
            ensure!(k < n, "index {} of a slice of {} elements reported present", k, n);
        }
    }
}

fn addr_of<X: ?Sized>(x: &X) -> usize {
    x as *const X as *const u8 as usize
}

fn parse_dbg(s: &str) -> Vec<u64> {
    let ok = s.starts_with('[') && s.ends_with(']');
    if !ok {
        mc::fail(&format!("malformed list {:?}", s));
    }
    let s = &s[1..s.len() - 1];
    if s.is_empty() {
        return vec![];
    }
    s.split(", ")
        .map(|p| match p.strip_prefix('v').and_then(|x| x.parse().ok()) {
            Some(x) => x,
            None => mc::fail(&format!("malformed list [{}]", s)),
        })
        .collect()
}

pub fn run_ops<T: Val, P: St<T>>(c: &Ctx<'_, T, P>, ops: &[Op]) {
    for op in ops {
        exec(c, c.v, 0, None, op)
    }
}

#[allow(clippy::cognitive_complexity)]
pub fn exec<T: Val, P: St<T>, A: Api<T, P>>(c: &Ctx<'_, T, P>, a: &A, off: usize, win: Option<usize>, op: &Op) {
    let v = c.v;
    match op {
        Push => {
            let id = c.begin();
            let x = xval(id, 0);
            let p = v.push(T::mk(x));
            c.end(id);
            c.init(id, p, x);
        }
        PushIdx => {
            let id = c.begin();
            let x = xval(id, 0);
            let mut told = usize::MAX;
            let p = v.push_for_idx(|i| {
                told = i;
                T::mk(x)
            });
            c.end(id);
            ensure!(told == p, "the closure was told index {} but the value is at {}", told, p);
            c.init(id, p, x);
        }
        Ext(n) => {
            let id = c.begin();
            let b = v.extend((0..*n).map(|k| T::mk(xval(id, k))));
            c.end(id);
            for k in 0..*n {
                c.init(id, b + k, xval(id, k));
            }
        }
        ExtN(n) => {
            let id = c.begin();
            let b = v.extend_n_items((0..*n).map(|k| T::mk(xval(id, k))), *n);
            c.end(id);
            for k in 0..*n {
                c.init(id, b + k, xval(id, k));
            }
        }
        ExtIdx(n) => {
            let id = c.begin();
            let mut told = usize::MAX;
            let b = v.extend_for_idx(
                |i| {
                    told = i;
                    (0..*n).map(|k| T::mk(xval(id, k)))
                },
                *n,
            );
            c.end(id);
            ensure!(told == b, "the closure was told index {} but the values are at {}", told, b);
            for k in 0..*n {
                c.init(id, b + k, xval(id, k));
            }
        }
        Len => {
            let id = c.begin();
            let n = a.a_len();
            c.end(id);
            match win {
                None => ev(id, E::Len, 0, n as u64, 0),
                Some(w) => ensure!(n == w, "length of a slice of {} elements is {}", w, n),
            }
        }
        IsEmpty => {
            let id = c.begin();
            let e = a.a_is_empty();
            c.end(id);
            match (win, e) {
                (Some(w), _) => ensure!(e == (w == 0), "is_empty of a slice of {} elements is {}", w, e),
                (None, true) => ev(id, E::Len, 0, 0, 0),
                (None, false) => ev(id, E::AtLeast, 0, 1, 0),
            }
        }
        Cap => {
            let n = v.len();
            let cp = v.capacity();
            let m = v.maximum_capacity();
            ensure!(n <= cp && cp <= m, "length {} capacity {} maximum {}", n, cp, m);
        }
        Get(i) => {
            let id = c.begin();
            let r = a.a_get(*i).map(|e| {
                let (x, va) = e.map(|x| (x.val(), addr_of(x)));
                (x, addr_of(e), va)
            });
            c.end(id);
            match r {
                Some((x, ea, va)) => {
                    c.inb(*i, win);
                    c.addr(off + i, ea, va);
                    ev(id, E::Read, off + i, x, 0)
                }
                None => c.absent(id, *i, off, win, false),
            }
        }
        Idx(i) => {
            let id = c.begin();
            let x = a.a_index(*i).map(|x| x.val());
            c.end(id);
            ev(id, E::Read, off + i, x, 0);
        }
        GetCl(i) | GetCp(i) => {
            let id = c.begin();
            let r = match op {
                GetCl(_) => a.a_get_cloned(*i).map(|x| x.val()),
                _ => T::get_copied(a, *i),
            };
            c.end(id);
            match r {
                Some(x) => {
                    c.inb(*i, win);
                    ev(id, E::Read, off + i, x, 0)
                }
                None => c.absent(id, *i, off, win, false),
            }
        }
        ElCl(i) => {
            let id = c.begin();
            let x = a.a_index(*i).cloned().val();
            c.end(id);
            ev(id, E::Read, off + i, x, 0);
        }
        ElCp(i) => {
            let id = c.begin();
            let x = T::el_copied(a.a_index(*i));
            c.end(id);
            ev(id, E::Read, off + i, x, 0);
        }
        DbgEl(i) => {
            let id = c.begin();
            let s = format!("[{:?}]", a.a_index(*i));
            c.end(id);
            let x = parse_dbg(&s);
            ensure!(x.len() == 1, "formatting an element gave {}", s);
            ev(id, E::Read, off + i, x[0], 0);
        }
        EqEl(i, j, exp) => {
            let id = c.begin();
            let r = a.a_index(*i) == a.a_index(*j);
            c.end(id);
            if let Some(x) = exp {
                ensure!(r == *x, "elements {} and {} compared {}", i, j, r);
            }
        }
        EqElVal(i, x) => {
            let t = T::mk(*x);
            let id = c.begin();
            let r = *a.a_index(*i) == t;
            c.end(id);
            ev(id, if r { E::Read } else { E::Neq }, off + i, *x, 0);
        }
        Iter => {
            let id = c.begin();
            let mut o = vec![];
            let mut ad = vec![];
            a.a_iter(&mut |e| {
                let (x, va) = e.map(|x| (x.val(), addr_of(x)));
                o.push(x);
                ad.push((addr_of(e), va));
            });
            c.end(id);
            for (k, (e, x)) in ad.into_iter().enumerate() {
                c.addr(off + k, e, x);
            }
            c.trav(id, off, win, &o);
        }
        IterTake(n) => {
            let id = c.begin();
            let mut o = vec![];
            a.a_iter_take(*n, &mut |e| o.push(e.map(|x| x.val())));
            c.end(id);
            for (k, x) in o.iter().enumerate() {
                ev(id, E::Read, off + k, *x, 0);
            }
        }
        IterCl => {
            let id = c.begin();
            let mut o = vec![];
            a.a_iter_cloned(&mut |x| o.push(x.val()));
            c.end(id);
            c.trav(id, off, win, &o);
        }
        Map => {
            let id = c.begin();
            let mut o = vec![];
            a.a_map(&mut |x| x.val(), &mut |x| o.push(x));
            c.end(id);
            c.trav(id, off, win, &o);
        }
        Filter => {
            let id = c.begin();
            let mut o = vec![];
            let mut want = 0;
            let mut got = 0;
            a.a_filter(
                &mut |x| {
                    o.push(x.val());
                    let y = o.len() % 2 == 1;
                    want += y as usize;
                    y
                },
                &mut |_e| got += 1,
            );
            c.end(id);
            ensure!(want == got, "filter selected {} elements and yielded {}", want, got);
            c.trav(id, off, win, &o);
        }
        Fold => {
            let id = c.begin();
            let mut o = vec![];
            let r = a.a_fold(7, &mut |s, x| {
                let x = x.val();
                o.push(x);
                s.wrapping_mul(31).wrapping_add(x)
            });
            c.end(id);
            let w = o.iter().fold(7u64, |s, x| s.wrapping_mul(31).wrapping_add(*x));
            ensure!(r == w, "fold returned a wrong accumulation");
            c.trav(id, off, win, &o);
        }
        Reduce => {
            let id = c.begin();
            let mut o: Vec<u64> = vec![];
            let r = a.a_reduce(&mut |s, x| {
                if o.is_empty() {
                    o.push(s.val());
                }
                o.push(x.val());
                T::mk(x.val())
            });
            c.end(id);
            match r {
                None => ensure!(o.is_empty(), "reduce returned nothing"),
                Some(x) => {
                    if o.is_empty() {
                        o.push(x.val());
                    }
                    ensure!(*o.last().unwrap() == x.val(), "reduce returned a wrong accumulation");
                }
            }
            c.trav(id, off, win, &o);
        }
        ClVec => {
            let id = c.begin();
            let r = a.a_clone_to_vec();
            c.end(id);
            let o: Vec<u64> = r.iter().map(|x| x.val()).collect();
            c.trav(id, off, win, &o);
        }
        CloneV => {
            let id = c.begin();
            let r = P::vec_clone(v);
            c.end(id);
            if let Some(r) = r {
                let o = vals(&r, |x| x.val());
                ensure_eq(r.len(), o.len(), "length of a clone");
                c.trav(id, 0, None, &o);
            }
        }
        Dbg => {
            let id = c.begin();
            let s = a.a_debug();
            c.end(id);
            c.trav(id, off, win, &parse_dbg(&s));
        }
        IndexOf(x) => {
            let t = T::mk(*x);
            let id = c.begin();
            let r = a.a_index_of(&t);
            c.end(id);
            match r {
                Some(k) => {
                    c.inb(k, win);
                    for q in 0..k {
                        ev_any(id, E::Neq, off + q, *x, 0);
                    }
                    ev_any(id, E::Read, off + k, *x, 0);
                }
                None => {
                    for q in 0..win.unwrap_or(c.n0) {
                        ev_any(id, E::Neq, off + q, *x, 0);
                    }
                }
            }
        }
        Contains(x) => {
            let t = T::mk(*x);
            let id = c.begin();
            let r = a.a_contains(&t);
            c.end(id);
            if !r {
                for q in 0..win.unwrap_or(c.n0) {
                    ev_any(id, E::Neq, off + q, *x, 0);
                }
            }
        }
        EqArr(xs, exp) => {
            let ts: Vec<T> = xs.iter().map(|x| T::mk(*x)).collect();
            let id = c.begin();
            let r = a.a_eq_arr(&ts);
            c.end(id);
            if let Some(r) = r {
                if r {
                    c.trav_any(id, off, win, xs);
                }
                if let Some(e) = exp {
                    ensure!(r == *e, "comparison with {:?} gave {}", xs, r);
                }
            }
        }
        EqArr2(x, y) => {
            let ts = [T::mk(*x), T::mk(*y)];
            let id = c.begin();
            let r = a.a_eq_arr2(&ts);
            c.end(id);
            if r == Some(true) {
                c.trav_any(id, off, win, &[*x, *y]);
            }
        }
        EqSelf(exp) => {
            let id = c.begin();
            let r = match win {
                None => P::vec_eq(v, v),
                Some(_) => a.a_eq_slice(&a.a_slice((std::ops::Bound::Unbounded, std::ops::Bound::Unbounded))),
            };
            c.end(id);
            if let (Some(r), Some(e)) = (r, exp) {
                ensure!(r == *e, "comparison with itself gave {}", r);
            }
        }
        EqW(exp) => {
            let w = c.w.unwrap_or(c.v);
            let id = c.begin();
            let r = a.a_eq_vec(w);
            c.end(id);
            if let (Some(r), Some(e)) = (r, exp) {
                ensure!(r == *e, "comparison of two vectors gave {}", r);
            }
        }
        Set(i) => {
            let id = c.begin();
            let x = xval(id, 0);
            a.a_index(*i).set(T::mk(x));
            c.end(id);
            ev(id, E::Set, off + i, x, 0);
        }
        Repl(i) => {
            let id = c.begin();
            let x = xval(id, 0);
            let old = a.a_index(*i).replace(T::mk(x)).val();
            c.end(id);
            ev(id, E::Repl, off + i, x, old);
        }
        Upd(i) => {
            let id = c.begin();
            let d = (id as u64 + 1) * 10_000;
            let mut old = 0;
            let mut n = 0;
            a.a_index(*i).update(|x| {
                old = x.val();
                x.put(old + d);
                n += 1;
            });
            c.end(id);
            ensure!(n == 1, "the closure of update ran {} times", n);
            ev(id, E::Add, off + i, d, old);
        }
        Swap(i, j) => {
            let id = c.begin();
            let r = a.a_swap(*i, *j);
            c.end(id);
            match r {
                true => {
                    c.inb(*i, win);
                    c.inb(*j, win);
                    ev(id, E::Swap, off + i, (off + j) as u64, 0)
                }
                false => c.absent(id, *i.max(j), off, win, false),
            }
        }
        Fill | FillX(_) => {
            let id = c.begin();
            let x = match op {
                FillX(x) => *x,
                _ => xval(id, 0),
            };
            a.a_fill(T::mk(x));
            c.end(id);
            for k in 0..win.unwrap_or(c.n0) {
                ev_any(id, E::Set, off + k, x, 0);
            }
        }
        FillWith => {
            let id = c.begin();
            let mut n = 0;
            a.a_fill_with(&mut |i| {
                ensure!(i == n, "fill_with visited index {} instead of {}", i, n);
                n += 1;
                T::mk(xval(id, i))
            });
            c.end(id);
            if let Some(w) = win {
                ensure!(n == w, "fill_with visited {} of {} elements", n, w);
            }
            for k in 0..n {
                ev_any(id, E::Set, off + k, xval(id, k), 0);
            }
            if win.is_none() {
                ev(id, E::Len, 0, n as u64, 0);
            }
        }
        GetRef(i) | GetMut(i) | GetRaw(i) | GetRawMut(i) => {
            let id = c.begin();
            let r: Option<&T> = unsafe {
                match op {
                    GetRef(_) => a.a_get_ref(*i),
                    GetMut(_) => a.a_get_mut(*i).map(|x| &*x),
                    GetRaw(_) => a.a_get_raw(*i).map(|x| &*x),
                    _ => a.a_get_raw_mut(*i).map(|x| &*x),
                }
            };
            let r = r.map(|x| (x.val(), addr_of(x)));
            c.end(id);
            match r {
                Some((x, va)) => {
                    c.inb(*i, win);
                    c.addr(off + i, 0, va);
                    ev(id, E::Read, off + i, x, 0)
                }
                None => c.absent(id, *i, off, win, true),
            }
        }
        MutW(i) | RawW(i) => {
            let id = c.begin();
            let x = xval(id, 0);
            let r = unsafe {
                match op {
                    MutW(_) => a.a_get_mut(*i),
                    _ => a.a_get_raw_mut(*i).map(|p| &mut *p),
                }
            };
            match r {
                Some(m) => {
                    let old = m.val();
                    m.put(x);
                    c.end(id);
                    ev(id, E::Repl, off + i, x, old);
                }
                None => {
                    c.end(id);
                    c.absent(id, *i, off, win, true)
                }
            }
        }
        RawOnly(i) => {
            let id = c.begin();
            let p = a.a_get_raw(*i).map(|x| x as usize);
            c.end(id);
            let id2 = c.begin();
            let q = a.a_get_raw_mut(*i).map(|x| x as usize);
            c.end(id2);
            for (r, id) in [(p, id), (q, id2)] {
                match r {
                    Some(va) => {
                        c.inb(*i, win);
                        c.addr(off + i, 0, va)
                    }
                    None => c.absent(id, *i, off, win, true),
                }
            }
            if let (Some(p), q) = (p, q) {
                ensure!(q == Some(p), "raw pointers of position {} differ", i);
            }
        }
        WIf(i) => {
            let id = c.begin();
            let x = xval(id, 0);
            let old = a.a_get(*i).map(|e| e.replace(T::mk(x)).val());
            c.end(id);
            match old {
                Some(old) => {
                    c.inb(*i, win);
                    ev(id, E::Repl, off + i, x, old)
                }
                None => c.absent(id, *i, off, win, false),
            }
        }
        IterMutW => {
            let id = c.begin();
            let mut o = vec![];
            unsafe {
                a.a_iter_mut(&mut |m| {
                    let old = m.val();
                    m.put(xval(id, o.len()));
                    o.push(old)
                })
            };
            c.end(id);
            for (k, old) in o.iter().enumerate() {
                ev(id, E::Repl, off + k, xval(id, k), *old);
            }
            c.trav(id, off, win, &(0..o.len()).map(|k| xval(id, k)).collect::<Vec<_>>());
        }
        IterRef | IterMut => {
            let id = c.begin();
            let mut o = vec![];
            unsafe {
                match op {
                    IterRef => a.a_iter_ref(&mut |x| o.push(x.val())),
                    _ => a.a_iter_mut(&mut |x| o.push(x.val())),
                }
            }
            c.end(id);
            match win {
                Some(_) => c.trav(id, off, win, &o),
                None => c.log.refs.borrow_mut().push((id, o)),
            }
        }
        Sl(x, y, op) => {
            let id = c.begin();
            let s = a.a_slice((std::ops::Bound::Included(*x), std::ops::Bound::Excluded(*y)));
            c.end(id);
            ensure!(s.len() == y - x, "slice {}..{} of existing elements has length {}", x, y, s.len());
            exec(c, &s, off + x, Some(y - x), op)
        }
        SlAll(op) => {
            let id = c.begin();
            let s = a.a_slice((std::ops::Bound::Unbounded, std::ops::Bound::Unbounded));
            c.end(id);
            match win {
                None => ev(id, E::Len, 0, s.len() as u64, 0),
                Some(n) => ensure!(s.len() == n, "full slice of a slice of {} elements has length {}", n, s.len()),
            }
            exec(c, &s, off, Some(s.len()), op)
        }
        Chunks(n) => {
            let id = c.begin();
            let mut o = vec![];
            let mut lens = vec![];
            let cnt = a.a_chunks(*n, &mut |s| {
                lens.push(s.len());
                s.a_iter(&mut |e| o.push(e.map(|x| x.val())))
            });
            c.end(id);
            ensure!(cnt == lens.len() && cnt == o.len().div_ceil(*n), "{} chunks of {} announced, {:?} yielded", cnt, n, lens);
            ensure!(lens.iter().rev().skip(1).all(|x| x == n) && lens.iter().sum::<usize>() == o.len(), "chunk sizes {:?}", lens);
            c.trav(id, off, win, &o);
        }
        SplitAt(m) => {
            let id = c.begin();
            let mut o = vec![];
            let mut ll = 0;
            a.a_split_at(*m, &mut |l, r| {
                ll = l.len();
                l.a_iter(&mut |e| o.push(e.map(|x| x.val())));
                r.a_iter(&mut |e| o.push(e.map(|x| x.val())));
            });
            c.end(id);
            ensure!(ll == *m, "left part of a split at {} has length {}", m, ll);
            c.trav(id, off, win, &o);
        }
        SplitFirst | SplitLast => {
            let id = c.begin();
            let mut o: Vec<u64> = vec![];
            let first = matches!(op, SplitFirst);
            let mut f = |e: &El<T>, s: ConcurrentSlice<'_, T, P>| {
                o.push(e.map(|x| x.val()));
                s.a_iter(&mut |e| o.push(e.map(|x| x.val())));
            };
            let r = match first {
                true => a.a_split_first(&mut f),
                false => a.a_split_last(&mut f),
            };
            c.end(id);
            if !r {
                ensure!(o.is_empty() && win.unwrap_or(c.n0) == 0, "no first or last element");
            } else if !first {
                ev(id, E::Read, off + o.len() - 1, o[0], 0);
                o.remove(0);
            }
            match (first, win) {
                (true, _) => c.trav(id, off, win, &o),
                (false, Some(n)) => c.trav(id, off, Some(n - r as usize), &o),
                (false, None) => {
                    for (k, x) in o.iter().enumerate() {
                        ev(id, E::Read, off + k, *x, 0);
                    }
                    ev(id, E::Len, 0, (o.len() + r as usize) as u64, 0)
                }
            }
        }
        Hold(i, h, ops) => {
            let id = c.begin();
            let el = a.a_index(*i);
            let sl = a.a_slice((std::ops::Bound::Included(*i), std::ops::Bound::Excluded(i + 1)));
            let pr: *const T = unsafe {
                match h {
                    H::El | H::Slice => std::ptr::null(),
                    H::Ref => a.a_get_ref(*i).map(|x| x as *const T).expect("present"),
                    H::Mut => a.a_get_mut(*i).map(|x| x as *const T).expect("present"),
                    H::Raw => a.a_get_raw(*i).expect("present"),
                    H::RawMut => a.a_get_raw_mut(*i).expect("present") as *const T,
                }
            };
            c.end(id);
            run_ops(c, ops);
            let id = c.begin();
            let (x, va) = match h {
                H::El => el.map(|x| (x.val(), addr_of(x))),
                H::Slice => {
                    let mut r = (0, 0);
                    sl.a_iter(&mut |e| r = e.map(|x| (x.val(), addr_of(x))));
                    r
                }
                _ => unsafe { ((*pr).val(), pr as usize) },
            };
            c.end(id);
            ev(id, E::Read, off + i, x, 0);
            c.addr(off + i, addr_of(el), va);
            if matches!(h, H::Mut | H::RawMut) {
                let id = c.begin();
                let y = xval(id, 0);
                let m = unsafe { &mut *(pr as *mut T) };
                let old = m.val();
                m.put(y);
                c.end(id);
                ev(id, E::Repl, off + i, y, old);
            }
        }
        In(i, ops) => {
            let id = c.begin();
            let x = a.a_index(*i).map(|x| {
                let x0 = x.val();
                run_ops(c, ops);
                ensure!(x.val() == x0, "the value changed during the closure of map");
                x0
            });
            c.end(id);
            ev(id, E::Read, off + i, x, 0);
        }
        UpdIn(i, ops) => {
            let id = c.begin();
            let d = (id as u64 + 1) * 10_000;
            let mut old = 0;
            a.a_index(*i).update(|x| {
                old = x.val();
                x.put(old + d);
                run_ops(c, ops);
                ensure!(x.val() == old + d, "the value changed during the closure of update");
            });
            c.end(id);
            ev(id, E::Add, off + i, d, old);
        }
        Rest => mc::rest(),
        PushIdxIn(ops) => {
            let id = c.begin();
            let x = xval(id, 0);
            let mut told = usize::MAX;
            let p = v.push_for_idx(|i| {
                told = i;
                run_ops(c, ops);
                T::mk(x)
            });
            c.end(id);
            ensure!(told == p, "the closure was told index {} but the value is at {}", told, p);
            c.init(id, p, x);
        }
        ExtIdxIn(n, ops) => {
            let id = c.begin();
            let b = v.extend_for_idx(
                |_| {
                    run_ops(c, ops);
                    (0..*n).map(|k| T::mk(xval(id, k)))
                },
                *n,
            );
            c.end(id);
            for k in 0..*n {
                c.init(id, b + k, xval(id, k));
            }
        }
        ExtIn(n, ops) => {
            let id = c.begin();
            let b = v.extend((0..*n).map(|k| {
                if k + 1 == *n {
                    run_ops(c, ops);
                }
                T::mk(xval(id, k))
            }));
            c.end(id);
            for k in 0..*n {
                c.init(id, b + k, xval(id, k));
            }
        }
        TravIn(t, ops) => {
            let id = c.begin();
            let mut o: Vec<u64> = vec![];
            let most = Cell::new(usize::MAX);
            let step = || {
                if most.get() == usize::MAX {
                    let i2 = c.begin();
                    let n = v.len();
                    c.end(i2);
                    ev(i2, E::Len, 0, n as u64, 0);
                    most.set(win.unwrap_or(n));
                }
                run_ops(c, ops);
            };
            let room = |n: usize| ensure!(!matches!(t, Tr::Chunks(_)) || n <= most.get(), "{:?} went on to {} elements although there were {} when it began", t, n, most.get());
            match t {
                Tr::Iter => a.a_iter(&mut |e| {
                    step();
                    o.push(e.map(|x| x.val()));
                    room(o.len())
                }),
                Tr::IterCl => a.a_iter_cloned(&mut |x| {
                    step();
                    o.push(x.val());
                    room(o.len())
                }),
                Tr::Map => a.a_map(
                    &mut |x| {
                        let y = x.val();
                        step();
                        ensure!(y == x.val(), "the value changed during the closure of map");
                        y
                    },
                    &mut |x| {
                        o.push(x);
                        room(o.len())
                    },
                ),
                Tr::Filter => {
                    let mut k = 0;
                    a.a_filter(
                        &mut |x| {
                            step();
                            o.push(x.val());
                            room(o.len());
                            true
                        },
                        &mut |_| k += 1,
                    );
                    ensure!(k == o.len(), "filter selected {} elements and yielded {}", o.len(), k);
                }
                Tr::Fold => {
                    a.a_fold(0, &mut |s, x| {
                        step();
                        o.push(x.val());
                        room(o.len());
                        s
                    });
                }
                Tr::FillWith => {
                    a.a_fill_with(&mut |i| {
                        ensure!(i == o.len(), "fill_with visited index {} instead of {}", i, o.len());
                        step();
                        let x = xval(id, i);
                        o.push(x);
                        room(o.len());
                        T::mk(x)
                    });
                }
                Tr::Chunks(n) => {
                    let mut k = 0;
                    let cnt = a.a_chunks(*n, &mut |s| {
                        k += 1;
                        step();
                        s.a_iter(&mut |e| o.push(e.map(|x| x.val())));
                        room(o.len())
                    });
                    ensure!(cnt == k && cnt == o.len().div_ceil(*n), "{} chunks of {} announced, {} yielded with {} elements", cnt, n, k, o.len());
                }
            }
            c.end(id);
            if *t == Tr::FillWith {
                for (k, x) in o.iter().enumerate() {
                    ev_any(id, E::Set, off + k, *x, 0);
                }
                match win {
                    None => ev(id, E::Len, 0, o.len() as u64, 0),
                    Some(n) => ensure!(o.len() == n, "fill_with of a slice of {} elements visited {}", n, o.len()),
                }
            } else {
                c.trav(id, off, win, &o);
            }
        }
        OnW(op) => {
            if let Some(w) = c.w {
                let c2 = Ctx { v: w, w: Some(c.v), log: c.log, tid: c.tid, next: Cell::new(c.next.get()), n0: w.len() };
                exec(&c2, w, 8, Some(w.len()), op);
                c.next.set(c2.next.get());
            }
        }
        MustPanic(op) => {
            let r = catch(|| exec(c, a, off, win, op));
            ensure!(r.is_none(), "a panic in user code did not reach the caller of {:?}", op);
        }
        UpdPanic(i) => {
            let id = c.begin();
            let d = (id as u64 + 1) * 10_000;
            let mut old = 0;
            let r = catch(|| {
                a.a_index(*i).update(|x| {
                    old = x.val();
                    x.put(old + d);
                    panic!("user code panics")
                })
            });
            c.end(id);
            ensure!(r.is_none(), "a panic in the closure of update did not reach the caller");
            ev(id, E::Add, off + i, d, old);
        }
        FillWithPanic(k) => {
            let id = c.begin();
            let r = catch(|| {
                a.a_fill_with(&mut |i| {
                    if i == *k {
                        panic!("user code panics")
                    }
                    T::mk(xval(id, i))
                })
            });
            c.end(id);
            ensure!(r.is_none(), "a panic in the closure of fill_with did not reach the caller");
            for q in 0..*k {
                ev(id, E::Set, off + q, xval(id, q), 0);
            }
        }
        PushIdxPanic => {
            let r = catch(|| v.push_for_idx(|_| panic!("user code panics")));
            ensure!(r.is_none(), "a panic in the closure of push_for_idx did not reach the caller");
        }
        ExtPanic(n, k) => {
            let r = catch(|| {
                v.extend_n_items(
                    (0..*n).map(|q| {
                        if q == *k {
                            panic!("user code panics")
                        }
                        T::mk(7_000_000 + q as u64)
                    }),
                    *n,
                )
            });
            ensure!(r.is_none(), "a panic in an iterator did not reach the caller");
        }
        ExtShort(n, k) => {
            let r = catch(|| v.extend_n_items((0..*k).map(|q| T::mk(7_000_000 + q as u64)), *n));
            ensure!(r.is_none(), "an iterator that is too short was accepted");
        }
        ExtIdxBad(n) => {
            let r = catch(|| v.extend_for_idx(|_| (0..*n + 1).map(|q| T::mk(7_000_000 + q as u64)), *n));
            ensure!(r.is_none(), "an iterator of the wrong length was accepted");
        }
        ExtIdxFew(n) => {
            let r = catch(|| v.extend_for_idx(|_| (1..*n).map(|q| T::mk(7_000_000 + q as u64)), *n));
            ensure!(r.is_none(), "an iterator of the wrong length was accepted");
        }
        ExtIdxPanic(n) => {
            let r = catch(|| {
                v.extend_for_idx(
                    |i| {
                        if i < usize::MAX {
                            panic!("user code panics")
                        }
                        vec![]
                    },
                    *n,
                )
            });
            ensure!(r.is_none(), "a panic in the closure of extend_for_idx did not reach the caller");
        }
        PushCap | PushIdxCap | ExtCap(_) | ExtIdxCap(_) => {
            let n = match op {
                ExtCap(n) | ExtIdxCap(n) => *n,
                _ => 1,
            };
            let id = c.begin();
            let r = catch(|| match op {
                PushCap => v.push(T::mk(xval(id, 0))),
                PushIdxCap => v.push_for_idx(|_| T::mk(xval(id, 0))),
                ExtCap(_) => v.extend((0..n).map(|k| T::mk(xval(id, k)))),
                _ => v.extend_for_idx(|_| (0..n).map(|k| T::mk(xval(id, k))), n),
            });
            c.end(id);
            c.log.attempted.set(c.log.attempted.get() + n);
            match r {
                Some(b) => {
                    for k in 0..n {
                        c.init(id, b + k, xval(id, k));
                    }
                }
                None => c.log.failed.set(c.log.failed.get() + 1),
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fin {
    Drop,
    ToVec,
    IntoIter(usize),
    Inner,
    InnerGrow,
    CloneV,
    Clear,
    Reserve,
}
pub const FINS: [Fin; 9] = [
    Fin::ToVec,
    Fin::Drop,
    Fin::InnerGrow,
    Fin::IntoIter(usize::MAX),
    Fin::Clear,
    Fin::IntoIter(2),
    Fin::CloneV,
    Fin::Inner,
    Fin::Reserve,
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Build {
    Push,
    Ext,
    Conv,
    Clear,
    Reserve,
    Cloned,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    V,
    C2,
    /// one plain word, one boxed value and a large value, in vectors of doubling growth
    W,
    B,
    L,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub kind: Kind,
    pub ty: Ty,
    pub build: Build,
    pub init: Vec<u64>,
    pub w: Option<Vec<u64>>,
    pub threads: Vec<Vec<Op>>,
    pub fin: Fin,
    /// growth operations may fail on purpose and leave positions without a value
    pub gap: bool,
    /// blocks allocated by the main thread have decreasing addresses
    pub desc: bool,
}

pub fn build<T: Val, P: St<T>>(k: Kind, b: Build, init: &[u64]) -> ConcurrentVec<T, P> {
    let push = |v: &ConcurrentVec<T, P>| {
        for (i, x) in init.iter().enumerate() {
            ensure_eq(v.push(T::mk(*x)), i, "position of a push");
        }
    };
    match b {
        Build::Push => {
            let v = P::make(k);
            push(&v);
            v
        }
        Build::Ext => {
            let v = P::make(k);
            ensure_eq(v.extend(init.iter().map(|x| T::mk(*x)).collect::<Vec<_>>()), 0, "position of an extend");
            v
        }
        Build::Conv => {
            let v = P::make(k);
            push(&v);
            ConcurrentVec::from(v.into_inner())
        }
        Build::Clear => {
            let mut v = P::make(k);
            push(&v);
            v.clear();
            push(&v);
            v
        }
        Build::Reserve => {
            let mut v = P::make(k);
            push(&v);
            let want = match k {
                Kind::Dbl => 0,
                _ => v.maximum_capacity() + 4,
            };
            let got = v.reserve_maximum_capacity(want);
            ensure!(got >= want && v.maximum_capacity() == got, "reserve of {} gave {}, maximum {}", want, got, v.maximum_capacity());
            v
        }
        Build::Cloned => {
            let v = P::make(k);
            push(&v);
            P::vec_clone(&v).unwrap_or(v)
        }
    }
}

pub fn consume<T: Val, P: St<T>>(k: Kind, v: ConcurrentVec<T, P>, fin: Fin, want: &[u64]) {
    match fin {
        Fin::Drop => drop(v),
        Fin::ToVec => {
            let o: Vec<u64> = v.to_vec().iter().map(|x| x.val()).collect();
            ensure_eq(&o[..], want, "to_vec");
        }
        Fin::IntoIter(n) => {
            let mut it = v.into_iter();
            let mut o = vec![];
            while o.len() < n {
                match it.next() {
                    Some(x) => o.push(x.val()),
                    None => break,
                }
            }
            drop(it);
            ensure_eq(&o[..], &want[..n.min(want.len())], "into_iter");
        }
        Fin::Inner | Fin::InnerGrow => {
            let max = v.maximum_capacity();
            let p = v.into_inner();
            ensure_eq(p.len(), want.len(), "length of the inner vector");
            let mut o = vec![];
            for e in p.iter() {
                o.push(e.map(|x| x.val()));
            }
            ensure_eq(&o[..], want, "inner vector");
            if fin == Fin::InnerGrow {
                let v: ConcurrentVec<T, P> = ConcurrentVec::from(p);
                ensure_eq(v.maximum_capacity(), max, "maximum capacity after a conversion");
                ensure_eq(v.len(), want.len(), "length after a conversion");
                let mut w = want.to_vec();
                while w.len() < max && w.len() < want.len() + 5 {
                    let x = 900_000 + w.len() as u64;
                    ensure_eq(v.push(T::mk(x)), w.len(), "position of a push after a conversion");
                    w.push(x);
                }
                ensure_eq(vals(&v, |x| x.val()), w, "contents after a conversion");
            }
        }
        Fin::CloneV => {
            if let Some(w) = P::vec_clone(&v) {
                ensure_eq(&vals(&w, |x| x.val())[..], want, "clone");
                if !want.is_empty() {
                    v[0].set(T::mk(1));
                    ensure_eq(w[0].map(|x| x.val()), want[0], "clone after a change of the original");
                    w[want.len() - 1].set(T::mk(2));
                }
                w.push(T::mk(3));
                drop(v);
                ensure_eq(w.len(), want.len() + 1, "length of a clone");
            }
        }
        Fin::Clear => {
            let mut v = v;
            let max = v.maximum_capacity();
            v.clear();
            ensure_eq(v.len(), 0, "length after clear");
            ensure!(v.is_empty() && v.get(0).is_none(), "not empty after clear");
            ensure_eq(v.maximum_capacity(), max, "maximum capacity after clear");
            let n = max.min(6);
            for i in 0..n {
                ensure_eq(v.push(T::mk(i as u64)), i, "position of a push after clear");
            }
            ensure_eq(vals(&v, |x| x.val()), (0..n as u64).collect::<Vec<_>>(), "contents after clear");
        }
        Fin::Reserve => {
            let mut v = v;
            let max = v.maximum_capacity();
            let want_max = if k == Kind::Dbl { 0 } else { max + 3 };
            let got = v.reserve_maximum_capacity(want_max);
            ensure!(got >= want_max && got >= max && v.maximum_capacity() == got, "reserve of {} gave {}", want_max, got);
            let mut w = want.to_vec();
            while w.len() < got.min(want.len() + 12) {
                let x = 900_000 + w.len() as u64;
                ensure_eq(v.push(T::mk(x)), w.len(), "position of a push after reserve");
                w.push(x);
            }
            ensure_eq(vals(&v, |x| x.val()), w, "contents after reserve");
        }
    }
}

fn body<T: Val, P: St<T>>(p: &Prog) {
    let n0 = p.init.len();
    mc::desc(p.desc);
    {
        let v: Box<ConcurrentVec<T, P>> = Box::new(build(p.kind, p.build, &p.init));
        let w: Option<Box<ConcurrentVec<T, P>>> = p.w.as_ref().map(|x| Box::new(build(p.kind, Build::Push, x)));
        let logs: Vec<Log> = p.threads.iter().map(|_| Log::default()).collect();
        let max = v.maximum_capacity();
        {
            let (vr, wr) = (&*v, w.as_deref());
            mc::threads(
                p.threads
                    .iter()
                    .zip(&logs)
                    .enumerate()
                    .map(|(t, (ops, log))| {
                        let c = Ctx { v: vr, w: wr, log, tid: t, next: Cell::new(0), n0 };
                        Box::new(move || run_ops(&c, ops)) as mc::Job<'_>
                    })
                    .collect(),
            );
        }
        // everything is quiescent now
        const MAIN: usize = 64;
        mc::op_begin(MAIN);
        let n = v.len();
        let inits: usize = logs.iter().map(|l| l.inits.borrow().len()).sum();
        let mut now = vec![];
        if !p.gap {
            ensure_eq(n, n0 + inits, "length after all growth has finished");
        } else {
            ensure!(n >= n0, "length {} after {} elements were stored", n, n0);
        }
        ensure!(n <= v.capacity() && v.capacity() <= v.maximum_capacity(), "length {}, capacity {}, maximum {}", n, v.capacity(), v.maximum_capacity());
        ensure_eq(v.maximum_capacity(), max, "maximum capacity");
        ensure_eq(v.is_empty(), n == 0, "is_empty");
        ensure!(v.get(n).is_none(), "get({}) beyond the length", n);
        v.a_iter(&mut |e| now.push(e.map(|x| x.val())));
        ensure_eq(now.len(), n, "number of elements visited");
        for (i, x) in now.iter().enumerate() {
            ensure_eq(v[i].map(|x| x.val()), *x, "element by index");
            if !p.gap || i < n0 {
                ev(MAIN, E::Read, i, *x, 0);
            }
        }
        if !p.gap {
            ev(MAIN, E::Len, 0, n as u64, 0);
        }
        let wvals = w.as_deref().map(|w| vals(w, |x| x.val()));
        if let Some(x) = &wvals {
            for (i, x) in x.iter().enumerate() {
                ev(MAIN, E::Read, 8 + i, *x, 0);
            }
        }
        mc::op_end(MAIN);
        let mut init = p.init.clone();
        if let Some(w) = &p.w {
            init.resize(8, u64::MAX);
            init.extend(w);
        }
        if p.gap {
            for l in &logs {
                for (pos, x, _) in l.inits.borrow().iter() {
                    if let Some(y) = v.get_cloned(*pos) {
                        ensure!(y.val() >= 10_000 || y.val() == *x, "position {} holds {} instead of {}", pos, y.val(), x);
                    }
                }
            }
        }
        mc::check_history(&init, n0, p.gap);
        for l in &logs {
            for (pos, ea, va) in l.addrs.borrow().iter() {
                if *pos >= 8 && w.is_some() {
                    continue;
                }
                if let Some(e) = v.get(*pos) {
                    ensure!(*ea == 0 || *ea == addr_of(e), "element {} moved", pos);
                    let raw = v.get_raw(*pos).map(|x| x as usize);
                    ensure!(*va == 0 || raw == Some(*va), "the value at {} moved", pos);
                }
            }
        }
        if !p.gap {
            let all: Vec<(usize, u64, usize)> = logs.iter().flat_map(|l| l.inits.borrow().clone()).collect();
            let posof = |x: u64| p.init.iter().position(|y| *y == x).or_else(|| all.iter().find(|a| a.1 == x).map(|a| a.0));
            for l in &logs {
                for (op, o) in l.refs.borrow().iter() {
                    let ps: Vec<usize> = o
                        .iter()
                        .map(|x| posof(*x).unwrap_or_else(|| mc::fail(&format!("reference iterator yielded {} which was never stored", x))))
                        .collect();
                    ensure!(ps.windows(2).all(|w| w[0] < w[1]), "reference iterator visited positions {:?}", ps);
                    for i in 0..n0 {
                        ensure!(ps.contains(&i), "reference iterator skipped existing position {}: {:?}", i, ps);
                    }
                    for (pos, _, id) in &all {
                        ensure!(
                            ps.contains(pos) || !mc::op_before(*id, *op),
                            "reference iterator skipped position {} although its push had completed: {:?}",
                            pos,
                            ps
                        );
                    }
                }
            }
        }
        let att: usize = logs.iter().map(|l| l.attempted.get()).sum();
        let failed: usize = logs.iter().map(|l| l.failed.get()).sum();
        if failed > 0 {
            ensure!(n0 + att > max, "a growth operation failed although everything fits in the maximum capacity {}", max);
        } else if att > 0 {
            ensure!(n0 + att <= max, "more elements than the maximum capacity were accepted");
        }
        drop(logs);
        drop(w);
        if p.gap {
            match p.fin {
                Fin::Inner => drop(v.into_inner()),
                Fin::Clear => {
                    let mut v = v;
                    v.clear();
                    ensure_eq(v.len(), 0, "length after clear");
                    v.push(T::mk(1));
                    ensure_eq(vals(&v, |x| x.val()), vec![1], "contents after clear");
                }
                _ => drop(v),
            }
        } else {
            consume(p.kind, *v, p.fin, &now);
        }
    }
    leaks();
}

pub fn leaks() {
    ensure!(mc::track_live() == 0, "{} values were neither dropped nor handed back", mc::track_live());
    ensure!(mc::live_allocs() == 0, "{} allocations were never freed", mc::live_allocs());
}

struct Run<'a>(&'a Prog);
impl<T: Val> Generic<T> for Run<'_> {
    fn run<P: St<T>>(&self, _: Kind) {
        body::<T, P>(self.0)
    }
}
pub fn run(p: &Prog) {
    match p.ty {
        Ty::V => dispatch::<V, _>(p.kind, &Run(p)),
        Ty::C2 => dispatch::<C2, _>(p.kind, &Run(p)),
        Ty::W => Generic::<W>::run::<SplitVec<El<W>, Doubling>>(&Run(p), p.kind),
        Ty::L => Generic::<L>::run::<SplitVec<El<L>, Doubling>>(&Run(p), p.kind),
        Ty::B => Generic::<B>::run::<SplitVec<El<B>, Doubling>>(&Run(p), p.kind),
    }
}
