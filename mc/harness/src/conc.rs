//! The concurrent programs to explore, with the properties each of them bears on.
use crate::api::Kind;
use crate::ops::{Build, Fin, Op, Op::*, Prog, Tr, Ty, FINS, H};
use crate::val::BOOM;
use std::collections::BTreeMap;

pub struct Conc {
    pub name: String,
    pub props: Vec<&'static str>,
    pub prog: Prog,
}

pub struct Book {
    pub all: Vec<Conc>,
    index: BTreeMap<String, usize>,
    fin: usize,
    ty: usize,
}

const DBL: Kind = Kind::Dbl;
const L2: Kind = Kind::Lin(1, 8);
const F8: Kind = Kind::Fix(8);
const F16: Kind = Kind::Fix(16);

fn ini(n: usize) -> Vec<u64> {
    (1..=n as u64).collect()
}
fn sl(a: usize, b: usize, o: Op) -> Op {
    Sl(a, b, Box::new(o))
}
fn all(o: Op) -> Op {
    SlAll(Box::new(o))
}

impl Book {
    fn put(&mut self, props: &[&'static str], mut prog: Prog) {
        let total: usize = prog.threads.iter().map(|t| t.len()).sum();
        assert!(total > 0);
        if prog.ty == Ty::V && prog.w.is_none() && self.ty % 7 == 6 && !format!("{:?}", prog).contains("Panic") && !prog.init.iter().any(|x| x & BOOM != 0) {
            prog.ty = Ty::C2;
        }
        self.ty += 1;
        let key = format!("{:?} {:?} {:?} {:?} {:?} {:?}", prog.kind, prog.init, prog.w, prog.build, prog.threads, (prog.gap, prog.desc));
        if let Some(i) = self.index.get(&key) {
            for p in props {
                if !self.all[*i].props.contains(p) {
                    self.all[*i].props.push(p)
                }
            }
            return;
        }
        self.index.insert(key, self.all.len());
        let name = format!(
            "{:?}{}/{:?}/{:?}/{}{}{}{}/{:?}",
            prog.kind,
            if prog.desc { "-desc" } else { "" },
            prog.ty,
            prog.build,
            prog.init.len(),
            match &prog.w {
                Some(w) => format!("+{}", w.len()),
                None => String::new(),
            },
            if prog.gap { "/gap" } else { "" },
            format!("/{:?}", prog.threads).replace(' ', ""),
            prog.fin
        );
        self.all.push(Conc { name, props: props.to_vec(), prog });
    }
    fn base(&mut self, kind: Kind, n: usize, threads: Vec<Vec<Op>>) -> Prog {
        self.fin += 1;
        let mut fin = FINS[self.fin % FINS.len()];
        if kind != DBL && fin == Fin::CloneV {
            fin = Fin::ToVec;
        }
        Prog { kind, ty: Ty::V, build: Build::Push, init: ini(n), w: None, threads, fin, gap: false, desc: false }
    }
    fn add(&mut self, props: &[&'static str], kind: Kind, n: usize, threads: Vec<Vec<Op>>) {
        let p = self.base(kind, n, threads);
        self.put(props, p);
    }
}

/// positions an operation list can add
fn grows(o: &Op) -> usize {
    match o {
        Push | PushIdx => 1,
        Ext(n) | ExtN(n) | ExtIdx(n) => *n,
        _ => 0,
    }
}

fn tags_of(o: &Op) -> Vec<&'static str> {
    match o {
        Swap(..) => vec!["C05", "C06"],
        EqEl(..) | EqElVal(..) | EqArr(..) | EqArr2(..) | EqSelf(..) | EqW(..) | IndexOf(..) | Contains(..) | Dbg | DbgEl(..) => vec!["C15", "C06"],
        Iter | IterTake(..) | IterCl | Map | Filter | Fold | Reduce => vec!["C14"],
        ClVec | CloneV => vec!["C14", "C16"],
        GetRef(..) | GetRaw(..) | GetRawMut(..) | GetMut(..) | IterRef | IterMut | RawOnly(..) | MutW(..) | RawW(..) | IterMutW => vec!["C18"],
        Len | IsEmpty | Cap => vec!["C03"],
        Chunks(..) | SplitAt(..) | SplitFirst | SplitLast => vec!["C10", "C14"],
        TravIn(Tr::Chunks(_), _) => vec!["C10", "C14"],
        TravIn(..) => vec!["C14"],
        Sl(_, _, o) | SlAll(o) => {
            let mut v = tags_of(o);
            v.push("C10");
            v
        }
        _ => vec![],
    }
}

fn elem_readers(n: usize, x: u64) -> Vec<Op> {
    let mut v = vec![
        Get(0),
        GetCl(0),
        GetCp(0),
        Idx(0),
        ElCl(0),
        ElCp(0),
        DbgEl(0),
        EqEl(0, 1, None),
        EqEl(1, 0, None),
        EqEl(0, 0, Some(true)),
        EqElVal(0, x),
        EqElVal(0, 1),
        Iter,
        IterTake(1),
        IterCl,
        Map,
        Filter,
        Fold,
        Reduce,
        ClVec,
        CloneV,
        Dbg,
        IndexOf(x),
        IndexOf(1),
        Contains(x),
        Contains(2),
        EqArr(ini(n), None),
        EqArr(vec![x, 2], None),
        EqSelf(Some(true)),
        Chunks(1),
        SplitAt(1),
        SplitFirst,
        SplitLast,
    ];
    if n == 2 {
        v.push(EqArr2(1, 2));
        v.push(EqArr2(x, 2));
    }
    for o in [
        Get(0),
        GetCl(0),
        GetCp(0),
        Idx(0),
        ElCl(0),
        DbgEl(0),
        EqEl(0, 1, None),
        EqElVal(0, x),
        Iter,
        IterCl,
        Map,
        Filter,
        Fold,
        Reduce,
        ClVec,
        Dbg,
        IndexOf(x),
        Contains(1),
        EqArr(ini(n), None),
        EqSelf(Some(true)),
        Chunks(1),
        SplitAt(1),
        SplitFirst,
        SplitLast,
        Len,
        IsEmpty,
    ] {
        v.push(sl(0, n, o));
    }
    v.push(all(Iter));
    v.push(all(all(Dbg)));
    v.push(sl(0, n, sl(0, 1, ElCl(0))));
    v
}

fn elem_writers(n: usize) -> Vec<Op> {
    let mut v = vec![Set(0), Repl(0), Upd(0), Swap(0, 1), Swap(1, 0), Fill, FillWith, sl(0, n, Swap(1, 0)), sl(0, 1, Fill), sl(0, n, FillWith), sl(0, n, Upd(0)), sl(0, n, Set(0)), sl(0, n, Repl(0))];
    v.push(WIf(0));
    v
}

fn uniq(base: &[&'static str], more: &[&[&'static str]]) -> Vec<&'static str> {
    let mut v = base.to_vec();
    for m in more {
        for x in *m {
            if !v.contains(x) {
                v.push(x)
            }
        }
    }
    v
}

fn elements(s: &mut Book) {
    let w = elem_writers(2);
    let r = elem_readers(2, 100);
    for (i, a) in w.iter().enumerate() {
        for b in &w[i..] {
            let t = uniq(&["C04", "C07", "C06", "C09", "C02"], &[&tags_of(a), &tags_of(b)]);
            s.add(&t, DBL, 2, vec![vec![a.clone()], vec![b.clone()]]);
        }
    }
    for (i, a) in w.iter().enumerate() {
        for (j, b) in r.iter().enumerate() {
            let t = uniq(&["C04", "C07", "C02", "C06"], &[&tags_of(a), &tags_of(b)]);
            s.add(&t, DBL, 2, vec![vec![a.clone()], vec![b.clone()]]);
            if (i + j) % 5 == 0 {
                let t = uniq(&["C04", "C07"], &[&tags_of(b)]);
                s.add(&t, L2, 3, vec![vec![a.clone()], vec![b.clone()]]);
            }
            if (i + j) % 5 == 2 {
                let t = uniq(&["C04", "C07"], &[&tags_of(b)]);
                s.add(&t, Kind::Fix(4), 3, vec![vec![a.clone()], vec![b.clone()]]);
            }
        }
    }
    // two readers and a writer on one element; sequences whose order must be respected
    let seqs = [
        vec![Repl(0), GetCl(0)],
        vec![Upd(0), Upd(0)],
        vec![Get(0), Get(0)],
        vec![Set(0), Get(1)],
        vec![Set(1), Get(0)],
        vec![Swap(0, 1), Get(0)],
        vec![Get(1), Get(0)],
        vec![ElCl(0), Repl(0)],
        vec![FillWith, Get(0)],
        vec![Upd(0), Swap(1, 0)],
    ];
    for (i, a) in seqs.iter().enumerate() {
        for b in &seqs[i..] {
            let t = uniq(&["C04", "C07"], &[&a.iter().chain(b).flat_map(tags_of).collect::<Vec<_>>()]);
            s.add(&t, DBL, 2, vec![a.clone(), b.clone()]);
        }
    }
    // three threads
    let w3 = [Set(0), Repl(0), Upd(0), Swap(0, 1), Swap(1, 0), Swap(1, 2), Swap(2, 0), Fill];
    for i in 0..w3.len() {
        for j in i..w3.len() {
            for k in j..w3.len() {
                let o = [&w3[i], &w3[j], &w3[k]];
                let sw = o.iter().filter(|x| matches!(x, Swap(..))).count();
                let mut t = vec!["C04"];
                if sw > 0 {
                    t.extend(["C05", "C06"]);
                }
                s.add(&t, DBL, 3, o.iter().map(|x| vec![(*x).clone()]).collect());
            }
        }
    }
    for a in [Upd(0), Repl(0), Swap(0, 1)] {
        for b in [Upd(0), Set(0), Swap(1, 0)] {
            for c in [vec![Get(0), Get(0)], vec![Iter], vec![Get(1), Get(0)], vec![Dbg], vec![EqEl(0, 1, None)], vec![CloneV]] {
                let t = uniq(&["C04", "C07"], &[&tags_of(&a), &tags_of(&b), &tags_of(&c[0])]);
                s.add(&t, DBL, 2, vec![vec![a.clone()], vec![b.clone()], c]);
            }
        }
    }
    // elements of different blocks, blocks at increasing and decreasing addresses
    for desc in [false, true] {
        for (a, b) in [
            (Swap(3, 4), Swap(4, 3)),
            (Swap(4, 3), EqEl(3, 4, None)),
            (Swap(3, 4), EqEl(3, 4, None)),
            (Swap(3, 4), EqEl(4, 3, None)),
            (EqEl(3, 4, None), EqEl(4, 3, None)),
            (sl(2, 5, Swap(1, 2)), EqEl(4, 3, None)),
            (Swap(3, 4), EqSelf(None)),
            (Swap(4, 0), sl(1, 5, Swap(3, 0))),
        ] {
            let mut p = s.base(DBL, 5, vec![vec![a.clone()], vec![b.clone()]]);
            p.desc = desc;
            s.put(&["C05", "C06", "C15", "C04"], p);
            let mut p = s.base(DBL, 5, vec![vec![a.clone()], vec![b.clone()], vec![Upd(3)]]);
            p.desc = desc;
            s.put(&["C05", "C06", "C04"], p);
        }
    }
    // swaps: all index pairs against all index pairs, also out of bounds
    for i in 0..3usize {
        for j in 0..3usize {
            for (k, l) in [(0, 1), (1, 0), (1, 2), (2, 1), (0, 0)] {
                s.add(&["C05", "C06"], DBL, 3, vec![vec![Swap(i, j)], vec![Swap(k, l)]]);
            }
        }
    }
    for (a, b) in [(0, 3), (3, 0), (3, 3), (3, 4), (9, 1)] {
        s.add(&["C05", "C06"], DBL, 3, vec![vec![Swap(a, b)], vec![Upd(0), Get(1)]]);
        s.add(&["C05", "C06", "C10"], DBL, 4, vec![vec![sl(1, 4, Swap(a, b))], vec![Upd(1), Get(2)]]);
        s.add(&["C05", "C06"], L2, 3, vec![vec![Swap(a, b)], vec![Push], vec![Get(3)]]);
        s.add(&["C05", "C06"], DBL, 4, vec![vec![Swap(a, b + 1)], vec![Push, Push], vec![Upd(0)]]);
    }
    for (a, b) in [(Swap(0, 1), Swap(1, 2)), (Swap(0, 2), Swap(1, 0)), (Swap(2, 1), Swap(1, 0))] {
        s.add(&["C05", "C06"], DBL, 3, vec![vec![a.clone()], vec![b.clone()], vec![Iter]]);
        s.add(&["C05", "C06"], L2, 3, vec![vec![a.clone(), b.clone()], vec![b.clone(), a.clone()]]);
        s.add(&["C05", "C06"], F8, 3, vec![vec![a.clone()], vec![b.clone()], vec![Fill]]);
        s.add(&["C05", "C06"], DBL, 3, vec![vec![a.clone()], vec![b.clone()], vec![CloneV], vec![Repl(1)]]);
    }
    // four threads on one element
    for o in [vec![Upd(0)], vec![Repl(0)]] {
        s.add(&["C04", "C07"], DBL, 1, vec![o.clone(), o.clone(), o.clone(), vec![Get(0)]]);
    }
}

fn growers() -> Vec<Op> {
    vec![Push, PushIdx, Ext(2), Ext(5), ExtN(2), ExtIdx(3), Ext(0), ExtIdx(0)]
}

fn growth(s: &mut Book) {
    let g = growers();
    for (kind, pres) in [(DBL, vec![0, 2, 3, 4]), (L2, vec![0, 1, 2, 3]), (F16, vec![0, 3]), (Kind::Lin(2, 4), vec![3, 4])] {
        for n in pres {
            for (i, a) in g.iter().enumerate() {
                for b in &g[i..] {
                    s.add(&["C01", "C06", "C07", "C09"], kind, n, vec![vec![a.clone()], vec![b.clone()]]);
                }
            }
        }
    }
    // the third block
    for n in [10, 11, 12] {
        for a in [Push, PushIdx, Ext(2), ExtIdx(3)] {
            for b in [Push, Ext(1)] {
                if n + grows(&a) + grows(&b) <= 16 {
                    s.add(&["C01", "C06"], DBL, n, vec![vec![a.clone()], vec![b.clone()]]);
                }
            }
        }
    }
    let g3 = [Push, PushIdx, Ext(2), ExtIdx(3)];
    for (kind, n) in [(DBL, 3), (L2, 1), (L2, 0), (DBL, 2)] {
        for i in 0..4 {
            for j in i..4 {
                for k in j..4 {
                    s.add(&["C01", "C06"], kind, n, vec![vec![g3[i].clone()], vec![g3[j].clone()], vec![g3[k].clone()]]);
                }
            }
        }
    }
    for (kind, n) in [(DBL, 3), (L2, 0), (L2, 1), (F8, 1)] {
        for (a, b) in [
            (vec![Push, Push], vec![Push, Push]),
            (vec![Ext(2), Push], vec![Push, Ext(2)]),
            (vec![PushIdx, ExtIdx(2)], vec![ExtN(2), Push]),
            (vec![Push, Push, Push], vec![Ext(3)]),
        ] {
            s.add(&["C01", "C06", "C07"], kind, n, vec![a, b]);
        }
    }
    s.add(&["C01", "C06"], DBL, 3, vec![vec![Push], vec![Push], vec![Push], vec![Push]]);
    s.add(&["C01", "C06"], L2, 1, vec![vec![Push], vec![Ext(2)], vec![PushIdx], vec![Push]]);
    // every way of building the vector before it grows, every way of consuming it
    for build in [Build::Ext, Build::Conv, Build::Clear, Build::Reserve, Build::Cloned] {
        for kind in [DBL, L2, Kind::Lin(1, 4), F8, Kind::Lin(2, 4)] {
            if build == Build::Cloned && kind != DBL {
                continue;
            }
            for n in [0, 2, 3, 4] {
                for (a, b) in [(vec![Push], vec![Push]), (vec![Ext(2)], vec![PushIdx]), (vec![Push, Get(0)], vec![Len, GetCl(n)]), (vec![Push], vec![Iter, Upd(0)])] {
                    if n == 0 && (format!("{:?}{:?}", a, b).contains("(0)")) {
                        continue;
                    }
                    for fin in if n == 3 { &FINS[..] } else { &FINS[..5] } {
                        if *fin == Fin::CloneV && kind != DBL {
                            continue;
                        }
                        let mut p = s.base(kind, n, vec![a.clone(), b.clone()]);
                        p.build = build;
                        p.fin = *fin;
                        let mut t = vec!["C09"];
                        match build {
                            Build::Conv | Build::Cloned | Build::Ext => t.push("C16"),
                            _ => t.push("C17"),
                        }
                        match fin {
                            Fin::Clear | Fin::Reserve => t.push("C17"),
                            _ => t.push("C16"),
                        }
                        // the final mode is not part of the identity of a program otherwise
                        let key = format!("{:?}", fin);
                        s.put_fin(&t, p, &key);
                    }
                }
            }
        }
    }
    // growth after the maximum capacity was reserved
    for (kind, n) in [(Kind::Lin(1, 1), 2), (Kind::Lin(1, 2), 4), (Kind::Fix(2), 2), (Kind::Fix(1), 1)] {
        for th in [vec![vec![Push], vec![Push]], vec![vec![Ext(2)], vec![PushIdx]], vec![vec![Push, Push], vec![Iter, Len]], vec![vec![ExtIdx(3)], vec![GetCl(n), Swap(0, n)]]] {
            let mut p = s.base(kind, n, th);
            p.build = Build::Reserve;
            s.put(&["C17", "C01", "C07"], p);
        }
    }
    for fin in FINS {
        for kind in [DBL, L2, F8] {
            for (a, b) in [(vec![Push], vec![Ext(2)]), (vec![Set(0)], vec![PushIdx]), (vec![Repl(0), Push], vec![Swap(0, 1)]), (vec![FillWith], vec![Push])] {
                if fin == Fin::CloneV && kind != DBL {
                    continue;
                }
                let mut p = s.base(kind, 3, vec![a, b]);
                p.fin = fin;
                s.put_fin(&["C09", "C16", "C17"], p, &format!("{:?}", fin));
            }
        }
    }
}

impl Book {
    fn put_fin(&mut self, props: &[&'static str], p: Prog, key: &str) {
        let k = format!("{:?} {:?} {:?} {:?} {:?} {:?} {}", p.kind, p.init, p.w, p.build, p.threads, (p.gap, p.desc), key);
        if self.index.contains_key(&k) {
            return;
        }
        let plain = format!("{:?} {:?} {:?} {:?} {:?} {:?}", p.kind, p.init, p.w, p.build, p.threads, (p.gap, p.desc));
        let old = self.index.remove(&plain);
        self.put(props, p);
        let i = self.index.remove(&plain).unwrap();
        self.index.insert(k, i);
        if let Some(o) = old {
            self.index.insert(plain, o);
        }
    }
}

/// the programs above with elements of other sizes, with and without drop glue
fn other_types(s: &mut Book, n_elements: usize) {
    let mut k = 0;
    for i in 0..s.all.len() {
        let (p, props) = (s.all[i].prog.clone(), s.all[i].props.clone());
        if p.kind != DBL || p.ty != Ty::V || p.gap || p.init.iter().any(|x| x & BOOM != 0) || format!("{:?}", p).contains("Panic") {
            continue;
        }
        k += 1;
        let tys = match (i < n_elements, k % 3) {
            (true, 0) => vec![Ty::W, Ty::B, Ty::L],
            (true, 1) => vec![Ty::W, Ty::B, Ty::C2],
            (true, _) => vec![Ty::W, Ty::C2, Ty::L],
            (false, 0) => vec![Ty::W],
            (false, 1) => vec![Ty::B],
            _ => vec![Ty::L],
        };
        for ty in tys {
            s.put_fin(&props, Prog { ty, ..p.clone() }, &format!("{:?}", ty));
        }
    }
}

/// operations looking at position `p`, the first one to be added
fn grow_readers(n: usize, p: usize) -> Vec<Vec<Op>> {
    let x = 100;
    let mut full = ini(n);
    full.push(x);
    let mut v: Vec<Vec<Op>> = [
        Get(p),
        GetCl(p),
        GetCp(p),
        GetRef(p),
        GetRaw(p),
        GetRawMut(p),
        GetMut(p),
        RawOnly(p),
        WIf(p),
        Len,
        IsEmpty,
        Cap,
        Iter,
        IterTake(n + 1),
        IterCl,
        Map,
        Filter,
        Fold,
        Reduce,
        ClVec,
        CloneV,
        Dbg,
        IterRef,
        IterMut,
        IndexOf(x),
        Contains(x),
        EqArr(ini(n), None),
        EqArr(full.clone(), None),
        EqSelf(None),
        FillX(x),
        FillWith,
        Chunks(2),
        Chunks(1),
        SplitAt(n),
        SplitFirst,
        SplitLast,
        all(Iter),
        all(IterCl),
        all(Len),
        all(Map),
        all(Filter),
        all(Fold),
        all(Reduce),
        all(ClVec),
        all(Dbg),
        all(IterRef),
        all(IterMut),
        all(FillWith),
        all(EqSelf(Some(true))),
        all(SplitLast),
        all(Chunks(2)),
        all(GetCl(p)),
        all(GetRaw(p)),
        all(GetRef(p)),
        all(Get(p)),
        all(Swap(0, p)),
    ]
    .into_iter()
    .map(|o| vec![o])
    .collect();
    if n > 0 {
        v.push(vec![Swap(0, p)]);
        v.push(vec![Swap(p, n - 1)]);
        v.push(vec![sl(0, n, GetCl(n))]);
        v.push(vec![sl(0, n, Get(n))]);
        v.push(vec![sl(0, n, Iter)]);
        v.push(vec![sl(0, n, Swap(0, n))]);
        v.push(vec![sl(0, n, GetRef(n))]);
        v.push(vec![sl(0, n, GetRaw(n))]);
        v.push(vec![sl(n - 1, n, Dbg)]);
        v.push(vec![IndexOf(n as u64)]);
    }
    v.extend([
        vec![Len, Get(p)],
        vec![Len, GetCl(p)],
        vec![Len, GetRef(p)],
        vec![Get(p), GetCl(p)],
        vec![GetCl(p), Get(p)],
        vec![GetCl(p), Len],
        vec![Len, Len],
        vec![Iter, Len],
        vec![Len, Iter],
        vec![IsEmpty, Len],
        vec![GetRef(p), GetRaw(p)],
        vec![Get(p), GetRef(p)],
        vec![Len, Dbg],
        vec![IterCl, IterRef],
        vec![ClVec, Len],
        vec![Len, IterMut],
        vec![WIf(p), WIf(p)],
        vec![Len, Swap(p, p)],
    ]);
    v
}

fn grow_read(s: &mut Book) {
    for (kind, n) in [(DBL, 0), (DBL, 3), (DBL, 4), (L2, 1), (L2, 2), (F8, 2)] {
        for g in [vec![Push], vec![Ext(2)], vec![PushIdx], vec![Push, Push]] {
            for r in grow_readers(n, n) {
                if n == 0 && r.iter().any(|o| matches!(o, EqArr2(..))) {
                    continue;
                }
                if kind == F8 && matches!(g[0], PushIdx) {
                    continue;
                }
                // the value filled in must not matter where the added position is concerned
                if r.iter().any(|o| matches!(o, FillX(_))) && (g.len() > 1 || grows(&g[0]) > 1) {
                    continue;
                }
                let mut t = uniq(&["C02", "C07"], &[&r.iter().flat_map(tags_of).collect::<Vec<_>>()]);
                if r.iter().any(|o| matches!(o, Get(_) | GetCl(_) | Len | IsEmpty)) {
                    t = uniq(&t, &[&["C03"]]);
                }
                s.add(&t, kind, n, vec![g.clone(), r.clone()]);
            }
        }
    }
    // reader of the second added position; extend over a block boundary
    for (kind, n) in [(DBL, 3), (L2, 1), (DBL, 2)] {
        for g in [vec![Ext(3)], vec![ExtIdx(2)], vec![ExtN(3)]] {
            for r in [vec![Get(n + 1), Get(n)], vec![GetCl(n + 1), Len], vec![GetRef(n + 1), GetRef(n)], vec![IterRef], vec![Iter], vec![Dbg], vec![GetRaw(n + 2), Get(n + 1)], vec![all(Iter), Len]] {
                let t = uniq(&["C02", "C03"], &[&r.iter().flat_map(tags_of).collect::<Vec<_>>()]);
                s.add(&t, kind, n, vec![g.clone(), r]);
            }
        }
    }
    // two growing threads: the second added position may be complete before the first one
    for (kind, n) in [(DBL, 3), (L2, 1), (F8, 0), (DBL, 0), (L2, 2)] {
        for g in [[Push, Push], [Ext(2), Push], [PushIdx, Push]] {
            for r in grow_readers(n, n + 1) {
                if r.iter().any(|o| matches!(o, SplitAt(k) if *k > n)) {
                    continue;
                }
                // position values depend on the order: comparisons with fixed values are left out
                if r.iter().any(|o| matches!(o, FillX(_) | EqArr(..) | EqArr2(..))) {
                    continue;
                }
                let t = uniq(&["C02", "C03"], &[&r.iter().flat_map(tags_of).collect::<Vec<_>>()]);
                s.add(&t, kind, n, vec![vec![g[0].clone()], vec![g[1].clone()], r.clone()]);
            }
        }
    }
    // two reading threads
    for (kind, n) in [(DBL, 3), (L2, 1), (DBL, 0)] {
        for a in [vec![Len], vec![Len, Len], vec![Iter], vec![Get(n)], vec![GetCl(n)], vec![IterRef]] {
            for b in [vec![Len, Len], vec![Get(n), Get(n)], vec![Dbg], vec![WIf(n), Len], vec![IterRef, Len]] {
                if matches!((&a[0], &b[0]), (IterRef, WIf(_))) {
                    continue;
                }
                let t = uniq(&["C02", "C03"], &[&a.iter().chain(&b).flat_map(tags_of).collect::<Vec<_>>()]);
                s.add(&t, kind, n, vec![vec![Push], a.clone(), b.clone()]);
            }
        }
    }
    // a completed push is counted by its own thread whatever others do with the elements
    for (kind, n) in [(DBL, 3), (L2, 2), (F8, 1)] {
        for a in [vec![Push, Len, Get(n)], vec![Push, Iter], vec![Push, GetCl(n)], vec![Push, GetRef(n)], vec![Push, Dbg, Len], vec![Push, RawOnly(n)], vec![Ext(2), Len], vec![PushIdx, IterRef], vec![Push, all(Iter)], vec![Push, CloneV], vec![Push, ClVec], vec![Push, Swap(0, n)], vec![Push, IndexOf(100)]] {
            for b in [vec![WIf(n)], vec![Get(n), Get(0)], vec![Upd(0), GetCl(n)], vec![Dbg], vec![FillX(100)], vec![Swap(0, n)], vec![Len, IterCl]] {
                if matches!(b[0], FillX(_)) && (matches!(a[0], Ext(_)) || a.iter().any(|o| matches!(o, Swap(..)))) {
                    continue;
                }
                // references must not be taken while others write
                let refs = a.iter().any(|o| tags_of(o).contains(&"C18") && !matches!(o, RawOnly(_)));
                if refs && b.iter().any(|o| matches!(o, WIf(_) | Upd(_) | FillX(_) | Swap(..))) {
                    continue;
                }
                let t = uniq(&["C03", "C02"], &[&a.iter().chain(&b).flat_map(tags_of).collect::<Vec<_>>()]);
                s.add(&t, kind, n, vec![a.clone(), b.clone()]);
            }
        }
    }
    // while some element is held by another thread for long
    for (kind, n) in [(DBL, 3), (L2, 2), (F8, 3)] {
        for hold in [In(0, vec![]), UpdIn(0, vec![]), In(n - 1, vec![]), In(1, vec![Push]), UpdIn(0, vec![Push, Len])] {
            for r in [vec![Len], vec![IsEmpty], vec![Len, Len], vec![Get(n - 1)], vec![Push, Len], vec![Push, Get(n)], vec![Ext(2), Iter], vec![RawOnly(0)], vec![RawOnly(n - 1)], vec![Swap(0, 1)], vec![SplitLast], vec![Chunks(1)], vec![all(Len)], vec![Dbg], vec![ClVec], vec![Push, all(Iter)], vec![EqArr(ini(n), None)], vec![EqSelf(None)], vec![CloneV]] {
                let t = uniq(&["C03", "C06", "C07"], &[&r.iter().flat_map(tags_of).collect::<Vec<_>>()]);
                s.add(&t, kind, n, vec![vec![hold.clone()], r]);
            }
        }
        for hold in [In(0, vec![]), In(n - 1, vec![]), In(1, vec![Push]), In(1, vec![Len, GetCl(0)])] {
            for r in [GetRef(0), GetRaw(0), GetRawMut(0), GetMut(0), IterRef, IterMut, all(IterRef), all(IterMut), sl(0, 2, GetRef(0)), sl(0, 2, GetRaw(0)), sl(0, 2, GetRawMut(0)), sl(0, 2, GetMut(0)), GetRef(n - 1), GetRaw(n - 1), sl(n - 1, n, IterRef)] {
                s.add(&["C18", "C06"], kind, n, vec![vec![hold.clone()], vec![r.clone()]]);
                s.add(&["C18"], kind, n, vec![vec![hold.clone()], vec![r.clone()], vec![Push]]);
            }
        }
        for r in [vec![RawOnly(0)], vec![all(RawOnly(0))], vec![sl(1, n, RawOnly(0)), RawOnly(1)]] {
            for w in [vec![Upd(0), Set(1)], vec![Swap(0, 1)], vec![FillWith], vec![Repl(1), Repl(0)], vec![IterCl], vec![UpdIn(1, vec![])]] {
                s.add(&["C18", "C08"], kind, n, vec![w, r.clone()]);
            }
        }
    }
    // writes through exclusive references to separate elements
    for (kind, n) in [(DBL, 3), (L2, 3), (F8, 3)] {
        for (a, b) in [(MutW(0), MutW(1)), (RawW(0), MutW(1)), (MutW(0), sl(1, 3, MutW(0))), (sl(0, 1, IterMutW), sl(1, 3, IterMutW)), (RawW(2), Push), (IterMutW, Push), (MutW(0), Upd(1)), (sl(0, 1, RawW(0)), Swap(1, 2)), (MutW(0), GetRef(1)), (sl(0, 2, IterMutW), IterMutW)] {
            if matches!((&a, &b), (Sl(..), IterMutW)) {
                continue;
            }
            s.add(&["C18", "C08", "C07"], kind, n, vec![vec![a], vec![b]]);
        }
    }
}

fn addresses(s: &mut Book) {
    for (kind, n) in [(DBL, 3), (L2, 1), (L2, 2), (F8, 1), (DBL, 4)] {
        for h in [H::El, H::Ref, H::Mut, H::Raw, H::RawMut, H::Slice] {
            let hold = |ops: Vec<Op>| Hold(n - 1, h, ops);
            for (a, b) in [
                (vec![hold(vec![Push])], vec![Push]),
                (vec![hold(vec![])], vec![Push, Push]),
                (vec![hold(vec![Ext(5)])], vec![Len]),
                (vec![hold(vec![PushIdx])], vec![ExtIdx(3)]),
                (vec![hold(vec![Push, Len])], vec![Iter]),
            ] {
                // a reference allows no concurrent access to the element
                if matches!(h, H::Mut | H::RawMut) && matches!(b[0], Iter) {
                    continue;
                }
                s.add(&["C08", "C02"], kind, n, vec![a, b]);
            }
            if matches!(h, H::El | H::Slice) {
                for w in [vec![Upd(n - 1), Push], vec![Push, Set(n - 1)], vec![Swap(n - 1, n - 1), Push]] {
                    s.add(&["C08"], kind, n, vec![vec![hold(vec![Push])], w]);
                }
                if n >= 2 {
                    s.add(&["C08"], kind, n, vec![vec![hold(vec![Push])], vec![Swap(0, n - 1), Push]]);
                }
            }
        }
        for g in [vec![Push], vec![Ext(3)], vec![PushIdx]] {
            for r in [vec![Get(0), RawOnly(0)], vec![Iter, Get(0)], vec![Get(n), RawOnly(n)], vec![all(Iter), RawOnly(n - 1)], vec![GetRef(0), GetMut(0)], vec![sl(0, n, RawOnly(n - 1)), Get(n - 1)]] {
                s.add(&["C08", "C18"], kind, n, vec![g.clone(), r.clone()]);
                s.add(&["C08"], kind, n, vec![g.clone(), r.clone(), vec![Push]]);
            }
        }
    }
}

/// A thread pauses, inside of its closure or iterator, for as long as the others can go on without it.
fn pauses(s: &mut Book) {
    fn inexact(o: &Op) -> bool {
        match o {
            Fill | EqSelf(Some(_)) => true,
            Sl(_, _, o) | SlAll(o) => matches!(**o, Fill),
            _ => false,
        }
    }
    let rest = || vec![Rest];
    for (kind, n) in [(DBL, 3), (L2, 2), (F16, 3)] {
        let mut ops: Vec<Vec<Op>> = elem_readers(n, 100).into_iter().chain(elem_writers(n)).map(|o| vec![o]).collect();
        ops.extend(growers().into_iter().map(|o| vec![o, Len]));
        ops.extend([vec![Len, GetCl(n - 1)], vec![Push, Get(n)], vec![Push, Push, GetCl(n + 1), GetCl(n)], vec![Push, Iter], vec![Cap, IsEmpty], vec![Swap(1, 1), Swap(0, n)], vec![sl(1, n, Swap(0, 0)), Get(1)], vec![RawOnly(0), RawOnly(n - 1)]]);
        for h in [In(0, rest()), UpdIn(0, rest()), In(n - 1, rest()), PushIdxIn(rest()), ExtIdxIn(3, rest()), ExtIn(2, rest()), TravIn(Tr::Fold, rest()), TravIn(Tr::FillWith, rest()), Hold(0, H::El, rest()), Hold(n - 1, H::Slice, rest())] {
            for o in &ops {
                // elements added meanwhile are seen as well
                if matches!(h, ExtIn(..)) && o.iter().any(|x| inexact(x)) {
                    continue;
                }
                let t = uniq(&["C06", "C04", "C02"], &[&o.iter().flat_map(tags_of).collect::<Vec<_>>(), &tags_of(&h)]);
                let t = if o.iter().any(|x| grows(x) > 0) { uniq(&t, &[&["C03", "C01"]]) } else { t };
                s.add(&t, kind, n, vec![vec![h.clone()], o.clone()]);
            }
            if !matches!(h, UpdIn(..) | TravIn(Tr::FillWith, _)) {
                for r in [GetRef(0), GetRaw(0), GetRawMut(0), GetMut(0), IterRef, IterMut, all(IterRef), all(IterMut), sl(0, 2, GetRef(0)), sl(0, 2, GetRaw(0)), sl(0, 2, GetMut(0)), GetRef(n - 1), GetRef(n), GetRaw(n)] {
                    s.add(&["C18", "C06"], kind, n, vec![vec![h.clone()], vec![r.clone()]]);
                    s.add(&["C18"], kind, n, vec![vec![h.clone()], vec![Push, r.clone()]]);
                }
            }
            for (a, b) in [(Push, Len), (Upd(0), GetCl(0)), (Swap(0, 1), Set(1)), (Ext(3), Iter), (PushIdxIn(rest()), Push), (Dbg, FillWith), (UpdIn(1, rest()), Swap(1, 0))] {
                let t = uniq(&["C06", "C04", "C03"], &[&tags_of(&a), &tags_of(&b)]);
                s.add(&t, kind, n, vec![vec![h.clone()], vec![a], vec![b]]);
            }
        }
        for h in [H::El, H::Ref, H::Mut, H::Raw, H::RawMut, H::Slice] {
            for o in [vec![Push], vec![Ext(5)], vec![PushIdx, Len], vec![ExtIdx(3), Push]] {
                s.add(&["C08", "C06"], kind, n, vec![vec![Hold(n - 1, h, rest())], o.clone()]);
                s.add(&["C08"], kind, n, vec![vec![Hold(0, h, vec![Rest, Push])], o.clone(), vec![Push]]);
            }
        }
    }
}

fn two_vectors(s: &mut Book) {
    let mut add = |init: Vec<u64>, w: Vec<u64>, threads: Vec<Vec<Op>>, desc: bool| {
        let p = Prog { kind: DBL, ty: Ty::V, build: Build::Push, init, w: Some(w), threads, fin: Fin::ToVec, gap: false, desc };
        s.put(&["C15", "C06", "C07"], p);
    };
    let on = |o: Op| OnW(Box::new(o));
    for desc in [false, true] {
        add(vec![1, 2], vec![1, 2], vec![vec![EqW(Some(true))], vec![on(EqW(Some(true)))]], desc);
        add(vec![1, 2], vec![1, 2], vec![vec![EqW(None), EqW(None)], vec![on(EqW(None))], vec![EqW(None)]], desc);
        add(vec![1, 2], vec![1, 3], vec![vec![EqW(Some(false))], vec![on(EqW(Some(false)))]], desc);
        add(vec![1, 2], vec![1], vec![vec![EqW(Some(false))], vec![on(EqW(Some(false)))]], desc);
        add(vec![1, 2], vec![1, 2], vec![vec![all(EqW(Some(true)))], vec![on(all(EqW(Some(true))))]], desc);
        add(vec![1, 2], vec![1, 2], vec![vec![EqW(None)], vec![on(Set(0))]], desc);
        add(vec![1, 2], vec![1, 2], vec![vec![EqW(None)], vec![Upd(0)], vec![on(Upd(1))]], desc);
        add(vec![1, 2], vec![1, 2], vec![vec![EqW(None)], vec![on(Swap(0, 1))]], desc);
        add(vec![1, 2], vec![1, 2], vec![vec![EqW(None)], vec![Swap(1, 0)]], desc);
        add(vec![1, 2], vec![1, 2], vec![vec![EqW(None)], vec![Push]], desc);
        add(vec![1, 2], vec![1, 2], vec![vec![on(EqW(None))], vec![Push], vec![FillWith]], desc);
        add(vec![1, 2], vec![1, 2], vec![vec![In(0, vec![on(Set(0))])], vec![In(1, vec![on(Upd(1))])]], desc);
    }
    for (kind, n) in [(DBL, 3), (L2, 3), (F8, 3)] {
        for a in [EqSelf(None), EqSelf(Some(true)), Dbg, IndexOf(3), Contains(9), EqArr(ini(n), None), EqArr(ini(n + 1), None), EqArr(vec![], Some(false)), all(EqSelf(Some(true))), sl(0, 2, EqArr(vec![1, 2], None)), sl(0, 2, EqArr2(1, 2)), sl(1, 3, EqArr(vec![1, 2], None))] {
            let exact = matches!(a, EqSelf(Some(true)));
            for b in [vec![Push], vec![Upd(0)], vec![Swap(0, 2)], vec![Fill], vec![EqSelf(None)], vec![In(1, vec![])], vec![EqEl(2, 0, None)], vec![Repl(1), Push]] {
                if exact && b.iter().any(|o| grows(o) > 0) {
                    continue;
                }
                if matches!(&a, Sl(1, 3, _)) && b.len() > 1 {
                    continue;
                }
                s.add(&["C15", "C07", "C06", "C14"], kind, n, vec![vec![a.clone()], b]);
            }
        }
        // a sequence that equals the stored one whenever growth is not involved
        s.add(&["C15"], kind, n, vec![vec![EqArr(ini(n), Some(true))], vec![Dbg], vec![EqSelf(Some(true))]]);
        s.add(&["C15"], kind, n, vec![vec![EqArr(ini(n), Some(true)), Contains(3)], vec![In(0, vec![]), In(2, vec![])]]);
        s.add(&["C15"], kind, n, vec![vec![IndexOf(2), EqElVal(1, 2)], vec![In(0, vec![]), In(1, vec![])]]);
        s.add(&["C15"], kind, n, vec![vec![EqEl(0, 1, Some(false)), EqEl(2, 2, Some(true))], vec![EqEl(1, 0, Some(false)), In(2, vec![])]]);
    }
}

fn nested(s: &mut Book) {
    for (kind, n) in [(DBL, 3), (DBL, 4), (L2, 2), (L2, 3), (F16, 3)] {
        for a in [
            In(0, vec![Push]),
            In(0, vec![Set(1)]),
            In(0, vec![Get(1), Len]),
            UpdIn(0, vec![Ext(5)]),
            UpdIn(1, vec![Push, Upd(0)]),
            PushIdxIn(vec![Push]),
            PushIdxIn(vec![Ext(2), Len]),
            PushIdxIn(vec![Set(0), Get(1)]),
            PushIdxIn(vec![Iter, Dbg]),
            PushIdxIn(vec![PushIdx]),
            ExtIdxIn(2, vec![Push]),
            ExtIdxIn(3, vec![Ext(2), Len, Iter]),
            ExtIn(2, vec![Push]),
            ExtIn(1, vec![Upd(0), PushIdx]),
            PushIdxIn(vec![PushIdxIn(vec![Push])]),
            In(0, vec![In(1, vec![Push])]),
        ] {
            for b in [vec![Push], vec![Len, GetCl(n)], vec![Upd(0)], vec![Iter], vec![Swap(0, 1)], vec![ExtIdx(2)], vec![PushIdxIn(vec![Push])]] {
                // two threads holding elements and waiting for each other's is the user's doing
                if matches!(&a, In(_, o) | UpdIn(_, o) if o.iter().any(|x| !matches!(x, Push | Ext(_) | Len))) && matches!(b[0], Swap(..)) {
                    continue;
                }
                s.add(&["C06", "C01", "C13"], kind, n, vec![vec![a.clone()], b]);
            }
        }
        for (a, b) in [(PushIdxIn(vec![Push]), Push), (ExtIdxIn(3, vec![Push]), Push), (PushIdxIn(vec![Ext(3)]), Ext(2))] {
            s.add(&["C06", "C01"], kind, n, vec![vec![a], vec![b], vec![Push]]);
        }
    }
}

fn reentrant(s: &mut Book) {
    // closures and loop bodies of traversals which use the vector again
    let tr = [Tr::Iter, Tr::IterCl, Tr::Map, Tr::Filter, Tr::Fold, Tr::FillWith, Tr::Chunks(1), Tr::Chunks(2)];
    for (kind, n) in [(DBL, 2), (DBL, 3), (L2, 2), (F8, 1)] {
        for t in tr {
            // while a traversal holds an element, its own value may still be read
            let free = !matches!(t, Tr::Map | Tr::Filter | Tr::Fold);
            let mut inner = vec![vec![Push], vec![Len], vec![Ext(2)]];
            if n == 2 && kind == DBL {
                inner.push(vec![PushIdx, Len]);
            }
            if free {
                inner.extend([vec![GetCl(0)], vec![Get(n - 1)], vec![Upd(0)], vec![WIf(n), Len], vec![Dbg], vec![IterRef]]);
                if n > 1 {
                    inner.push(vec![Swap(0, 1)]);
                }
            } else {
                inner.extend([vec![Get(n + 3)], vec![SlAll(Box::new(Len)), Cap]]);
            }
            for o in inner {
                let steps = match t {
                    Tr::Chunks(k) => n.div_ceil(k),
                    _ => n,
                };
                let adds: usize = o.iter().map(grows).sum();
                if n + adds * steps > 8 {
                    continue;
                }
                for b in [vec![Push], vec![Set(0)], vec![Len, GetCl(n)]] {
                    if o.iter().any(|x| matches!(x, IterRef)) && (matches!(b[0], Set(_)) || t == Tr::FillWith) {
                        continue;
                    }
                    if kind == F8 && matches!(b[0], Len) {
                        continue;
                    }
                    let a = TravIn(t, o.clone());
                    let tags = uniq(&["C06"], &[&tags_of(&a), if adds > 0 { &["C01"] } else { &[] }]);
                    s.add(&tags, kind, n, vec![vec![a], b.clone()]);
                    if n > 1 && o.len() == 1 && matches!(b[0], Push) {
                        let w = sl(0, n, TravIn(t, o.clone()));
                        s.add(&uniq(&tags, &[&["C10"]]), kind, n, vec![vec![w], b]);
                    }
                }
            }
        }
    }
    // operations going through the elements hold one at a time: they can be combined with a closure that
    // holds one element and uses another
    for (kind, n) in [(DBL, 2), (L2, 3)] {
        let scans = [
            Iter, IterTake(2), IterCl, Map, Filter, Fold, Reduce, ClVec, Dbg, IndexOf(77), Contains(77), EqArr(ini(n), None), Fill, FillWith, Chunks(1), SplitFirst, SplitLast, IterRef, Len,
            EqElVal(0, 1), GetRef(0), all(Dbg), all(ClVec), all(IndexOf(77)), all(EqArr(ini(n), None)), all(Fill), all(FillWith), all(Reduce), all(Fold), all(IterCl), CloneV,
        ];
        for x in scans {
            for (i, j) in [(1, 0), (0, 1)] {
                for h in [In(i, vec![GetCl(j)]), UpdIn(i, vec![Upd(j)]), In(i, vec![Set(j)])] {
                    // a reference allows no concurrent write
                    if matches!(x, IterRef | GetRef(_)) && !matches!(&h, In(_, o) if matches!(o[0], GetCl(_))) {
                        continue;
                    }
                    let tags = uniq(&["C06"], &[&tags_of(&x)]);
                    s.add(&tags, kind, n, vec![vec![h], vec![x.clone()]]);
                }
            }
        }
    }
    for x in [Dbg, ClVec, Iter, IterCl, Map, Filter, Fold, Reduce, IndexOf(77), Contains(77), EqArr(ini(5), None), Fill, FillWith, all(Dbg), EqSelf(None), CloneV] {
        for w in [Swap(0, 4), Swap(4, 0), EqEl(4, 0, None), EqEl(0, 4, None)] {
            let mut p = s.base(DBL, 5, vec![vec![w], vec![x.clone()]]);
            p.desc = true;
            s.put(&uniq(&["C06", "C05"], &[&tags_of(&x)]), p);
        }
    }
    // growth whose iterator does not have the announced length
    for (kind, n) in [(DBL, 3), (L2, 1)] {
        for a in [ExtIdxBad(2), ExtIdxBad(1), ExtIdxFew(2), ExtIdxFew(1)] {
            let mut p = s.base(kind, n, vec![vec![a], vec![Push]]);
            p.gap = true;
            p.fin = Fin::Drop;
            s.put_fin(&["C01", "C13"], p, "Drop");
        }
    }
}

/// extensions over several blocks, and elements and traversals of vectors of several blocks
fn wide(s: &mut Book) {
    for (kind, n) in [(DBL, 3), (DBL, 0), (DBL, 2), (DBL, 11), (Kind::Lin(1, 16), 1), (Kind::Lin(2, 6), 3), (Kind::Fix(32), 2)] {
        for g in [Ext(10), ExtN(9), ExtIdx(10), Ext(13)] {
            if n == 11 && matches!(g, Ext(13)) {
                continue;
            }
            let k = grows(&g);
            for b in [vec![Push], vec![PushIdx], vec![Ext(2)], vec![Push, Push], vec![ExtIdx(5)], vec![Ext(6)]] {
                s.add(&["C01", "C06", "C07", "C09"], kind, n, vec![vec![g.clone()], b]);
            }
            let (m, l) = (n + k / 2, n + k - 1);
            for r in [vec![Get(l), Get(n)], vec![Len, GetCl(m)], vec![GetCl(m), GetCl(l)], vec![Iter], vec![Iter, Len], vec![IterRef], vec![GetRef(l), GetRef(n)], vec![Dbg], vec![ClVec], vec![all(Iter)], vec![RawOnly(m)], vec![WIf(m), Len], vec![Cap, Len], vec![Chunks(3)], vec![GetRaw(m), Get(n)], vec![Len, IterMut]] {
                let t = uniq(&["C02", "C03", "C07"], &[&r.iter().flat_map(tags_of).collect::<Vec<_>>()]);
                s.add(&t, kind, n, vec![vec![g.clone()], r]);
            }
            for h in [H::El, H::Ref, H::Raw, H::Slice] {
                if n > 0 {
                    s.add(&["C08"], kind, n, vec![vec![Hold(n - 1, h, vec![g.clone()])], vec![Push]]);
                    s.add(&["C08"], kind, n, vec![vec![Hold(n - 1, h, vec![Push])], vec![g.clone()]]);
                }
            }
        }
        s.add(&["C01", "C06"], kind, n, vec![vec![Ext(6)], vec![ExtIdx(5)], vec![Push]]);
        s.add(&["C01", "C06"], kind, n, vec![vec![ExtN(5)], vec![Push], vec![Ext(6)]]);
    }
    for (kind, n) in [(DBL, 12), (DBL, 11), (Kind::Lin(1, 16), 8), (Kind::Lin(2, 6), 8)] {
        for r in grow_readers(n, n) {
            for g in [vec![Push], vec![Ext(2)]] {
                if r.iter().any(|o| matches!(o, FillX(_))) && grows(&g[0]) > 1 {
                    continue;
                }
                let t = uniq(&["C02", "C07"], &[&r.iter().flat_map(tags_of).collect::<Vec<_>>()]);
                s.add(&t, kind, n, vec![g, r.clone()]);
            }
        }
        let e = n - 1;
        for (a, b) in [
            (Swap(0, e), Swap(e, 0)),
            (Swap(e, 4), Swap(4, 0)),
            (Swap(0, e), EqEl(e, 0, None)),
            (EqEl(0, e, None), EqEl(e, 0, None)),
            (Upd(e), Upd(e)),
            (Repl(e), GetCl(e)),
            (Set(e), EqElVal(e, 3)),
            (Swap(3, e), Iter),
            (Swap(e, 5), Dbg),
            (FillWith, IterCl),
            (Fill, Upd(e)),
            (FillWith, sl(4, n, FillWith)),
            (sl(3, n, Swap(0, n - 4)), Upd(3)),
            (sl(3, n, ClVec), Upd(e)),
            (Chunks(5), Upd(5)),
            (SplitAt(5), Swap(4, 5)),
            (SplitLast, Upd(e)),
            (EqSelf(None), Upd(e)),
            (EqArr(ini(n), None), Set(e)),
            (IndexOf(e as u64 + 1), Upd(0)),
            (Contains(99), Upd(e)),
            (Fold, Upd(6)),
            (Reduce, Repl(6)),
            (Filter, Upd(7)),
            (Map, Swap(7, 1)),
        ] {
            let t = uniq(&["C04", "C07", "C06"], &[&tags_of(&a), &tags_of(&b)]);
            s.add(&t, kind, n, vec![vec![a.clone()], vec![b.clone()]]);
            if !matches!(a, Fill) {
                s.add(&t, kind, n, vec![vec![a], vec![b], vec![Push]]);
            }
        }
    }
}

fn capacity(s: &mut Book) {
    for (kind, max) in [(Kind::Fix(2), 2usize), (Kind::Fix(3), 3), (Kind::Lin(1, 1), 2), (Kind::Lin(1, 2), 4), (Kind::Lin(2, 1), 4), (Kind::Fix(0), 0), (Kind::Fix(1), 1)] {
        let g = [PushCap, PushIdxCap, ExtCap(2), ExtIdxCap(2), ExtCap(3)];
        for n in max.saturating_sub(2usize)..=max {
            for (i, a) in g.iter().enumerate() {
                for b in &g[i..] {
                    for (k, fin) in FINS.iter().enumerate() {
                        if *fin == Fin::CloneV || (n != max.saturating_sub(1) && (i + k) % 3 != 0) {
                            continue;
                        }
                        let mut p = s.base(kind, n, vec![vec![a.clone()], vec![b.clone()]]);
                        p.fin = *fin;
                        s.put_fin(&["C12", "C09"], p, &format!("{:?}", fin));
                    }
                }
            }
            for r in [vec![Len, Len], vec![Iter], vec![GetCl(n), GetCl(max)], vec![IterRef], vec![Cap], vec![Dbg], vec![ClVec], vec![all(Iter)], vec![GetRef(max), GetRaw(max)], vec![Swap(0, max)], vec![FillWith], vec![IndexOf(100)], vec![EqSelf(None)], vec![IterMut], vec![WIf(n), Len], vec![SplitLast], vec![Chunks(1)], vec![GetMut(max), GetRawMut(max)]] {
                for g in [[PushCap, PushCap], [ExtCap(2), PushIdxCap], [ExtIdxCap(3), PushCap]] {
                    let t = uniq(&["C12", "C02", "C03"], &[&r.iter().flat_map(tags_of).collect::<Vec<_>>()]);
                    s.add(&t, kind, n, vec![vec![g[0].clone(), g[1].clone()], r.clone()]);
                    s.add(&["C12"], kind, n, vec![vec![g[0].clone()], vec![g[1].clone()], r.clone()]);
                }
            }
            // what fits after growth that did not: nothing below it may be left out or given twice
            let (free, t) = (max - n, ["C12", "C01"]);
            for a in [ExtCap(free + 1), ExtIdxCap(free + 1), ExtCap(free + 3)] {
                for g in [PushCap, PushIdxCap, ExtCap(1), ExtIdxCap(2)] {
                    s.add(&t, kind, n, vec![vec![a.clone(), PushCap], vec![g.clone()]]);
                    s.add(&t, kind, n, vec![vec![a.clone(), g.clone()], vec![PushCap, ExtCap(1)]]);
                    s.add(&t, kind, n, vec![vec![a.clone(), g.clone(), PushCap], vec![ExtCap(free + 1), PushIdxCap]]);
                    s.add(&t, kind, n, vec![vec![a.clone()], vec![g.clone()], vec![PushCap, PushCap]]);
                }
            }
            s.add(&["C12", "C06"], kind, n, vec![vec![PushCap, Len], vec![PushCap, Iter], vec![PushCap, Cap]]);
            if n > 0 {
                s.add(&["C12", "C06"], kind, n, vec![vec![PushCap, Upd(0)], vec![ExtCap(2), Get(0), Dbg], vec![Repl(0)]]);
                s.add(&["C12", "C09"], kind, n, vec![vec![PushCap, PushCap, Set(0)], vec![PushIdxCap, Swap(0, n - 1)]]);
            }
        }
    }
}

fn panics(s: &mut Book) {
    let gap = |s: &mut Book, kind: Kind, n: usize, threads: Vec<Vec<Op>>| {
        for fin in [Fin::Drop, Fin::Inner, Fin::Clear] {
            let mut p = s.base(kind, n, threads.clone());
            p.gap = true;
            p.fin = fin;
            s.put_fin(&["C13", "C09", "C06"], p, &format!("{:?}", fin));
        }
    };
    for (kind, n) in [(DBL, 3), (DBL, 4), (L2, 2), (L2, 1), (F16, 3)] {
        for a in [PushIdxPanic, ExtPanic(3, 0), ExtPanic(3, 1), ExtPanic(3, 2), ExtShort(3, 1), ExtShort(2, 0), ExtIdxBad(2), ExtIdxFew(2), ExtIdxFew(3), ExtIdxPanic(3), ExtIdxPanic(1)] {
            gap(s, kind, n, vec![vec![a.clone()], vec![Push]]);
            gap(s, kind, n, vec![vec![a.clone(), Push], vec![Push, Upd(0)]]);
            gap(s, kind, n, vec![vec![a.clone()], vec![Ext(3), Get(0)]]);
            gap(s, kind, n, vec![vec![a.clone()], vec![Iter, Dbg]]);
            gap(s, kind, n, vec![vec![a.clone(), Iter, Get(n - 1)], vec![GetCl(n), FillWith]]);
            gap(s, kind, n, vec![vec![a.clone(), Iter, GetRef(0)], vec![GetCl(n), Len]]);
            gap(s, kind, n, vec![vec![a.clone()], vec![PushIdxPanic], vec![Push]]);
            gap(s, kind, n, vec![vec![a.clone()], vec![IterRef], vec![PushIdx]]);
            gap(s, kind, n, vec![vec![a.clone(), PushIdx, ExtIdx(2)], vec![ClVec, all(Iter)]]);
        }
    }
    // panics while an element is held: nobody may be blocked or see a damaged value
    for (kind, n) in [(DBL, 3), (L2, 3), (F8, 3)] {
        for a in [UpdPanic(0), FillWithPanic(1), FillWithPanic(0), sl(0, 2, FillWithPanic(1)), sl(0, 2, UpdPanic(0))] {
            for b in [vec![Upd(0)], vec![Repl(0), Get(0)], vec![Swap(0, 1)], vec![Iter], vec![Dbg], vec![GetCl(0), Len], vec![Push], vec![FillWith], vec![UpdPanic(0)], vec![EqEl(0, 1, None)], vec![ElCl(0)], vec![RawOnly(0)], vec![CloneV]] {
                s.add(&["C13", "C06", "C04", "C09"], kind, n, vec![vec![a.clone()], b.clone()]);
                s.add(&["C13"], kind, n, vec![vec![a.clone(), Get(0)], b, vec![Upd(0)]]);
            }
        }
        // a value whose clone, comparison and formatting panic
        let mut init = ini(n);
        init[1] |= BOOM;
        for a in [GetCl(1), ElCl(1), DbgEl(1), EqEl(1, 0, None), EqEl(0, 1, None), EqEl(1, 1, None), EqElVal(1, 5), IterCl, sl(1, 3, Reduce), ClVec, CloneV, Dbg, IndexOf(3), Contains(7), EqArr(ini(n), None), EqSelf(None), sl(0, 3, Dbg), sl(1, 2, IterCl), sl(0, 3, ClVec), sl(0, 3, IndexOf(3)), sl(1, 3, EqArr(ini(2), None)), sl(0, 3, EqSelf(None)), sl(0, 3, GetCl(1)), sl(1, 3, Reduce), sl(1, 2, DbgEl(0))] {
            if (matches!(a, EqArr(..) | EqSelf(_) | CloneV) || format!("{:?}", a).contains("EqArr") || format!("{:?}", a).contains("EqSelf")) && kind != DBL {
                continue;
            }
            for b in [vec![Upd(1)], vec![Upd(0)], vec![Set(2)], vec![Iter], vec![Swap(0, 2)], vec![Push], vec![Len, Get(1)]] {
                if format!("{:?}", a).contains("EqArr") && matches!(b[0], Upd(0) | Swap(..)) || format!("{:?}", a).contains("IndexOf") && matches!(b[0], Swap(..)) {
                    continue;
                }
                // a concurrent replacement would remove the panicking value
                if matches!(b[0], Upd(1)) {
                    let mut p = s.base(kind, n, vec![vec![MustPanic(Box::new(a.clone())), Get(1), Upd(1), Get(0)], vec![Len]]);
                    p.init = init.clone();
                    p.fin = if p.fin == Fin::CloneV { Fin::ToVec } else { p.fin };
                    s.put(&["C13", "C06"], p);
                    continue;
                }
                let mut p = s.base(kind, n, vec![vec![MustPanic(Box::new(a.clone()))], b]);
                p.init = init.clone();
                p.fin = if p.fin == Fin::CloneV { Fin::ToVec } else { p.fin };
                s.put(&["C13", "C06", "C15"], p);
            }
        }
        for x in [FillX(BOOM | 7), sl(0, 2, FillX(BOOM | 7))] {
            for b in [vec![Upd(0)], vec![Iter], vec![Swap(0, 1)], vec![Push, Len]] {
                s.add(&["C13", "C09"], kind, n, vec![vec![MustPanic(Box::new(x.clone())), Get(0)], b]);
            }
        }
    }
}
fn slices(s: &mut Book) {
    for (kind, n) in [(DBL, 4), (DBL, 5), (L2, 3), (F8, 3)] {
        let ops = |k: usize| {
            vec![
                Iter,
                IterCl,
                Map,
                Filter,
                Fold,
                Reduce,
                ClVec,
                Dbg,
                Len,
                Get(k),
                GetCl(k),
                GetRef(k),
                GetRaw(k),
                GetMut(k),
                GetRawMut(k),
                RawOnly(k),
                Swap(0, k),
                Swap(0, 0),
                IterRef,
                IterMut,
                Chunks(1),
                SplitAt(k),
                SplitFirst,
                SplitLast,
                IndexOf(n as u64),
                Contains(1),
                EqSelf(Some(true)),
                FillWith,
                Fill,
                WIf(k),
                sl(0, 1, Iter),
                sl(1, k, Len),
                all(Dbg),
            ]
        };
        for (a, b) in [(0, n), (1, n), (1, n - 1), (n - 2, n)] {
            for o in ops(b - a) {
                if matches!(&o, SplitFirst | SplitLast if a == b) {
                    continue;
                }
                let win = sl(a, b, o.clone());
                let t = uniq(&["C10"], &[&tags_of(&o)]);
                s.add(&t, kind, n, vec![vec![win.clone()], vec![Push]]);
                let refs = matches!(&o, GetRef(_) | GetRaw(_) | GetMut(_) | GetRawMut(_) | IterRef | IterMut);
                s.add(&t, kind, n, vec![vec![win.clone()], vec![if refs { Ext(3) } else { Upd(a) }]]);
                // nested
                if b - a >= 2 {
                    let nst = sl(0, n, sl(a, b, o.clone()));
                    s.add(&["C10"], kind, n, vec![vec![nst], vec![PushIdx]]);
                }
            }
        }
        // disjoint windows do not disturb each other
        for (x, y) in [(FillWith, FillWith), (Fill, Iter), (Swap(0, 1), Swap(1, 0)), (IterMutW, IterRef), (IterMutW, IterMutW), (Upd(0), ClVec), (MutW(0), MutW(0)), (RawW(0), Dbg)] {
            s.add(&["C10", "C04"], kind, n, vec![vec![sl(0, n - 2, x.clone())], vec![sl(n - 2, n, y.clone())]]);
        }
    }
}

pub fn scenarios() -> Vec<Conc> {
    let mut s = Book { all: vec![], index: BTreeMap::new(), fin: 0, ty: 0 };
    elements(&mut s);
    let n_elements = s.all.len();
    growth(&mut s);
    grow_read(&mut s);
    addresses(&mut s);
    two_vectors(&mut s);
    other_types(&mut s, n_elements);
    pauses(&mut s);
    nested(&mut s);
    reentrant(&mut s);
    wide(&mut s);
    capacity(&mut s);
    panics(&mut s);
    slices(&mut s);
    s.all
}
