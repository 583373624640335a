//! Interface to the model checker runtime (mc/rt/mcrt.cpp).
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout};
use std::fmt::Debug;

#[repr(C)]
struct SpawnFn {
    f: extern "C" fn(*mut u8),
    arg: *mut u8,
}

#[repr(C)]
pub struct McCfg {
    pub pmax: u32,
    pub smax: u32,
    pub seconds: f64,
    pub cache: u32,
    pub pmin: u32,
}

#[repr(C)]
#[derive(Default, Clone, Debug)]
pub struct McRes {
    pub states: u64,
    pub transitions: u64,
    pub executions: u64,
    pub pruned: u64,
    pub outcomes: u64,
    pub stale_reads: u64,
    pub spin_blocks: u64,
    pub max_depth: u64,
    pub branch_points: u64,
    pub completed_p: i32,
    pub exhausted: i32,
    pub timeout: i32,
    pub violation: i32,
    pub limited: i32,
    pub wall: f64,
}

extern "C" {
    fn mc_alloc(size: usize, align: usize) -> *mut u8;
    fn mc_dealloc(p: *mut u8, size: usize, align: usize);
    fn mc_realloc(p: *mut u8, old: usize, align: usize, new: usize) -> *mut u8;
    fn mc_run_threads(f: *const SpawnFn, n: i32);
    fn mc_choose(n: u32) -> u32;
    fn mc_point();
    fn mc_desc(on: i32);
    fn mc_fail(m: *const u8, n: usize);
    fn mc_note(m: *const u8, n: usize);
    fn mc_tracing() -> i32;
    fn mc_panic_msg(m: *const u8, n: usize);
    fn mc_last_panic(m: *mut *const u8, n: *mut usize);
    fn mc_active() -> i32;
    fn mc_tid() -> u32;
    fn mc_op_begin(id: u32);
    fn mc_op_end(id: u32);
    fn mc_op_times(id: u32, inv: *mut u32, ret: *mut u32);
    fn mc_cover(h: u64);
    fn mc_ev(op: u32, kind: u32, pos: u32, a: u64, b: u64);
    fn mc_check_history(init: *const u64, n: u32, n0: u32, gap: u32);
    fn mc_op_before(a: u32, b: u32) -> i32;
    fn mc_lin_checks() -> u64;
    fn mc_replay(c: *const std::ffi::c_char, p: u32, s: u32, f: extern "C" fn(*mut u8), arg: *mut u8, res: *mut McRes);
    fn mc_epoch() -> u64;
    fn mc_block(e: u64);
    fn mc_rest();
    fn mc_progress();
    fn mc_track_new() -> u32;
    fn mc_track_drop(id: u32);
    fn mc_track_use(id: u32);
    fn mc_track_live() -> i64;
    fn mc_live_allocs() -> u64;
    fn mc_explore(cfg: *const McCfg, f: extern "C" fn(*mut u8), arg: *mut u8, res: *mut McRes);
    fn mc_violation_text() -> *const std::ffi::c_char;
    fn mc_trace_text() -> *const std::ffi::c_char;
    fn mc_choices_text() -> *const std::ffi::c_char;
}

pub struct McAlloc;
unsafe impl GlobalAlloc for McAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        mc_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        mc_dealloc(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        mc_realloc(p, l.size(), l.align(), new)
    }
}

pub type Job<'a> = Box<dyn FnOnce() + 'a>;

extern "C" fn job_entry(arg: *mut u8) {
    let job = unsafe { &mut *(arg as *mut Option<Job<'static>>) }.take().unwrap();
    if let Err(_e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job)) {
        fail(&format!("unexpected panic: {}", last_panic()));
    }
}

/// Runs the jobs as concurrent threads of the program under test and waits for all of them.
pub fn threads(jobs: Vec<Job<'_>>) {
    let mut slots: Vec<Option<Job<'_>>> = jobs.into_iter().map(Some).collect();
    let fns: Vec<SpawnFn> = slots
        .iter_mut()
        .map(|s| SpawnFn {
            f: job_entry,
            arg: s as *mut _ as *mut u8,
        })
        .collect();
    unsafe { mc_run_threads(fns.as_ptr(), fns.len() as i32) };
}

/// Nondeterministic choice in `0..n`, enumerated exhaustively.
pub fn choose(n: usize) -> usize {
    if n > 200 {
        let b = choose(n.div_ceil(200));
        return b * 200 + choose((n - b * 200).min(200));
    }
    unsafe { mc_choose(n as u32) as usize }
}
/// Makes the main thread allocate towards lower addresses.
pub fn desc(on: bool) {
    unsafe { mc_desc(on as i32) }
}
pub fn point() {
    unsafe { mc_point() }
}
#[cold]
pub fn fail(m: &str) -> ! {
    unsafe { mc_fail(m.as_ptr(), m.len()) };
    unreachable!()
}
pub fn note(f: impl FnOnce() -> String) {
    if unsafe { mc_tracing() } != 0 {
        let m = f();
        unsafe { mc_note(m.as_ptr(), m.len()) }
    }
}
/// the running thread
pub fn tid() -> u32 {
    unsafe { mc_tid() }
}
pub fn active() -> bool {
    unsafe { mc_active() != 0 }
}
pub fn last_panic() -> String {
    let mut p = std::ptr::null();
    let mut n = 0;
    unsafe {
        mc_last_panic(&mut p, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
    }
}
pub fn op_begin(id: usize) {
    unsafe { mc_op_begin(id as u32) }
}
pub fn op_end(id: usize) {
    unsafe { mc_op_end(id as u32) }
}
pub fn op_times(id: usize) -> (u32, u32) {
    let (mut a, mut b) = (0, 0);
    unsafe { mc_op_times(id as u32, &mut a, &mut b) };
    (a, b)
}
pub fn cover(h: u64) {
    unsafe { mc_cover(h) }
}
/// Waits until `f` is true, re-evaluating it only when some atomic changed.
pub fn wait_until(mut f: impl FnMut() -> bool) {
    loop {
        let e = unsafe { mc_epoch() };
        if f() {
            return;
        }
        unsafe { mc_block(e) };
    }
}
/// Begins a new operation as far as the limit on memory accesses is concerned.
pub fn progress() {
    unsafe { mc_progress() };
}
/// Pauses the thread until no other thread can do anything but wait for it.
pub fn rest() {
    unsafe { mc_rest() };
}
#[derive(Clone, Copy)]
#[repr(u32)]
pub enum E {
    Init = 1,
    Read,
    None,
    Set,
    Repl,
    Add,
    Swap,
    Len,
    Neq,
    GetNone,
    Read2,
    AtLeast,
}
/// Logs an element-level event of operation `op`.
pub fn ev(op: usize, k: E, pos: usize, a: u64, b: u64) {
    unsafe { mc_ev(op as u32, k as u32, pos as u32, a, b) }
}
/// The same for an operation which may visit the positions in any order.
pub fn ev_any(op: usize, k: E, pos: usize, a: u64, b: u64) {
    unsafe { mc_ev(op as u32, k as u32 | 64, pos as u32, a, b) }
}
/// Checks the logged history: linearizability of element events, bounds on lengths.
/// `init`: initial values, u64::MAX for absent ones; the first `n0` positions form the initial vector.
pub fn check_history(init: &[u64], n0: usize, gap: bool) {
    unsafe { mc_check_history(init.as_ptr(), init.len() as u32, n0 as u32, gap as u32) }
}
pub fn op_before(a: usize, b: usize) -> bool {
    unsafe { mc_op_before(a as u32, b as u32) != 0 }
}
pub fn lin_checks() -> u64 {
    unsafe { mc_lin_checks() }
}
pub fn track_new() -> u32 {
    unsafe { mc_track_new() }
}
pub fn track_drop(id: u32) {
    unsafe { mc_track_drop(id) }
}
pub fn track_use(id: u32) {
    unsafe { mc_track_use(id) }
}
pub fn track_live() -> i64 {
    unsafe { mc_track_live() }
}
pub fn live_allocs() -> u64 {
    unsafe { mc_live_allocs() }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::mc::fail(&format!($($a)*)) } };
}
pub fn ensure_eq<A: PartialEq<B> + Debug, B: Debug>(a: A, b: B, what: &str) {
    if !(a == b) {
        fail(&format!("{}: got {:?}, expected {:?}", what, a, b));
    }
}

/// Runs `f`, returning None if it panicked.
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

extern "C" fn scen_entry(arg: *mut u8) {
    let f = unsafe { &*(arg as *const &dyn Fn()) };
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).is_err() {
        fail(&format!("unexpected panic: {}", last_panic()));
    }
}

fn set_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    if ONCE.is_completed() {
        return;
    }
    ONCE.call_once(|| ());
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        if active() {
            unsafe { mc_panic_msg(m.as_ptr(), m.len()) }
        } else {
            eprintln!("{}", m);
        }
    }));
    // one panic outside of the model initialises what std initialises lazily
    let _ = std::panic::catch_unwind(|| std::panic::resume_unwind(Box::new(())));
}
fn text(p: *const std::ffi::c_char) -> String {
    unsafe { std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned() }
}

pub struct Outcome {
    pub res: McRes,
    pub text: String,
    pub trace: String,
    pub choices: String,
}
pub fn explore(cfg: &McCfg, f: &dyn Fn()) -> Outcome {
    set_hook();
    let mut res = McRes::default();
    let arg: &dyn Fn() = f;
    unsafe { mc_explore(cfg, scen_entry, &arg as *const _ as *mut u8, &mut res) };
    let v = res.violation != 0;
    let g = |p| if v { text(p) } else { String::new() };
    unsafe { Outcome { text: g(mc_violation_text()), trace: g(mc_trace_text()), choices: g(mc_choices_text()), res } }
}
pub fn replay(choices: &str, p: u32, s: u32, f: &dyn Fn()) -> Outcome {
    set_hook();
    let mut res = McRes::default();
    let arg: &dyn Fn() = f;
    let c = std::ffi::CString::new(choices).unwrap();
    unsafe { mc_replay(c.as_ptr(), p, s, scen_entry, &arg as *const _ as *mut u8, &mut res) };
    unsafe { Outcome { text: text(mc_violation_text()), trace: text(mc_trace_text()), choices: choices.into(), res } }
}
