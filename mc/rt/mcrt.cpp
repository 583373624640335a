// mcrt: stateless model checker runtime.
//
// The code under test is compiled with LLVM's ThreadSanitizer instrumentation pass; this file
// implements the instrumentation interface (the __tsan_* functions).  Threads of the program under
// test are coroutines; every atomic operation is a scheduling point; a depth-first search with
// replay enumerates all schedules within a preemption bound, and all values that an atomic load may
// return under release/acquire semantics within a bound on reads of non-latest values.
#include <sys/time.h>
#include <signal.h>
#include <cassert>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <link.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef unsigned __int128 u128;

static const int MAXT = 5; // main + 4 workers
static const size_t STACK_SZ = 512 * 1024;
static const size_t STACK_ZERO = 24 * 1024;
static const uintptr_t ARENA_BASE = 0x600000000000ull;
static const size_t ARENA_MAIN = 40u << 20, ARENA_W = 2u << 20;
static const size_t ARENA_SZ = ARENA_MAIN + (MAXT - 1) * ARENA_W;
static const uintptr_t SHADOW_BASE = 0x610000000000ull;

// ---------------------------------------------------------------- utilities
static inline u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull + (a << 6) + (a >> 2));
  x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32;
  return x;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Cell { u8 st; u8 wt; u16 wc; u16 r[MAXT]; u16 pad; };
static_assert(sizeof(Cell) == 16, "");
enum { ST_LIVE = 1, ST_FREED = 2, ST_LOC = 4 };
static Cell *const g_shadow = (Cell *)SHADOW_BASE;
static inline bool in_arena(uintptr_t a) { return a - ARENA_BASE < ARENA_SZ; }
static inline Cell *cell(uintptr_t a) { return g_shadow + (a - ARENA_BASE); }

struct VC { u16 c[MAXT]; };
static inline void vjoin(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

// view: location id -> lowest store index that may still be read
struct View {
  std::vector<u16> v;
  u16 get(u32 l) const { return l < v.size() ? v[l] : 0; }
  void up(u32 l, u16 i) { if (l >= v.size()) v.resize(l + 1, 0); if (v[l] < i) v[l] = i; }
  void join(const View &o) {
    if (o.v.size() > v.size()) v.resize(o.v.size(), 0);
    for (size_t i = 0; i < o.v.size(); i++) if (o.v[i] > v[i]) v[i] = o.v[i];
  }
  void clear() { v.clear(); }
};
struct Store { u64 val; u64 uid; VC vc; View view; u8 tid; };
struct Loc {
  uintptr_t addr; u8 size; bool dead; int lastsc; u64 h;
  std::vector<Store> hist; // recycled
  u32 n = 0;               // live entries of hist
  VC aw, ar;
  u64 init_val;
};

// T_REST: pauses until no other thread can do anything but wait
enum { T_UNUSED, T_READY, T_SPIN, T_WAIT, T_DONE, T_REST };
struct Rec { u64 pc; uintptr_t addr; u32 loc; u32 idx; u64 val; u64 sh; u64 h; };
struct Thread {
  int status; void *sp; char *stack;
  void (*fn)(void *); void *arg;
  VC vc, relvc, acqvc; View cur, relv, acqv; bool hasrel;
  u64 h;
  std::vector<Rec> recs;
  std::vector<uintptr_t> watch;
  u64 wait_epoch; bool stale_since;
  uintptr_t bump, bump_lo, bump_hi, top;
  int pending_inv;
  u32 track_ctr; u32 slice; bool weak_next;
  u64 ops;
};

struct Choice { u64 hash; u8 kind, n, cur; u8 alt[14]; };
enum { K_SCHED = 1, K_READ = 2, K_DATA = 3, K_WEAK = 4 };

struct Alloc { size_t size, align; bool live; };

// ---------------------------------------------------------------- state
static Thread T[MAXT];
static int g_cur = 0;          // running thread
static bool g_active = false;  // an execution is running
static bool g_conc = false;    // workers exist
static bool g_done_exec;
static void *g_expl_sp;
static sigjmp_buf g_crash_jb;
static std::vector<Loc> g_locs; static u32 g_nlocs;
static std::unordered_map<uintptr_t, u32> g_locmap;
static View g_scview; static VC g_scvc; static u64 g_sch;
static u64 g_loch, g_histh; static u64 g_epoch;
static std::unordered_map<uintptr_t, Alloc> g_allocs;
static std::vector<std::pair<uintptr_t, std::string>> g_undo; // global memory to restore
static std::unordered_set<uintptr_t> g_undo_seen;
static std::vector<Choice> g_stack; static size_t g_pos;
static int g_pre, g_stale;         // used budgets
static int g_P, g_S;               // bounds
static u64 g_step, g_rest_step; static int g_resting;
static std::string g_viol; static bool g_has_viol, g_pruned, g_trace_on;
static std::string g_trace; static std::string g_notes; static std::string g_last_panic;
static u64 g_sum_states, g_sum_trans, g_sum_exec, g_sum_pruned, g_max_depth, g_capped_steps;
static std::unordered_set<u64> g_outcomes;
static u64 g_stale_reads, g_spin_blocks, g_multi_choices;
static u32 g_hist_ctr; static u64 g_retset;
struct OpT { u32 inv, ret; VC ivc; u16 rclk; u8 tid; };
static std::vector<OpT> g_ops;
static std::vector<u8> g_track[MAXT]; // 1 live, 2 dropped
static long g_track_live; static u64 g_track_news;
static bool g_limited; // an alternative was left out because a bound was reached
static bool g_desc; // the main thread allocates towards lower addresses
static u64 g_work; static const u64 WORK_CAP = 60000000; // memory accesses since the last scheduling point
static bool g_cache_on; static double g_deadline; static bool g_timeout;
static const u64 STEP_CAP = 60000, SLICE_CAP = 4000, REST_CAP = 2500000;

extern "C" { u64 mc_regs[8]; }

static void fail_exec();
static void violation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void violation(const char *fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (!g_has_viol) { g_has_viol = true; g_viol = b; }
  fail_exec();
}
static void internal_error(const char *m) {
  fprintf(stderr, "MC-INTERNAL: %s\n", m);
  fflush(stderr); _exit(3);
}
static void tracef(const char *fmt, ...) {
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  g_trace += b;
}
static void trace_bt() { // return addresses by frame pointer
  u64 *fp = (u64 *)mc_regs[1]; u64 pc = *(u64 *)mc_regs[6];
  char b[64]; snprintf(b, sizeof b, " @%lx", (unsigned long)(pc - 1)); g_trace += b;
  uintptr_t lo = (uintptr_t)T[g_cur].stack, hi = lo + STACK_SZ;
  for (int i = 0; i < 7; i++) {
    if ((uintptr_t)fp < lo || (uintptr_t)fp + 16 > hi) break;
    u64 ra = fp[1]; u64 *nf = (u64 *)fp[0]; if (!ra) break;
    snprintf(b, sizeof b, ",%lx", (unsigned long)(ra - 1)); g_trace += b;
    if (nf <= fp) break;
    fp = nf;
  }
}

// ---------------------------------------------------------------- coroutines
extern "C" void mc_switch(void **save, void *load);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
// thread-local variables of the executable (std's panic counter among them) belong to the coroutine
static u8 *g_tls; static size_t g_tls_sz; static u8 g_tls_init[4096]; static u8 g_tls_save[MAXT][4096];
static int tls_phdr(dl_phdr_info *i, size_t, void *) {
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
    size_t al = i->dlpi_phdr[k].p_align, n = (i->dlpi_phdr[k].p_memsz + al - 1) / al * al;
    g_tls_sz = n; g_tls = (u8 *)__builtin_thread_pointer() - n;
  }
  return 1; // the first object is the executable
}
static void co_main();
static void co_prepare(Thread &t) {
  memset(t.stack + STACK_SZ - STACK_ZERO, 0, STACK_ZERO);
  u64 *sp = (u64 *)(t.stack + STACK_SZ);
  *--sp = 0; *--sp = 0; *--sp = 0;
  *--sp = (u64)&co_main; // return address; rsp after ret is 8 mod 16
  for (int i = 0; i < 6; i++) *--sp = 0;
  t.sp = sp;
}
static void to_explorer() { void *dummy; mc_switch(&dummy, g_expl_sp); __builtin_unreachable(); }
static void fail_exec() { g_active = false; to_explorer(); }
static void co_to(int t) {
  if (t == g_cur) return;
  int old = g_cur; g_cur = t;
  memcpy(g_tls_save[old], g_tls, g_tls_sz); memcpy(g_tls, g_tls_save[t], g_tls_sz);
  mc_switch(&T[old].sp, T[t].sp);
}
static void thread_finished();
static void co_main() {
  Thread &t = T[g_cur];
  t.fn(t.arg);
  thread_finished();
  __builtin_trap();
}

// ---------------------------------------------------------------- cache
struct Cache {
  std::vector<u64> k, m; u64 n = 0, mask = 0;
  void reset() { n = 0; if (k.empty() || k.size() > (1u << 16)) { k.assign(1 << 14, 0); m.assign(1 << 14, 0); k.shrink_to_fit(); m.shrink_to_fit(); }
    else { std::fill(k.begin(), k.end(), 0); std::fill(m.begin(), m.end(), 0); } mask = k.size() - 1; }
  void grow() {
    std::vector<u64> ok, om; ok.swap(k); om.swap(m);
    k.assign(ok.size() * 2, 0); m.assign(ok.size() * 2, 0); mask = k.size() - 1;
    for (size_t i = 0; i < ok.size(); i++) if (ok[i]) { u64 j = ok[i] & mask; while (k[j]) j = (j + 1) & mask; k[j] = ok[i]; m[j] = om[i]; }
  }
  // returns true if dominated by an earlier visit; otherwise records
  bool visit(u64 key, int p, int s) {
    if (!key) key = 1;
    p = p > 7 ? 7 : p; s = s > 7 ? 7 : s;
    u64 j = key & mask; while (k[j] && k[j] != key) j = (j + 1) & mask;
    if (k[j] == key) {
      u64 mm = m[j];
      for (int a = 0; a <= p; a++) { u64 row = (mm >> (8 * a)) & 0xff; if (row & ((2u << s) - 1)) return true; }
      m[j] |= 1ull << (8 * p + s);
      return false;
    }
    if (n >= (24u << 20)) return false; // full: keep exploring without recording
    k[j] = key; m[j] = 1ull << (8 * p + s); n++; g_sum_states++;
    if (n * 2 > k.size()) grow();
    return false;
  }
} g_cache;

static u64 state_hash(int cur) {
  u64 h = g_loch + mix(7, g_sch) + g_histh;
  for (int i = 1; i < MAXT; i++) if (T[i].status != T_UNUSED) h += mix(100 + i, mix(T[i].h, T[i].status * 16 + (T[i].slice > SLICE_CAP / 2)));
  return mix(h, cur);
}

// choose among n alternatives (values alt[]); returns index
static int choose(int kind, int n, const u8 *alt) {
  if (g_pos < g_stack.size()) {
    Choice &c = g_stack[g_pos];
    if (c.kind != kind || c.n != n || (g_conc && c.hash && c.hash != state_hash(g_cur))) internal_error("replay diverged: uncontrolled nondeterminism");
    g_pos++;
    return c.cur;
  }
  Choice c; c.kind = kind; c.n = n; c.cur = 0; c.hash = g_conc ? state_hash(g_cur) : 0;
  for (int i = 0; i < n && i < 14; i++) c.alt[i] = alt ? alt[i] : i;
  g_stack.push_back(c); g_pos++;
  return 0;
}
static bool new_territory() { return g_pos >= g_stack.size(); }

static void check_prune(int cur) {
  if (!g_cache_on || !new_territory()) return;
  if (g_cache.visit(state_hash(cur), g_pre, g_stale)) { g_pruned = true; fail_exec(); }
}

static void name_addr(char *b, size_t n, uintptr_t a) {
  if (in_arena(a)) {
    uintptr_t best = 0;
    for (auto &p : g_allocs) if (p.first <= a && a < p.first + p.second.size + 16 && p.first > best) best = p.first;
    if (best) snprintf(b, n, "heap#%lx(+%lu of %lu)", (unsigned long)(best - ARENA_BASE), (unsigned long)(a - best), (unsigned long)g_allocs[best].size);
    else snprintf(b, n, "heap+%lx", (unsigned long)(a - ARENA_BASE));
  } else snprintf(b, n, "%lx", (unsigned long)a);
}

// current thread cannot continue: pick another
static void end_rest() {
  for (int i = 1; i < MAXT; i++) if (T[i].status == T_REST) T[i].status = T_READY;
  g_resting = 0; g_rest_step = 0;
}
static void resched() {
  u8 alt[MAXT]; int n = 0;
  for (int i = 1; i < MAXT; i++) if (T[i].status == T_READY) alt[n++] = i;
  if (n == 0 && g_resting) {
    end_rest();
    for (int i = 1; i < MAXT; i++) if (T[i].status == T_READY) alt[n++] = i;
  }
  if (n == 0) {
    bool all = true;
    for (int i = 1; i < MAXT; i++) if (T[i].status != T_UNUSED && T[i].status != T_DONE) all = false;
    if (all) { co_to(0); return; }
    char b[512]; int o = snprintf(b, sizeof b, "deadlock/livelock: every unfinished thread waits forever:");
    for (int i = 1; i < MAXT; i++) if (T[i].status == T_SPIN || T[i].status == T_WAIT) o += snprintf(b + o, sizeof b - o, " thread %d %s;", i, T[i].status == T_SPIN ? "spins" : "waits for a condition");
    violation("%s", b);
  }
  check_prune(0);
  int k = 0;
  if (n > 1) { g_multi_choices++; k = choose(K_SCHED, n, alt); }
  T[alt[k]].slice = 0;
  if (g_trace_on) tracef("-- switch to thread %d\n", alt[k]);
  co_to(alt[k]);
}

static void thread_finished() {
  Thread &t = T[g_cur];
  if (g_cur == 0) { g_done_exec = true; g_active = false; to_explorer(); }
  t.status = T_DONE; t.h = mix(t.h, 0xd07e);
  resched();
  __builtin_trap();
}

static void step_common() {
  g_work = 0;
  // others may do whatever they want for a long time while a thread rests
  if (g_resting) { if (++g_rest_step > REST_CAP) end_rest(); } else g_step++;
  if (new_territory()) g_sum_trans++;
  if (g_step > STEP_CAP) { g_capped_steps++; violation("no termination: execution exceeded %lu atomic steps under a fair schedule", (unsigned long)STEP_CAP); }
  if (((g_step + g_rest_step) & 1023) == 0 && g_deadline > 0 && now() > g_deadline) { g_timeout = true; g_pruned = true; fail_exec(); }
}

static void stamp_inv(Thread &t) {
  if (t.pending_inv >= 0) {
    int id = t.pending_inv; t.pending_inv = -1;
    if ((int)g_ops.size() <= id) g_ops.resize(id + 1, OpT());
    g_ops[id].inv = ++g_hist_ctr; g_ops[id].ivc = t.vc; g_ops[id].tid = g_cur;
    g_histh += mix(5000 + id, g_retset);
  }
}

// scheduling point before an atomic operation of the current thread
static void sched_point() {
  step_common();
  Thread &t = T[g_cur];
  t.slice++;
  u8 alt[MAXT]; int n = 0; alt[n++] = g_cur;
  for (int i = 1; i < MAXT; i++) if (i != g_cur && T[i].status == T_READY) alt[n++] = i;
  if (n > 1) {
    check_prune(g_cur);
    if (t.slice > SLICE_CAP) { // fairness: forced switch
      int k = 1; for (int i = 1; i < n; i++) if (alt[i] > g_cur) { k = i; break; }
      T[alt[k]].slice = 0; t.slice = 0;
      co_to(alt[k]);
    } else if (g_pre < g_P) {
      g_multi_choices++;
      int k = choose(K_SCHED, n, alt);
      if (k) { g_pre++; T[alt[k]].slice = 0; if (g_trace_on) tracef("-- preempt thread %d, switch to thread %d\n", g_cur, alt[k]); co_to(alt[k]); }
    } else g_limited = true;
  }
  stamp_inv(T[g_cur]);
}

// ---------------------------------------------------------------- plain accesses
static inline bool own_stack(uintptr_t a) { return a - (uintptr_t)T[g_cur].stack < STACK_SZ; }
static bool any_stack(uintptr_t a) { for (int i = 0; i < MAXT; i++) if (a - (uintptr_t)T[i].stack < STACK_SZ) return true; return false; }

static void bad_mem(uintptr_t a, size_t n, bool w, u8 st) {
  char b[128]; name_addr(b, sizeof b, a);
  if (g_trace_on) { tracef("!! invalid access by thread %d", g_cur); trace_bt(); tracef("\n"); }
  violation("invalid memory access: %s of %zu bytes at %s, %s", w ? "write" : "read", n, b, (st & ST_FREED) ? "after it was freed" : "outside any live allocation");
}
static void race(uintptr_t a, bool w, bool atomic, int other, const char *ow) {
  char b[128]; name_addr(b, sizeof b, a);
  if (g_trace_on) { tracef("!! race: thread %d accesses", g_cur); trace_bt(); tracef("\n"); }
  violation("data race on %s: %s%s by thread %d is unordered with %s by thread %d", b, atomic ? "atomic " : "", w ? "write" : "read", g_cur, ow, other);
}
static void undo_note(uintptr_t a, size_t n) {
  if (a < 4096) return;
  for (size_t i = 0; i < n; i += 8) { uintptr_t q = (a + i) & ~7ull; if (g_undo_seen.insert(q).second) g_undo.push_back({q, std::string((char *)q, 8)}); }
}
static void kill_locs(uintptr_t a, size_t n) {
  for (u32 i = 0; i < g_nlocs; i++) { Loc &l = g_locs[i]; if (!l.dead && l.addr < a + n && a < l.addr + l.size) {
      l.dead = true; g_locmap.erase(l.addr); g_loch -= mix(l.addr, l.h);
      for (int k = 0; k < l.size; k++) if (in_arena(l.addr + k)) cell(l.addr + k)->st &= ~ST_LOC; } }
}
static void race_vs_locs(uintptr_t a, size_t n, bool w) {
  VC &vc = T[g_cur].vc;
  for (u32 i = 0; i < g_nlocs; i++) { Loc &l = g_locs[i]; if (!l.dead && l.addr < a + n && a < l.addr + l.size)
      for (int u = 0; u < MAXT; u++) if (u != g_cur) {
        if (l.aw.c[u] > vc.c[u]) race(l.addr, w, false, u, "an atomic write");
        if (w && l.ar.c[u] > vc.c[u]) race(l.addr, w, false, u, "an atomic read"); } }
}
static void work() { if (++g_work > WORK_CAP) violation("no termination: %lu memory accesses without reaching the end of the operation", (unsigned long)WORK_CAP); }
static void plain(uintptr_t a, size_t n, bool w) {
  if (!g_active || n == 0) return;
  work();
  if (own_stack(a)) return;
  if (!in_arena(a)) { if (a < 65536) bad_mem(a, n, w, 0); if (w && !any_stack(a)) undo_note(a, n); if (w) T[g_cur].recs.clear(); return; }
  if (a + n > ARENA_BASE + ARENA_SZ) bad_mem(a, n, w, 0);
  Cell *c = cell(a);
  if (!g_conc) { for (size_t i = 0; i < n; i++) if (!(c[i].st & ST_LIVE)) bad_mem(a + i, n, w, c[i].st); return; }
  Thread &t = T[g_cur]; u16 me = t.vc.c[g_cur]; bool haslocs = false;
  if (w) t.recs.clear();
  for (size_t i = 0; i < n; i++) {
    Cell &x = c[i];
    if (!(x.st & ST_LIVE)) bad_mem(a + i, n, w, x.st);
    if (x.st & ST_LOC) haslocs = true;
    if (x.wc > t.vc.c[x.wt]) race(a + i, w, false, x.wt, "a write");
    if (w) {
      for (int u = 0; u < MAXT; u++) { if (x.r[u] > t.vc.c[u]) race(a + i, w, false, u, "a read"); x.r[u] = 0; }
      x.wt = g_cur; x.wc = me;
    } else x.r[g_cur] = me;
  }
  if (haslocs) { race_vs_locs(a, n, w); if (w) kill_locs(a, n); }
}

// ---------------------------------------------------------------- atomics
static u64 rd(uintptr_t a, int sz) { switch (sz) { case 1: return *(volatile u8 *)a; case 2: return *(volatile u16 *)a; case 4: return *(volatile u32 *)a; default: return *(volatile u64 *)a; } }
static void wr(uintptr_t a, int sz, u64 v) { switch (sz) { case 1: *(volatile u8 *)a = v; break; case 2: *(volatile u16 *)a = v; break; case 4: *(volatile u32 *)a = v; break; default: *(volatile u64 *)a = v; } }
static u64 mask_sz(int sz, u64 v) { return sz == 8 ? v : v & ((1ull << (8 * sz)) - 1); }

enum { OP_XCHG, OP_ADD, OP_SUB, OP_AND, OP_NAND, OP_OR, OP_XOR, OP_UMAX, OP_UMIN, OP_MAX, OP_MIN, OP_LOAD, OP_STORE, OP_CAS };
static const char *opname[] = {"exchange", "fetch_add", "fetch_sub", "fetch_and", "fetch_nand", "fetch_or", "fetch_xor", "fetch_max", "fetch_min", "fetch_smax", "fetch_smin", "load", "store", "compare_exchange"};
static const char *moname[] = {"relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"};
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static u64 compute(int op, int sz, u64 o, u64 v) {
  auto sx = [&](u64 x) { return (int64_t)(x << (64 - 8 * sz)) >> (64 - 8 * sz); };
  u64 r = 0;
  switch (op) {
  case OP_XCHG: case OP_STORE: r = v; break; case OP_ADD: r = o + v; break; case OP_SUB: r = o - v; break; case OP_AND: r = o & v; break;
  case OP_NAND: r = ~(o & v); break; case OP_OR: r = o | v; break; case OP_XOR: r = o ^ v; break;
  case OP_UMAX: r = o > v ? o : v; break; case OP_UMIN: r = o < v ? o : v; break;
  case OP_MAX: r = sx(o) > sx(v) ? o : v; break; case OP_MIN: r = sx(o) < sx(v) ? o : v; break;
  }
  return mask_sz(sz, r);
}
static void check_live(uintptr_t a, int sz, bool w) {
  if (in_arena(a)) { Cell *c = cell(a); for (int i = 0; i < sz; i++) if (!(c[i].st & ST_LIVE)) bad_mem(a, sz, w, c[i].st); }
  else if (a < 65536) bad_mem(a, sz, w, 0);
}
static u32 get_loc(uintptr_t a, int sz) {
  auto it = g_locmap.find(a);
  if (it != g_locmap.end() && g_locs[it->second].size == sz) return it->second;
  if (it != g_locmap.end()) kill_locs(a, sz);
  if (!in_arena(a) && !any_stack(a)) undo_note(a, sz);
  if (g_nlocs == g_locs.size()) g_locs.emplace_back();
  u32 id = g_nlocs++; Loc &l = g_locs[id];
  l.addr = a; l.size = sz; l.dead = false; l.lastsc = -1; l.h = 0; l.n = 0;
  memset(&l.aw, 0, sizeof l.aw); memset(&l.ar, 0, sizeof l.ar);
  l.init_val = rd(a, sz);
  if (l.hist.empty()) l.hist.emplace_back();
  Store &s = l.hist[0]; s.val = l.init_val; s.uid = mix(a, 0x1417); memset(&s.vc, 0, sizeof s.vc); s.view.clear(); s.tid = 0; l.n = 1;
  g_locmap[a] = id; g_loch += mix(a, 0);
  if (in_arena(a)) for (int k = 0; k < sz; k++) cell(a + k)->st |= ST_LOC;
  return id;
}
static void race_atomic(uintptr_t a, int sz, bool w) {
  if (!in_arena(a)) return;
  Thread &t = T[g_cur]; Cell *c = cell(a);
  for (int i = 0; i < sz; i++) {
    if (c[i].wc > t.vc.c[c[i].wt]) race(a, w, true, c[i].wt, "a plain write");
    if (w) for (int u = 0; u < MAXT; u++) if (c[i].r[u] > t.vc.c[u]) race(a, w, true, u, "a plain read");
  }
}
static void mix_thread(Thread &t, u64 x) { t.h = mix(t.h, x); }

static void do_read_effects(Thread &t, Loc &l, u32 id, u32 idx, int mo) {
  Store &s = l.hist[idx];
  t.cur.up(id, idx);
  if (acq(mo)) { vjoin(t.vc, s.vc); t.cur.join(s.view); }
  else { vjoin(t.acqvc, s.vc); t.acqv.join(s.view); }
  if (mo == 5) { vjoin(t.vc, g_scvc); }
  l.ar.c[g_cur] = t.vc.c[g_cur];
}
static void push_store(Thread &t, Loc &l, u32 id, u64 val, int mo, bool rmw) {
  if (l.n == l.hist.size()) l.hist.emplace_back();
  Store &s = l.hist[l.n]; Store *prev = &l.hist[l.n - 1];
  bool changed = prev->val != val;
  s.val = val; s.tid = g_cur; memset(&s.vc, 0, sizeof s.vc); s.view.clear();
  t.cur.up(id, l.n);
  if (rel(mo)) { s.vc = t.vc; s.view = t.cur; }
  else if (t.hasrel) { s.vc = t.relvc; s.view = t.relv; }
  if (rmw) { vjoin(s.vc, prev->vc); s.view.join(prev->view); }
  s.uid = mix(t.h, 0x5706);
  g_loch -= mix(l.addr, l.h); l.h = mix(l.h, s.uid); g_loch += mix(l.addr, l.h);
  if (mo == 5) { l.lastsc = l.n; g_sch = mix(g_sch, s.uid); }
  l.aw.c[g_cur] = t.vc.c[g_cur];
  l.n++;
  wr(l.addr, l.size, val);
  if (changed) {
    g_epoch++; t.recs.clear();
    for (int i = 1; i < MAXT; i++) if (i != g_cur) {
      if (T[i].status == T_SPIN) { for (auto w : T[i].watch) if (w == l.addr) { T[i].status = T_READY; break; } }
      else if (T[i].status == T_WAIT) T[i].status = T_READY;
    }
  }
}
static u64 stack_hash() {
  u64 h = 1; for (int i = 0; i < 6; i++) h = mix(h, mc_regs[i]);
  u64 *p = (u64 *)mc_regs[6], *e = (u64 *)(T[g_cur].stack + STACK_SZ);
  for (; p < e; p++) h = (h ^ *p) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
  return h ? h : 1;
}
// called after a read that changed nothing; regs = registers at the hook entry (saved per op)
static void spin_check(Thread &t, uintptr_t a, u32 id, u32 idx, u64 val, u64 pc, u64 sh_pc, u64 hbefore) {
  (void)sh_pc;
  Rec r; r.pc = pc; r.addr = a; r.loc = id; r.idx = idx; r.val = val; r.sh = 0; r.h = hbefore;
  bool seen = false; int match = -1; u64 sh = 0;
  for (int i = (int)t.recs.size() - 1; i >= 0 && i >= (int)t.recs.size() - 200; i--) {
    Rec &q = t.recs[i];
    if (q.pc == pc && q.addr == a && q.idx == idx && q.loc == id) {
      seen = true; if (!sh) sh = stack_hash();
      if (q.sh == sh) { match = i; break; }
    }
  }
  if (seen) r.sh = sh;
  if (match >= 0) {
    // exact repetition of the thread's local state without side effects: a busy-wait
    bool latest = true; t.watch.clear();
    for (size_t i = match; i < t.recs.size(); i++) {
      Rec &q = t.recs[i]; if (g_locs[q.loc].hist[g_locs[q.loc].n - 1].val != q.val) latest = false;
      bool in = false; for (auto w : t.watch) if (w == q.addr) in = true; if (!in) t.watch.push_back(q.addr);
    }
    if (latest && g_locs[id].hist[g_locs[id].n - 1].val == val) {
      t.h = t.recs[match].h; // same local state as at the first occurrence
      t.status = T_SPIN; g_spin_blocks++;
      if (g_trace_on) tracef("-- thread %d busy-waits\n", g_cur);
      t.recs.clear();
      resched();
      return;
    }
  }
  if (t.recs.size() > 400) t.recs.erase(t.recs.begin(), t.recs.begin() + 200);
  t.recs.push_back(r);
}

static void trace_op(int op, uintptr_t a, int sz, int mo, u64 oldv, u64 newv, bool stale, int kind) {
  char b[128]; name_addr(b, sizeof b, a);
  tracef("T%d %s.%s u%d %s", g_cur, opname[op], moname[mo], sz * 8, b);
  if (op == OP_LOAD) tracef(" -> %lu%s", (unsigned long)oldv, stale ? " (stale)" : "");
  else if (op == OP_CAS) tracef(kind ? " %lu -> %lu ok" : " failed, saw %lu", (unsigned long)oldv, (unsigned long)newv);
  else tracef(" %lu -> %lu", (unsigned long)oldv, (unsigned long)newv);
  trace_bt(); tracef("\n");
}

static bool direct(uintptr_t a) {
  if (g_active && !g_conc) work();
  return !g_active || !g_conc || own_stack(a);
}

static int pick_index(Thread &t, Loc &l, u32 id, int mo) {
  u32 lo = t.cur.get(id), last = l.n - 1;
  if (mo == 5 && l.lastsc > (int)lo) lo = l.lastsc;
  if (mo == 5) { u16 g = g_scview.get(id); if (g > lo) lo = g; }
  if (lo >= last) return last;
  if (g_stale >= g_S) { g_limited = true; return last; }
  u8 alt[14]; int n = 0; alt[n++] = 0;
  for (u32 back = 1; back <= last - lo && n < 4; back++) {
    Store &s = l.hist[last - back];
    // an older store of the same value adds nothing for a relaxed read unless it is less constrained; keep distinct values only
    bool dup = false; for (int i = 0; i < n; i++) if (l.hist[last - alt[i]].val == s.val && !acq(mo)) dup = true;
    if (!dup) alt[n++] = back;
  }
  if (n == 1) return last;
  int k = choose(K_READ, n, alt);
  if (k) { g_stale++; g_stale_reads++; t.stale_since = true; }
  return last - alt[k];
}

static u64 at_load(uintptr_t a, int sz, int mo) {
  check_live(a, sz, false);
  if (direct(a)) return rd(a, sz);
  u64 regs[8]; memcpy(regs, mc_regs, sizeof regs);
  sched_point();
  memcpy(mc_regs, regs, sizeof regs);
  Thread &t = T[g_cur];
  check_live(a, sz, false);
  u64 pc = *(u64 *)regs[6];
  race_atomic(a, sz, false);
  u32 id = get_loc(a, sz); 
  u32 idx = pick_index(t, g_locs[id], id, mo);
  Loc &l = g_locs[id];
  u64 hb = t.h;
  mix_thread(t, mix(mix(a, OP_LOAD * 8 + mo), l.hist[idx].uid)); if (mo == 5) g_sch = mix(g_sch, t.h);
  do_read_effects(t, l, id, idx, mo);
  u64 v = l.hist[idx].val; t.vc.c[g_cur]++;
  if (g_trace_on) trace_op(OP_LOAD, a, sz, mo, v, 0, idx != l.n - 1, 0);
  spin_check(t, a, id, idx, v, pc, 0, hb);
  return v;
}
static u64 at_rmw(uintptr_t a, int sz, int op, u64 v, int mo) {
  v = mask_sz(sz, v);
  check_live(a, sz, true);
  if (direct(a)) { if (g_active && !in_arena(a) && !any_stack(a)) undo_note(a, sz); u64 o = rd(a, sz); wr(a, sz, compute(op, sz, o, v)); return o; }
  u64 regs[8]; memcpy(regs, mc_regs, sizeof regs);
  sched_point();
  memcpy(mc_regs, regs, sizeof regs);
  check_live(a, sz, true);
  Thread &t = T[g_cur]; u64 pc = *(u64 *)regs[6];
  race_atomic(a, sz, true);
  u32 id = get_loc(a, sz); Loc &l = g_locs[id];
  u32 idx = l.n - 1; u64 o = l.hist[idx].val, nv = compute(op, sz, o, v);
  u64 hb = t.h;
  mix_thread(t, mix(mix(a, op * 8 + mo), op == OP_STORE ? v : mix(l.hist[idx].uid, v))); if (mo == 5) g_sch = mix(g_sch, t.h);
  if (op != OP_STORE) do_read_effects(t, l, id, idx, mo);
  push_store(t, l, id, nv, mo, op != OP_STORE);
  t.vc.c[g_cur]++;
  if (g_trace_on) trace_op(op, a, sz, mo, o, nv, false, 0);
  if (o == nv && op != OP_STORE) spin_check(t, a, id, idx, o, pc, 0, hb);
  return o;
}
static u64 at_cas(uintptr_t a, int sz, u64 exp, u64 nv, int mo, int fmo) {
  exp = mask_sz(sz, exp); nv = mask_sz(sz, nv);
  check_live(a, sz, true);
  if (direct(a)) { T[g_cur].weak_next = false; if (g_active && !in_arena(a) && !any_stack(a)) undo_note(a, sz); u64 o = rd(a, sz); if (o == exp) wr(a, sz, nv); return o; }
  u64 regs[8]; memcpy(regs, mc_regs, sizeof regs);
  bool weak = T[g_cur].weak_next; T[g_cur].weak_next = false;
  sched_point();
  memcpy(mc_regs, regs, sizeof regs);
  check_live(a, sz, true);
  Thread &t = T[g_cur]; u64 pc = *(u64 *)regs[6];
  u32 id = get_loc(a, sz);
  u32 last = g_locs[id].n - 1;
  bool latest_ok = g_locs[id].hist[last].val == exp;
  // candidates: latest (success or failure), or an older value different from the expected one (failure)
  u32 idx = last; bool fail = !latest_ok;
  {
    Loc &l = g_locs[id];
    u32 lo = t.cur.get(id); if (fmo == 5 && l.lastsc > (int)lo) lo = l.lastsc;
    if (lo < last && g_stale >= g_S) g_limited = true;
    if (lo < last && g_stale < g_S) {
      u8 alt[14]; int n = 0; alt[n++] = 0;
      for (u32 back = 1; back <= last - lo && n < 4; back++) {
        Store &s = l.hist[last - back]; if (s.val == exp) continue;
        bool dup = false; for (int i = 0; i < n; i++) if (l.hist[last - alt[i]].val == s.val && !(i == 0 && latest_ok) && !acq(fmo)) dup = true;
        if (!dup) alt[n++] = back;
      }
      if (n > 1) { int k = choose(K_READ, n, alt); if (k) { g_stale++; g_stale_reads++; t.stale_since = true; idx = last - alt[k]; fail = true; } }
    }
  }
  bool spurious = false;
  if (weak && !fail && g_stale >= g_S) g_limited = true;
  if (weak && !fail && g_stale < g_S) { if (choose(K_WEAK, 2, nullptr)) { g_stale++; spurious = true; fail = true; t.stale_since = true; } }
  Loc &l = g_locs[id];
  u64 hb = t.h; u64 o = l.hist[idx].val;
  mix_thread(t, mix(mix(a, OP_CAS * 8 + mo), mix(l.hist[idx].uid, mix(exp, nv * 4 + fail * 2 + spurious)))); 
  if (fail) {
    race_atomic(a, sz, false);
    if (fmo == 5) g_sch = mix(g_sch, t.h);
    do_read_effects(t, l, id, idx, fmo); t.vc.c[g_cur]++;
    if (g_trace_on) trace_op(OP_CAS, a, sz, mo, o, 0, idx != l.n - 1, 0);
    if (spurious) { t.recs.clear(); return exp + 1; } // forces the comparison in the caller to fail
    spin_check(t, a, id, idx, o, pc, 0, hb);
    return o;
  }
  race_atomic(a, sz, true);
  if (mo == 5) g_sch = mix(g_sch, t.h);
  do_read_effects(t, l, id, idx, mo);
  push_store(t, l, id, nv, mo, true); t.vc.c[g_cur]++;
  if (g_trace_on) trace_op(OP_CAS, a, sz, mo, o, nv, false, 1);
  return o;
}
static void at_fence(int mo) {
  if (!g_active || !g_conc) return;
  sched_point();
  Thread &t = T[g_cur];
  mix_thread(t, 0xfe00 + mo);
  if (acq(mo)) { vjoin(t.vc, t.acqvc); t.cur.join(t.acqv); }
  if (mo == 5) { t.cur.join(g_scview); vjoin(t.vc, g_scvc); g_scview.join(t.cur); vjoin(g_scvc, t.vc); g_sch = mix(g_sch, t.h); }
  if (rel(mo)) { t.relvc = t.vc; t.relv = t.cur; t.hasrel = true; }
  t.vc.c[g_cur]++;
}

// ---------------------------------------------------------------- instrumentation interface
// Entry stubs record the callee-saved registers and the stack pointer, so that the local state of the
// thread can be compared exactly when looking for busy-waits.
#define STUB(name, impl)                                                                           \
  asm(".text\n.globl " #name "\n.type " #name ",@function\n" #name ":\n"                           \
      "  leaq mc_regs(%rip), %rax\n  movq %rbx, 0(%rax)\n  movq %rbp, 8(%rax)\n  movq %r12, 16(%rax)\n" \
      "  movq %r13, 24(%rax)\n  movq %r14, 32(%rax)\n  movq %r15, 40(%rax)\n  movq %rsp, 48(%rax)\n"   \
      "  jmp " #impl "\n");
#define ATOM(bits, ty, sz)                                                                                                        \
  extern "C" ty mci_load##bits(uintptr_t a, int mo) { return at_load(a, sz, mo); }                                                 \
  STUB(__tsan_atomic##bits##_load, mci_load##bits)                                                                                 \
  extern "C" void mci_store##bits(uintptr_t a, ty v, int mo) {                                                                     \
    if (direct(a)) { check_live(a, sz, true); if (g_active && !in_arena(a) && !any_stack(a)) undo_note(a, sz); wr(a, sz, v); } else at_rmw(a, sz, OP_STORE, v, mo); } \
  STUB(__tsan_atomic##bits##_store, mci_store##bits)                                                                               \
  extern "C" ty mci_xchg##bits(uintptr_t a, ty v, int mo) { return at_rmw(a, sz, OP_XCHG, v, mo); }                                \
  STUB(__tsan_atomic##bits##_exchange, mci_xchg##bits)                                                                             \
  extern "C" ty mci_add##bits(uintptr_t a, ty v, int mo) { return at_rmw(a, sz, OP_ADD, v, mo); }                                  \
  STUB(__tsan_atomic##bits##_fetch_add, mci_add##bits)                                                                             \
  extern "C" ty mci_sub##bits(uintptr_t a, ty v, int mo) { return at_rmw(a, sz, OP_SUB, v, mo); }                                  \
  STUB(__tsan_atomic##bits##_fetch_sub, mci_sub##bits)                                                                             \
  extern "C" ty mci_and##bits(uintptr_t a, ty v, int mo) { return at_rmw(a, sz, OP_AND, v, mo); }                                  \
  STUB(__tsan_atomic##bits##_fetch_and, mci_and##bits)                                                                             \
  extern "C" ty mci_or##bits(uintptr_t a, ty v, int mo) { return at_rmw(a, sz, OP_OR, v, mo); }                                    \
  STUB(__tsan_atomic##bits##_fetch_or, mci_or##bits)                                                                               \
  extern "C" ty mci_xor##bits(uintptr_t a, ty v, int mo) { return at_rmw(a, sz, OP_XOR, v, mo); }                                  \
  STUB(__tsan_atomic##bits##_fetch_xor, mci_xor##bits)                                                                             \
  extern "C" ty mci_nand##bits(uintptr_t a, ty v, int mo) { return at_rmw(a, sz, OP_NAND, v, mo); }                                \
  STUB(__tsan_atomic##bits##_fetch_nand, mci_nand##bits)                                                                           \
  extern "C" ty mci_cas##bits(uintptr_t a, ty e, ty v, int mo, int fmo) { return at_cas(a, sz, e, v, mo, fmo); }                   \
  STUB(__tsan_atomic##bits##_compare_exchange_val, mci_cas##bits)                                                                  \
  extern "C" ty mci_umax##bits(uintptr_t a, ty v, int mo) { return at_rmw(a, sz, OP_UMAX, v, mo); }                                \
  STUB(__mc_umax##bits, mci_umax##bits)                                                                                            \
  extern "C" ty mci_umin##bits(uintptr_t a, ty v, int mo) { return at_rmw(a, sz, OP_UMIN, v, mo); }                                \
  STUB(__mc_umin##bits, mci_umin##bits)                                                                                            \
  extern "C" ty mci_max##bits(uintptr_t a, ty v, int mo) { return at_rmw(a, sz, OP_MAX, v, mo); }                                  \
  STUB(__mc_max##bits, mci_max##bits)                                                                                              \
  extern "C" ty mci_min##bits(uintptr_t a, ty v, int mo) { return at_rmw(a, sz, OP_MIN, v, mo); }                                  \
  STUB(__mc_min##bits, mci_min##bits)
ATOM(8, u8, 1) ATOM(16, u16, 2) ATOM(32, u32, 4) ATOM(64, u64, 8)
extern "C" {
void mci_fence(int mo) { at_fence(mo); }
STUB(__tsan_atomic_thread_fence, mci_fence)
void __tsan_atomic_signal_fence(int) {}
void __mc_weak() { if (g_active) T[g_cur].weak_next = true; }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RDWR(n)                                                                                    \
  void mci_r##n(uintptr_t a) { plain(a, n, false); }                                               \
  STUB(__tsan_read##n, mci_r##n) STUB(__tsan_unaligned_read##n, mci_r##n) STUB(__tsan_volatile_read##n, mci_r##n) \
  void mci_w##n(uintptr_t a) { plain(a, n, true); }                                                \
  STUB(__tsan_write##n, mci_w##n) STUB(__tsan_unaligned_write##n, mci_w##n) STUB(__tsan_volatile_write##n, mci_w##n) \
  STUB(__tsan_read_write##n, mci_w##n) STUB(__tsan_unaligned_read_write##n, mci_w##n)
RDWR(1) RDWR(2) RDWR(4) RDWR(8) RDWR(16)
void mci_rr(uintptr_t a, size_t n) { plain(a, n, false); }
STUB(__tsan_read_range, mci_rr)
void mci_wr(uintptr_t a, size_t n) { plain(a, n, true); }
STUB(__tsan_write_range, mci_wr)
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void *mci_memcpy(void *d, const void *s, size_t n) { plain((uintptr_t)s, n, false); plain((uintptr_t)d, n, true); return memcpy(d, s, n); }
STUB(__tsan_memcpy, mci_memcpy)
void *mci_memmove(void *d, const void *s, size_t n) { plain((uintptr_t)s, n, false); plain((uintptr_t)d, n, true); return memmove(d, s, n); }
STUB(__tsan_memmove, mci_memmove)
void *mci_memset(void *d, int c, size_t n) { plain((uintptr_t)d, n, true); return memset(d, c, n); }
STUB(__tsan_memset, mci_memset)

// ---------------------------------------------------------------- allocator
void *mc_alloc(size_t size, size_t align) {
  if (!g_active) { void *p = nullptr; if (align < 16) align = 16; if (posix_memalign(&p, align, size ? size : 1)) return nullptr; return p; }
  Thread &t = T[g_cur];
  if (align < 16) align = 16;
  uintptr_t a = (t.bump + 16 + align - 1) & ~(align - 1);
  if (size > ARENA_SZ || a + size + 32 > t.top) violation("out of memory: allocation of %zu bytes", size);
  if (g_desc && g_cur == 0) { a = (t.top - size - 32) & ~(align - 1); t.top = a; } // later blocks at lower addresses
  else t.bump = (a + size + 15) & ~15ull;
  Cell *c = cell(a); u16 me = g_conc ? t.vc.c[g_cur] : 0;
  for (size_t i = 0; i < size; i++) { c[i].st = ST_LIVE; c[i].wt = g_cur; c[i].wc = me; memset(c[i].r, 0, sizeof c[i].r); }
  memset((void *)a, 0xAA, size);
  g_allocs[a] = Alloc{size, align, true};
  t.recs.clear();
  return (void *)a;
}
void mc_dealloc(void *p, size_t size, size_t align) {
  uintptr_t a = (uintptr_t)p;
  if (!in_arena(a)) { if (g_active) undo_note(0, 0); free(p); return; }
  if (!g_active) return; // left over from an abandoned execution
  auto it = g_allocs.find(a);
  if (align < 16) align = 16;
  if (it == g_allocs.end()) violation("invalid free: pointer was not allocated");
  if (!it->second.live) violation("double free of an allocation of %zu bytes", it->second.size);
  if (it->second.size != size || it->second.align != align) violation("free with a different layout: allocated %zu bytes, freed as %zu bytes", it->second.size, size);
  plain(a, size, true);
  it->second.live = false;
  Cell *c = cell(a); for (size_t i = 0; i < size; i++) c[i].st = ST_FREED;
  memset(p, 0xDD, size);
}
void *mc_realloc(void *p, size_t os, size_t align, size_t ns) {
  if (!in_arena((uintptr_t)p) && align <= 16) return realloc(p, ns);
  void *q = mc_alloc(ns, align); if (!q) return q;
  size_t n = os < ns ? os : ns;
  if (g_active) { plain((uintptr_t)p, n, false); plain((uintptr_t)q, n, true); }
  memcpy(q, p, n); mc_dealloc(p, os, align); return q;
}
u64 mc_live_allocs() { u64 n = 0; for (auto &p : g_allocs) if (p.second.live) n++; return n; }

// ---------------------------------------------------------------- harness interface
struct SpawnFn { void (*f)(void *); void *arg; };
void mc_run_threads(const SpawnFn *f, int n) {
  if (g_cur != 0 || g_conc || n > MAXT - 1) internal_error("bad spawn");
  g_nlocs = 0; g_locmap.clear(); g_loch = 0; g_sch = 0; g_scview.clear(); memset(&g_scvc, 0, sizeof g_scvc);
  T[0].vc.c[0]++;
  u64 base = T[0].h;
  for (size_t i = 0; i < g_pos && i < g_stack.size(); i++) if (g_stack[i].kind == K_DATA) base = mix(base + i, g_stack[i].cur);
  for (int i = 1; i <= n; i++) {
    Thread &t = T[i]; t.status = T_READY; t.fn = f[i - 1].f; t.arg = f[i - 1].arg;
    u16 keep = t.vc.c[i]; t.vc = T[0].vc; t.vc.c[i] = keep + 1; t.cur.clear(); t.relv.clear(); t.acqv.clear(); t.hasrel = false;
    memset(&t.relvc, 0, sizeof(VC)); memset(&t.acqvc, 0, sizeof(VC));
    t.h = mix(i, base); t.recs.clear(); t.pending_inv = -1; t.slice = 0; t.weak_next = false;
    co_prepare(t);
  }
  g_conc = true;
  resched();
  T[0].h = state_hash(0);
  g_conc = false;
  for (int i = 1; i <= n; i++) { vjoin(T[0].vc, T[i].vc); T[i].status = T_UNUSED; }
  T[0].vc.c[0]++;
}
u32 mc_choose(u32 n) {
  if (n <= 1) return 0;
  if (n > 255) internal_error("choose: too many");
  if (g_conc) sched_point();
  u32 k = choose(K_DATA, n, nullptr);
  if (g_conc) mix_thread(T[g_cur], mix(0xda7a, k));
  if (g_trace_on) tracef("T%d choose(%u) = %u\n", g_cur, n, k);
  return k;
}
void mc_desc(int on) { g_desc = on; }
// a scheduling point without a memory effect
void mc_point() { if (g_active && g_conc) { sched_point(); mix_thread(T[g_cur], 0x9017); } }
void mc_fail(const char *m, size_t n) { std::string s(m, n); violation("%s", s.c_str()); }
void mc_note(const char *m, size_t n) { if (g_trace_on) { g_trace += "T" + std::to_string(g_cur) + " # "; g_trace.append(m, n); g_trace += "\n"; } }
int mc_tracing() { return g_trace_on; }
void mc_panic_msg(const char *m, size_t n) { g_last_panic.assign(m, n); if (g_trace_on) { tracef("T%d panics: %s\n", g_cur, g_last_panic.c_str()); } }
void mc_last_panic(const char **m, size_t *n) { *m = g_last_panic.data(); *n = g_last_panic.size(); }
int mc_active() { return g_active; }
void mc_op_begin(u32 id) {
  if (g_conc) { stamp_inv(T[g_cur]); T[g_cur].pending_inv = id; return; }
  if (g_ops.size() <= id) g_ops.resize(id + 1, OpT());
  g_ops[id].inv = ++g_hist_ctr; g_ops[id].ivc = T[g_cur].vc; g_ops[id].tid = g_cur;
}
void mc_op_end(u32 id) {
  Thread &t = T[g_cur];
  if (g_conc) stamp_inv(t);
  if (g_ops.size() <= id) g_ops.resize(id + 1, OpT());
  OpT &o = g_ops[id];
  o.ret = ++g_hist_ctr; o.rclk = g_conc ? t.vc.c[g_cur] - 1 : t.vc.c[g_cur]; o.tid = g_cur; g_retset |= 1ull << (id & 63);
  if (g_conc) mix_thread(t, mix(0x4e7, id)); else T[0].vc.c[0]++;
}
// a returned before b was invoked: by real time if the execution was sequentially consistent,
// by happens-before if some load returned a non-latest value
static bool op_before(u32 a, u32 b) {
  OpT &x = g_ops[a], &y = g_ops[b];
  if (a == b || !x.ret || !y.inv) return false;
  if (x.tid == y.tid) return x.ret < y.inv;
  if (g_stale == 0) return x.ret < y.inv;
  return y.ivc.c[x.tid] >= x.rclk;
}
int mc_op_before(u32 a, u32 b) { return op_before(a, b); }

// ---- history of element-level events and the linearizability check
enum { E_INIT = 1, E_READ, E_NONE, E_SET, E_REPL, E_ADD, E_SWAP, E_LEN, E_NEQ, E_GETNONE, E_READ2, E_ATLEAST };
static volatile u64 g_lin_nodes;
struct Ev { u32 op; u8 kind, tid; bool any; u32 pos; u64 a, b; };
static std::vector<Ev> g_evs;
void mc_ev(u32 op, u32 kind, u32 pos, u64 a, u64 b) {
  g_evs.push_back(Ev{op, (u8)(kind & 63), (u8)g_cur, (kind & 64) != 0, pos, a, b});
  if (g_conc) mix_thread(T[g_cur], mix(mix(kind, pos), mix(a, b)));
}
static const u64 NOV = ~0ull; static const int MAXPOS = 32; static const u64 LIN_CAP = 2000000;
struct Lin {
  std::vector<Ev> ev; std::vector<u128> pred; std::unordered_set<u64> seen; u64 nodes = 0; bool gap = false; u128 full; int np = MAXPOS; // positions in use
  // does the event change the state; may it be applied
  bool apply(const Ev &e, u64 *st) {
    switch (e.kind) {
    case E_INIT: if (st[e.pos] != NOV) return false; st[e.pos] = e.a; return true;
    case E_READ: if (gap && st[e.pos] == NOV && e.a / 1000000 == 7) st[e.pos] = e.a; return st[e.pos] == e.a;
    case E_READ2: return st[e.pos] == e.a && st[e.b >> 32] == (u32)e.b;
    case E_NONE: return true; // judged below
    case E_SET: if (st[e.pos] == NOV && !gap) return false; st[e.pos] = e.a; return true;
    case E_REPL: if (st[e.pos] != e.b) return false; st[e.pos] = e.a; return true;
    case E_ADD: if (st[e.pos] == NOV || (e.b != NOV && st[e.pos] != e.b)) return false; st[e.pos] += e.a; return true;
    case E_SWAP: { if (st[e.pos] == NOV || st[e.a] == NOV) return false; u64 t = st[e.pos]; st[e.pos] = st[e.a]; st[e.a] = t; return true; }
    case E_LEN: case E_ATLEAST: if (gap) return true; for (u64 i = 0; i < e.a && i < MAXPOS; i++) if (st[i] == NOV) return false; return true;
    case E_NEQ: return st[e.pos] != e.a;
    case E_GETNONE: return true;
    }
    return false;
  }
  static bool readonly(const Ev &e) { return e.kind == E_READ || e.kind == E_READ2 || e.kind == E_NONE || e.kind == E_LEN || e.kind == E_ATLEAST || e.kind == E_NEQ || e.kind == E_GETNONE; }
  // could the events left at one position take place in some order, as far as this position is concerned
  bool order(const size_t *left, int n, u32 used, u64 *st) {
    if (used == (1u << n) - 1) return true;
    u128 wait = 0; for (int k = 0; k < n; k++) if (!(used >> k & 1)) wait |= (u128)1 << left[k];
    for (int k = 0; k < n; k++) if (!(used >> k & 1) && !(pred[left[k]] & wait)) {
      u64 old = st[ev[left[k]].pos]; bool ok = apply(ev[left[k]], st) && order(left, n, used | 1u << k, st);
      st[ev[left[k]].pos] = old; if (ok) return true;
    }
    return false;
  }
  bool feasible(u32 p, u128 done, u64 *st) {
    size_t left[5]; int n = 0;
    for (size_t i = 0; i < ev.size(); i++) if (!(done >> i & 1)) {
      Ev &e = ev[i];
      if (e.kind == E_LEN || e.kind == E_ATLEAST) continue;
      if (e.kind == E_SWAP ? e.pos == p || e.a == p : e.kind == E_READ2 && (e.pos == p || e.b >> 32 == p)) return true;
      if (e.kind != E_SWAP && e.kind != E_READ2 && e.pos == p) { if (n == 5) return true; left[n++] = i; }
    }
    return order(left, n, 0, st);
  }
  bool search(u128 done, u64 *st) {
    // a read which can take place now may take place now
    for (bool more = true; more;) {
      more = false;
      for (size_t i = 0; i < ev.size(); i++) if (!(done >> i & 1) && !(pred[i] & ~done) && readonly(ev[i]) && !(ev[i].kind == E_READ && st[ev[i].pos] == NOV) && apply(ev[i], st)) { done |= (u128)1 << i; more = true; }
    }
    if (done == full) return true;
    u64 key = mix((u64)done, (u64)(done >> 64));
    for (int i = 0; i < np; i++) key = mix(key, st[i]);
    if (!seen.insert(key).second) return false;
    g_lin_nodes = g_lin_nodes + 1;
    if (++nodes > LIN_CAP) return true; // undecided: not an alarm, and not counted as explored completely
    for (size_t i = 0; i < ev.size(); i++) if (!(done >> i & 1) && !(pred[i] & ~done)) {
      u64 s2[MAXPOS]; memcpy(s2, st, sizeof s2); u128 d2 = done | (u128)1 << i;
      if (apply(ev[i], s2) && feasible(ev[i].pos, d2, s2) && search(d2, s2)) return true;
    }
    return false;
  }
};
static void ev_str(std::string &o, const Ev &e) {
  static const char *nm[] = {"?", "push", "read", "absent", "set", "replace", "update", "swap", "len", "differs", "get-none", "read-pair", "at-least"};
  char b[160]; snprintf(b, sizeof b, "T%d op%u[%u,%u] %s pos=%u a=%ld b=%ld; ", e.tid, e.op, g_ops[e.op].inv, g_ops[e.op].ret, nm[e.kind], e.pos, (long)e.a, (long)e.b); o += b;
}
static u64 g_lin_checks;
// init: initial values of positions 0..n0
// gap: growth may have failed on purpose: values 7000000.. may appear at positions never announced
void mc_check_history(const u64 *init, u32 ninit, u32 n0, u32 gap) {
  g_lin_checks++;
  static Lin L; L.seen.clear(); L.nodes = 0; L.gap = gap; L.ev = g_evs;
  u64 st[MAXPOS]; for (int i = 0; i < MAXPOS; i++) st[i] = i < (int)ninit ? init[i] : NOV;
  size_t n = L.ev.size(); if (n > 127) internal_error("history too long");
  L.full = ((u128)1 << n) - 1; L.pred.assign(n, 0);
  u64 cov = 0; L.np = (int)ninit < MAXPOS ? ninit : MAXPOS;
  for (auto &e : L.ev) {
    if ((int)e.pos >= L.np) L.np = e.pos + 1;
    if (e.kind == E_SWAP && e.a < MAXPOS && (int)e.a >= L.np) L.np = e.a + 1;
    if (e.kind == E_READ2 && (e.b >> 32) < MAXPOS && (int)(e.b >> 32) >= L.np) L.np = (e.b >> 32) + 1;
    if (e.pos >= MAXPOS) violation("history: position %u was never handed out", e.pos);
    cov += mix(mix(e.op, e.kind), mix(e.pos, mix(e.a, e.b)));
  }
  g_outcomes.insert(cov);
  for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) {
    Ev &a = L.ev[i], &b = L.ev[k];
    // events of one operation keep their order, unless the operation visits the positions in any order
    if (a.op == b.op ? i < k && !a.any : op_before(a.op, b.op)) L.pred[k] |= (u128)1 << i;
  }
  auto prefix_done_before = [&](u64 upto, u32 op) { // positions 0..=upto all completed before op
    for (u64 i = n0; i <= upto; i++) { bool d = false; for (auto &e : g_evs) if (e.kind == E_INIT && e.pos == i && op_before(e.op, op)) d = true; if (!d) return false; }
    return true;
  };
  for (auto &e : g_evs) if (e.kind == E_LEN || e.kind == E_GETNONE) {
    u64 first = e.kind == E_LEN ? e.a : e.pos;
    if (first < MAXPOS && prefix_done_before(first, e.op)) {
      std::string o; for (auto &x : g_evs) ev_str(o, x);
      if (e.kind == E_LEN) violation("length %lu reported although position %lu and all earlier ones had been pushed before the call; history: %s", (unsigned long)e.a, (unsigned long)first, o.c_str());
      else violation("position %lu reported absent although it and all earlier ones had been pushed before the call; history: %s", (unsigned long)first, o.c_str());
    }
  }
  for (auto &e : g_evs) if (e.kind == E_LEN || e.kind == E_ATLEAST) for (auto &f : g_evs) if (f.kind == E_LEN && e.a > f.a && op_before(e.op, f.op)) {
    std::string o; for (auto &x : g_evs) ev_str(o, x);
    violation("length decreased from %lu to %lu; history: %s", (unsigned long)e.a, (unsigned long)f.a, o.c_str());
  }
  for (auto &e : g_evs) if (e.kind == E_LEN || e.kind == E_ATLEAST) for (auto &f : g_evs) if (f.kind == E_GETNONE && e.a > f.pos && op_before(e.op, f.op)) {
    std::string o; for (auto &x : g_evs) ev_str(o, x);
    violation("position %u reported absent after a length of %lu had been reported; history: %s", f.pos, (unsigned long)e.a, o.c_str());
  }
  // an accessor may miss a position only if nothing ordered before the call stored or saw a value there
  for (auto &e : g_evs) if (e.kind == E_NONE) {
    bool bad = e.pos < n0;
    for (auto &f : g_evs) if (op_before(f.op, e.op)) {
      if (f.pos == e.pos && f.kind != E_NONE && f.kind != E_GETNONE && f.kind != E_LEN && f.kind != E_ATLEAST && f.kind != E_NEQ) bad = true;
      if ((f.kind == E_LEN || f.kind == E_ATLEAST) && f.a > e.pos) bad = true;
    }
    if (bad) { std::string o; for (auto &x : g_evs) ev_str(o, x); violation("position %u reported absent although a value had been stored or seen there before the call; history: %s", e.pos, o.c_str()); }
  }
  bool ok = true;
  for (int p = 0; p < L.np; p++) ok = ok && L.feasible(p, 0, st);
  ok = ok && L.search(0, st);
  if (L.nodes > LIN_CAP) g_limited = true;
  if (!ok) {
    std::string o; for (auto &x : g_evs) ev_str(o, x);
    violation("history is not linearizable: %s", o.c_str());
  }
}
u64 mc_lin_checks() { return g_lin_checks; }
void mc_op_times(u32 id, u32 *inv, u32 *ret) { *inv = *ret = 0; if (id < g_ops.size()) { *inv = g_ops[id].inv; *ret = g_ops[id].ret; } }
void mc_cover(u64 h) { g_outcomes.insert(h); }
u64 mc_epoch() { if (g_conc) T[g_cur].stale_since = false; return g_epoch; }
void mc_block(u64 e) {
  if (!g_conc) { violation("wait for a condition that can no longer change"); }
  Thread &t = T[g_cur];
  if (g_epoch != e || t.stale_since) return;
  t.status = T_WAIT; resched();
}
void mc_progress() { g_work = 0; }
void mc_rest() {
  if (!g_conc) return;
  T[g_cur].status = T_REST; g_resting++;
  if (g_trace_on) tracef("-- thread %d pauses\n", g_cur);
  resched();
}
u32 mc_track_new() {
  if (!g_active) return 0;
  u32 c = g_track[g_cur].size(); g_track[g_cur].push_back(1); g_track_live++; g_track_news++;
  return (u32)g_cur << 20 | (c + 1);
}
static u8 *track(u32 id) { u32 t = id >> 20, c = (id & 0xfffff) - 1; if (t >= MAXT || c >= g_track[t].size()) return nullptr; return &g_track[t][c]; }
void mc_track_drop(u32 id) {
  if (!g_active) return;
  u8 *s = track(id); if (!s) violation("drop of something that is not a value (id %x)", id);
  if (*s != 1) violation("value dropped twice (id %x)", id);
  *s = 2; g_track_live--;
}
void mc_track_use(u32 id) {
  if (!g_active) return;
  u8 *s = track(id); if (!s) violation("use of something that is not a value (id %x)", id);
  if (*s != 1) violation("value used after it was dropped (id %x)", id);
}
long mc_track_live() { return g_track_live; }
u64 mc_track_created() { return g_track_news; }
int mc_tid() { return g_cur; }
} // extern C

// ---------------------------------------------------------------- explorer
static void clear_events() { g_evs.clear(); }
static void reset_exec() {
  for (int i = 0; i < MAXT; i++) {
    Thread &t = T[i];
    if (t.bump > t.bump_lo) memset((void *)cell(t.bump_lo), 0, (t.bump - t.bump_lo + 64) * sizeof(Cell));
    if (t.top < t.bump_hi) memset((void *)cell(t.top), 0, (t.bump_hi - t.top) * sizeof(Cell));
    t.top = t.bump_hi; t.bump = t.bump_lo; t.status = T_UNUSED; memset(&t.vc, 0, sizeof t.vc); t.vc.c[i] = 1; t.h = 0; t.recs.clear();
    t.pending_inv = -1; t.track_ctr = 0; t.slice = 0; t.weak_next = false; g_track[i].clear();
  }
  for (size_t i = g_undo.size(); i-- > 0;) memcpy((void *)g_undo[i].first, g_undo[i].second.data(), 8);
  g_undo.clear(); g_undo_seen.clear();
  g_allocs.clear(); g_track_live = 0; g_track_news = 0; g_locmap.clear(); g_nlocs = 0; g_loch = g_sch = g_histh = 0; g_epoch = 0;
  g_ops.clear(); clear_events(); g_hist_ctr = 0; g_retset = 0; g_step = 0; g_rest_step = 0; g_resting = 0; g_work = 0; g_desc = false; g_pre = g_stale = 0; g_pos = 0; g_conc = false; g_cur = 0;
  g_has_viol = g_pruned = g_done_exec = false; g_viol.clear(); g_last_panic.clear();
}
static volatile sig_atomic_t g_sig;
static void on_signal(int s, siginfo_t *si, void *) {
  if (!g_active) { signal(s, SIG_DFL); raise(s); return; }
  g_sig = s; (void)si;
  siglongjmp(g_crash_jb, 1);
}
// watchdog on consumed processor time: code that neither accesses memory nor ends
static volatile u64 g_serial;
static void on_tick(int, siginfo_t *, void *) {
  static u64 last[4]; static int same;
  u64 cur[4] = {g_serial, (u64)(g_step + g_rest_step), g_work, g_lin_nodes};
  if (!g_active || memcmp(last, cur, sizeof cur)) { memcpy(last, cur, sizeof cur); same = 0; return; }
  if (++same < 3) return;
  same = 0; g_sig = SIGVTALRM;
  siglongjmp(g_crash_jb, 1);
}
static bool g_crashed;
static void run_once(void (*fn)(void *), void *arg) {
  reset_exec(); g_serial++;
  T[0].fn = fn; T[0].arg = arg; T[0].status = T_READY;
  memcpy(g_tls_init, g_tls, g_tls_sz);
  for (int i = 0; i < MAXT; i++) memcpy(g_tls_save[i], g_tls, g_tls_sz);
  co_prepare(T[0]);
  g_crashed = false;
  if (sigsetjmp(g_crash_jb, 1) == 0) {
    g_active = true;
    mc_switch(&g_expl_sp, T[0].sp);
  } else {
    g_crashed = true; g_has_viol = true;
    if (g_sig == SIGVTALRM) g_viol = "no termination: the operation goes on without accessing memory";
    else g_viol = std::string("crash: signal ") + std::to_string((int)g_sig) + (g_last_panic.empty() ? "" : " (" + g_last_panic + ")");
  }
  memcpy(g_tls, g_tls_init, g_tls_sz);
  g_active = false;
}
static bool advance() {
  while (!g_stack.empty()) {
    Choice &c = g_stack.back();
    if (c.cur + 1 < c.n) { c.cur++; return true; }
    g_stack.pop_back();
  }
  return false;
}

extern "C" {
struct McCfg { u32 pmax, smax; double seconds; u32 cache; u32 pmin; };
struct McRes {
  u64 states, transitions, executions, pruned, outcomes, stale_reads, spin_blocks, max_depth, branch_points;
  int completed_p; int exhausted; int timeout; int violation; int limited; double wall;
};
const char *mc_violation_text() { return g_viol.c_str(); }
const char *mc_trace_text() { return g_trace.c_str(); }
static std::string g_choices_text;
const char *mc_choices_text() { return g_choices_text.c_str(); }

void mc_setup() {
  static bool done = false; if (done) return; done = true;
  void *p = mmap((void *)ARENA_BASE, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void *)ARENA_BASE) internal_error("mmap arena");
  p = mmap((void *)SHADOW_BASE, ARENA_SZ * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void *)SHADOW_BASE) internal_error("mmap shadow");
  uintptr_t lo = ARENA_BASE;
  for (int i = 0; i < MAXT; i++) {
    char *s = (char *)mmap((void *)(0x620000000000ull + i * 0x10000000ull), STACK_SZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (s == MAP_FAILED) internal_error("mmap stack");
    mprotect(s, 4096, PROT_NONE);
    T[i].stack = s + 4096; T[i].bump_lo = T[i].bump = lo; lo += i == 0 ? ARENA_MAIN : ARENA_W; T[i].bump_hi = T[i].top = lo;
  }
  dl_iterate_phdr(tls_phdr, nullptr);
  if (g_tls_sz > sizeof g_tls_init) internal_error("thread-local storage too large");
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 65536; ss.ss_sp = malloc(65536); sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
  sa.sa_sigaction = on_tick; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr);
  struct itimerval tv = {{3, 0}, {3, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

void mc_explore(const McCfg *cfg, void (*fn)(void *), void *arg, McRes *res) {
  mc_setup(); memset(res, 0, sizeof *res); res->completed_p = -1;
  double t0 = now(); g_deadline = cfg->seconds > 0 ? t0 + cfg->seconds : 0;
  g_sum_states = g_sum_trans = g_sum_exec = g_sum_pruned = 0; g_stale_reads = g_spin_blocks = g_max_depth = g_multi_choices = 0; g_outcomes.clear(); g_timeout = false;
  g_cache_on = cfg->cache;
  // iterative deepening over the preemption bound; the bound on stale reads follows it
  for (u32 p = cfg->pmin; p <= cfg->pmax; p++) {
    g_P = p; g_S = cfg->smax < p + 1 ? (int)cfg->smax : (int)(p + 1); if (p == cfg->pmax) g_S = cfg->smax;
    g_cache.reset(); g_stack.clear(); g_limited = false;
    u64 ex0 = g_sum_exec, limited = 0; (void)limited;
    bool stop = false;
    for (;;) {
      run_once(fn, arg);
      if (g_timeout) { stop = true; break; }
      if (g_has_viol) {
        res->violation = 1; g_sum_exec++;
        std::string v = g_viol; std::vector<Choice> st(g_stack.begin(), g_stack.end());
        // replay twice with tracing; identical observations are required
        std::string tr[2]; bool ok = true;
        for (int k = 0; k < 2; k++) {
          g_stack = st; g_trace.clear(); g_trace_on = true; bool c = g_cache_on; g_cache_on = false; double dl = g_deadline; g_deadline = 0;
          run_once(fn, arg);
          g_trace_on = false; g_cache_on = c; g_deadline = dl;
          if (!g_has_viol || g_viol != v) ok = false;
          tr[k] = g_trace;
        }
        if (!ok || tr[0] != tr[1]) { fprintf(stderr, "first: %s\nreplay: %s\n", v.c_str(), g_viol.c_str()); internal_error("violation did not replay identically"); }
        g_viol = v; g_trace = tr[0];
        g_choices_text.clear();
        for (auto &c : st) { char b[64]; snprintf(b, sizeof b, "%c%u/%u ", "?srdw"[c.kind], c.cur, c.n); g_choices_text += b; }
        stop = true; break;
      }
      if (g_pruned) g_sum_pruned++;
      else { g_sum_exec++; }
      if (g_stack.size() > g_max_depth) g_max_depth = g_stack.size();
      if (g_deadline > 0 && now() > g_deadline) { g_timeout = true; }
      bool more = advance();
      if (!more) break;
      if (g_timeout) { stop = true; break; }
    }
    (void)ex0;
    if (stop) break;
    res->completed_p = p;
    if (g_timeout) break;
  }
  res->states = g_sum_states; res->transitions = g_sum_trans; res->executions = g_sum_exec; res->pruned = g_sum_pruned; res->outcomes = g_outcomes.size();
  res->stale_reads = g_stale_reads; res->spin_blocks = g_spin_blocks; res->max_depth = g_max_depth; res->branch_points = g_multi_choices; res->timeout = g_timeout;
  res->limited = g_limited;
  res->exhausted = !g_timeout && !res->violation; res->wall = now() - t0;
}

// replay a recorded choice sequence ("s0/3 r1/2 d4/9 ...") with tracing
void mc_replay(const char *choices, u32 p, u32 sb, void (*fn)(void *), void *arg, McRes *res) {
  mc_setup(); memset(res, 0, sizeof *res); g_deadline = 0; g_P = p; g_S = sb; g_cache_on = false; g_stack.clear();
  for (const char *c = choices; *c;) {
    while (*c == ' ' || *c == '\n') c++;
    if (!*c) break;
    char k; unsigned a, b; int len = 0;
    if (sscanf(c, "%c%u/%u%n", &k, &a, &b, &len) != 3) internal_error("bad choice list");
    Choice ch; memset(&ch, 0, sizeof ch); ch.kind = k == 's' ? K_SCHED : k == 'r' ? K_READ : k == 'd' ? K_DATA : K_WEAK; ch.cur = a; ch.n = b; ch.hash = 0;
    g_stack.push_back(ch); c += len;
  }
  g_trace.clear(); g_trace_on = true;
  run_once(fn, arg);
  g_trace_on = false; res->violation = g_has_viol; res->executions = 1;
}
}
