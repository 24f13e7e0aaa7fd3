#include <sys/single_threaded.h>
#include "fiber.hpp"
#include "runner.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/auxv.h>
#include <elf.h>
#include <link.h>

namespace sim {
bool g_live = false;
Strategy g_strategy;
#ifdef NDEBUG
bool g_release = true;
#else
bool g_release = false;
#endif
#ifdef ECL_DISABLE_EXCEPTIONS
const char* g_build = "noexc";
#else
const char* g_build = g_release ? "release" : "debug";
#endif

// ------------------------------------------------------------------ PRNG and tapes
struct Rng {
  u64 s[2];
  static u64 mix(u64& x) { x += 0x9E3779B97F4A7C15ull; u64 z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  void seed(u64 x) { s[0] = mix(x); s[1] = mix(x); if (!s[0] && !s[1]) s[0] = 1; }
  u64 next() { u64 a = s[0], b = s[1]; u64 r = a + b; b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27); return r; }
};
static Rng g_rng[NSTREAM];
static u64 g_idx[NSTREAM];
static bool g_replay = false;
static Tape* g_tape = nullptr;              // replay source
static size_t g_tpos[NSTREAM];
static bool g_record = false;
static Tape* g_rec = nullptr;

static u64 g_hash = 1469598103934665603ull;
static u64 g_shash = 1469598103934665603ull;
static inline void hmix(u64& h, u64 v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }

static u64 tape_get(Stream s, u64 idx) {
  if (s == GEN) return idx < g_tape->gen.size() ? g_tape->gen[idx] : 0;
  std::vector<std::pair<u64, u64>>& v = g_tape->sp[s];
  size_t& p = g_tpos[s];
  while (p < v.size() && v[p].first < idx) p++;
  if (p < v.size() && v[p].first == idx) return v[p].second;
  return 0;
}
static inline void rec(Stream s, u64 idx, u64 val) {
  if (!g_record) return;
  if (s == GEN) g_rec->gen.push_back(val);
  else if (val) g_rec->sp[s].push_back(std::make_pair(idx, val));
}
u64 choose(Stream s, u64 n) {
  if (n <= 1) return 0;
  Guard g;
  u64 idx = g_idx[s]++;
  u64 v;
  if (g_replay) { v = tape_get(s, idx); if (v >= n) v = v % n; }
  else v = g_rng[s].next() % n;
  rec(s, idx, v);
  return v;
}
bool coin(Stream s, unsigned num, unsigned den) {
  if (num == 0) return false;
  Guard g;
  u64 idx = g_idx[s]++;
  u64 v;
  if (g_replay) v = tape_get(s, idx) ? 1 : 0;
  else v = (g_rng[s].next() % den) < num ? 1 : 0;
  rec(s, idx, v);
  return v;
}
u64 gen_range(u64 lo, u64 hi) { return lo + choose(GEN, hi - lo + 1); }
u64 gen_weighted(const std::vector<unsigned>& w) {
  Guard g;
  u64 tot = 0;
  for (unsigned x : w) tot += x;
  // recorded as the chosen index so that 0 is the simplest
  u64 idx = g_idx[GEN]++;
  u64 v = 0;
  if (g_replay) { v = tape_get(GEN, idx) % w.size(); while (w[v] == 0) v = (v + 1) % w.size(); }
  else { u64 r = g_rng[GEN].next() % tot; while (r >= w[v]) { r -= w[v]; v++; } }
  rec(GEN, idx, v);
  return v;
}
u64 env(u64 n) { return choose(ENV, n); }

// ------------------------------------------------------------------ faults
struct FaultKind { unsigned num, den; int fired; };
static std::map<std::string, FaultKind>* g_faults;
static int g_fault_budget = 1 << 30, g_fired = 0;
static bool g_faulty = false;
bool faulty() { return g_faulty; }
void enable_fault(const char* k, unsigned num, unsigned den) { Guard g; FaultKind f = {num, den, 0}; (*g_faults)[k] = f; }
void disable_faults() { Guard g; for (auto& f : *g_faults) f.second.num = 0; }
void set_fault_budget(int n) { g_fault_budget = n; }
int faults_fired() { return g_fired; }
int fault_fired(const char* k) { Guard g; auto it = g_faults->find(k); return it == g_faults->end() ? 0 : it->second.fired; }
static void bump(Counter* c, int max, const char* name) {
  for (int i = 0; i < max; i++) {
    if (!c[i].name[0]) { strncpy(c[i].name, name, sizeof(c[i].name) - 1); c[i].n = 1; return; }
    if (!strcmp(c[i].name, name)) { c[i].n++; return; }
  }
}
void note_fault(const char* k) {
  Guard g;
  g_fired++;
  (*g_faults)[k].fired++;
  bump(g_result->faults, MAXCTR, k);
  log("FAULT %s", k);
}
bool fault_p(const char* k, unsigned num, unsigned den) {
  Guard g;
  auto it = g_faults->find(k);
  if (it == g_faults->end() || it->second.num == 0) return false;
  if (!coin(FAULT, num, den)) return false;
  if (g_fired >= g_fault_budget) return false;
  note_fault(k);
  if (g_cur) g_cur->faults++;
  return true;
}
int my_faults() { return g_cur->faults; }
bool fault(const char* k) {
  Guard g;
  auto it = g_faults->find(k);
  if (it == g_faults->end() || it->second.num == 0) return false;
  return fault_p(k, it->second.num, it->second.den);
}
void probe(const char* n) { Guard g; bump(g_result->probes, MAXCTR, n); }
void nontrivial() { g_result->nontrivial = 1; }
static std::set<std::string>* g_known;
bool known(const char* id) { Guard g; return g_known && g_known->count(id); }
void set_known(const std::string& s) { if (!g_known) g_known = new std::set<std::string>; g_known->insert(s); }
void softfail_known(const char* id) { Guard g; bump(g_result->known, MAXCTR, id); log("KNOWN %s", id); }

// ------------------------------------------------------------------ log
static bool g_trace = false;
static std::string* g_trace_text;
static u64 g_steps = 0, g_step_cap = 400000;
static u64 g_now = 0, g_t0 = 0;
static i64 g_real_off = 0;
static u64 g_cpu = 0;
static inline void stack_check();
void log(const char* fmt, ...) {
  Guard g;
  stack_check();
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  for (int i = 0; i < n; i++) hmix(g_hash, (unsigned char)buf[i]);
  hmix(g_hash, g_cur ? g_cur->id : 0);
  if (g_trace) {
    char h[96];
    snprintf(h, sizeof h, "[t=%llu.%09llu s=%llu %s] ", (unsigned long long)(g_now / 1000000000ull), (unsigned long long)(g_now % 1000000000ull), (unsigned long long)g_steps, g_cur ? g_cur->name.c_str() : "-");
    if (g_trace_text->size() < TRACE_MAX - 1024) { g_trace_text->append(h); g_trace_text->append(buf); g_trace_text->push_back('\n'); }
  }
}
u64 steps() { return g_steps; }

static void publish(int status) __attribute__((noreturn));
static void publish(int status) {
  g_result->status = status;
  g_result->hash = g_hash;
  g_result->shash = g_shash;
  g_result->steps = g_steps;
  g_result->simtime = g_now - g_t0;
  g_result->nfired = g_fired;
  if (g_record && g_shared_out) {
    SharedOut* o = g_shared_out;
    o->ngen = std::min<size_t>(g_rec->gen.size(), TAPE_MAX);
    for (size_t i = 0; i < o->ngen; i++) o->gen[i] = g_rec->gen[i];
    for (int s = 1; s < NSTREAM; s++) {
      o->nsp[s] = std::min<size_t>(g_rec->sp[s].size(), TAPE_MAX);
      for (size_t i = 0; i < o->nsp[s]; i++) { o->sp[s][i][0] = g_rec->sp[s][i].first; o->sp[s][i][1] = g_rec->sp[s][i].second; }
    }
    size_t t = std::min<size_t>(g_trace_text->size(), TRACE_MAX - 1);
    memcpy(o->trace, g_trace_text->data(), t);
    o->trace[t] = 0;
  }
  _exit(0);
}
void fail(const char* cls, const char* fmt, ...) {
  g_live = false;
  char buf[900];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  log("VIOLATION %s: %s", cls, buf);
  strncpy(g_result->cls, cls, sizeof(g_result->cls) - 1);
  strncpy(g_result->msg, buf, sizeof(g_result->msg) - 1);
  publish(ST_VIOLATION);
}
void finish_run() { g_live = false; log("END"); publish(ST_OK); }

// ------------------------------------------------------------------ events and time
struct Ev { u64 t, seq; std::function<void()> f; };
struct EvLess { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::vector<Ev>* g_ev;
static u64 g_evseq = 0;
u64 now() { return g_now; }
i64 realtime() { return (i64)g_now + g_real_off; }
u64 cpu_time() { return g_cpu; }
static bool g_dirty = true;
void touch() { g_dirty = true; }
i64 to_boundary() { i64 f = (realtime() + (i64)choose(ENV, 10) * (i64)g_strategy.step_ns) % 1000000000ll; return 1000000000ll - f; }
void jump_realtime(i64 d) { g_real_off += d; g_dirty = true; log("realtime jump %lld", (long long)d); }
void advance(u64 ns) { g_now += ns; g_cpu += ns; g_dirty = true; }
void at(u64 t, std::function<void()> f) {
  Guard g;
  Ev e = {t < g_now ? g_now : t, g_evseq++, f};
  g_ev->push_back(e);
  std::push_heap(g_ev->begin(), g_ev->end(), EvLess());
}
void after(u64 d, std::function<void()> f) { at(g_now + d, f); }
static void run_events() {
  while (!g_ev->empty() && g_ev->front().t <= g_now) {
    std::pop_heap(g_ev->begin(), g_ev->end(), EvLess());
    Ev e = g_ev->back();
    g_ev->pop_back();
    e.f();
    g_dirty = true;
  }
}

// ------------------------------------------------------------------ fibers
Fiber* g_cur = nullptr;
std::vector<Fiber*>* g_fibers;
static char* g_tls_base;
static size_t g_tls_size;
static std::vector<char>* g_tls_image;
static std::vector<Fiber*>* g_ready;
static u64 g_run_len = 0;
static std::function<void(const std::string&)>* g_deadlock;
static std::function<void()>* g_capf;
static std::vector<std::pair<std::string, bool>>* g_procs;
static std::vector<std::function<void(int)>>* g_death;
static u64 g_next_deadline = INF;
static std::vector<u64>* g_pct_points;
static u64 g_pct_low = 1u << 20;

void set_deadlock_handler(std::function<void(const std::string&)> f) { Guard g; *g_deadlock = f; }
void set_stepcap_handler(std::function<void()> f) { Guard g; *g_capf = f; }
void set_step_cap(u64 n) { g_step_cap = n; }

extern "C" void sim_switch(void** save_sp, void* new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
.globl sim_entry
.type sim_entry,@function
sim_entry:
  .cfi_startproc
  .cfi_undefined rip
  movq %r12, %rdi
  call sim_fiber_main
  ud2
  .cfi_endproc
.size sim_entry,.-sim_entry
)");
extern "C" void sim_entry();

static void switch_to(Fiber* f) {
  Fiber* old = g_cur;
  if (f == old) return;
  hmix(g_shash, (u64)f->id * 1000003 + (u64)(uintptr_t)0);
  for (const char* p = old->what; *p; ++p) hmix(g_shash, (unsigned char)*p);
  hmix(g_hash, 7777 + f->id);
  g_result->switches++;
  old->tls.assign(g_tls_base, g_tls_base + g_tls_size);
  memcpy(g_tls_base, f->tls.data(), g_tls_size);
  g_cur = f;
  g_run_len = 0;
  sim_switch(&old->sp, f->sp);
}

static void scan() {
  // recompute who could run
  g_ready->clear();
  g_next_deadline = INF;
  for (Fiber* f : *g_fibers) {
    if (f->state == DONE || f->dead) continue;
    if (f->state == RUNNABLE) { g_ready->push_back(f); continue; }
    bool r = false;
    if (f->ready && (*f->ready)()) r = true;
    else if (f->opts.mono_deadline <= g_now) r = true;
    else if (f->opts.real_deadline <= realtime()) r = true;
    else if (f->opts.interruptible && (f->intr || f->intr_at <= g_now)) r = true;
    else if (f->opts.cancellable && f->cancel_requested && !f->cancel_disabled) r = true;
    if (r) g_ready->push_back(f);
    else {
      u64 d = f->opts.mono_deadline;
      if (f->opts.real_deadline != INT64_MAX) {
        i64 m = f->opts.real_deadline - g_real_off;
        u64 um = m < 0 ? 0 : (u64)m;
        d = std::min(d, um);
      }
      if (f->opts.interruptible) d = std::min(d, f->intr_at);
      g_next_deadline = std::min(g_next_deadline, d);
    }
  }
  g_dirty = false;
}

// the last 64 kB of a simulated stack are the simulator's own: a recursion without end is reported where
// it enters them, at the same event whether or not the run is being recorded
static inline void stack_check() {
  if (!g_cur || !g_cur->stack) return;
  char* fp = (char*)__builtin_frame_address(0);
  if (fp >= g_cur->stack && fp < g_cur->stack + 65536 && !g_cur->overflowed) {
    g_cur->overflowed = true;
    fail("crash", "stack overflow in %s: a recursion without end", g_cur->name.c_str());
  }
}
static void cap_check() {
  stack_check();
  if (++g_steps > g_step_cap) {
    g_steps = g_step_cap;
    if (*g_capf) { auto f = *g_capf; *g_capf = nullptr; g_step_cap += 1000000; f(); }
    fail("no-progress", "step budget %llu spent without finishing; %s", (unsigned long long)g_step_cap, describe_fibers().c_str());
  }
}

static Fiber* pick_other(bool cur_ok, unsigned num, unsigned den) {
  // decide who runs next; value 0 = stay (or lowest id when the current one cannot run)
  std::vector<Fiber*>& R = *g_ready;
  size_t n = R.size();
  if (cur_ok && n == 1) return g_cur;
  u64 idx;
  u64 v;
  size_t others = cur_ok ? n - 1 : n;
  if (cur_ok && g_run_len > 20000) {  // forced fairness, deterministic
    g_run_len = 0;
    size_t i = 0;
    while (i < n && R[i] != g_cur) i++;
    return R[(i + 1) % n];
  }
  idx = g_idx[SCHED]++;
  if (g_replay) {
    v = tape_get(SCHED, idx);
    if (cur_ok) { if (v) v = 1 + (v - 1) % others; }
    else v = v % others;
  } else if (g_strategy.kind == 1) {
    if (!g_pct_points->empty() && g_steps >= g_pct_points->back()) { g_pct_points->pop_back(); g_cur->pct = --g_pct_low; }
    Fiber* best = nullptr;
    size_t bi = 0, k = 0;
    for (size_t i = 0; i < n; i++) {
      if (cur_ok && R[i] == g_cur) { if (!best || g_cur->pct > best->pct) { best = g_cur; } continue; }
      if (!best || R[i]->pct > best->pct) { best = R[i]; bi = k; }
      k++;
    }
    if (best == g_cur) v = 0; else v = cur_ok ? bi + 1 : bi;
  } else {
    if (cur_ok) {
      if ((g_rng[SCHED].next() >> 11) % den < num) v = 1 + g_rng[SCHED].next() % others; else v = 0;
    } else v = g_rng[SCHED].next() % others;
  }
  rec(SCHED, idx, v);
  if (cur_ok) {
    if (v == 0) return g_cur;
    size_t k = 0;
    for (size_t i = 0; i < n; i++) { if (R[i] == g_cur) continue; if (++k == v) return R[i]; }
    return g_cur;
  }
  return R[v];
}

// current fiber cannot continue (blocked or done): run somebody else
static void run_someone() {
  for (;;) {
    cap_check();
    run_events();
    scan();
    if (!g_ready->empty()) break;
    u64 t = g_next_deadline;
    if (!g_ev->empty()) t = std::min(t, g_ev->front().t);
    if (t == INF) {
      std::string d = describe_fibers();
      if (*g_deadlock) { (*g_deadlock)(d); }
      fail("deadlock", "no simulated thread can run and no timer is pending: %s", d.c_str());
    }
    if (t > g_now) g_now = t; else g_now++;
    g_dirty = true;
  }
  bool cur_ok = false;
  for (Fiber* f : *g_ready) if (f == g_cur) cur_ok = true;
  // A blocked fiber that became ready again competes like the others.
  Fiber* f = pick_other(false, 1, 1);
  (void)cur_ok;
  switch_to(f);
}

static inline void sched(unsigned num, unsigned den) {
  cap_check();
  if (!g_ev->empty() && g_ev->front().t <= g_now) run_events();
  if (g_cur->dead) { run_someone(); }
  if (g_dirty || g_now >= g_next_deadline) scan();
  g_run_len++;
  if (g_ready->size() <= 1) return;
  Fiber* f = pick_other(true, num, den);
  if (f != g_cur) switch_to(f);
}

void yield_point(const char* what) {
  if (!g_cur) return;
  Guard g;
  g_cur->what = what;
  g_now += g_strategy.step_ns;
  g_cpu += g_strategy.step_ns;
  g_dirty = true;
  sched(g_strategy.call_num, g_strategy.call_den);
}

// called from the memory-access hooks with g_live == true
void mem_point() {
  g_live = false;
  g_cur->what = "mem";
  sched(g_strategy.mem_num, g_strategy.mem_den);
  g_live = true;
}

WaitResult wait(const char* what, std::function<bool()> ready, const WaitOpts& o) { WaitResult r = kwait(what, ready, o); Guard g; race_sync_all(); return r; }
WaitResult kwait(const char* what, std::function<bool()> ready, const WaitOpts& o) {
  Guard g;
  Fiber* f = g_cur;
  for (;;) {
    if (o.cancellable && f->cancel_requested && !f->cancel_disabled && !f->unwinding) {
      f->state = RUNNABLE; f->ready = nullptr; f->unwinding = true; f->cancelled = true;
      g_dirty = true;
      log("cancelled in %s", what);
      throw detail::CancelUnwind();
    }
    if (ready()) { f->intr_at = INF; f->state = RUNNABLE; f->ready = nullptr; g_dirty = true; return WOKEN; }
    bool to = o.mono_deadline <= g_now || o.real_deadline <= realtime();
    bool in = o.interruptible && (f->intr || f->intr_at <= g_now);
    if (in) { f->intr = false; f->intr_at = INF; f->state = RUNNABLE; f->ready = nullptr; g_dirty = true; return INTERRUPTED; }
    if (to) { f->intr_at = INF; f->state = RUNNABLE; f->ready = nullptr; g_dirty = true; return TIMEDOUT; }
    f->state = BLOCKED;
    f->what = what;
    f->ready = &ready;
    f->opts = o;
    g_dirty = true;
    run_someone();
    f->ready = nullptr;
  }
}
void sleep_ns(u64 ns) {
  Guard g;
  WaitOpts o;
  o.mono_deadline = g_now + ns;
  kwait("sleep", [] { return false; }, o);
}

extern "C" void sim_fiber_main(Fiber* f) noexcept {
  // uncaught exceptions reach the noexcept boundary: std::terminate, as for a real thread
  try {
    g_live = true;
    f->fn();
    g_live = false;
  } catch (detail::CancelUnwind&) {
    g_live = false;
  }
  g_live = false;
  f->state = DONE;
  f->what = "exit";
  g_dirty = true;
  log("thread %s finished", f->name.c_str());
  run_someone();
  abort();
}

unsigned char arena_pattern();
static const size_t STACK_FILL = 24 * 1024;
Fiber* new_fiber(const char* name, std::function<void()> fn, int proc) {
  Guard g;
  Fiber* f = new Fiber;
  f->id = (int)g_fibers->size();
  f->name = name;
  f->proc = proc;
  f->fn = fn;
  if (g_fibers->size() >= 200) fail("sim-limit", "too many simulated threads");
  f->stack_size = 384 * 1024;
  f->stack = (char*)STACK_BASE + (size_t)f->id * (f->stack_size + 65536) + 65536;
  if (mprotect(f->stack, f->stack_size, PROT_READ | PROT_WRITE)) abort();
  if (arena_pattern()) memset(f->stack + f->stack_size - STACK_FILL, arena_pattern(), STACK_FILL);   // variables without a value are not zero
  f->tls = *g_tls_image;
  u64* sp = (u64*)(f->stack + f->stack_size);
  sp -= 8;                         // keep 16-byte alignment at entry
  *--sp = (u64)(void*)sim_entry;   // ret target
  *--sp = 0;                       // rbp
  *--sp = 0;                       // rbx
  *--sp = (u64)f;                  // r12
  *--sp = 0; *--sp = 0; *--sp = 0; // r13..r15
  --sp;
  unsigned mx; unsigned short cw;
  asm volatile("stmxcsr %0" : "=m"(mx));
  asm volatile("fnstcw %0" : "=m"(cw));
  ((unsigned*)sp)[0] = mx;
  ((unsigned*)sp)[1] = cw;
  f->sp = sp;
  f->pct = (1u << 20) + 1 + (g_replay ? 0 : g_rng[SCHED].next() % 1000000);
  g_fibers->push_back(f);
  g_dirty = true;
  race_fork(f->id);
  return f;
}
Fiber* fiber(int id) { return (*g_fibers)[id]; }
int spawn(const char* name, std::function<void()> fn, int p) { Guard g; Fiber* f = new_fiber(name, fn, p < 0 ? g_cur->proc : p); return f->id; }
bool finished(int id) { return fiber(id)->state == DONE || fiber(id)->dead; }
bool blocked(int id) { return fiber(id)->state == BLOCKED; }
void join_fiber(int id) { Guard g; Fiber* f = fiber(id); kwait("join", [f] { return f->state == DONE || f->dead; }); race_join(id); }
int self() { return g_cur->id; }
int proc() { return g_cur ? g_cur->proc : 0; }
const char* fname(int id) { return fiber(id)->name.c_str(); }
void set_name(int id, const char* n) { Guard g; fiber(id)->name = n; }
int new_proc(const char* n) { Guard g; g_procs->push_back(std::make_pair(std::string(n), true)); return (int)g_procs->size() - 1; }
int proc_count() { return (int)g_procs->size(); }
bool proc_alive(int p) { return (*g_procs)[p].second; }
void on_proc_death(std::function<void(int)> f) { Guard g; g_death->push_back(f); }
void kill_proc(int p) {
  Guard g;
  if (!(*g_procs)[p].second) return;
  log("process %s killed", (*g_procs)[p].first.c_str());
  (*g_procs)[p].second = false;
  for (Fiber* f : *g_fibers) if (f->proc == p) f->dead = true;
  for (auto& d : *g_death) d(p);
  g_dirty = true;
  if (g_cur->dead) { run_someone(); abort(); }
}
int live_fibers() { int n = 0; for (Fiber* f : *g_fibers) if (f != g_cur && f->state != DONE && !f->dead) n++; return n; }
std::string describe_fibers() {
  std::string s;
  for (Fiber* f : *g_fibers) {
    if (f->state == DONE || f->dead) continue;
    if (!s.empty()) s += ", ";
    s += f->name + (f->state == BLOCKED ? " blocked in " : " at ") + f->what;
  }
  return s;
}
namespace detail {
void cancellation_point() {
  Guard g;
  Fiber* f = g_cur;
  if (f->cancel_requested && !f->cancel_disabled && !f->unwinding) { f->unwinding = true; f->cancelled = true; log("cancelled"); throw CancelUnwind(); }
}
}

// ------------------------------------------------------------------ run set-up
static const char* g_term_cls = "terminate";
void set_terminate_class(const char* c) { g_term_cls = c; }
static void on_terminate() {
  g_live = false;
  std::type_info* t = abi::__cxa_current_exception_type();
  if (t) {
    int st = 0;
    const char* n = t->name();
    char* d = abi::__cxa_demangle(n, 0, 0, &st);
    std::string what;
    try { throw; } catch (std::exception& e) { what = e.what(); } catch (...) {}
    for (char& c : what) if (c == '\n') c = ' ';
    fail(g_term_cls, "std::terminate called in %s: uncaught %s %s", g_cur ? g_cur->name.c_str() : "-", d ? d : n, what.c_str());
  }
  fail(g_term_cls, "std::terminate called in %s without an active exception", g_cur ? g_cur->name.c_str() : "-");
}
static void on_crash(int sig, siginfo_t* si, void*) {
  g_live = false;
  signal(sig, SIG_DFL);
  char cls[32];
  snprintf(cls, sizeof cls, "crash");
  fail(cls, "signal %d (%s) address %p in %s at %s", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL", si ? si->si_addr : nullptr, g_cur ? g_cur->name.c_str() : "-", g_cur ? g_cur->what : "");
}

void arena_init();
void arena_run_init(unsigned char pattern);
void vk_init();

void zygote_init() {
  __libc_single_threaded = 0;           // shared_ptr must use its multi-threaded (atomic) path
  try { throw 1; } catch (int) {}       // one-time allocations of the unwinder happen here
  arena_init();
  race_init();
  // PT_TLS of the (static) executable
  const ElfW(Phdr)* ph = (const ElfW(Phdr)*)getauxval(AT_PHDR);
  size_t n = getauxval(AT_PHNUM);
  for (size_t i = 0; i < n; i++)
    if (ph[i].p_type == PT_TLS) {
      size_t al = ph[i].p_align ? ph[i].p_align : 1;
      g_tls_size = (ph[i].p_memsz + al - 1) / al * al;
    }
  char* tcb;
  asm("movq %%fs:0, %0" : "=r"(tcb));
  g_tls_base = tcb - g_tls_size;
  g_tls_image = new std::vector<char>(g_tls_base, g_tls_base + g_tls_size);
  void* st = mmap((void*)STACK_BASE, (size_t)201 * (384 * 1024 + 65536) + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (st != (void*)STACK_BASE) { perror("stack arena"); abort(); }
}

void run_in_child(const Scenario& sc, u64 seed, bool faulty_cfg, Tape* replay, bool record) {
  static char alt[65536];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL};
  for (int s : sigs) sigaction(s, &sa, 0);
  std::set_terminate(on_terminate);
  g_faulty = faulty_cfg;
  g_faults = new std::map<std::string, FaultKind>;
  g_ev = new std::vector<Ev>;
  g_fibers = new std::vector<Fiber*>;
  g_ready = new std::vector<Fiber*>;
  g_deadlock = new std::function<void(const std::string&)>;
  g_capf = new std::function<void()>;
  g_procs = new std::vector<std::pair<std::string, bool>>;
  g_death = new std::vector<std::function<void(int)>>;
  g_pct_points = new std::vector<u64>;
  g_trace_text = new std::string;
  g_procs->push_back(std::make_pair(std::string("p0"), true));
  g_replay = replay != nullptr;
  g_tape = replay;
  g_record = record;
  g_trace = record;
  g_rec = new Tape;
  u64 x = seed;
  for (int i = 0; i < NSTREAM; i++) { u64 y = Rng::mix(x); g_rng[i].seed(y); }
  // swarm: scheduling strategy (only matters outside replay; decisions are what is recorded)
  if (!g_replay) {
    Rng r; r.seed(seed ^ 0x5151);
    static const unsigned md[] = {4, 10, 25, 60, 200, 1000};
    static const unsigned cd[] = {1, 2, 3, 6, 15};
    g_strategy.kind = r.next() % 4 == 0 ? 1 : 0;
    g_strategy.mem_num = r.next() % 6 == 0 ? 0 : 1;
    g_strategy.mem_den = md[r.next() % 6];
    g_strategy.call_num = 1;
    g_strategy.call_den = cd[r.next() % 5];
    if (g_strategy.call_den == 1) { g_strategy.call_num = 2; g_strategy.call_den = 3; }
    if (g_strategy.kind == 1) {
      int d = 1 + r.next() % 4;
      u64 span = 1u << (5 + r.next() % 9);
      for (int i = 0; i < d; i++) g_pct_points->push_back(r.next() % span);
      std::sort(g_pct_points->begin(), g_pct_points->end(), std::greater<u64>());
    }
  }
  static const u64 st[] = {100, 0, 1000, 20000, 500000};
  g_strategy.step_ns = st[choose(ENV, 5)];
  static const unsigned char pat[] = {0xA5, 0x00, 0xFF, 0x01, 0x05};
  arena_run_init(pat[choose(ENV, 5)]);
  g_now = 1000000000ull * (1 + choose(ENV, 1000)) + choose(ENV, 2) * (999999000ull + choose(ENV, 1000));
  g_t0 = g_now;
  g_real_off = 1700000000ll * 1000000000ll;
  vk_init();
  Fiber* m = new_fiber("main", [&sc] { { Guard g; log("scenario %s", sc.name); } sc.run(); g_live = false; finish_run(); }, 0);
  // enter: the runner's own context is abandoned
  Fiber* boot = new Fiber;
  boot->name = "boot";
  boot->tls = *g_tls_image;
  g_cur = boot;
  boot->dead = true;
  switch_to(m);
  abort();
}
}  // namespace sim
