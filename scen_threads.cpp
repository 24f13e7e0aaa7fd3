// C01 run-once/join, C02 handle lifecycle, C03 Threadable, C04 Mutex, C05 priorities
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/threads/thread.hpp>
#include <ecl/threads/threadable.hpp>
#include <ecl/threads/mutex.hpp>
#include <ecl/threads/priority.hpp>
#include <ecl/utilities/function_objects.hpp>
#include <ecl/utilities/references.hpp>
#include <ecl/time/duration.hpp>
#include <ecl/time/sleep.hpp>
#include <memory>
#include <unistd.h>
#include <sched.h>
#include <pthread.h>

using namespace sim;

// ------------------------------------------------------------------------------------------ C01/C02
namespace {
const int MAXT = 6;
struct TaskModel {
  int runs = 0, ended = 0, arg = -1, fid = -1;
  bool cancel_seen = false;
  u64 cancel_returned_at = INF;    // step number
  int cancel_points_after = 0;
  int kind = 0, length = 0;
  int data[4] = {0, 0, 0, 0};
  long stack = -1;                 // bytes of stack asked for
  int meet = 0;                    // 1 + what the task does with its own thread object, once it is told where that is
};
TaskModel* T;     // one per task slot
std::atomic<ecl::Thread*>* own;    // the thread objects, as told to their tasks
std::atomic<int>* met;
void meet_own(int i);

struct EndMark { int i; ~EndMark() { NP; T[i].ended++; } };

void body(int i, int arg) {
  { NP; T[i].runs++; T[i].arg = arg; T[i].fid = self(); nontrivial(); if (T[i].stack >= 16384 && (long)g_cur->stack_asked != T[i].stack) fail("stack-size", "a thread was to have %ld bytes of stack but has %zu (0: the default)", T[i].stack, g_cur->stack_asked); }
  EndMark em = {i};
  if (T[i].meet) meet_own(i);
  int n = T[i].length;
  for (int k = 0; k < n; k++) {
    T[i].data[k & 3] = T[i].data[k & 3] + 1;
    switch (T[i].kind) {
      case 1: { bool before; { NP; before = T[i].cancel_returned_at != INF; }
                timespec ts = {0, 1000}; nanosleep(&ts, 0);
                if (before) { NP; T[i].cancel_points_after++; } break; }
      case 2: { bool before; { NP; before = T[i].cancel_returned_at != INF; }
                pthread_testcancel();
                if (before) { NP; T[i].cancel_points_after++; } break; }
      case 3: { timespec ts = {2, 0}; bool before; { NP; before = T[i].cancel_returned_at != INF; }
                nanosleep(&ts, 0); if (before) { NP; T[i].cancel_points_after++; } break; }
      default: sched_yield();
    }
  }
}
void free0() { body(0, -1); }
void free1() { body(1, -1); }
void free2() { body(2, -1); }
void free3() { body(3, -1); }
void free4() { body(4, -1); }
void free5() { body(5, -1); }
typedef void (*VF)();
VF const frees[MAXT] = {free0, free1, free2, free3, free4, free5};
void unary(int v) { body(v % 10, v / 10); }
struct Obj {
  int i;
  int seen;
  void m() { body(i, -1); }
  void g(int a) { body(i, a); }
};
struct Functor {
  typedef void result_type;
  int i, tag;
  long pad[6];
  Functor(int ii, int t) : i(ii), tag(t) { for (int k = 0; k < 6; k++) pad[k] = t * 7 + k; }
  void operator()() {
    for (int k = 0; k < 6; k++) if (pad[k] != tag * 7 + k) { NP; fail("task-corrupted", "the function object the thread runs does not hold the value it was given"); }
    body(i, tag);
  }
};
const char* const forms[] = {"ctor(function)", "start(function)", "ctor(member)", "start(member)", "ctor(functor)", "start(functor)",
                             "start(ref functor)", "start(bound member)", "start(bound function)", "ctor(ref functor)"};
void meet_own(int i) {
  { NP; wait("own thread object", [=] { return own[i].load() != nullptr; }); }
  ecl::Thread* t = own[i].load();
  int op = T[i].meet - 1;
  int r; ecl::ErrorFlag fl; ecl::Error e(ecl::NoError); bool run = true;
  { NP; log("task %d %s its own thread", i, op == 0 ? "joins" : op == 1 ? "cancels" : op == 2 ? "starts again" : "asks for"); }
  switch (op) {
    case 0: TRY(r, fl, t->join()); break;
    case 1: TRY(r, fl, t->cancel()); break;
    case 2: TRY(r, fl, e = t->start(frees[i])); break;
    default: TRY(r, fl, run = t->isRunning()); break;
  }
  { NP; if (op == 1) { T[i].cancel_seen = true; T[i].cancel_returned_at = steps(); } }
  met[i].store(1);
  NP;
  if (op == 0 && !g_release && (r != 1 || fl != ecl::UsageError)) fail("self-join", "a thread joined itself and nothing was reported");
  if (op == 1) { if (r) fail("cancel-failed", "a running task could not cancel its own thread (flag %d)", (int)fl); }
  if (op == 2 && (g_release ? r || e.flag() != ecl::BusyError : r != 1 || fl != ecl::BusyError)) fail("double-start", "a task started its own thread again and that was not refused");
  if (op == 3 && !run) fail("isrunning-false-while-running", "isRunning() is false in the task itself");
}
void meet_task(ecl::Thread* t, int k) {    // the owner leaves the thread object to the task until it is done with it
  if (!T[k].meet) return;
  own[k].store(t);
  { NP; wait("task", [=] { return met[k].load() != 0; }); }
  (void)met[k].load();
}
struct Slot {
  ecl::Thread* th = nullptr;
  std::unique_ptr<Obj> obj;
  std::unique_ptr<Functor> fun;
  int form = 0, tag = 0;
  bool started = false;   // a thread was created successfully
};
const ecl::Priority prios[] = {ecl::DefaultPriority, ecl::NormalPriority, ecl::BackgroundPriority, ecl::LowPriority, ecl::HighPriority, ecl::CriticalPriority, ecl::RealTimePriority1, ecl::RealTimePriority4};

// start slot i; returns 0 started, 1 reported failure
int start_slot(Slot* S, int i, int form, ecl::Priority pr, long stack, bool use_existing) {
  int create0, alloc0;
  Slot& s = S[i];
  { NP; s.form = form; T[i].stack = stack; create0 = fault_fired("pthread_create"); alloc0 = fault_fired("alloc"); log("start slot %d %s prio=%d stack=%ld", i, forms[form], (int)pr, stack); }
  int r; ecl::ErrorFlag fl;
  ecl::Error ret(ecl::NoError);
  bool ctor = false;
  ecl::Thread* t = s.th;
  Obj* o = s.obj.get();
  Functor* f = s.fun.get();
  int tag = s.tag;
  if (use_existing && (form == 0 || form == 2 || form == 4 || form == 9)) form = form == 9 ? 6 : form + 1;
  switch (form) {
    case 0: ctor = true; TRY(r, fl, t = new ecl::Thread(frees[i], pr, stack)); break;
    case 2: ctor = true; TRY(r, fl, t = new ecl::Thread(&Obj::m, *o, pr, stack)); break;
    case 4: ctor = true; TRY(r, fl, t = new ecl::Thread(*f, pr, stack)); break;
    case 9: ctor = true; TRY(r, fl, t = new ecl::Thread(ecl::ref(*f), pr, stack)); break;
    default:
      if (!t) {
        TRY(r, fl, t = new ecl::Thread());
        NP;
        if (r) { s.started = false; return 1; }
        s.th = t;
      }
      switch (form) {
        case 1: TRY(r, fl, ret = t->start(frees[i], pr, stack)); break;
        case 3: TRY(r, fl, ret = t->start(&Obj::m, *o, pr, stack)); break;
        case 5: TRY(r, fl, ret = t->start(*f, pr, stack)); break;
        case 6: TRY(r, fl, ret = t->start(ecl::ref(*f), pr, stack)); break;
        case 7: TRY(r, fl, ret = t->start(ecl::generateFunctionObject(&Obj::g, *o, tag), pr, stack)); break;
        default: TRY(r, fl, ret = t->start(ecl::generateFunctionObject(unary, i + 10 * tag), pr, stack)); break;
      }
  }
  NP;
  s.th = t;
  bool create_failed = fault_fired("pthread_create") > create0, alloc_failed = fault_fired("alloc") > alloc0;
  bool reported = r != 0 || (!ctor && ret.flag() != ecl::NoError);
  log("start slot %d -> %s flag=%d ret=%d", i, r == 0 ? "ok" : r == 1 ? "exception" : "bad_alloc", (int)fl, (int)ret.flag());
  bool bad_stack = stack > 0 && stack < 16384;
  if (ctor && !create_failed && !alloc_failed && r == 0) { s.started = true; return 0; }
  if (create_failed) {
    if (ctor && g_release) { s.started = false; return 1; }   // no channel but isRunning(), checked by callers
    if (!reported) fail("create-failure-unreported", "pthread_create failed but %s reported nothing", forms[form]);
    s.started = false;
    return 1;
  }
  if (alloc_failed && r == 2) { s.started = false; return 1; }
  if (bad_stack && r == 1 && fl == ecl::ConfigurationError) { s.started = false; return 1; }
  if (reported) fail("spurious-start-failure", "%s failed (%s, flag %d, return %d) although the thread could be created", forms[form], r ? "exception" : "no exception", (int)fl, (int)ret.flag());
  s.started = true;
  return 0;
}
void thread_setup(int prio_mode) {
  T = new TaskModel[MAXT];
  own = new std::atomic<ecl::Thread*>[MAXT]; met = new std::atomic<int>[MAXT];
  for (int i = 0; i < MAXT; i++) { own[i] = nullptr; met[i] = 0; }
  vk_privileged = prio_mode == 0;
  if (faulty()) {
    if (gencoin(2, 3)) enable_fault("pthread_create", 1, 3);
    if (gencoin(1, 2)) enable_fault("sleep.eintr", 1, 6);
    if (gencoin(1, 2)) { enable_fault("setpriority", 1, 3); enable_fault("sched_setscheduler", 1, 3); }
    set_fault_budget(1 + gen(4));
  }
}
}  // namespace

// C01: tasks run exactly once with their arguments; join waits for the end of the task.
SCENARIO(thread_run, "C01") {
  Slot* S; int n; std::vector<int> order;
  bool alloc_f;
  { NP; thread_setup(gen(2)); S = new Slot[MAXT]; n = 1 + gen(4); alloc_f = faulty() && gencoin(1, 5); }
  for (int i = 0; i < n; i++) {
    int form; ecl::Priority pr; long st;
    {
      NP;
      form = gen(10); pr = prios[gen(3) == 0 ? gen(8) : 0];
      st = gen(4) == 3 ? (gen(2) ? 65536 : 262144) : -1;
      T[i].kind = gen(3) == 2 ? 3 : (int)gen(2); T[i].length = gen(6);
      S[i].tag = 1 + gen(50);
      S[i].obj.reset(new Obj{i, 0}); S[i].fun.reset(new Functor(i, S[i].tag));
      if (alloc_f) enable_fault("alloc", 1, 4);
    }
    start_slot(S, i, form, pr, st, false);
    { NP; if (alloc_f) enable_fault("alloc", 0, 1); }
    if (S[i].th && !S[i].started) {
      if (S[i].th->isRunning()) { NP; fail("failed-start-looks-running", "%s could not create the thread but isRunning() is true", forms[S[i].form]); }
    }
  }
  for (int i = 0; i < n; i++) {
    int k; bool has;
    { NP; if (order.empty()) for (int j = 0; j < n; j++) order.push_back(j); size_t p = gen(order.size()); k = order[p]; order.erase(order.begin() + p); has = S[k].th; }
    if (!has) continue;
    int r; ecl::ErrorFlag fl;
    TRY(r, fl, S[k].th->join());
    NP;
    log("joined slot %d", k);
    if (S[k].started) {
      if (r) fail("join-failed", "join() of a started thread threw (flag %d)", (int)fl);
      if (T[k].runs == 0) fail("join-early", "join() returned but the task never ran (%s)", forms[S[k].form]);
      if (T[k].runs > 1) fail("ran-twice", "the task ran %d times (%s)", T[k].runs, forms[S[k].form]);
      if (!T[k].ended) fail("join-early", "join() returned while the task was still running (%s)", forms[S[k].form]);
      int sum = T[k].data[0] + T[k].data[1] + T[k].data[2] + T[k].data[3];
      if (sum != T[k].length) fail("task-effects-lost", "task did %d of %d steps", sum, T[k].length);
      int want = (S[k].form == 7 || S[k].form == 8 || S[k].form == 4 || S[k].form == 5 || S[k].form == 6 || S[k].form == 9) ? S[k].tag : -1;
      if (T[k].arg != want) fail("wrong-argument", "%s ran with argument %d, wanted %d", forms[S[k].form], T[k].arg, want);
    }
  }
  for (int i = 0; i < n; i++) if (S[i].th) delete S[i].th;
  NP;
  for (int i = 0; i < n; i++) {
    if (!S[i].started && T[i].runs) fail("failed-start-ran", "the task ran although thread creation was reported as failed (%s)", forms[S[i].form]);
    if (S[i].started && T[i].runs != 1) fail("ran-twice", "task ran %d times", T[i].runs);
  }
  if (unreaped_pthreads()) fail("thread-leak", "%d finished threads were neither joined nor detached", unreaped_pthreads());
}

// C02: any order of start/join/cancel/isRunning/destroy is safe and truthful.
SCENARIO(thread_lifecycle, "C02") {
  Slot* S; int n, ops; size_t base; bool alloc_f;
  { NP; thread_setup(gen(2)); S = new Slot[MAXT]; n = 1 + gen(2); ops = 2 + gen(9); alloc_f = faulty() && gencoin(1, 4); base = live_allocs(); }
  int next = 0;                      // next task slot to use
  std::vector<int>* live; std::vector<int>* joined; std::vector<int>* dropped;
  { NP; live = new std::vector<int>; joined = new std::vector<int>(MAXT, 0); dropped = new std::vector<int>(MAXT, 0); }
  for (int o = 0; o < ops; o++) {
    int op, k = -1, form = 0; ecl::Priority pr = ecl::DefaultPriority; long st = -1;
    {
      NP;
      op = gen_weighted({4, 3, 2, 3, 2, 2, 1});
      if (op != 0 && op != 5) { if (live->empty()) continue; k = (*live)[gen(live->size())]; }
      form = gen(10);
      if (gen(6) == 5) pr = prios[gen(8)];
      if (gen(8) == 7) st = gen(2) ? 65536 : 100;
    }
    int r; ecl::ErrorFlag fl;
    switch (op) {
      case 0: {  // new thread
        if ((int)live->size() >= n || next >= MAXT) break;
        k = next++;
        { NP; T[k].kind = gen(4); T[k].length = gen(5); T[k].meet = gencoin(1, 4) ? 1 + gen(4) : 0; S[k].tag = 1 + gen(9); S[k].obj.reset(new Obj{k, 0}); S[k].fun.reset(new Functor(k, S[k].tag)); if (alloc_f) enable_fault("alloc", 1, 5); }
        start_slot(S, k, form, pr, st, false);
        { NP; if (alloc_f) enable_fault("alloc", 0, 1); if (S[k].th) live->push_back(k); }
        if (S[k].started) meet_task(S[k].th, k);
        break;
      }
      case 1: {  // join
        { NP; log("join slot %d", k); }
        TRY(r, fl, S[k].th->join());
        NP;
        bool again = (*joined)[k];
        if (S[k].started && !again && r) fail("join-failed", "first join() of a started thread threw (flag %d)", (int)fl);
        if (r == 2) fail("join-failed", "join threw bad_alloc");
        if (S[k].started) {
          if (!T[k].cancel_seen && (T[k].runs != 1 || !T[k].ended)) fail("join-early", "join() returned before the task finished");
          if (T[k].runs && !T[k].ended) fail("join-early", "join() returned before the cancelled task stopped");
          (*joined)[k] = 1;
        }
        break;
      }
      case 2: {  // cancel
        { NP; log("cancel slot %d", k); }
        bool was_done; { NP; was_done = T[k].fid >= 0 && finished(T[k].fid); }
        TRY(r, fl, S[k].th->cancel());
        NP;
        if (S[k].started && !(*joined)[k]) {
          if (r == 2) fail("cancel-failed", "cancel threw bad_alloc");
          if (r && !was_done && !(T[k].fid >= 0 && finished(T[k].fid))) fail("cancel-failed", "cancel() of a running thread threw (flag %d)", (int)fl);
          T[k].cancel_seen = true;
          if (T[k].cancel_returned_at == INF) T[k].cancel_returned_at = steps();
          probe(was_done ? "cancel.after_end" : "cancel.while_running");
        }
        break;
      }
      case 3: {  // isRunning
        bool before_alive, after_alive, done_before;
        { NP; before_alive = T[k].runs > 0 && !T[k].ended; done_before = (*joined)[k] || (S[k].started && T[k].fid >= 0 && finished(T[k].fid)); }
        bool run = S[k].th->isRunning();
        NP;
        after_alive = T[k].runs > 0 && !T[k].ended;
        if (before_alive && after_alive && !run && !T[k].cancel_seen) fail("isrunning-false-while-running", "isRunning() is false while the task runs");
        if (run && (*joined)[k]) fail("isrunning-after-join", "isRunning() is true after join() returned");
        if (run && T[k].cancel_returned_at != INF) probe("isrunning.true_after_cancel");
        if (run && done_before) fail("isrunning-after-end", "isRunning() is true after the thread has ended");
        if (run && !S[k].started) fail("isrunning-never-started", "isRunning() is true but no thread was started");
        log("isRunning slot %d -> %d", k, run);
        break;
      }
      case 4: {  // destroy
        { NP; log("destroy slot %d", k); if (S[k].started && !(*joined)[k]) probe((T[k].fid >= 0 && finished(T[k].fid)) ? "drop.after_end" : "drop.while_running"); }
        delete S[k].th;
        NP;
        S[k].th = nullptr;
        (*dropped)[k] = 1;
        for (size_t q = 0; q < live->size(); q++) if ((*live)[q] == k) { live->erase(live->begin() + q); break; }
        break;
      }
      case 5: { sleep_ns(gen(2) ? 1000 : 3000000000ull); break; }
      default: {  // start again on the same handle
        bool was = S[k].started, j; { NP; j = (*joined)[k]; log("start again slot %d", k); }
        if (!was) {
          // a handle whose start failed: starting again must work or be reported; never run twice
          int res = start_slot(S, k, form, pr, st, true);
          if (!res) meet_task(S[k].th, k);
          break;
        }
        if (j) break;
        int runs0; { NP; runs0 = T[k].runs; }
        (void)runs0;
        ecl::Error e(ecl::NoError);
        switch (form % 5) {
          case 0: TRY(r, fl, e = S[k].th->start(frees[k], pr)); break;
          case 1: TRY(r, fl, e = S[k].th->start(&Obj::m, *S[k].obj, pr)); break;
          case 2: TRY(r, fl, e = S[k].th->start(*S[k].fun, pr)); break;
          case 3: TRY(r, fl, e = S[k].th->start(ecl::ref(*S[k].fun), pr)); break;
          case 4: TRY(r, fl, e = S[k].th->start(ecl::generateFunctionObject(unary, k + 10 * S[k].tag), pr)); break;
        }
        NP;
        if (r == 0 && e.flag() == ecl::NoError) fail("double-start", "start() on a started handle reported success");
        if (!g_release && r != 1) fail("double-start", "start() on a started handle did not throw in debug mode");
        break;
      }
    }
    { NP; for (int i = 0; i < MAXT; i++) if (T[i].cancel_points_after) fail("cancel-ignored", "a cancelled task passed a cancellation point entered after cancel() returned"); }
  }
  while (!live->empty()) {
    int k; { NP; k = live->back(); live->pop_back(); log("final destroy slot %d", k); }
    delete S[k].th;
    { NP; S[k].th = nullptr; }
  }
  // let everything end
  for (int i = 0; i < 400 && live_pthreads(); i++) sleep_ns(500000000ull);
  NP;
  if (live_pthreads()) fail("thread-stuck", "%d threads never ended", live_pthreads());
  for (int i = 0; i < next; i++) {
    if (T[i].runs > 1) fail("ran-twice", "task ran %d times", T[i].runs);
    if (T[i].cancel_points_after) fail("cancel-ignored", "a cancelled task passed a cancellation point entered after cancel() returned");
    if (!S[i].started && T[i].runs) fail("failed-start-ran", "the task ran although thread creation was reported as failed");
    if (S[i].started && !T[i].cancel_seen && T[i].runs != 1) fail("never-ran", "a started, never cancelled task did not run");
  }
  if (unreaped_pthreads()) fail("thread-leak", "%d finished threads were neither joined nor detached", unreaped_pthreads());
  if (live_allocs() != base) { std::string d; dump_live_allocs(0, d); log("%s", d.c_str()); fail("leak", "%zu heap blocks remain after every handle was destroyed and every thread ended", live_allocs() - base); }
}

// ------------------------------------------------------------------------------------------ C03
namespace {
struct Worker;
struct WModel {
  int active = 0, runs = 0, true_starts = 0, pending = 0;   // pending: start() calls in flight
  u64 busy_begins = 0;         // how often the object became (possibly) busy
  int cur_run = 0;             // id of the last run that began
  bool gone = false;
  std::vector<int> fibers;     // fibers that ran runnable(), for "fully over"
  int length = 1;
  ecl::Priority prio = ecl::DefaultPriority;
  int confirmed = 0;           // successful starts whose return was observed
  int finished_bodies = 0;
  int child_threads0 = 0;
};
WModel* W;
struct Worker : public ecl::Threadable {
  int i;
  long state;
  explicit Worker(int n) : i(n), state(0) {}
  ~Worker() { state = -1; }
  void runnable() {
    int len;
    {
      NP; nontrivial();
      WModel& w = W[i];
      if (w.gone) fail("worker-after-delete", "runnable() entered after the object was deleted");
      w.active++; w.runs++; w.cur_run++;
      w.fibers.push_back(self());
      if (w.active > 1) fail("two-workers", "%d worker threads run runnable() of one Threadable at once", w.active);
      len = w.length;
    }
    for (int k = 0; k < len; k++) { state = state + 1; if (k & 1) sched_yield(); else { timespec t = {0, 500}; nanosleep(&t, 0); } }
    { NP; W[i].active--; W[i].finished_bodies++; }
  }
};
// possibly busy: a start in flight, or a run whose thread has not fully ended
bool w_busy(int i) {
  WModel& w = W[i];
  if (w.pending || w.active || w.runs < w.confirmed) return true;
  for (int f : w.fibers) if (!finished(f)) return true;
  return false;
}
// definitely running: a start() returned true (or runnable() was entered) and runnable() has not returned
bool w_running(int i) { return W[i].active > 0 || W[i].confirmed > W[i].finished_bodies; }

// returns what start() said: 1 true, 0 false, 2 threw
int w_start(Worker* w, int i, const char* who) {
  bool busy0; u64 begins0; int fail0; size_t pth;
  { NP; busy0 = w_busy(i); begins0 = W[i].busy_begins; W[i].busy_begins++; W[i].pending++; fail0 = fault_fired("pthread_create") + fault_fired("alloc"); pth = W[i].runs; (void)pth; }
  int r; ecl::ErrorFlag fl; bool ok = false;
  TRY(r, fl, ok = w->start(W[i].prio));
  NP;
  WModel& m = W[i];
  m.pending--;
  bool failed = fault_fired("pthread_create") + fault_fired("alloc") > fail0;
  log("%s start -> %s", who, r ? "exception" : ok ? "true" : "false");
  if (!r && ok) { m.confirmed++; m.true_starts++; }
  else if (!failed && !busy0 && m.busy_begins == begins0 + 1) fail("start-refused", "start() %s although no worker was running or being started (flag %d)", r ? "threw" : "returned false", (int)fl);
  if (r == 1 && !failed) fail("start-threw", "start() threw (flag %d) although no thread creation failed", (int)fl);
  return r ? 2 : ok;
}
}  // namespace
SCENARIO(threadable, "C03") {
  int nobj, nthr; Worker** ws; bool deleted_polling;
  {
    NP; vk_privileged = gen(2) == 0;
    nobj = 1 + (gen(3) == 2); nthr = 1 + gen(4);
    W = new WModel[2]; ws = new Worker*[2];
    if (faulty()) {
      enable_fault("pthread_create", 1, 3);
      if (gencoin(1, 3)) enable_fault("sleep.eintr", 1, 6);
      set_fault_budget(1 + gen(4));
    }
    deleted_polling = gencoin(1, 2);
    for (int i = 0; i < nobj; i++) { W[i].length = gen(5); if (gen(4) == 3) W[i].prio = prios[gen(8)]; }
  }
  for (int i = 0; i < nobj; i++) ws[i] = new Worker(i);
  std::vector<int>* ids; { NP; ids = new std::vector<int>; }
  for (int t = 0; t < nthr; t++) {
    int id = spawn("caller", [ws, nobj] {
      int n; { NP; n = 1 + gen(5); }
      for (int k = 0; k < n; k++) {
        int op, i; { NP; op = gen(4); i = gen(nobj); }
        Worker* w = ws[i];
        if (op < 2) w_start(w, i, "caller");
        else if (op == 2) {
          bool busy0, run0; u64 b0; int run_id; { NP; busy0 = w_busy(i); run0 = w_running(i); b0 = W[i].busy_begins; run_id = W[i].finished_bodies; }
          bool r = w->isRunning();
          NP;
          if (r && !busy0 && W[i].busy_begins == b0) fail("isrunning-true-when-idle", "isRunning() is true although no worker runs or is being started");
          if (!r && run0 && w_running(i) && run_id == W[i].finished_bodies) fail("isrunning-false-while-running", "isRunning() is false while the worker runs");
        } else { sleep_ns(700); }
      }
    });
    NP; ids->push_back(id);
  }
  for (size_t k = 0; k < ids->size(); k++) join_fiber((*ids)[k]);
  { NP; disable_faults(); log("callers done"); }
  for (int i = 0; i < nobj; i++) {
    int spin = 0;
    for (;;) {
      bool r = ws[i]->isRunning();
      if (!r) break;
      sleep_ns(20000);
      NP;
      if (!w_busy(i) && ++spin > 3) fail("stuck-running", "isRunning() stays true after the last worker ended");
    }
    {
      NP;
      if (w_running(i)) fail("isrunning-false-while-running", "isRunning() is false while a worker runs or is starting");
      if (W[i].runs != W[i].true_starts) fail("runs-mismatch", "start() returned true %d times but the worker ran %d times", W[i].true_starts, W[i].runs);
    }
    // restartable once the previous worker has ended
    for (int k = 0; k < 50; k++) { bool b; { NP; b = w_busy(i); } if (!b) break; sleep_ns(1000); }
    int st = w_start(ws[i], i, "restart");
    { NP; if (st != 1) fail("not-restartable", "start() %s after the previous worker finished", st == 2 ? "threw" : "returned false"); }
    while (ws[i]->isRunning()) sleep_ns(20000);
    { NP; if (W[i].runs != W[i].true_starts || W[i].active) fail("runs-mismatch", "start() returned true %d times but the worker ran %d times", W[i].true_starts, W[i].runs); if (deleted_polling) W[i].gone = true; }
    if (deleted_polling) delete ws[i];
  }
  for (int i = 0; i < 400 && live_pthreads(); i++) sleep_ns(100000);
  NP;
  if (unreaped_pthreads()) fail("thread-leak", "%d finished worker threads were neither joined nor detached", unreaped_pthreads());
}

// ------------------------------------------------------------------------------------------ C04
namespace {
struct MModel {
  int holder = -1;            // fiber inside the critical section, as seen by the callers
  u64 acquisitions = 0;       // how often any caller obtained the mutex or began to try
  int involved = 0;           // callers holding or inside a lock/unlock call
  long value = 0;             // protected, updated non atomically by live code
  long expected = 0;
  u64 touch_begin = 0;        // count of lock-ish calls begun
  int max_involved = 0;
};
MModel* M;
bool g_steal;
}
SCENARIO(mutex, "C04") {
  int nthr; bool locked0, plain; bool jumps;
  ecl::Mutex* m = nullptr;
  {
    NP; M = new MModel; nthr = 1 + gen(4); locked0 = gencoin(1, 4); plain = !locked0 && gencoin(1, 2);
    if (faulty() && gencoin(1, 3)) { enable_fault("mutex_init", 1, 2); set_fault_budget(1); }
    jumps = faulty() && gencoin(1, 2);
    if (faulty() && g_release && locked0) enable_fault("mutex_init", 0, 1);   // release builds have no way to report it
    if (locked0) M->involved = 1;
    g_steal = !g_release && gencoin(1, 6);
  }
  int r; ecl::ErrorFlag fl; int f0; { NP; f0 = fault_fired("mutex_init"); }
  if (plain) TRY(r, fl, m = new ecl::Mutex); else TRY(r, fl, m = new ecl::Mutex(locked0));
  {
    NP;
    bool failed = fault_fired("mutex_init") > f0;
    disable_faults();
    if (r && !failed) fail("ctor-threw", "Mutex() threw (flag %d)", (int)fl);
    if (failed) { if (!r && !g_release) fail("init-failure-unreported", "the mutex could not be initialised but Mutex() did not throw"); nontrivial(); finish_run(); }
    if (locked0) {
      if (mutex_owner(&m->rawType()) != self()) fail("not-locked", "Mutex(true) is not locked by its creator");
      M->holder = self(); M->acquisitions++;
    }
  }
  if (jumps) { NP; for (int k = 0; k < 3; k++) { i64 d = (i64)(1 + gen(5)) * (gencoin(1, 2) ? 1000000000ll : 1000ll); if (gencoin(1, 2)) d = -d; u64 w = gen(4000) * 10; after(w, [d] { jump_realtime(d); note_fault("clock.jump"); }); } }
  std::vector<int>* ids; { NP; ids = new std::vector<int>; }
  u64 t_start; i64 off_start; { NP; t_start = now(); off_start = realtime() - (i64)now(); } (void)t_start; (void)off_start;
  for (int t = 0; t < nthr; t++) {
    int id = spawn("locker", [m, jumps] {
      int n; { NP; n = 1 + gen(6); }
      for (int k = 0; k < n; k++) {
        int op; long dn = 0; { NP; op = gen(6); dn = gen(8) == 0 ? (long)to_boundary() : (long)(gen(4) == 0 ? gen(3) * 1000000000ull + gen(1000000000) : gen(5000) * 10); }
        bool got = false; int r; ecl::ErrorFlag fl;
        u64 acq0, t0, s0; bool free0; i64 off0;
        {
          NP; free0 = M->involved == 0; acq0 = M->touch_begin; M->touch_begin++; M->involved++; if (M->involved > 1) nontrivial();
          t0 = now(); s0 = steps(); off0 = realtime() - (i64)now();
        }
        if (op == 5) { NP; M->involved--; }
        if (op == 5) {   // somebody else's lock count may be looked at any time
          unsigned c = m->locks();
          NP;
          if ((int)c > 8) fail("locks-count", "locks() is %u with at most 5 threads", c);
          continue;
        }
        if (op <= 1) {
          TRY(r, fl, m->lock());
          NP; if (r) fail("lock-threw", "lock() threw (flag %d)", (int)fl);
          got = true;
        } else if (op == 2) {
          TRY(r, fl, got = m->trylock());
          NP; if (r) fail("trylock-threw", "trylock() threw (flag %d)", (int)fl);
        } else {
          ecl::Duration d(dn / 1000000000L, dn % 1000000000L);
          TRY(r, fl, got = m->trylock(d));
          NP; if (r) fail("trylock-threw", "trylock(duration) threw (flag %d)", (int)fl);
          if (d.sec() != dn / 1000000000L || d.nsec() != dn % 1000000000L) fail("duration-modified", "trylock(duration) modified its argument");
        }
        {
          NP;
          u64 el = now() - t0, ds = steps() - s0; i64 jump = realtime() - (i64)now() - off0;
          log("op %d d=%ld -> %d after %llu ns", op, dn, got, (unsigned long long)el);
          bool undisturbed = free0 && M->touch_begin == acq0 + 1;
          if (!got) {
            M->involved--;
            if (undisturbed) fail("trylock-false-when-free", "%s returned false although the mutex was free for the whole call", op == 2 ? "trylock()" : "trylock(duration)");
            if (op > 2 && !jumps && (i64)el < dn) fail("timed-trylock-early", "trylock(%ld ns) gave up after %llu ns", dn, (unsigned long long)el);
            probe(op == 2 ? "trylock.busy" : "timedlock.timeout");
          } else {
            if (M->holder != -1) fail("exclusion", "%s holds the mutex while %s still holds it", fname(self()), fname(M->holder));
            if (mutex_owner(&m->rawType()) != self()) fail("not-owner", "op %d reported success but the mutex is not held by the caller", op);
            M->holder = self();
          }
          if (op == 2 && el > ds * g_strategy.step_ns + 1000) fail("trylock-blocked", "trylock() blocked for %llu ns", (unsigned long long)el);
          if (op > 2 && !jumps && el > (u64)dn + ds * g_strategy.step_ns + 2000) fail("timed-trylock-late", "trylock(%ld ns) returned after %llu ns", dn, (unsigned long long)el);
          (void)jump;
        }
        if (!got) continue;
        unsigned c = m->locks();
        { NP; if (c < 1 && !g_steal) fail("locks-count", "locks() is %u while the caller holds the mutex", c); if ((int)c > M->involved) { if ((int)c > 8) fail("locks-count", "locks() is %u", c); } }
        long v = M->value;
        int hold; { NP; hold = gen(3); }
        if (hold) { timespec ts = {0, hold == 1 ? 300 : 30000}; nanosleep(&ts, 0); } else sched_yield();
        M->value = v + 1;
        { NP; M->expected++; }
        if (!g_release) {
          bool tryrelock; { NP; tryrelock = gen(8) == 7; }
          if (tryrelock) {
            TRY(r, fl, m->lock());
            NP; if (r != 1) fail("relock-undetected", "lock() by the holder did not throw in debug mode");
            if (mutex_owner(&m->rawType()) != self()) fail("relock-lost", "a refused relock lost the mutex");
          }
        }
        { NP; M->holder = -1; }
        TRY(r, fl, m->unlock());
        { NP; if (r) fail("unlock-threw", "unlock() by the holder threw (flag %d)", (int)fl); M->involved--; }
      }
      if (!g_release) {
        bool steal; { NP; steal = g_steal && gen(2); }
        if (steal) {
          int r; ecl::ErrorFlag fl;
          { NP; M->touch_begin++; }
          TRY(r, fl, m->unlock());
          NP; if (r != 1) fail("foreign-unlock-undetected", "unlock() by a thread that does not hold the mutex did not throw in debug mode");
        }
      }
    });
    NP; ids->push_back(id);
  }
  if (locked0) {
    sleep_ns(2000);
    { NP; M->holder = -1; }
    m->unlock();
    { NP; M->involved--; }
  }
  for (size_t k = 0; k < ids->size(); k++) join_fiber((*ids)[k]);
  unsigned c = m->locks();
  {
    NP;
    if (c != 0) fail("locks-count", "locks() is %u after every lock was released", c);
    if (M->value != M->expected) fail("exclusion", "lost updates: %ld of %ld", M->value, M->expected);
    if (mutex_owner(&m->rawType()) != -1) fail("left-locked", "the mutex is still held after every unlock()");
  }
  delete m;
}

// ------------------------------------------------------------------------------------------ C05
namespace {
const ecl::Priority real_prios[] = {ecl::NormalPriority, ecl::BackgroundPriority, ecl::LowPriority, ecl::HighPriority, ecl::CriticalPriority,
                                    ecl::RealTimePriority1, ecl::RealTimePriority2, ecl::RealTimePriority3, ecl::RealTimePriority4};
// scheduler weight of a fiber: real time above everything, then niceness
int weight(Fiber* f) { return f->policy == SCHED_RR || f->policy == SCHED_FIFO ? 1000 + f->prio : -f->nice; }
int order(ecl::Priority p) { return (int)p; }
int prio_faults() { return fault_fired("setpriority") + fault_fired("setpriority.eacces") + fault_fired("sched_setscheduler") + fault_fired("sched_setscheduler.eperm") + fault_fired("sched_getscheduler") + fault_fired("sched_getparam") + fault_fired("sched_get_priority"); }
struct PModel { ecl::Priority want = ecl::NormalPriority; };
void prio_walk(int n, ecl::Priority cur, bool exact) {
  for (int k = 0; k < n; k++) {
    ecl::Priority p; bool query, special; { NP; special = gen(6) == 5; p = special ? (gen(2) ? ecl::DefaultPriority : ecl::UnknownPriority) : real_prios[gen(9)]; query = gen(3) == 2; }
    int r; ecl::ErrorFlag fl;
    { NP; if (gencoin(1, 8)) { bool f = gencoin(1, 2); g_cur->policy = f ? SCHED_FIFO : SCHED_BATCH; g_cur->prio = f ? 1 + gen(60) : 0; cur = ecl::UnknownPriority; exact = true; log("somebody else sets policy %d", g_cur->policy); } }
    if (query) {
      int f0; ecl::Priority g = ecl::UnknownPriority; { NP; f0 = prio_faults(); }
      TRY(r, fl, g = ecl::get_priority());
      NP;
      bool faulted = prio_faults() > f0;
      if (r && !faulted) fail("get-priority-threw", "get_priority() threw (flag %d)", (int)fl);
      if (!r && exact && !(faulted && g == ecl::UnknownPriority) && g != cur) fail("get-priority-wrong", "get_priority() is %d, the thread was last set to %d", (int)g, (int)cur);
      if (!r && !exact && !faulted && g == ecl::UnknownPriority) fail("get-priority-wrong", "get_priority() is unknown");
      continue;
    }
    int f0, w0; bool priv; { NP; f0 = prio_faults(); w0 = weight(g_cur); priv = vk_privileged; nontrivial(); }
    bool ok = false;
    TRY(r, fl, ok = ecl::set_priority(p));
    NP;
    bool faulted = prio_faults() > f0;
    log("set_priority(%d) -> %s", (int)p, r ? "exception" : ok ? "true" : "false");
    if (special) {
      if (r || !ok) fail("default-priority-failed", "set_priority(%d) must do nothing, but failed", (int)p);
      if (weight(g_cur) != w0) fail("default-priority-changed", "set_priority(%d) changed the scheduling of the thread", (int)p);
      continue;
    }
    bool success = !r && ok;
    if (success) {
      bool rt = g_cur->policy == SCHED_RR;
      if (rt != (p >= ecl::RealTimePriority1) || (!rt && g_cur->policy != SCHED_OTHER)) fail("set-priority-lied", "set_priority(%d) reported success but the thread runs under policy %d", (int)p, g_cur->policy);
      if (!rt) {
        static const int nices[] = {19, 10, 0, -10, -20};
        if (g_cur->nice != nices[(int)p - (int)ecl::BackgroundPriority]) fail("set-priority-lied", "set_priority(%d) reported success but the niceness is %d", (int)p, g_cur->nice);
      } else if (g_cur->prio < 1 || g_cur->prio > 99) fail("set-priority-lied", "real time priority %d", g_cur->prio);
      cur = p; exact = true;
    } else {
      if (!faulted && priv) fail("set-priority-failed", "set_priority(%d) failed (flag %d) although nothing prevents it", (int)p, (int)fl);
      if (weight(g_cur) != w0) fail("failed-set-changed-priority", "set_priority(%d) reported failure but the scheduling weight went from %d to %d", (int)p, w0, weight(g_cur));
    }
  }
}
struct PBody { ecl::Priority p; int inherited; int done; void run() {
  { NP; nontrivial(); 
    int w = weight(g_cur);
    bool faulted = prio_faults() > 0;
    if (p == ecl::DefaultPriority || p == ecl::UnknownPriority) { if (w != inherited) fail("thread-priority", "a thread with the default priority runs with weight %d, its creator has %d", w, inherited); }
    else if (!faulted && vk_privileged) {
      static const int nices[] = {19, 10, 0, -10, -20};
      int want = p >= ecl::RealTimePriority1 ? 1000 + 1 + ((int)p - (int)ecl::RealTimePriority1) * 98 / 10 : -nices[(int)p - (int)ecl::BackgroundPriority];
      if (w != want) fail("thread-priority", "a thread created with priority %d runs with scheduling weight %d, wanted %d", (int)p, w, want);
    } else {
      static const int nices[] = {19, 10, 0, -10, -20};
      int want = p >= ecl::RealTimePriority1 ? 1000 + 1 + ((int)p - (int)ecl::RealTimePriority1) * 98 / 10 : -nices[(int)p - (int)ecl::BackgroundPriority];
      if (w != want && w != inherited) fail("thread-priority", "a thread created with priority %d runs with scheduling weight %d: neither what was asked (%d) nor its creator's (%d)", (int)p, w, want, inherited);
    }
  }
  ecl::Priority g = ecl::UnknownPriority; int r; ecl::ErrorFlag fl; int f0; { NP; f0 = prio_faults(); }
  TRY(r, fl, g = ecl::get_priority());
  NP;
  if (p > ecl::UnknownPriority && f0 == 0 && prio_faults() == 0 && vk_privileged && g != p) fail("thread-priority", "get_priority() inside a thread created with priority %d is %d", (int)p, (int)g);
  done = 1;
} };
PBody* pb;
void prun0() { pb[0].run(); }
void prun1() { pb[1].run(); }
void prun2() { pb[2].run(); }
void (*const pruns[])() = {prun0, prun1, prun2};
struct PCall { typedef void result_type; PBody* b; void operator()() { b->run(); } };
}  // namespace
// the last user of an object guarded by its own mutex destroys both
SCENARIO(mutex_last_user, "C04") {
  struct Doc { ecl::Mutex m; int refs; int edits; };
  Doc* d; int nthr; size_t base; std::vector<int>* ids;
  { NP; nthr = 2 + gen(3); ids = new std::vector<int>; base = live_allocs(); }
  d = new Doc; d->refs = nthr; d->edits = 0;
  for (int t = 0; t < nthr; t++) {
    int id = spawn("user", [d] {
      int n; { NP; n = gen(3); }
      for (int k = 0; k < n; k++) {
        int op; { NP; op = gen(3); }
        if (op == 0) d->m.lock();
        else if (op == 1) { if (!d->m.trylock()) continue; }
        else { ecl::Duration w(0, 5000); if (!d->m.trylock(w)) continue; }
        d->edits++;
        sched_yield();
        d->m.unlock();
      }
      d->m.lock();
      bool last = --d->refs == 0;
      d->m.unlock();
      if (last) { delete d; NP; nontrivial(); }
    });
    NP; ids->push_back(id);
  }
  for (int id : *ids) join_fiber(id);
  NP;
  if (live_allocs() != base) fail("leak", "%zu blocks remain after the mutex was destroyed", live_allocs() - base);
}

SCENARIO(priority, "C05") {
  int nthr, mode; int* wt;
  {
    NP; vk_privileged = gen(3) != 2; nthr = 1 + gen(3); mode = gen(2); wt = new int[16];
    if (faulty()) {
      const char* ks[] = {"setpriority", "sched_setscheduler", "sched_getscheduler", "sched_getparam", "sched_get_priority"};
      for (auto k : ks) if (gencoin(1, 2)) enable_fault(k, 1, 4);
      set_fault_budget(1 + gen(4));
    }
  }
  if (mode == 0) {          // one or several threads walk through priorities, independently
    std::vector<int>* ids; { NP; ids = new std::vector<int>; }
    for (int t = 0; t < nthr; t++) {
      int id = spawn("walker", [] { int n; { NP; n = 1 + gen(8); } prio_walk(n, ecl::NormalPriority, true); });
      NP; ids->push_back(id);
    }
    for (size_t k = 0; k < ids->size(); k++) join_fiber((*ids)[k]);
  } else {                  // a thread created with a priority runs with it (or with its creator's)
    ecl::Priority base; { NP; base = gen(3) == 2 ? real_prios[gen(9)] : ecl::NormalPriority; }
    int r; ecl::ErrorFlag fl; bool ok = false;
    TRY(r, fl, ok = ecl::set_priority(base));
    int inherited; { NP; inherited = weight(g_cur); }
    PBody* b; PCall* call; { NP; b = pb = new PBody[4]; call = new PCall[4]; }
    for (int t = 0; t < nthr; t++) {
      { NP; b[t].p = gen(5) == 4 ? ecl::DefaultPriority : real_prios[gen(9)]; b[t].inherited = inherited; b[t].done = 0; }
      int form; { NP; form = gen(6); call[t].b = &b[t]; }
      ecl::Thread* th;
      switch (form) {
        case 0: th = new ecl::Thread(&PBody::run, b[t], b[t].p); break;
        case 1: th = new ecl::Thread; th->start(&PBody::run, b[t], b[t].p); break;
        case 2: th = new ecl::Thread(call[t], b[t].p); break;
        case 3: th = new ecl::Thread; th->start(ecl::ref(call[t]), b[t].p); break;
        case 4: th = new ecl::Thread(pruns[t], b[t].p); break;
        default: th = new ecl::Thread; th->start(pruns[t], b[t].p); break;
      }
      bool c; { NP; c = gen(2); }
      if (c) th->join();
      delete th;
      NP; if (c && !b[t].done) fail("thread-priority", "the task of a thread created with priority %d did not run", (int)b[t].p);
      if (weight(g_cur) != inherited) fail("thread-priority", "creating a thread with priority %d changed the scheduling of its creator", (int)b[t].p);
    }
    for (int i = 0; i < 100 && live_pthreads(); i++) sleep_ns(100000);
    NP;
    for (int t = 0; t < nthr; t++) if (!b[t].done) fail("thread-priority", "the task of a thread created with priority %d did not run", (int)b[t].p);
  }
}
