// Simulated pthreads, scheduling parameters and C++ static-init guards.
#include "fiber.hpp"
#include "runner.hpp"
#include "vk.hpp"
#include "wrap.hpp"
#include <pthread.h>
#include <sched.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <sys/resource.h>

namespace sim {
// ---------------------------------------------------------------- mutexes
struct VMutex { int type = 0; int owner = -1; int count = 0; bool destroyed = false; };
struct VCondWaiter { bool woken = false; };
struct VCond { std::deque<VCondWaiter*> q; };
struct VRw { int readers = 0; int writer = -1; };
static std::map<const void*, VMutex>& mutexes() { static std::map<const void*, VMutex>* m = new std::map<const void*, VMutex>; return *m; }
static std::map<const void*, VCond>& conds() { static std::map<const void*, VCond>* m = new std::map<const void*, VCond>; return *m; }
static std::map<const void*, VRw>& rws() { static std::map<const void*, VRw>* m = new std::map<const void*, VRw>; return *m; }
bool vk_privileged = true;

static VMutex* get(const pthread_mutex_t* m, const char* by) {
  check_range(m, sizeof *m, false, by);
  auto& M = mutexes();
  auto it = M.find(m);
  if (it != M.end()) {
    if (it->second.destroyed) {
      fail("mutex-misuse", "%s on a destroyed mutex", by);
    }
    return &it->second;
  }
  pthread_mutex_t z;
  memset(&z, 0, sizeof z);
  pthread_mutex_t r = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP, e = PTHREAD_ERRORCHECK_MUTEX_INITIALIZER_NP;
  pthread_mutex_t n = *m;
  n.__data.__kind &= ~(256 | 512);              // elision bits set by a real initialisation before the run (static objects)
  VMutex v;
  if (!memcmp(&n, &z, sizeof z)) v.type = PTHREAD_MUTEX_NORMAL;
  else if (!memcmp(&n, &r, sizeof z)) v.type = PTHREAD_MUTEX_RECURSIVE;
  else if (!memcmp(&n, &e, sizeof z)) v.type = PTHREAD_MUTEX_ERRORCHECK;
  else fail("mutex-misuse", "%s on an uninitialised mutex", by);
  return &(M[m] = v);
}
static int lock_impl(pthread_mutex_t* m, const char* by, bool try_only, const WaitOpts* o, bool bad_time) {
  yield_point(by);
  VMutex* v = get(m, by);
  int me = self();
  if (v->owner == me) {
    if (v->type == PTHREAD_MUTEX_RECURSIVE) { v->count++; return 0; }
    if (try_only) return EBUSY;
    if (v->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (v->owner < 0) { v->owner = me; v->count = 1; race_acquire(m); log("%s: acquired", by); return 0; }
  log("%s: held by %s", by, fname(v->owner));
  if (try_only) return EBUSY;
  if (bad_time) return EINVAL;
  WaitOpts opts;
  if (o) opts = *o;
  probe("mutex.contended");
  nontrivial();
  for (;;) {
    WaitResult r = kwait(by, [v] { return v->owner < 0 || v->destroyed; }, opts);
    if (v->destroyed) fail("mutex-misuse", "mutex destroyed while %s waits for it", fname(me));
    if (r == TIMEDOUT) return ETIMEDOUT;
    if (v->owner < 0) { v->owner = me; v->count = 1; race_acquire(m); log("%s: acquired", by); return 0; }
  }
}
static int unlock_impl(pthread_mutex_t* m) {
  VMutex* v = get(m, "mutex_unlock");
  int me = self();
  if (v->owner != me) {
    if (v->type == PTHREAD_MUTEX_ERRORCHECK || v->type == PTHREAD_MUTEX_RECURSIVE) return EPERM;
    if (v->owner >= 0) probe("mutex.unlock_by_other");
  }
  race_release(m);
  if (--v->count <= 0) { v->owner = -1; v->count = 0; }
  log("mutex_unlock");
  touch();
  return 0;
}
int mutex_owner(const void* m) { auto it = mutexes().find(m); return it == mutexes().end() ? -1 : it->second.owner; }
WaitOpts vk_deadline(clockid_t c, const struct timespec* t) {
  WaitOpts o;
  i64 v = (i64)t->tv_sec * 1000000000ll + t->tv_nsec;
  if (t->tv_sec > 4000000000ll) v = INT64_MAX - 1;
  if (c == CLOCK_REALTIME) o.real_deadline = v; else o.mono_deadline = v < 0 ? 0 : (u64)v;
  return o;
}
static bool bad_ts(const struct timespec* t) { return t->tv_nsec < 0 || t->tv_nsec >= 1000000000l; }

// ---------------------------------------------------------------- threads
static const u64 HBASE = 0x7400000000ull;
static Fiber* handle(pthread_t t, const char* by) {
  u64 i = (u64)t - HBASE;
  if ((i & 0xff) != 0 || (i >> 8) >= g_fibers->size() || !(*g_fibers)[i >> 8]->is_pthread)
    fail("thread-handle-misuse", "%s on a value that is not a thread handle", by);
  Fiber* f = (*g_fibers)[i >> 8];
  if (f->joined) fail("thread-handle-misuse", "%s on a thread that was already joined", by);
  if (f->detached && f->state == DONE) fail("thread-handle-misuse", "%s on a detached thread that has ended", by);
  return f;
}
std::vector<std::pair<int, int>>* g_reaped;
int live_pthreads() { int n = 0; for (Fiber* f : *g_fibers) if (f->is_pthread && f->state != DONE && !f->dead) n++; return n; }
int unreaped_pthreads() { int n = 0; for (Fiber* f : *g_fibers) if (f->is_pthread && f->state == DONE && !f->joined && !f->detached) n++; return n; }
}  // namespace sim
using namespace sim;
extern "C" {
#define R(ret, name, args) ret __real_##name args;
R(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*))
R(int, pthread_mutex_destroy, (pthread_mutex_t*))
R(int, pthread_mutex_lock, (pthread_mutex_t*))
R(int, pthread_mutex_trylock, (pthread_mutex_t*))
R(int, pthread_mutex_timedlock, (pthread_mutex_t*, const struct timespec*))
R(int, pthread_mutex_clocklock, (pthread_mutex_t*, clockid_t, const struct timespec*))
R(int, pthread_mutex_unlock, (pthread_mutex_t*))
R(int, pthread_cond_init, (pthread_cond_t*, const pthread_condattr_t*))
R(int, pthread_cond_destroy, (pthread_cond_t*))
R(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
R(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*))
R(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))
R(int, pthread_cond_signal, (pthread_cond_t*))
R(int, pthread_cond_broadcast, (pthread_cond_t*))
R(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
R(int, pthread_join, (pthread_t, void**))
R(int, pthread_tryjoin_np, (pthread_t, void**))
R(int, pthread_timedjoin_np, (pthread_t, void**, const struct timespec*))
R(int, pthread_detach, (pthread_t))
R(int, pthread_cancel, (pthread_t))
R(int, pthread_kill, (pthread_t, int))
R(void, pthread_testcancel, (void))
R(int, pthread_setcancelstate, (int, int*))
R(int, pthread_setcanceltype, (int, int*))
R(pthread_t, pthread_self, (void))
R(int, pthread_equal, (pthread_t, pthread_t))
R(int, pthread_once, (pthread_once_t*, void (*)(void)))
R(int, pthread_attr_setstacksize, (pthread_attr_t*, size_t))
R(void*, pthread_getspecific, (pthread_key_t))
R(int, pthread_setspecific, (pthread_key_t, const void*))
R(int, pthread_setschedparam, (pthread_t, int, const struct sched_param*))
R(int, pthread_getschedparam, (pthread_t, int*, struct sched_param*))
R(int, pthread_rwlock_rdlock, (pthread_rwlock_t*))
R(int, pthread_rwlock_wrlock, (pthread_rwlock_t*))
R(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
R(int, pthread_spin_lock, (pthread_spinlock_t*))
R(int, pthread_spin_trylock, (pthread_spinlock_t*))
R(int, pthread_spin_init, (pthread_spinlock_t*, int))
R(int, pthread_rwlock_init, (pthread_rwlock_t*, const pthread_rwlockattr_t*))
R(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*))
R(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*))
R(int, pthread_setname_np, (pthread_t, const char*))
R(int, pthread_spin_unlock, (pthread_spinlock_t*))
R(int, sched_yield, (void))
R(int, sched_getscheduler, (pid_t))
R(int, sched_setscheduler, (pid_t, int, const struct sched_param*))
R(int, sched_getparam, (pid_t, struct sched_param*))
R(int, sched_setparam, (pid_t, const struct sched_param*))
R(int, sched_get_priority_min, (int))
R(int, sched_get_priority_max, (int))
R(int, setpriority, (__priority_which_t, id_t, int))
R(int, getpriority, (__priority_which_t, id_t))
R(int, nice, (int))
R(int, __cxa_guard_acquire, (u64*))
R(void, __cxa_guard_release, (u64*))
R(void, __cxa_guard_abort, (u64*))

int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  LIVE(__real_pthread_mutex_init(m, a));
  check_range(m, sizeof *m, true, "pthread_mutex_init");
  SCRIPT_RC("pthread_mutex_init");
  if (fault("mutex_init")) return ENOMEM;
  int type = PTHREAD_MUTEX_NORMAL;
  if (a) pthread_mutexattr_gettype(a, &type);
  VMutex v;
  v.type = type;
  mutexes()[m] = v;
  memset(m, 0, sizeof *m);
  return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
  LIVE(__real_pthread_mutex_destroy(m));
  VMutex* v = get(m, "mutex_destroy");
  if (v->owner >= 0) { probe("mutex.destroy_locked"); return EBUSY; }
  v->destroyed = true;
  touch();
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { LIVE(__real_pthread_mutex_lock(m)); SCRIPT_RC("pthread_mutex_lock"); return lock_impl(m, "mutex_lock", false, nullptr, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { LIVE(__real_pthread_mutex_trylock(m)); SCRIPT_RC("pthread_mutex_trylock"); return lock_impl(m, "mutex_trylock", true, nullptr, false); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  LIVE(__real_pthread_mutex_timedlock(m, t));
  WaitOpts o = vk_deadline(CLOCK_REALTIME, t);
  SCRIPT_RC("pthread_mutex_timedlock"); return lock_impl(m, "mutex_timedlock", false, &o, bad_ts(t));
}
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) {
  LIVE(__real_pthread_mutex_clocklock(m, c, t));
  if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC) return EINVAL;
  WaitOpts o = vk_deadline(c, t);
  SCRIPT_RC("pthread_mutex_clocklock"); return lock_impl(m, "mutex_clocklock", false, &o, bad_ts(t));
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  LIVE(__real_pthread_mutex_unlock(m));
  SCRIPT_RC("pthread_mutex_unlock");
  int r = unlock_impl(m);
  yield_point("mutex_unlock");
  return r;
}
// ---- condition variables
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { LIVE(__real_pthread_cond_init(c, a)); conds()[c] = VCond(); memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { LIVE(__real_pthread_cond_destroy(c)); if (!conds()[c].q.empty()) return EBUSY; conds().erase(c); return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, const WaitOpts* o) {
  check_range(c, sizeof *c, false, "pthread_cond_wait");
  yield_point("cond_wait");
  VCond& v = conds()[c];
  VCondWaiter* w = new VCondWaiter;
  v.q.push_back(w);
  int u = unlock_impl(m);
  if (u) return u;
  WaitOpts opts;
  if (o) opts = *o;
  opts.cancellable = true;
  bool spurious = fault("spurious_wakeup");
  WaitResult r = kwait("cond_wait", [w, spurious] { return w->woken || spurious; }, opts);
  if (!w->woken) { auto& q = conds()[c].q; for (auto i = q.begin(); i != q.end(); ++i) if (*i == w) { q.erase(i); break; } }
  int l = lock_impl(m, "cond_relock", false, nullptr, false);
  if (l) return l;
  return r == TIMEDOUT ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { LIVE(__real_pthread_cond_wait(c, m)); return cond_wait(c, m, nullptr); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { LIVE(__real_pthread_cond_timedwait(c, m, t)); if (bad_ts(t)) return EINVAL; WaitOpts o = vk_deadline(CLOCK_REALTIME, t); return cond_wait(c, m, &o); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { LIVE(__real_pthread_cond_clockwait(c, m, k, t)); if (bad_ts(t)) return EINVAL; WaitOpts o = vk_deadline(k, t); return cond_wait(c, m, &o); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  LIVE(__real_pthread_cond_signal(c));
  check_range(c, sizeof *c, false, "pthread_cond_signal");
  auto& q = conds()[c].q;
  if (!q.empty()) { q.front()->woken = true; q.pop_front(); touch(); }
  yield_point("cond_signal");
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  LIVE(__real_pthread_cond_broadcast(c));
  check_range(c, sizeof *c, false, "pthread_cond_broadcast");
  auto& q = conds()[c].q;
  for (auto* w : q) w->woken = true;
  q.clear();
  touch();
  yield_point("cond_broadcast");
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  LIVE(__real_pthread_rwlock_rdlock(l));
  yield_point("rdlock");
  kwait("rdlock", [l] { return rws()[l].writer < 0; });
  rws()[l].readers++;
  race_acquire(l);
  return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  LIVE(__real_pthread_rwlock_wrlock(l));
  yield_point("wrlock");
  kwait("wrlock", [l] { return rws()[l].writer < 0 && rws()[l].readers == 0; });
  rws()[l].writer = self();
  race_acquire(l);
  return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) {
  LIVE(__real_pthread_rwlock_unlock(l));
  VRw& r = rws()[l];
  race_release(l);
  if (r.writer == self()) r.writer = -1; else if (r.readers) r.readers--;
  touch();
  yield_point("rwunlock");
  return 0;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  LIVE(__real_pthread_rwlock_tryrdlock(l));
  yield_point("tryrdlock");
  if (rws()[l].writer >= 0) return EBUSY;
  rws()[l].readers++;
  race_acquire(l);
  return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  LIVE(__real_pthread_rwlock_trywrlock(l));
  yield_point("trywrlock");
  if (rws()[l].writer >= 0 || rws()[l].readers) return EBUSY;
  rws()[l].writer = self();
  race_acquire(l);
  return 0;
}
int __wrap_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a) { LIVE(__real_pthread_rwlock_init(l, a)); rws()[l] = VRw(); return __real_pthread_rwlock_init(l, a); }
int __wrap_pthread_spin_init(pthread_spinlock_t* l, int sh) { LIVE(__real_pthread_spin_init(l, sh)); rws()[(void*)l] = VRw(); return __real_pthread_spin_init(l, sh); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t* l) {
  LIVE(__real_pthread_spin_trylock(l));
  yield_point("spin_trylock");
  if (rws()[(void*)l].writer >= 0) return EBUSY;
  rws()[(void*)l].writer = self(); race_acquire((void*)l);
  return 0;
}
int __wrap_pthread_setname_np(pthread_t t, const char* n) { LIVE(__real_pthread_setname_np(t, n)); return strlen(n) > 15 ? ERANGE : 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* l) {
  LIVE(__real_pthread_spin_lock(l));
  yield_point("spin_lock");
  kwait("spin_lock", [l] { return rws()[(void*)l].writer < 0; });
  rws()[(void*)l].writer = self(); race_acquire((void*)l);
  return 0;
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t* l) { LIVE(__real_pthread_spin_unlock(l)); race_release((void*)l); rws()[(void*)l].writer = -1; touch(); return 0; }

// ---- threads
int __wrap_pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  LIVE(__real_pthread_create(out, a, fn, arg));
  yield_point("pthread_create"); SCRIPT_RC("pthread_create");
  if (fault("pthread_create")) return env(2) ? EPERM : EAGAIN;
  char name[24];
  snprintf(name, sizeof name, "T%zu", g_fibers->size());
  Fiber* f = new_fiber(name, std::function<void()>(), g_cur->proc);
  f->is_pthread = true;
  f->start = fn;
  f->arg = arg;
  if (a) { int ds; pthread_attr_getdetachstate(a, &ds); f->detached = ds == PTHREAD_CREATE_DETACHED; pthread_attr_getstacksize(a, &f->stack_asked); }
  f->policy = g_cur->policy;
  f->prio = g_cur->prio;
  f->nice = g_cur->nice;
  f->fn = [f] { f->retval = f->start(f->arg); };
  *out = (pthread_t)(HBASE + ((u64)f->id << 8));
  log("pthread_create -> %s", name);
  yield_point("pthread_create.ret");
  return 0;
}
static int join_impl(pthread_t t, void** rv, const WaitOpts& o, bool try_only) {
  Fiber* f = handle(t, "pthread_join");
  if (f->detached) return EINVAL;
  if (f == g_cur) return EDEADLK;
  if (try_only && f->state != DONE && !f->dead) return EBUSY;
  WaitOpts w = o;
  w.cancellable = true;
  WaitResult r = kwait("pthread_join", [f] { return f->state == DONE || f->dead; }, w);
  if (r == TIMEDOUT) return ETIMEDOUT;
  if (f->joined) fail("thread-handle-misuse", "two threads joined the same thread");
  f->joined = true;
  race_join(f->id);
  if (rv) *rv = f->cancelled ? (void*)-1 : f->retval;
  return 0;
}
int __wrap_pthread_join(pthread_t t, void** rv) { LIVE(__real_pthread_join(t, rv)); yield_point("pthread_join"); SCRIPT_RC("pthread_join"); return join_impl(t, rv, WaitOpts(), false); }
int __wrap_pthread_tryjoin_np(pthread_t t, void** rv) { LIVE(__real_pthread_tryjoin_np(t, rv)); yield_point("pthread_tryjoin"); return join_impl(t, rv, WaitOpts(), true); }
int __wrap_pthread_timedjoin_np(pthread_t t, void** rv, const struct timespec* ts) { LIVE(__real_pthread_timedjoin_np(t, rv, ts)); yield_point("pthread_timedjoin"); return join_impl(t, rv, vk_deadline(CLOCK_REALTIME, ts), false); }
int __wrap_pthread_detach(pthread_t t) {
  LIVE(__real_pthread_detach(t));
  yield_point("pthread_detach");
  Fiber* f = handle(t, "pthread_detach");
  if (f->detached) return EINVAL;
  f->detached = true;
  return 0;
}
int __wrap_pthread_cancel(pthread_t t) {
  LIVE(__real_pthread_cancel(t));
  yield_point("pthread_cancel"); SCRIPT_RC("pthread_cancel");
  Fiber* f = handle(t, "pthread_cancel");
  if (f->state == DONE) return 0;       // glibc >= 2.34
  f->cancel_requested = true;
  log("cancel requested for %s", f->name.c_str());
  touch();
  yield_point("pthread_cancel.ret");
  return 0;
}
int __wrap_pthread_kill(pthread_t t, int sig) {
  LIVE(__real_pthread_kill(t, sig));
  yield_point("pthread_kill");
  Fiber* f = handle(t, "pthread_kill");
  if (f->state == DONE) return 0;
  if (sig) { f->intr = true; touch(); }
  return 0;
}
void __wrap_pthread_exit(void* v) {
  { Guard g; g_cur->retval = v; g_cur->unwinding = true; }
  throw detail::CancelUnwind();
}
void __wrap_pthread_testcancel() { if (!g_live) return; Guard g; yield_point("testcancel"); detail::cancellation_point(); }
int __wrap_pthread_setcancelstate(int s, int* old) { LIVE(__real_pthread_setcancelstate(s, old)); if (old) *old = g_cur->cancel_disabled ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE; g_cur->cancel_disabled = s == PTHREAD_CANCEL_DISABLE; return 0; }
int __wrap_pthread_setcanceltype(int s, int* old) { LIVE(__real_pthread_setcanceltype(s, old)); if (old) *old = PTHREAD_CANCEL_DEFERRED; return 0; }
pthread_t __wrap_pthread_self() { LIVE(__real_pthread_self()); return (pthread_t)(HBASE + ((u64)g_cur->id << 8)); }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int __wrap_pthread_attr_setstacksize(pthread_attr_t* a, size_t n) {
  LIVE(__real_pthread_attr_setstacksize(a, n)); SCRIPT_RC("pthread_attr_setstacksize");
  if (n < 16384) return EINVAL;
  return __real_pthread_attr_setstacksize(a, n);
}
void* __wrap_pthread_getspecific(pthread_key_t k) { LIVE(__real_pthread_getspecific(k)); auto it = g_cur->specific.find(k); return it == g_cur->specific.end() ? nullptr : it->second; }
int __wrap_pthread_setspecific(pthread_key_t k, const void* v) { LIVE(__real_pthread_setspecific(k, v)); g_cur->specific[k] = const_cast<void*>(v); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!g_live) return __real_pthread_once(o, fn);
  int* st = (int*)o;
  { Guard g; yield_point("pthread_once"); kwait("pthread_once", [st] { return *st != 77; }); if (*st == 78) { race_acquire(o); return 0; } *st = 77; }
  fn();
  { Guard g; race_release(o); *st = 78; touch(); }
  return 0;
}
int __wrap___cxa_guard_acquire(u64* g) {
  if (!g_live) { if (*(char*)g) return 0; if (((char*)g)[1]) return 0; return __real___cxa_guard_acquire(g); }
  Guard gg;
  char* c = (char*)g;
  if (c[0]) { race_acquire(g); return 0; }
  kwait("static-init", [c] { return c[0] || !c[1]; });
  if (c[0]) { race_acquire(g); return 0; }
  c[1] = 1;
  race_acquire(g);
  return 1;
}
void __wrap___cxa_guard_release(u64* g) { Guard gg; race_release(g); char* c = (char*)g; c[0] = 1; c[1] = 0; touch(); }
void __wrap___cxa_guard_abort(u64* g) { Guard gg; race_release(g); char* c = (char*)g; c[0] = 0; c[1] = 0; touch(); }

// ---- scheduling parameters (per simulated thread, as on Linux)
int __wrap_sched_yield() { LIVE(__real_sched_yield()); yield_point("sched_yield"); return 0; }
int __wrap_sched_getscheduler(pid_t p) {
  LIVE(__real_sched_getscheduler(p));
  yield_point("sched_getscheduler"); SCRIPT("sched_getscheduler");
  if (fault("sched_getscheduler")) { errno = EPERM; return -1; }
  return g_cur->policy;
}
int __wrap_sched_setscheduler(pid_t p, int pol, const struct sched_param* sp) {
  LIVE(__real_sched_setscheduler(p, pol, sp));
  yield_point("sched_setscheduler"); SCRIPT("sched_setscheduler");
  bool rt = pol == SCHED_RR || pol == SCHED_FIFO;
  if (rt ? (sp->sched_priority < 1 || sp->sched_priority > 99) : sp->sched_priority != 0) { errno = EINVAL; return -1; }
  if ((rt && !vk_privileged && !(g_cur->policy == pol && sp->sched_priority <= g_cur->prio)) || (rt && fault("sched_setscheduler"))) { errno = EPERM; return -1; }
  g_cur->policy = pol;
  g_cur->prio = sp->sched_priority;
  log("sched_setscheduler policy=%d prio=%d", pol, g_cur->prio);
  return 0;
}
int __wrap_sched_getparam(pid_t p, struct sched_param* sp) {
  LIVE(__real_sched_getparam(p, sp));
  yield_point("sched_getparam"); SCRIPT("sched_getparam");
  if (fault("sched_getparam")) { errno = EPERM; return -1; }
  sp->sched_priority = g_cur->prio;
  return 0;
}
int __wrap_sched_setparam(pid_t p, const struct sched_param* sp) {
  if (!g_live) return __real_sched_setparam(p, sp);
  return __wrap_sched_setscheduler(p, g_cur->policy, sp);
}
int __wrap_sched_get_priority_min(int pol) { LIVE(__real_sched_get_priority_min(pol)); if (pol == SCHED_RR || pol == SCHED_FIFO) { if (fault("sched_get_priority")) { errno = EINVAL; return -1; } return 1; } return 0; }
int __wrap_sched_get_priority_max(int pol) { LIVE(__real_sched_get_priority_max(pol)); if (pol == SCHED_RR || pol == SCHED_FIFO) { if (fault("sched_get_priority")) { errno = EINVAL; return -1; } return 99; } return 0; }
int __wrap_pthread_setschedparam(pthread_t t, int pol, const struct sched_param* sp) {
  LIVE(__real_pthread_setschedparam(t, pol, sp));
  yield_point("pthread_setschedparam");
  Fiber* f = handle(t, "pthread_setschedparam");
  bool rt = pol == SCHED_RR || pol == SCHED_FIFO;
  if (rt ? (sp->sched_priority < 1 || sp->sched_priority > 99) : sp->sched_priority != 0) return EINVAL;
  if (rt && (!vk_privileged || fault("sched_setscheduler"))) return EPERM;
  f->policy = pol; f->prio = sp->sched_priority;
  return 0;
}
int __wrap_pthread_getschedparam(pthread_t t, int* pol, struct sched_param* sp) {
  LIVE(__real_pthread_getschedparam(t, pol, sp));
  u64 i = ((u64)t - HBASE) >> 8;
  Fiber* f = i < g_fibers->size() ? (*g_fibers)[i] : nullptr;
  if (!f) return ESRCH;
  *pol = f->policy; sp->sched_priority = f->prio;
  return 0;
}
int __wrap_setpriority(__priority_which_t w, id_t id, int v) {
  LIVE(__real_setpriority(w, id, v));
  yield_point("setpriority"); SCRIPT("setpriority");
  if (v < -20) v = -20;
  if (v > 19) v = 19;
  if (fault("setpriority")) { errno = EPERM; return -1; }
  if (v < g_cur->nice && !vk_privileged) { errno = EACCES; note_fault("setpriority.eacces"); return -1; }
  g_cur->nice = v;
  log("setpriority %d", v);
  return 0;
}
int __wrap_getpriority(__priority_which_t w, id_t id) { LIVE(__real_getpriority(w, id)); yield_point("getpriority"); SCRIPT("getpriority"); return g_cur->nice; }
int __wrap_nice(int inc) {
  if (!g_live) return __real_nice(inc);
  return __wrap_setpriority(PRIO_PROCESS, 0, g_cur->nice + inc) ? -1 : g_cur->nice;
}
}
