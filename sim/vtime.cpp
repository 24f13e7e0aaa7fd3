// Simulated clocks and sleeping.
#include "fiber.hpp"
#include "runner.hpp"
#include "vk.hpp"
#include "wrap.hpp"
#include <time.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/times.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>

namespace sim {
static std::vector<ClockRead>* g_reads;
static bool g_clog = false;
void clock_log(bool on) { Guard g; g_clog = on; if (!g_reads) g_reads = new std::vector<ClockRead>; g_reads->clear(); }
std::vector<ClockRead>& clock_reads() { Guard g; if (!g_reads) g_reads = new std::vector<ClockRead>; return *g_reads; }

static bool read_clock(clockid_t c, i64& v) {
  switch (c) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: v = realtime(); return true;
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME: v = (i64)now(); return true;
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: v = (i64)cpu_time(); return true;
    default: return false;
  }
}
static void to_ts(i64 v, struct timespec* t) { t->tv_sec = v / 1000000000ll; t->tv_nsec = v % 1000000000ll; }
static i64 from_ts(const struct timespec* t) { return t->tv_sec > 8000000000ll ? INT64_MAX - 1 : (i64)t->tv_sec * 1000000000ll + t->tv_nsec; }

// Relative sleep. Returns 0 or EINTR and the remaining time.
static int do_sleep(i64 ns, i64* rem) {
  WaitOpts o;
  u64 start = now();
  o.mono_deadline = start + (u64)ns;
  // a sleeping thread oversleeps: wake-up latency
  u64 late = env(4) == 3 ? env(3000000) : env(2000);
  o.mono_deadline += late;
  o.interruptible = true;
  o.cancellable = true;
  if (ns > 0 && fault("sleep.eintr")) g_cur->intr_at = start + (u64)(env(3) == 0 ? env(2) : env((u64)ns > 1000000000000ull ? 1000000000000ull : (u64)ns));
  WaitResult r = kwait("sleep", [] { return false; }, o);
  g_cur->intr_at = INF;
  if (r == INTERRUPTED) {
    i64 left = (i64)(start + (u64)ns) - (i64)now();
    if (rem) *rem = left > 0 ? left : 0;
    return EINTR;
  }
  return 0;
}
}
using namespace sim;
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_gettimeofday(struct timeval*, void*);
time_t __real_time(time_t*);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __real_usleep(useconds_t);
unsigned __real_sleep(unsigned);
clock_t __real_clock(void);
int __real_clock_getres(clockid_t, struct timespec*);
int __real_timespec_get(struct timespec*, int);
int __real_getrusage(int, struct rusage*);
clock_t __real_times(struct tms*);
int __real_clock_settime(clockid_t, const struct timespec*);

int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
  LIVE(__real_clock_gettime(c, t));
  yield_point("clock_gettime"); SCRIPT("clock_gettime");
  i64 v;
  if (!read_clock(c, v)) { errno = EINVAL; return -1; }
  if (fault("clock.fail")) { errno = EPERM; return -1; }
  if (g_clog) { ClockRead r = {(int)c, v, steps(), self()}; clock_reads().push_back(r); }
  to_ts(v, t);
  return 0;
}
int __wrap_gettimeofday(struct timeval* t, void* z) {
  LIVE(__real_gettimeofday(t, z));
  yield_point("gettimeofday"); SCRIPT("gettimeofday");
  i64 v = realtime();
  if (g_clog) { ClockRead r = {(int)CLOCK_REALTIME, v, steps(), self()}; clock_reads().push_back(r); }
  t->tv_sec = v / 1000000000ll; t->tv_usec = v % 1000000000ll / 1000;
  return 0;
}
time_t __wrap_time(time_t* t) { LIVE(__real_time(t)); time_t v = realtime() / 1000000000ll; if (t) *t = v; return v; }
int __wrap_clock_getres(clockid_t c, struct timespec* t) { LIVE(__real_clock_getres(c, t)); i64 v; if (!read_clock(c, v)) { errno = EINVAL; return -1; } if (t) { t->tv_sec = 0; t->tv_nsec = 1; } return 0; }
int __wrap_timespec_get(struct timespec* t, int base) { LIVE(__real_timespec_get(t, base)); if (base != TIME_UTC) return 0; to_ts(realtime(), t); return base; }
int __wrap_getrusage(int who, struct rusage* u) {
  LIVE(__real_getrusage(who, u));
  memset(u, 0, sizeof *u);
  i64 v = (i64)cpu_time();
  u->ru_utime.tv_sec = v / 1000000000; u->ru_utime.tv_usec = v % 1000000000 / 1000;
  return 0;
}
clock_t __wrap_times(struct tms* b) {
  LIVE(__real_times(b));
  memset(b, 0, sizeof *b);
  b->tms_utime = cpu_time() / (1000000000 / sysconf(_SC_CLK_TCK));
  return (clock_t)(now() / (1000000000 / sysconf(_SC_CLK_TCK)));
}
clock_t __wrap_clock(void) { LIVE(__real_clock()); return (clock_t)(cpu_time() / 1000); }
int __wrap_clock_settime(clockid_t c, const struct timespec* t) { LIVE(__real_clock_settime(c, t)); errno = EPERM; return -1; }
int __wrap_nanosleep(const struct timespec* q, struct timespec* rem) {
  LIVE(__real_nanosleep(q, rem));
  yield_point("nanosleep"); SCRIPT("nanosleep");
  if (q->tv_sec < 0 || q->tv_nsec < 0 || q->tv_nsec >= 1000000000l) { errno = EINVAL; log("nanosleep EINVAL"); return -1; }
  i64 ns = from_ts(q);
  log("nanosleep %lld", (long long)ns);
  i64 left = 0;
  int e = do_sleep(ns, &left);
  if (e) { if (rem) to_ts(left, rem); errno = e; return -1; }
  return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec* q, struct timespec* rem) {
  LIVE(__real_clock_nanosleep(c, flags, q, rem));
  yield_point("clock_nanosleep"); SCRIPT_RC("clock_nanosleep");
  if (q->tv_sec < 0 || q->tv_nsec < 0 || q->tv_nsec >= 1000000000l) { log("clock_nanosleep EINVAL"); return EINVAL; }
  i64 v;
  if (!read_clock(c, v) || c == CLOCK_THREAD_CPUTIME_ID) return EINVAL;
  i64 t = from_ts(q);
  log("clock_nanosleep clk=%d %s %lld", (int)c, flags & TIMER_ABSTIME ? "until" : "for", (long long)t);
  if (!(flags & TIMER_ABSTIME)) { i64 left = 0; int e = do_sleep(t, &left); if (e && rem) to_ts(left, rem); return e; }
  if (c == CLOCK_REALTIME) {
    WaitOpts o;
    o.real_deadline = t;
    o.interruptible = o.cancellable = true;
    if (fault("sleep.eintr")) g_cur->intr_at = now() + env(1000000000);
    WaitResult r = kwait("clock_nanosleep", [] { return false; }, o);
    g_cur->intr_at = INF;
    return r == INTERRUPTED ? EINTR : 0;
  }
  i64 d = t - (i64)now();
  if (d <= 0) return 0;
  return do_sleep(d, nullptr);
}
int __wrap_usleep(useconds_t us) {
  LIVE(__real_usleep(us));
  yield_point("usleep");
  log("usleep %u", us);
  int e = do_sleep((i64)us * 1000, nullptr);
  if (e) { errno = e; return -1; }
  return 0;
}
unsigned __wrap_sleep(unsigned s) {
  LIVE(__real_sleep(s));
  yield_point("sleep");
  i64 left = 0;
  int e = do_sleep((i64)s * 1000000000ll, &left);
  return e ? (unsigned)((left + 999999999ll) / 1000000000ll) : 0;
}
}
