// C06 sleeps, C07 Snooze, C08 StopWatch/CpuWatch/TimeStamp, C09 FrequencyMonitor
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/time/sleep.hpp>
#include <ecl/time/snooze.hpp>
#include <ecl/time/stopwatch.hpp>
#include <ecl/time/cpuwatch.hpp>
#include <ecl/time/timestamp.hpp>
#include <ecl/time/duration.hpp>
#include <ecl/time/frequency.hpp>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <math.h>
#include <stdio.h>
#include <sstream>

using namespace sim;
namespace {
const i64 SEC = 1000000000ll;
// what a call may cost by itself, and the most a simulated sleep oversleeps on top of that
#define OVH ((i64)(100000 + 12 * g_strategy.step_ns))
#define LATE (3000000 + OVH)
bool noisy;
std::vector<int>* noise;
bool stop_noise;
// Other activity on the machine: threads that burn cpu or sleep, and steps of the wall clock.
void environment(bool jumps) {
  NP;
  noise = new std::vector<int>;
  stop_noise = false;
  noisy = gencoin(1, 2);
  int n = noisy ? 1 + gen(2) : 0;
  for (int i = 0; i < n; i++) {
    int kind = gen(2);
    noise->push_back(spawn("noise", [kind] {
      for (int k = 0; k < 60; k++) {
        bool s; { NP; s = stop_noise; }
        if (s) return;
        if (kind) { sched_yield(); NP; advance(env(4) * 1000); }
        else sleep_ns(1000 + env(2000000));
      }
    }));
  }
  if (jumps && gencoin(2, 3)) {
    int m = 1 + gen(4);
    for (int i = 0; i < m; i++) {
      u64 t = gen(4) == 0 ? gen(2000000) : gen(3) * SEC + gen(SEC);
      static const i64 D[] = {SEC, -SEC, 3600 * SEC, -3600 * SEC, 5000000, -5000000, 86400 * 365 * SEC, -86400 * 365 * SEC};
      i64 d = D[gen(8)];
      after(t, [d] { jump_realtime(d); note_fault("clock_step"); });
    }
  }
}
void environment_end() {
  { NP; stop_noise = true; }
  for (size_t i = 0; i < noise->size(); i++) join_fiber((*noise)[i]);
}
i64 ns_of(const ecl::TimeStampBase& t) { NP; return (i64)t.sec() * SEC + t.nsec(); }
bool well_formed(const ecl::TimeStampBase& t) {
  NP;
  long s = t.sec(), n = t.nsec();
  if (n <= -SEC || n >= SEC) return false;
  return !((s > 0 && n < 0) || (s < 0 && n > 0));
}
i64 snow() { NP; return (i64)now(); }
}  // namespace

// ------------------------------------------------------------------------------------------ C06
SCENARIO(sleeps, "C06") {
  environment(true);
  { NP; if (faulty()) { enable_fault("sleep.eintr", 1, 3); set_fault_budget(1 + gen(4)); } }
  ecl::Sleep S; ecl::MilliSleep M; ecl::MicroSleep U; ecl::NanoSleep N;
  i64 conf[4] = {0, 0, 0, 0};
  ecl::Sleep* S2 = nullptr; ecl::MilliSleep* M2 = nullptr; ecl::MicroSleep* U2 = nullptr; ecl::NanoSleep* N2 = nullptr;
  int n = 2 + gen(7);
  for (int k = 0; k < n; k++) {
    int which = gen(4), how = gen(4);
    i64 want = 0; unsigned long arg = 0; bool negative = false;
    i64 ds = 0, dn = 0;
    {
      NP;
      switch (which) {
        case 0: if (how == 2) { ds = gen(3); dn = gen(3) == 0 ? 0 : gen(2) ? gen(SEC) : SEC - 1 - gen(3);
                  if (gen(12) == 0 && (ds || dn)) { ds = -ds; dn = -dn; negative = true; } want = ds * SEC + dn; }
                else { arg = gen(4); want = (i64)arg * SEC; } break;
        case 1: arg = gen(3) == 0 ? 1000 - gen(3) : gen(3000); want = (i64)arg * 1000000; break;
        case 2: arg = gen(3) == 0 ? 1000000 - gen(3) : gen(2) ? gen(1000001) : gen(5000000); want = (i64)arg * 1000; break;
        default: arg = gen(3) == 0 ? SEC - gen(3) : gen(2) ? gen(SEC + 1) : gen(4 * SEC); want = (i64)arg; break;
      }
      log("sleeper %d how %d arg %lu want %lld", which, how, arg, (long long)want);
    }
    if (how == 1) {  // configured at construction
      switch (which) {
        case 0: { bool dur; { NP; dur = gencoin(1, 2); } if (dur) S = ecl::Sleep(ecl::Duration(arg, ds = gen(SEC))); else S = ecl::Sleep(arg); want += ds; break; }
        case 1: M = ecl::MilliSleep(arg); break;
        case 2: U = ecl::MicroSleep(arg); break;
        default: N = ecl::NanoSleep(arg);
      }
      conf[which] = want;
    } else if (how == 0) want = conf[which];   // as last configured
    else if (which != 0) how = 3;
    int e0; { NP; e0 = fault_fired("sleep.eintr"); }
    i64 t0 = snow();
    int r; ecl::ErrorFlag fl;
    switch (which) {
      case 0: if (how < 2) TRY(r, fl, S()); else if (how == 2) TRY(r, fl, S(ecl::Duration(ds, dn))); else TRY(r, fl, S(arg)); break;
      case 1: if (how < 2) TRY(r, fl, M()); else TRY(r, fl, M(arg)); break;
      case 2: if (how < 2) TRY(r, fl, U()); else TRY(r, fl, U(arg)); break;
      default: if (how < 2) TRY(r, fl, N()); else TRY(r, fl, N(arg)); break;
    }
    i64 t1 = snow();
    if (how >= 2) { conf[which] = want; }
    if (want < 0) negative = true;
    ecl::Duration d = which == 0 ? S.duration() : which == 1 ? M.duration() : which == 2 ? U.duration() : N.duration();
    NP;
    static const char* const nm[] = {"Sleep", "MilliSleep", "MicroSleep", "NanoSleep"};
    bool intr = fault_fired("sleep.eintr") > e0;
    log("slept %lld of %lld r=%d flag=%d", (long long)(t1 - t0), (long long)want, r, (int)fl);
    if (negative) {
      if (!g_release && (r != 1 || fl != ecl::InvalidInputError)) fail("negative-unreported", "%s(%lld ns) did not report an invalid input (r=%d flag=%d)", nm[which], (long long)want, r, (int)fl);
      if (which == 0) conf[0] = want;
      continue;
    }
    nontrivial();
    if (r) {
      if (!intr) fail("spurious-sleep-failure", "%s of %lld ns threw flag %d without a signal", nm[which], (long long)want, (int)fl);
      if (fl != ecl::InterruptedError) fail("wrong-sleep-error", "%s interrupted by a signal reported flag %d", nm[which], (int)fl);
      probe("interrupted");
    } else if (t1 - t0 < want) {
      if (!(intr && g_release)) fail("short-sleep", "%s returned after %lld ns of %lld ns and reported nothing", nm[which], (long long)(t1 - t0), (long long)want);
    }
    if (!noisy && t1 - t0 > want + LATE) fail("long-sleep", "%s took %lld ns for %lld ns with nothing else running", nm[which], (long long)(t1 - t0), (long long)want);
    if (ns_of(d) != conf[which] || !well_formed(d)) fail("duration-wrong", "%s.duration() is %ld s %ld ns, configured was %lld ns", nm[which], d.sec(), d.nsec(), (long long)conf[which]);
  }
  (void)S2; (void)M2; (void)U2; (void)N2;
  environment_end();
}

// ------------------------------------------------------------------------------------------ C07
SCENARIO(snooze, "C07") {
  environment(true);
  i64 P; bool validate; int ctor;
  {
    NP;
    static const i64 ps[] = {10000000, 1000000, 20000000, 100000000, 5000, SEC, SEC + 500000000, SEC - 1, 0, 1, 250000000, 999999, 500000000};
    P = ps[gen(13)];
    if (gen(3) == 2) P = gen(2) ? gen(2 * SEC) : gen(30000000);
    validate = gencoin(1, 2);
    ctor = gen(4);
    if (ctor == 3) { P = 10000000; validate = false; }
    if (faulty()) { enable_fault("sleep.eintr", 1, 4); set_fault_budget(1 + gen(3)); }
    log("snooze period %lld validate %d form %d", (long long)P, validate, ctor);
  }
  // put the grid close to a second boundary now and then, so that whole-second stamps are met
  { NP; if (gencoin(1, 2)) { i64 f = SEC - (i64)(now() % SEC); i64 lead = P ? (P % SEC) * (i64)(1 + gen(3)) : 0; i64 skip = f - lead % SEC; if (gen(2)) skip += (i64)gen(400) - 200; if (skip < 0) skip += SEC; if (gencoin(1, 2)) advance(skip); } }
  ecl::Snooze* z;
  i64 g0 = snow(), g1;
  if (ctor == 3) z = new ecl::Snooze();
  else if (ctor == 2) { z = new ecl::Snooze(); g0 = snow(); z->period(ecl::Duration(P / SEC, P % SEC), validate); }
  else if (ctor == 1 && !validate) z = new ecl::Snooze(ecl::Duration(P / SEC, P % SEC));
  else z = new ecl::Snooze(ecl::Duration(P / SEC, P % SEC), validate);
  g1 = snow();
  if (ns_of(z->period()) != P) { NP; fail("period-wrong", "period() is %lld ns, configured %lld ns", (long long)ns_of(z->period()), (long long)P); }
  int loops = 1 + gen(9);
  // grid point lies in [lo,hi]
  i64 lo = g0, hi = g1;
  for (int k = 0; k < loops; k++) {
    int act = gen(10);
    if (act == 8) { g0 = snow(); z->initialise(); lo = g0; hi = snow(); NP; log("initialise"); }
    else if (act == 9) {
      { NP; P = gen(2) ? gen(30000000) : 1000000 * gen(2000); validate = gencoin(1, 2); log("period %lld %d", (long long)P, validate); }
      g0 = snow(); z->period(ecl::Duration(P / SEC, P % SEC), validate); lo = g0; hi = snow();
    }
    // the loop's work: mostly shorter than the period, sometimes an overrun of one or more periods
    i64 work;
    { NP; switch (gen(6)) { case 0: work = 0; break; case 1: work = P / 4; break; case 2: work = P + gen(1000000); break; case 3: work = 3 * P + gen(5000000); break; case 4: work = P - (P > 2000 ? gen(2000) : 0); break; default: work = P ? gen(P) : 0; } }
    if (work > 0) { NP; advance(work); }
    int e0; { NP; e0 = fault_fired("sleep.eintr"); }
    i64 c0 = snow();
    (*z)();
    i64 c1 = snow();
    NP;
    nontrivial();
    bool intr = fault_fired("sleep.eintr") > e0;
    lo += P; hi += P;
    log("snooze %d: called %lld woke %lld grid [%lld,%lld]%s", k, (long long)c0, (long long)c1, (long long)lo, (long long)hi, intr ? " signal" : "");
    // possible outcomes: on the grid, or (validating and late) resynchronised
    bool may_late = c1 > lo, must_late = c0 > hi;
    if (validate && must_late) {
      // resynchronised: next grid point is one period after some instant of this call
      probe("resync");
      if (!intr && c1 < c0 + P) fail("resync-short", "a late validating snooze of %lld ns returned after %lld ns", (long long)P, (long long)(c1 - c0));
      if (!noisy && c1 > c0 + P + LATE) fail("resync-long", "a late validating snooze of %lld ns returned only after %lld ns", (long long)P, (long long)(c1 - c0));
      lo = c0 + P; hi = (noisy || intr ? c1 : c0 + OVH) + P;
      continue;
    }
    if (validate && may_late && (noisy || c0 + LATE + 100000 > lo)) {
      // on the edge: it may or may not have been late when it looked at the clock
      if (!intr && c1 < lo) fail("woke-early", "snooze woke %lld ns before its grid point", (long long)(lo - c1));
      hi = std::max(hi, intr ? c1 + P : c1);   // resynchronised at some instant of this call
      probe("edge");
      continue;
    }
    if (!intr && c1 < lo) fail("woke-early", "snooze %d woke %lld ns before its grid point", k, (long long)(lo - c1));
    if (!noisy) {
      i64 due = std::max(hi, c0);
      i64 most = due + (c0 > hi ? OVH : LATE);
      if (c1 > most) fail(c0 > hi ? "late-but-slept" : "woke-late", "snooze %d with period %lld ns returned %lld ns after it should (%s)", k, (long long)P, (long long)(c1 - due), c0 > hi ? "it was already late" : "drift");
    }
    if (c0 > hi) probe("late-return");
  }
  delete z;
  environment_end();
}

// ------------------------------------------------------------------------------------------ C08
namespace {
template <class W> void watch_run(i64 (*clk)(), const char* nm) {
  i64 s0 = clk();
  W* w = new W();
  i64 s1 = clk();
  i64 p0 = s0, p1 = s1;            // bracket of the last split
  i64 sum = 0; i64 r0 = s0, r1 = s1; bool exact = false;   // restart() uses one instant for both
  int n = 1 + gen(8);
  for (int k = 0; k < n; k++) {
    switch (gen(4)) { case 0: break; case 1: sched_yield(); break; case 2: { NP; advance(gen(3000000)); break; } default: { timespec t = {(time_t)gen(3), (long)gen(SEC)}; nanosleep(&t, 0); } }
    i64 a0, a1;
    switch (gen(4)) {
      case 0: case 1: {
        a0 = clk(); ecl::TimeStamp e = w->elapsed(); a1 = clk();
        NP; i64 v = ns_of(e); nontrivial();
        log("%s elapsed %lld in [%lld,%lld]", nm, (long long)v, (long long)(a0 - s1), (long long)(a1 - s0));
        if (!well_formed(e) || v < a0 - s1 || v > a1 - s0) fail("elapsed-wrong", "%s.elapsed() is %lld ns, the truth lies in [%lld,%lld]", nm, (long long)v, (long long)(a0 - s1), (long long)(a1 - s0));
        if (exact && v < sum) fail("elapsed-less-than-splits", "%s.elapsed() %lld ns is less than the sum of its splits %lld ns", nm, (long long)v, (long long)sum);
        break;
      }
      case 2: {
        a0 = clk(); ecl::TimeStamp e = w->split(); a1 = clk();
        NP; i64 v = ns_of(e); nontrivial();
        log("%s split %lld in [%lld,%lld]", nm, (long long)v, (long long)(a0 - p1), (long long)(a1 - p0));
        if (!well_formed(e) || v < a0 - p1 || v > a1 - p0) fail("split-wrong", "%s.split() is %lld ns, the truth lies in [%lld,%lld]", nm, (long long)v, (long long)(a0 - p1), (long long)(a1 - p0));
        p0 = a0; p1 = a1; sum += v;
        if (sum > a1 - r0 || sum < a0 - r1) fail("splits-do-not-add-up", "%s: splits add to %lld ns, the truth lies in [%lld,%lld]", nm, (long long)sum, (long long)(a0 - r1), (long long)(a1 - r0));
        break;
      }
      default:
        a0 = clk(); w->restart(); a1 = clk();
        { NP; log("%s restart", nm); }
        s0 = p0 = r0 = a0; s1 = p1 = r1 = a1; sum = 0; exact = true;
    }
  }
  delete w;
}
i64 cpu_now() { NP; return (i64)cpu_time(); }
i64 pick_ns() {
  static const i64 secs[] = {0, 0, 1, 2, 5, 100, 1000000};
  static const i64 nss[] = {0, 1, SEC - 1, SEC / 2, 300000000, 700000000, 999999999};
  i64 v = secs[gen(7)] * SEC + (gen(2) ? nss[gen(7)] : (i64)gen(SEC));
  return gencoin(1, 3) ? -v : v;
}
ecl::TimeStamp mk(i64 v) { return ecl::TimeStamp((time_t)(v / SEC), (long)(v % SEC)); }
}  // namespace

SCENARIO(watches, "C08") {
  environment(true);
  int which = gen(3);
  if (which == 0) watch_run<ecl::StopWatch>(snow, "StopWatch");
  else if (which == 1) watch_run<ecl::CpuWatch>(cpu_now, "CpuWatch");
  else {
    // stamps: monotonic, in step with the clock, and with exact nanosecond arithmetic
    std::vector<ecl::TimeStamp>* st; std::vector<i64>* val;
    { NP; st = new std::vector<ecl::TimeStamp>; val = new std::vector<i64>; }
    i64 last = -1;
    int n = 2 + gen(8);
    for (int k = 0; k < n; k++) {
      switch (gen(5)) {
        case 0: {
          i64 a0 = snow(); ecl::TimeStamp t; i64 a1 = snow();
          NP; i64 v = ns_of(t); nontrivial();
          if (v < a0 || v > a1 || v < last) fail("stamp-wrong", "a stamp of %lld ns was taken between %lld and %lld (previous %lld)", (long long)v, (long long)a0, (long long)a1, (long long)last);
          last = v; st->push_back(t); val->push_back(v); break;
        }
        case 1: {
          ecl::TimeStamp t(1, 5);
          i64 a0 = snow(); t.stamp(); i64 a1 = snow();
          NP; i64 v = ns_of(t); nontrivial();
          if (v < a0 || v > a1 || v < last) fail("stamp-wrong", "stamp() of %lld ns was taken between %lld and %lld (previous %lld)", (long long)v, (long long)a0, (long long)a1, (long long)last);
          last = v; st->push_back(t); val->push_back(v); break;
        }
        case 2: {
          i64 a0, a1; { NP; clock_log(true); a0 = realtime(); }
          ecl::TimeStamp t = ecl::TimeStamp::realtime_now();
          NP; a1 = realtime(); i64 v = ns_of(t); nontrivial();
          bool hit = false;
          std::vector<ClockRead>& cr = clock_reads();
          for (size_t i = 0; i < cr.size(); i++) if (cr[i].clk == CLOCK_REALTIME && cr[i].value == v) hit = true;
          clock_log(false);
          if (!hit && (v < a0 || v > a1)) fail("realtime-wrong", "realtime_now() is %lld, the wall clock went from %lld to %lld", (long long)v, (long long)a0, (long long)a1);
          st->push_back(t); val->push_back(v); break;
        }
        case 3: { NP; advance(gen(3) == 0 ? gen(5 * SEC) : gen(1000000)); break; }
        default: { NP; i64 v = pick_ns(); st->push_back(mk(v)); val->push_back(v); }
      }
      { NP; if (gencoin(1, 4)) {  // set in another way
        i64 v = pick_ns(); ecl::TimeStamp t(3, 4); double x = v * 1e-9; int how = gen(3);
        if (how == 0) t.stamp((time_t)(v / SEC), (long)(v % SEC)); else if (how == 1) t.stamp(x); else t = ecl::TimeStamp(x);
        i64 g = ns_of(t);
        if (!well_formed(t) || (how ? fabs((double)(g - v)) > 2 + fabs(x) * 1e-6 : g != v)) fail("stamp-set", "set to %lld ns (way %d), it is %lld ns", (long long)v, how, (long long)g);
        st->push_back(t); val->push_back(g);
      } }
      size_t m; { NP; m = st->size(); }
      if (m < 2) continue;
      size_t i = gen(m), j = gen(m);
      ecl::TimeStamp a, b; i64 va, vb;
      { NP; a = (*st)[i]; b = (*st)[j]; va = (*val)[i]; vb = (*val)[j]; }
      int r = 0; ecl::ErrorFlag fl = ecl::NoError;
      ecl::TimeStamp c(0, 0); i64 want;
      const char* op;
      switch (gen(4)) {
        case 0: op = "+"; want = va + vb; TRY(r, fl, c = a + b); break;
        case 1: op = "-"; want = va - vb; TRY(r, fl, c = a - b); break;
        case 2: op = "+="; want = va + vb; c = a; TRY(r, fl, c += b); break;
        default: op = "-="; want = va - vb; c = a; TRY(r, fl, c -= b); break;
      }
      bool cmp[6] = {a == b, a != b, a < b, a <= b, a > b, a >= b};
      NP;
      bool wc[6] = {va == vb, va != vb, va < vb, va <= vb, va > vb, va >= vb};
      log("stamp %lld %s %lld = %lld", (long long)va, op, (long long)vb, (long long)ns_of(c));
      nontrivial();
      if (r || ns_of(c) != want || !well_formed(c)) fail("stamp-arithmetic", "%lld %s %lld is %ld s %ld ns%s, wanted %lld ns", (long long)va, op, (long long)vb, c.sec(), c.nsec(), r ? " (threw)" : "", (long long)want);
      if (c.msec() != want % SEC / 1000000 || c.usec() != want % SEC / 1000) fail("stamp-parts", "%lld ns has msec() %ld and usec() %ld", (long long)want, c.msec(), c.usec());
      std::ostringstream os; os << c;
      char text[64]; snprintf(text, sizeof text, "%s%lld.%09lld", want < 0 ? "-" : "", (long long)(llabs(want) / SEC), (long long)(llabs(want) % SEC));
      if (os.str() != text) fail("stamp-text", "%lld ns prints as %s", (long long)want, os.str().c_str());
      double dbl = (double)c;
      if (fabs(dbl - (double)want * 1e-9) > 1e-6 + fabs((double)want * 1e-9) * 1e-12) fail("stamp-double", "%lld ns converts to %.9f s", (long long)want, dbl);
      for (int q = 0; q < 6; q++) if (cmp[q] != wc[q]) fail("stamp-compare", "comparison %d of %lld and %lld is %d", q, (long long)va, (long long)vb, (int)cmp[q]);
      if (llabs(want) < 1000000000000000000ll) { st->push_back(c); val->push_back(want); }
    }
  }
  environment_end();
}

// ------------------------------------------------------------------------------------------ C09
SCENARIO(frequency, "C09") {
  bool rt; float win;
  { NP; rt = gencoin(1, 3); static const float ws[] = {2.0f, 0.5f, 0.1f, 1.0f, 5.0f}; win = ws[gen(5)]; }
  environment(!rt);
  i64 off; { NP; off = rt ? realtime() - (i64)now() : 0; }
  i64 m0 = snow();
  ecl::FrequencyMonitor* f;
  if (!rt && win == 2.0f && gen(2)) f = new ecl::FrequencyMonitor();
  else if (!rt && gen(2)) f = new ecl::FrequencyMonitor(win);
  else f = new ecl::FrequencyMonitor(win, rt);
  i64 m1 = snow();
  i64 u0 = m0, u1 = m1;            // last update
  i64 l0 = m0, l1 = m1;            // last window start
  unsigned count = 0;
  i64 minlo = INT64_MAX, minhi = INT64_MAX, maxlo = 0, maxhi = 0;
  bool conn = false, fresh = true;
  float hz = -1.0f, mi = -1.0f, ma = -1.0f;
  const i64 W = (i64)((double)win * 1e9);
  int n = 4 + gen(30);
  auto close = [](double got, double lo, double hi) { double tol = 1e-5 * fabs(hi) + 2e-7; return got >= lo - tol && got <= hi + tol; };
  i64 typical = 1000000 + gen(400) * 1000000ll;
  for (int k = 0; k < n; k++) {
    switch (gen(4)) {
      case 0: { timespec t = {(time_t)(typical / SEC), (long)(typical % SEC)}; nanosleep(&t, 0); break; }
      case 1: { NP; advance(gen(2 * typical)); break; }
      case 2: { i64 d = gen(4) == 0 ? W + (i64)gen(SEC) : (i64)gen(typical); timespec t = {(time_t)(d / SEC), (long)(d % SEC)}; nanosleep(&t, 0); break; }
      default: break;
    }
    if (gen(3)) {
      i64 a0 = snow(); f->update(); i64 a1 = snow();
      NP;
      log("update");
      i64 dlo = std::max<i64>(0, a0 - u1), dhi = a1 - u0;
      if (minlo == INT64_MAX) { minlo = dlo; minhi = dhi; } else { minlo = std::min(minlo, dlo); minhi = std::min(minhi, dhi); }
      maxlo = std::max(maxlo, dlo); maxhi = std::max(maxhi, dhi);
      u0 = a0; u1 = a1; count++;
      conn = true;
      if (!f->diagnostics().has_connection) fail("update-no-connection", "has_connection is false right after an update");
    } else {
      i64 a0 = snow();
      const ecl::FrequencyDiagnostics& d = f->analyse();
      i64 a1 = snow();
      NP;
      nontrivial();
      i64 ilo = a0 - l1, ihi = a1 - l0;
      bool must = ilo > W + 1000, mustnot = ihi < W - 1000;
      double hlo = count / ((double)ihi * 1e-9), hhi = count / ((double)std::max<i64>(ilo, 1) * 1e-9);
      bool as_new = count == 0 ? (!d.has_connection && d.hz == 0.0f && d.minimum_interval == 0.0f && d.maximum_interval == 0.0f)
                               : (d.has_connection && close(d.hz, hlo, hhi) && close(d.minimum_interval, minlo * 1e-9, minhi * 1e-9) && close(d.maximum_interval, maxlo * 1e-9, maxhi * 1e-9));
      bool as_old = d.has_connection == conn && d.hz == hz && d.minimum_interval == mi && d.maximum_interval == ma;
      log("analyse %s count %u hz %g min %g max %g conn %d", must ? "due" : mustnot ? "not due" : "edge", count, d.hz, d.minimum_interval, d.maximum_interval, (int)d.has_connection);
      if (must && !as_new) fail("diagnostics-wrong", "after a window of %.6f s with %u updates: hz %g (want %g..%g) min %g (want %g..%g) max %g (want %g..%g) connection %d", ilo * 1e-9, count, d.hz, hlo, hhi, d.minimum_interval, minlo * 1e-9, minhi * 1e-9, d.maximum_interval, maxlo * 1e-9, maxhi * 1e-9, (int)d.has_connection);
      if (mustnot && !as_old) fail("diagnostics-early", "%.6f s into a window of %g s the diagnostics changed: hz %g was %g, connection %d was %d", ihi * 1e-9, (double)win, d.hz, hz, (int)d.has_connection, (int)conn);
      if (!must && !mustnot && !as_new && !as_old) fail("diagnostics-wrong", "diagnostics at the end of a window are neither old nor new (hz %g)", d.hz);
      if (!must && !mustnot && as_new && as_old) { if (count) break; l1 = a1; }   // cannot tell whether a window ended here
      else if (must || (!mustnot && as_new)) {
        if (count == 0) probe("silent-window");
        l0 = a0; l1 = a1; count = 0; minlo = minhi = INT64_MAX; maxlo = maxhi = 0;
        conn = d.has_connection; hz = d.hz; mi = d.minimum_interval; ma = d.maximum_interval;
        fresh = false;
      }
      double li = d.last_incoming, base = off * 1e-9;
      double tol = 1e-6 * (fabs(base) + fabs(u1 * 1e-9)) + 1e-6;
      if (li < base + u0 * 1e-9 - tol || li > base + u1 * 1e-9 + tol) fail("last-incoming-wrong", "last_incoming is %f, the last update was at %f", li, base + u0 * 1e-9);
    }
  }
  (void)fresh;
  delete f;
  environment_end();
}
