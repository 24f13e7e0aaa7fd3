// C27 Singleton, C28 RandomNumberGenerator, C29 exceptions
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <errno.h>
#include <sched.h>
#include <algorithm>
#include <vector>
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/utilities/singleton.hpp>
#include <ecl/time/random_number_generator.hpp>
#include <ecl/exceptions/data_exception.hpp>
#include <ecl/exceptions/posix_error_handler.hpp>

using namespace sim;
using std::string;

// ------------------------------------------------------------------------------------------ C27
namespace {
struct Boom {};
struct Made { int attempts = 0, thrown = 0, complete = 0, active = 0; void* where = nullptr; };
Made* made[3];
int slow;
template <int K> class Only : public ecl::Singleton<Only<K>> {
 public:
  int a, b; int* heap; const Only* self;
  int sum() const {
    if (self != this || !heap) { NP; fail("half-made", "the object handed out is not (completely) constructed"); }
    return a + b + *heap;
  }
 protected:
  friend class ecl::Singleton<Only<K>>;
  Only() : a(0), b(0), heap(nullptr), self(nullptr) {
    { NP; made[K]->attempts++; if (++made[K]->active > 1) fail("made-twice", "two threads construct the single object at once"); if (made[K]->complete) fail("made-twice", "the single object is constructed a second time"); }
    a = 100 * K + 1;
    for (int i = 0; i < slow; i++) sched_yield();
    bool boom; { NP; boom = fault("ctor.throw"); if (boom) { made[K]->thrown++; made[K]->active--; } }
    if (boom) throw Boom();
    try { heap = new int(100 * K + 3); } catch (...) { NP; made[K]->thrown++; made[K]->active--; throw; }
    b = 100 * K + 2;
    self = this;
    NP; made[K]->active--; made[K]->complete++; made[K]->where = this;
  }
};
template <int K> void visit() {
  int r = 0, t0; Only<K>* p = nullptr;
  { NP; t0 = made[K]->thrown; }
  try { p = &Only<K>::instance(); } catch (const Boom&) { Guard g; r = 1; } catch (const std::bad_alloc&) { Guard g; r = 2; }
  {
    NP; nontrivial();
    if (r && made[K]->thrown == t0) fail("spurious-failure", "instance() failed although its construction did not");
    if (r) { probe("construction failed"); return; }
    if (made[K]->complete != 1) fail("half-made", "instance() returned although %d objects are complete", made[K]->complete);
    if ((void*)p != made[K]->where) fail("two-objects", "instance() returned another object than the one constructed");
  }
  int s = p->sum();
  NP; if (s != 300 * K + 6) fail("half-made", "the object handed out holds the wrong values");
}
void visits() {
  int n; { NP; n = 1 + gen(6); }
  for (int k = 0; k < n; k++) {
    int w; { NP; w = gen(3); }
    switch (w) { case 0: visit<0>(); break; case 1: visit<1>(); break; case 2: visit<2>(); break; }
  }
}
}  // namespace
SCENARIO(singleton, "C27") {
  int n; std::vector<int>* ids;
  { NP; for (auto& m : made) m = new Made; slow = gen(4); n = 1 + gen(4); ids = new std::vector<int>;
    if (faulty()) { if (gencoin(2, 3)) enable_fault("ctor.throw", 1, 2); if (gencoin(1, 3)) enable_fault("alloc", 1, 2); set_fault_budget(1 + gen(4)); } }
  for (int t = 0; t < n; t++) { NP; ids->push_back(spawn("user", visits)); }
  for (int t = 0; t < n; t++) join_fiber((*ids)[t]);
  { NP; disable_faults(); }
  visit<0>(); visit<1>(); visit<2>();
  NP;
  for (auto m : made) if (m->complete != 1) fail("made-twice", "the single object was constructed %d times", m->complete);
}

// ------------------------------------------------------------------------------------------ C28
namespace {
template <class T> struct Draw { int kind; T arg, arg2; };
template <class T> T draw(ecl::RandomNumberGenerator<T>& g, const Draw<T>& d) {
  switch (d.kind) {
    case 0: return g.uniform();
    case 1: return g.uniform(d.arg);
    case 2: return g.gaussian(d.arg, d.arg2);
    default: return g.gaussian(d.arg);
  }
}
template <class T> void check_draw(const Draw<T>& d, T v) {
  NP; nontrivial();
  if (!(v == v) || v - v != 0) fail("not-a-number", "drawing (kind %d) gave %g", d.kind, (double)v);
  if (d.kind == 0 && (v < 0 || v > 1)) fail("out-of-range", "uniform() gave %.9g", (double)v);
  if (d.kind == 1 && fabs((double)v) > fabs((double)d.arg) * (1 + 1e-6)) fail("out-of-range", "uniform(%g) gave %.9g", (double)d.arg, (double)v);
}
template <class T> void make_script(std::vector<Draw<T>>& s, int n) {
  static const double A[] = {1, 0.5, 3, 100, 0.001, 0};
  static const double M[] = {0, 0, 5, -2, 1000};
  s.clear();
  for (int i = 0; i < n; i++) { Draw<T> d; d.kind = gen_weighted({3, 3, 5, 2}); d.arg = A[gen(6)]; d.arg2 = M[gen(5)]; s.push_back(d); }
}
template <class T> void play(ecl::RandomNumberGenerator<T>& g, const std::vector<Draw<T>>& s, std::vector<T>& out) {
  size_t n; { NP; n = s.size(); out.clear(); }
  for (size_t i = 0; i < n; i++) { Draw<T> d; { NP; d = s[i]; } T v = draw(g, d); check_draw(d, v); NP; out.push_back(v); }
}
// the same seed gives the same numbers, whatever was drawn before
template <class T> void repeat() {
  typedef ecl::RandomNumberGenerator<T> G;
  std::vector<Draw<T>>* s; std::vector<T>*o1, *o2; int before; unsigned seed;
  { NP; s = new std::vector<Draw<T>>; o1 = new std::vector<T>; o2 = new std::vector<T>; make_script(*s, 1 + gen(12)); before = gen(6); seed = gen(5) ? gen(1000) : (unsigned)gen(0x100000000ull); log("repeat %zu draws, seed %u", s->size(), seed); }
  { G g(seed); play(g, *s, *o1); }
  { G g;  // something else in between
    std::vector<Draw<T>>* x; std::vector<T>* o; { NP; x = new std::vector<Draw<T>>; o = new std::vector<T>; make_script(*x, before); }
    play(g, *x, *o);
    NP; delete x; delete o; }
  { G g(seed); play(g, *s, *o2); }
  NP;
  for (size_t i = 0; i < s->size(); i++) if ((*o1)[i] != (*o2)[i]) fail("not-repeatable", "seeded with %u again, draw %zu (kind %d) gave %.9g instead of %.9g", seed, i, (*s)[i].kind, (double)(*o2)[i], (double)(*o1)[i]);
  delete s; delete o1; delete o2;
}
// generators seeding themselves in different processes or at different times differ
template <class T> void self_seeded() {
  typedef ecl::RandomNumberGenerator<T> G;
  int kind; T v[2][4]; int pid; u64 gap; i64 wall;
  { NP; kind = gen(3); pid = 2 + gen(gencoin(1, 2) ? 30000 : 2000000); gap = 1 + gen(100); wall = (i64)(1 + gen(1000000)) * 1000000000; jump_realtime(wall); pid_base(pid); if (gen(2)) advance(gen(5000000)); }
  for (int k = 0; k < 2; k++) {
    { G g; for (int i = 0; i < 4; i++) { v[k][i] = g.uniform(); Draw<T> d = {0, 0, 0}; check_draw(d, v[k][i]); } }
    NP;
    if (kind == 0) { int step = gen(3); pid_base(pid + (step == 0 ? 1 : step == 1 ? 1 + gen(20000) : 1 << gen(21))); }  // process numbers go up to four millions
    if (kind == 1) jump_realtime((i64)gap * 1000000000);
    if (kind == 2) advance(gap * 100000);
  }
  NP; bool same = true; for (int i = 0; i < 4; i++) if (v[0][i] != v[1][i]) same = false;
  static const char* const W[] = {"in two processes", "at two times", "after other work"};
  if (same) fail("same-seed", "generators seeding themselves %s give the same numbers", W[kind]);
}
// the shape of the distributions; bounds of eight or nine standard deviations
template <class T> void shape() {
  typedef ecl::RandomNumberGenerator<T> G;
  const int N = 1500; double u = 0, uu = 0, g1 = 0, g2 = 0, lag = 0, prev = 0, big = 0, sd, mu, x2 = 0; int one = 0, two = 0;
  unsigned seed; { NP; seed = gen(0x100000000ull); static const double S[] = {1, 2, 0.1, 30}; static const double M[] = {0, 5, -7, 100}; sd = S[gen(4)]; mu = M[gen(4)]; }
  G g(seed);
  for (int i = 0; i < N; i++) {
    T a = g.uniform(), b = g.uniform((T)sd), c = g.gaussian((T)sd, (T)mu);
    NP;
    u += a; uu += a * a; big += b / sd; x2 += (b / sd) * (b / sd);
    double z = (c - mu) / sd; g1 += z; g2 += z * z; if (i) lag += z * prev; prev = z; one += fabs(z) < 1; two += fabs(z) < 2;
  }
  NP; nontrivial();
  struct { const char* what; double got, want, tol; } T_[] = {
    {"mean of uniform()", u / N, 0.5, 8 * 0.2887 / sqrt(N)}, {"mean square of uniform()", uu / N, 1 / 3.0, 8 * 0.298 / sqrt(N)},
    {"mean of uniform(r)", big / N, 0, 8 * 0.5774 / sqrt(N)}, {"mean square of uniform(r)", x2 / N, 1 / 3.0, 8 * 0.298 / sqrt(N)},
    {"mean of gaussian()", g1 / N, 0, 8 / sqrt(N)}, {"variance of gaussian()", g2 / N, 1, 9 * 1.4142 / sqrt(N)},
    {"correlation of successive gaussian()", lag / N, 0, 9 / sqrt(N)}, {"share of gaussian() within one deviation", one / (double)N, 0.6827, 8 * 0.4654 / sqrt(N)},
    {"share of gaussian() within two deviations", two / (double)N, 0.9545, 9 * 0.2084 / sqrt(N)}};
  for (auto& t : T_) if (!(fabs(t.got - t.want) <= t.tol)) fail("wrong-distribution", "%s is %g instead of %g (+-%g) over %d draws, seed %u", t.what, t.got, t.want, t.tol, N, seed);
}
// generators used by several threads do not hand out each other's numbers
template <class T> void threads() {
  typedef ecl::RandomNumberGenerator<T> G;
  int n, m; std::vector<int>* ids; std::vector<double>* all;
  { NP; n = 2 + gen(3); m = 1 + gen(8); ids = new std::vector<int>; all = new std::vector<double>; }
  G g0((unsigned)n * 1000 + m);
  for (int t = 0; t < n; t++) {
    NP;
    ids->push_back(spawn("drawer", [all, m, &g0] {
      G g(g0);
      for (int i = 0; i < m; i++) {
        Draw<T> d = {2, 1, 0};
        T v = draw(g, d); check_draw(d, v);
        NP;
        if (sizeof(T) < 8) continue;  // floats may well repeat
        if (v == 0) fail("untouched-number", "gaussian() gave exactly 0");
        for (double o : *all) if (o == (double)v) fail("number-twice", "two threads got the same number %.17g", (double)v);
        all->push_back(v);
      }
    }));
  }
  for (int t = 0; t < n; t++) join_fiber((*ids)[t]);
  NP; delete ids; delete all;
}
// whatever the system's random numbers are, the result is a number in range
template <class T> void extremes() {
  typedef ecl::RandomNumberGenerator<T> G;
  std::vector<Draw<T>>* s; std::vector<T>* o; unsigned seed;
  { NP; rand_mode(1); s = new std::vector<Draw<T>>; o = new std::vector<T>; make_script(*s, 1 + gen(30)); seed = gen(0x100000000ull); note_fault("extreme random numbers"); }
  { G g(seed); play(g, *s, *o); }
  NP; rand_mode(0); delete s; delete o;
}
template <class T> void random_body() {
  int n; { NP; n = 1 + gen(3); }
  for (int k = 0; k < n; k++) {
    int w; { NP; w = gen_weighted({5, 3, faulty() ? 0u : 1u, 4, 4}); }
    switch (w) { case 0: repeat<T>(); break; case 1: self_seeded<T>(); break; case 2: shape<T>(); break; case 3: threads<T>(); break; case 4: extremes<T>(); break; }
  }
}
}  // namespace
SCENARIO(random_numbers, "C28") {
  bool f; { NP; f = gencoin(1, 3); }
  if (f) random_body<float>(); else random_body<double>();
}

// ------------------------------------------------------------------------------------------ C29
namespace {
// data of an exception: memory of its own, copies that may fail, knows whether it is alive
struct Cargo {
  const Cargo* self; int v; int* heap;
  explicit Cargo(int x) : self(this), v(x), heap(new int(x)) {}
  Cargo(const Cargo& o) : self(this), v(o.v), heap(nullptr) {
    o.check();
    bool boom; { NP; boom = fault("copy.throw"); }
    if (boom) throw Boom();
    heap = new int(*o.heap);
  }
  ~Cargo() { check(); self = nullptr; delete heap; heap = nullptr; }
  void check() const { if (self != this) { NP; fail("dead-data", "the data of an exception is touched although it does not exist"); } }
  int get() const { check(); if (!heap || *heap != v) { NP; fail("torn-data", "the data of an exception is damaged"); } return v; }
 private:
  Cargo& operator=(const Cargo&);
};
std::ostream& operator<<(std::ostream& os, const Cargo& c) { return os << "cargo" << c.get(); }
typedef ecl::DataException<Cargo> DE;
typedef ecl::StandardException SE;
const ecl::ErrorFlag flags[] = {ecl::TimeOutError, ecl::MemoryError, ecl::OpenError, ecl::ReadError, ecl::WriteError, ecl::BusyError, ecl::OutOfRangeError};
struct Plan {
  int kind = 0;                      // 0 standard, 1 standard with message, 2 data, 3 data with message, 4 from errno
  int depth = 0, err = 0, value = 0; // how many times it is passed on
  ecl::ErrorFlag flag = ecl::NoError;
  string msg, locs[8];
  int how[8];                        // at each level: 0 passes through, 1 new location, 2 by base class, 3 rethrow as is, 4 copy
  int f0 = 0;
  std::vector<int> trail;            // locations it went through, newest first
};
void throw_it(const Plan& p) {
  switch (p.kind) {
    case 0: throw SE(p.locs[0].c_str(), p.flag);
    case 1: throw SE(p.locs[0].c_str(), p.flag, p.msg);
    case 2: { Cargo c(p.value); throw DE(p.locs[0].c_str(), p.flag, c); }
    case 3: throw DE(p.locs[0].c_str(), p.flag, p.msg, Cargo(p.value));
    default: { errno = p.err; throw ecl::PosixErrorHandler<Plan>::GenerateStandardException(p.locs[0].c_str()); }
  }
}
void level(const Plan& p, int d) {
  if (d == 0) { throw_it(p); return; }
  sched_yield();
  switch (p.how[d]) {
    case 0: level(p, d - 1); return;
    case 1:
      try { level(p, d - 1); }
      catch (const SE& e) { throw SE(p.locs[d].c_str(), e); }
      catch (const DE& e) { throw DE(p.locs[d].c_str(), e); }
      return;
    case 2:
      try { level(p, d - 1); } catch (const ecl::Exception&) { sched_yield(); throw; }
      return;
    case 3:
      ecl_try { level(p, d - 1); } ecl_catch(const std::exception&) { throw; }
      return;
    case 4:
      try { level(p, d - 1); }
      catch (const SE& e) { SE c(e); sched_yield(); throw SE(c); }
      catch (const DE& e) { DE c(e); sched_yield(); throw DE(c); }
      return;
  }
}
bool in_order(const string& text, const std::vector<string>& parts, string& missing) {
  size_t at = 0;
  for (auto& q : parts) { size_t f = text.find(q, at); if (f == string::npos) { missing = q; return false; } at = f + q.size(); }
  return true;
}
void one_exception() {
  Plan* p; int a0;
  {
    NP; p = new Plan; p->kind = gen(5); p->depth = gen(6); p->value = gen(10000); p->flag = flags[gen(7)];
    static const int E[] = {ENOENT, EACCES, EIO, ENOMEM, EINTR, 0, ENOSPC}; p->err = E[gen(7)];
    static const char* const M[] = {"x", "something went wrong", "two\nlines", "%s %n", ""};
    p->msg = M[gen(5)]; if (gencoin(1, 5)) p->msg = string(1 + gen(600), 'm');
    for (int d = 0; d < 8; d++) { p->locs[d] = "place" + std::to_string(d) + "_" + std::to_string(gen(1000)) + (gencoin(1, 6) ? string(gen(300), 'f') : "") + ".cpp:" + std::to_string(1 + gen(500)); p->how[d] = gen(5); }
    p->trail.push_back(0);
    for (int d = 1; d <= p->depth; d++) if (p->how[d] == 1) p->trail.insert(p->trail.begin(), d);
    a0 = my_faults(); nontrivial();
    log("exception kind %d through %d levels", p->kind, p->depth);
  }
  bool data = p->kind == 2 || p->kind == 3, caught = false;
  ecl::ErrorFlag want = p->kind == 4 ? ecl::PosixError : p->flag;
  auto common = [&](const char* what, ecl::ErrorFlag got) {
    NP; caught = true;
    bool hurt = my_faults() > a0;
    if (got != want) fail("flag-lost", "the exception carries flag %d instead of %d", (int)got, (int)want);
    if (hurt && data) return;        // its text may be cut short when memory ran out
    std::vector<string> parts; string miss;
    for (int d : p->trail) parts.push_back(p->locs[d]);
    parts.push_back(ecl::Error(want).what());
    if (p->kind == 1 || p->kind == 3) parts.push_back(p->msg);
    if (p->kind == 4 && !hurt) parts.push_back(strerror(p->err));
    if (data) parts.push_back("cargo" + std::to_string(p->value));
    if (!in_order(what, parts, miss)) fail("story-lost", "what() does not tell '%.60s' (in its place): %.400s", miss.c_str(), what);
    // each stage of the way is told once
    std::vector<string> once; for (int d : p->trail) once.push_back(p->locs[d]);
    if ((p->kind == 1 || p->kind == 3) && p->msg.size() > 5) once.push_back(p->msg);
    if (data) once.push_back("cargo" + std::to_string(p->value));
    for (auto& q : once) { string w = what; size_t f = w.find(q); if (f != string::npos && w.find(q, f + 1) != string::npos) fail("story-repeated", "what() tells '%.60s' more than once: %.400s", q.c_str(), what); }
    for (int d = 0; d < 8; d++) if (std::find(p->trail.begin(), p->trail.end(), d) == p->trail.end() && string(what).find(p->locs[d] + "\n") != string::npos) fail("story-invented", "what() tells of %s, where it never was", p->locs[d].c_str());
  };
  int r = 0;
  try { level(*p, p->depth); }
  catch (const SE& e) {
    common(e.what(), e.flag());
    NP;
    if (data) fail("wrong-type", "a data exception arrived as a standard one");
    string m = p->kind == 1 ? p->msg : p->kind == 4 ? string(strerror(p->err)) + "." : "";
    if (e.message() != m && !(p->kind == 4 && my_faults() > a0)) fail("message-lost", "message() is '%.60s' instead of '%.60s'", e.message().c_str(), m.c_str());
  }
  catch (const DE& e) {
    common(e.what(), e.flag());
    int v = e.data().get();
    NP;
    if (!data) fail("wrong-type", "a standard exception arrived as a data one");
    if (v != p->value) fail("data-lost", "the exception carries %d instead of %d", v, p->value);
  }
  catch (const Boom&) { Guard g; r = 3; }
  catch (const std::bad_alloc&) { Guard g; r = 2; }
  NP;
  if (!caught && !r) fail("not-thrown", "no exception arrived");
  if (r && my_faults() == a0) fail("spurious-failure", "an exception was replaced although nothing was refused");
  delete p;
}
int asserted(int k, bool cond) {
  switch (k) {
    case 0: try { ecl_assert_throw(cond, SE("here", ecl::UsageError)); return 0; } catch (const SE&) { return 1; }
    case 1: try { ecl_debug_throw(SE("here", ecl::UsageError)); return 0; } catch (const SE&) { return 1; }
    default: try { ecl_throw(SE("here", ecl::UsageError)); return 0; } catch (const SE&) { return 1; }
  }
}
void exceptions_body() {
  int n; { NP; n = 1 + gen(5); }
  for (int k = 0; k < n; k++) {
    int w; { NP; w = gen(5); }
    if (w) { one_exception(); continue; }
    int kind, a0; bool cond; { NP; kind = gen(3); cond = gencoin(1, 2); a0 = my_faults(); }
    int got = -1;
    try { got = asserted(kind, cond); } catch (const std::bad_alloc&) { Guard g; got = 2; }
    NP;
    int want = kind == 2 ? 1 : g_release ? 0 : kind == 1 ? 1 : !cond;
    if (got == 2 && my_faults() > a0) continue;
    if (got != want) fail("throw-macro", "macro %d %s although it must%s (condition %d, %s build)", kind, got ? "threw" : "did not throw", want ? "" : " not", cond, g_release ? "release" : "debug");
  }
}
}  // namespace
SCENARIO(exceptions, "C29") {
  int n; std::vector<int>* ids;
  { NP; n = 1 + gen(3); ids = new std::vector<int>;
    if (faulty()) { if (gencoin(2, 3)) enable_fault("alloc", 1, 3 + gen(20)); if (gencoin(1, 2)) enable_fault("copy.throw", 1, 2 + gen(6)); set_fault_budget(1 + gen(4)); } }
  for (int t = 0; t < n; t++) { NP; ids->push_back(spawn("user", exceptions_body)); }
  for (int t = 0; t < n; t++) join_fiber((*ids)[t]);
  NP;
  if (live_allocs()) { string s; dump_live_allocs(0, s); fail("leak", "memory is still allocated after the exceptions are gone: %s", s.c_str()); }
}
