// C30 printed containers
#include <unistd.h>
#include <errno.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/streams.hpp>
#include <ecl/formatters.hpp>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/containers/push_and_pop.hpp>

using namespace sim;
using std::string;

namespace {
class OddSink {
 public:
  string data;
  OddSink() {}
  bool open() const { return true; }
  long write(const char& c) { return write(&c, 1); }
  long write(const char* s, unsigned long n) {
    NP;
    yield_point("write to a device");
    if (n && fault("dev.refuse")) return gencoin(1, 2) ? -1 : 0;
    if (n && fault("dev.throw")) throw ecl::StandardException(LOC, ecl::WriteError, "refused");
    if (n > 1 && fault("dev.short")) n = 1 + env(n - 1);
    check_range(s, n, false, "device");
    data.append(s, n);
    return n;
  }
  void flush() {}
};
}
namespace ecl { template <> class is_sink<OddSink> : public True {}; }

namespace {
typedef ecl::TextStream<OddSink> Out;
string show(const string& s) { string o; for (size_t i = 0; i < s.size() && i < 160; i++) o += (unsigned char)s[i] < 32 ? '?' : s[i]; return "\"" + o + "\""; }
struct Seen {
  Out& s; size_t from; int f0;
  Seen(Out& s_) : s(s_) { NP; from = s.device().data.size(); f0 = my_faults(); }
  // returns whether the printing went well
  bool judge(const string& want, int r, ecl::ErrorFlag fl, const char* what) {
    NP; nontrivial();
    string got = s.device().data.substr(from);
    bool bad = r || s.fail(), hurt = my_faults() > f0;
    log("print %s -> r=%d %s", what, r, show(got).c_str());
    if (bad && !hurt) fail("spurious-failure", "printing %s failed (flag %d)", what, (int)fl);
    if (hurt) { size_t j = 0; for (char c : got) { while (j < want.size() && want[j] != c) j++; if (j++ >= want.size()) fail("print-wrong", "%s on a refusing device came out as %s, which is no part of %s", what, show(got).c_str(), show(want).c_str()); } }
    else if (got != want) fail("print-wrong", "%s came out as %s instead of %s", what, show(got).c_str(), show(want).c_str());
    return !bad && !hurt;
  }
};
#define PRINT(what, want, expr) do { Seen sn_(s); int r_; ecl::ErrorFlag fl_; TRY(r_, fl_, expr); if (!sn_.judge(want, r_, fl_, what)) return false; } while (0)
template <class T> string text(const T& v) { return std::to_string(v); }
string text(const string& v) { return v; }
string text(char v) { return string(1, v); }
template <class V> string listed(const V& v, size_t b, size_t n) { NP; string o = "[ "; for (size_t i = b; i < b + n; i++) o += text(v[i]) + " "; return o + "]"; }
string hexed(const std::vector<int>& v, size_t b, size_t n) { NP; string o = "[ "; char x[8]; for (size_t i = b; i < b + n; i++) { snprintf(x, 8, "0x%02x ", v[i] & 255); o += x; } return o + "]"; }
template <class T> struct Value { static T make() { static const unsigned long long X[] = {0, 1, 9, 10, ~0ull, 1ull << 31, (1ull << 31) - 1, 1ull << 63, (1ull << 63) - 1, 12345}; return (T)(gencoin(1, 2) ? X[gen(10)] : gen(INF) >> gen(64)); } };
template <> struct Value<string> { static string make() { return string(gen(6), 'a' + gen(26)); } };
template <> struct Value<char> { static char make() { return 'a' + gen(26); } };
template <class T> void fill(std::vector<T>& v, size_t n) { NP; for (size_t i = 0; i < n; i++) v.push_back(Value<T>::make()); }
template <class A, class V> void load(A& a, const V& v) { size_t n; { NP; n = v.size(); } for (size_t i = 0; i < n; i++) a[i] = v[i]; }

template <class A> bool show_windows(Out& s, A& a, size_t n, const string& all, std::function<string(size_t, size_t)> want) {
  size_t b, k; { NP; if (!n) return true; b = gen(n); k = gen(n - b + 1); }
  ecl::Stencil<A> w = a.stencil(b, k);
  PRINT("a window", want(b, k), s << w);
  PRINT("a window of a window", want(b, k ? 1 : 0), s << ecl::Stencil<A>(a, a.begin() + b, a.begin() + b + (k ? 1 : 0)));
  typename ecl::Stencil<A>::Formatter f;
  PRINT("a formatted window", want(b, k), s << f(w));
  return true;
}
template <class T> bool plain(Out& s) {
  size_t n; bool fixed; std::vector<T>* v; { NP; v = new std::vector<T>; fixed = gencoin(1, 3); n = fixed ? 4 : gen(7); fill(*v, n); }
  bool ok = true;
  std::function<string(size_t, size_t)> want; { NP; want = [v](size_t b, size_t k) { return listed(*v, b, k); }; }
  auto run = [&]() -> bool {
    if (fixed) {
      typedef ecl::Array<T, 4> A; A a; load(a, *v); const A& c = a;
      PRINT("a fixed array", want(0, n), s << c);
      return show_windows<A>(s, a, n, "", want);
    }
    typedef ecl::Array<T> A; A* ap; bool bare; { NP; bare = n == 0 && gencoin(1, 2); }
    A a; if (!bare) a.resize(n); load(a, *v); const A& c = a;
    PRINT("an array", want(0, n), s << c);
    return show_windows<A>(s, a, n, "", want);
  };
  ok = run();
  { NP; delete v; want = nullptr; }
  return ok;
}
template <class T> bool printed_twice(Out& s) {  // through the array's own formatter
  std::vector<T>* v; size_t n; { NP; v = new std::vector<T>; n = 1 + gen(6); fill(*v, n); }
  ecl::Array<T> a((unsigned)n); load(a, *v);
  typename ecl::Array<T>::Formatter f;
  string* w; { NP; w = new string(listed(*v, 0, n)); delete v; }
  auto run = [&]() -> bool { PRINT("a formatted array", *w + " " + *w, s << f(a) << ' ' << f(a)); return true; };
  bool ok = run();
  NP; delete w; return ok;
}
template <class T> bool bytes(Out& s) {
  std::vector<int>* v; size_t n, b, k; bool fixed; { NP; v = new std::vector<int>; fixed = gencoin(1, 3); n = fixed ? 5 : 1 + gen(7); for (size_t i = 0; i < n; i++) v->push_back(gen(256)); b = gen(n); k = gen(n - b + 1); }
  auto run = [&]() -> bool {
    if (fixed) {
      typedef ecl::Array<T, 5> A; A a; load(a, *v); typename A::Formatter f;
      PRINT("a fixed byte array", hexed(*v, 0, n), s << f(a));
      PRINT("a range of a fixed byte array", hexed(*v, b, k), s << f(a.begin() + b, a.begin() + b + k));
      PRINT("a fixed byte array", hexed(*v, 0, n), s << f(a));
    } else {
      typedef ecl::Array<T> A; A a((unsigned)n); load(a, *v); typename A::Formatter f;
      PRINT("a byte array", hexed(*v, 0, n), s << f(a));
      PRINT("a range of a byte array", hexed(*v, b, k), s << f(a.begin() + b, a.begin() + b + k));
      PRINT("a byte array", hexed(*v, 0, n), s << f(a));
      ecl::Stencil<A> w = a.stencil(b, k); const ecl::Stencil<A>& cw = w;
      PRINT("a window of a byte array", hexed(*v, b, k), s << f(cw));
    }
    return true;
  };
  bool ok = run();
  NP; delete v; return ok;
}
template <class Q> bool queue(Out& s, Q& q, size_t cap) {
  std::vector<int>* v; int n; { NP; v = new std::vector<int>; n = 1 + gen(12); }
  typename Q::Formatter f; bool ok = true;
  for (int i = 0; ok && i < n; i++) {
    int op, x; { NP; op = gen(4); x = gen(256); if (v->empty() && op == 1) op = 0; }
    switch (op) {
      case 0: q.push_back((unsigned char)x); { NP; v->push_back(x); if (v->size() > cap) v->erase(v->begin()); } break;
      case 1: q.pop_front(); { NP; v->erase(v->begin()); } break;
      default: { auto run = [&]() -> bool { PRINT("a queue", hexed(*v, 0, v->size()), s << f(q)); return true; }; ok = run(); }
    }
  }
  NP; delete v; return ok;
}
template <class T> string reals(const std::vector<double>& v, size_t b, size_t n, int p, int w) {
  NP;
  char x[400]; string o = "[ ";
  if (w == -1) {  // as wide as the widest needs: digits, sign of the least, point and decimals
    double mn = 0, mx = 0; for (size_t i = b; i < b + n; i++) { if (i == b || v[i] < mn) mn = v[i]; if (i == b || v[i] > mx) mx = v[i]; }
    long d = (long)std::max(ceil(log10(fabs(mn) + 1)), ceil(log10(fabs(mx) + 1))); if (d == 0) d = 1;
    w = d + (mn < 0) + 1 + p;
  }
  for (size_t i = b; i < b + n; i++) { snprintf(x, sizeof x, "%*.*f ", w, p, (double)(T)v[i]); o += x; }
  return o + "]";
}
template <class F, class C, class T> bool real_history(Out& s, F* f, C& c, const std::vector<double>& v, size_t b, size_t n, int p, int w) {
  int k; { NP; k = 1 + gen(7); }
  bool ok = true, first; { NP; first = gencoin(1, 4); }
  if (first) {   // before it has got anything to print
    Seen sn(s); int r; ecl::ErrorFlag fl; TRY(r, fl, s << *f);
    NP;
    if (s.device().data.size() != sn.from) fail("print-wrong", "a formatter without a container printed something");
    if (!g_release && (r != 1 || fl != ecl::UsageError)) fail("misuse-unreported", "a formatter without a container was inserted without an error");
  }
  for (int i = 0; i < k; i++) {   // on after a failed printing, too: the settings are as before
    int op, np, nw; { NP; op = gen_weighted({5, 4, 1, 1, 2, 1, 2}); np = gen(7); nw = gencoin(1, 4) ? -1 : gen(20); log("reals op %d p=%d w=%d, now p=%d w=%d", op, np, nw, p, w); }
    auto run = [&]() -> bool {
      switch (op) {
        case 0: PRINT("reals", reals<T>(v, b, n, p, w), s << (*f)(c)); break;
        case 1: PRINT("reals with parameters of their own", reals<T>(v, b, n, np, nw), s << (*f)(c, np, nw)); break;
        case 2: f->precision(np); p = np; break;
        case 3: f->width(nw); w = nw; break;
        case 4: (*f)(np, nw); p = np; w = nw; break;
        case 6: {   // parameters given together with the container, but printed later or not at all
          (*f)(c, np, nw); bool sets, other; int p2; { NP; sets = gencoin(1, 2); other = gencoin(1, 2); p2 = gen(7); }
          if (sets) { f->precision(p2); p = p2; }
          if (other) PRINT("reals after others that were not printed", reals<T>(v, b, n, p, w), s << (*f)(c));
          else { F g(*f); PRINT("reals with parameters of their own, printed later", reals<T>(v, b, n, np, nw), s << *f); PRINT("reals through a copy of the formatter", reals<T>(v, b, n, np, nw), s << g); PRINT("reals through a copy of the formatter", reals<T>(v, b, n, p, w), s << g(c)); }
          break;
        }
        case 5: { unsigned g = ((const F*)f)->precision(); NP; if ((int)g != p) fail("setting-lost", "precision() is %u instead of %d", g, p); } break;
      }
      return true;
    };
    ok = run() && ok;
  }
  return ok;
}
template <class T> bool reals_job(Out& s) {
  std::vector<double>* v; size_t n, b, k; int shape, p = 2, w = -1; bool dflt;
  {
    NP; v = new std::vector<double>; shape = gen(4); n = shape == 0 || shape == 3 ? 3 : gen(7); if (shape == 2 && !n) n = 1; b = n ? gen(n) : 0; k = n ? 1 + gen(n - b) : 0;
    // exact in binary, away from the carries where the width is a matter of rounding
    for (size_t i = 0; i < n; i++) { static const int S[] = {1, 10, 1000, 100000}; double x = (double)gen(S[gen(4)]) + gen(4) * 0.25; if (gencoin(1, 3) && x) x = -x; v->push_back(x); }
    dflt = gencoin(1, 2); if (!dflt) { p = gen(6); w = gencoin(1, 2) ? -1 : gen(20); }
  }
  bool ok = true;
  if (shape == 0) {
    typedef ecl::Array<T, 3> A; typedef typename A::Formatter F; A a; load(a, *v);
    F* f = dflt ? new F : new F(p, w);
    ok = real_history<F, A, T>(s, f, a, *v, 0, n, p, w); delete f;
  } else if (shape == 1) {
    typedef ecl::Array<T> A; typedef typename A::Formatter F; A a((unsigned)n); load(a, *v);
    F* f = dflt ? new F : new F(p, w);
    ok = real_history<F, A, T>(s, f, a, *v, 0, n, p, w); delete f;
  } else if (shape == 2) {
    typedef ecl::Array<T> A; typedef ecl::Stencil<A> S; typedef typename S::Formatter F; A a((unsigned)n); load(a, *v); S st = a.stencil(b, k);
    F* f = dflt ? new F : new F(p, w);
    ok = real_history<F, S, T>(s, f, st, *v, b, k, p, w); delete f;
  } else {
    typedef ecl::Array<T, 3> A; typedef ecl::Stencil<A> S; typedef typename S::Formatter F; A a; load(a, *v); S st = a.stencil(b, k);
    F* f = dflt ? new F : new F(p, w);
    ok = real_history<F, S, T>(s, f, st, *v, b, k, p, w); delete f;
  }
  NP; delete v; return ok;
}
void print_job() {
  Out* s = new Out; int n; { NP; n = 1 + gen(4); }
  bool ok = true;
  for (int k = 0; ok && k < n; k++) {
    int t; { NP; t = gen(16); }
    switch (t) {
      case 0: ok = plain<int>(*s); break;
      case 1: ok = plain<long>(*s); break;
      case 2: ok = plain<std::string>(*s); break;
      case 3: ok = plain<char>(*s); break;
      case 4: ok = plain<unsigned int>(*s); break;
      case 5: ok = printed_twice<int>(*s); break;
      case 6: ok = printed_twice<std::string>(*s); break;
      case 7: ok = bytes<unsigned char>(*s); break;
      case 8: ok = bytes<signed char>(*s); break;
      case 9: ok = bytes<char>(*s); break;
      case 10: { ecl::PushAndPop<unsigned char, 4> q; ok = queue(*s, q, 4); break; }
      case 11: { ecl::PushAndPop<unsigned char> q(3u); ok = queue(*s, q, 3); break; }
      case 12: case 13: ok = reals_job<float>(*s); break;
      default: ok = reals_job<double>(*s); break;
    }
  }
  { NP; string().swap(s->device().data); }
  delete s;
}
}  // namespace
SCENARIO(print_containers, "C30") {
  int nt; std::vector<int> f;
  { NP; nt = 1 + gen(3); if (faulty()) { enable_fault("dev.refuse", 1, 30); enable_fault("dev.throw", 1, 30); } if (gencoin(1, 3)) enable_fault("dev.short", 1, 2); set_fault_budget(1 + gen(12)); }
  for (int i = 1; i < nt; i++) { NP; f.push_back(spawn("printer", print_job)); }
  print_job();
  for (int x : f) join_fiber(x);
  NP;
  if (nt > 1) probe("print.several");
  if (live_allocs()) { string s; dump_live_allocs(0, s); fail("leak", "memory is still allocated: %s", s.c_str()); }
}
