// C32 arrays which check their own borders
#define ECL_MEM_CHECK_ARRAYS
#include "scen_containers.cpp"

namespace {
struct Big { double d; char c[20]; Big(int v = 0) : d(v) { memset(c, v, sizeof c); } bool operator==(const Big& o) const { return d == o.d && !memcmp(c, o.c, sizeof c); } };
struct alignas(16) Wide { char c[48]; Wide(int v = 0) { memset(c, v, sizeof c); } bool operator==(const Wide& o) const { return !memcmp(c, o.c, sizeof c); } };
struct Odd { char c[3]; Odd(int v = 0) { memset(c, v, 3); } bool operator==(const Odd& o) const { return !memcmp(c, o.c, 3); } };
// what a program which runs over the ends of an array leaves there
struct Border { bool under = false, over = false; };
template <class A> struct Is { static const bool fixed = true; };
template <class T> struct Is<ecl::Array<T>> { static const bool fixed = false; };
template <class A, class T> void remake(A&, size_t, A*&, T) {}
template <class T> void remake(ecl::Array<T>& a, size_t n, ecl::Array<T>*&, T) { a.resize(n); }
template <class A> void drop(A&) {}
template <class T> void drop(ecl::Array<T>& a) { a.clear(); }
template <class A> A* make(size_t) { return new A; }
template <> ecl::Array<int>* make(size_t n) { return n ? new ecl::Array<int>((unsigned)n) : new ecl::Array<int>; }
template <> ecl::Array<Big>* make(size_t n) { return n ? new ecl::Array<Big>((unsigned)n) : new ecl::Array<Big>; }
template <> ecl::Array<Odd>* make(size_t n) { return n ? new ecl::Array<Odd>((unsigned)n) : new ecl::Array<Odd>; }
template <> ecl::Array<Wide>* make(size_t n) { return n ? new ecl::Array<Wide>((unsigned)n) : new ecl::Array<Wide>; }
template <class A> A* constant(size_t n, const typename A::value_type& v) { (void)n; return new A(A::Factory::Constant(v)); }
template <> ecl::Array<int>* constant(size_t n, const int& v) { return new ecl::Array<int>(ecl::Array<int>::Constant(n, v)); }
template <> ecl::Array<Big>* constant(size_t n, const Big& v) { return new ecl::Array<Big>(ecl::Array<Big>::Constant(n, v)); }
template <> ecl::Array<Odd>* constant(size_t n, const Odd& v) { return new ecl::Array<Odd>(ecl::Array<Odd>::Constant(n, v)); }
template <> ecl::Array<Wide>* constant(size_t n, const Wide& v) { return new ecl::Array<Wide>(ecl::Array<Wide>::Constant(n, v)); }

template <class A> struct Held { A* a; std::vector<int> m; Border b; };
template <class A> void look(Held<A>& h, const char* when) {
  bool u = h.a->bufferUnderRun(), o = h.a->bufferOverRun(), f = h.a->bufferOverFlow();
  NP;
  if (u != h.b.under) fail(u ? "false-alarm" : "damage-unnoticed", "bufferUnderRun() is %d %s%s", u, when, h.b.over ? " (the other end is damaged)" : "");
  if (o != h.b.over) fail(o ? "false-alarm" : "damage-unnoticed", "bufferOverRun() is %d %s%s", o, when, h.b.under ? " (the other end is damaged)" : "");
  if (f != (u || o)) fail("disagreement", "bufferOverFlow() is %d with an underrun %d and an overrun %d %s", f, u, o, when);
  if (u || o) probe("damage noticed"); else probe("sound");
}
template <class A> void content(Held<A>& h, const char* when) {
  typedef typename A::value_type T;
  size_t n = h.a->size();
  { NP; if (n != h.m.size()) fail("size-wrong", "size() is %zu instead of %zu %s", n, h.m.size(), when); }
  for (size_t i = 0; i < n; i++) {
    const T& e = (*h.a)[i];
    NP; if (h.m[i] != ANY && !(e == T(h.m[i]))) fail("content-wrong", "element %zu is not %d %s", i, h.m[i], when);
    if ((size_t)&e % alignof(T)) fail("misaligned", "element %zu is not aligned", i);
  }
}
template <class A> void borders() {
  typedef typename A::value_type T;
  const bool fixed = Is<A>::fixed;
  Held<A>* h[2]; int nops;
  { NP; nops = 4 + gen(14); }
  size_t N; { A* a_ = nullptr; int r; ecl::ErrorFlag fl; do { TRY(r, fl, a_ = make<A>(3)); } while (r); N = a_->size(); delete a_; }
  for (int k = 0; k < 2; k++) {
    size_t n; bool c; int v; { NP; h[k] = new Held<A>; n = fixed ? N : gen(6); c = gencoin(1, 3); v = 1 + gen(100); if (c && !n) n = 1; }
    A* a = nullptr; int r; ecl::ErrorFlag fl;
    do { TRY(r, fl, a = c ? constant<A>(n, T(v)) : make<A>(n)); } while (r);
    NP; (void)fl; h[k]->a = a; h[k]->m.assign(n, c ? v : ANY);
    log("array %d size %zu %s", k, n, c ? "constant" : "");
  }
  for (int k = 0; k < nops; k++) {
    int i, op, v; size_t at, len; { NP; i = gen(2); op = gen_weighted({5, 5, 4, 2, 2, 2, 1, 1}); v = 1 + gen(100); at = gen(4); len = 1 + gen(4 - at); }
    Held<A>& x = *h[i]; Held<A>& y = *h[1 - i]; int r = 0; ecl::ErrorFlag fl;
    bool storage = fixed || x.m.size();   // an empty array has no ends to damage
    switch (op) {
      case 0: {   // proper use: every element, every way
        if (x.m.empty()) break;
        size_t j; int how; { NP; j = gen(x.m.size()); how = gen(5); }
        switch (how) {
          case 0: (*x.a)[j] = T(v); break;
          case 1: x.a->at(j) = T(v); break;
          case 2: *(x.a->begin() + j) = T(v); break;
          case 3: { NP; j = 0; } x.a->front() = T(v); break;
          case 4: { NP; j = x.m.size() - 1; } x.a->back() = T(v); break;
        }
        NP; x.m[j] = v; log("write %d[%zu]=%d", i, j, v);
        break;
      }
      case 1: case 2: {   // somebody runs over an end (but not beyond the four bytes that are watched)
        if (!storage || !x.m.size()) break;
        bool same_, under = op == 1; char* p = under ? (char*)&x.a->front() - 1 - at : (char*)(&x.a->back() + 1) + at;
        NP; same_ = !(under ? x.b.under : x.b.over) && gencoin(1, 8);
        if (same_) { *p = (char)0xCC; }     // nobody could tell
        else { *p = (char)(0xCC ^ (1 + gen(255))); (under ? x.b.under : x.b.over) = true; }
        if (under) for (size_t q = 1; q < len && q + at < 4 && !same_; q++) p[-(long)q] = (char)gen(256);
        note_fault("stray write"); log("stray write at %s end of %d, %zu", under ? "lower" : "upper", i, at);
        break;
      }
      case 3: look(x, "when asked"); break;
      case 4: {   // assignment
        TRY(r, fl, *x.a = *y.a);
        NP; if (!r) { x.m = y.m; if (!fixed) x.b = Border(); log("assign %d from %d", i, 1 - i); }
        break;
      }
      case 5: {   // copy
        A* c = nullptr; TRY(r, fl, c = new A(*y.a));
        if (!r) delete x.a;
        NP; if (!r) { x.a = c; x.m = y.m; x.b = Border(); }
        log("copy %d to %d", 1 - i, i);
        break;
      }
      case 6: {
        if (fixed) break;
        size_t n; { NP; n = 1 + gen(6); }
        A* dummy = nullptr; TRY(r, fl, remake(*x.a, n, dummy, T(0)));
        NP; if (!r) { x.m.assign(n, ANY); x.b = Border(); log("resize %d to %zu", i, n); }
        break;
      }
      case 7: { if (fixed) break; drop(*x.a); NP; x.m.clear(); x.b = Border(); log("clear %d", i); break; }
    }
    (void)fl; (void)r;
    for (int q = 0; q < 2; q++) { content(*h[q], "after an operation"); look(*h[q], "after an operation"); }
    NP; if (x.m.size()) nontrivial();
  }
  for (int k = 0; k < 2; k++) { delete h[k]->a; NP; delete h[k]; }
}
void borders_body() {
  int t; { NP; t = gen(8); }
  switch (t) {
    case 0: borders<ecl::Array<int>>(); break;
    case 1: borders<ecl::Array<Big>>(); break;
    case 2: borders<ecl::Array<Odd>>(); break;
    case 3: borders<ecl::Array<Wide>>(); break;
    case 4: borders<ecl::Array<int, 3>>(); break;
    case 5: borders<ecl::Array<Big, 2>>(); break;
    case 6: borders<ecl::Array<Odd, 5>>(); break;
    case 7: borders<ecl::Array<Wide, 2>>(); break;
  }
}
}  // namespace
SCENARIO(checked_containers, "C32") { containers_run(); }
SCENARIO(checked_borders, "C32") {
  int n; { NP; n = 1 + gen(2); }
  Faults f; f.arm();
  if (n == 1) borders_body();
  else {
    int t[2];
    { NP; for (int i = 0; i < 2; i++) t[i] = spawn("user", [] { borders_body(); }); }
    for (int i = 0; i < 2; i++) join_fiber(t[i]);
  }
  NP;
  if (live_allocs()) { string s; dump_live_allocs(0, s); fail("leak", "memory is still allocated after the arrays are gone: %s", s.c_str()); }
}
