// C25 containers
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/containers/fifo.hpp>
#include <ecl/containers/push_and_pop.hpp>

using namespace sim;
using std::string;

namespace {
#ifdef NDEBUG
const bool dbg = false;
#else
const bool dbg = true;
#endif
struct Boom {};
int boom_count[16];
// an element with memory of its own, whose copies may fail; every object knows it is alive
struct Elem {
  const Elem* self; int v; int* heap;
  Elem() : self(this), v(-1), heap(nullptr) {}
  Elem(int x) : self(this), v(x), heap(nullptr) { heap = new int(x); }
  Elem(const Elem& o) : self(this), v(-1), heap(nullptr) { take(o); }
  Elem& operator=(const Elem& o) { check("assignment"); take(o); return *this; }
  ~Elem() { check("destruction"); self = nullptr; delete heap; heap = nullptr; }
  void check(const char* w) const { if (self != this) { NP; fail("dead-element", "%s of an element that does not exist", w); } }
  void take(const Elem& o) {
    o.check("copy");
    bool boom; { NP; boom = fault("copy.throw"); }
    if (boom) throw Boom();
    if (&o == this) return;
    int* h = o.heap ? new int(*o.heap) : nullptr;
    delete heap;
    heap = h; v = o.v;
  }
  int get() const {
    check("read");
    if (heap && *heap != v) { NP; fail("torn-element", "an element is half of %d and half of %d", v, *heap); }
    if (!heap && v != -1) { NP; fail("torn-element", "an element lost its content"); }
    return v;
  }
};
typedef ecl::Array<Elem> Dyn;
typedef ecl::Array<Elem, 5> Fix;
typedef std::vector<int> Model;
const int ANY = -7;  // content not promised

// out: 0 fine, 1 StandardException, 2 bad_alloc, 3 the element threw
#define TRYB(out, expr) \
  do { ecl::ErrorFlag f_; out = 0; try { TRY(out, f_, expr); } catch (const Boom&) { sim::Guard g_; out = 3; } (void)f_; } while (0)

struct Judge {
  int a0, c0;
  Judge() : a0(my_faults()) , c0(0) {}
  // whether the outcome r is justified; must: range error is due
  void outcome(int r, bool range, const char* what) {
    bool hurt = my_faults() > a0;
    if (r == 1 && !range) fail("spurious-failure", "%s reported an error although everything was in range", what);
    if (r == 0 && range) fail("range-unnoticed", "%s went out of range unnoticed", what);
    if ((r == 2 || r == 3) && !hurt) fail("spurious-failure", "%s failed although nothing was refused", what);
    if (r == 0 && hurt) fail("failure-hidden", "%s succeeded although memory or a copy was refused", what);
  }
};

template <class A> void same(const char* what, const A& a, const Model& m, const char* when) {
  if (a.size() != m.size()) { NP; fail("size-wrong", "%s has size %zu instead of %zu %s", what, (size_t)a.size(), m.size(), when); }
  for (size_t i = 0; i < m.size(); i++) {
    int v = a[i].get();
    if (m[i] != ANY && v != m[i]) { NP; fail("content-wrong", "%s[%zu] is %d instead of %d %s", what, i, v, m[i], when); }
  }
}
template <class It> void walk(const char* what, It b, It e, const Model& m, bool rev) {
  size_t n = 0;
  for (; b != e; ++b, ++n) {
    if (n >= m.size()) { NP; fail("iteration-wrong", "iterating %s gives more than %zu elements", what, m.size()); }
    int want = m[rev ? m.size() - 1 - n : n], v = (*b).get();
    if (want != ANY && v != want) { NP; fail("iteration-wrong", "iterating %s%s gives %d at %zu instead of %d", what, rev ? " backwards" : "", v, n, want); }
  }
  if (n != m.size()) { NP; fail("iteration-wrong", "iterating %s gives %zu elements instead of %zu", what, n, m.size()); }
}
int value() { static int dummy; (void)dummy; return 1 + gen(1000); }

// what can be done to any array; the model follows
template <class A> void use(A& a, Model& m, const char* what, bool bare = false) {
  int op, v, r = 0; size_t i; bool range, cst;
  { NP; op = gen_weighted({5, 5, 3, 3, 3, 2}); v = value(); cst = gencoin(1, 2); i = m.empty() ? gen(3) : gencoin(1, 6) ? m.size() + gen(3) : gen(m.size()); range = i >= m.size(); log("use %s op %d i=%zu v=%d", what, op, i, v); }
  const A& ca = a;
  switch (op) {
    case 0: {  // write
      bool at; { NP; at = gencoin(1, 2); }
      if (range && !at && !dbg) return;
      Judge* j; { NP; j = new Judge; }
      if (at) TRYB(r, a.at(i) = Elem(v)); else TRYB(r, a[i] = Elem(v));
      NP; j->outcome(r, range, at ? "at()" : "[]"); delete j;
      if (!r) m[i] = v;
      break;
    }
    case 1: {  // read
      bool at; int got = 0; { NP; at = gencoin(1, 2); }
      if (range && !at && !dbg) return;
      Judge* j; { NP; j = new Judge; }
      if (at) { if (cst) TRYB(r, got = ca.at(i).get()); else TRYB(r, got = a.at(i).get()); }
      else { if (cst) TRYB(r, got = ca[i].get()); else TRYB(r, got = a[i].get()); }
      NP; j->outcome(r, range, at ? "at()" : "[]"); delete j;
      if (!r && m[i] != ANY && got != m[i]) fail("content-wrong", "%s element %zu is %d instead of %d", what, i, got, m[i]);
      break;
    }
    case 2: {  // comma initialiser
      int n; bool over; { NP; n = 1 + gen(m.size() + (dbg ? 2 : 0)); if (n > 6) n = 6; over = n > (int)m.size(); }
      if (m.empty() && !dbg) return;
      if (n > (int)m.size() && !dbg) return;
      // the first value is put without a check by fixed arrays, which are never empty
      Judge* j; { NP; j = new Judge; }
      switch (n) {
        case 1: TRYB(r, (a << Elem(v))); break;
        case 2: TRYB(r, (a << Elem(v), Elem(v + 1))); break;
        case 3: TRYB(r, (a << Elem(v), Elem(v + 1), Elem(v + 2))); break;
        case 4: TRYB(r, (a << Elem(v), Elem(v + 1), Elem(v + 2), Elem(v + 3))); break;
        case 5: TRYB(r, (a << Elem(v), Elem(v + 1), Elem(v + 2), Elem(v + 3), Elem(v + 4))); break;
        case 6: TRYB(r, (a << Elem(v), Elem(v + 1), Elem(v + 2), Elem(v + 3), Elem(v + 4), Elem(v + 5))); break;
      }
      NP;
      if (!(r >= 2 && over)) j->outcome(r, over, "a list of values");
      delete j;
      if (r >= 2) { for (int k = 0; k < n && k < (int)m.size(); k++) m[k] = ANY; return; }
      for (int k = 0; k < n && k < (int)m.size(); k++) m[k] = v + k;
      break;
    }
    case 3: {  // front, back
      if (m.empty()) {
        if (!dbg || !bare) return;  // refusal is promised where there is no storage
        int got = 0;
        Judge* j; { NP; j = new Judge; }
        switch (v % 4) {
          case 0: if (cst) TRYB(r, got = ca.front().get()); else TRYB(r, got = a.front().get()); break;
          case 1: if (cst) TRYB(r, got = ca.back().get()); else TRYB(r, got = a.back().get()); break;
          case 2: if (cst) TRYB(r, got = ca.begin() == ca.end()); else TRYB(r, got = a.begin() == a.end()); break;
          case 3: if (cst) TRYB(r, got = ca.rbegin() == ca.rend()); else TRYB(r, got = a.rbegin() == a.rend()); break;
        }
        (void)got;
        NP; j->outcome(r, true, v % 4 == 0 ? "front() of an empty array" : v % 4 == 1 ? "back() of an empty array" : "iterating an empty array"); delete j;
        return;
      }
      int f, b;
      if (cst) { f = ca.front().get(); b = ca.back().get(); } else { f = a.front().get(); b = a.back().get(); }
      NP;
      if (m[0] != ANY && f != m[0]) fail("content-wrong", "front() of %s is %d instead of %d", what, f, m[0]);
      if (m.back() != ANY && b != m.back()) fail("content-wrong", "back() of %s is %d instead of %d", what, b, m.back());
      break;
    }
    case 4: {
      if (m.empty()) return;
      switch (v % 4) {
        case 0: walk(what, a.begin(), a.end(), m, false); break;
        case 1: walk(what, ca.begin(), ca.end(), m, false); break;
        case 2: walk(what, a.rbegin(), a.rend(), m, true); break;
        case 3: walk(what, ca.rbegin(), ca.rend(), m, true); break;
      }
      break;
    }
    case 5: same(what, a, m, "when looked at"); break;
  }
  NP; if (!m.empty()) nontrivial();
}

// windows on an array
template <class A> void windows(A& a, Model& m, A& a2, Model& m2, const char* what) {
  typedef ecl::Stencil<A> S;
  if (m.empty()) return;
  size_t b = 0, n = 0; int r = 0, how, nops;
  { NP; b = gen(m.size()); n = gen(m.size() - b + 1); how = gen(3); nops = 1 + gen(6); log("window on %s at %zu for %zu", what, b, n); }
  S* s = nullptr;
  {
    size_t xn; bool range; { NP; range = dbg && gencoin(1, 6); xn = range ? m.size() - b + 1 + gen(3) : n; if (range && gencoin(1, 3)) { b = m.size() + (how ? 1 : 0) + gen(3); xn = how == 2 ? 0 : gen(3); } }
    Judge* j; { NP; j = new Judge; }
    switch (how) {
      case 0: TRYB(r, s = new S(a.stencil(b, xn))); break;
      case 1: TRYB(r, s = new S(a, b, xn)); break;
      case 2: TRYB(r, s = new S(a, a.begin() + b, a.begin() + b + xn)); break;
    }
    NP; j->outcome(r, range && r < 2, "opening a window"); delete j;
    if (r) return;
  }
  for (int k = 0; k < nops; k++) {
    int op, v; bool range, cst; size_t i; Model w;
    { NP; op = gen_weighted({4, 4, 3, 3, 3, 3, 2}); v = value(); cst = gencoin(1, 2); w.assign(m.begin() + b, m.begin() + b + n);
      // beyond the window but inside its array is not judged
      i = (n == 0 || gencoin(1, 5)) ? m.size() - b + gen(3) : gen(n); range = i >= m.size() - b; log("window op %d i=%zu v=%d", op, i, v); }
    const S& cs = *s;
    switch (op) {
      case 0: {
        bool at; { NP; at = gencoin(1, 2); }
        if (range && !at && !dbg) break;
        Judge* j; { NP; j = new Judge; }
        if (at) TRYB(r, s->at(i) = Elem(v)); else TRYB(r, (*s)[i] = Elem(v));
        NP; j->outcome(r, range, at ? "at() of a window" : "[] of a window"); delete j;
        if (!r) m[b + i] = v;
        break;
      }
      case 1: {
        bool at; int got = 0; { NP; at = gencoin(1, 2); }
        if (range && !at && !dbg) break;
        Judge* j; { NP; j = new Judge; }
        if (at) { if (cst) TRYB(r, got = cs.at(i).get()); else TRYB(r, got = s->at(i).get()); }
        else { if (cst) TRYB(r, got = cs[i].get()); else TRYB(r, got = (*s)[i].get()); }
        NP; j->outcome(r, range, at ? "at() of a window" : "[] of a window"); delete j;
        if (!r && m[b + i] != ANY && got != m[b + i]) fail("content-wrong", "window element %zu is %d instead of %d", i, got, m[b + i]);
        break;
      }
      case 2: {  // list of values
        int c; bool over; { NP; c = 1 + gen(3); over = c > (int)n; }
        if (over && !dbg) break;
        Judge* j; { NP; j = new Judge; }
        switch (c) {
          case 1: TRYB(r, (*s << Elem(v))); break;
          case 2: TRYB(r, (*s << Elem(v), Elem(v + 1))); break;
          case 3: TRYB(r, (*s << Elem(v), Elem(v + 1), Elem(v + 2))); break;
        }
        NP;
        if (!(r >= 2 && over)) j->outcome(r, over, "a list of values");
        delete j;
        for (int q = 0; q < c && q < (int)n; q++) m[b + q] = r >= 2 ? ANY : v + q;
        break;
      }
      case 3:
        switch (v % 4) {
          case 0: walk("a window", s->begin(), s->end(), w, false); break;
          case 1: walk("a window", cs.begin(), cs.end(), w, false); break;
          case 2: walk("a window", s->rbegin(), s->rend(), w, true); break;
          case 3: walk("a window", cs.rbegin(), cs.rend(), w, true); break;
        }
        if (n) {
          int f = cst ? cs.front().get() : s->front().get(), l = cst ? cs.back().get() : s->back().get();
          NP;
          if (w[0] != ANY && f != w[0]) fail("content-wrong", "front() of a window is %d instead of %d", f, w[0]);
          if (w.back() != ANY && l != w.back()) fail("content-wrong", "back() of a window is %d instead of %d", l, w.back());
        }
        { NP; if (s->size() != n) fail("size-wrong", "a window has size %zu instead of %zu", (size_t)s->size(), n); }
        break;
      case 4: {  // resettle
        size_t nb, nn; bool rg; { NP; rg = dbg && gencoin(1, 3); nb = gen(m.size() + (rg ? 3 : 0)); nn = rg ? gen(m.size() + 3) : gen(m.size() - nb + 1); rg = nb > m.size() || nb + nn > m.size(); }
        if (rg && !dbg) break;
        Judge* j; { NP; j = new Judge; }
        if (gencoin(1, 2)) TRYB(r, s->resettle(nb, nn)); else if (!rg && nb < m.size()) TRYB(r, *s = a.stencil(nb, nn)); else break;
        NP; j->outcome(r, rg, "resettling a window"); delete j;
        if (!r) { b = nb; n = nn; }
        break;
      }
      case 5: {  // copy from a window on another array
        if (m2.empty() || &a2 == &a) break;
        size_t ob, on; bool over; { NP; ob = gen(m2.size()); on = gen(m2.size() - ob + 1); over = on > n; }
        if (over && !dbg) break;
        Judge* j; { NP; j = new Judge; }
        TRYB(r, *s = a2.stencil(ob, on));
        NP; j->outcome(r, over && r < 2, "copying a window"); delete j;
        if (r != 1 && !over) for (size_t q = 0; q < on; q++) m[b + q] = r ? ANY : m2[ob + q];
        break;
      }
      case 6: {  // a window on the window
        if (b + n >= m.size() && n == 0) break;
        size_t ob, on; bool rg; { NP; rg = dbg && gencoin(1, 3); ob = gen(n ? n : 1); on = n ? gen(n - ob + 1) : 0; if (rg) { if (gencoin(1, 2)) ob = m.size() - b + gen(3); else on = m.size() - b - ob + 1 + gen(3); } }
        Judge* j; { NP; j = new Judge; }
        int got = -1; size_t sz = 0;
        TRYB(r, { S t = s->stencil(ob, on); sz = t.size(); if (on) got = t[on - 1].get(); });
        NP; j->outcome(r, rg, "a window on a window"); delete j;
        if (rg) break;
        if (!r && (sz != on || (on && m[b + ob + on - 1] != ANY && got != m[b + ob + on - 1]))) fail("content-wrong", "a window on a window shows %d (size %zu) instead of %d (size %zu)", got, sz, on ? m[b + ob + on - 1] : 0, on);
        break;
      }
    }
  }
  delete s;
}

// windows on plain memory
template <bool CONST> struct RawWrite {
  template <class S> static void put(S& s, size_t i, bool at, int v, int& r) { if (at) TRYB(r, s.at(i) = v); else TRYB(r, s[i] = v); }
  template <class S> static void list(S& s, int v, int& r) { TRYB(r, (s << (unsigned char)v, (unsigned char)(v + 1))); }
};
template <> struct RawWrite<true> {
  template <class S> static void put(S&, size_t, bool, int, int&) {}
  template <class S> static void list(S&, int, int&) {}
};
template <class It> void raw_walk(It b, It e, const string& m, bool rev) {
  size_t n = 0;
  for (; b != e; ++b, ++n) {
    if (n >= m.size()) { NP; fail("iteration-wrong", "iterating a window on memory gives more than %zu elements", m.size()); }
    unsigned char want = m[rev ? m.size() - 1 - n : n];
    if (*b != want) { NP; fail("iteration-wrong", "iterating a window on memory%s gives %d at %zu instead of %d", rev ? " backwards" : "", *b, n, want); }
  }
  if (n != m.size()) { NP; fail("iteration-wrong", "iterating a window on memory gives %zu elements instead of %zu", n, m.size()); }
}
template <class P, bool CONST> void raw_windows() {
  typedef ecl::Stencil<P> S;
  size_t len, b, n, len2; unsigned char *mem, *mem2; string m, m2; int r = 0, nops, how; bool rg;
  { NP;
    len = 1 + gen(8); mem = (unsigned char*)malloc(len); for (size_t i = 0; i < len; i++) { mem[i] = gen(256); m += (char)mem[i]; }
    len2 = 1 + gen(8); mem2 = (unsigned char*)malloc(len2); for (size_t i = 0; i < len2; i++) { mem2[i] = gen(256); m2 += (char)mem2[i]; }
    how = gen_weighted({4, 4, 1, 1}); rg = dbg && how < 2 && gencoin(1, 6); b = gen(len + (rg ? 4 : 0)); n = rg ? gen(len + 4) : gen(len - b + 1); rg = b + n > len; nops = 1 + gen(6);
    if (how == 2) b = n = 0;
    if (how == 3) n = 0;
    log("window on %zu bytes of memory at %zu for %zu", len, b, n); }
  S* s = nullptr;
  { Judge* j; { NP; j = new Judge; }
    switch (how) {
      case 0: TRYB(r, s = new S(mem, (unsigned)len, mem + b, mem + b + n)); break;
      case 1: TRYB(r, s = new S(mem, (unsigned)len, (unsigned)b, (unsigned)n)); break;
      case 2: TRYB(r, s = new S(mem, (unsigned)len)); break;
      case 3: TRYB(r, s = new S(mem, (unsigned)len, (unsigned)b)); break;
    }
    NP; if (!(r == 2 && rg)) j->outcome(r, rg, "opening a window on memory"); delete j; }
  for (int k = 0; s && k < nops; k++) {
    int op, v; bool range, cst, at; size_t i;
    { NP; op = gen(7); v = gen(256); cst = gencoin(1, 2); at = gencoin(1, 2); i = (n == 0 || gencoin(1, 5)) ? len - b + gen(3) : gen(n); range = i >= len - b; log("memory window op %d i=%zu v=%d", op, i, v); }
    const S& cs = *s;
    Judge* j; { NP; j = new Judge; }
    switch (op) {
      case 0:
        if (CONST || (range && !at && !dbg)) break;
        RawWrite<CONST>::put(*s, i, at, v, r);
        { NP; j->outcome(r, range, "an element of a window on memory"); if (!r) m[b + i] = v; }
        break;
      case 1: {
        int got = 0;
        if (range && !at && !dbg) break;
        if (at) { if (cst) TRYB(r, got = cs.at(i)); else TRYB(r, got = s->at(i)); } else { if (cst) TRYB(r, got = cs[i]); else TRYB(r, got = (*s)[i]); }
        NP; j->outcome(r, range, "an element of a window on memory");
        if (!r && got != (unsigned char)m[b + i]) fail("content-wrong", "window element %zu is %d instead of %d", i, got, (unsigned char)m[b + i]);
        break;
      }
      case 2: {
        size_t nb, nn; bool rg; { NP; rg = dbg && gencoin(1, 3); nb = gen(len + (rg ? 3 : 0)); nn = rg ? gen(len + 3) : gen(len - nb + 1); rg = nb > len || nb + nn > len; }
        if (rg && !dbg) break;
        TRYB(r, s->resettle(nb, nn));
        NP; j->outcome(r, rg, "resettling a window"); if (!r) { b = nb; n = nn; }
        break;
      }
      case 3: {
        bool over; { NP; over = 2 > n; }
        if (CONST || (over && !dbg)) break;
        RawWrite<CONST>::list(*s, v, r);
        NP; j->outcome(r, over, "a list of values"); for (size_t q = 0; q < 2 && q < n; q++) m[b + q] = v + q;
        break;
      }
      case 4: {
        string w; { NP; w = m.substr(b, n); }
        switch (v % 4) {
          case 0: raw_walk(s->begin(), s->end(), w, false); break;
          case 1: raw_walk(cs.begin(), cs.end(), w, false); break;
          case 2: raw_walk(s->rbegin(), s->rend(), w, true); break;
          case 3: raw_walk(cs.rbegin(), cs.rend(), w, true); break;
        }
        if (n) {
          int f = cst ? cs.front() : s->front(), l = cst ? cs.back() : s->back();
          NP;
          if (f != (unsigned char)w[0]) fail("content-wrong", "front() of a window on memory is %d instead of %d", f, (unsigned char)w[0]);
          if (l != (unsigned char)w[n - 1]) fail("content-wrong", "back() of a window on memory is %d instead of %d", l, (unsigned char)w[n - 1]);
        }
        break;
      }
      case 5: {  // a window on the window
        size_t ob, on; bool over; { NP; over = dbg && gencoin(1, 4); ob = over ? gen(len + 3) : gen(n + 1); on = over ? gen(len + 3) : gen(n - ob + 1); over = b + ob + on > len; }
        if (!over && ob + on > n) break;  // beyond the window but inside the memory is not judged
        int first = -1, last = -1; size_t sz = 0;
        TRYB(r, { S t = s->stencil(ob, on); sz = t.size(); if (on) { first = t[0]; last = t[on - 1]; } });
        NP; j->outcome(r, over, "a window on a window on memory");
        if (!r && (sz != on || (on && (first != (unsigned char)m[b + ob] || last != (unsigned char)m[b + ob + on - 1])))) fail("content-wrong", "a window on a window on memory of size %zu has %zu elements from %d to %d", on, sz, first, last);
        break;
      }
      case 6: {  // taking over another window
        size_t ob, on; bool other; { NP; other = gencoin(1, 2); size_t l = other ? len2 : len; ob = gen(l); on = gen(l - ob + 1); }
        if (v % 3 == 0) { TRYB(r, *s = *s); NP; j->outcome(r, false, "assigning a window to itself"); break; }
        TRYB(r, { S t(other ? mem2 : mem, (unsigned)(other ? len2 : len), (unsigned)ob, (unsigned)on); if (v % 3 == 1) *s = t; else { S t2(t); *s = t2; } });
        NP; j->outcome(r, false, "assigning a window on memory");
        if (!r) { b = ob; n = on; if (other) { std::swap(mem, mem2); std::swap(m, m2); std::swap(len, len2); } }
        break;
      }
    }
    NP; delete j;
    if (s->size() != n) fail("size-wrong", "a window has size %zu instead of %zu", (size_t)s->size(), n);
    if (string((char*)mem, len) != m || string((char*)mem2, len2) != m2) fail("content-wrong", "writing through a window changed other bytes");
  }
  delete s;
  NP; free(mem); free(mem2);
}

struct Faults {
  bool on = false;
  void arm() { NP; if (faulty()) { if (gencoin(2, 3)) enable_fault("alloc", 1, 4 + gen(40)); if (gencoin(2, 3)) enable_fault("copy.throw", 1, 4 + gen(40)); set_fault_budget(1 + gen(6)); } }
};

void arrays_body() {
  Dyn* d[3] = {nullptr, nullptr, nullptr}; Model dm[3]; bool bare[3] = {false, false, false}; Fix* f[2] = {nullptr, nullptr}; Model fm[2];
  int nops; { NP; nops = 3 + gen(30); }
  for (int i = 0; i < 2; i++) { int r; TRYB(r, f[i] = new Fix); if (r) return (void)(delete f[0]); NP; fm[i].assign(5, -1); }
  for (int k = 0; k < nops; k++) {
    int op, x, y, v, r = 0; size_t n;
    { NP; op = gen_weighted({4, 4, 3, 2, 2, 2, 6, 4, 2, 1}); x = gen(3); y = gen(3); v = value(); n = gencoin(1, 8) ? 0 : 1 + gen(7); log("op %d x=%d y=%d n=%zu v=%d", op, x, y, n, v); }
    Judge* j; { NP; j = new Judge; }
    switch (op) {
      case 0: {  // make another one in place x
        int how; { NP; how = gen(4); if (how == 2 && !d[y]) how = 1; if (how == 2 && y == x) how = 1; }
        if (d[x]) { delete d[x]; NP; d[x] = nullptr; dm[x].clear(); }
        { NP; delete j; j = new Judge; }
        Model m;
        switch (how) {
          case 0: TRYB(r, d[x] = new Dyn); break;
          case 1: TRYB(r, d[x] = new Dyn((unsigned)n)); { NP; m.assign(n, -1); } break;
          case 2: TRYB(r, d[x] = new Dyn(*d[y])); { NP; m = dm[y]; } break;
          case 3: if (!n) { NP; n = 1; } TRYB(r, d[x] = new Dyn(Dyn::Constant(n, Elem(v)))); { NP; m.assign(n, v); } break;
        }
        NP; j->outcome(r, false, "construction of an array");
        if (r) d[x] = nullptr; else { dm[x] = m; bare[x] = how == 0; }
        break;
      }
      case 1:  // assign
        if (!d[x] || !d[y]) break;
        TRYB(r, *d[x] = *d[y]);
        { NP; j->outcome(r, false, "assignment of an array"); if (!r) { if (x != y) bare[x] = false; dm[x] = dm[y]; } }
        break;
      case 2:
        if (!d[x]) break;
        TRYB(r, d[x]->resize(n));
        { NP; j->outcome(r, false, "resize of an array"); if (!r) { dm[x].assign(n, -1); bare[x] = false; } }
        break;
      case 3:
        if (!d[x]) break;
        d[x]->clear();
        { NP; dm[x].clear(); bare[x] = true; }
        break;
      case 4:
        if (!d[x]) break;
        if (!n) { NP; n = 1; }
        TRYB(r, *d[x] = Dyn::Constant(n, Elem(v)));
        { NP; j->outcome(r, false, "assignment of a blueprint"); if (!r) { dm[x].assign(n, v); bare[x] = false; } }
        break;
      case 5: {  // fixed arrays
        int a = x % 2, b = y % 2, how; { NP; how = gen(3); }
        if (how == 0) { TRYB(r, *f[a] = *f[b]); NP; j->outcome(r, false, "assignment of an array"); fm[a] = r ? Model(5, ANY) : fm[b]; }
        else if (how == 1) { TRYB(r, { Fix t(*f[b]); same("a copy", t, fm[b], "after construction"); }); NP; j->outcome(r, false, "copy of an array"); }
        else { TRYB(r, *f[a] = Fix::Constant(Elem(v))); NP; j->outcome(r, false, "assignment of a blueprint"); fm[a].assign(5, r ? ANY : v); }
        break;
      }
      case 6: {
        bool fx; { NP; fx = gencoin(1, 3); }
        if (fx) use(*f[x % 2], fm[x % 2], "a fixed array"); else if (d[x]) use(*d[x], dm[x], "an array", bare[x]);
        break;
      }
      case 7: {
        bool fx; { NP; fx = gencoin(1, 3); }
        if (fx) windows(*f[x % 2], fm[x % 2], *f[y % 2], fm[y % 2], "a fixed array"); else if (d[x] && d[y]) windows(*d[x], dm[x], *d[y], dm[y], "an array");
        break;
      }
      case 8: {
        bool cst; { NP; cst = gencoin(1, 3); }
        if (cst) raw_windows<const unsigned char*, true>(); else raw_windows<unsigned char*, false>();
        break;
      }
      case 9: if (d[x]) { delete d[x]; NP; d[x] = nullptr; dm[x].clear(); } break;
    }
    { NP; delete j; }
    const char* when = r ? "after a failed operation" : "after an operation";
    for (int i = 0; i < 3; i++) if (d[i]) same("an array", *d[i], dm[i], when);
    for (int i = 0; i < 2; i++) same("a fixed array", *f[i], fm[i], when);
  }
  for (auto p : d) delete p;
  for (auto p : f) delete p;
}

void fifos_body() {
  typedef ecl::FiFo<Elem> Q;
  Q* q[2] = {nullptr, nullptr}; std::vector<int> m[2];
  int nops; { NP; nops = 3 + gen(40); }
  for (int k = 0; k < nops; k++) {
    int op, x, v, r = 0; size_t n;
    { NP; op = gen_weighted({2, 8, 2, 2, 2, 4}); x = gen(2); v = value(); n = 1 + gen(5); if (!q[x]) op = 0; log("fifo op %d x=%d n=%zu v=%d", op, x, n, v); }
    Judge* j;
    switch (op) {
      case 0: {
        int how; { NP; how = gen(4); if (how == 2 && !q[1 - x]) how = 0; }
        delete q[x]; { NP; q[x] = nullptr; m[x].clear(); j = new Judge; }
        Model t;
        switch (how) {
          case 0: TRYB(r, q[x] = new Q(n)); { NP; t.assign(n, -1); } break;
          case 1: TRYB(r, q[x] = new Q(n, Elem(v))); { NP; t.assign(n, v); } break;
          case 2: TRYB(r, q[x] = new Q(*q[1 - x])); { NP; t = m[1 - x]; } break;
          case 3: TRYB(r, { q[x] = new Q; }); if (!r) { TRYB(r, q[x]->resize(n)); if (r) { delete q[x]; NP; q[x] = nullptr; } } { NP; t.assign(n, -1); } break;
        }
        NP; j->outcome(r, false, "construction of a fifo"); delete j;
        if (r) q[x] = nullptr; else m[x] = t;
        break;
      }
      case 1: {
        bool own; int i; { NP; own = gencoin(1, 6); i = gen(m[x].size()); j = new Judge; }
        if (own) TRYB(r, q[x]->push_back((*q[x])[i])); else TRYB(r, q[x]->push_back(Elem(v)));
        NP; j->outcome(r, false, "push_back of a fifo"); delete j;
        if (!r) { int w = own ? m[x][i] : v; m[x].erase(m[x].begin()); m[x].push_back(w); nontrivial(); }
        break;
      }
      case 2:
        { NP; j = new Judge; }
        TRYB(r, q[x]->fill(Elem(v)));
        { NP; j->outcome(r, false, "fill of a fifo"); delete j; m[x].assign(m[x].size(), r ? ANY : v); }
        break;
      case 3: {
        bool zero; { NP; zero = dbg && gencoin(1, 4); j = new Judge; }
        TRYB(r, q[x]->resize(zero ? 0 : n));
        NP; j->outcome(r, zero, "resize of a fifo"); delete j;
        if (!r) m[x].assign(n, -1);
        break;
      }
      case 4:
        if (!q[1 - x]) break;
        { NP; j = new Judge; }
        TRYB(r, *q[x] = *q[1 - x]);
        { NP; j->outcome(r, false, "assignment of a fifo"); delete j; if (!r) m[x] = m[1 - x]; }
        break;
      case 5: {
        int i; { NP; i = gen(m[x].size()); j = new Judge; }
        TRYB(r, (*q[x])[i] = Elem(v));
        NP; j->outcome(r, false, "writing an element of a fifo"); delete j; if (!r) m[x][i] = v;
        break;
      }
    }
    for (int y = 0; y < 2; y++) if (q[y]) {
      const Q& c = *q[y];
      for (size_t i = 0; i < m[y].size(); i++) {
        int got = c[i].get(), g2 = (*q[y])[i].get();
        if (m[y][i] != ANY && (got != m[y][i] || g2 != m[y][i])) { NP; fail("content-wrong", "fifo[%zu] is %d instead of %d%s", i, got, m[y][i], r ? " after a failed operation" : ""); }
      }
      unsigned idx = q[y]->get_idx();
      NP; if (idx >= m[y].size()) fail("size-wrong", "the oldest element of a fifo of %zu is said to be at %u", m[y].size(), idx);
    }
  }
  for (auto p : q) delete p;
}

template <class Q> struct Make;
template <> struct Make<ecl::PushAndPop<Elem, 4>> {
  typedef ecl::PushAndPop<Elem, 4> Q;
  static const bool dyn = false;
  static Q* empty(size_t& n) { n = 4; return new Q; }
  static Q* filled(size_t& n, int v) { n = 4; return new Q(Elem(v)); }
  static void resize(Q&, size_t) {}
};
template <> struct Make<ecl::PushAndPop<Elem>> {
  typedef ecl::PushAndPop<Elem> Q;
  static const bool dyn = true;
  static Q* empty(size_t& n) { return new Q(n); }
  static Q* filled(size_t& n, int v) { return new Q(n, Elem(v)); }
  static void resize(Q& q, size_t n) { q.resize(n); }
};
template <class Q> void pushpop_body() {
  typedef Make<Q> M;
  Q* q[2] = {nullptr, nullptr}; std::vector<int> m[2]; size_t cap[2] = {0, 0};
  int nops; { NP; nops = 3 + gen(40); }
  for (int k = 0; k < nops; k++) {
    int op, x, v, r = 0; size_t n;
    { NP; op = gen_weighted({2, 10, 6, 1, 1, 2, 2, 2, 1}); x = gen(2); v = value(); n = 1 + gen(4); if (!q[x]) op = 0; log("pushpop op %d x=%d n=%zu v=%d", op, x, n, v); }
    Judge* j;
    switch (op) {
      case 0: {
        int how; { NP; how = gen(3); if (how == 2 && !q[1 - x]) how = 0; }
        delete q[x]; { NP; q[x] = nullptr; m[x].clear(); j = new Judge; }
        switch (how) {
          case 0: TRYB(r, q[x] = M::empty(n)); break;
          case 1: TRYB(r, q[x] = M::filled(n, v)); break;
          case 2: TRYB(r, q[x] = new Q(*q[1 - x])); { NP; n = cap[1 - x]; if (!r) m[x] = m[1 - x]; } break;
        }
        NP; j->outcome(r, false, "construction"); delete j;
        if (r) q[x] = nullptr; else cap[x] = n;
        break;
      }
      case 1: {
        bool own; int i = 0; { NP; own = m[x].size() && gencoin(1, 6); if (own) i = gen(m[x].size()); j = new Judge; }
        if (own) TRYB(r, q[x]->push_back((*q[x])[i])); else TRYB(r, q[x]->push_back(Elem(v)));
        NP; j->outcome(r, false, "push_back"); delete j;
        if (!r) { m[x].push_back(own ? m[x][i] : v); if (m[x].size() > cap[x]) { m[x].erase(m[x].begin()); probe("rolled over"); } nontrivial(); }
        break;
      }
      case 2: {
        bool none; int got = 0; { NP; none = m[x].empty(); j = new Judge; }
        if (none && !dbg) { NP; delete j; break; }
        TRYB(r, { Elem e = q[x]->pop_front(); got = e.get(); });
        NP; j->outcome(r, none, "pop_front"); delete j;
        if (r != 1 && !none) {
          if (!r) { if (m[x][0] != ANY && got != m[x][0]) fail("content-wrong", "pop_front() gave %d instead of %d", got, m[x][0]); m[x].erase(m[x].begin()); }
          else if (q[x]->size() != m[x].size()) { fail("size-wrong", "a pop_front() that failed took the element away"); }
        }
        break;
      }
      case 3:
        { NP; j = new Judge; }
        TRYB(r, q[x]->fill(Elem(v)));
        { NP; j->outcome(r, false, "fill"); delete j; for (auto& e : m[x]) e = r ? ANY : v; }
        break;
      case 4: q[x]->clear(); { NP; m[x].clear(); } break;
      case 5:
        if (!M::dyn) break;
        { NP; j = new Judge; }
        TRYB(r, M::resize(*q[x], n));
        { NP; j->outcome(r, false, "resize"); delete j; if (!r) { m[x].clear(); cap[x] = n; } }
        break;
      case 6:
        if (!q[1 - x]) break;
        { NP; j = new Judge; }
        TRYB(r, *q[x] = *q[1 - x]);
        { NP; j->outcome(r, false, "assignment"); delete j; if (!r) { m[x] = m[1 - x]; cap[x] = cap[1 - x]; } else if (!M::dyn) for (auto& e : m[x]) e = ANY; }
        break;
      case 7:
        if (!q[1 - x]) break;
        { NP; j = new Judge; }
        TRYB(r, (*q[x])(*q[1 - x]));
        { NP; j->outcome(r, false, "copying"); delete j; if (!r) { m[x] = m[1 - x]; cap[x] = cap[1 - x]; } else if (!M::dyn) for (auto& e : m[x]) e = ANY; }
        break;
      case 8:
        if (m[x].empty()) break;
        { int i; { NP; i = gen(m[x].size()); j = new Judge; }
          TRYB(r, (*q[x])[i] = Elem(v));
          NP; j->outcome(r, false, "writing an element"); delete j; if (!r) m[x][i] = v; }
        break;
    }
    for (int y = 0; y < 2; y++) if (q[y]) {
      const Q& c = *q[y];
      size_t sz = c.size(), asz = q[y]->asize();
      { NP; if (sz != m[y].size()) fail("size-wrong", "size() is %zu with %zu elements queued%s", sz, m[y].size(), r ? " after a failed operation" : "");
        if (asz != cap[y] + 1) fail("size-wrong", "asize() is %zu with room for %zu", asz, cap[y]); }
      for (size_t i = 0; i < sz; i++) {
        int got = c[i].get(), g2 = (*q[y])[i].get();
        if (m[y][i] != ANY && (got != m[y][i] || g2 != m[y][i])) { NP; fail("content-wrong", "queued element %zu is %d instead of %d%s", i, got, m[y][i], r ? " after a failed operation" : ""); }
      }
    }
  }
  for (auto p : q) delete p;
}
void body() {
  int what; { NP; what = gen(4); }
  switch (what) {
    case 0: arrays_body(); break;
    case 1: fifos_body(); break;
    case 2: pushpop_body<ecl::PushAndPop<Elem>>(); break;
    case 3: pushpop_body<ecl::PushAndPop<Elem, 4>>(); break;
  }
}
}  // namespace

void containers_run() {
  int n; { NP; n = 1 + gen(2); }
  Faults f;
  if (n == 1) { f.arm(); body(); }
  else {
    int t[2];
    { NP; for (int i = 0; i < 2; i++) t[i] = spawn("user", [] { body(); }); }
    f.arm();
    for (int i = 0; i < 2; i++) join_fiber(t[i]);
  }
  NP;
  if (live_allocs()) { string s; dump_live_allocs(0, s); fail("leak", "memory is still allocated after the containers are gone: %s", s.c_str()); }
}
#ifndef ECL_MEM_CHECK_ARRAYS
SCENARIO(containers, "C25") { containers_run(); }
#endif
