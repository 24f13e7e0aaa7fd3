// C18 delivery over connection histories, C19 callbacks that change connections, C20 threads
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/sigslots.hpp>
#include <stdexcept>
#include <algorithm>
#include <sched.h>
#include <iostream>
#include <sstream>

using namespace sim;

namespace {
// ------------------------------------------------------------------------------------------ callbacks
const int MAXN = 24;                       // sigslots ever created per world
void on_call(int world, int id, long value);
struct Payload { int a; std::string s; };  // passed by const reference
struct Recv {
  int world, id; int guard;
  void v() { on_call(world, id, -1); }
  void i(int x) { on_call(world, id, x); }
  void p(const Payload& x) { long v; { NP; v = x.a; if (x.s != "payload-" + std::to_string(x.a)) fail("data-wrong", "the data handed to a callback is not the data emitted"); } on_call(world, id, v); }
};
Recv* R;                                   // [world * MAXN + id]
template <int W, int N> struct FreeCb {
  static void v() { on_call(W, N, -1); }
  static void i(int x) { on_call(W, N, x); }
  static void p(const Payload& x) { R[W * MAXN + N].p(x); }
};

struct Node {
  bool signal = false; int handles = 0; bool dead = true; std::string why;
  std::set<std::string> pubs, subs;
  // threads
  u64 conn_end = INF, disc_begin = INF, disc_end = INF; int running = 0; bool owned = false;
  u64 touched = 0;                         // event counter of the last change of its connections
  int script = -1, script_at = 0, calls = 0, arg = 0;
  int dropping = 0;                        // handles whose release is under way
};
struct WorldBase {
  int w; int nn = 0;
  Node n[MAXN];
  struct H { void* p; int node; };
  std::vector<H> hs;                       // live handles
  virtual ~WorldBase() {}
  virtual void* mk_signal(const char* topic) = 0;
  virtual void* mk_slot(int id, int form, const char* topic) = 0;
  virtual void* copy(const H&) = 0;
  virtual void assign(const H& to, const H& from) = 0;
  virtual void destroy(void* p, bool sig) = 0;
  virtual void connect(void* p, bool sig, const char* topic) = 0;
  virtual void as_slot(void* p, const char* topic) = 0;
  virtual void disconnect(void* p, bool sig) = 0;
  virtual void emit(void* p, int v) = 0;
  virtual bool has_value() = 0;
  virtual void statistics() = 0;
  virtual bool check_connections(void* p, const std::set<std::string>& s) { (void)p; (void)s; return true; }
};
template <class D> struct Ops;
template <> struct Ops<ecl::Void> {
  static void emit(ecl::Signal<>& s, int) { s.emit(); }
  template <int W> static ecl::Slot<>* slot(int id, int form, const char* t) {
    if (form == 0) return t ? new ecl::Slot<>(&Recv::v, R[W * MAXN + id], t) : new ecl::Slot<>(&Recv::v, R[W * MAXN + id]);
    switch (id % 4) {
      case 0: return t ? new ecl::Slot<>(FreeCb<W, 0>::v, t) : new ecl::Slot<>(FreeCb<W, 0>::v);
      case 1: return t ? new ecl::Slot<>(FreeCb<W, 1>::v, t) : new ecl::Slot<>(FreeCb<W, 1>::v);
      case 2: return t ? new ecl::Slot<>(FreeCb<W, 2>::v, t) : new ecl::Slot<>(FreeCb<W, 2>::v);
      default: return t ? new ecl::Slot<>(FreeCb<W, 3>::v, t) : new ecl::Slot<>(FreeCb<W, 3>::v);
    }
  }
  static bool conns(ecl::Slot<>*, const std::set<std::string>&) { return true; }
  static const bool value = false;
};
template <> struct Ops<int> {
  static void emit(ecl::Signal<int>& s, int v) { s.emit(v); }
  template <int W> static ecl::Slot<int>* slot(int id, int form, const char* t) {
    if (form == 0) return t ? new ecl::Slot<int>(&Recv::i, R[W * MAXN + id], t) : new ecl::Slot<int>(&Recv::i, R[W * MAXN + id]);
    switch (id % 4) {
      case 0: return t ? new ecl::Slot<int>(FreeCb<W, 0>::i, t) : new ecl::Slot<int>(FreeCb<W, 0>::i);
      case 1: return t ? new ecl::Slot<int>(FreeCb<W, 1>::i, t) : new ecl::Slot<int>(FreeCb<W, 1>::i);
      case 2: return t ? new ecl::Slot<int>(FreeCb<W, 2>::i, t) : new ecl::Slot<int>(FreeCb<W, 2>::i);
      default: return t ? new ecl::Slot<int>(FreeCb<W, 3>::i, t) : new ecl::Slot<int>(FreeCb<W, 3>::i);
    }
  }
  static bool conns(ecl::Slot<int>* s, const std::set<std::string>& m) { return s->connections() == m; }
  static const bool value = true;
};
template <> struct Ops<const Payload&> {
  typedef const Payload& D;
  static void emit(ecl::Signal<D>& s, int v) { Payload* p; { NP; p = new Payload; p->a = v; p->s = "payload-" + std::to_string(v); } 
    struct Fin { Payload* p; ~Fin() { NP; p->s = "gone"; delete p; } } fin = {p};
    s.emit(*p); }
  template <int W> static ecl::Slot<D>* slot(int id, int form, const char* t) {
    if (form == 0) return t ? new ecl::Slot<D>(&Recv::p, R[W * MAXN + id], t) : new ecl::Slot<D>(&Recv::p, R[W * MAXN + id]);
    switch (id % 4) {
      case 0: return t ? new ecl::Slot<D>(FreeCb<W, 0>::p, t) : new ecl::Slot<D>(FreeCb<W, 0>::p);
      case 1: return t ? new ecl::Slot<D>(FreeCb<W, 1>::p, t) : new ecl::Slot<D>(FreeCb<W, 1>::p);
      case 2: return t ? new ecl::Slot<D>(FreeCb<W, 2>::p, t) : new ecl::Slot<D>(FreeCb<W, 2>::p);
      default: return t ? new ecl::Slot<D>(FreeCb<W, 3>::p, t) : new ecl::Slot<D>(FreeCb<W, 3>::p);
    }
  }
  static bool conns(ecl::Slot<D>* s, const std::set<std::string>& m) { return s->connections() == m; }
  static const bool value = true;
};
template <class D, int W> struct World : WorldBase {
  typedef ecl::Signal<D> Sig; typedef ecl::Slot<D> Slo;
  World() { w = W; }
  void* mk_signal(const char* t) override { return t ? new Sig(t) : new Sig(); }
  void* mk_slot(int id, int form, const char* t) override { return Ops<D>::template slot<W>(id, form, t); }
  void* copy(const H& h) override { return n[h.node].signal ? (void*)new Sig(*(Sig*)h.p) : (void*)new Slo(*(Slo*)h.p); }
  void assign(const H& a, const H& b) override { if (n[a.node].signal) *(Sig*)a.p = *(Sig*)b.p; else *(Slo*)a.p = *(Slo*)b.p; }
  void destroy(void* p, bool s) override { if (s) delete (Sig*)p; else delete (Slo*)p; }
  void connect(void* p, bool s, const char* t) override { if (s) ((Sig*)p)->connect(t); else ((Slo*)p)->connect(t); }
  void as_slot(void* p, const char* t) override { ((Sig*)p)->connectAsSlot(t); }
  void disconnect(void* p, bool s) override { if (s) ((Sig*)p)->disconnect(); else ((Slo*)p)->disconnect(); }
  void emit(void* p, int v) override { Ops<D>::emit(*(Sig*)p, v); }
  void statistics() override { ecl::SigSlotsManager<D>::printStatistics(); }
  bool has_value() override { return Ops<D>::value; }
  bool check_connections(void* p, const std::set<std::string>& s) override { return Ops<D>::conns((Slo*)p, s); }
};
const char* const TOPICS[] = {"a", "b", "c", "", "a rather long topic name that does not fit inline"};
const int NT = 5;
int gtopic() { return gen_weighted({6, 3, 1, 1, 1}); }
WorldBase* wd[2]; int nw;

// ------------------------------------------------------------------------------------------ emissions
struct Emission {
  int world, signal; long value; u64 begin; std::set<std::string> pubs;
  std::map<int, int> want;                 // slot -> deliveries if nothing changes (own topics only, no relays)
  std::map<int, int> got;
  bool relays;
};
std::vector<Emission*>* stack_of;          // [fiber]
u64 g_event;                               // counts changes of connections
int mode;                                  // 18, 19, 20
void run_script(int world, int id);

void expand(WorldBase* x, int sig, std::map<int, int>& out, int depth = 0) {
  if (depth > 12) return;
  for (auto& t : x->n[sig].pubs) for (int k = 0; k < x->nn; k++) {
    Node& m = x->n[k];
    if (m.dead || !m.subs.count(t)) continue;
    if (m.signal) expand(x, k, out, depth + 1); else out[k]++;
  }
}
bool reaches(WorldBase* x, int from, int to, int depth = 0) {  // can an emission of `from` run `to`'s emit?
  if (from == to) return true;
  if (depth > 12) return true;
  for (auto& t : x->n[from].pubs) for (int k = 0; k < x->nn; k++)
    if (!x->n[k].dead && x->n[k].signal && x->n[k].subs.count(t) && reaches(x, k, to, depth + 1)) return true;
  return false;
}
bool cyclic(WorldBase* x, int sig, const char* pub, const char* sub) {
  Node& s = x->n[sig]; auto p0 = s.pubs, s0 = s.subs; bool bad = false;
  if (pub) s.pubs.insert(pub);
  if (sub) s.subs.insert(sub);
  for (int a = 0; a < x->nn && !bad; a++) if (!x->n[a].dead && x->n[a].signal)
    for (auto& t : x->n[a].pubs) for (int k = 0; k < x->nn; k++)
      if (!x->n[k].dead && x->n[k].signal && x->n[k].subs.count(t) && reaches(x, k, a)) bad = true;
  int worst = 0;
  if (!bad) for (int a = 0; a < x->nn; a++) if (!x->n[a].dead && x->n[a].signal) { std::map<int, int> o; expand(x, a, o); int c = 0; for (auto& q : o) c += q.second; worst = std::max(worst, c); }
  s.pubs = p0; s.subs = s0;
  return bad || worst > 24;
}
Emission* current() { auto& v = stack_of[self()]; return v.empty() ? nullptr : v.back(); }

void on_call(int world, int id, long value) {
  int naps;
  {
    NP; nontrivial();
    Node& s = wd[world]->n[id];
    log("callback of slot %d.%d value %ld", world, id, value);
    if (s.dead) fail("called-after-destruction", "a callback ran although its slot had been destroyed");
    Emission* e = current();
    if (!e || e->world != world) fail("called-without-emit", "a callback ran outside every emit() of its data type in this thread");
    if (wd[world]->has_value() && value != e->value) fail("data-wrong", "a callback got %ld instead of the emitted %ld", value, e->value);
    e->got[id]++; s.calls++;
    if (mode == 20 && s.disc_end < e->begin) fail("called-after-disconnect", "a slot was invoked by an emit() that began after its disconnect() had returned");
    if (mode == 19 && !e->relays) {
      bool common = false; for (auto& t : s.subs) if (e->pubs.count(t)) common = true;
      if (!common) fail("called-after-disconnect", "a slot was invoked after it had been disconnected");
    }
    s.running++;
    naps = mode == 20 ? (int)gen(4) : 0;
  }
  struct Fin { Node* s; ~Fin() { NP; s->running--; } } fin = {&wd[world]->n[id]};
  if (naps == 1) sched_yield();
  if (naps == 2) sleep_ns(700);
  if (naps == 3) { sched_yield(); sched_yield(); }
  if (mode != 18) run_script(world, id);
}
struct Boom {};
// runs an emit and judges it
void do_emit(WorldBase* x, const WorldBase::H& h, long v) {
  Emission* e; Node* before;
  {
    NP; e = new Emission; e->world = x->w; e->signal = h.node; e->value = v; e->begin = steps(); e->pubs = x->n[h.node].pubs; e->relays = false;
    expand(x, h.node, e->want);
    for (auto& t : e->pubs) for (int k = 0; k < x->nn; k++) if (!x->n[k].dead && x->n[k].signal && x->n[k].subs.count(t)) e->relays = true;
    before = new Node[MAXN]; for (int k = 0; k < MAXN; k++) before[k] = x->n[k];
    stack_of[self()].push_back(e);
    log("emit on signal %d.%d", x->w, h.node);
  }
  u64 ev0; { NP; ev0 = g_event; }
  int bad = 0;
  try { x->emit(h.p, (int)v); }
  catch (const Boom&) { Guard g; bad = 1; }
  catch (const std::bad_alloc&) { Guard g; bad = 2; }
  NP;
  stack_of[self()].pop_back();
  if (bad == 2 && my_faults() == 0) fail("alloc", "emit() reports exhausted memory without any");
  u64 end = steps();
  for (int k = 0; k < x->nn; k++) {
    Node& s = x->n[k];
    if (s.signal || (before[k].signal && !before[k].dead)) continue;
    int got = e->got.count(k) ? e->got[k] : 0, want = e->want.count(k) ? e->want[k] : 0;
    bool stable;
    if (mode == 20) {
      stable = before[k].conn_end <= e->begin && s.conn_end == before[k].conn_end && !before[k].dead && s.disc_begin > end && before[k].disc_begin == INF;
      want = 0; for (auto& t : before[k].subs) if (e->pubs.count(t)) want++;
      if (!stable) { want = (int)e->pubs.size(); if (got > want) fail("delivered-twice", "a slot was invoked %d times by one emit() on %d topics", got, want); continue; }
    } else stable = g_event == ev0 || (!e->relays && s.touched <= ev0 && x->n[e->signal].touched <= ev0);
    if (!stable) { if (!e->relays && got > (int)e->pubs.size()) fail("delivered-twice", "a slot was invoked %d times by one emit() on %d topics", got, (int)e->pubs.size()); continue; }
    if (bad) { if (got > want) fail("delivered-twice", "a slot was invoked %d times instead of at most %d", got, want); continue; }
    if (got < want) fail("not-delivered", "a connected slot was invoked %d times instead of %d by an emit()", got, want);
    if (got > want) fail(want ? "delivered-twice" : "delivered-unconnected", "a slot was invoked %d times instead of %d by an emit()", got, want);
  }
  if (bad == 1) probe("callback threw");
  if (e->relays) probe("relayed");
  delete e; delete[] before;
}

// ------------------------------------------------------------------------------------------ single operations with their model
int pick(WorldBase* x, int want /*0 slot 1 signal 2 any*/) {
  std::vector<int> c; for (size_t k = 0; k < x->hs.size(); k++) { bool s = x->n[x->hs[k].node].signal; if (want == 2 || s == (want == 1)) c.push_back(k); }
  return c.empty() ? -1 : c[gen(c.size())];
}
#define ALLOC(r, expr) do { r = 0; try { expr; } catch (const std::bad_alloc&) { Guard g_; r = 2; } } while (0)
void op_new(WorldBase* x, bool sig, int topic, int form) {
  int id; const char* t; { NP; if (x->nn >= MAXN) return; id = x->nn++; t = topic < 0 ? nullptr : TOPICS[topic]; Node& m = x->n[id]; m = Node(); m.signal = sig; R[x->w * MAXN + id] = Recv{x->w, id, 0};
    if (form == 1 && id >= 4) form = 0; 
    m.dead = false; m.touched = ++g_event; if (t) (sig ? m.pubs : m.subs).insert(t); log("new %s %d.%d topic %s", sig ? "signal" : "slot", x->w, id, t ? t : "-"); }
  void* p = nullptr; int r; ALLOC(r, p = sig ? x->mk_signal(t) : x->mk_slot(id, form, t));
  NP;
  Node& m = x->n[id];
  if (r) { m.dead = true; m.pubs.clear(); m.subs.clear(); probe("construction failed"); return; }
  m.handles = 1; x->hs.push_back({p, id});
}
void drop(WorldBase* x, int node) { Node& m = x->n[node]; if (--m.handles == 0) { m.touched = ++g_event; } }
void op_destroy(WorldBase* x, int k) {
  WorldBase::H h; bool s, last; { NP; h = x->hs[k]; x->hs.erase(x->hs.begin() + k); s = x->n[h.node].signal; drop(x, h.node); last = x->n[h.node].handles == 0; log("destroy handle of %d.%d%s", x->w, h.node, last ? " (last)" : ""); }
  x->destroy(h.p, s);
  NP; if (last) { Node& m = x->n[h.node]; if (m.running) fail("destroyed-while-running", "a slot's destructor returned while its callback ran"); m.dead = true; m.pubs.clear(); m.subs.clear(); m.touched = ++g_event; }
}
void op_connect(WorldBase* x, int k, int topic, bool relay) {
  WorldBase::H h; bool s; const char* t = TOPICS[topic]; bool fresh;
  { NP; h = x->hs[k]; s = x->n[h.node].signal; if (s && cyclic(x, h.node, relay ? nullptr : t, relay ? t : nullptr)) return;
    auto& set = s && !relay ? x->n[h.node].pubs : x->n[h.node].subs; fresh = !set.count(t); x->n[h.node].touched = ++g_event; log("connect %d.%d to '%s'%s", x->w, h.node, t, relay ? " as slot" : ""); }
  int r; if (relay) ALLOC(r, x->as_slot(h.p, t)); else ALLOC(r, x->connect(h.p, s, t));
  NP; auto& set = s && !relay ? x->n[h.node].pubs : x->n[h.node].subs;
  if (!r) set.insert(t); else { probe("connect failed"); if (!my_faults()) fail("alloc", "connect() reports exhausted memory without any"); }
  if (!fresh) probe("connected again");
  x->n[h.node].touched = ++g_event;
}
void op_disconnect(WorldBase* x, int k) {
  WorldBase::H h; bool s; { NP; h = x->hs[k]; s = x->n[h.node].signal; x->n[h.node].touched = ++g_event; log("disconnect %d.%d", x->w, h.node); }
  x->disconnect(h.p, s);
  NP; x->n[h.node].pubs.clear(); x->n[h.node].subs.clear(); x->n[h.node].touched = ++g_event;
}
void op_copy(WorldBase* x, int k) {
  WorldBase::H h; { NP; if (x->hs.size() > 20) return; h = x->hs[k]; x->n[h.node].handles++; log("copy handle of %d.%d", x->w, h.node); }
  void* p = nullptr; int r; ALLOC(r, p = x->copy(h));
  NP; if (r) { x->n[h.node].handles--; return; } x->hs.push_back({p, h.node});
}
void op_assign(WorldBase* x, int a, int b) {
  WorldBase::H ha, hb; bool last; { NP; ha = x->hs[a]; hb = x->hs[b]; x->n[hb.node].handles++; drop(x, ha.node); last = x->n[ha.node].handles == 0; x->hs[a].node = hb.node; log("assign %d.%d := %d.%d", x->w, ha.node, x->w, hb.node); probe("assigned"); }
  x->assign(ha, hb);
  NP; if (last) { Node& m = x->n[ha.node]; if (m.running) fail("destroyed-while-running", "a slot's destructor returned while its callback ran"); m.dead = true; m.pubs.clear(); m.subs.clear(); m.touched = ++g_event; }
}
long next_value;
void step(WorldBase* x, bool relays) {
  int op; { NP; op = gen_weighted({5, 8, 4, 4, 4, 24, relays ? 8u : 0u, 3, 26, 2}); }
  int a = -1, b = -1, t = 0, f = 0; bool sg = false;
  {
    NP;
    switch (op) {
      case 0: case 1: t = gen(5) == 0 ? -1 : gtopic(); f = gen(2); break;
      case 2: case 4: case 5: case 7: a = pick(x, 2); t = gtopic(); break;
      case 3: a = pick(x, 2); if (a >= 0) { sg = x->n[x->hs[a].node].signal; b = pick(x, sg); } break;
      case 6: case 8: a = pick(x, 1); t = gtopic(); break;
      case 9: a = pick(x, 0); break;
    }
    if (op >= 2 && a < 0) op = -1;
  }
  switch (op) {
    case 0: op_new(x, true, t, f); break;
    case 1: op_new(x, false, t, f); break;
    case 2: op_copy(x, a); break;
    case 3: op_assign(x, a, b); break;
    case 4: op_destroy(x, a); break;
    case 5: op_connect(x, a, t, false); break;
    case 6: op_connect(x, a, t, true); break;
    case 7: op_disconnect(x, a); break;
    case 8: { WorldBase::H h; long v; { NP; h = x->hs[a]; v = ++next_value; } do_emit(x, h, v); break; }
    case 9: { WorldBase::H h; std::set<std::string>* s; { NP; h = x->hs[a]; s = &x->n[h.node].subs; } bool ok = x->check_connections(h.p, *s); NP; if (!ok) fail("connections-wrong", "connections() is not the set of topics the slot is connected to"); break; }
  }
}
void setup(int m) {
  mode = m; g_event = 0; next_value = 0;
  R = new Recv[2 * MAXN]; stack_of = new std::vector<Emission*>[64];
  nw = 1 + (gen(3) == 2);
  switch (gen(3)) {
    case 0: wd[0] = new World<ecl::Void, 0>; wd[1] = new World<int, 1>; break;
    case 1: wd[0] = new World<int, 0>; wd[1] = new World<const Payload&, 1>; break;
    default: wd[0] = new World<const Payload&, 0>; wd[1] = new World<ecl::Void, 1>; break;
  }
}
void preamble() {
  int a, b; { NP; a = gen(3); b = gen(4); }
  for (int i = 0; i < a + b; i++) { int t, w, f; { NP; t = gtopic(); w = gen(nw); f = gen(2); } op_new(wd[w], i < a, t, f); }
}
void teardown(size_t base) {
  { NP; disable_faults(); log("-- tear down"); }
  for (int i = 0; i < nw; i++) {
    int k; for (;;) { { NP; k = wd[i]->hs.empty() ? -1 : (int)gen(wd[i]->hs.size()); } if (k < 0) break; op_destroy(wd[i], k); }
  }
  NP;
  if (live_allocs() != base) fail("leak", "%zu blocks are still allocated after the last signal and slot were destroyed", live_allocs() - base);
}

// ------------------------------------------------------------------------------------------ scripts in callbacks
enum { S_DISC_SELF, S_DISC_OTHER, S_DESTROY_OTHER, S_NEW, S_CONNECT_SELF, S_CONNECT_OTHER, S_THROW, S_NESTED, S_COPY, S_ASSIGN_OTHER, NSCRIPT };
int find_handle(WorldBase* x, int node) { for (size_t k = 0; k < x->hs.size(); k++) if (x->hs[k].node == node) return k; return -1; }
void run_script(int world, int id) {
  WorldBase* x = wd[world]; int sc = -1, k = -1, t = 0, other = -1;
  {
    NP; Node& s = x->n[id];
    if (s.script < 0 || s.calls < s.script_at || s.calls > s.script_at + 1 || stack_of[self()].size() > 3) return;
    sc = s.script; t = gtopic(); k = find_handle(x, id);
    std::vector<int> c; for (int j = 0; j < x->nn; j++) if (j != id && !x->n[j].dead && x->n[j].handles && !x->n[j].signal && !x->n[j].running) c.push_back(j);
    if (c.size()) other = c[gen(c.size())];
    probe("script in callback");
  }
  if (mode == 20) {
    // only shared slots have scripts: their handles live to the end
    WorldBase::H h; { NP; if (k < 0) return; h = x->hs[k]; }
    switch (sc) {
      case S_DISC_SELF:
        { NP; if (x->n[id].disc_begin == INF) x->n[id].disc_begin = steps(); log("disconnect slot %d in its callback", id); }
        x->disconnect(h.p, false);
        { NP; if (x->n[id].disc_end == INF) x->n[id].disc_end = steps(); }
        break;
      case S_THROW: throw Boom();
      case S_NESTED: { long v; int q; { NP; q = pick(x, 1); if (q >= 0) h = x->hs[q]; v = ++next_value; } if (q >= 0) do_emit(x, h, v); break; }
      case S_COPY: { void* p = nullptr; int r; ALLOC(r, p = x->copy(h)); if (!r) x->destroy(p, false); break; }
    }
    return;
  }
  switch (sc) {
    case S_DISC_SELF: if (k >= 0) op_disconnect(x, k); break;
    case S_DISC_OTHER: { int q = -1; { NP; if (other >= 0) q = find_handle(x, other); } if (q >= 0) op_disconnect(x, q); break; }
    case S_DESTROY_OTHER: for (;;) { int q = -1; { NP; if (other >= 0) q = find_handle(x, other); } if (q < 0) break; op_destroy(x, q); } break;
    case S_NEW: op_new(x, false, t, 0); break;
    case S_CONNECT_SELF: if (k >= 0) op_connect(x, k, t, false); break;
    case S_CONNECT_OTHER: { int q = -1; { NP; if (other >= 0) q = find_handle(x, other); } if (q >= 0) op_connect(x, q, t, false); break; }
    case S_THROW: throw Boom();
    case S_NESTED: { WorldBase::H h; long v; int q; { NP; q = pick(x, 1); if (q >= 0) h = x->hs[q]; v = ++next_value; } if (q >= 0) do_emit(x, h, v); break; }
    case S_COPY: if (k >= 0) op_copy(x, k); break;
    case S_ASSIGN_OTHER: { int q = -1; { NP; if (other >= 0 && k >= 0) q = find_handle(x, other); } if (q >= 0) op_assign(x, q, k); break; }
  }
}
}  // namespace

SCENARIO(sigslot_history, "C18") {
  size_t base; int n;
  {
    NP; setup(18); base = live_allocs(); n = 4 + gen(36);
    if (faulty()) { enable_fault("alloc", 1, 6 + gen(30)); set_fault_budget(1 + gen(4)); }
  }
  preamble();
  for (int i = 0; i < n; i++) { int w; { NP; w = gen(nw); } step(wd[w], true); }
  teardown(base);
}
SCENARIO(sigslot_callbacks, "C19") {
  size_t base; int n;
  {
    NP; setup(19); base = live_allocs(); n = 6 + gen(30);
    if (faulty() && gencoin(1, 2)) { enable_fault("alloc", 1, 10 + gen(40)); set_fault_budget(1 + gen(3)); }
  }
  preamble();
  for (int i = 0; i < n; i++) {
    int w; { NP; w = gen(nw); WorldBase* x = wd[w]; int a = pick(x, 0); if (a >= 0 && gen(3)) { Node& s = x->n[x->hs[a].node]; if (s.script < 0) { s.script = gen(NSCRIPT); s.script_at = s.calls + 1 + gen(2); } } }
    step(wd[w], gencoin(1, 4));
  }
  for (int w = 0; w < nw; w++) for (int r = 0; r < 2; r++) { WorldBase::H h; int q; { NP; disable_faults(); q = pick(wd[w], 1); if (q >= 0) h = wd[w]->hs[q]; } if (q >= 0) do_emit(wd[w], h, 1000 + r); }
  teardown(base);
}

namespace {
// what printStatistics() writes, kept away from the simulated console
struct Told : std::streambuf {
  std::string text; std::streambuf* was;
  Told() : was(std::cout.rdbuf(this)) { std::cout.clear(); }
  ~Told() { std::cout.rdbuf(was); }
  int overflow(int c) override { NP; if (c != EOF) text += (char)c; return 0; }
  std::streamsize xsputn(const char* p, std::streamsize k) override { NP; text.append(p, k); return k; }
  // topic -> subscribers, publishers
  static long number(const std::string& l) { size_t i = l.find(':'); return i == std::string::npos ? -1 : atol(l.c_str() + i + 1); }
  std::map<std::string, std::pair<long, long>> parsed() {
    std::map<std::string, std::pair<long, long>> m; std::istringstream in(text); std::string l; std::pair<long, long>* cur = nullptr;
    while (std::getline(in, l)) {
      size_t i = l.find("Name: ");
      if (i != std::string::npos) { std::string t = l.substr(i + 6); if (m.count(t)) fail("statistics", "topic '%s' is listed twice", t.c_str()); cur = &(m[t] = std::make_pair(-1l, -1l)); }
      else if (cur && l.find("Subscribers") != std::string::npos) cur->first = number(l);
      else if (cur && l.find("Publishers") != std::string::npos) cur->second = number(l);
    }
    return m;
  }
};
}
// ------------------------------------------------------------------------------------------ C20
namespace {
void t_emit(WorldBase* x, WorldBase::H h) { long v; { NP; v = ++next_value; } do_emit(x, h, v); }
// every thread holds a handle of its own to the same signals and slots: whichever lets go last destroys them
void hot_begin(WorldBase* x, int node) {
  Node& m = x->n[node];
  m.handles--; m.dropping++;
  if (!m.handles && m.disc_begin == INF) m.disc_begin = steps();
}
void hot_end(WorldBase* x, int node) {
  Node& m = x->n[node];
  m.dropping--;
  if (m.handles || m.dropping) return;
  if (m.running) fail("destroyed-while-running", "the last handle of a slot was released while its callback ran");
  m.dead = true; if (m.disc_end == INF) m.disc_end = steps();
  probe("last handle released");
}
void hot_drop(WorldBase* x, std::vector<WorldBase::H>* hot, int k) {
  WorldBase::H h; bool s; { NP; h = (*hot)[k]; hot->erase(hot->begin() + k); s = x->n[h.node].signal; hot_begin(x, h.node); log("release own handle of %d", h.node); }
  x->destroy(h.p, s);
  NP; hot_end(x, h.node);
}
void worker(WorldBase* x, const std::vector<WorldBase::H>* shared_sig, const std::vector<WorldBase::H>* shared_slot, std::vector<WorldBase::H>* hot) {
  int n; { NP; n = 2 + gen(6); }
  std::vector<WorldBase::H>* mine; { NP; mine = new std::vector<WorldBase::H>; }
  for (int i = 0; i < n; i++) {
    int op, a = -1; { NP; op = gen_weighted({20, 12, 8, 8, 10, 4, 6, 8, 6, 6, 1}); if (mine->size()) a = gen(mine->size()); }
    switch (op) {
      case 10: {
        x->statistics();
        break; }
      case 0: { WorldBase::H h; { NP; h = (*shared_sig)[gen(shared_sig->size())]; } t_emit(x, h); break; }
      case 1: {  // new transient slot
        int id; int topic; const char* t; { NP; if (x->nn >= MAXN) break; id = x->nn++; topic = (int)gen(4) - 1; t = topic < 0 ? nullptr : TOPICS[topic]; x->n[id] = Node(); x->n[id].dead = false; x->n[id].handles = 1; x->n[id].owned = true; R[x->w * MAXN + id] = Recv{x->w, id, 0}; if (t) x->n[id].subs.insert(t); log("new slot %d topic %s", id, t ? t : "-"); }
        void* p = nullptr; int r; ALLOC(r, p = x->mk_slot(id, 0, t));
        NP; if (r) { x->n[id].dead = true; x->n[id].subs.clear(); if (x->n[id].running) fail("destroyed-while-running", "a slot whose construction failed still runs a callback"); probe("construction failed"); break; }
        x->n[id].conn_end = steps(); mine->push_back({p, id}); break; }
      case 2: if (a >= 0) {
        WorldBase::H h; const char* t; { NP; h = (*mine)[a]; if (x->n[h.node].disc_begin != INF) break; t = TOPICS[gen(3)]; x->n[h.node].conn_end = INF; log("connect slot %d to '%s'", h.node, t); }
        int r; ALLOC(r, x->connect(h.p, false, t));
        NP; if (!r) x->n[h.node].subs.insert(t); x->n[h.node].conn_end = steps(); } break;
      case 3: if (a >= 0) {
        WorldBase::H h; { NP; h = (*mine)[a]; if (x->n[h.node].disc_begin == INF) x->n[h.node].disc_begin = steps(); log("disconnect slot %d", h.node); }
        x->disconnect(h.p, false);
        NP; if (x->n[h.node].disc_end == INF) x->n[h.node].disc_end = steps(); } break;
      case 4: if (a >= 0) {
        WorldBase::H h; { NP; h = (*mine)[a]; mine->erase(mine->begin() + a); if (x->n[h.node].disc_begin == INF) x->n[h.node].disc_begin = steps(); log("destroy slot %d", h.node); if (x->n[h.node].running) probe("destroyed during its callback"); }
        x->destroy(h.p, false);
        NP; Node& m = x->n[h.node]; if (m.running) fail("destroyed-while-running", "a slot's destructor returned while its callback ran"); m.dead = true; m.disc_end = steps(); } break;
      case 5: {  // copy a shared handle, use it, drop it
        WorldBase::H h; bool s; { NP; s = gen(2); h = s ? (*shared_sig)[gen(shared_sig->size())] : (*shared_slot)[gen(shared_slot->size())]; log("copy a shared handle"); }
        void* p = nullptr; int r; ALLOC(r, p = x->copy(h)); if (r) break;
        if (s) { WorldBase::H c; { NP; c = h; c.p = p; } t_emit(x, c); }
        x->destroy(p, s); break; }
      case 6: {  // a signal of its own
        void* p = nullptr; int id; const char* t; { NP; if (x->nn >= MAXN) break; id = x->nn++; t = TOPICS[gen(3)]; x->n[id] = Node(); x->n[id].signal = true; x->n[id].dead = false; log("new signal %d on '%s'", id, t); }
        int r; ALLOC(r, p = x->mk_signal(t)); if (r) break;
        { NP; x->n[id].pubs.insert(t); }
        t_emit(x, WorldBase::H{p, id});
        { NP; x->n[id].dead = true; }
        x->destroy(p, true); break; }
      case 7: { int k; { NP; k = hot->empty() ? -1 : (int)gen(hot->size()); } if (k >= 0) hot_drop(x, hot, k); break; }
      case 8: {  // one own handle is assigned to another, or to itself
        WorldBase::H ha, hb; bool ok = false, same = true;
        { NP; if (!hot->empty()) { int k = gen(hot->size()), j = gen(hot->size()); if (x->n[(*hot)[j].node].signal != x->n[(*hot)[k].node].signal) j = k;
            ha = (*hot)[k]; hb = (*hot)[j]; ok = true; same = ha.node == hb.node; (*hot)[k].node = hb.node;
            if (!same) { x->n[hb.node].handles++; hot_begin(x, ha.node); } log("assign own handle of %d := %d", ha.node, hb.node); probe(k == j ? "assigned to itself" : "assigned"); } }
        if (ok) { x->assign(ha, hb); NP; if (!same) hot_end(x, ha.node); }
        break; }
      case 9: {  // emit on, or copy, an own handle
        WorldBase::H h; bool ok = false, s = false; { NP; if (!hot->empty()) { h = (*hot)[gen(hot->size())]; ok = true; s = x->n[h.node].signal; } }
        if (!ok) break;
        if (s && gencoin(1, 2)) { t_emit(x, h); break; }
        void* p = nullptr; int r; ALLOC(r, p = x->copy(h)); if (r) break;
        x->destroy(p, s); break; }
    }
  }
  for (;;) { int k; { NP; k = hot->empty() ? -1 : (int)gen(hot->size()); } if (k < 0) break; hot_drop(x, hot, k); }
  for (;;) {
    WorldBase::H h; { NP; if (mine->empty()) break; h = mine->back(); mine->pop_back(); if (x->n[h.node].disc_begin == INF) x->n[h.node].disc_begin = steps(); log("destroy slot %d", h.node); if (x->n[h.node].running) probe("destroyed during its callback"); }
    x->destroy(h.p, false);
    NP; Node& m = x->n[h.node]; if (m.running) fail("destroyed-while-running", "a slot's destructor returned while its callback ran"); m.dead = true; m.disc_end = steps();
  }
}
}
SCENARIO(sigslot_threads, "C20") {
  size_t base; int nthr; WorldBase* x;
  std::vector<WorldBase::H>*sg, *sl; std::vector<int>* ids;
  { NP; setup(20); x = wd[0]; nw = 1; base = live_allocs(); nthr = 2 + gen(3); sg = new std::vector<WorldBase::H>; sl = new std::vector<WorldBase::H>; ids = new std::vector<int>; }
  int a, b; { NP; a = 1 + gen(2); b = 1 + gen(3); }
  for (int i = 0; i < a + b; i++) {
    op_new(x, i < a, i < a ? (int)gen(3) : (int)gen(3), 0);
    if (gencoin(1, 3)) { int t; { NP; t = gen(3); } op_connect(x, i, t, false); }
    NP; x->n[i].conn_end = 0; (i < a ? sg : sl)->push_back(x->hs[i]);
    if (i >= a && gencoin(1, 3)) { static const int sc[] = {S_DISC_SELF, S_THROW, S_NESTED, S_COPY}; x->n[i].script = sc[gen(4)]; x->n[i].script_at = 1 + gen(4); }
  }
  int nh; { NP; nh = gen(4); }
  std::vector<std::vector<WorldBase::H>*>* hot; { NP; hot = new std::vector<std::vector<WorldBase::H>*>; for (int i = 0; i < nthr; i++) hot->push_back(new std::vector<WorldBase::H>); }
  for (int j = 0; j < nh; j++) {
    int id; bool sig; const char* t;
    { NP; id = x->nn++; sig = gen(3) == 0; t = TOPICS[gen(3)]; Node& m = x->n[id]; m = Node(); m.signal = sig; m.dead = false; m.handles = nthr; m.conn_end = 0; (sig ? m.pubs : m.subs).insert(t); R[x->w * MAXN + id] = Recv{x->w, id, 0}; log("new shared %s %d on '%s'", sig ? "signal" : "slot", id, t); }
    void* p = sig ? x->mk_signal(t) : x->mk_slot(id, 0, t);
    for (int i = 0; i < nthr; i++) { void* q = i ? x->copy(WorldBase::H{p, id}) : p; NP; (*hot)[i]->push_back({q, id}); }
  }
  Told* told; { NP; told = new Told; }
  for (int i = 0; i < nthr; i++) { std::vector<WorldBase::H>* ho = (*hot)[i]; int id = spawn("user", [=] { worker(x, sg, sl, ho); }); NP; ids->push_back(id); }
  { NP; if (faulty()) { enable_fault("spurious_wakeup", 1, 2); } if (faulty() && gencoin(1, 2)) { enable_fault("alloc", 1, 10 + gen(40)); set_fault_budget(1 + gen(3)); } }
  for (int i = 0; i < nthr; i++) join_fiber((*ids)[i]);
  { NP; delete told; }
  { NP; for (int i = 0; i < x->nn; i++) x->n[i].conn_end = 0; disable_faults(); }
  for (int i = 0; i < a; i++) t_emit(x, (*sg)[i]);
  teardown(base);
}

// ------------------------------------------------------------------------------------------ sigslots used directly
namespace {
std::vector<int>* dcalls;                  // data received by each sigslot, -1: none
std::vector<int>* dcount;
struct DRecv { int id; void v() { note(-1); } void i(int x) { note(x); } void note(int x) { NP; (*dcalls)[id] = x; (*dcount)[id]++; } };
template <class D> struct DOps;
template <> struct DOps<ecl::Void> { static void* make(DRecv& r) { return new ecl::SigSlot<>(&DRecv::v, r); } static void emit(ecl::SigSlot<>* s, int) { s->emit(); } static bool value() { return false; }
  static void topics(ecl::SigSlot<>*, std::set<std::string>&, bool& known) { known = false; } };
template <> struct DOps<int> { static void* make(DRecv& r) { return new ecl::SigSlot<int>(&DRecv::i, r); } static void emit(ecl::SigSlot<int>* s, int v) { s->emit(v); } static bool value() { return true; }
  static void topics(ecl::SigSlot<int>* s, std::set<std::string>& o, bool& known) { known = true; o = s->subscribedTopics(); } };
// a sigslot both publishes and listens; its topics can be left one by one
template <class D> void direct() {
  typedef ecl::SigSlot<D> SS;
  struct N { SS* s = nullptr; std::set<std::string> pub, sub; };
  static const char* T[] = {"t/a", "t/b", "", "t"};
  std::vector<N> n; std::vector<DRecv>* rs; int steps; size_t base;
  { NP; int k = 2 + gen(4); n.resize(k); rs = new std::vector<DRecv>(k); for (int i = 0; i < k; i++) (*rs)[i].id = i; dcalls = new std::vector<int>(k); dcount = new std::vector<int>(k); base = live_allocs(); steps = 6 + gen(40);
    if (faulty()) { enable_fault("alloc", 1, 6 + gen(30)); set_fault_budget(1 + gen(4)); } }
  for (int st = 0; st < steps; st++) {
    int a, op, t, h0; std::string topic;
    { NP; a = gen(n.size()); op = gen_weighted({5, 5, 4, 1, 7, 1, 1}); t = gen(4); topic = T[t]; h0 = fault_fired("alloc"); log("sigslot %d op %d %s", a, op, T[t]); for (auto& x : *dcount) x = 0; }
    int r = 0; ecl::ErrorFlag fl;
    if (!n[a].s) { TRY(r, fl, n[a].s = (SS*)DOps<D>::make((*rs)[a])); if (r) n[a].s = nullptr; else if (op == 5) continue; }
    SS* s = n[a].s;
    if (!r) switch (op) {
      case 0: TRY(r, fl, s->connectSignal(topic)); if (!r) { NP; n[a].pub.insert(topic); } break;
      case 1: TRY(r, fl, s->connectSlot(topic)); if (!r) { NP; n[a].sub.insert(topic); } break;
      case 2: TRY(r, fl, s->disconnect(topic)); { NP; n[a].pub.erase(topic); n[a].sub.erase(topic); } break;
      case 3: TRY(r, fl, s->disconnect()); { NP; n[a].pub.clear(); n[a].sub.clear(); } break;
      case 4: {
        TRY(r, fl, DOps<D>::emit(s, st));
        NP;
        for (size_t j = 0; j < n.size(); j++) {
          int want = 0;
          for (auto& x : n[a].pub) if (n[j].s) want += n[j].sub.count(x);
          if (r ? (*dcount)[j] > want : (*dcount)[j] != want) fail("deliveries", "sigslot %zu was invoked %d times instead of %d", j, (*dcount)[j], want);
          if (want && (*dcount)[j] && (*dcalls)[j] != (DOps<D>::value() ? st : -1)) fail("data-wrong", "sigslot %zu was handed other data than was emitted", j);
          if (want && !r) nontrivial();
        }
        break;
      }
      case 5: delete s; { NP; n[a] = N(); } break;
      case 6: {
        Told* told; { NP; told = new Told; }
        TRY(r, fl, ecl::SigSlotsManager<D>::printStatistics());
        NP;
        std::map<std::string, std::pair<long, long>> want, got = told->parsed();
        for (auto& x : n) { for (auto& q : x.pub) want[q].second++; for (auto& q : x.sub) want[q].first++; }
        if (!r && got != want) fail("statistics", "the statistics of %zu topics were printed as:\n%s", want.size(), told->text.c_str());
        delete told; probe("statistics printed");
        break;
      }
    }
    NP;
    if (r == 1) fail("op-threw", "operation %d threw flag %d", op, (int)fl);
    if (r == 2 && fault_fired("alloc") == h0) fail("spurious-failure", "operation %d ran out of memory although none was refused", op);
    if ((op == 2 || op == 3 || op == 5) && r && n[a].s) fail("op-threw", "leaving a topic failed");
    std::set<std::string> have; bool known = false;
    if (n[a].s) DOps<D>::topics(n[a].s, have, known);
    if (known && have != n[a].sub) fail("connections", "sigslot %d listens to %zu topics instead of %zu", a, have.size(), n[a].sub.size());
  }
  { NP; disable_faults(); }
  for (auto& x : n) { delete x.s; }
  NP;
  if (live_allocs() != base) { std::string s; dump_live_allocs(0, s); fail("leak", "memory is still allocated after the last sigslot is gone: %s", s.c_str()); }
}
}  // namespace
SCENARIO(sigslot_direct, "C18") { bool v; { NP; v = gencoin(1, 2); } if (v) direct<ecl::Void>(); else direct<int>(); }
