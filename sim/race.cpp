// Data races: two accesses of the same bytes by different simulated threads, at least one a write and
// at least one not atomic, which nothing orders - vector clocks over the synchronisation the code under
// test performs (threads, mutexes, semaphores, atomics, static initialisation).  Such an execution is a
// violation even when this interleaving happened to give the right result.  Compiled WITHOUT instrumentation.
#include "fiber.hpp"
#include "runner.hpp"
#include <cstring>
#include <unordered_map>
#include <sys/mman.h>
#include <stdio.h>

extern "C" { extern char __data_start, _end; }
namespace sim {
typedef std::vector<uint32_t> VC;
struct Cell { uint32_t clk; uint16_t tid; unsigned char mask, kind; u64 pc; };   // kind 1 write, 2 atomic, 4 release of memory
static const int NCELL = 4;
struct Granule { Cell c[NCELL]; };
static Granule* const G = (Granule*)0x200000000000ull;
static Granule* const GS = (Granule*)0x220000000000ull;
static Granule* const GD = (Granule*)0x240000000000ull;
static const u64 STACKS = 201ull * (384 * 1024 + 65536);
static std::vector<VC>* g_vc;
static std::unordered_map<const void*, VC>* g_sync;
static bool g_on = false;
static std::vector<VC>& vcs() { return *g_vc; }

void race_init() {
  size_t n = 8;
  struct { void* p; u64 bytes; } m[3] = {{G, ARENA_SIZE / n * sizeof(Granule)}, {GS, STACKS / n * sizeof(Granule)}, {GD, ((u64)(&_end - &__data_start) / n + 2) * sizeof(Granule)}};
  for (auto& x : m)
    if (mmap(x.p, x.bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != x.p) { perror("race"); abort(); }
  g_vc = new std::vector<VC>;
  g_sync = new std::unordered_map<const void*, VC>;
  g_on = true;
}
static VC& mine(int t) {
  auto& v = vcs();
  if ((size_t)t >= v.size()) v.resize(t + 1);
  VC& c = v[t];
  if ((size_t)t >= c.size()) c.resize(t + 1);
  if (!c[t]) c[t] = 1;
  return c;
}
static void merge(VC& a, const VC& b) {
  if (a.size() < b.size()) a.resize(b.size());
  for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i];
}
void race_fork(int child) {       // everything done so far comes before the new thread
  if (!g_on || !g_cur) return;
  VC p = mine(g_cur->id);
  merge(mine(child), p);
  mine(g_cur->id)[g_cur->id]++;
}
void race_join(int child) { if (!g_on || !g_cur) return; VC c = mine(child); merge(mine(g_cur->id), c); }
void race_sync_all() {            // scenario level synchronisation
  if (!g_on || !g_cur) return;
  for (size_t i = 0; i < vcs().size(); i++) { VC c = mine((int)i); merge(mine(g_cur->id), c); mine((int)i)[i]++; }
}
void race_acquire(const void* obj) {
  if (!g_on || !g_cur) return;
  auto i = g_sync->find(obj);
  if (i != g_sync->end()) merge(mine(g_cur->id), i->second);
}
void race_release(const void* obj) {
  if (!g_on || !g_cur) return;
  VC& m = mine(g_cur->id);
  merge((*g_sync)[obj], m);
  m[g_cur->id]++;
}
static const char* kind_name(int k) { return k & 4 ? "release" : k & 2 ? (k & 1 ? "atomic write" : "atomic read") : k & 1 ? "write" : "read"; }
static bool g_allowed = false;
static void race_report(const char* k, const char* k2, int t2, const void* addr, u64 pc, u64 pc2) {
  if (g_allowed) return;
  fail("data-race", "%s by %s and %s by %s of the same %s happen at once: nothing orders them [code at %llx and %llx]", k, g_cur->name.c_str(), k2, fname(t2),
       in_arena(addr) ? "heap memory" : "memory", (unsigned long long)pc, (unsigned long long)pc2);
}
void allow_races() { g_allowed = true; }
static void one(Granule* g, unsigned mask, int kind, const void* addr, u64 pc) {
  int t = g_cur->id;
  VC& m = mine(t);
  Cell* dst = nullptr;
  for (int i = 0; i < NCELL; i++) {
    Cell& c = g->c[i];
    if (!c.mask) { if (!dst) dst = &c; continue; }
    if (c.tid == t) {
      if (c.mask == mask && (c.kind & 3) == (kind & 3)) dst = &c;
      else if ((c.mask & ~mask) == 0 && (kind & 1) && !(kind & 2)) dst = &c;     // covered by this write
      continue;
    }
    if (!(c.mask & mask) || !((c.kind | kind) & 1) || (c.kind & kind & 2)) continue;
    uint32_t seen = c.tid < m.size() ? m[c.tid] : 0;
    if (c.clk <= seen) continue;
    race_report(kind_name(kind), kind_name(c.kind), c.tid, addr, pc, c.pc);
    return;
  }
  if (!dst) {                      // evict something ordered before us, else anything
    for (int i = 0; i < NCELL && !dst; i++) if (g->c[i].tid == t || g->c[i].clk <= (g->c[i].tid < m.size() ? m[g->c[i].tid] : 0)) dst = &g->c[i];
    if (!dst) dst = &g->c[m[t] % NCELL];
  }
  dst->clk = m[t]; dst->tid = (uint16_t)t; dst->mask = (unsigned char)mask; dst->kind = (unsigned char)kind; dst->pc = pc;
}
void race_access(const void* p, size_t n, int kind, u64 pc) {
  if (!g_on) return;
  Guard guard;
  if (p == &g_live) return;
  u64 a = (u64)p;
  Granule* base; u64 off;
  if (a - ARENA_BASE < ARENA_SIZE) { base = G; off = a - ARENA_BASE; }
  else if (a - STACK_BASE < STACKS) { base = GS; off = a - STACK_BASE; }
  else if (a - (u64)&__data_start < (u64)(&_end - &__data_start)) { base = GD; off = a - ((u64)&__data_start & ~7ull); }
  else return;
  while (n) {
    unsigned lo = off & 7, k = 8 - lo < n ? 8 - lo : (unsigned)n;
    one(&base[off >> 3], ((1u << k) - 1) << lo, kind, p, pc);
    off += k; n -= k;
  }
}
}  // namespace sim
