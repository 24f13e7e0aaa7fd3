// C10 Semaphore, C11 SharedMemory: several simulated processes on one kernel
#include <unistd.h>
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/ipc/semaphore.hpp>
#include <ecl/ipc/shared_memory.hpp>
#include <ecl/time/duration.hpp>
#include <time.h>
#include <sched.h>
#include <string.h>

using namespace sim;

// ------------------------------------------------------------------------------------------ C10
namespace {
struct SModel {
  int holder = -1;          // fiber inside the critical section
  int involved = 0;         // fibers holding or inside an operation on the semaphore
  u64 begun = 0;            // operations begun
  long value = 0, expected = 0;
  bool jumps = false, exclusive = true;
  std::map<int, int> inop;  // fiber -> 1 in an operation, 2 holding
};
SModel* SM;
const char* const SEM = "ecl_lock";

ecl::Semaphore* sem_make(const char* name, bool may_fail) {
  ecl::Semaphore* s = nullptr;
  int r; ecl::ErrorFlag fl; int f0; size_t open0; { NP; f0 = my_faults(); open0 = vk_open_sems(); log("construct"); }
  TRY(r, fl, s = new ecl::Semaphore(name));
  NP;
  bool failed = my_faults() > f0;
  if (failed && !may_fail) fail("sim-limit", "unexpected fault");
  if (failed) {
    if (r != 1) fail("open-failure-unreported", "the semaphore could not be opened but Semaphore() did not throw");
    (void)open0;
    return nullptr;
  }
  if (r) fail("spurious-open-failure", "Semaphore() threw (flag %d) although the system refused nothing", (int)fl);
  return s;
}
void sem_destroy(ecl::Semaphore* s) { { NP; log("destroy"); } delete s; }

// one operation; true if obtained
bool sem_obtain(ecl::Semaphore* s, int op, long dn) {
  bool got = false; int r = 0; ecl::ErrorFlag fl = ecl::NoError;
  u64 begun0, t0, s0; bool free0; int f0;
  {
    NP; free0 = SM->involved == 0; begun0 = SM->begun++; SM->involved++; if (SM->involved > 1) nontrivial();
    t0 = now(); s0 = steps(); f0 = my_faults(); SM->inop[self()] = 1;
  }
  if (op == 0) { TRY(r, fl, s->lock()); got = true; }
  else if (op == 1) TRY(r, fl, got = s->trylock());
  else {
    ecl::Duration d(dn / 1000000000L, dn % 1000000000L);
    TRY(r, fl, got = s->trylock(d));
    NP; if (d.sec() != dn / 1000000000L || d.nsec() != dn % 1000000000L) fail("duration-modified", "trylock(duration) modified its argument");
  }
  NP;
  bool intr = my_faults() > f0;
  u64 el = now() - t0, ds = steps() - s0;
  log("op %d d=%ld -> %d (r=%d) after %llu ns", op, dn, got, r, (unsigned long long)el);
  if (r) {
    if (op < 2 || !intr || r != 1 || fl != ecl::InterruptedError) fail("op-threw", "%s threw (flag %d)%s", op == 0 ? "lock()" : op == 1 ? "trylock()" : "trylock(duration)", (int)fl, intr ? " after a signal" : "");
    got = false;
    probe("interrupted.reported");
  }
  bool undisturbed = free0 && SM->begun == begun0 + 1;
  if (!got) {
    SM->involved--; SM->inop[self()] = 0;
    if (undisturbed && !intr && SM->exclusive) fail("trylock-false-when-free", "%s failed although the semaphore was free for the whole call", op == 1 ? "trylock()" : "trylock(duration)");
    if (op == 2 && !SM->jumps && !intr && (i64)el < dn) fail("timed-trylock-early", "trylock(%ld ns) gave up after %llu ns", dn, (unsigned long long)el);
    probe(op == 1 ? "trylock.busy" : "timedlock.timeout");
  } else if (SM->exclusive) {
    if (SM->holder != -1) fail("exclusion", "%s obtained the semaphore while %s still holds it", fname(self()), fname(SM->holder));
    SM->holder = self(); SM->inop[self()] = 2;
  }
  if (op == 1 && el > ds * g_strategy.step_ns + 1000) fail("trylock-blocked", "trylock() blocked for %llu ns", (unsigned long long)el);
  if (op == 2 && !SM->jumps && el > (u64)dn + ds * g_strategy.step_ns + 60000) fail("timed-trylock-late", "trylock(%ld ns) returned after %llu ns", dn, (unsigned long long)el);
  return got;
}
void sem_section(ecl::Semaphore* s) {
  long v = SM->value;
  int hold; { NP; hold = gen(3); }
  if (hold) { timespec ts = {0, hold == 1 ? 300 : 30000}; nanosleep(&ts, 0); } else sched_yield();
  SM->value = v + 1;
  { NP; SM->expected++; SM->holder = -1; SM->inop[self()] = 1; }
  int r; ecl::ErrorFlag fl;
  TRY(r, fl, s->unlock());
  NP; if (r) fail("unlock-threw", "unlock() threw (flag %d)", (int)fl);
  SM->involved--; SM->inop[self()] = 0;
}
long pick_wait() { NP; switch (gen(5)) { case 4: return (long)to_boundary() + (long)gen(2) * 1000000000l; case 0: return (long)(gen(3) * 1000000000ull + gen(1000000000)); case 1: return (long)(gen(5000) * 10); case 2: return (long)(gen(2) * 999999999ull); default: return (long)gen(200) * 1000; } }
void sem_user(ecl::Semaphore* s, int n) {
  for (int k = 0; k < n; k++) {
    int op; { NP; op = gen(3); }
    if (sem_obtain(s, op, pick_wait())) sem_section(s);
  }
}
}
SCENARIO(semaphore, "C10") {
  int nproc, mode;
  {
    NP; SM = new SModel; nproc = 1 + gen(3); mode = gen(4);   // 0 creator first, 1 race to create, 2 handles shared by threads, 3 come and go
    if (faulty()) {
      if (gencoin(1, 2)) enable_fault("sem.eintr", 1, 3);
      if (!g_release && gencoin(1, 3)) { enable_fault("sem_open.emfile", 1, 5); enable_fault("sem_open.enomem", 1, 5); enable_fault("sem_open.eacces", 1, 5); }
      set_fault_budget(1 + gen(5));
      SM->jumps = gencoin(1, 3);
      for (int k = 0; SM->jumps && k < 3; k++) { i64 d = (i64)(1 + gen(5)) * (gencoin(1, 2) ? 1000000000ll : 1000ll); if (gencoin(1, 2)) d = -d; after(gen(4000) * 10, [d] { jump_realtime(d); note_fault("clock.jump"); }); }
    }
    SM->exclusive = mode != 3;
  }
  ecl::Semaphore* owner = nullptr;
  if (mode == 0 || mode == 2) {
    owner = sem_make(SEM, true);
    if (!owner) { NP; if (!vk_sem_names().empty()) fail("name-leak", "a semaphore name exists after a failed construction"); finish_run(); }
  }
  std::vector<int>* ids; std::vector<int>* procs; int* arrived; int* made; int* want;
  { NP; ids = new std::vector<int>; procs = new std::vector<int>; arrived = new int(0); made = new int(0); want = new int(1000); }
  for (int p = 0; p < nproc; p++) {
    int pr, nt; { NP; pr = gen(3) == 0 ? 0 : new_proc("P"); procs->push_back(pr); nt = 1 + gen(2); }
    for (int t = 0; t < nt; t++) {
      int id; NP;
      id = spawn("user", [=] {
        int n; bool shared; { NP; n = gen(4); shared = mode == 2 && proc() == 0; }
        if (mode == 0 || mode == 2) {
          for (int k = 0; k <= n; k++) {
            ecl::Semaphore* s = shared ? owner : sem_make(SEM, true);
            if (!s) continue;
            int u; { NP; u = gen(4); }
            sem_user(s, u);
            if (!shared) sem_destroy(s);
          }
        } else if (mode == 1) {
          ecl::Semaphore* s = sem_make(SEM, true);
          { NP; (*arrived)++; if (s) (*made)++; touch(); }
          { NP; wait("start", [=] { return *arrived >= *want; }); }
          if (s) sem_user(s, n + 1);
          { NP; (*arrived)++; touch(); wait("end", [=] { return *arrived >= 2 * *want; }); }
          if (s) sem_destroy(s);
        } else {
          for (int k = 0; k <= n + 1; k++) {
            ecl::Semaphore* s = sem_make(SEM, true);
            if (!s) continue;
            if (s->trylock()) { sched_yield(); s->unlock(); }
            sem_destroy(s);
          }
        }
      }, pr);
      ids->push_back(id);
    }
  }
  { NP; *want = (int)ids->size(); touch(); }
  // crash of a user process at some point
  bool crash; int victim = -1; { NP; crash = faulty() && mode == 0 && gencoin(1, 3); if (crash) { for (int p : *procs) if (p != 0) victim = p; crash = victim >= 0; } }
  if (crash) {
    u64 w; { NP; w = gen(3000) * 20; }
    sleep_ns(w);
    NP;
    bool inside = false;
    for (size_t i = 0; i < ids->size(); i++) { Fiber* f = fiber((*ids)[i]); if (f->proc == victim && SM->inop[f->id]) inside = true; }
    note_fault("process.crash");
    kill_proc(victim);
    if (inside) { probe("crash.inside"); finish_run(); }   // it may have taken the lock with it
    nontrivial();
  }
  for (size_t k = 0; k < ids->size(); k++) join_fiber((*ids)[k]);
  {
    NP; disable_faults();
    log("users done");
    if (SM->exclusive && SM->value != SM->expected) fail("lost-update", "%ld protected updates made but %ld survived", SM->expected, SM->value);
    if ((mode == 0 || mode == 2) && vk_sem_names().empty()) fail("name-lost", "the semaphore's name is gone although its creator still uses it: new users would not share the lock");
    if (mode == 1 || mode == 3) { if (!vk_sem_names().empty() && *made >= 0 && mode == 1 && *made > 0) fail("name-leak", "the semaphore name remains after every handle was destroyed"); if (mode == 3 && !vk_sem_names().empty()) fail("name-leak", "the semaphore name remains after every handle was destroyed"); }
    SM->involved = 0; SM->jumps = false;
  }
  if (owner) {
    // extra unlocks never open it for two
    int extra; { NP; extra = gen(3); }
    for (int k = 0; k < extra; k++) owner->unlock();
    ecl::Semaphore* other = sem_make(SEM, false);
    { NP; SM->exclusive = true; }
    if (!sem_obtain(owner, 1, 0)) { NP; fail("not-released", "trylock() fails although every holder has unlocked"); }
    bool second = other->trylock();
    { NP; if (second) fail("exclusion", "two handles hold the semaphore after redundant unlocks"); }
    { NP; int k = gen(2); if (k) probe("extra.unlock"); }
    sem_section(owner);
    if (!sem_obtain(other, 0, 0)) { NP; fail("not-released", "lock() failed"); }
    sem_section(other);
    sem_destroy(other);
    sem_destroy(owner);
  }
  {
    NP;
    for (int p = 0; p < proc_count(); p++) if (proc_alive(p) && vk_open_sems(p)) fail("handle-leak", "%d semaphores stay open after every handle was destroyed", vk_open_sems(p));
    if (!vk_sem_names().empty()) fail("name-leak", "the semaphore name remains after every handle was destroyed");
  }
  // and the name is usable afresh
  ecl::Semaphore* fresh = sem_make(SEM, false);
  bool ok = fresh->trylock();
  { NP; if (!ok) fail("not-fresh", "a newly created semaphore is not free"); }
  fresh->unlock();
  sem_destroy(fresh);
}

// ------------------------------------------------------------------------------------------ C11
namespace {
const int SLOTS = 12;
struct Storage {
  long magic;
  long slot[SLOTS];
  long tail[600];     // more than one page
  Storage() : magic(0x51AB) { for (int i = 0; i < SLOTS; i++) slot[i] = 1000 + i; for (int i = 0; i < 600; i++) tail[i] = i * 3; }
};
typedef ecl::SharedMemory<Storage> Shm;
const char* const SHM = "ecl_shared";
struct Seg { std::vector<long> hist[SLOTS]; size_t done[SLOTS]; size_t begun[SLOTS]; bool tainted = false, ready = false; };
struct ShModel {
  std::map<const void*, Seg> seg;
  const void* creator_obj = nullptr;    // memory of the live creator handle
  int creating = 0;                     // constructors running that may be the creator's
  int in_ctor = 0;
  u64 ctor_events = 0;
  bool init_race = false;
  int next_slot = 0;
};
ShModel* HM;
Seg& seg(const void* o) {
  auto it = HM->seg.find(o);
  if (it != HM->seg.end()) return it->second;
  Seg& s = HM->seg[o];
  for (int i = 0; i < SLOTS; i++) { s.hist[i].push_back(1000 + i); s.done[i] = 0; s.begun[i] = 0; }
  return s;
}
struct Handle { Shm* m; const void* obj; };
bool excused(const void* obj) {
  // a handle was obtained before the creator's constructor had initialised the memory
  if (!seg(obj).tainted || !known("shm-init-race")) return false;
  softfail_known("shm-init-race");
  return true;
}

// construct one handle; h.m is null when construction failed as it should
Handle shm_make() {
  Handle h = {nullptr, nullptr};
  int r; ecl::ErrorFlag fl; int f0, fds0, maps0; const void* cre0; const void* name0; u64 ev0; bool alone;
  {
    NP; f0 = my_faults(); fds0 = vk_open_fds(); maps0 = vk_mappings(); cre0 = HM->creator_obj; name0 = vk_shm_object(std::string("/") + SHM);
    alone = HM->in_ctor == 0; ev0 = HM->ctor_events++; HM->in_ctor++; log("construct");
  }
  TRY(r, fl, h.m = new Shm(SHM));
  if (!exceptions_on && !r && !h.m->data()) { delete h.m; r = 1; }   // what is left without exceptions
  NP;
  HM->in_ctor--;
  bool undisturbed = alone && HM->ctor_events == ev0 + 1;
  HM->ctor_events++;
  bool failed = my_faults() > f0;
  if (r) {
    if (!failed) fail("spurious-failure", "SharedMemory() threw (flag %d) although the system refused nothing", (int)fl);
    if (r != 1) fail("wrong-exception", "SharedMemory() did not report the failure with a StandardException");
    h.m = nullptr;
    if (undisturbed && vk_open_fds() != fds0) fail("fd-leak", "a failed SharedMemory() leaves %d descriptors open", vk_open_fds() - fds0);
    if (undisturbed && vk_mappings() != maps0) fail("mapping-leak", "a failed SharedMemory() leaves %d mappings", vk_mappings() - maps0);
    if (cre0 && cre0 == HM->creator_obj && vk_shm_object(std::string("/") + SHM) != cre0) fail("name-lost", "a failed SharedMemory() took the name away from its creator");
    if (undisturbed && !name0 && vk_shm_object(std::string("/") + SHM)) fail("name-leak", "a failed SharedMemory() leaves the name behind");
    probe("ctor.failed");
    return h;
  }
  if (failed) fail("failure-unreported", "the shared memory could not be set up but SharedMemory() did not throw");
  h.obj = vk_mapping_object(h.m->data());
  if (!h.obj) fail("not-mapped", "data() is not mapped shared memory");
  if ((const char*)vk_mapping_object((char*)h.m->data() + sizeof(Storage) - 1) != h.obj) fail("mapping-short", "the mapping does not cover the storage");
  if (cre0 && cre0 == HM->creator_obj && h.obj != cre0) fail("not-shared", "a handle opened while the creator's handle lives uses different memory");
  if (undisturbed && vk_open_fds() != fds0) fail("fd-leak", "SharedMemory() leaves %d descriptors open", vk_open_fds() - fds0);
  if (vk_shm_creator(h.obj) == self() && !seg(h.obj).ready) seg(h.obj).ready = true;
  else if (!seg(h.obj).ready) { seg(h.obj).tainted = true; probe("opened.before.initialised"); }
  log("constructed");
  return h;
}
void shm_check(const Handle& h, int slot) {
  size_t lo; { NP; lo = seg(h.obj).done[slot]; }
  long v = h.m->data()->slot[slot];
  NP;
  Seg& s = seg(h.obj);
  for (size_t i = lo; i <= s.begun[slot]; i++) if (s.hist[slot][i] == v) return;
  if (excused(h.obj)) return;
  fail(v == 1000 + slot ? "memory-reset" : "wrong-data", "slot %d holds %ld, last written %ld", slot, v, s.hist[slot][lo]);
}
void shm_check_const(const Handle& h) {
  long m = h.m->data()->magic;
  int k; { NP; k = gen(600); }
  long t = h.m->data()->tail[k];
  NP;
  if (m == 0x51AB && t == k * 3) return;
  if (excused(h.obj)) return;
  fail("not-initialised", "the shared memory does not hold Storage()");
}
void shm_write(const Handle& h, int slot, long v) {
  { NP; Seg& s = seg(h.obj); s.hist[slot].push_back(v); s.begun[slot] = s.hist[slot].size() - 1; }
  h.m->data()->slot[slot] = v;
  { NP; Seg& s = seg(h.obj); s.done[slot] = s.begun[slot]; }
}
void shm_use(const Handle& h, int slot, int n) {
  for (int k = 0; k < n; k++) {
    int op; long v; int sl; { NP; op = gen(4); v = 5000 + (long)gen(1000000); sl = gen(SLOTS); }
    if (op == 0) shm_write(h, slot, v);
    else if (op == 1) shm_check_const(h);
    else if (op == 2) shm_check(h, slot);
    else shm_check(h, sl);
  }
}
void shm_destroy(const Handle& h) { { NP; log("destroy"); HM->ctor_events++; HM->in_ctor++; } delete h.m; { NP; HM->ctor_events++; HM->in_ctor--; } }
}
SCENARIO(shared_memory, "C11") {
  int nproc, mode;
  {
    NP; HM = new ShModel; nproc = 1 + gen(3); mode = gen(3);   // 0 creator first, 1 race to create, 2 come and go
    if (faulty()) {
      const char* K[] = {"shm_open.emfile", "shm_open.enfile", "shm_open.eacces", "mmap", "ftruncate"};
      for (auto k : K) if (gencoin(1, 2)) enable_fault(k, 1, 3);
      set_fault_budget(1 + gen(4));
    }
  }
  Handle owner = {nullptr, nullptr};
  if (mode == 0) {
    owner = shm_make();
    if (!owner.m) { NP; finish_run(); }
    NP; HM->creator_obj = owner.obj; nontrivial();
  }
  std::vector<int>* ids; std::vector<int>* procs; int* arrived; int* want;
  { NP; ids = new std::vector<int>; procs = new std::vector<int>; arrived = new int(0); want = new int(1000); }
  if (mode == 0) shm_check_const(owner);
  for (int p = 0; p < nproc; p++) {
    int pr, nt; { NP; pr = gen(3) == 0 ? 0 : new_proc("P"); procs->push_back(pr); nt = 1 + gen(2); }
    for (int t = 0; t < nt; t++) {
      NP;
      int slot = 1 + HM->next_slot++;
      int id = spawn("user", [=] {
        int n; { NP; n = gen(4); }
        if (mode == 0) {
          for (int k = 0; k <= n; k++) {
            Handle h = shm_make();
            if (!h.m) continue;
            { NP; nontrivial(); }
            int u; { NP; u = gen(6); }
            shm_use(h, slot, u);
            shm_destroy(h);
          }
        } else {
          // every constructor may race with the creator's: contents are only judged once all are through
          { NP; if (HM->in_ctor > 0) nontrivial(); }
          Handle h = shm_make();
          if (h.m && mode == 1) {
            NP; (*arrived)++; touch();
          } else { NP; (*arrived)++; touch(); }
          if (mode == 1) { NP; wait("start", [=] { return *arrived >= *want; }); }
          if (h.m && mode == 1) shm_use(h, slot, n + 2);
          if (mode == 1) { NP; (*arrived)++; touch(); wait("end", [=] { return *arrived >= 2 * *want; }); }
          if (h.m) shm_destroy(h);
          if (mode == 2) for (int k = 0; k < n; k++) { h = shm_make(); if (h.m) { sched_yield(); shm_destroy(h); } }
        }
      }, pr);
      ids->push_back(id);
    }
  }
  { NP; *want = (int)ids->size(); touch(); }
  if (mode == 0) {
    bool crash; int victim = -1; { NP; crash = faulty() && gencoin(1, 3); if (crash) { for (int p : *procs) if (p != 0) victim = p; crash = victim >= 0; } }
    int u; { NP; u = gen(6); }
    shm_use(owner, 0, u);
    if (crash) { u64 w; { NP; w = gen(2000) * 10; } sleep_ns(w); NP; note_fault("process.crash"); kill_proc(victim); }
    shm_use(owner, 0, u);
  }
  for (size_t k = 0; k < ids->size(); k++) join_fiber((*ids)[k]);
  { NP; disable_faults(); log("users done"); }
  if (owner.m) {
    for (int i = 0; i < SLOTS; i++) shm_check(owner, i);
    shm_check_const(owner);
    Handle late = shm_make();
    { NP; if (!vk_shm_size(std::string("/") + SHM)) fail("name-lost", "the name is gone although the creator's handle lives"); }
    for (int i = 0; i < SLOTS; i++) shm_check(late, i);
    shm_write(late, 0, 77);
    shm_check(owner, 0);
    bool owner_first; { NP; owner_first = gen(2); }
    if (owner_first) {
      { NP; HM->creator_obj = nullptr; }
      shm_destroy(owner);
      { NP; if (!vk_shm_names().empty()) fail("name-leak", "the name remains after the creator's handle was destroyed"); }
      shm_check(late, 0); shm_write(late, 0, 78); shm_check(late, 0); shm_check_const(late);
      shm_destroy(late);
    } else {
      shm_destroy(late);
      shm_check(owner, 0);
      { NP; HM->creator_obj = nullptr; }
      shm_destroy(owner);
    }
  }
  NP;
  for (int p = 0; p < proc_count(); p++) if (proc_alive(p)) {
    if (vk_mappings(p)) fail("mapping-leak", "%d mappings remain after every handle was destroyed", vk_mappings(p));
    if (vk_open_fds(p)) fail("fd-leak", "descriptors remain open: %s", vk_describe_fds(p).c_str());
  }
  if (!vk_shm_names().empty()) fail("name-leak", "the name remains after every handle was destroyed");
}
