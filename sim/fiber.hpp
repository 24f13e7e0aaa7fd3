#ifndef VERIF_FIBER_HPP
#define VERIF_FIBER_HPP
#include "sim.hpp"
namespace sim {
enum FState { RUNNABLE, BLOCKED, DONE };
struct Fiber {
  int id = 0;
  int proc = 0;
  std::string name;
  void* sp = nullptr;
  char* stack = nullptr;
  size_t stack_size = 0;
  size_t stack_asked = 0; bool overflowed = false;
  FState state = RUNNABLE;
  bool dead = false;            // process killed
  const char* what = "";
  std::function<bool()>* ready = nullptr;
  WaitOpts opts;
  bool intr = false;
  u64 intr_at = INF;
  std::function<void()> fn;
  std::vector<char> tls;
  // pthread state
  bool is_pthread = false;
  void* (*start)(void*) = nullptr;
  void* arg = nullptr;
  void* retval = nullptr;
  bool detached = false, joined = false;
  bool cancel_requested = false, cancel_disabled = false, cancelled = false;
  int policy = 0, prio = 0, nice = 0;
  std::map<unsigned, void*> specific;
  int faults = 0;               // faults that hit this thread's calls
  u64 pct = 0;                  // PCT priority
  bool unwinding = false;
};
extern Fiber* g_cur;
extern std::vector<Fiber*>* g_fibers;
Fiber* fiber(int id);
Fiber* new_fiber(const char* name, std::function<void()> fn, int proc);
int proc_count();
// waiting inside the simulated kernel: does not order memory accesses by itself
WaitResult kwait(const char* what, std::function<bool()> ready, const WaitOpts& o = WaitOpts());
// data race detection (race.cpp)
void race_init();
void race_fork(int child);
void race_join(int child);
void race_sync_all();
void race_acquire(const void* obj);
void race_release(const void* obj);
void race_access(const void* p, size_t n, int kind, u64 pc);   // kind: 1 write, 2 atomic, 4 release of the memory
}
#endif
