// Deterministic simulator core: one OS thread, fibers as simulated threads, a virtual clock,
// recorded choice streams and a violation sink.  See DESIGN.md.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <memory>
#include <set>

namespace sim {
typedef uint64_t u64;
typedef int64_t i64;
const u64 INF = ~0ull;

// ---------------------------------------------------------------- liveness of "user" code
// true while code of the system under test (or a scenario body) is running on a fiber; every
// intercepted function and every instrumented memory access is inert when it is false.
extern bool g_live;
struct Guard {  // enter simulator code
  bool saved;
  // the barriers keep bookkeeping loads and stores inside the guarded region: leaving and entering one
  // are scheduling points, so no value may be cached across them
  Guard() { asm volatile("" ::: "memory"); saved = g_live; g_live = false; asm volatile("" ::: "memory"); }
  ~Guard() { asm volatile("" ::: "memory"); g_live = saved; asm volatile("" ::: "memory"); }
};
typedef Guard NoPreempt;  // scenario/oracle bookkeeping: not a scheduling point, real allocator

// ---------------------------------------------------------------- choices
enum Stream { GEN = 0, SCHED = 1, FAULT = 2, ENV = 3, NSTREAM = 4 };
u64 choose(Stream s, u64 n);                       // uniform in [0,n), 0 is the simplest
bool coin(Stream s, unsigned num, unsigned den);   // true with probability num/den; false simplest
inline u64 gen(u64 n) { return choose(GEN, n); }
inline bool gencoin(unsigned num, unsigned den) { return coin(GEN, num, den); }
u64 gen_range(u64 lo, u64 hi);                     // inclusive, lo simplest
u64 gen_weighted(const std::vector<unsigned>& w);  // index by weight
u64 env(u64 n);                                    // environment latency etc.
// One fault point.  True when the fault fires in this run; the kind must be enabled by the
// scenario's fault plan (kinds are enabled per run, swarm style) and the run's budget not spent.
bool fault(const char* kind);
bool fault_p(const char* kind, unsigned num, unsigned den);
void enable_fault(const char* kind, unsigned num, unsigned den);
void disable_faults();
int faults_fired();
int my_faults();                                   // faults that hit calls of the calling thread
int fault_fired(const char* kind);
void set_fault_budget(int n);
void note_fault(const char* kind);                 // count a fault injected by other means

// ---------------------------------------------------------------- results
void fail(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void softfail_known(const char* finding);          // a listed known finding was met; run goes on
void finish_run() __attribute__((noreturn));       // stop the run, no violation
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char* name);                      // rare-condition reach counter
void nontrivial();                                 // this run met the non-triviality rule
bool known(const char* id);                        // is this finding listed as known?
u64 steps();

// ---------------------------------------------------------------- time
u64 now();                // monotonic ns
i64 to_boundary();        // a delay which ends on a whole second of CLOCK_REALTIME, if started a few steps from now
i64 realtime();           // CLOCK_REALTIME ns (can jump)
void jump_realtime(i64 delta);
void advance(u64 ns);     // consume cpu time
u64 cpu_time();           // simulated process CPU ns
void at(u64 when, std::function<void()> f);        // event
void after(u64 delay, std::function<void()> f);

// ---------------------------------------------------------------- fibers
struct Fiber;
enum WaitResult { WOKEN = 0, TIMEDOUT = 1, INTERRUPTED = 2 };
struct WaitOpts {
  u64 mono_deadline = INF;
  i64 real_deadline = INT64_MAX;
  bool interruptible = false;
  bool cancellable = false;
};
WaitResult wait(const char* what, std::function<bool()> ready, const WaitOpts& o = WaitOpts());
void yield_point(const char* what);                // scheduling point at a call
void touch();                                      // kernel state changed: re-evaluate waiters
int spawn(const char* name, std::function<void()> fn, int proc = -1);  // scenario thread
bool finished(int fid);
void join_fiber(int fid);                          // scenario-level join (not pthread_join)
int self();
int proc();
const char* fname(int fid);
void sleep_ns(u64 ns);                             // scenario-level sleep
void set_name(int fid, const char* name);
bool blocked(int fid);
void kill_proc(int p);                             // crash of a simulated process
int new_proc(const char* name);
bool proc_alive(int p);
void on_proc_death(std::function<void(int)> f);
int live_fibers();                                 // not finished, excluding caller
// deadlock policy: default is a violation named <prefix>deadlock
void set_deadlock_handler(std::function<void(const std::string&)> f);
void set_stepcap_handler(std::function<void()> f);
void set_step_cap(u64 n);
void set_terminate_class(const char* cls);
std::string describe_fibers();

// per-run scheduling strategy, normally set by runner
struct Strategy {
  int kind = 0;            // 0 random, 1 PCT
  unsigned mem_num = 1, mem_den = 50;    // preemption probability at memory accesses
  unsigned call_num = 1, call_den = 4;   // ... at intercepted calls
  u64 step_ns = 100;       // virtual time per call point
};
extern Strategy g_strategy;

// ---------------------------------------------------------------- memory
size_t live_allocs();       // live blocks allocated by live code
size_t live_bytes();
u64 alloc_count();
bool in_arena(const void* p);
void check_range(const void* p, size_t n, bool write, const char* by);
void dump_live_allocs(size_t from_seq, std::string& out);
// named class prefix for memory errors
void forbid_alloc_fail();
void allow_races();         // this run's workload may race (an object shared without protection, which is exempt)

// ---------------------------------------------------------------- runner
struct Scenario {
  const char* name;
  const char* property;
  void (*run)();
  // faults enabled: set up inside run() when sim::faulty() is true
};
bool faulty();              // this run is of the fault-injecting configuration
void register_scenario(const Scenario& s);
struct Registrar { Registrar(const char* n, const char* p, void (*f)()) { Scenario s = {n, p, f}; register_scenario(s); } };
#define SCENARIO(name, prop) static void scen_##name(); static sim::Registrar reg_##name(#name, prop, scen_##name); static void scen_##name()
extern bool g_release;      // compiled with NDEBUG
extern const char* g_build; // name of the build

// internal hooks used by the interposition layer
namespace detail {
struct CancelUnwind {};
void cancellation_point();
}
}  // namespace sim
#endif
