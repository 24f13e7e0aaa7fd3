#ifndef VERIF_RUNNER_HPP
#define VERIF_RUNNER_HPP
#include "sim.hpp"
#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (64ull << 20)
#define SHADOW_BASE 0x110000000000ull
#define STACK_BASE 0x120000000000ull
#define MAP_BASE 0x130000000000ull
namespace sim {
struct Tape {
  std::vector<u64> gen;
  std::vector<std::pair<u64, u64>> sp[NSTREAM];
};
struct Counter { char name[40]; u64 n; };
const int MAXCTR = 160;
enum { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_CRASH = 3 };
struct Result {
  int status;
  int nontrivial;
  char cls[64];
  char msg[900];
  u64 hash, shash, steps, simtime, switches, nfired;
  Counter probes[MAXCTR], faults[MAXCTR], known[16];
};
const size_t TAPE_MAX = 1 << 17;
const size_t TRACE_MAX = 4 << 20;
struct SharedOut {
  u64 ngen, nsp[NSTREAM];
  u64 gen[TAPE_MAX];
  u64 sp[NSTREAM][TAPE_MAX][2];
  char trace[TRACE_MAX];
};
extern Result* g_result;
extern SharedOut* g_shared_out;
void zygote_init();
void set_known(const std::string&);
void run_in_child(const Scenario& sc, u64 seed, bool faulty_cfg, Tape* replay, bool record);
}
#endif
