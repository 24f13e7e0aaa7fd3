// Process ids and the C library's random numbers.
#include "fiber.hpp"
#include "vk.hpp"
#include "wrap.hpp"
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>

namespace sim {
static int g_rand_mode;          // 0 well mixed, 1 with extreme values mixed in
static u64 g_rand_seed = 1, g_rand_count;
static int g_pid_base = 300;
void rand_mode(int m) { g_rand_mode = m; }
void pid_base(int b) { g_pid_base = b; }
u64 rand_draws() { return g_rand_count; }
static u64 mix(u64 x) {
  x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
static int next_rand() {
  u64 h = mix(mix(g_rand_seed) + g_rand_count++);
  if (g_rand_mode == 1 && (h >> 40) % 2 == 0) {
    static const unsigned X[] = {0, 1, RAND_MAX, RAND_MAX - 1u, RAND_MAX / 2, RAND_MAX / 2 + 1u, RAND_MAX / 2 - 1u, RAND_MAX / 2 + 2u};
    return (int)X[(h >> 48) % 8];
  }
  return (int)(h & RAND_MAX);
}
}
using namespace sim;
extern "C" {
int __real_rand(void);
void __real_srand(unsigned);
pid_t __real_getpid(void);

int __wrap_rand(void) {
  LIVE(__real_rand());
  yield_point("rand");
  return next_rand();
}
long __real_random(void);
void __real_srandom(unsigned);
long __wrap_random(void) {
  LIVE(__real_random());
  yield_point("random");
  return next_rand();
}
void __wrap_srandom(unsigned s) {
  if (!g_live) { __real_srandom(s); return; }
  Guard guard_;
  yield_point("srandom");
  g_rand_seed = s; g_rand_count = 0;
}
void __wrap_srand(unsigned s) {
  if (!g_live) { __real_srand(s); return; }
  Guard guard_;
  yield_point("srand");
  g_rand_seed = s; g_rand_count = 0;
}
pid_t __wrap_getpid(void) {
  LIVE(__real_getpid());
  return g_pid_base + 7 * proc();
}
}
