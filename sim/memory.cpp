// Arena allocator with redzones and quarantine (never reuses within a run), byte-exact shadow,
// interposed malloc family, and the instrumentation runtime (-fsanitize=thread call-outs are
// served here, not by libtsan): every access of code under test is a validity check and a
// scheduling point.   Compiled WITHOUT instrumentation.
#include "fiber.hpp"
#include "runner.hpp"
#include <cstdlib>
#include <new>
#include <cstring>
#include <cstdio>
#include <errno.h>
#include <sys/mman.h>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}

namespace sim {
void mem_point();
static unsigned char* const A = (unsigned char*)ARENA_BASE;
static unsigned char* const S = (unsigned char*)SHADOW_BASE;   // 0 never, 1 live, 2 freed, 3 redzone
static size_t g_top = 64;
static unsigned char g_pat = 0xA5;
static size_t g_live_n = 0, g_live_b = 0;
static u64 g_seq = 0;
struct Hdr { u64 magic, size, seq, counted, next, caller[3], kind; };   // caller: return addresses for reports
static const u64 MAGIC = 0x51A7C0DE51A7C0DEull;

void arena_init() {
  void* a = mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* s = mmap((void*)SHADOW_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (void*)ARENA_BASE || s != (void*)SHADOW_BASE) { perror("arena"); abort(); }
}
void arena_run_init(unsigned char pat) { g_pat = pat; }
unsigned char arena_pattern() { return g_pat; }
bool in_arena(const void* p) { return (const unsigned char*)p >= A && (const unsigned char*)p < A + ARENA_SIZE; }
size_t live_allocs() { return g_live_n; }
size_t live_bytes() { return g_live_b; }
u64 alloc_count() { return g_seq; }

static bool in_arena_or_stack(u64* p) { return (u64)p >= STACK_BASE && (u64)p < STACK_BASE + (64ull << 20) - 64; }
static u64 g_last_block = 0;
static __attribute__((noinline)) void* arena_alloc(size_t n, size_t align, bool zero, u64 kind = 0) {   // kind: 0 malloc, 1 new, 2 new[]
  if (align < 16) align = 16;
  size_t at = g_top + sizeof(Hdr) + 16;
  at = (at + align - 1) / align * align;
  size_t end = at + n + 16;
  if (n > (16u << 20)) { if (n > ARENA_SIZE) { errno = ENOMEM; return nullptr; } }
  if (end + 64 > ARENA_SIZE) fail("sim-limit", "simulated heap exhausted by a request of %zu bytes", n);
  Hdr* h = (Hdr*)(A + at - sizeof(Hdr));
  h->magic = MAGIC; h->size = n; h->seq = g_seq++; h->counted = 1; h->kind = kind;
  h->next = g_last_block; g_last_block = at;
  u64* fp = (u64*)__builtin_frame_address(0);
  for (int i = 0; i < 3; i++) h->caller[i] = 0;
  for (int i = 0; i < 3 && in_arena_or_stack(fp); i++) { h->caller[i] = fp[1]; fp = (u64*)fp[0]; }
  __real_memset(S + g_top, 3, at - g_top);
  __real_memset(S + at, 1, n);
  __real_memset(S + at + n, 3, 16);
  __real_memset(A + at, zero ? 0 : g_pat, n);
  g_top = end;
  g_live_n++; g_live_b += n;
  return A + at;
}
static const char* state_name(unsigned char s) { return s == 0 ? "unallocated heap" : s == 2 ? "freed heap block" : s == 3 ? "heap block boundary" : "live"; }
static void bad(const void* p, size_t n, bool w, const char* by, unsigned char s) {
  g_live = false;
  fail(s == 2 ? "memory-use-after-free" : "memory-out-of-bounds", "%s of %zu bytes hits %s (%s)", w ? "write" : "read", n, state_name(s), by);
}
static void check(const void* p, size_t n, bool w, const char* by) {
  if (!in_arena(p) || n == 0) return;
  size_t o = (const unsigned char*)p - A;
  if (o + n > ARENA_SIZE) n = ARENA_SIZE - o;
  for (size_t i = 0; i < n; i++) if (S[o + i] != 1) bad(p, n, w, by, S[o + i]);
}
void check_range(const void* p, size_t n, bool w, const char* by) {   // a call of the system reads or writes user memory
  check(p, n, w, by);
  if (n && g_cur) race_access(p, n, w, (u64)__builtin_return_address(0));
}
static void arena_free(void* p, u64 kind = 0) {
  size_t o = (unsigned char*)p - A;
  Hdr* h = (Hdr*)(A + o - sizeof(Hdr));
  if (o < 64 + sizeof(Hdr) || h->magic != MAGIC) {
    bool f = S[o] == 2;
    g_live = false;
    fail(f ? "memory-double-free" : "memory-bad-free", "free of %s", f ? "an already freed heap block" : "a pointer that is not the start of a heap block");
  }
  if (h->size ? S[o] == 2 : h->counted == 2) { g_live = false; fail("memory-double-free", "heap block of %llu bytes freed twice", (unsigned long long)h->size); }
  if (h->kind != kind) {
    static const char *A[] = {"malloc", "new", "new[]"}, *D[] = {"free", "delete", "delete[]"};
    g_live = false;
    fail("memory-bad-free", "heap block of %llu bytes got with %s is given back with %s", (unsigned long long)h->size, A[h->kind], D[kind]);
  }
  if (g_live) race_access(p, h->size, 5, (u64)__builtin_return_address(0));
  g_live_n--; g_live_b -= h->size;
  h->counted = 2;
  __real_memset(S + o, 2, h->size);
  __real_memset(A + o, 0xDD, h->size);
}
static size_t arena_size(void* p) { return ((Hdr*)((unsigned char*)p - sizeof(Hdr)))->size; }
void dump_live_allocs(size_t from, std::string& out) {
  char b[200];
  for (u64 at = g_last_block; at;) {
    Hdr* h = (Hdr*)(A + at - sizeof(Hdr));
    if (h->counted == 1 && h->seq >= from) {
      snprintf(b, sizeof b, " [block %llu of %llu bytes, allocated at %llx %llx %llx]", (unsigned long long)h->seq, (unsigned long long)h->size, (unsigned long long)h->caller[0], (unsigned long long)h->caller[1], (unsigned long long)h->caller[2]);
      if (out.size() < 600) out += b;
    }
    at = h->next;
  }
}

static inline __attribute__((always_inline)) void acc(const void* p, unsigned n, int w) {
  if (!g_live) return;
  u64 pc = (u64)__builtin_return_address(0);
  size_t o = (const unsigned char*)p - A;
  if (o < ARENA_SIZE) {
    mem_point();   // others may run, and free, before the access happens
    for (unsigned i = 0; i < n; i++) if (__builtin_expect(S[o + i] != 1, 0)) bad(p, n, w & 1, "memory access", S[o + i]);
    race_access(p, n, w, pc);
    return;
  }
  // own-stack accesses are not scheduling points; anything else may be shared
  char* fp = (char*)__builtin_frame_address(0);
  if ((const char*)p >= fp - 4096 && (const char*)p < fp + 65536) { race_access(p, n, w, pc); return; }
  mem_point();
  race_access(p, n, w, pc);
}
static inline __attribute__((always_inline)) void range(const void* p, size_t n, int w, const char* by) {
  if (!g_live || !n) return;
  check(p, n, w & 1, by);
  race_access(p, n, w, (u64)__builtin_return_address(0));
}
}  // namespace sim
using namespace sim;
namespace sim { int scripted(const char*); }
static bool no_memory() { return fault("alloc") || scripted("alloc"); }

extern "C" {
void* __wrap_malloc(size_t n) {
  if (!g_live) return __real_malloc(n);
  if (no_memory()) { errno = ENOMEM; return nullptr; }
  return arena_alloc(n, 16, false);
}
void* __wrap_calloc(size_t a, size_t b) {
  if (!g_live) return __real_calloc(a, b);
  if (no_memory()) { errno = ENOMEM; return nullptr; }
  return arena_alloc(a * b, 16, true);
}
static void give_back(void* p, u64 kind) {
  if (!p) return;
  if (in_arena(p)) { arena_free(p, kind); return; }
  if ((u64)p >= STACK_BASE && (u64)p < STACK_BASE + (64ull << 20)) { g_live = false; fail("memory-bad-free", "free of a stack address"); }
  if (!g_live) { __real_free(p); return; }
  // live code releasing a block the simulator handed out: legal (strdup-like interfaces)
  if ((u64)p < 0x1000 || ((u64)p & 15)) { g_live = false; fail("memory-bad-free", "free of a garbage pointer"); }
  __real_free(p);
}
void __wrap_free(void* p) { give_back(p, 0); }
void* __wrap_realloc(void* p, size_t n) {
  if (p && in_arena(p)) {
    if (g_live && no_memory()) { errno = ENOMEM; return nullptr; }
    void* q = arena_alloc(n, 16, false);
    size_t o = arena_size(p);
    __real_memcpy(q, p, o < n ? o : n);
    arena_free(p);
    return q;
  }
  if (!p && g_live) { if (no_memory()) { errno = ENOMEM; return nullptr; } return arena_alloc(n, 16, false); }
  return __real_realloc(p, n);
}
int __wrap_posix_memalign(void** out, size_t al, size_t n) {
  if (!g_live) return __real_posix_memalign(out, al, n);
  if (no_memory()) return ENOMEM;
  *out = arena_alloc(n, al, false);
  return 0;
}
void* __wrap_aligned_alloc(size_t al, size_t n) {
  if (!g_live) return __real_aligned_alloc(al, n);
  if (no_memory()) { errno = ENOMEM; return nullptr; }
  return arena_alloc(n, al, false);
}
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  range(s, n, 0, "memcpy"); range(d, n, 1, "memcpy");
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  range(s, n, 0, "memmove"); range(d, n, 1, "memmove");
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  range(d, n, 1, "memset");
  return __real_memset(d, c, n);
}

}
// replaces the C++ library's operators, which would hide requests of no bytes and mix the kinds
static __attribute__((noinline)) void* get(size_t n, u64 kind) {
  if (!g_live) return __real_malloc(n ? n : 1);
  if (no_memory()) { errno = ENOMEM; return nullptr; }
  return arena_alloc(n, 16, false, kind);
}
static void* get_or_throw(size_t n, u64 kind) {
  for (;;) {
    void* p = get(n, kind);
    if (p) return p;
    std::new_handler h = std::get_new_handler();
    if (!h) throw std::bad_alloc();
    h();
  }
}
void* operator new(size_t n) { return get_or_throw(n, 1); }
void* operator new[](size_t n) { return get_or_throw(n, 2); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 2); }
void operator delete(void* p) noexcept { give_back(p, 1); }
void operator delete[](void* p) noexcept { give_back(p, 2); }
void operator delete(void* p, size_t) noexcept { give_back(p, 1); }
void operator delete[](void* p, size_t) noexcept { give_back(p, 2); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give_back(p, 1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give_back(p, 2); }
extern "C" {

// ---- instrumentation runtime
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* p) { acc(p, n, 0); } \
  void __tsan_write##n(void* p) { acc(p, n, 1); } \
  void __tsan_unaligned_read##n(void* p) { acc(p, n, 0); } \
  void __tsan_unaligned_write##n(void* p) { acc(p, n, 1); } \
  void __tsan_volatile_read##n(void* p) { acc(p, n, 0); } \
  void __tsan_volatile_write##n(void* p) { acc(p, n, 1); } \
  void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, 0); } \
  void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, 1); } \
  void __tsan_read##n##_pc(void* p, void*) { acc(p, n, 0); } \
  void __tsan_write##n##_pc(void* p, void*) { acc(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { range(p, n, 0, "memory access"); acc(p, 1, 0); }
void __tsan_write_range(void* p, size_t n) { range(p, n, 1, "memory access"); acc(p, 1, 1); }
void __tsan_vptr_read(void** p) { acc(p, 8, 0); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, 1); }
// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acquire-release, 5 sequentially consistent
static inline void acq(const volatile void* a, int o) { if (g_live && o != 0 && o != 3) { Guard g; race_acquire((const void*)a); } }
static inline void rel(const volatile void* a, int o) { if (g_live && o >= 3) { Guard g; race_release((const void*)a); } }
#define RMW(bits, T, name, expr) \
  T __tsan_atomic##bits##_##name(volatile T* a, T v, int m) { acc((const void*)a, sizeof(T), 3); acq(a, m); T o = *a; *a = expr; rel(a, m); if (g_live) touch(); return o; }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int m) { acc((const void*)a, sizeof(T), 2); acq(a, m); return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int m) { acc((const void*)a, sizeof(T), 3); rel(a, m); *a = v; if (g_live) touch(); } \
  RMW(bits, T, exchange, v) RMW(bits, T, fetch_add, o + v) RMW(bits, T, fetch_sub, o - v) RMW(bits, T, fetch_and, o & v) \
  RMW(bits, T, fetch_or, o | v) RMW(bits, T, fetch_xor, o ^ v) RMW(bits, T, fetch_nand, ~(o & v)) \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int m, int f) { acc((const void*)a, sizeof(T), 3); T o = *a; if (o == *c) { acq(a, m); *a = v; rel(a, m); return 1; } acq(a, f); *c = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { acc((const void*)a, sizeof(T), 3); T o = *a; if (o == *c) { acq(a, m); *a = v; rel(a, m); return 1; } acq(a, f); *c = o; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int m, int f) { acc((const void*)a, sizeof(T), 3); T o = *a; if (o == c) { acq(a, m); *a = v; rel(a, m); } else acq(a, f); return o; }
typedef unsigned char ta8; typedef unsigned short ta16; typedef unsigned int ta32; typedef unsigned long ta64;
AT(8, ta8) AT(16, ta16) AT(32, ta32) AT(64, ta64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
