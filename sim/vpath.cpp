// realpath(3) over a file tree the scenario provides
#include <errno.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include "sim.hpp"
#include "vk.hpp"
#include "wrap.hpp"
using namespace sim;
std::function<int(const std::string&, std::string&)> sim::vk_resolver;
extern "C" {
void* __wrap_malloc(size_t);
char* __real_realpath(const char*, char*);
char* __wrap_realpath(const char* path, char* out) {
  LIVE(__real_realpath(path, out));
  yield_point("realpath");
  if (!path) { errno = EINVAL; return nullptr; }
  std::string p(path), res;
  static const struct { const char* k; int e; } F[] = {{"path.eacces", EACCES}, {"path.eio", EIO}, {"path.eloop", ELOOP}, {"path.enomem", ENOMEM}, {"path.enoent", ENOENT}};
  int e = vk_resolver ? vk_resolver(p, res) : ENOSYS;
  for (auto& f : F) if (fault(f.k)) { e = f.e; break; }
  if (!e && res.size() >= PATH_MAX) e = ENAMETOOLONG;
  if (e) {
    // what was resolved so far may be left behind, with or without an end
    if (out) { check_range(out, PATH_MAX, true, "realpath"); if (env(2)) { size_t n = res.size() < 20 ? res.size() : 20; memcpy(out, res.data(), n); if (env(2)) out[n] = 0; } }
    log("realpath %.60s -> errno %d", path, e);
    errno = e;
    return nullptr;
  }
  if (out) check_range(out, PATH_MAX, true, "realpath");
  else {
    g_live = true; out = (char*)__wrap_malloc(res.size() + 1); g_live = false;
    if (!out) { errno = ENOMEM; return nullptr; }
  }
  memcpy(out, res.c_str(), res.size() + 1);
  log("realpath %.60s -> %.60s", path, out);
  return out;
}
}
