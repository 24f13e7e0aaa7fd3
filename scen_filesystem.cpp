// C26 real paths
#include <unistd.h>
#include <errno.h>
#include <limits.h>
#include <map>
#include <string>
#include <vector>
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/filesystem.hpp>

using namespace sim;
using std::string;

namespace {
struct Node { char kind = 'd'; string target; bool locked = false; };  // d directory, f file, l link
std::map<string, Node> tree;   // by canonical path
string cwd;

// the answer, and how far the walk got when it failed
int resolve(const string& path, string& at, int depth = 0) {
  if (path.empty()) return ENOENT;
  if (path.size() >= PATH_MAX) return ENAMETOOLONG;
  string cur = path[0] == '/' ? "" : (cwd == "/" ? "" : cwd);
  std::vector<string> todo;   // components, last first
  auto push = [&](const string& p) { std::vector<string> c; size_t i = 0; while (i <= p.size()) { size_t j = p.find('/', i); if (j == string::npos) j = p.size(); if (j > i) c.push_back(p.substr(i, j - i)); i = j + 1; } if (p.size() && p.back() == '/') c.push_back("."); for (size_t k = c.size(); k--;) todo.push_back(c[k]); };
  push(path);
  int links = depth;
  while (!todo.empty()) {
    string c = todo.back(); todo.pop_back();
    at = cur.empty() ? "/" : cur;
    if (tree[at].kind != 'd') return ENOTDIR;
    if (c == ".") continue;
    if (c == "..") { size_t s = cur.rfind('/'); cur = s == string::npos ? "" : cur.substr(0, s); at = cur.empty() ? "/" : cur; continue; }
    if (c.size() > NAME_MAX) return ENAMETOOLONG;
    if (tree[at].locked) return EACCES;
    string n = cur + "/" + c;
    auto f = tree.find(n);
    if (f == tree.end()) return ENOENT;
    if (f->second.kind == 'l') {
      if (++links > 40) return ELOOP;
      if (f->second.target[0] == '/') cur = "";
      push(f->second.target);
      continue;
    }
    cur = n;
    at = n;
    if (cur.size() >= PATH_MAX) return ENAMETOOLONG;
  }
  at = cur.empty() ? "/" : cur;
  return 0;
}
string name() { static const char* N[] = {"a", "b", "c", "data", "x y", "..."}; int k = gen(12); if (k < 6) return N[k]; if (k == 6) return string(NAME_MAX - gen(2), 'n'); return N[k % 3]; }
string somewhere() {  // a path, sensible or not
  string p; int n = gen(7);
  if (gencoin(1, 2)) p = "/";
  if (gencoin(2, 3) && tree.size() > 1) {
    auto it = tree.begin(); std::advance(it, gen(tree.size()));
    p = it->first;
    if (p != "/") p += "/";
    n = gen(3);
  }
  for (int i = 0; i < n; i++) { switch (gen_weighted({5, 2, 2, 1, 1})) { case 0: p += name(); break; case 1: p += ".."; break; case 2: p += "."; break; case 3: p += ""; break; case 4: p += "nothing-here"; break; } p += "/"; }
  if (p.size() > 1 && gencoin(3, 4)) p.erase(p.size() - 1);
  if (gencoin(1, 30)) { size_t w = PATH_MAX - 3 + gen(6); string l = p[0] == '/' ? "" : "."; while (l.size() < w) l += "/./././././././././."; l.resize(w > 1 ? w : 1); p = l; if (p.size() > 3) p = p.substr(0, p.size()); }
  return p;
}
ecl::ErrorFlag expected(int e) {
  switch (e) {
    case 0: return ecl::NoError;
    case EACCES: return ecl::PermissionsError;
    case EINVAL: case ENAMETOOLONG: return ecl::InvalidArgError;
    case EIO: return ecl::ReadError;
    case ELOOP: case ENOTDIR: return ecl::InvalidObjectError;
    case ENOENT: return ecl::NotFoundError;
  }
  return ecl::UnknownError;
}
void user() {
  int calls; { NP; calls = 1 + gen(5); }
  string* keep; { NP; keep = new string; }
  for (int k = 0; k < calls; k++) {
    string *path, *before; int want; string* real; std::map<string, int> h0;
    static const struct { const char* k; int e; } F[] = {{"path.eacces", EACCES}, {"path.eio", EIO}, {"path.eloop", ELOOP}, {"path.enomem", ENOMEM}, {"path.enoent", ENOENT}};
    {
      NP;
      path = new string(somewhere()); real = new string;
      want = resolve(*path, *real);
      before = new string(gencoin(1, 3) ? "" : gencoin(1, 2) ? *keep : string("what was here before, long enough to be on the heap"));
      log("ask %.60s (%zu)", path->c_str(), path->size());
    }
    int a0 = my_faults(), r; ecl::ErrorFlag fl, ret = ecl::NoError;
    {
      string out;
      int r0; TRY(r0, fl, out = *before);
      if (r0) { NP; delete path; delete before; delete real; continue; }
      a0 = my_faults();
      TRY(r, fl, { ecl::Error e = ecl::realpath(*path, out); ret = e.flag(); });
      NP;
      int hurt = my_faults() - a0;
      if (r == 1) fail("op-threw", "realpath threw flag %d", (int)fl);
      if (r == 2 && !hurt) fail("spurious-failure", "realpath ran out of memory although none was refused");
      if (r == 0 && ret == ecl::NoError) {
        if (want) fail("success-claimed", "realpath of \"%.80s\" succeeded, it should fail with errno %d", path->c_str(), want);
        if (hurt) fail("success-claimed", "realpath of \"%.80s\" succeeded although the system refused", path->c_str());
        if (out != *real) fail("path-wrong", "realpath of \"%.80s\" gave \"%.80s\" (%zu) instead of \"%.80s\" (%zu)", path->c_str(), out.c_str(), out.size(), real->c_str(), real->size());
        nontrivial();
        *keep = out.size() < 200 ? string(out.c_str()) : string();
      } else {
        if (out != *before) fail("answer-touched", "a realpath that failed left \"%.80s\" (%zu) in the answer instead of what was there", out.c_str(), out.size());
        if (r == 0) {
          if (!want && !hurt) fail("spurious-failure", "realpath of \"%.80s\" reported flag %d", path->c_str(), (int)ret);
          if (!hurt && ret != expected(want)) fail("error-wrong", "realpath reported flag %d for errno %d", (int)ret, want);
          if (hurt) { bool ok = ret == expected(want) && want; for (auto& f : F) if (fault_fired(f.k) && ret == expected(f.e)) ok = true; if (fault_fired("alloc")) ok = ok || ret == ecl::UnknownError || ret == ecl::MemoryError; if (!ok) fail("error-wrong", "realpath reported flag %d, which was not the refusal", (int)ret); }
          probe("refused");
        }
      }
    }
    NP; delete path; delete before; delete real;
  }
  NP; delete keep;
}
}  // namespace

SCENARIO(realpath, "C26") {
  int n;
  {
    NP;
    tree.clear(); tree["/"] = Node();
    int k = 1 + gen(9);
    for (int i = 0; i < k; i++) {
      std::vector<string> dirs; for (auto& t : tree) if (t.second.kind == 'd') dirs.push_back(t.first);
      string d = dirs[gen(dirs.size())], p = (d == "/" ? "" : d) + "/" + name();
      if (tree.count(p) || p.size() > 3500) continue;
      Node nd; int w = gen_weighted({4, 2, 3});
      nd.kind = w == 0 ? 'd' : w == 1 ? 'f' : 'l';
      nd.locked = nd.kind == 'd' && gencoin(1, 8);
      if (nd.kind == 'l') { nd.target = somewhere(); if (nd.target.empty()) nd.target = "."; }
      tree[p] = nd;
    }
    if (gencoin(1, 6)) { string p; while (p.size() < PATH_MAX - 300) { p += "/" + string(200, 'd'); tree[p] = Node(); } int rest = PATH_MAX - (int)p.size() - 4 + gen(8); p += "/" + string(rest - 1, 'e'); tree[p] = Node(); }
    std::vector<string> dirs; for (auto& t : tree) if (t.second.kind == 'd' && t.first.size() < 300) dirs.push_back(t.first);
    cwd = dirs[gen(dirs.size())];
    vk_resolver = [](const string& p, string& r) { return resolve(p, r); };
    n = 1 + gen(2);
  }
  auto arm = [] { NP; if (faulty()) { static const char* K[] = {"path.eacces", "path.eio", "path.eloop", "path.enomem", "path.enoent", "alloc"}; for (auto k : K) if (gencoin(1, 2)) enable_fault(k, 1, 2 + gen(8)); set_fault_budget(1 + gen(5)); } };
  if (n == 1) { arm(); user(); }
  else {
    int t[2];
    { NP; for (int i = 0; i < 2; i++) t[i] = spawn("user", [] { user(); }); }
    arm();
    for (int i = 0; i < 2; i++) join_fiber(t[i]);
  }
  NP;
  if (live_allocs()) { string s; dump_live_allocs(0, s); fail("leak", "memory is still allocated after the calls: %s", s.c_str()); }
}
