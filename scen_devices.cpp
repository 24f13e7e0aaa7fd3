// C12 OFile, C13 SharedFile
#include <unistd.h>
#include <vector>
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/devices/ofile.hpp>
#include <ecl/devices/shared_file.hpp>
#include <string.h>

using namespace sim;
using std::string;

namespace {
string bytes(int n, int mark = -1) {   // arbitrary bytes; mark 0/1 fixes the top bit
  string s(n, 0);
  int style = gen(3);
  u64 x = gen(256);
  for (int i = 0; i < n; i++) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    unsigned char c = style == 0 ? 'a' + (x >> 33) % 26 : style == 1 ? (unsigned char)(x >> 40) : "\0\n\xff\r"[(x >> 40) & 3];
    if (mark >= 0) c = (c & 0x7f) | (mark << 7);
    s[i] = c;
  }
  return s;
}
int pick_len() { switch (gen(6)) { case 0: return 1 + gen(8); case 1: return gen(3); case 2: return 1 + gen(40); case 3: return gen(400); case 4: return 4090 + gen(12); default: return gen(9000); } }
bool subsequence(const string& a, const string& b) { size_t j = 0; for (char c : a) { while (j < b.size() && b[j] != c) j++; if (j++ >= b.size()) return false; } return true; }
bool starts(const string& s, const string& p) { return s.compare(0, p.size(), p) == 0; }
bool ends(const string& s, const string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
string show(const string& s) { string o; char b[8]; for (size_t i = 0; i < s.size() && i < 24; i++) { unsigned char c = s[i]; if (c > 32 && c < 127) o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } return "\"" + o + (s.size() > 24 ? "...\"" : "\""); }

// What an output file owes its user.
struct FileModel {
  string path, pre;            // content when it was opened
  string tried;                // every byte offered since
  string good;                 // bytes accepted since the last reported failure
  string flushed;              // tried when the last clean flush returned
  bool lost = false;           // a failure was reported since open
  bool open = false;
};
void check_content(const FileModel& m, const char* when) {
  Inode* i = vk_file(m.path);
  if (!i) fail("file-missing", "%s: %s does not exist", when, m.path.c_str());
  if (!(i->mode & 0400)) fail("unreadable", "%s: the permissions %03o of %s do not let its owner read it", when, i->mode, m.path.c_str());
  const string& d = i->data;
  if (!m.lost) {
    string want = m.pre + m.tried;
    if (d == want) return;
    size_t k = 0; while (k < d.size() && k < want.size() && d[k] == want[k]) k++;
    fail("file-content", "%s: %s has %zu bytes, expected %zu (%zu there before, %zu written); first difference at byte %zu: %s instead of %s", when, m.path.c_str(), d.size(), want.size(),
         m.pre.size(), m.tried.size(), k, show(d.substr(k)).c_str(), show(want.substr(k)).c_str());
  }
  if (!starts(d, m.pre) || !subsequence(d.substr(m.pre.size()), m.tried)) fail("file-content", "%s: %s holds bytes that were never written there in this order", when, m.path.c_str());
  if (!ends(d.substr(m.pre.size()), m.good)) fail("file-lost", "%s: bytes accepted after the last reported failure are not at the end of %s (%zu bytes, %zu accepted)", when, m.path.c_str(), d.size(), m.good.size());
}
// content found after the writer died: everything flushed, then a part of what followed
void check_crashed(const FileModel& m) {
  Inode* i = vk_file(m.path);
  if (!i) fail("file-missing", "%s does not exist after the crash", m.path.c_str());
  const string& d = i->data;
  if (!m.lost) {
    if (!starts(d, m.pre + m.flushed)) fail("durability", "after the crash of the writer %s has %zu bytes and misses some of the %zu it held before or that were flushed", m.path.c_str(), d.size(), m.pre.size() + m.flushed.size());
    if (!starts(m.pre + m.tried, d)) fail("file-content", "after the crash of the writer %s holds bytes that were never written (%zu bytes, %zu offered)", m.path.c_str(), d.size(), m.pre.size() + m.tried.size());
    if (!m.flushed.empty()) probe("crash.after_flush");
  } else if (!starts(d, m.pre) || !subsequence(d.substr(m.pre.size()), m.tried)) fail("file-content", "after the crash of the writer %s holds bytes that were never written there in this order", m.path.c_str());
}
void file_faults(bool writes) {
  if (gencoin(1, 2)) { enable_fault("file.short_write", 1, 3); }
  if (writes && gencoin(1, 2)) { enable_fault("file.eio", 1, 5); enable_fault("file.enospc", 1, 5); }
  if (writes && gencoin(1, 4)) vk_disk_free = gen(6000);
  if (writes && gencoin(1, 3)) enable_fault("file.close", 1, 3);
  if (writes && gencoin(1, 2)) { enable_fault("open.emfile", 1, 6); enable_fault("open.enospc", 1, 6); enable_fault("open.eacces", 1, 6); enable_fault("open.eintr", 1, 6); enable_fault("fdopen", 1, 6); }
  set_fault_budget(1 + gen(8));
}
// faults that make something fail (a short write does not)
int hard_faults() {
  int n = 0;
  for (const char* k : {"file.eio", "file.enospc", "file.close", "open.emfile", "open.enospc", "open.eacces", "open.eintr", "fdopen", "disk.full"}) n += fault_fired(k);
  return n;
}

struct FileUser {
  ecl::OFile* f = nullptr;
  FileModel m;
  const char* paths[2] = {"/tmp/sim/a.log", "/tmp/sim/b.log"};
  int r = 0; ecl::ErrorFlag fl = ecl::NoError; bool ok = false; int h0 = 0;
  void begin() { NP; h0 = hard_faults(); ok = false; }
  bool faulted() { return hard_faults() > h0; }
  bool failed() { return r || !ok; }
  void verdict(const char* op) {   // a failure needs a cause, and error() tells the last operation
    if (r == 2) fail("op-threw", "%s ran out of memory", op);
    if (failed() && !faulted()) fail("spurious-failure", "%s reported a failure (flag %d) although the system refused nothing", op, (int)fl);
    if (!r && f) {
      if (ok && f->error().flag() != ecl::NoError) fail("error-flag", "error() is %d after a successful %s", (int)f->error().flag(), op);
      if (!ok && f->error().flag() == ecl::NoError) fail("error-flag", "error() is NoError after a failed %s", op);
    }
  }
  void now_closed(const char* op) {
    if (f && f->open()) fail("open-after-close", "open() is true after %s", op);
    m.open = false;
  }
  void opened(const string& path, ecl::WriteMode mode, const string& old, bool existed) {
    m = FileModel();
    m.path = path;
    m.pre = mode == ecl::Append && existed ? old : "";
    m.open = true;
    if (f && !f->open()) fail("not-open", "open() is false after the file was opened");
  }
  void do_open(bool ctor) {
    string path; ecl::WriteMode mode; bool missing; string old; bool existed; string was; int fds0;
    {
      NP; missing = gencoin(1, 8); path = missing ? "/tmp/sim/missing/x.log" : paths[gen(2)]; mode = gencoin(1, 2) ? ecl::New : ecl::Append;
      if (m.open && path == m.path) path = paths[path == paths[0]];   // the same file through the same object: a new one
      log("%s %s %s", ctor ? "construct" : "open", path.c_str(), mode == ecl::New ? "New" : "Append");
      Inode* i = vk_file(path); existed = i; if (i) old = i->data;
      fds0 = vk_open_fds();
    }
    bool had = m.open;
    begin();
    if (ctor) { TRY(r, fl, f = new ecl::OFile(path, mode)); ok = !r && (exceptions_on || f->open()); }
    else TRY(r, fl, ok = f->open(path, mode));
    NP;
    log("-> %d r=%d", ok, r);
    // opening ends the use of a file that was open before; a loss it met on the way is a reported failure
    if (had) {
      bool reported = failed();
      if (reported) { m.lost = true; m.good.clear(); }
      if (vk_file(m.path) && !(failed() && f->open())) check_content(m, "after the object was opened on another file");
    }
    if (missing) { if (!failed()) fail("open-failure-unreported", "opening a file in a missing directory succeeded"); }
    else verdict("open");
    if (failed()) {
      if (f && f->open() && !had) fail("open-after-failure", "open() is true after a failed open");
      if (f && !f->open()) m.open = false;
      if (!f) m.open = false;
      if (vk_open_fds() > (had ? fds0 : 0)) fail("fd-leak", "a failed open left descriptors behind: %s", vk_describe_fds().c_str());
      if (had && f && f->open()) { f = nullptr; finish_run(); }
    } else {
      opened(path, mode, old, existed);
      if (vk_open_fds() != 1) fail("fd-leak", "after opening, the object holds: %s", vk_describe_fds().c_str());
      Inode* i = vk_file(path);
      if (!i || i->data != m.pre) fail("open-content", "%s holds %zu bytes right after it was opened in %s mode (it held %zu before)", path.c_str(), i ? i->data.size() : 0, mode == ecl::New ? "New" : "Append", old.size());
    }
  }
  void do_write() {
    string s; int how;
    { NP; how = gen(3); s = bytes(how == 0 ? 1 : pick_len()); log("write %zu", s.size()); m.tried += m.open ? s : ""; }
    long n = 0;
    begin();
    if (how == 0) { char c = s[0]; TRY(r, fl, n = f->write(c)); }
    else if (how == 1) TRY(r, fl, n = f->write(s.data(), s.size()));
    else { ecl::OFile& o = *f; std::vector<char> v; { NP; v.assign(s.begin(), s.end()); } TRY(r, fl, n = o.write(v)); NP; std::vector<char>().swap(v); }
    NP;
    ok = !r && n == (long)s.size();
    if (!r && !ok && n != -1) fail("write-count", "write() of %zu bytes returned %ld", s.size(), n);
    if (!m.open) {
      if (!failed() && s.size()) fail("write-unopened", "write() on a file that is not open reported success");
      if (s.size() && !r && f->error().flag() == ecl::NoError) fail("error-flag", "error() is NoError after a write on a file that is not open");
      return;
    }
    if (failed()) { m.lost = true; m.good.clear(); } else m.good += s;
    verdict("write()");
  }
  void do_flush() {
    { NP; log("flush"); }
    begin();
    TRY(r, fl, ok = f->flush());
    NP;
    if (!m.open) {
      if (!failed()) fail("flush-unopened", "flush() on a file that is not open reported success");
      return;
    }
    verdict("flush()");
    if (failed()) { m.lost = true; m.good.clear(); }
    else { check_content(m, "after flush()"); m.flushed = m.tried; probe("flush.checked"); nontrivial(); }
  }
  void do_close() {
    { NP; log("close"); }
    begin();
    TRY(r, fl, ok = f->close());
    NP;
    bool was = m.open;
    if (failed()) { m.lost = true; m.good.clear(); }
    verdict("close()");
    now_closed("close()");
    if (was) check_content(m, "after close()");
    if (vk_open_fds()) fail("fd-leak", "after close() the process still holds %s", vk_describe_fds().c_str());
    nontrivial();
  }
  void do_destroy() {
    { NP; log("destroy"); }
    begin();
    ecl::OFile* g = f;
    { NP; f = nullptr; }
    delete g;
    NP;
    if (faulted()) { m.lost = true; m.good.clear(); }         // a destructor cannot report
    if (m.open) check_content(m, "after destruction");
    m.open = false;
    if (vk_open_fds() || vk_open_streams()) fail("fd-leak", "after destruction the process still holds %s", vk_describe_fds().c_str());
    nontrivial();
  }
  void run(int n, bool end) {
    for (int k = 0; k < n; k++) {
      if (!f) {
        if (gencoin(1, 2)) do_open(true);
        else { f = new ecl::OFile(); NP; if (f->open()) fail("not-open", "a fresh object is open"); }
        continue;
      }
      int op; { NP; op = gen_weighted({5, 2, 2, 1, 1}); }
      if (op == 0) do_write(); else if (op == 1) do_flush(); else if (op == 2) do_open(false); else if (op == 3) do_close(); else do_destroy();
    }
    if (end && f) do_destroy();
  }
};
}
// one user, any sequence of operations
SCENARIO(ofile_ops, "C12") {
  FileUser* u; int n; size_t base;
  { NP; u = new FileUser; n = 2 + gen(14); if (gencoin(1, 2)) vk_make_file(u->paths[0], bytes(gen(60))); if (gencoin(1, 3)) vk_bystander(); if (faulty()) file_faults(true); base = live_allocs(); }
  u->run(n, true);
  NP;
  if (vk_open_fds() || vk_open_streams()) fail("fd-leak", "at the end the process still holds %s", vk_describe_fds().c_str());
  if (live_allocs() != base) fail("leak", "%zu heap blocks left behind", live_allocs() - base);
}
// the process of the writer dies at an arbitrary point
SCENARIO(ofile_crash, "C12") {
  FileUser* u; int n, p, id; u64 when;
  { NP; u = new FileUser; n = 4 + gen(14); if (gencoin(1, 2)) vk_make_file(u->paths[0], bytes(gen(60))); if (faulty()) file_faults(gencoin(1, 2)); p = new_proc("writer"); when = gen(400) * 100; }
  { NP; id = spawn("writer", [=] { u->run(n, false); }, p); after(when, [=] { if (proc_alive(p)) { note_fault("process.crash"); kill_proc(p); } }); }
  { NP; wait("crash", [=] { return !proc_alive(p) || finished(id); }); if (proc_alive(p)) { note_fault("process.crash"); kill_proc(p); } }
  NP;
  if (u->m.open) { check_crashed(u->m); nontrivial(); }
}
// several threads share one object: writes appear whole, in each thread's order
SCENARIO(ofile_threads, "C12") {
  ecl::OFile* f; int nt; string pre; bool app; std::vector<int>* ids; std::vector<std::vector<string>>* wr;
  {
    NP; allow_races();   // one object in several threads: its error flag is theirs to protect
    nt = 2 + gen(3); app = gencoin(1, 2); ids = new std::vector<int>; wr = new std::vector<std::vector<string>>(nt);
    if (gencoin(1, 2)) { pre = bytes(gen(30)); vk_make_file("/tmp/sim/a.log", pre); }
    if (!app) pre.clear();
    if (faulty()) { enable_fault("file.short_write", 1, 3); set_fault_budget(1 + gen(10)); }
  }
  f = new ecl::OFile("/tmp/sim/a.log", app ? ecl::Append : ecl::New);
  for (int t = 0; t < nt; t++) {
    int id; NP;
    id = spawn("writer", [=] {
      int n; { NP; n = 1 + gen(5); }
      for (int k = 0; k < n; k++) {
        string s; bool fl;
        { NP; int len = gen(3) ? gen(30) : gen(600); s = string(1, (char)('A' + t)) + string(1, (char)('0' + k)); s += (char)(len / 250 + 1); s += (char)(len % 250 + 1); for (int i = 0; i < len; i++) s += (char)((i * 7 + k * 31 + t) & 0xff); (*wr)[t].push_back(s); fl = gencoin(1, 4); }
        long w = f->write(s.data(), s.size());
        { NP; if (w != (long)s.size()) fail("write-count", "write() of %zu bytes returned %ld", s.size(), w); }
        if (fl) { bool o = f->flush(); NP; if (!o) fail("spurious-failure", "flush() failed"); }
      }
    });
    ids->push_back(id);
  }
  for (int id : *ids) { NP; join_fiber(id); }
  bool how; { NP; how = gencoin(1, 2); }
  if (how) { bool o = f->close(); NP; if (!o) fail("spurious-failure", "close() failed"); }
  delete f;
  NP;
  nontrivial();
  const string& d = vk_file("/tmp/sim/a.log")->data;
  if (!starts(d, pre)) fail("file-content", "the content from before is gone");
  std::vector<size_t> next(nt, 0);
  size_t at = pre.size();
  while (at < d.size()) {
    int t = d[at] - 'A';
    if (t < 0 || t >= nt || next[t] >= (*wr)[t].size()) fail("file-content", "at byte %zu no writer's next record starts: %s", at, show(d.substr(at)).c_str());
    const string& s = (*wr)[t][next[t]++];
    if (d.compare(at, s.size(), s)) fail("torn-write", "record %zu of thread %d is not whole at byte %zu", next[t] - 1, t, at);
    at += s.size();
  }
  for (int t = 0; t < nt; t++) if (next[t] != (*wr)[t].size()) fail("file-lost", "%zu of the %zu records of thread %d are in the file", next[t], (*wr)[t].size(), t);
}
// two objects, possibly of two processes, append to one file: neither overwrites the other
SCENARIO(ofile_append, "C12") {
  string* w; std::vector<int>* ids; string pre;
  { NP; w = new string[2]; ids = new std::vector<int>; if (gencoin(1, 2)) { pre = bytes(gen(30)); vk_make_file("/tmp/sim/a.log", pre); } if (faulty()) { enable_fault("file.short_write", 1, 3); set_fault_budget(1 + gen(10)); } }
  for (int t = 0; t < 2; t++) {
    NP; int p = gencoin(1, 2) ? 0 : new_proc("P");
    ids->push_back(spawn("appender", [=] {
      int n; { NP; n = 1 + gen(5); }
      ecl::OFile* f = new ecl::OFile("/tmp/sim/a.log", ecl::Append);
      for (int k = 0; k < n; k++) {
        string s; bool fl; { NP; s = bytes(gen(3) ? gen(40) : gen(5000), t); fl = gencoin(1, 2); w[t] += s; }
        f->write(s.data(), s.size());
        if (fl) f->flush();
      }
      delete f;
    }, p));
  }
  for (int id : *ids) { NP; join_fiber(id); }
  NP;
  nontrivial();
  const string& d = vk_file("/tmp/sim/a.log")->data;
  if (!starts(d, pre)) fail("file-content", "the content from before is gone");
  string got[2];
  for (size_t i = pre.size(); i < d.size(); i++) got[((unsigned char)d[i]) >> 7] += d[i];
  for (int t = 0; t < 2; t++) if (got[t] != w[t]) fail("append-lost", "writer %d appended %zu bytes, %zu of them are in the file", t, w[t].size(), got[t].size());
}

// ------------------------------------------------------------------------------------------ C13
// Several objects share one file by name.  Object k writes bytes with k in the top three bits, so every
// byte in the file names its writer.
namespace {
struct ShObj {
  int id; ecl::SharedFile* f = nullptr; string path; bool open = false;
  string out;                                   // every byte offered, all accepted unless failed
  std::vector<std::pair<size_t, size_t>> batch; // [from, to) of out: flushed in one go
  size_t from = 0; bool failed = false;
};
struct ShWorld {
  std::vector<ShObj*> objs; std::map<string, int> sharers; bool wfaults = false;
  std::map<string, string> pre; std::map<string, int> busy; std::map<string, int> changes;
};
ShWorld* SW;
const char* const SP[2] = {"/tmp/sim/log", "/tmp/sim/other"};
const size_t SHBUF = ecl::devices::CharBuffer::buffer_size;

ShObj* sh_new() { ShObj* o = new ShObj; o->id = SW->objs.size(); SW->objs.push_back(o); return o; }
void sh_close_batch(ShObj* o) { if (o->out.size() > o->from && o->out.size() - o->from <= SHBUF) o->batch.push_back({o->from, o->out.size()}); o->from = o->out.size(); }
int sh_hard() { return hard_faults(); }
// construct or open; false when it failed
bool sh_open(ShObj* o, const char* path, ecl::WriteMode mode, bool ctor) {
  int r; ecl::ErrorFlag fl; bool ok = false; int f0, c0, n0;
  { NP; f0 = my_faults(); log("%s %d on %s %s", ctor ? "construct" : "open", o->id, path, mode == ecl::New ? "New" : "Append"); SW->busy[path]++; SW->changes[path]++; }
  if (ctor) { TRY(r, fl, o->f = new ecl::SharedFile(path, mode)); ok = !r && (exceptions_on || o->f->open()); }
  else { o->f = new ecl::SharedFile(); bool was = o->f->open(); { NP; if (was) fail("not-open", "a fresh object is open"); } TRY(r, fl, ok = o->f->open(path, mode)); }
  bool st = o->f ? o->f->open() : false;
  { NP; c0 = SW->changes[path]; n0 = SW->sharers[path]; }
  unsigned cnt = ok && !r && o->f ? o->f->count() : 1;
  NP;
  SW->busy[path]--; SW->changes[path]++;
  bool bad = r || !ok, faulted = my_faults() > f0;
  log("-> %s", bad ? "failed" : "open");
  if (bad && !faulted) fail("spurious-failure", "opening failed (flag %d) although the system refused nothing", (int)fl);
  if (!bad && faulted) { /* retried */ }
  if (bad && st) fail("open-after-failure", "open() is true after a failed open");
  if (!bad && !st) fail("not-open", "open() is false after the file was opened");
  if (bad) return false;
  o->path = path; o->open = true;
  SW->sharers[path]++;
  if (SW->busy[path] == 0 && c0 + 1 == SW->changes[path] && n0 + 1 != (int)cnt) fail("share-count", "count() is %u, %d objects share the file", cnt, n0 + 1);
  if (SW->sharers[path] > 1) { nontrivial(); probe("shared"); }
  return true;
}
void sh_write(ShObj* o, int n) {
  string s; bool ch;
  { NP; ch = gencoin(1, 4); s = bytes(ch ? 1 : n); for (char& c : s) c = (c & 0x1f) | (o->id << 5); log("write %d: %zu", o->id, s.size()); o->out += s; }
  long w = 0; int r; ecl::ErrorFlag fl; int f0; { NP; f0 = sh_hard(); }
  if (ch) { char c = s[0]; TRY(r, fl, w = o->f->write(c)); } else TRY(r, fl, w = o->f->write(s.data(), s.size()));
  NP;
  bool bad = r || w != (long)s.size();
  if (!r && bad && w != -1) fail("write-count", "write() of %zu bytes returned %ld", s.size(), w);
  if (bad && sh_hard() == f0) fail("spurious-failure", "write() failed (flag %d) although the system refused nothing", (int)fl);
  if (!r && bad && o->f->error().flag() == ecl::NoError) fail("error-flag", "error() of object %d is NoError after its write failed", o->id);
  if (bad) o->failed = true;
}
void sh_flush(ShObj* o) {
  bool ok = false; int r; ecl::ErrorFlag fl; int f0; { NP; f0 = sh_hard(); log("flush %d", o->id); }
  TRY(r, fl, ok = o->f->flush());
  yield_point("after the flush");
  ecl::ErrorFlag e = o->f->error().flag();
  NP;
  if ((r || !ok) && sh_hard() == f0) fail("spurious-failure", "flush() failed (flag %d) although the system refused nothing", (int)fl);
  if (!r && ok != (e == ecl::NoError)) fail("error-flag", "error() of object %d is %d after its flush %s", o->id, (int)e, ok ? "succeeded" : "failed");
  if (r || !ok) o->failed = true;
  sh_close_batch(o);
}
void sh_destroy(ShObj* o) {
  ecl::SharedFile* f;
  { NP; log("destroy %d", o->id); if (o->open) { SW->busy[o->path]++; SW->changes[o->path]++; } f = o->f; o->f = nullptr; }
  delete f;
  NP;
  if (o->open) { SW->busy[o->path]--; SW->changes[o->path]++; SW->sharers[o->path]--; sh_close_batch(o); o->open = false; }
}
void sh_check(const char* path) {
  Inode* i = vk_file(path);
  const string& pre = SW->pre[path];
  bool any = false;
  for (ShObj* o : SW->objs) any |= o->path == path && o->out.size();
  if (!i) { if (any) fail("file-missing", "%s does not exist", path); return; }
  if (!(i->mode & 0400)) fail("unreadable", "the permissions %03o of %s do not let its owner read it", i->mode, path);
  const string& d = i->data;
  if (!starts(d, pre)) fail("file-content", "the content %s had before is gone", path);
  string got[8]; std::vector<size_t> where[8];
  for (size_t k = pre.size(); k < d.size(); k++) { int w = (unsigned char)d[k] >> 5; got[w] += d[k]; where[w].push_back(k); }
  for (int w = 0; w < 8; w++) {
    ShObj* o = w < (int)SW->objs.size() && SW->objs[w]->path == path ? SW->objs[w] : nullptr;
    if (!o) { if (got[w].size()) fail("file-content", "%s holds bytes nobody wrote to it", path); continue; }
    if (SW->wfaults) { if (!subsequence(got[w], o->out)) fail("file-content", "object %d: bytes appear twice or out of order in %s", w, path); continue; }
    if (got[w] != o->out) fail(got[w].size() < o->out.size() ? "file-lost" : "file-content", "object %d wrote %zu bytes to %s, %zu of them are in the file after everybody is gone", w, o->out.size(), path, got[w].size());
    for (auto& b : o->batch) if (where[w][b.second - 1] - where[w][b.first] != b.second - 1 - b.first) fail("tangled", "%zu bytes object %d flushed together are torn apart in %s", b.second - b.first, w, path);
  }
}
}
SCENARIO(shared_file, "C13") {
  int nt, mode; bool anchor; std::vector<int>* ids; ShObj* an = nullptr; size_t base;
  {
    NP; SW = new ShWorld; ids = new std::vector<int>; nt = 1 + gen(4); anchor = gencoin(1, 2); mode = anchor && gencoin(1, 2) ? ecl::New : ecl::Append;
    for (const char* p : SP) if (gencoin(1, 2)) { string s = bytes(gen(30)); vk_make_file(p, s); if (mode == ecl::Append) SW->pre[p] = s; }
    if (faulty()) {
      int k = gen(3);
      if (k != 1) { enable_fault("open.emfile", 1, 4); enable_fault("open.eacces", 1, 4); enable_fault("fdopen", 1, 4); }
      if (k != 0) { SW->wfaults = true; enable_fault("file.eio", 1, 3); enable_fault("file.enospc", 1, 3); if (gencoin(1, 4)) vk_disk_free = gen(6000); }
      if (gencoin(1, 2)) enable_fault("file.short_write", 1, 3);
      set_fault_budget(1 + gen(6));
    }
    base = live_allocs();
  }
  if (anchor) { { NP; an = sh_new(); } bool ok = sh_open(an, SP[0], (ecl::WriteMode)mode, true); if (!ok) { NP; an->f = nullptr; anchor = false; mode = ecl::Append; for (const char* p : SP) if (Inode* i = vk_file(p)) SW->pre[p] = i->data; } }
  for (int t = 0; t < nt; t++) {
    int id; NP;
    id = spawn("sharer", [=] {
      int n; { NP; n = 1 + gen(2); }
      for (int k = 0; k < n; k++) {
        ShObj* o; const char* p; bool ctor; int ops;
        { NP; if (SW->objs.size() >= 8) return; o = sh_new(); p = anchor && mode == ecl::New ? SP[0] : SP[gen(4) == 0]; ctor = gencoin(1, 2); ops = gen(6); }
        if (sh_open(o, p, (ecl::WriteMode)mode, ctor)) {
          for (int j = 0; j < ops; j++) {
            int w, len; { NP; w = gen(3); len = gen(5) ? (gen(2) ? gen(60) : 1 + gen(3)) : 4000 + gen(300); }
            if (w == 0) sh_flush(o); else sh_write(o, len);
          }
        }
        if (o->f) sh_destroy(o);
      }
    });
    ids->push_back(id);
  }
  if (anchor) { int n; { NP; n = gen(4); } for (int j = 0; j < n; j++) { int len; { NP; len = gen(50); } sh_write(an, len); } }
  for (int id : *ids) { NP; join_fiber(id); }
  if (anchor) {
    unsigned c = an->f->count();
    { NP; if (c != 1) fail("share-count", "count() is %u, one object shares the file", c); }
    sh_destroy(an);
  }
  { NP; nontrivial(); for (const char* p : SP) if (mode == ecl::Append || p == SP[0]) sh_check(p); if (vk_open_fds() || vk_open_streams()) fail("fd-leak", "after everybody is gone the process still holds %s", vk_describe_fds().c_str()); disable_faults(); vk_disk_free = -1; }
  // the name is free again
  ecl::SharedFile* f = new ecl::SharedFile(SP[0], ecl::Append);
  unsigned c = f->count(); bool op = f->open();
  { NP; if (c != 1 || !op) fail("share-count", "a first user finds count() %u and open() %d", c, op); }
  delete f;
  NP;
  if (vk_open_fds()) fail("fd-leak", "at the end the process still holds %s", vk_describe_fds().c_str());
  if (live_allocs() > base + 8) fail("leak", "%zu heap blocks left behind", live_allocs() - base);
}
// one object, any sequence of operations
SCENARIO(shared_file_ops, "C13") {
  ShObj* o; int n; size_t base;
  { NP; SW = new ShWorld; SW->wfaults = true; o = nullptr; n = 2 + gen(10); if (faulty()) file_faults(gencoin(1, 2)); base = live_allocs(); }
  ecl::SharedFile* f = nullptr; FileModel* m; { NP; m = new FileModel; }
  bool ok = false; int r = 0; ecl::ErrorFlag fl = ecl::NoError; int h0 = 0;
  for (int k = 0; k < n; k++) {
    int op; { NP; op = f ? gen_weighted({5, 2, 2, 1, 1}) : gen(2) ? 6 : 5; h0 = hard_faults(); ok = false; log("op %d", op); }
    if (op == 0) {
      string s; { NP; s = bytes(pick_len()); m->tried += m->open ? s : ""; }
      long w = 0; TRY(r, fl, w = f->write(s.data(), s.size()));
      NP; ok = !r && w == (long)s.size();
      if (m->open && !ok) m->lost = true;
      if (!m->open && ok && s.size() >= SHBUF) fail("write-unopened", "%zu bytes vanished in an object that is not open", s.size());
      if (m->open && !ok && hard_faults() == h0) fail("spurious-failure", "write() failed (flag %d)", (int)fl);
    } else if (op == 1) {
      TRY(r, fl, ok = f->flush());
      NP; ok &= !r;
      if (m->open && !ok) m->lost = true;
      if (!m->open && ok) fail("flush-unopened", "flush() on an object that is not open reported success");
      if (m->open && !ok && hard_faults() == h0) fail("spurious-failure", "flush() failed (flag %d)", (int)fl);
      if (m->open && !r && ok != (f->error().flag() == ecl::NoError)) fail("error-flag", "error() is %d after a flush that %s", (int)f->error().flag(), ok ? "succeeded" : "failed");
    } else if (op == 2 || op == 5) {
      const char* p; bool miss; FileModel old; string had; ecl::WriteMode mode;
      { NP; old = *m; p = SP[gen(2)]; if (m->open && m->path == p) p = SP[p == SP[0]]; miss = gencoin(1, 6); if (miss) p = "/tmp/sim/missing/log"; mode = gencoin(1, 2) ? ecl::New : ecl::Append; if (Inode* i = vk_file(p)) had = i->data; }
      if (op == 5) { TRY(r, fl, f = new ecl::SharedFile(p, mode)); ok = !r && (exceptions_on || f->open()); }
      else TRY(r, fl, ok = f->open(p, mode));
      bool st = f && f->open();
      NP; ok &= !r;
      if (!ok && !miss && hard_faults() == h0) fail("spurious-failure", "opening failed (flag %d)", (int)fl);
      if (ok && miss) fail("open-failure-unreported", "opening a file in a missing directory succeeded");
      if (ok && !st) fail("not-open", "open() is false after opening");
      if (ok || !st) {
        if (old.open) { if (!ok || hard_faults() > h0) old.lost = true; old.good.clear(); check_content(old, "after the object was opened on another file"); }
        *m = FileModel();
        if (ok) { m->path = p; m->open = true; m->pre = mode == ecl::Append ? had : ""; nontrivial(); }
        if (vk_open_fds() != (ok ? 1 : 0)) fail("fd-leak", "after an open that %s the process holds %s", ok ? "succeeded" : "failed", vk_describe_fds().c_str());
      } else m->lost = true;       // stayed on the old file, having reported a failure
    } else if (op == 6) { f = new ecl::SharedFile(); }
    else if (op == 3) {
      unsigned c = f->count(); bool st = f->open();
      NP; if (st != m->open) fail("not-open", "open() is %d", st);
      if (m->open && c != 1) fail("share-count", "count() is %u", c);
    } else {
      delete f; f = nullptr;
      NP; if (hard_faults() > h0) m->lost = true;
      m->good.clear(); if (m->open) check_content(*m, "after destruction");
      m->open = false;
      if (vk_open_fds()) fail("fd-leak", "after destruction the process holds %s", vk_describe_fds().c_str());
    }
  }
  { NP; h0 = hard_faults(); }
  delete f;
  NP;
  if (hard_faults() > h0) m->lost = true;
  m->good.clear();
  if (m->open) check_content(*m, "after destruction");
  if (vk_open_fds() || vk_open_streams()) fail("fd-leak", "at the end the process holds %s", vk_describe_fds().c_str());
  if (live_allocs() != base) fail("leak", "%zu heap blocks left behind", live_allocs() - base);
}
