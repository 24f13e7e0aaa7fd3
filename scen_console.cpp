// C17 consoles and the string device
#include <unistd.h>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/devices/console.hpp>
#include <ecl/devices/string.hpp>

using namespace sim;
using std::string;

namespace {
string bytes(int n, int mark = -1) {   // arbitrary bytes; mark 0..3 fixes the top bits (only mark 0 writes new lines)
  string s(n, 0);
  int style = gen(3);
  u64 x = gen(256);
  for (int i = 0; i < n; i++) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    unsigned char c = style == 0 ? 'a' + (x >> 33) % 26 : style == 1 ? (unsigned char)(x >> 40) : "\0\n\xff\r"[(x >> 40) & 3];
    if (mark >= 0) c = (c & 0x3f) | (mark << 6);
    s[i] = c;
  }
  return s;
}
int pick_len() { switch (gen(6)) { case 0: return 1 + gen(8); case 1: return gen(3); case 2: return 1 + gen(40); case 3: return gen(400); case 4: return 4090 + gen(12); default: return gen(9000); } }
bool subsequence(const string& a, const string& b) { size_t j = 0; for (char c : a) { while (j < b.size() && b[j] != c) j++; if (j++ >= b.size()) return false; } return true; }
bool starts(const string& s, const string& p) { return s.compare(0, p.size(), p) == 0; }
bool ends(const string& s, const string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
string show(const string& s) { string o; char b[8]; for (size_t i = 0; i < s.size() && i < 24; i++) { unsigned char c = s[i]; if (c > 32 && c < 127) o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } return "\"" + o + (s.size() > 24 ? "...\"" : "\""); }

struct TermOut : Ofd {
  string data;
  TermOut() { kind = "terminal"; flags = O_WRONLY; }
  ssize_t write(const void* b, size_t n) override {
    if (n && fault("con.enospc")) { errno = ENOSPC; return -1; }
    if (n && fault("con.eio")) { errno = EIO; return -1; }
    if (n && fault("con.epipe")) { errno = EPIPE; return -1; }
    if (n > 1 && fault("con.short_write")) n = 1 + env(n - 1);
    data.append((const char*)b, n);
    touch();
    return n;
  }
};
struct TermIn : Ofd {
  string data; size_t at = 0; bool eof = true;
  TermIn() { kind = "terminal"; flags = O_RDONLY; }
  ssize_t read(void* b, size_t n) override {
    if (fault("con.read.eintr")) { errno = EINTR; return -1; }
    if (fault("con.read.eio")) { errno = EIO; return -1; }
    WaitOpts w;
    sim::wait("read of the terminal", [this] { return at < data.size() || eof; }, w);
    if (n > data.size() - at) n = data.size() - at;
    if (n > 1 && fault("con.short_read")) n = 1 + env(n - 1);
    memcpy(b, data.data() + at, n);
    at += n;
    return n;
  }
};
int hard_out() { return fault_fired("con.enospc") + fault_fired("con.eio") + fault_fired("con.epipe"); }
int hard_in() { return fault_fired("con.read.eintr") + fault_fired("con.read.eio"); }

// one writer's view of what it put on one stream
struct Writer {
  int mark = 0;
  TermOut* out = nullptr;
  string tried;                // offered
  string good;                 // accepted since the last reported failure
  size_t flushed = 0;          // tried.size() at the last clean explicit flush
  bool lost = false;
  std::vector<std::pair<size_t, size_t>> whole;   // stretches of tried between two flushes, short enough to leave at once
  size_t since = 0;
};
string mine(const string& all, int mark) { if (mark < 0) return all; string s; for (char c : all) if (((unsigned char)c >> 6) == mark) s += c; return s; }
void check_writer(const Writer& w, bool all, const char* when) {
  string d = mine(w.out->data, w.mark);
  if (!w.lost) {
    if (!starts(w.tried, d)) {
      size_t k = 0; while (k < d.size() && k < w.tried.size() && d[k] == w.tried[k]) k++;
      fail("console-content", "%s: the terminal received bytes that differ from what was written at byte %zu: %s instead of %s", when, k, show(d.substr(k)).c_str(), show(w.tried.substr(k)).c_str());
    }
    if (d.size() < w.flushed) fail("console-lost", "%s: only %zu of the %zu flushed bytes reached the terminal", when, d.size(), w.flushed);
    if (all && d.size() != w.tried.size()) fail("console-lost", "%s: %zu of %zu bytes reached the terminal", when, d.size(), w.tried.size());
    if (w.tried.size() - d.size() > 4096) fail("console-backlog", "%s: %zu bytes are held back, more than the buffer's 4095", when, w.tried.size() - d.size());
    return;
  }
  if (!subsequence(d, w.tried)) fail("console-content", "%s: the terminal received bytes that were never written in this order", when);
  if (all && !ends(d, w.good)) fail("console-lost", "%s: bytes accepted after the last reported failure did not reach the terminal", when);
}
template <class C> void write_some(Writer& w, int steps) {
  C* c = nullptr;
  { NP; log("new console"); }
  c = new C;
  if (!c->open()) fail("not-open", "a console must be open from the start");
  bool clean_start = true; (void)clean_start;
  for (int k = 0; k < steps; k++) {
    int op, n; string s; int h0;
    { NP; op = gen_weighted({3, 6, 4}); n = pick_len(); s = bytes(op == 0 ? 1 : n, w.mark); h0 = hard_out(); w.tried += op == 2 ? "" : s; }
    int r; ecl::ErrorFlag fl; long ret = 0; bool flushed = true;
    if (op == 0) { char ch = s[0]; TRY(r, fl, ret = c->write(ch)); }
    else if (op == 1) TRY(r, fl, ret = c->write(s.data(), s.size()));
    else TRY(r, fl, flushed = c->flush());
    NP;
    const char* name = op == 2 ? "flush" : "write";
    ecl::ErrorFlag ef = c->error().flag();
    log("%s %zu -> r=%d ret=%ld error=%d", name, op == 2 ? 0 : s.size(), r, ret, (int)ef);
    bool hurt = hard_out() > h0;
    if (r == 2) fail("op-threw", "%s ran out of memory", name);
    bool failed = r || ef != ecl::NoError;
    if (failed && !hurt) fail("spurious-failure", "%s reported a failure (flag %d) although the system refused nothing", name, (int)(r ? fl : ef));
    if (hurt && !failed) fail("failure-unreported", "the terminal refused data but %s reported success", name);
    if (hurt) {
      if (!g_release && !r) fail("failure-unreported", "the terminal refused data but %s did not throw", name);
      if (r && fl != ecl::WriteError) fail("wrong-flag", "%s failed with flag %d instead of WriteError", name, (int)fl);
      if (!r && op == 2 && flushed) fail("failure-unreported", "the terminal refused data but flush returned true");
      if (!r && op != 2 && ret > 0) fail("failure-unreported", "the terminal refused data but write returned %ld", ret);
      w.lost = true; w.good.clear();
    } else {
      if (op != 2 && ret != (long)s.size()) fail("write-count", "write of %zu bytes returned %ld", s.size(), ret);
      w.good += op == 2 ? "" : s;
      if (op == 2) {
        if (!flushed) fail("spurious-failure", "flush returned false although the system refused nothing");
        if (w.tried.size() - w.since < 4095 && w.tried.size() > w.since) w.whole.push_back({w.since, w.tried.size()});
        w.since = w.flushed = w.tried.size();
        nontrivial();
      }
    }
    check_writer(w, op == 2 && !hurt, name);
    if (hurt && r && op == 1) { w.good.clear(); if (gencoin(1, 2)) break; }
  }
  int r; ecl::ErrorFlag fl; int h0; { NP; h0 = hard_out(); }
  TRY(r, fl, c->flush());
  {
    NP;
    bool hurt = hard_out() > h0;
    if (hurt) { w.lost = true; w.good.clear(); }
    else {
      if (r) fail("spurious-failure", "flush failed although the system refused nothing");
      if (w.tried.size() - w.since < 4095 && w.tried.size() > w.since) w.whole.push_back({w.since, w.tried.size()});
      w.flushed = w.tried.size();
      check_writer(w, true, "after the last flush");
    }
  }
  delete c;
}
// a stretch that one flush wrote must not be torn apart by another writer
void check_whole(const Writer& w, int marks) {   // marks: the writers using the same stream
  if (w.lost || w.mark < 0) return;
  std::vector<size_t> pos;
  size_t i = 0;
  for (char c : w.out->data) { int m = (unsigned char)c >> 6; if (m == w.mark) pos.push_back(i); if (marks >> m & 1) i++; }
  for (auto& p : w.whole) if (p.second <= pos.size() && pos[p.second - 1] - pos[p.first] != p.second - 1 - p.first) fail("console-torn", "the %zu bytes of one flush were mixed with another writer's", p.second - p.first);
}
}  // namespace

// console objects of several threads on one terminal
SCENARIO(console_out, "C17") {
  int nw; std::vector<Writer> ws; std::vector<int> kind, steps; TermOut *o, *e;
  {
    NP;
    o = new TermOut; e = gencoin(1, 3) ? o : new TermOut;
    static const int B[] = {_IOFBF, _IOLBF, _IONBF};
    vk_std_stream(1, o, B[gen(3)]);
    vk_std_stream(2, e, gencoin(1, 2) ? _IONBF : B[gen(3)]);
    nw = faulty() ? 1 : 1 + gen(3);
    if (faulty()) { static const char* K[] = {"con.enospc", "con.eio", "con.epipe"}; for (auto k : K) if (gencoin(1, 2)) enable_fault(k, 1, 3); }
    if (gencoin(1, 2)) enable_fault("con.short_write", 1, 3);
    set_fault_budget(1 + gen(8));
    ws.resize(nw); kind.resize(nw); steps.resize(nw);
    for (int i = 0; i < nw; i++) { kind[i] = gen(2); ws[i].mark = nw == 1 ? -1 : i; ws[i].out = kind[i] ? e : o; steps[i] = 1 + gen(6); }
  }
  std::vector<int> f;
  for (int i = 1; i < nw; i++) { NP; char nm[16]; snprintf(nm, 16, "w%d", i); f.push_back(spawn(nm, [&, i] { if (kind[i]) write_some<ecl::EConsole>(ws[i], steps[i]); else write_some<ecl::OConsole>(ws[i], steps[i]); })); }
  if (kind[0]) write_some<ecl::EConsole>(ws[0], steps[0]); else write_some<ecl::OConsole>(ws[0], steps[0]);
  for (int x : f) join_fiber(x);
  NP;
  size_t total = 0;
  for (int i = 0; i < nw; i++) { int marks = 0; for (int j = 0; j < nw; j++) if (kind[j] == kind[i] && ws[j].mark >= 0) marks |= 1 << ws[j].mark; check_whole(ws[i], marks); }
  for (auto& w : ws) total += w.tried.size();
  if (total > 8190) probe("console.autoflush");
  if (nw > 1) probe("console.several");
  if (live_allocs()) { string s; dump_live_allocs(0, s); fail("leak", "memory is still allocated: %s", s.c_str()); }
}

// characters and lines typed at a terminal, arriving in pieces
SCENARIO(console_in, "C17") {
  TermIn* in; ecl::IConsole* c; string got, text; bool exact = true; int nops;
  {
    NP;
    in = new TermIn;
    int lines = gen(6);
    for (int i = 0; i < lines; i++) { text += bytes(pick_len() % 300); if (gencoin(3, 4)) text += '\n'; }
    in->data = text;
    if (gencoin(1, 2)) {  // typed while the program runs
      in->data.clear(); in->eof = false;
      u64 t = 0; size_t at = 0;
      while (at < text.size()) { size_t n = 1 + gen(text.size() - at); string p = text.substr(at, n); at += n; t += gen(100000); sim::at(now() + t, [in, p] { in->data += p; touch(); }); }
      t += gen(100000);
      sim::at(now() + t, [in] { in->eof = true; touch(); });
    }
    static const int B[] = {_IOFBF, _IOLBF, _IONBF};
    vk_std_stream(0, in, B[gen(3)]);
    if (gencoin(1, 2)) enable_fault("con.short_read", 1, 2);
    if (faulty()) { if (gencoin(1, 2)) enable_fault("con.read.eintr", 1, 4); if (gencoin(1, 2)) enable_fault("con.read.eio", 1, 4); }
    set_fault_budget(1 + gen(8));
    nops = 1 + gen(40);
  }
  c = new ecl::IConsole;
  if (!c->open()) fail("not-open", "a console must be open from the start");
  for (int k = 0; k < nops; k++) {
    bool chr; unsigned long n; int h0;
    { NP; chr = gencoin(1, 3); n = gencoin(1, 3) ? 2 + gen(6) : 2 + gen(400); h0 = hard_in(); }
    int r; ecl::ErrorFlag fl; long ret = 0; char ch = 'x'; char* b = nullptr;
    if (chr) TRY(r, fl, ret = c->read(ch));
    else { b = new char[n]; TRY(r, fl, ret = c->read(b, n)); }
    NP;
    ecl::ErrorFlag ef = c->error().flag();
    bool hurt = hard_in() > h0;
    log("%s -> r=%d ret=%ld error=%d", chr ? "read char" : "read line", r, ret, (int)ef);
    if (r == 2) fail("op-threw", "read ran out of memory");
    bool failed = r || ret <= 0;
    bool at_end = got.size() >= text.size();
    if (failed) {
      if (!hurt && exact && !at_end) fail("spurious-failure", "read reported a failure although %zu bytes of input follow", text.size() - got.size());
      if (r && fl != ecl::ReadError) fail("wrong-flag", "read failed with flag %d instead of ReadError", (int)fl);
      if (ef == ecl::NoError) fail("error-flag", "error() is NoError after a failed read");
      if (hurt) exact = false;
    } else {
      if (ef != ecl::NoError) fail("error-flag", "error() is %d after a successful read", (int)ef);
      if (hurt && !chr) exact = false;      // part of a line
      if (chr && ret != 1) fail("read-count", "read of a character returned %ld", ret);
      string s = chr ? string(1, ch) : string();
      if (!chr) {
        if (ret > (long)n - 1) fail("read-count", "read of at most %lu bytes returned %ld", n - 1, ret);
        s.assign(b, ret);
        if (b[ret] != 0) fail("read-terminator", "what was read is not followed by a null character");
      }
      if (exact) {
        string want = text.substr(got.size(), chr ? 1 : n - 1);
        if (!chr) { size_t e = want.find('\n'); if (e != string::npos) want.resize(e + 1); }
        if (s != want) fail("console-input", "read gave %s (%zu bytes) instead of %s (%zu bytes)", show(s).c_str(), s.size(), show(want).c_str(), want.size());
        nontrivial();
      }
      got += s;
      if (!subsequence(got, text)) fail("console-input", "read gave bytes that were never typed in this order");
    }
    if (b) { g_live = true; delete[] b; g_live = false; }
    if (r || ret <= 0) { if (gencoin(1, 2)) break; }
  }
  delete c;
}

// the string device is an append-only text with a reading position, also when memory runs out
SCENARIO(string_device, "C17") {
  string text; size_t at = 0; ecl::String* d = nullptr; int nops; string init;
  {
    NP;
    if (faulty()) { enable_fault("alloc", 1, 1 + gen(6)); set_fault_budget(1 + gen(6)); }
    init = gencoin(1, 2) ? "" : bytes(gen(300));
    for (char& c : init) if (!c) c = 'z';
    nops = 1 + gen(30);
  }
  int r; ecl::ErrorFlag fl;
  bool dflt; { NP; dflt = init.empty() && gencoin(1, 2); }
  if (dflt) TRY(r, fl, d = new ecl::String); else TRY(r, fl, d = new ecl::String(init.c_str()));
  {
    NP;
    if (r == 2) { if (!fault_fired("alloc")) fail("spurious-failure", "construction ran out of memory"); if (live_allocs()) fail("leak", "a failed construction left memory allocated"); return; }
    text = init;
  }
  for (int k = 0; k < nops; k++) {
    int op; string s; unsigned long n; int h0;
    { NP; op = gen_weighted({5, 5, 4, 4, 3, 2, 1, 1}); n = gencoin(1, 6) ? 250 + gen(12) : gencoin(1, 3) ? gen(700) : gen(20); s = bytes(op == 0 ? 1 : n); h0 = fault_fired("alloc"); log("op %d n=%lu", op, n); }
    long ret = 0; char ch = 0; char* b = nullptr; string got; bool oom_buf = false;
    if (op == 3) { NP; b = (char*)malloc(n + 1); memset(b, 0x55, n + 1); }
    switch (op) {
      case 0: { char c = s[0]; TRY(r, fl, ret = d->write(c)); break; }
      case 1: TRY(r, fl, ret = d->write(s.data(), s.size())); break;
      case 2: TRY(r, fl, ret = d->read(ch)); break;
      case 3: TRY(r, fl, ret = d->read(b, n)); break;
      case 4: { const char* p = nullptr; TRY(r, fl, p = d->c_str()); if (!r) { for (size_t i = 0; i <= text.size(); i++) ch = p[i]; NP; got.assign(p, text.size() + 1); } break; }
      case 5: { TRY(r, fl, { std::string x = d->str(); NP; got.assign(x.data(), x.size()); }); break; }
      case 6: TRY(r, fl, d->clear()); break;
      case 7: TRY(r, fl, d->flush()); break;
    }
    (void)oom_buf;
    NP;
    bool hurt = fault_fired("alloc") > h0;
    if (r == 2 && !hurt) fail("spurious-failure", "operation %d ran out of memory although none was refused", op);
    if (r == 1) fail("op-threw", "operation %d threw flag %d", op, (int)fl);
    if (!r) switch (op) {
      case 0: case 1: if (ret != (long)s.size()) fail("write-count", "write of %zu bytes returned %ld", s.size(), ret); text += s; break;
      case 2: {
        bool any = at < text.size();
        if (ret != (any ? 1 : 0)) fail("read-count", "read of a character with %zu left returned %ld", text.size() - at, ret);
        if (any) { if (ch != text[at]) fail("string-content", "read gave byte %02x instead of %02x", (unsigned char)ch, (unsigned char)text[at]); at++; }
        break;
      }
      case 3: {
        string want = text.substr(at, n);
        if (ret != (long)want.size()) fail("read-count", "read of %lu bytes with %zu left returned %ld", n, text.size() - at, ret);
        if (memcmp(b, want.data(), want.size())) fail("string-content", "read gave other bytes than were written");
        if (b[want.size()] != 0x55) fail("string-content", "read wrote beyond what it returned");
        at += want.size();
        break;
      }
      case 4: if (got != text + '\0') fail("string-content", "c_str() is not the text written"); break;
      case 5: if (got != text) fail("string-content", "str() is not the text written"); break;
      case 6: text.clear(); at = 0; break;
    }
    if (b) free(b);
    nontrivial();
    if (!d->open() || !d->isOpen()) fail("not-open", "a string device must always be open");
    if (d->size() != text.size()) fail("string-size", "size() is %lu, %zu bytes were written%s", d->size(), text.size(), r ? " (after an operation that ran out of memory)" : "");
    if (d->remaining() != text.size() - at) fail("string-size", "remaining() is %lu instead of %zu%s", d->remaining(), text.size() - at, r ? " (after an operation that ran out of memory)" : "");
    size_t blocks = live_allocs();
    if (blocks > 2) { string s2; dump_live_allocs(0, s2); fail("leak", "a string device holds %zu blocks: %s", blocks, s2.c_str()); }
  }
  delete d;
  NP;
  if (live_allocs()) fail("leak", "memory is still allocated after the string device is gone");
}
