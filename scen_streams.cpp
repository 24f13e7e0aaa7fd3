// C21 text output, C22 text input, C23 logging, C24 formatted text
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <math.h>
#include <limits.h>
#include <float.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits>
#include <vector>
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/streams.hpp>
#include <ecl/formatters.hpp>

using namespace sim;
using std::string;

namespace {
string show(const string& s) { string o; char b[8]; for (size_t i = 0; i < s.size() && i < 40; i++) { unsigned char c = s[i]; if (c > 32 && c < 127) o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } return "\"" + o + (s.size() > 40 ? "...\"" : "\""); }
bool subsequence(const string& a, const string& b) { size_t j = 0; for (char c : a) { while (j < b.size() && b[j] != c) j++; if (j++ >= b.size()) return false; } return true; }
bool ends(const string& s, const string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
string words(int n) { string s(n, 0); u64 x = gen(1000); for (auto& c : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = 'a' + (x >> 33) % 26; } return s; }

// ------------------------------------------------------------------------------------------ devices
struct Term : Ofd {
  string data;
  Term() { kind = "terminal"; flags = O_WRONLY; }
  ssize_t write(const void* b, size_t n) override {
    if (n && fault("con.enospc")) { errno = ENOSPC; return -1; }
    if (n && fault("con.eio")) { errno = EIO; return -1; }
    if (n > 1 && fault("con.short_write")) n = 1 + env(n - 1);
    data.append((const char*)b, n);
    touch();
    return n;
  }
};
struct TermIn : Ofd {
  string data; size_t at = 0;
  TermIn() { kind = "terminal"; flags = O_RDONLY; }
  ssize_t read(void* b, size_t n) override {
    if (n > data.size() - at) n = data.size() - at;
    if (n > 1 && fault("con.short_read")) n = 1 + env(n - 1);
    memcpy(b, data.data() + at, n);
    at += n;
    return n;
  }
};
// a device of the user's own: takes part of what it is given, or nothing, or throws
class OddSink {
 public:
  string data;
  OddSink() {}
  bool open() const { return true; }
  long write(const char& c) { return write(&c, 1); }
  long write(const char* s, unsigned long n) {
    NP;
    yield_point("write to a device");
    if (n && fault("dev.refuse")) return gencoin(1, 2) ? -1 : 0;
    if (n && fault("dev.throw")) throw ecl::StandardException(LOC, ecl::WriteError, "refused");
    if (n > 1 && fault("dev.short")) n = 1 + env(n - 1);
    check_range(s, n, false, "device");
    data.append(s, n);
    return n;
  }
  void flush() {}
};
// events: a character, 0 nothing there, -1 failure (-2: by an exception)
class OddSource {
 public:
  std::vector<short> ev; size_t at = 0; bool is_open = true;
  bool open() const { return is_open; }
  long read(char& c) {
    NP;
    yield_point("read from a device");
    if (at >= ev.size()) return 0;
    short e = ev[at++];
    if (e == -2) throw ecl::StandardException(LOC, ecl::ReadError, "refused");
    if (e <= 0) return e;
    c = (char)e;
    return 1;
  }
  long read(char* s, unsigned long n) { (void)n; return read(*s); }
};
}  // namespace
namespace ecl {
template <> class is_sink<OddSink> : public True {};
template <> class is_source<OddSource> : public True {};
}

namespace {
// ------------------------------------------------------------------------------------------ items
enum { CH, CSTR, STR, SHORT, INT, LONG, LLONG, USHORT, UINT, ULONG, ULLONG, BOOL, FLOAT, DOUBLE, ENDL, CLR, NITEM };
const char* INAME[] = {"char", "const char*", "string", "short", "int", "long", "long long", "unsigned short", "unsigned int", "unsigned long", "unsigned long long", "bool", "float", "double", "endl", "clrscr"};
struct Item { int t = 0; string s; unsigned long long u = 0; double d = 0; string text; };
unsigned long long interesting(int bits) {
  unsigned long long one = 1, v;
  switch (gen(7)) {
    case 0: v = gen(12); break;
    case 1: v = ~0ull - gen(3); break;
    case 2: v = (one << (bits - 1)) - gen(3); break;
    case 3: v = (one << (bits - 1)) + gen(3); break;
    case 4: { v = 1; int k = gen(20); for (int i = 0; i < k; i++) v *= 10; v -= gen(3); break; }
    case 5: v = gen(INF); break;
    default: v = gen(INF) >> gen(64); break;
  }
  if (gencoin(1, 3)) v = 0 - v;
  return bits == 64 ? v : v & ((one << bits) - 1);
}
double some_double(bool flt) {
  double d;
  switch (gen(8)) {
    case 0: d = gen(20); break;
    case 1: d = gen(1000000) / 1000.0; break;
    case 2: d = gen(INF) / 3.0; break;
    case 3: d = ldexp((double)(gen(INF) | 1), (int)gen(1900) - 980); break;
    case 4: d = flt ? FLT_MAX : DBL_MAX; break;
    case 5: d = ldexp(1.0 + gen(1000) / 1000.0, 60 + gen(20)); break;   // around 1e21
    case 6: d = gen(2) ? INFINITY : 0.0; break;
    default: d = ldexp((double)gen(INF), -(int)gen(90)); break;
  }
  if (gencoin(1, 3)) d = -d;
  if (flt) { float f = (float)d; d = f; }
  return d;
}
string text_of(const Item& i) {
  char b[400];
  switch (i.t) {
    case CH: case CSTR: case STR: return i.s;
    case SHORT: return std::to_string((short)i.u);
    case INT: return std::to_string((int)i.u);
    case LONG: case LLONG: return std::to_string((long long)i.u);
    case USHORT: return std::to_string((unsigned short)i.u);
    case UINT: return std::to_string((unsigned)i.u);
    case ULONG: case ULLONG: return std::to_string(i.u);
    case BOOL: return i.u ? "true" : "false";
    case ENDL: return "\n";
    case CLR: return string(80, '\n');
    default: snprintf(b, sizeof b, "%f", i.d); return b;
  }
}
int bits_of(int t) { return t == SHORT || t == USHORT ? 16 : t == INT || t == UINT ? 32 : 64; }
Item make_item(int t) {
  Item i; i.t = t;
  if (t == CH) i.s = string(1, gencoin(1, 8) ? '\n' : (char)('!' + gen(90)));
  else if (t == CSTR || t == STR) { i.s = words(gencoin(1, 12) ? 4000 + gen(400) : gencoin(1, 4) ? gen(300) : gen(14)); if (t == STR && i.s.size() && gencoin(1, 6)) i.s[gen(i.s.size())] = 0; }
  else if (t == BOOL) i.u = gen(2);
  else if (t == FLOAT || t == DOUBLE) i.d = some_double(t == FLOAT);
  else if (t < ENDL) i.u = interesting(bits_of(t));
  i.text = text_of(i);
  return i;
}
template <class S> void insert(S& s, const Item& i) {
  switch (i.t) {
    case CH: { char c = i.s[0]; s << c; break; }
    case CSTR: s << i.s.c_str(); break;
    case STR: s << i.s; break;
    case SHORT: s << (short)i.u; break;
    case INT: s << (int)i.u; break;
    case LONG: s << (long)i.u; break;
    case LLONG: s << (long long)i.u; break;
    case USHORT: s << (unsigned short)i.u; break;
    case UINT: s << (unsigned int)i.u; break;
    case ULONG: s << (unsigned long)i.u; break;
    case ULLONG: s << (unsigned long long)i.u; break;
    case BOOL: s << (bool)i.u; break;
    case FLOAT: s << (float)i.d; break;
    case DOUBLE: s << i.d; break;
    case ENDL: s << ecl::endl; break;
    case CLR: s << ecl::clrscr; break;
  }
}
// what one stream owes its user: see check_sink
struct Track { string tried, good; bool lost = false; bool poor = false; };   // poor: built while memory ran out
void check_sink(const Track& t, const string& d, const char* what) {
  if (!t.lost) {
    if (d == t.tried) return;
    size_t k = 0; while (k < d.size() && k < t.tried.size() && d[k] == t.tried[k]) k++;
    fail(d.size() < t.tried.size() && k == d.size() ? "text-lost" : "text-wrong", "%s: the device received %zu characters, %zu were inserted and no failure was reported; at %zu it has %s instead of %s", what, d.size(), t.tried.size(), k, show(d.substr(k)).c_str(), show(t.tried.substr(k)).c_str());
  }
  if (!subsequence(d, t.tried)) fail("text-wrong", "%s: the device received characters that were never inserted in this order", what);
  if (!ends(d, t.good)) fail("text-lost", "%s: text inserted after the last reported failure did not reach the device", what);
}
template <class S> void note(S& s, Track& t, const char* op, const string& text, int r, ecl::ErrorFlag fl, int f0) {
  bool failed = r || s.fail();
  log("%s %s -> r=%d flag=%d fail=%d", op, show(text).c_str(), r, (int)fl, (int)s.fail());
  if (failed && my_faults() == f0 && !t.poor) fail("spurious-failure", "inserting a %s reported a failure (flag %d) although the device refused nothing", op, (int)(r ? fl : s.errorStatus().flag()));
  if (r && !s.fail()) fail("failure-forgotten", "inserting a %s threw, but fail() is false afterwards", op);
  if (failed) { t.lost = true; t.good.clear(); probe("stream.failure"); } else { t.good += text; nontrivial(); }
}
template <class S> void insert_items(S& s, Track& t, int n) {
  for (int k = 0; k < n; k++) {
    Item i[3]; int m, f0; bool fl_only;
    { NP; fl_only = gencoin(1, 8); m = gencoin(1, 5) ? 2 + gen(2) : 1; for (int j = 0; j < m; j++) i[j] = make_item(gen(gen(8) ? ENDL + 1 : NITEM)); f0 = my_faults(); }
    int r; ecl::ErrorFlag fl;
    if (fl_only) { TRY(r, fl, s.flush()); NP; note(s, t, "flush", "", r, fl, f0); continue; }
    if (m == 1) { { NP; t.tried += i[0].text; } TRY(r, fl, insert(s, i[0])); NP; note(s, t, INAME[i[0].t], i[0].text, r, fl, f0); continue; }
    // chained: fail() tells about the last one only
    for (int j = 0; j < m; j++) {
      { NP; t.tried += i[j].text; f0 = my_faults(); }
      TRY(r, fl, insert(s, i[j]));
      { NP; note(s, t, INAME[i[j].t], i[j].text, r, fl, f0); }
    }
  }
}
template <class S> void last_flush(S& s, Track& t) {
  int r; ecl::ErrorFlag fl; int f0; { NP; f0 = my_faults(); }
  TRY(r, fl, s.flush());
  NP; note(s, t, "flush", "", r, fl, f0);
}
enum { K_FILE, K_STRING, K_ODD, K_OUT, K_ERR };
struct Job { int kind, n; string path; Track t; string sink; bool alloc = false; Term* term = nullptr; };
template <class S> S* make(int f0, Track& t) {
  S* s = nullptr; int r; ecl::ErrorFlag fl;
  TRY(r, fl, s = new S);
  NP;
  if (r && my_faults() == f0) fail("spurious-failure", "constructing a stream failed with flag %d", (int)fl);
  t.poor = my_faults() > f0;
  return s;
}
void run_job(Job* j) {
  int f0; { NP; f0 = my_faults(); }
  if (j->kind == K_FILE) {
    ecl::OFileStream* s = nullptr; int r; ecl::ErrorFlag fl; bool ctor; { NP; ctor = gencoin(1, 2); }
    if (ctor) TRY(r, fl, s = new ecl::OFileStream(j->path, ecl::New));
    else { s = make<ecl::OFileStream>(f0, j->t); if (!s) return; TRY(r, fl, s->device().open(j->path, ecl::New)); }
    bool up = !r && s->device().open();
    {
      NP;
      if (ctor) j->t.poor = my_faults() > f0;
      if (!up && my_faults() == f0) fail("spurious-failure", "opening a file stream failed (flag %d)", (int)fl);
      if (ctor && !r && !up && !s->fail()) fail("failure-unreported", "a file stream could not open its file, yet fail() is false");
    }
    if (up) {
      insert_items(*s, j->t, j->n); last_flush(*s, j->t);
      NP;
      // what a failed transfer left in the file's buffer may follow later
      if (Inode* i = vk_file(j->path)) check_sink(j->t, i->data, "file stream");
    }
    delete s;
  } else if (j->kind == K_STRING) {
    ecl::StringStream* s = make<ecl::StringStream>(f0, j->t); if (!s) return;
    insert_items(*s, j->t, j->n); last_flush(*s, j->t);
    { NP; disable_faults(); }
    std::string got = s->str();
    { NP; string g(got.data(), got.size()); check_sink(j->t, g, "string stream"); }
    delete s;
  } else if (j->kind == K_ODD) {
    ecl::TextStream<OddSink>* s = make<ecl::TextStream<OddSink> >(f0, j->t); if (!s) return;
    insert_items(*s, j->t, j->n); last_flush(*s, j->t);
    { NP; check_sink(j->t, s->device().data, "stream on a user's device"); string().swap(s->device().data); }
    delete s;
  } else if (j->kind == K_OUT) {
    ecl::OConsoleStream* s = make<ecl::OConsoleStream>(f0, j->t); if (!s) return;
    insert_items(*s, j->t, j->n); last_flush(*s, j->t);
    { NP; check_sink(j->t, j->term->data, "console stream"); }
    delete s;
  } else {
    ecl::EConsoleStream* s = make<ecl::EConsoleStream>(f0, j->t); if (!s) return;
    insert_items(*s, j->t, j->n); last_flush(*s, j->t);
    { NP; check_sink(j->t, j->term->data, "error console stream"); }
    delete s;
  }
}
}  // namespace

// streams on several devices, used by several threads, each its own
SCENARIO(stream_out, "C21") {
  std::vector<Job>* jobs; int nt; Term *o, *e; std::vector<int> f; bool alloc = false;
  {
    NP;
    jobs = new std::vector<Job>; nt = 1 + gen(3); jobs->resize(nt);
    o = new Term; e = new Term;
    static const int B[] = {_IOFBF, _IOLBF, _IONBF};
    vk_std_stream(1, o, B[gen(3)]); vk_std_stream(2, e, B[gen(3)]);
    bool used[2] = {false, false};
    for (int i = 0; i < nt; i++) {
      Job& j = (*jobs)[i];
      j.kind = gen(5);
      if (j.kind >= K_OUT) { if (used[j.kind - K_OUT]) j.kind = K_ODD; else { used[j.kind - K_OUT] = true; j.term = j.kind == K_OUT ? o : e; } }
      j.n = 1 + gen(8); j.path = "/tmp/sim/o" + std::to_string(i);
    }
    if (gencoin(1, 2)) { enable_fault("con.short_write", 1, 3); enable_fault("file.short_write", 1, 3); enable_fault("dev.short", 1, 2); }
    set_fault_budget(4 + gen(20));
  }
  for (int i = 1; i < nt; i++) { NP; f.push_back(spawn("writer", [=] { run_job(&(*jobs)[i]); })); }
  {
    NP;
    if (faulty()) {
      int k = gen(3); alloc = k == 2;
      if (k != 2) { for (const char* x : {"con.enospc", "con.eio", "file.eio", "file.enospc", "dev.refuse", "dev.throw"}) if (gencoin(1, 2)) enable_fault(x, 1, 5); if (gencoin(1, 3)) enable_fault("open.emfile", 1, 3); }
      else enable_fault("alloc", 1, 1 + gen(12));
      set_fault_budget(1 + gen(8));
    }
  }
  run_job(&(*jobs)[0]);
  for (int x : f) join_fiber(x);
  NP;
  if (nt > 1) probe("stream.several");
  if (vk_open_fds() || vk_open_streams()) fail("fd-leak", "at the end the process still holds %s", vk_describe_fds().c_str());
}

// ------------------------------------------------------------------------------------------ input
namespace {
struct Want { bool fail = false; bool threw = false; ecl::ErrorFlag flag = ecl::NoError; unsigned long long u = 0; double d = 0; string s; bool skip = false; };
// the reference reader over the same events
struct Ref {
  const std::vector<short>* ev; size_t at = 0;
  int get() { if (at >= ev->size()) return 0; return (*ev)[at++]; }   // >0 char, 0 nothing, <0 failure
  Want err(ecl::ErrorFlag f, int e = 0) { Want w; w.fail = true; w.flag = f; w.threw = e == -2; return w; }
  static bool space(int c) { return c == ' ' || c == '\n'; }
  int first() { int c; do c = get(); while (space(c)); return c; }
  Want raw() { int c = get(); if (c <= 0) return err(ecl::ReadError, c); Want w; w.s = string(1, (char)c); return w; }
  Want chr() { int c = first(); if (c <= 0) return err(ecl::ReadError, c); Want w; w.s = string(1, (char)c); return w; }
  Want word() {
    int c = first(); if (c <= 0) return err(ecl::ReadError, c);
    Want w;
    for (;;) { w.s += (char)c; c = get(); if (c < 0) return err(ecl::ReadError, c); if (c == 0 || space(c)) return w; }
  }
  Want boolean() {
    Want w = word(); if (w.fail) return w;
    if (w.s == "true" || w.s == "True" || w.s == "TRUE") w.u = 1;
    else if (w.s == "false" || w.s == "False" || w.s == "FALSE") w.u = 0;
    else return err(ecl::ConversionError);
    return w;
  }
  static int digit(int c, int base) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? 10 + c - 'a' : c >= 'A' && c <= 'F' ? 10 + c - 'A' : 99; return d < base ? d : -1; }
  Want integer(bool sgn, int bits) {
    unsigned long long max = sgn ? (1ull << (bits - 1)) - 1 : bits == 64 ? ~0ull : (1ull << bits) - 1, lim = max;
    int c = first(); bool neg = false, any = false, over = false; int base = 10;
    if (c <= 0) return err(ecl::ReadError, c);
    if (c == '-') { if (!sgn) return err(ecl::ConversionError); neg = true; lim = max + 1; c = get(); if (c <= 0) return err(ecl::ReadError, c); }
    else if (c == '+') { c = get(); if (c <= 0) return err(ecl::ReadError, c); }
    else if (c == '0') { any = true; c = get(); if (c == 'x') { base = 16; any = false; c = get(); } }
    else if (c == 'x') { base = 16; c = get(); }
    unsigned __int128 v = 0;
    while (c > 0 && digit(c, base) >= 0) { any = true; if (!over) v = v * base + digit(c, base); if (v > lim) over = true; c = get(); }
    if (c < 0) return err(ecl::ReadError, c);
    if (!any) return err(base == 16 ? ecl::ReadError : ecl::ConversionError);
    if (over) return err(ecl::OutOfRangeError);
    Want w; w.u = neg ? 0 - (unsigned long long)v : (unsigned long long)v; return w;
  }
  Want real(bool flt) {
    int c = first(); string t; bool any = false; int whole = 0;
    if (c <= 0) return err(ecl::ReadError, c);
    if (c == '-' || c == '+') { t += c; c = get(); if (c <= 0) return err(ecl::ReadError, c); }
    while (c > 0 && digit(c, 10) >= 0) { any = true; t += c; whole++; c = get(); }
    if (c == '.') { t += c; c = get(); while (c > 0 && digit(c, 10) >= 0) { any = true; t += c; c = get(); } }
    if (c < 0) return err(ecl::ReadError, c);
    if (!any) return err(ecl::ConversionError);
    Want w; w.d = strtod(t.c_str(), nullptr); w.skip = whole > (flt ? 36 : 300); return w;
  }
  Want take(int t, bool rawc) {
    switch (t) {
      case CH: return rawc ? raw() : chr();
      case STR: return word();
      case BOOL: return boolean();
      case FLOAT: return real(true);
      case DOUBLE: return real(false);
      case CSTR: return integer(false, 8);      // unsigned char
      default: return integer(t <= LLONG, bits_of(t));
    }
  }
};
string some_token(int t) {
  string s;
  if (t == STR && gencoin(1, 12)) return words(100 + (gencoin(1, 4) ? gen(5000) : gen(500)));
  if (gencoin(1, 60)) s = string(gen(300), gencoin(1, 2) ? ' ' : '\n');   // a long way to the next token
  if (s.size()) return s + std::to_string(gen(100));
  switch (gen(8)) {
    case 0: return make_item(CSTR).s.substr(0, 12);
    case 1: { static const char* J[] = {"-", "0x", "x", "", "0", "00", "-0", "+5", "5.", ".5", ".", "--3", "0xg", "xFf", "0xffff", "12a", "true", "False", "TRUE", "tRue", "1e5", "\t7", "7\t", "7\r", "-x1", "0x80000000", "0,", "007"}; return J[gen(sizeof J / sizeof *J)]; }
    case 2: { // just beyond a limit
      unsigned __int128 v = (unsigned __int128)1 << (t == CSTR ? 8 : bits_of(t)); if (gencoin(1, 2)) v >>= 1; v += gen(3); v -= gen(3);
      do s.insert(s.begin(), '0' + (int)(v % 10)), v /= 10; while (v);
      if (gencoin(1, 2)) s = "-" + s;
      return s;
    }
    case 3: { for (int i = gen(40); i > 0; i--) s += '0' + gen(10); if (gencoin(1, 3)) s.insert(0, string(gen(30), '0')); if (gencoin(1, 3)) { s += '.'; for (int i = gen(40); i > 0; i--) s += '0' + gen(10); } return s; }
    case 4: { char b[40]; snprintf(b, 40, gen(2) ? "0x%llx" : "x%llX", interesting(t == CSTR ? 8 : bits_of(t))); return b; }
    default: return t == CSTR ? std::to_string(gen(256)) : make_item(t).text.substr(0, 60);
  }
}
template <class S> struct Extract {
  S& s; Ref& ref; bool rawc = false, dead = false; const char* what;
  template <class T, class Eq> void one(int t, T old, Eq eq) {
    T v = old; Want w; int r; ecl::ErrorFlag fl; string left;
    { NP; size_t a0 = ref.at; w = ref.take(t, rawc); string c; for (; a0 < ref.at; a0++) { short e = (*ref.ev)[a0]; c += e > 0 ? (char)e : e == 0 ? '~' : '!'; } log("input for %s: %s", t == CSTR ? "unsigned char" : INAME[t], show(c).c_str()); }
    TRY(r, fl, s >> v);
    NP;
    bool f = s.fail();
    log("extract %s -> r=%d fail=%d status=%d", t == CSTR ? "unsigned char" : INAME[t], r, f, (int)s.errorStatus().flag());
    if (r != (w.threw ? 1 : 0)) fail("op-threw", "%s: extraction ended with %d (flag %d)", what, r, (int)fl);
    if (r) { if (t != CH && t != STR && !eq(v, Want(), &old)) fail("argument-changed", "%s: an extraction that threw changed its argument", what); dead = true; return; }
    if (f != w.fail) fail(w.fail ? "failure-unreported" : "spurious-failure", "%s: extracting a %s %s (status %d)", what, t == CSTR ? "unsigned char" : INAME[t], w.fail ? "reported success on unusable input" : "failed on good input", (int)s.errorStatus().flag());
    if (f && s.errorStatus().flag() != w.flag) fail("wrong-flag", "%s: extracting a %s failed with flag %d instead of %d", what, INAME[t], (int)s.errorStatus().flag(), (int)w.flag);
    if (f) { if (t != CH && t != STR && !eq(v, w, &old)) fail("argument-changed", "%s: a failed extraction of a %s changed its argument", what, INAME[t]); probe("extract.failed"); }
    else { if (!w.skip && !eq(v, w, nullptr)) fail("value-wrong", "%s: extracting a %s gave a value other than the text stands for", what, t == CSTR ? "unsigned char" : INAME[t]); nontrivial(); }
  }
  template <class T> void num(int t) { T old; { NP; old = (T)gen(200); } one<T>(t, old, [](T v, const Want& w, T* o) { return o ? v == *o : v == (T)w.u; }); }
  template <class T> void real(int t, double eps) { T old; { NP; old = (T)gen(200); } one<T>(t, old, [=](T v, const Want& w, T* o) { if (o) return v == *o; double x = (T)w.d; return (double)v == x || fabs((double)v - w.d) <= eps * fabs(w.d) + 1e-300; }); }
  void take(int t) {
    switch (t) {
      case CH: one<char>(t, 'q', [](char v, const Want& w, char*) { return w.s.size() && v == w.s[0]; }); break;
      case STR: one<std::string>(t, "", [](const std::string& v, const Want& w, std::string*) { return w.s.size() == v.size() && !memcmp(w.s.data(), v.data(), v.size()); }); break;
      case CSTR: num<unsigned char>(t); break;
      case SHORT: num<short>(t); break;
      case INT: num<int>(t); break;
      case LONG: num<long>(t); break;
      case LLONG: num<long long>(t); break;
      case USHORT: num<unsigned short>(t); break;
      case UINT: num<unsigned int>(t); break;
      case ULONG: num<unsigned long>(t); break;
      case ULLONG: num<unsigned long long>(t); break;
      case BOOL: { bool old; { NP; old = gen(2); } one<bool>(t, old, [](bool v, const Want& w, bool* o) { return o ? v == *o : v == (bool)w.u; }); break; }
      case FLOAT: real<float>(t, 1e-6); break;
      case DOUBLE: real<double>(t, 1e-12); break;
    }
  }
};
std::vector<int> input_plan(string& text, int n) {
  std::vector<int> ask;
  for (int k = 0; k < n; k++) {
    int t = gen(DOUBLE + 1); ask.push_back(t);
    static const char* SEP[] = {" ", "\n", "  ", " \n ", "\n\n", "", ","};
    if (gencoin(1, 6)) text += SEP[gen(7)];
    text += some_token(gencoin(1, 8) ? gen(DOUBLE + 1) : t);
    text += SEP[gencoin(1, 6) ? gen(7) : gen(2)];
  }
  return ask;
}
void read_odd() {
  ecl::TextStream<OddSource>* s = new ecl::TextStream<OddSource>; std::vector<int> ask; std::vector<short> ev; Ref ref;
  {
    NP;
    string text; ask = input_plan(text, 1 + gen(8));
    for (char c : text) {
      ev.push_back(c == 0 ? ' ' : (c & 0x7f));
      if (fault("dev.nothing")) ev.push_back(0);
      if (fault("dev.read_error")) ev.push_back(-1);
      if (fault("dev.read_throw")) ev.push_back(-2);
    }
    ev.push_back(0);
    s->device().ev = ev; ref.ev = &ev;
    for (int k = gen(3); k > 0; k--) ask.push_back(gen(DOUBLE + 1));
  }
  Extract<ecl::TextStream<OddSource> > x{*s, ref, false, false, "scripted device"};
  size_t n; { NP; n = ask.size(); }
  for (size_t k = 0; k < n; k++) {
    int t, rc; { NP; t = ask[k]; rc = gen(8); }
    if (rc == 0) { s->enableRawCharReads(); x.rawc = true; } else if (rc == 1) { s->disableRawCharReads(); x.rawc = false; }
    x.take(t);
  }
  { NP; std::vector<short>().swap(s->device().ev); }
  delete s;
}
}  // namespace

SCENARIO(stream_in, "C22") {
  int nt; std::vector<int> f;
  { NP; nt = 1 + gen(3); if (faulty()) { enable_fault("dev.nothing", 1, 12); enable_fault("dev.read_error", 1, 30); enable_fault("dev.read_throw", 1, 40); set_fault_budget(1 + gen(8)); } }
  for (int i = 1; i < nt; i++) { NP; f.push_back(spawn("reader", read_odd)); }
  read_odd();
  for (int x : f) join_fiber(x);
  if (nt > 1) { NP; probe("extract.several"); }
}
// the library's own devices: a string, a console
SCENARIO(stream_in_devices, "C22") {
  string text; std::vector<int> ask; std::vector<short> ev; Ref ref; bool con; TermIn* in = nullptr;
  {
    NP;
    ask = input_plan(text, 1 + gen(8)); con = gencoin(1, 2);
    for (char& c : text) { if (c == 0) c = ' '; ev.push_back(c); }
    ref.ev = &ev;
    if (con) { in = new TermIn; in->data = text; static const int B[] = {_IOFBF, _IOLBF, _IONBF}; vk_std_stream(0, in, B[gen(3)]); enable_fault("con.short_read", 1, 2); set_fault_budget(10); }
  }
  size_t n; { NP; n = ask.size(); }
  if (con) {
    ecl::IConsoleStream* s = new ecl::IConsoleStream;
    Extract<ecl::IConsoleStream> x{*s, ref, false, false, "console"};
    for (size_t k = 0; k < n; k++) {
      int t; bool enough; { NP; t = ask[k]; Ref probe_ = ref; probe_.take(t, false); enough = probe_.at < ev.size(); }
      if (!enough) break;         // at the end of input a console read fails
      x.take(t);
    }
    delete s;
  } else {
    ecl::StringStream* s = new ecl::StringStream;
    { int r; ecl::ErrorFlag fl; TRY(r, fl, s->device().write(text.data(), text.size())); (void)r; }
    Extract<ecl::StringStream> x{*s, ref, false, false, "string"};
    for (size_t k = 0; k < n; k++) { int t; { NP; t = ask[k]; } x.take(t); }
    delete s;
  }
  NP;
  if (live_allocs()) { string s; dump_live_allocs(0, s); fail("leak", "memory is still allocated: %s", s.c_str()); }
}

// ------------------------------------------------------------------------------------------ both ends of a connection
namespace {
struct Line { int t; Item i; };
struct Talk { std::vector<Item> s[2]; size_t sent[2] = {0, 0}, got[2] = {0, 0}; bool dead = false; };
Talk* TK;
template <class S> bool say(S& s, int me) {     // everything this side has to say
  size_t n; { NP; n = TK->s[me].size(); }
  for (size_t k = 0; k < n; k++) {
    Item* i; int r; ecl::ErrorFlag fl; int f0; bool nl;
    { NP; i = &TK->s[me][k]; f0 = my_faults(); nl = gencoin(1, 4); TK->sent[me]++; }
    if (nl) TRY(r, fl, { insert(s, *i); if (!s.fail()) s << '\n'; }); else TRY(r, fl, { insert(s, *i); if (!s.fail()) s << " "; });
    NP;
    bool bad = r || s.fail();
    if (bad && my_faults() == f0 && !TK->dead && !vk_conn_reset(0) && !vk_conn_reset(1)) fail("spurious-failure", "inserting a %s failed (flag %d) on a healthy connection", INAME[i->t], (int)(r ? fl : s.errorStatus().flag()));
    if (bad) { TK->dead = true; return false; }
  }
  return true;
}
template <class T, class S> int take_num(S& s, unsigned long long& out) { T v = 0; int r; ecl::ErrorFlag fl; TRY(r, fl, s >> v); out = (unsigned long long)v; return r || s.fail(); }
template <class S> bool listen_to(S& s, int me) {
  size_t n; { NP; n = TK->s[1 - me].size(); }
  for (size_t k = 0; k < n; k++) {
    const Item* i; int f0; { NP; i = &TK->s[1 - me][k]; f0 = my_faults(); }
    unsigned long long u = 0; double d = 0; int bad = 0, r; ecl::ErrorFlag fl; bool same;
    switch (i->t) {
      case SHORT: bad = take_num<short>(s, u); same = (short)u == (short)i->u; break;
      case INT: bad = take_num<int>(s, u); same = (int)u == (int)i->u; break;
      case LONG: case LLONG: bad = take_num<long>(s, u); same = u == i->u; break;
      case USHORT: bad = take_num<unsigned short>(s, u); same = u == i->u; break;
      case UINT: bad = take_num<unsigned>(s, u); same = u == i->u; break;
      case ULONG: case ULLONG: bad = take_num<unsigned long long>(s, u); same = u == i->u; break;
      case BOOL: { bool b = false; TRY(r, fl, s >> b); bad = r || s.fail(); same = b == (bool)i->u; break; }
      case DOUBLE: { TRY(r, fl, s >> d); bad = r || s.fail(); NP; same = fabs(d - i->d) <= 1e-6; break; }
      default: { std::string x; TRY(r, fl, s >> x); bad = r || s.fail(); NP; same = x.size() == i->s.size() && !memcmp(x.data(), i->s.data(), x.size()); break; }
    }
    NP;
    if (bad && my_faults() == f0 && !TK->dead && !vk_conn_reset(0) && !vk_conn_reset(1)) fail("spurious-failure", "extracting a %s failed (flag %d) on a healthy connection", INAME[i->t], (int)s.errorStatus().flag());
    if (bad) { TK->dead = true; return false; }
    if (!same) fail("value-wrong", "item %zu, a %s sent as %s, arrived as something else", k, INAME[i->t], show(i->text).c_str());
    TK->got[1 - me]++;
    nontrivial();
  }
  return true;
}
}
SCENARIO(stream_pair, "C22") {
  bool* up; int sid, cid, first;
  {
    NP;
    TK = new Talk; up = new bool(false); first = gen(2);
    vk_net_latency = gencoin(1, 3) ? 40 : 4000;
    static const size_t B[] = {65536, 1, 7, 64, 1000};
    vk_net_buffer = B[gen(5)];
    static const int T[] = {STR, SHORT, INT, LONG, LLONG, USHORT, UINT, ULONG, ULLONG, BOOL, DOUBLE};
    for (auto& v : TK->s) for (int k = gen(8); k >= 0; k--) {
      Item i = make_item(T[gen(11)]);
      if (i.t == STR) { i.s = "s" + i.s.substr(0, 60); for (char& c : i.s) if (!c) c = 'z'; i.text = i.s; }
      if (i.t == DOUBLE) { i.d = (double)(i64)gen(2000000) / 8 - 1000; i.text = text_of(i); }
      v.push_back(i);
    }
    if (faulty()) {
      if (gencoin(1, 2)) enable_fault("sock.eintr", 1, 30);
      if (gencoin(1, 3)) enable_fault("net.stall", 1, 10);
      if (gencoin(1, 4)) { enable_fault("sock.recv.eio", 1, 30); enable_fault("sock.send.eio", 1, 30); }
      if (gencoin(1, 4)) after(gen(3000) * 1000, [] { vk_net_partition((1 + gen(20)) * 1000000); });
      if (gencoin(1, 2)) after(gen(3000) * 1000, [] { TK->dead = true; vk_net_reset(); });
    }
    if (gencoin(1, 2)) enable_fault("sock.short_read", 1, 3);
    set_fault_budget(2 + gen(10));
  }
  { NP; sid = spawn("server", [=] {
      ecl::SocketServerStream* s = new ecl::SocketServerStream(5555);
      { NP; *up = true; touch(); }
      int fd = s->device().listen();
      { NP; if (fd < 0) fail("listen", "listen() returned %d", fd); }
      bool ok = first ? say(*s, 1) && listen_to(*s, 1) : listen_to(*s, 1) && say(*s, 1);
      { NP; if (!ok) TK->dead = true; }
      if (!ok) s->device().close();
      { NP; sleep_ns(50000000); }
      delete s;
    }); }
  { NP; cid = spawn("client", [=] {
      { NP; wait("server up", [=] { return *up && vk_listeners() > 0; }); }
      ecl::SocketClientStream* c = new ecl::SocketClientStream("localhost", 5555);
      bool f = c->fail(); { NP; if (f) fail("spurious-failure", "a client stream could not connect"); }
      bool ok = first ? listen_to(*c, 0) && say(*c, 0) : say(*c, 0) && listen_to(*c, 0);
      { NP; if (!ok) TK->dead = true; }
      if (!ok) c->device().close();
      { NP; sleep_ns(50000000); }
      delete c;
    }); }
  { NP; join_fiber(sid); join_fiber(cid); }
  NP;
  if (!TK->dead) for (int w = 0; w < 2; w++) if (TK->got[w] != TK->s[w].size()) fail("text-lost", "%zu of %zu items arrived", TK->got[w], TK->s[w].size());
  if (vk_open_fds()) fail("fd-leak", "at the end descriptors are still open: %s", vk_describe_fds().c_str());
}

// ------------------------------------------------------------------------------------------ logging
namespace {
struct LogLine { int k; bool stamp, head; string header; i64 t0, t1, m0, m1; string msg; };
struct Logger { int id; std::vector<LogLine> lines; std::vector<std::pair<int, int>> good, open_; size_t bytes = 0; int from = 0; bool lost = false, opened = false; };
void flush_log(ecl::LogStream* s, Logger* g, bool macro) {
  int r; ecl::ErrorFlag fl; int f0; bool en; { NP; f0 = my_faults(); }
  en = s->isEnabled();
  if (macro && !en) { TRY(r, fl, FLUSH((*s))); return; }
  if (macro) TRY(r, fl, FLUSH((*s))); else TRY(r, fl, s->flush());
  NP;
  bool bad = r || s->fail();
  log("w%d flush -> r=%d fail=%d", g->id, r, bad);
  if (bad && my_faults() == f0) fail("spurious-failure", "flushing a log failed (flag %d)", (int)(r ? fl : s->errorStatus().flag()));
  if (bad) g->lost = true; else if ((int)g->lines.size() > g->from) { g->good.push_back({g->from, (int)g->lines.size()}); nontrivial(); }
  g->from = g->lines.size(); g->bytes = 0;
}
void use_log(ecl::LogStream* s, Logger* g, int n) {
  bool stamp = true, head = true, big; { NP; big = gencoin(1, 3); } std::map<int, string> modes;
  for (int k = 0; k < n; k++) {
    int op, mode; string h; { NP; op = gen_weighted({8, 3, 3, 1, 1, 1, 1}); mode = gen(3); h = gencoin(1, 6) ? "" : words(1 + gen(8)); if (k == 0) op = 2; }
    switch (op) {
      case 0: {
        bool on = s->isModeEnabled(mode), any = s->isEnabled(); LogLine l; int z, num; string pad;
        {
          NP;
          if (on != (modes.count(mode) > 0)) fail("mode-wrong", "isModeEnabled(%d) is %d", mode, on);
          if (any != !modes.empty()) fail("mode-wrong", "isEnabled() is %d with %zu modes", any, modes.size());
          l.k = g->lines.size(); l.stamp = stamp; l.head = head; if (on) l.header = modes[mode]; l.t0 = realtime(); l.m0 = now(); z = gen(4); num = gen(1000000);
          l.msg = "<w" + std::to_string(g->id) + "k" + std::to_string(l.k) + "> " + std::to_string(num);
          if (big) { pad = string(gen(900), '.'); l.msg += pad; }
        }
        int r; ecl::ErrorFlag fl; int f0; { NP; f0 = my_faults(); }
        int id = g->id, lk = l.k;
        if (big) TRY(r, fl, { LOG((*s), mode) << "<w" << id << "k" << lk << "> " << num << pad << '\n'; });
        else if (z == 0) TRY(r, fl, { LOG((*s), mode) << "<w" << id << "k" << lk << "> " << num << "\n"; });
        else TRY(r, fl, { LOG((*s), mode) << "<w" << id << "k" << lk << "> " << num << '\n'; });
        NP;
        bool bad = on && (r || s->fail());
        log("w%d log %d mode %d on=%d -> r=%d", g->id, l.k, mode, on, r);
        if (bad && my_faults() == f0) fail("spurious-failure", "logging failed (flag %d)", (int)(r ? fl : s->errorStatus().flag()));
        if (!on) { if (r) fail("op-threw", "logging in a disabled mode threw"); break; }
        l.t1 = realtime(); l.m1 = now();
        if (bad) { g->lost = true; g->from = g->lines.size(); }
        g->lines.push_back(l); g->bytes += 60 + l.header.size() + pad.size();
        break;
      }
      case 1: flush_log(s, g, gencoin(1, 2)); break;
      case 2: s->enableMode(mode, h); { NP; modes[mode] = h; } break;
      case 3: s->disableMode(mode); { NP; modes.erase(mode); } break;
      case 4: { bool b; { NP; b = gen(2); head = b; } if (b) s->enableHeader(); else s->disableHeader(); break; }
      case 5: { bool b; { NP; b = gen(2); stamp = b; } if (b) s->enableTimeStamp(); else s->disableTimeStamp(); break; }
      case 6: { NP; sleep_ns(gen(2) ? gen(100000) : gen(3000000000ull)); break; }
    }
    bool full; { NP; full = g->bytes > 3000; }
    if (full) flush_log(s, g, false);
  }
  flush_log(s, g, false);
}
// the text in front of a message, less the time stamp
string log_prefix(const LogLine& l) { return (l.head ? "[" + l.header + "] " : string()) + (l.head || l.stamp ? ": " : ""); }
void check_log(const string& d, const std::vector<Logger*>& gs, bool any_lost, const string& pre) {
  if (d.compare(0, pre.size(), pre)) fail("log-lost", "what the log held before is gone");
  size_t pos = pre.size(); std::vector<std::vector<size_t>> at(gs.size()), fin(gs.size());
  std::vector<size_t> next(gs.size());
  while (pos < d.size()) {
    size_t e = d.find('\n', pos);
    if (e == string::npos) { if (!any_lost) fail("log-torn", "the log ends in the middle of a line: %s", show(d.substr(pos)).c_str()); break; }
    string line = d.substr(pos, e - pos);
    size_t m = line.rfind("<w"); int w = -1, k = -1; char rest = 0;
    if (m != string::npos) sscanf(line.c_str() + m, "<w%dk%d%c", &w, &k, &rest);
    bool ok = w >= 0 && w < (int)gs.size() && rest == '>' && k >= 0 && k < (int)gs[w]->lines.size() && line.compare(m, string::npos, gs[w]->lines[k].msg) == 0;
    if (ok) {
      const LogLine& l = gs[w]->lines[k];
      string head = line.substr(0, m), p = log_prefix(l);
      ok = ends(head, p);
      if (ok) {
        head.resize(head.size() - p.size());
        if (l.stamp) {
          long s = -1; long ns = -1; int used = 0;
          ok = !head.empty() && head.back() == ' ';
          if (ok && !any_lost) {
            ok = sscanf(head.c_str(), "%ld.%9ld%n", &s, &ns, &used) == 2 && used == (int)head.size() - 1 && head.size() > 10 && head[head.size() - 11] == '.';
            i64 v = (i64)s * 1000000000 + ns;      // the clock of the stamps is not specified
            if (ok && (v < l.t0 || v > l.t1) && (v < l.m0 || v > l.m1)) fail("stamp-wrong", "a line logged between %lld and %lld is stamped %s", (long long)l.m0, (long long)l.m1, head.c_str());
          }
        } else ok = any_lost || head.empty();
      }
      if (ok) {
        if ((size_t)k < next[w]) fail("log-order", "line %d of writer %d is in the log twice or late", k, w);
        next[w] = k + 1;
        if (at[w].size() <= (size_t)k) { at[w].resize(k + 1, string::npos); fin[w].resize(k + 1, 0); }
        at[w][k] = pos; fin[w][k] = e + 1;
      }
    }
    if (!ok && !any_lost) fail("log-torn", "the log holds a line nobody logged: %s", show(line).c_str());
    pos = e + 1;
  }
  for (size_t w = 0; w < gs.size(); w++) for (auto& b : gs[w]->good) for (int k = b.first; k < b.second; k++) {
    if ((size_t)k >= at[w].size() || at[w][k] == string::npos) fail("log-lost", "line %d of writer %zu was flushed without a failure but is not in the log", k, w);
    if (k > b.first && at[w][k] != fin[w][k - 1]) fail("log-torn", "lines %d and %d of writer %zu were flushed together but something was put between them", k - 1, k, w);
  }
}
}
SCENARIO(stream_log, "C23") {
  int nt; std::vector<Logger*>* gs; std::vector<int> f; string pre; ecl::WriteMode mode; bool ctor;
  {
    NP;
    gs = new std::vector<Logger*>; nt = 1 + gen(4); for (int i = 0; i < nt; i++) { gs->push_back(new Logger); gs->back()->id = i; }
    mode = gencoin(1, 2) ? ecl::New : ecl::Append; ctor = gencoin(1, 2);
    if (gencoin(1, 2)) { string s = "before\n"; vk_make_file("/tmp/sim/log", s); if (mode == ecl::Append) pre = s; }
  }
  ecl::LogStream* a = nullptr; int r; ecl::ErrorFlag fl;
  if (ctor) TRY(r, fl, a = new ecl::LogStream("/tmp/sim/log", mode)); else { a = new ecl::LogStream; TRY(r, fl, a->device().open("/tmp/sim/log", mode)); }
  bool up = a && a->device().open();
  { NP; if (r || !up) fail("spurious-failure", "a log could not be opened (flag %d)", (int)fl); }
  for (int i = 1; i < nt; i++) { NP; f.push_back(spawn("logger", [=] {
      Logger* g; int n; bool c2; { NP; g = (*gs)[i]; n = 2 + gen(12); c2 = gencoin(1, 2); }
      ecl::LogStream* s = nullptr; int r; ecl::ErrorFlag fl;
      if (c2) TRY(r, fl, s = new ecl::LogStream("/tmp/sim/log", mode)); else { s = new ecl::LogStream; TRY(r, fl, s->device().open("/tmp/sim/log", mode)); }
      bool up = s && s->device().open();
      { NP; if (r || !up) fail("spurious-failure", "a log in use could not be opened once more (flag %d)", (int)fl); }
      use_log(s, g, n);
      delete s;
    })); }
  { NP; if (faulty()) { enable_fault("file.eio", 1, 4); enable_fault("file.enospc", 1, 4); } if (gencoin(1, 2)) enable_fault("file.short_write", 1, 3); set_fault_budget(1 + gen(6)); }
  int n; { NP; n = 2 + gen(12); }
  use_log(a, (*gs)[0], n);
  for (int x : f) join_fiber(x);
  delete a;
  NP;
  // the shared file writes behind: a failing device may cost lines nobody can be told about any more
  bool lost = fault_fired("file.eio") || fault_fired("file.enospc");
  for (auto g : *gs) { if (g->lost && !lost) fail("spurious-failure", "a log call failed although the file refused nothing"); if (lost) g->good.clear(); }
  Inode* i = vk_file("/tmp/sim/log");
  if (!i) fail("log-lost", "the log does not exist");
  check_log(i->data, *gs, lost, pre);
  if (nt > 1) probe("log.several");
  if (vk_open_fds() || vk_open_streams()) fail("fd-leak", "at the end the process still holds %s", vk_describe_fds().c_str());
}

// ------------------------------------------------------------------------------------------ formatted text
namespace {
struct Fmt { int w = -1; ecl::Alignment a = ecl::NoAlign; int base = 2, prec = 4; };
string padded(const string& s, int w, ecl::Alignment a) {
  int n = w - (int)s.size(); if (n <= 0 || a == ecl::NoAlign) return s;
  if (a == ecl::LeftAlign) return s + string(n, ' ');
  if (a == ecl::RightAlign) return string(n, ' ') + s;
  return string(n / 2 + n % 2, ' ') + s + string(n / 2, ' ');
}
string in_base(unsigned long long u, int bits, bool sgn, int base) {
  if (base == ecl::Dec) { if (!sgn) return std::to_string(u); return std::to_string(bits == 16 ? (long long)(short)u : bits == 32 ? (long long)(int)u : (long long)u); }
  string s;
  if (base == ecl::Hex) { for (int i = bits - 4; i >= 0; i -= 4) s += "0123456789abcdef"[u >> i & 15]; return "0x" + s; }
  for (int i = bits - 1; i >= 0; i--) s += "01"[u >> i & 1];
  return "0b" + s;
}
void set_w(Fmt& f, int w) { f.w = w; if (w > 0 && f.a == ecl::NoAlign) f.a = ecl::RightAlign; }
void set_a(Fmt& f, ecl::Alignment a) { f.a = a; if (a == ecl::NoAlign) f.w = 0; }
ecl::Alignment some_align() { static const ecl::Alignment A[] = {ecl::LeftAlign, ecl::RightAlign, ecl::CentreAlign, ecl::NoAlign}; return A[gen(4)]; }
typedef ecl::TextStream<OddSink> OddStream;
// the text the last insertion put on the device
struct Seen { OddStream& s; size_t from; Seen(OddStream& s_) : s(s_) { from = s.device().data.size(); } string text() { return s.device().data.substr(from); } };
void judge(OddStream& s, size_t from, const string& want, int r, ecl::ErrorFlag fl, int f0, const char* what) {
  string got = s.device().data.substr(from);
  bool bad = r || s.fail();
  log("format %s -> r=%d %s", what, r, show(got).c_str());
  if (bad && my_faults() == f0) fail("spurious-failure", "formatting a %s failed (flag %d)", what, (int)fl);
  if (my_faults() > f0 && got != want && !bad) fail("failure-hidden", "a device refused a part of a formatted %s (%s came out of %s), but no failure shows", what, show(got).c_str(), show(want).c_str());
  if (my_faults() > f0 && got != want.substr(0, got.size())) fail("format-wrong", "a formatted %s on a refusing device came out as %s, which is no beginning of %s", what, show(got).c_str(), show(want).c_str());
  if (my_faults() == f0 && got != want) fail("format-wrong", "a formatted %s came out as %s instead of %s", what, show(got).c_str(), show(want).c_str());
  nontrivial();
}
void recover(OddStream& s) { (void)s; }
bool gencoin8(int) { NP; return gencoin(1, 2); }
// the formatter again, as a copy of it
template <class F> F* renewed(F* f) {
  int how; { NP; how = gen(3); }
  F* g;
  if (how == 0) g = new F(*f); else { g = new F; if (how == 2) { F h(*f); *g = h; } else *g = *f; }
  delete f;
  return g;
}
template <class T> void format_int(OddStream& s, int bits, bool sgn, int n) {
  Fmt m; bool dflt; { NP; dflt = gencoin(1, 2); if (!dflt) { m.w = (int)gen(30) - 1; m.a = some_align(); m.base = gen(3); } }
  ecl::Format<T>* f = dflt ? new ecl::Format<T> : new ecl::Format<T>(m.w, m.a, (ecl::IntegralBase)m.base);
  bool unknown = false;   // whether it still holds a value after a failed insertion is not specified
  for (int k = 0; k < n; k++) {
    int op, w, b; ecl::Alignment a; T v; int f0; size_t from; string want; bool before;
    { NP; op = gen_weighted({6, 3, 1, 1, 1, 2, 1, 2, 2, 1}); w = (int)gen(40) - 1; b = gen(3); a = some_align(); v = (T)interesting(bits); if (unknown && op == 6) op = 0; recover(s); f0 = my_faults(); from = s.device().data.size(); before = gencoin(1, 3); }
    unsigned long long u = (unsigned long long)v; if (bits < 64) u &= (1ull << bits) - 1;
    int r = 0; ecl::ErrorFlag fl = ecl::NoError; { NP; log("op %d w=%d align=%d; now width %d align %d", op, w, (int)a, m.w, (int)m.a); }
    switch (op) {
      case 0: if (before) { (*f)(v); TRY(r, fl, s << *f); } else TRY(r, fl, s << (*f)(v)); { NP; judge(s, from, padded(in_base(u, bits, sgn, m.base), m.w, m.a), r, fl, f0, "number"); } break;
      case 1: TRY(r, fl, s << (*f)(v, w, a, (ecl::IntegralBase)b)); { NP; judge(s, from, padded(in_base(u, bits, sgn, b), w, a), r, fl, f0, "number with parameters of its own"); } break;
      case 2: f->width(w); { NP; set_w(m, w); } break;
      case 3: f->align(a); { NP; set_a(m, a); } break;
      case 4: f->base((ecl::IntegralBase)b); { NP; m.base = b; } break;
      case 5: (*f)(w, a, (ecl::IntegralBase)b); { NP; m.base = b; set_w(m, w); set_a(m, a); } break;
      case 7: TRY(r, fl, s << (*f)(v, w, (ecl::IntegralBase)b)); { NP; Fmt x = m; set_w(x, w); judge(s, from, padded(in_base(u, bits, sgn, b), x.w, x.a), r, fl, f0, "number with a width of its own"); } break;
      case 6: TRY(r, fl, s << *f); { NP; if (s.device().data.size() != from) fail("format-wrong", "a formatter without a value printed something"); if (!g_release && (r != 1 || fl != ecl::UsageError)) fail("misuse-unreported", "a formatter without a value was inserted without an error"); } break;
      case 8: {   // a value with parameters of its own which is printed later, or never
        bool sets, other; int w2; { NP; sets = gencoin(1, 2); other = gencoin(1, 2); w2 = (int)gen(40) - 1; }
        if (gencoin8(b)) (*f)(v, w, a, (ecl::IntegralBase)b); else { (*f)(v, w, (ecl::IntegralBase)b); NP; Fmt x = m; set_w(x, w); w = x.w; a = x.a; }
        if (sets) { f->width(w2); NP; set_w(m, w2); }
        if (other) { TRY(r, fl, s << (*f)(v)); NP; judge(s, from, padded(in_base(u, bits, sgn, m.base), m.w, m.a), r, fl, f0, "number after one that was not printed"); }
        else { if (gencoin8(b + 1)) f = renewed(f); TRY(r, fl, s << *f); NP; judge(s, from, padded(in_base(u, bits, sgn, b), w, a), r, fl, f0, "number with parameters of its own, printed later"); }
        break;
      }
      case 9: f = renewed(f); break;
    }
    { NP; unknown = op == 0 || op == 1 || op == 7 || op == 8 ? my_faults() > f0 : unknown; }
  }
  delete f;
}
template <class T> void format_real(OddStream& s, int n) {
  Fmt m; bool dflt; { NP; dflt = gencoin(1, 2); if (!dflt) { m.w = (int)gen(30) - 1; m.a = some_align(); m.prec = gen(22); } }
  ecl::Format<T>* f = dflt ? new ecl::Format<T> : new ecl::Format<T>(m.w, m.prec, m.a, ecl::Fixed);
  for (int k = 0; k < n; k++) {
    int op, w, p; ecl::Alignment a; T v; int f0; size_t from; string want; bool before; char num[400];
    { NP; op = gen_weighted({6, 3, 1, 1, 1, 2, 2, 2, 1}); w = (int)gen(40) - 1; p = gen(22); a = some_align(); v = (T)some_double(sizeof(T) == 4); recover(s); f0 = my_faults(); from = s.device().data.size(); before = gencoin(1, 3); }
    int r = 0; ecl::ErrorFlag fl = ecl::NoError; { NP; log("op %d w=%d align=%d; now width %d align %d", op, w, (int)a, m.w, (int)m.a); }
    switch (op) {
      case 0: if (before) { (*f)(v); TRY(r, fl, s << *f); } else TRY(r, fl, s << (*f)(v)); { NP; snprintf(num, sizeof num, "%.*f", m.prec > 20 ? 20 : m.prec, (double)v); judge(s, from, padded(num, m.w, m.a), r, fl, f0, "real"); } break;
      case 1: TRY(r, fl, s << (*f)(v, p, w, a, ecl::Fixed)); { NP; snprintf(num, sizeof num, "%.*f", p > 20 ? 20 : p, (double)v); judge(s, from, padded(num, w, a), r, fl, f0, "real with parameters of its own"); } break;
      case 2: f->width(w); { NP; set_w(m, w); } break;
      case 3: f->align(a); { NP; set_a(m, a); } break;
      case 4: f->precision(p); { NP; m.prec = p; } break;
      case 6: TRY(r, fl, s << (*f)(v, p, w)); { NP; Fmt x = m; set_w(x, w); snprintf(num, sizeof num, "%.*f", p > 20 ? 20 : p, (double)v); judge(s, from, padded(num, x.w, x.a), r, fl, f0, "real with a width of its own"); } break;
      case 5: (*f)(p, w, a, ecl::Fixed); { NP; m.prec = p; set_w(m, w); set_a(m, a); } break;
      case 7: {
        int sets; bool other; int x2; { NP; sets = gen(3); other = gencoin(1, 2); x2 = gen(20); }
        if (gencoin8(p)) (*f)(v, p, w, a, ecl::Fixed); else { (*f)(v, p, w); NP; Fmt x = m; set_w(x, w); w = x.w; a = x.a; }
        if (sets == 1) { f->width(x2); NP; set_w(m, x2); }
        if (sets == 2) { f->precision(x2); NP; m.prec = x2; }
        if (other) { TRY(r, fl, s << (*f)(v)); NP; snprintf(num, sizeof num, "%.*f", m.prec > 20 ? 20 : m.prec, (double)v); judge(s, from, padded(num, m.w, m.a), r, fl, f0, "real after one that was not printed"); }
        else { if (gencoin8(p + 1)) f = renewed(f); TRY(r, fl, s << *f); NP; snprintf(num, sizeof num, "%.*f", p > 20 ? 20 : p, (double)v); judge(s, from, padded(num, w, a), r, fl, f0, "real with parameters of its own, printed later"); }
        break;
      }
      case 8: f = renewed(f); break;
    }
  }
  delete f;
}
void format_text(OddStream& s, int n) {
  Fmt m; bool dflt; { NP; dflt = gencoin(1, 2); if (!dflt) { m.w = (int)gen(30) - 1; m.a = some_align(); } }
  ecl::Format<std::string>* f = dflt ? new ecl::Format<std::string> : new ecl::Format<std::string>(m.w, m.a);
  bool unknown = false;
  for (int k = 0; k < n; k++) {
    int op, w; ecl::Alignment a; string v; int f0; size_t from;
    { NP; op = gen_weighted({6, 2, 1, 1, 1, 2, 2, 2, 1}); w = (int)gen(40) - 1; a = some_align(); v = words(gen(30)); if (!v.empty() && gencoin(1, 6)) v[gen(v.size())] = 0; recover(s); f0 = my_faults(); from = s.device().data.size(); if ((k == 0 || unknown) && op == 5) op = 0; unknown = false; }
    std::string sv(v.data(), v.size());
    int r = 0; ecl::ErrorFlag fl = ecl::NoError;
    switch (op) {
      case 0: TRY(r, fl, s << (*f)(sv)); { NP; judge(s, from, padded(v, m.w, m.a), r, fl, f0, "string"); } break;
      case 1: TRY(r, fl, s << (*f)(sv, w, a)); { NP; judge(s, from, padded(v, w, a), r, fl, f0, "string with parameters of its own"); } break;
      case 6: TRY(r, fl, s << (*f)(sv, w)); { NP; judge(s, from, padded(v, w, m.a), r, fl, f0, "string with a width of its own"); } break;
      case 7: {
        int sets; bool other; int w2; { NP; sets = gen(3); other = gencoin(1, 2); w2 = gen(40); }
        if (gencoin8(w)) (*f)(sv, w, a); else { (*f)(sv, w); NP; a = m.a; }
        if (sets == 1) { f->width(w2); NP; m.w = w2; }
        if (sets == 2) { f->align(ecl::CentreAlign); NP; m.a = ecl::CentreAlign; }
        if (other) { TRY(r, fl, s << (*f)(sv)); NP; judge(s, from, padded(v, m.w, m.a), r, fl, f0, "string after one that was not printed"); }
        else { if (gencoin8(w + 1)) f = renewed(f); TRY(r, fl, s << *f); NP; judge(s, from, padded(v, w, a), r, fl, f0, "string with parameters of its own, printed later"); }
        break;
      }
      case 8: f = renewed(f); break;
      case 2: f->width(w); { NP; m.w = w; } break;
      case 3: f->align(a); { NP; m.a = a; } break;
      case 4: (*f)(w, a); { NP; m.w = w; m.a = a; } break;
      case 5: TRY(r, fl, s << *f); { NP; if (s.device().data.size() != from) fail("format-wrong", "a formatter without a value printed something"); } break;
    }
    { NP; unknown = my_faults() > f0; }
  }
  delete f;
}
void format_job() {
  OddStream* s = new OddStream; int n; { NP; n = 1 + gen(3); }
  for (int k = 0; k < n; k++) {
    int t, c; { NP; t = gen(9); c = 1 + gen(6); }
    switch (t) {
      case 0: format_int<short>(*s, 16, true, c); break;
      case 1: format_int<int>(*s, 32, true, c); break;
      case 2: format_int<long>(*s, 64, true, c); break;
      case 3: format_int<unsigned short>(*s, 16, false, c); break;
      case 4: format_int<unsigned int>(*s, 32, false, c); break;
      case 5: format_int<unsigned long>(*s, 64, false, c); break;
      case 6: format_real<float>(*s, c); break;
      case 7: format_real<double>(*s, c); break;
      case 8: format_text(*s, c); break;
    }
  }
  { NP; string().swap(s->device().data); }
  delete s;
}
}
SCENARIO(stream_format, "C24") {
  int nt; std::vector<int> f;
  { NP; nt = 1 + gen(3); if (faulty()) { enable_fault("dev.refuse", 1, 20); enable_fault("dev.throw", 1, 20); } if (gencoin(1, 3)) enable_fault("dev.short", 1, 2); set_fault_budget(1 + gen(12)); }
  for (int i = 1; i < nt; i++) { NP; f.push_back(spawn("formatter", format_job)); }
  format_job();
  for (int x : f) join_fiber(x);
  NP;
  if (nt > 1) probe("format.several");
  if (live_allocs()) { string s; dump_live_allocs(0, s); fail("leak", "memory is still allocated: %s", s.c_str()); }
}
