// C14 socket data, C15 socket lifecycle
#include <unistd.h>
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/devices/socket.hpp>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <string.h>
#include <algorithm>
#include <vector>
#include <sched.h>

using namespace sim;
using std::string;

namespace {
enum { DISC = ecl::ConnectionDisconnected, HUNG = ecl::ConnectionHungUp, PROB = ecl::ConnectionProblem };
string noise(size_t n) { string s(n, 0); u64 x = 88172645463325252ull + gen(1000); int style = gen(3); for (auto& c : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = style == 0 ? 'a' + (x >> 33) % 26 : style == 1 ? (char)(x >> 40) : "\0\n\xff a"[(x >> 40) % 5]; } return s; }
void nap(u64 ns) { NP; sleep_ns(ns); }

// One side of a conversation.  Byte k of the stream a side sends is data[k].
struct Side { string data; size_t accepted = 0, inflight = 0, got = 0; bool write_dead = false, read_dead = false, closed = false; };
struct Talk { Side s[2]; std::vector<size_t> turn[2]; int first = 0; bool reset = false, crash = false; int errors = 0; u64 t_end = 0; };
Talk* TK;
// ports of both halves of the range
int PB = 5555;
const char* HN = "localhost";   // a name or an address of the server's host
uint32_t HA = 0x7f000001;
void any_port() {
  PB = (int[]){5555, 40000, 65533}[gen(3)];
  int k = gen_weighted({3, 1, 1, 1});
  HN = (const char*[]){"localhost", "127.0.0.1", "thishost", "192.0.2.10"}[k];
  HA = gen(2) ? 0x7f000001 : vk_own_addr;
}
int net_faults() { int n = 0; for (const char* k : {"sock.eintr", "sock.recv.eio", "sock.send.eio", "net.reset", "ioctl"}) n += fault_fired(k); return n; }

// what every call on a connected device owes: r the status of TRY, n the returned value
template <class D> bool good(D* d, const char* op, int r, long n, ecl::ErrorFlag fl, int f0, bool peer_gone) {
  if (r == 2) fail("op-threw", "%s ran out of memory", op);
  bool bad = r || n < 0;
  if (bad && n == DISC && !r) return false;
  if (bad && !peer_gone && my_faults() == f0 && !TK->reset && !vk_conn_reset(0) && !vk_conn_reset(1)) fail("spurious-failure", "%s reported %ld (flag %d) on a healthy connection", op, n, (int)fl);
  if (!r && n < PROB && n != HUNG && n != DISC) fail("bad-status", "%s returned %ld", op, n);
  if (!r && n == PROB && d->error().flag() == ecl::NoError) fail("error-flag", "error() is NoError after a failed %s", op);
  if (!r && n >= 0 && d->error().flag() != ecl::NoError) fail("error-flag", "error() is %d after a successful %s", (int)d->error().flag(), op);
  return !bad;
}
template <class D> void writer(D* d, int me, size_t until) {
  Side& s = TK->s[me];
  int tries = 0;
  for (;;) {
    size_t n; int f0; bool ch;
    { NP; if (s.accepted >= until || s.write_dead) return; n = 1 + gen(gen(3) ? 40 : gen(3) ? 3000 : 30000); n = std::min(n, until - s.accepted); ch = gen(6) == 0; if (ch) n = 1; f0 = my_faults(); s.inflight = n; }
    int r; ecl::ErrorFlag fl; long w = PROB;
    // write from a copy, so that late use of the caller's memory shows
    char* b = new char[n]; { NP; memcpy(b, s.data.data() + s.accepted, n); }
    if (ch) { char c = b[0]; TRY(r, fl, w = d->write(c)); } else TRY(r, fl, w = d->write(b, n));
    { NP; memset(b, 'X', n); }
    delete[] b;
    bool stop = false;
    {
      NP;
      bool ok = good(d, "write()", r, r ? PROB : w, fl, f0, TK->s[1 - me].closed);
      if (!r && w > (long)n) fail("bad-status", "write() of %zu bytes returned %ld", n, w);
      if (ok && !r && w == 0) fail("write-nothing", "write() of %zu bytes reported success and wrote nothing", n);
      if (ok) { s.accepted += w; if (w < (long)n) probe("partial.write"); tries = 0; }
      else if (!r && (w == HUNG || w == DISC)) { s.write_dead = true; if (d->open()) fail("open-after-hangup", "open() is true after write() reported %ld", w); probe("write.hungup"); }
      else if (++tries > 6) s.write_dead = true;
      s.inflight = 0;
      stop = s.write_dead;
    }
    if (stop) return;
    int z; { NP; z = gen(8); }
    if (z == 0) nap(30000); else if (z == 1) sched_yield();
  }
}
// reads until `until` bytes came in or the stream ended; false when it ended early
template <class D> bool reader(D* d, int me, size_t until, bool expect_end) {
  Side& in = TK->s[1 - me];           // the peer's stream
  Side& mine = TK->s[me];
  int tries = 0;
  for (;;) {
    int op; size_t n; int f0; long rx0; bool none = false;
    { NP; if (!expect_end && in.got >= until) return true; op = gen_weighted({6, 2, 2, 1}); n = 1 + gen(gen(3) ? 50 : 4000); if (op < 2 && gen(12) == 0) { n = 0; none = true; } f0 = my_faults(); rx0 = vk_conn_rx(me); }
    if (op == 2) {
      int r; ecl::ErrorFlag fl; long v = PROB;
      TRY(r, fl, v = d->remaining());
      NP; long rx1 = vk_conn_rx(me);
      if (good(d, "remaining()", r, r ? PROB : v, fl, f0, in.closed)) { if (v < rx0 || v > rx1) fail("remaining", "remaining() is %ld with %ld to %ld bytes waiting", v, rx0, rx1); nontrivial(); }
      continue;
    }
    if (op == 1) {   // peek
      int r; ecl::ErrorFlag fl; long v = PROB;
      char* b = new char[n];
      TRY(r, fl, v = d->peek(b, n));
      { NP; if (good(d, "peek()", r, r ? PROB : v, fl, f0, in.closed) && v > 0) {
          if (v > (long)n) fail("bad-status", "peek of %zu bytes returned %ld", n, v);
          if (in.got + v > in.accepted + in.inflight || memcmp(b, in.data.data() + in.got, v)) fail("data", "peek() shows something else than the next %ld bytes of the stream (at byte %zu)", v, in.got);
        } }
      delete[] b;
      { NP; if (in.closed && (r || v <= 0)) { if (++tries > 3) op = 0; } }
      if (op == 1) continue;
    }
    int r; ecl::ErrorFlag fl; long v = PROB; bool ch = op == 3;
    if (ch) n = 1;
    char* b = new char[n + 1];
    if (ch) TRY(r, fl, v = d->read(b[0])); else TRY(r, fl, v = d->read(b, n));
    bool stop = false;
    {
      NP;
      bool ok = good(d, "read()", r, r ? PROB : v, fl, f0, in.closed);
      if (ok) {
        if (v == 0 && !none) fail("bad-status", "read() of %zu bytes returned 0", n);
        if (v > (long)n) fail("bad-status", "read() of %zu bytes returned %ld", n, v);
        if (none) { tries = 0; probe("read.none"); }
        if (in.got + v > in.accepted + in.inflight) fail("data", "%ld bytes read at %zu, but only %zu were sent", v, in.got, in.accepted + in.inflight);
        if (memcmp(b, in.data.data() + in.got, v)) { size_t k = 0; while (b[k] == in.data[in.got + k]) k++; fail("data", "byte %zu of the stream arrived as %02x instead of %02x", in.got + k, (unsigned char)b[k], (unsigned char)in.data[in.got + k]); }
        in.got += v;
        nontrivial();
        tries = 0;
      } else if (!r && v == HUNG) {
        bool rst = TK->reset || vk_conn_reset(me) || TK->crash;
        if (!in.closed && !rst && my_faults() == f0) fail("false-hangup", "read() reported a hang-up although the peer is still there");
        if (!rst && in.got != in.accepted) fail("data-lost", "read() reported a hang-up after %zu of the %zu bytes sent before it", in.got, in.accepted);
        if (d->open()) fail("open-after-hangup", "open() is true after a hang-up");
        mine.read_dead = true; mine.write_dead = true;
        probe("hangup");
        stop = true;
      } else if (!r && v == DISC) { if (!mine.write_dead) fail("false-disconnect", "read() reports no connection although nothing ended it"); stop = true; }
      else if (++tries > 8) { mine.read_dead = true; stop = true; }
    }
    delete[] b;
    if (stop) return false;
    int z; { NP; z = gen(8); }
    if (z == 0) nap(30000);
  }
}
template <class D> void dead_calls(D* d) {   // after the end every call says so and touches nothing
  char b[4]; long v[4]; int r; ecl::ErrorFlag fl;
  TRY(r, fl, v[0] = d->read(b, 4)); { NP; if (r) v[0] = 0; }
  TRY(r, fl, v[1] = d->peek(b, 4)); { NP; if (r) v[1] = 0; }
  TRY(r, fl, v[2] = d->remaining()); { NP; if (r) v[2] = 0; }
  TRY(r, fl, v[3] = d->write("abc", 3)); { NP; if (r) v[3] = 0; }
  NP;
  static const char* N[] = {"read()", "peek()", "remaining()", "write()"};
  for (int k = 0; k < 4; k++) if (v[k] != DISC) fail("dead-status", "%s on a device that is not connected gives %ld instead of ConnectionDisconnected", N[k], v[k]);
}
// conversation over an established connection: the sides talk in turns, then one side closes
template <class D> void converse(D* d, int me, int closer) {
  Side& in = TK->s[1 - me];
  for (size_t k = 0;; k++) {
    for (int h = 0; h < 2; h++) {
      int who; size_t until = 0; bool end;
      { NP; who = h ? 1 - TK->first : TK->first; end = k >= TK->turn[who].size(); if (!end) until = TK->turn[who][k]; }
      if (end) goto over;
      bool ok;
      if (who == me) { writer(d, me, until); NP; ok = !TK->s[me].write_dead; }
      else ok = reader(d, me, until, false);
      if (!ok) return;
    }
  }
over:
  if (me == closer) return;
  bool all = reader(d, me, in.data.size(), true);
  NP;
  if (!all && !TK->reset && !TK->crash && !net_faults() && in.got != in.data.size()) fail("data-lost", "%zu of %zu bytes arrived before the end", in.got, in.data.size());
}
void net_setup() {
  TK = new Talk;
  vk_net_latency = gencoin(1, 3) ? 40 : 4000;
  static const size_t B[] = {65536, 1, 7, 64, 1000};
  vk_net_buffer = B[gen(5)];
  for (Side& s : TK->s) { size_t n = gen(4) ? gen(300) : gen(gen(4) ? 6000 : 30000); if (vk_net_buffer < 64) n %= 400; s.data = noise(n); }
  TK->first = gen(2);
  int turns = 1 + gen(4);
  for (int w = 0; w < 2; w++) { std::vector<size_t> c; for (int k = 1; k < turns; k++) c.push_back(gen(TK->s[w].data.size() + 1)); c.push_back(TK->s[w].data.size()); std::sort(c.begin(), c.end()); TK->turn[w] = c; }
}
void net_fault_plan(bool resets) {
  if (gencoin(1, 2)) enable_fault("sock.eintr", 1, 12);
  if (gencoin(1, 2)) enable_fault("sock.short_read", 1, 3);
  if (gencoin(1, 3)) enable_fault("net.stall", 1, 10);
  if (gencoin(1, 4)) { enable_fault("sock.recv.eio", 1, 20); enable_fault("sock.send.eio", 1, 20); enable_fault("ioctl", 1, 10); }
  if (gencoin(1, 4)) after(gen(3000) * 1000, [] { vk_net_partition((1 + gen(20)) * 1000000); });
  if (resets && gencoin(1, 2)) after(gen(3000) * 1000, [] { TK->reset = true; vk_net_reset(); });
  set_fault_budget(2 + gen(10));
}
}
// a server and a client, in one process or two
SCENARIO(socket_stream, "C14") {
  int closer, p; bool* up; int sid, cid;
  { NP; any_port(); net_setup(); closer = gen(2); p = gencoin(1, 2) ? new_proc("client") : 0; up = new bool(false); if (faulty()) { net_fault_plan(true); } }
  { NP; sid = spawn("server", [=] {
      ecl::SocketServer* s = new ecl::SocketServer(PB);
      { NP; *up = true; touch(); }
      int fd = s->listen();
      { NP; if (fd < 0) fail("listen", "listen() returned %d", fd); }
      converse(s, 1, closer);
      bool ended; { NP; ended = !s->open(); }
      if (ended) dead_calls(s);
      { NP; TK->s[1].closed = true; log("server closes"); }
      bool how; { NP; how = gencoin(1, 2); }
      if (how) { s->close(); bool o = s->open(); { NP; if (o) fail("open-after-close", "open() is true after close()"); } dead_calls(s); }
      delete s;
    }); }
  { NP; cid = spawn("client", [=] {
      { NP; wait("server up", [=] { return *up && vk_listeners() > 0; }); }
      ecl::SocketClient* c = new ecl::SocketClient(HN, PB);
      converse(c, 0, closer);
      bool ended; { NP; ended = !c->open(); }
      if (ended) dead_calls(c);
      { NP; TK->s[0].closed = true; log("client closes"); }
      bool how; { NP; how = gencoin(1, 2); }
      if (how) { c->close(); bool o = c->open(); { NP; if (o) fail("open-after-close", "open() is true after close()"); } dead_calls(c); }
      delete c;
    }, p); }
  { NP; join_fiber(sid); join_fiber(cid); }
  NP;
  if (vk_open_fds(0) || (p && vk_open_fds(p))) fail("fd-leak", "at the end descriptors are still open: %s %s", vk_describe_fds(0).c_str(), p ? vk_describe_fds(p).c_str() : "");
}
// the peer's process dies: the survivor notices, gets a true prefix, and carries on with a new connection
SCENARIO(socket_crash, "C14") {
  int p, sid, cid; bool* up; bool* again; u64 when;
  { NP; any_port(); net_setup(); p = new_proc("client"); up = new bool(false); again = new bool(false); if (faulty()) net_fault_plan(false); when = gen(3) ? gen(200) * 500 : gen(4000) * 500; }
  { NP; sid = spawn("server", [=] {
      ecl::SocketServer* s = new ecl::SocketServer(PB);
      { NP; *up = true; touch(); }
      int fd = s->listen();
      { NP; if (fd < 0) fail("listen", "listen() returned %d", fd); }
      converse(s, 1, 0);
      { NP; disable_faults(); }
      bool o = s->open();
      if (!o) { bool ok = s->open(PB); NP; if (!ok) fail("reopen", "the port could not be opened again"); probe("reopened"); }
      else { NP; probe("kept.open"); }
      { NP; *again = true; touch(); }
      fd = s->listen();
      { NP; if (fd < 0) fail("listen", "listen() for the next client returned %d", fd); }
      char b[8]; long v = 0; int n = 0;
      while (n < 5) { v = s->read(b + n, 5 - n); if (v <= 0) break; n += v; }
      { NP; if (n != 5 || memcmp(b, "hello", 5)) fail("data", "the next client's greeting arrived as %d bytes", n); nontrivial(); }
      delete s;
    }); }
  { NP; cid = spawn("client", [=] {
      { NP; wait("server up", [=] { return *up && vk_listeners() > 0; }); }
      ecl::SocketClient* c = new ecl::SocketClient(HN, PB);
      { NP; after(when, [=] { if (proc_alive(p)) { TK->crash = true; TK->s[0].closed = true; note_fault("process.crash"); kill_proc(p); } }); }
      converse(c, 0, 0);
      { NP; TK->s[0].closed = true; }
      delete c;
    }, p); }
  // the next client tries until somebody listens
  { NP; wait("client gone", [=] { return !proc_alive(p) || finished(cid); }); }
  for (int k = 0;; k++) {
    bool ready; { NP; ready = *again && vk_listeners() > 0; }
    if (ready) {
      ecl::SocketClient* c = new ecl::SocketClient();
      int r; ecl::ErrorFlag fl; bool ok = false;
      TRY(r, fl, ok = c->open(HN, PB));
      if (!r && ok) {
        for (int n = 0; n < 5;) { long v = c->write(&"hello"[n], 5 - n); { NP; if (v <= 0) fail("write", "write() to the reopened server returned %ld", v); } n += v; }
        char e; long v = c->read(e);
        { NP; if (v != HUNG) fail("hangup", "read() returned %ld after the server closed", v); }
        delete c;
        break;
      }
      delete c;
    }
    { NP; if (k > 500) fail("no-service", "the server never accepted another client"); }
    nap(20000000);
  }
  { NP; join_fiber(sid); }
  NP;
  if (vk_open_fds(0)) fail("fd-leak", "at the end descriptors are still open: %s", vk_describe_fds(0).c_str());
}

// ------------------------------------------------------------------ C15 lifecycle
namespace {
struct Caller { int id = -1, port = 0; bool connected = false, stop = false, gone = false; };
// somebody elsewhere who calls the given port with plain system calls, says "abc" and stays until told to go
Caller* call(int port, int p) {
  Caller* c = new Caller;
  c->port = port;
  c->id = spawn("caller", [c, port] {
    for (;;) {
      int fd = ::socket(AF_INET, SOCK_STREAM, 0);
      bool ok = false;
      if (fd >= 0) {
        struct sockaddr_in a; memset(&a, 0, sizeof a);
        a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(HA); a.sin_port = htons(port);
        ok = ::connect(fd, (struct sockaddr*)&a, sizeof a) == 0;
        if (ok) {
          { NP; c->connected = true; touch(); }
          for (int k = 0; k < 3;) { ssize_t n = ::send(fd, &"abc"[k], 3 - k, MSG_NOSIGNAL); bool st; { NP; st = c->stop; } if (n > 0) k += n; else if (n < 0 && (errno != EINTR || st)) break; }
          { NP; wait("told to go", [c] { return c->stop; }); }
        }
        ::close(fd);
      }
      { NP; if (ok || c->stop) { c->gone = true; touch(); return; } }
      nap(1000000);
    }
  }, p);
  return c;
}
const char* NET_FAULTS[] = {"socket.emfile", "socket.enfile", "socket.enobufs", "bind.eaddrinuse", "bind.eacces", "listen.eaddrinuse", "accept.emfile", "accept.enfile", "accept.econnaborted", "accept.enobufs", "accept.eintr",
  "connect.etimedout", "connect.ehostunreach", "connect.enetunreach", "connect.eintr", "sock.eintr", "sock.recv.eio", "sock.send.eio", "ioctl", "dns.again", "dns.fail"};
struct Srv { ecl::SocketServer* d = nullptr; bool open = false, client = false, listening = false; int port = 0; Caller* caller = nullptr; };
struct Cli { ecl::SocketClient* d = nullptr; bool open = false; };
struct Life { Srv s[2]; Cli c[2]; std::vector<Caller*> callers; int peer = 0; };
Life* LF;
void tally(const char* after_what) {
  NP;
  int want = 0;
  for (Srv& s : LF->s) want += s.open + s.client;
  for (Cli& c : LF->c) want += c.open;
  int have = vk_open_fds(0);
  if (have > want) fail("fd-leak", "after %s: %d descriptors are open where %d are in use (%s)", after_what, have, want, vk_describe_fds(0).c_str());
  if (have < want) fail("fd-lost", "after %s: only %d descriptors are open where %d are in use", after_what, have, want);
  if (vk_addrinfos()) fail("lookup-leak", "after %s: an answer of the name lookup was not given back", after_what);
}
template <class D> void failed_open(D* d, const char* what, int r, ecl::ErrorFlag fl) {
  NP;
  ecl::ErrorFlag f = r == 1 ? fl : d ? d->error().flag() : fl;
  if (f == ecl::NoError) fail("error-flag", "%s failed without an error", what);
}
void hang_up(Srv& s) { if (s.caller) { s.caller->stop = true; touch(); s.caller = nullptr; } }
void srv_open(Srv& s, int port, bool raii) {
  int r = 0, f0; ecl::ErrorFlag fl = ecl::NoError; bool ok = false, taken = port == (PB + 2), maybe = false;
  { NP; f0 = my_faults(); for (Srv& o : LF->s) if (&o != &s && o.open && o.port == port) { maybe = true; if (o.listening) taken = true; } if (&s && raii && s.d) fail("model", "object exists"); }
  if (raii) { ecl::SocketServer* d = nullptr; TRY(r, fl, d = new ecl::SocketServer((unsigned)port)); { NP; s.d = d; } if (!r) { ok = d->open(); } }
  else TRY(r, fl, ok = s.d->open((unsigned)port));
  bool st = false; if (s.d) st = s.d->open();
  {
    NP;
    bool good = !r && ok;
    hang_up(s);
    s.client = s.listening = false; s.open = good; s.port = port;
    if (!good) {
      failed_open(s.d, "SocketServer::open", r, fl);
      if (st) fail("open-after-failure", "open() is true after open(%d) failed", port);
      if (!taken && !maybe && my_faults() == f0) fail("spurious-failure", "opening port %d failed (flag %d) although nothing stands against it", port, (int)fl);
      if (taken && my_faults() == f0 && r == 1 && fl != ecl::BusyError) fail("error-flag", "opening a port in use reports %d instead of BusyError", (int)fl);
      probe("server.open.failed");
    } else { if (!st) fail("open", "open() is false after a successful open"); if (s.d->error().flag() != ecl::NoError) fail("error-flag", "error() is %d after a successful open", (int)s.d->error().flag()); if (taken) fail("open", "a port in use was opened"); nontrivial(); }
  }
  tally("SocketServer::open");
}
void cli_open(Cli& c, const char* host, int port, bool good_host, bool raii) {
  int r = 0, f0; ecl::ErrorFlag fl = ecl::NoError; bool ok = false;
  { NP; f0 = my_faults(); }
  if (raii) { ecl::SocketClient* d = nullptr; TRY(r, fl, d = new ecl::SocketClient(host, port)); { NP; c.d = d; } if (!r) ok = d->open(); }
  else TRY(r, fl, ok = c.d->open(host, port));
  bool st = false; if (c.d) st = c.d->open();
  {
    NP;
    bool good = !r && ok;
    c.open = good;
    if (!good) {
      failed_open(c.d, "SocketClient::open", r, fl);
      if (st) fail("open-after-failure", "open() is true after opening %s:%d failed", host, port);
      if (good_host && my_faults() == f0) fail("spurious-failure", "connecting to %s:%d failed (flag %d) although somebody listens there", host, port, (int)fl);
      if (!good_host && my_faults() == f0 && r == 1 && port == 7777 && !strcmp(host, "alpha") && fl != ecl::ConnectionRefusedError) fail("error-flag", "a refused connection reports %d instead of ConnectionRefusedError", (int)fl);
      probe("client.open.failed");
    } else { if (!st) fail("open", "open() is false after a successful open"); if (c.d->error().flag() != ecl::NoError) fail("error-flag", "error() is %d after a successful open", (int)c.d->error().flag()); if (!good_host) fail("open", "connected to %s:%d where nobody listens", host, port); nontrivial(); }
  }
  tally("SocketClient::open");
}
// what the calls on an idle or connected device must give
template <class D> void use(D* d, bool live, bool& open, bool* client, bool idle) {
  int op, f0; { NP; op = gen(4); f0 = my_faults(); if (live && idle && (op == 0 || op == 1)) op = 2 + gen(2); }
  char b[8] = {0}; int r; ecl::ErrorFlag fl; long v = 0;
  switch (op) {
    case 0: TRY(r, fl, v = d->read(b, 2)); break;
    case 1: TRY(r, fl, v = d->peek(b, 2)); break;
    case 2: TRY(r, fl, v = d->remaining()); break;
    default: TRY(r, fl, v = d->write("z", 1)); break;
  }
  bool st = d->open();
  NP;
  static const char* N[] = {"read()", "peek()", "remaining()", "write()"};
  if (!live) { if (r || v != DISC) fail("dead-status", "%s on a device without a connection gives %s%ld instead of ConnectionDisconnected", N[op], r ? "an exception or " : "", r ? 0 : v); if (st != open) fail("open", "%s on a device without a connection changed open()", N[op]); return; }
  if (!r && (v == HUNG || v == DISC)) { if (my_faults() == f0 && op != 0) fail("false-hangup", "%s reports %ld while the peer is there", N[op], v); if (my_faults() == f0 && !client) fail("false-hangup", "%s reports %ld while the peer is there", N[op], v); open = st; if (client) *client = st && *client; }
  else if (r || v < 0) { if (my_faults() == f0) fail("spurious-failure", "%s gives %ld (flag %d) on a healthy connection", N[op], v, (int)fl); if (!st) fail("open", "open() is false after a failure of %s that did not end the connection", N[op]); }
  else if (!st) fail("open", "open() is false after a successful %s", N[op]);
}
}
SCENARIO(socket_lifecycle, "C15") {
  int steps, foreign;
  {
    NP;
    any_port();
    LF = new Life;
    LF->peer = new_proc("peer");
    foreign = gen(3);
    steps = 4 + gen(24);
    vk_host("alpha", 0x0a000001); vk_host("beta", 0x0a000002);
    for (int k = 0; k < foreign; k++) vk_bystander();
    spawn("other host", [] { vk_remote_listener(0x0a000001, PB); vk_remote_listener(0x0a000002, PB); int fd = ::socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; { NP; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((PB + 2)); } ::bind(fd, (struct sockaddr*)&a, sizeof a); ::listen(fd, 1); }, LF->peer);
    wait("world", [] { return vk_listeners() >= 3; });
    if (faulty()) { for (const char* k : NET_FAULTS) if (gencoin(1, 3)) enable_fault(k, 1, 1 + gen(8)); set_fault_budget(1 + gen(8)); }
  }
  for (int step = 0; step < steps; step++) {
    int op; { NP; op = gen(12); if (gen(6) == 0) vk_bystander(); }
    if (op < 7) {
      Srv* s; int port; bool raii;
      { NP; s = &LF->s[gen(2)]; port = PB + gen_weighted({3, 3, 1}); raii = gencoin(1, 2); }
      if (!s->d) {
        if (raii) srv_open(*s, port, true);
        else { ecl::SocketServer* d = new ecl::SocketServer(); bool o = d->open(); NP; if (o) fail("open", "open() is true on a server which was never opened"); if (d->error().flag() != ecl::NoError) fail("error-flag", "a new server starts with error %d", (int)d->error().flag()); s->d = d; }
        continue;
      }
      switch (op) {
        case 0: srv_open(*s, port, false); break;
        case 1: {
          s->d->close(); bool o = s->d->open();
          { NP; if (o) fail("open-after-close", "open() is true after close()"); s->open = s->client = false; hang_up(*s); }
          tally("SocketServer::close");
          break;
        }
        case 2: { delete s->d; { NP; s->d = nullptr; s->open = s->client = false; hang_up(*s); } tally("~SocketServer"); break; }
        case 3: case 4: {
          // a caller first, so that listen() has somebody to wait for
          int f0, r; ecl::ErrorFlag fl; int v = -1; bool was = s->open; Caller* c = nullptr; bool shared = false;
          { NP; f0 = my_faults(); for (Srv& o : LF->s) if (&o != s && o.open && o.port == s->port) shared = true; if (was && shared) break; if (was) { c = call(s->port, LF->peer); LF->callers.push_back(c); } }
          TRY(r, fl, v = s->d->listen());
          {
            NP;
            bool ok = !r && v >= 0;
            if (!was && ok) fail("listen", "listen() on a server which is not open reports descriptor %d", v);
            if (was && !ok && my_faults() == f0) fail("spurious-failure", "listen() failed (flag %d) although a client calls", (int)fl);
            if (!ok) { failed_open(s->d, "listen()", r, fl); if (c) { c->stop = true; touch(); } probe("listen.failed"); if (was && !s->d->open()) fail("open", "open() is false after a failed listen()"); }
            else {
              Ofd* o = vk_fd_quiet(v);
              if (!o) fail("listen", "listen() returned descriptor %d, which is not open", v);
              hang_up(*s); s->client = s->listening = true; s->caller = c; nontrivial(); probe("accepted");
            }
          }
          tally("listen()");
          break;
        }
        case 5: {   // the client goes away and the server notices
          bool live; { NP; live = s->open && s->client && s->caller; if (live) hang_up(*s); }
          if (!live) { use(s->d, s->open && s->client, s->open, &s->client, true); break; }
          for (int k = 0;; k++) {
            char b[8]; int r, f0; ecl::ErrorFlag fl; long v = 0;
            { NP; f0 = my_faults(); }
            TRY(r, fl, v = s->d->read(b, 8));
            bool o = s->d->open();
            NP;
            if (!r && v > 0) continue;
            if (!r && v == HUNG) { if (o) fail("open-after-hangup", "open() is true after a hang-up"); s->open = s->client = false; break; }
            if (r == 0 && v == DISC) fail("hangup", "read() reports no connection before it reported the hang-up");   // a reset may show as a failed read first
            if (k > 30) fail("hangup", "the hang-up of the client was never reported");
          }
          tally("a hang-up");
          break;
        }
        default: use(s->d, s->open && s->client, s->open, &s->client, true); tally("a call on the server");
      }
    } else {
      Cli* c; int h; bool raii;
      { NP; c = &LF->c[gen(2)]; h = gen_weighted({4, 4, 1, 1, 1}); raii = gencoin(1, 2); }
      static const struct { const char* n; int port; bool ok; } H[] = {{"alpha", PB, true}, {"beta", PB, true}, {"alpha", 7777, false}, {"nowhere", PB, false}, {"10.0.0.2", PB, true}};
      if (!c->d) {
        if (raii) cli_open(*c, H[h].n, H[h].port, H[h].ok, true);
        else { ecl::SocketClient* d = new ecl::SocketClient(); bool o = d->open(); NP; if (o) fail("open", "open() is true on a client which was never opened"); c->d = d; }
        continue;
      }
      switch (op) {
        case 7: case 8: cli_open(*c, H[h].n, H[h].port, H[h].ok, false); break;
        case 9: { c->d->close(); bool o = c->d->open(); { NP; if (o) fail("open-after-close", "open() is true after close()"); c->open = false; } tally("SocketClient::close"); break; }
        case 10: { delete c->d; { NP; c->d = nullptr; c->open = false; } tally("~SocketClient"); break; }
        default: use(c->d, c->open, c->open, nullptr, true); tally("a call on the client");
      }
    }
  }
  for (Srv& s : LF->s) { delete s.d; { NP; s.d = nullptr; s.open = s.client = false; hang_up(s); } tally("~SocketServer"); }
  for (Cli& c : LF->c) { delete c.d; { NP; c.d = nullptr; c.open = false; } tally("~SocketClient"); }
  NP;
  disable_faults();
  for (Caller* c : LF->callers) { c->stop = true; touch(); }
  for (Caller* c : LF->callers) join_fiber(c->id);
}
// several threads connect to different hosts at the same time: everybody reaches the host that was named
SCENARIO(socket_hosts, "C15") {
  int n, peer; int (*ids)[8]; int per;
  {
    NP;
    any_port();
    n = 2 + gen(3); per = 1 + gen(3); peer = new_proc("hosts"); ids = (int(*)[8])new int[8];
    static const char* NAME[] = {"h0", "h1", "h2", "h3", "h4"};
    for (int k = 0; k < 5; k++) {
      vk_host(NAME[k], 0x0a000001 + k);
      spawn(NAME[k], [=] {
        int l = vk_remote_listener(0x0a000001 + k, PB);
        for (;;) { int fd = ::accept(l, nullptr, nullptr); if (fd < 0) continue; char c = '0' + k; ::send(fd, &c, 1, MSG_NOSIGNAL); }
      }, peer);
    }
    wait("hosts", [] { return vk_listeners() >= 5; });
    if (faulty()) { for (const char* k : {"dns.again", "dns.fail", "connect.ehostunreach", "connect.eintr", "socket.emfile", "sock.eintr"}) if (gencoin(1, 2)) enable_fault(k, 1, 6); set_fault_budget(1 + gen(5)); }
    for (int t = 0; t < n; t++) (*ids)[t] = spawn("user", [=] {
      for (int k = 0; k < per; k++) {
        int h, f0; char nm[3]; { NP; h = (t + k * (1 + gen(4))) % 5; f0 = my_faults(); nm[0] = 'h'; nm[1] = '0' + h; nm[2] = 0; }
        ecl::SocketClient* c = nullptr;
        int r; ecl::ErrorFlag fl; bool ok = false; bool raii; { NP; raii = PB == 5555 && gen(3) == 0; }
        if (raii) { TRY(r, fl, c = new ecl::SocketClient(nm)); if (!r) ok = c->open(); }      // the port left at its default
        else { c = new ecl::SocketClient(); TRY(r, fl, ok = c->open(nm, PB)); }
        if (!r && ok) {
          char b = 0; long v = 0;
          for (int z = 0; z < 10; z++) { TRY(r, fl, v = c->read(b)); if (!r && v == 1) break; }
          NP;
          if (v == 1 && b != '0' + h) fail("wrong-host", "asked for host h%d, connected to h%c", h, b);
          if (v == 1) nontrivial();
        } else { NP; if (my_faults() == f0) fail("spurious-failure", "connecting to %s failed (flag %d)", nm, (int)fl); }
        delete c;
      }
    });
    for (int t = 0; t < n; t++) join_fiber((*ids)[t]);
    if (vk_open_fds(0)) fail("fd-leak", "descriptors are left open: %s", vk_describe_fds(0).c_str());
    if (vk_addrinfos()) fail("lookup-leak", "an answer of the name lookup was not given back");
  }
}
