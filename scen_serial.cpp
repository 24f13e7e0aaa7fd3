// C16 serial lines
#include <unistd.h>
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/devices/serial.hpp>
#include <string.h>
#include <algorithm>

using namespace sim;
using std::string;

namespace {
const u64 MS = 1000000;
const char* PORT[] = {"/dev/ttyS0", "/dev/ttyUSB0"};
struct Cfg { int baud, bits, stop, parity; };
Cfg any_cfg() { Cfg c; c.baud = gen(4) ? 10 : gen(14); c.bits = gen(3) ? 3 : gen(4); c.stop = gencoin(1, 3) ? 2 : 0; c.parity = gen(3); return c; }
WireFormat wire_of(const Cfg& c) { static const long R[] = {110, 300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200, 230400, 460800, 921600}; WireFormat w; w.rate = R[c.baud]; w.bits = c.bits + 5; w.stop = c.stop == 2 ? 2 : 1; w.parity = c.parity; return w; }
string text(size_t n, int bits) { string s(n, 0); u64 x = 88172645463325252ull + gen(1000); for (auto& c : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = gen(2) ? (char)(x >> 40) : "\0\r\n\x03\x11\x13\xff\x1a"[(x >> 40) & 7]; c &= (1 << bits) - 1; } return s; }
bool open_it(ecl::Serial* s, const char* port, const Cfg& c, int& r, ecl::ErrorFlag& fl) { bool ok = false; TRY(r, fl, ok = s->open(port, (ecl::BaudRate)c.baud, (ecl::DataBits)c.bits, (ecl::StopBits)c.stop, (ecl::Parity)c.parity)); return !r && ok; }
const char* IO_FAULTS[] = {"tty.read.eio", "tty.read.eintr", "tty.write.eio", "tty.write.eintr"};
}
// data through one port in every reading mode
SCENARIO(serial_io, "C16") {
  struct State { string fed; size_t got = 0; string want; long mode = 5000; int bits = 8; u64 t0 = 0; std::vector<std::pair<u64, size_t>> arrivals; bool dead = false; };
  State* st; Cfg cfg; int dev, steps; ecl::Serial* s; bool raii;
  {
    NP;
    st = new State;
    cfg = any_cfg();
    st->bits = cfg.bits + 5;
    dev = vk_tty(PORT[0], wire_of(cfg));
    raii = gencoin(1, 2);
    steps = 3 + gen(20);
    if (gencoin(1, 3)) vk_tty_feed(dev, "stale\n");
  }
  int r; ecl::ErrorFlag fl;
  bool pre; { NP; pre = gencoin(1, 2); }
  if (raii) s = new ecl::Serial(PORT[0], (ecl::BaudRate)cfg.baud, (ecl::DataBits)cfg.bits, (ecl::StopBits)cfg.stop, (ecl::Parity)cfg.parity);
  else {
    s = new ecl::Serial();
    if (pre) { bool o = s->open(); NP; if (o) fail("open", "open() is true on a new object"); }
    if (!open_it(s, PORT[0], cfg, r, fl)) { NP; fail("open", "opening a free port failed (flag %d)", (int)fl); }
  }
  { NP; if (vk_tty_waiting(dev)) fail("stale-input", "%zu bytes from before open() are still in the buffer", vk_tty_waiting(dev)); st->want = vk_tty_sent(dev); nontrivial(); }
  {
    NP;
    if (faulty()) { for (const char* k : IO_FAULTS) if (gencoin(1, 2)) enable_fault(k, 1, 1 + gen(10)); set_fault_budget(1 + gen(6)); }
    // the other end sends now and then
    u64 t = now();
    int n = gen(12);
    for (int k = 0; k < n; k++) {
      t += gen(3) ? gen(60) * MS + gen(1000000) : gen(3000) * MS;
      string d = text(1 + gen(gen(4) ? 6 : 200), st->bits);
      at(t, [=] { st->fed += d; st->arrivals.push_back({now(), st->fed.size()}); vk_tty_feed(dev, d); });
    }
  }
  for (int step = 0; step < steps; step++) {
    int op, f0; { NP; op = gen_weighted({5, 8, 3, 5, 2, 1, 1, 1}); f0 = my_faults(); }
    switch (op) {
      case 0: {   // reading mode
        long T; bool un; size_t w0, fed0;
        { NP; un = gen(4) == 0; static const long TS[] = {0, 1, 4, 5, 7, 19, 20, 21, 33, 99, 100, 150, 199, 200, 500, 1000, 5000, 25500, 25600, 30000, 60000}; T = gen(3) ? TS[gen(21)] : gen(110); w0 = vk_tty_waiting(dev); fed0 = st->fed.size(); }
        if (un) s->unblock(); else s->block(T);
        NP;
        st->mode = un ? -1 : T;
        if (vk_tty_waiting(dev) != w0 + (st->fed.size() - fed0)) fail("input-lost", "%s dropped %zu received bytes", un ? "unblock()" : "block()", w0 + (st->fed.size() - fed0) - vk_tty_waiting(dev));
        break;
      }
      case 1: {   // read
        size_t n, w0, fed0; u64 t0, t1; bool one; char* b; long v = -7; int ty;
        { NP; one = gen(3) == 0; n = one ? 1 : 1 + gen(gen(3) ? 12 : 300); ty = gen(2); w0 = vk_tty_waiting(dev); fed0 = st->fed.size(); }
        b = new char[n];
        { NP; memset(b, '?', n); t0 = now(); }
        if (one && ty) TRY(r, fl, v = s->read(*b)); else if (one) TRY(r, fl, v = s->read(*(unsigned char*)b)); else if (ty) TRY(r, fl, v = s->read(b, n)); else TRY(r, fl, v = s->read((unsigned char*)b, n));
        {
          NP;
          t1 = now();
          u64 el = t1 - t0;
          long T = st->mode;
          bool hit = my_faults() != f0;
          if (r || v < 0) {
            if (!hit) fail("spurious-failure", "read() failed (flag %d) on a healthy line", (int)(r ? fl : s->error().flag()));
            if (!r && s->error().flag() == ecl::NoError) fail("error-flag", "error() is NoError after a failed read()");
            if (!r && v != -1) fail("bad-status", "read() returned %ld", v);
          } else {
            if (s->error().flag() != ecl::NoError) fail("error-flag", "error() is %d after a successful read()", (int)s->error().flag());
            if (v > (long)n) fail("bad-status", "read() of %zu bytes returned %ld", n, v);
            if (st->got + v > st->fed.size()) fail("data", "%ld bytes read where %zu were sent", v, st->fed.size() - st->got);
            if (memcmp(b, st->fed.data() + st->got, v)) { size_t k = 0; while (b[k] == st->fed[st->got + k]) k++; fail("data", "byte %02x was sent with %d data bits, parity %d, %02x was read", (unsigned char)st->fed[st->got + k], st->bits, cfg.parity, (unsigned char)b[k]); }
            st->got += v;
            if (w0 && v == 0) fail("read-nothing", "read() returned nothing with %zu bytes waiting", w0);
            if (w0 && v < (long)std::min(w0, n)) fail("read-short", "read() of %zu bytes returned %ld with %zu bytes waiting", n, v, w0);
            u64 slack = 3 * MS + g_strategy.step_ns * 400;
            u64 lo = T < 0 ? 0 : T >= 100 ? std::min(T / 100, 255l) * 100 * MS : T * MS;
            u64 hi = T < 0 ? 0 : T * MS + (T < 5 ? 1 : T < 20 ? 2 : T < 100 ? 5 : 0) * MS;
            if (w0 && el > slack) fail("late", "read() took %.1f ms with data waiting", el / 1e6);
            if (el > hi + slack) fail("late", "read() with a timeout of %ld ms took %.1f ms", T, el / 1e6);
            if (v == 0 && el + 50000 < lo) fail("early", "read() with a timeout of %ld ms gave up after %.3f ms", T, el / 1e6);
            if (v == 0 && T >= 100 && st->fed.size() > fed0) { bool in = false; for (auto& a : st->arrivals) if (a.second > fed0 && a.first + 20000 < t1 && a.first + slack < t0 + lo) in = true; if (in) fail("read-nothing", "data arrived during read(), which returned nothing"); }
            if (v > 0 && !w0) { u64 ta = 0; for (auto& a : st->arrivals) if (a.second > st->got - v) { ta = a.first; break; } u64 grid = T >= 0 && T < 100 ? 6 * MS : 0; if (t1 > ta && t1 - ta > slack + grid) fail("late", "data was there %.1f ms before read() returned it", (t1 - ta) / 1e6); probe("read.arrived"); }
            if (v == 0) probe("read.timeout");
          }
        }
        delete[] b;
        break;
      }
      case 2: {   // remaining
        size_t w0, w1; long v; { NP; w0 = vk_tty_waiting(dev); }
        v = s->remaining();
        NP; w1 = vk_tty_waiting(dev);
        if (v < (long)w0 || v > (long)w1) fail("remaining", "remaining() is %ld with %zu to %zu bytes waiting", v, w0, w1);
        break;
      }
      case 3: {   // write
        size_t n; bool one; long v = -7; char* b;
        { NP; one = gen(4) == 0; n = one ? 1 : 1 + gen(gen(5) ? 20 : 6000); }
        b = new char[n];
        { NP; string d = text(n, st->bits); memcpy(b, d.data(), n); }
        if (one) TRY(r, fl, v = s->write(*b)); else TRY(r, fl, v = s->write(b, n));
        {
          NP;
          if (r || v < 0) {
            if (my_faults() == f0) fail("spurious-failure", "write() failed (flag %d) on a healthy line", (int)(r ? fl : s->error().flag()));
            if (!r && s->error().flag() == ecl::NoError) fail("error-flag", "error() is NoError after a failed write()");
          } else {
            if (v > (long)n || (v < (long)n && my_faults() == f0)) fail("bad-status", "write() of %zu bytes returned %ld", n, v);
            if (s->error().flag() != ecl::NoError) fail("error-flag", "error() is %d after a successful write()", (int)s->error().flag());
            st->want.append(b, v);
          }
          string got = vk_tty_sent(dev);
          if (got.compare(0, got.size(), st->want, 0, got.size())) { size_t k = 0; while (k < st->want.size() && got[k] == st->want[k]) k++; fail("output", "byte %zu of the output reached the other end as %02x instead of %02x", k, (unsigned char)got[k], k < st->want.size() ? (unsigned char)st->want[k] : 0); }
        }
        delete[] b;
        break;
      }
      case 4: { u64 d; { NP; d = (1 + gen(100)) * MS; sleep_ns(d); } break; }
      default: {  // clear
        size_t fed0, w0, q0; { NP; fed0 = st->fed.size(); w0 = vk_tty_waiting(dev); q0 = vk_tty_sending(dev); }
        if (op == 5) s->clear(); else if (op == 6) s->clearInputBuffer(); else s->clearOutputBuffer();
        NP;
        size_t during = st->fed.size() - fed0, w1 = vk_tty_waiting(dev);
        if (op != 7) { if (w1 > during) fail("clear", "%zu bytes are still in the input buffer after it was cleared", w1); st->got = st->fed.size() - w1; }
        else if (w1 != w0 + during) fail("clear", "clearing the output buffer dropped input");
        if (op != 6) { if (vk_tty_sending(dev)) fail("clear", "%zu bytes are still being sent after the output buffer was cleared", vk_tty_sending(dev)); st->want = vk_tty_sent(dev); }
        else if (q0 && vk_tty_sent(dev).size() + vk_tty_sending(dev) != st->want.size()) fail("clear", "clearing the input buffer dropped output");
      }
    }
  }
  // everything written arrives in the end, also when the port is closed first
  { NP; disable_faults(); }
  bool how; { NP; how = gencoin(1, 2); if (how) sleep_ns(100 * MS); }
  bool o = s->open();
  { NP; if (!o) fail("open", "open() is false on a port nobody closed"); if (vk_tty_locker(dev) != 0) fail("lock", "the port is not locked while it is open"); }
  delete s;
  NP;
  if (vk_open_fds(0)) fail("fd-leak", "the port is still open after its object is gone");
  if (vk_tty_locker(dev) >= 0) fail("lock", "the port is still locked after its object is gone");
  for (int k = 0; k < 4000 && vk_tty_sending(dev); k++) sleep_ns(1000 * MS);
  if (vk_tty_sent(dev) != st->want) fail("output", "%zu bytes were written, %zu reached the other end", st->want.size(), vk_tty_sent(dev).size());
}
// opening, closing, refusals, other processes, unplugging
SCENARIO(serial_lifecycle, "C16") {
  struct Port { int dev; bool plugged = true; int rival = -1, rival_p = 0; bool held = false, let_go = false; };
  struct Obj { ecl::Serial* s = nullptr; bool open = false, dead = false; int port; Cfg cfg; long T = 5000; };
  struct State { Port p[2]; Obj o[2]; };
  State* st; int steps;
  {
    NP;
    st = new State;
    for (int k = 0; k < 2; k++) { st->p[k].dev = vk_tty(PORT[k], WireFormat()); st->o[k].port = k; }
    steps = 4 + gen(22);
    if (gencoin(1, 2)) vk_bystander();
    if (faulty()) { for (const char* k : {"open.emfile", "open.eacces", "open.eintr", "open.ebusy", "lock.enolck", "tty.setattr.eio", "tty.drain.eintr", "ioctl"}) if (gencoin(1, 2)) enable_fault(k, 1, 1 + gen(6)); set_fault_budget(1 + gen(6)); }
  }
  auto tally = [st](const char* w) {
    NP;
    int want = st->o[0].open + st->o[1].open;
    if (vk_open_fds(0) > want) fail("fd-leak", "after %s %d descriptors are open where %d ports are", w, vk_open_fds(0), want);
    if (vk_open_fds(0) < want) fail("fd-lost", "after %s %d descriptors are open where %d ports are", w, vk_open_fds(0), want);
    for (Obj& o : st->o) if (st->p[o.port].plugged) { bool mine = vk_tty_locker(st->p[o.port].dev) == 0; if (mine && !o.open) fail("lock", "after %s port %d is locked although it is not open", w, o.port); if (!mine && o.open && !o.dead) fail("lock", "after %s port %d is open but not locked", w, o.port); }
  };
  bool then_read = false;
  for (int step = 0; step < steps; step++) {
    int k, op; { NP; k = gen(2); op = gen_weighted({6, 3, 2, 3, 3, 4, 2, 2}); }
    Obj& o = st->o[k]; Port& p = st->p[k];
    int r, f0; ecl::ErrorFlag fl;
    { NP; f0 = my_faults(); }
    switch (op) {
      case 0: {
        bool raii, fresh, made = false, ok = false, st15; Cfg c;
        { NP; c = any_cfg(); st15 = gen(8) == 0; if (st15) c.stop = 1; fresh = !o.s; raii = gencoin(1, 2); vk_tty_peer(p.dev, wire_of(c)); }
        ecl::Serial* s = o.s;
        if (fresh && raii) { TRY(r, fl, s = new ecl::Serial(PORT[k], (ecl::BaudRate)c.baud, (ecl::DataBits)c.bits, (ecl::StopBits)c.stop, (ecl::Parity)c.parity)); ok = !r && s->open(); if (r) s = nullptr; made = true; }
        else { if (fresh) s = new ecl::Serial(); ok = open_it(s, PORT[k], c, r, fl); }
        bool is = false; if (s) is = s->open();
        {
          NP;
          (void)made;
          if (fresh) o.T = 5000;
          o.s = s;
          bool may = p.plugged && !p.held && !st15;
          if (ok && !may) fail("open", "port %d opened although %s", k, !p.plugged ? "it is gone" : p.held ? "another process has locked it" : "the stop bits are not supported");
          if (!ok && may && my_faults() == f0) fail("spurious-failure", "opening a free port failed (flag %d)", (int)fl);
          if (!ok && (r == 1 ? fl : s ? s->error().flag() : fl) == ecl::NoError) fail("error-flag", "open() failed without an error");
          if (is != ok) fail("open", "open() is %d after open(...) gave %d", is, ok);
          o.open = ok; o.dead = false; o.cfg = c;
          if (ok) nontrivial(); else probe("open.failed");
          if (!ok && p.held && p.rival_p && vk_tty_locker(p.dev) != p.rival_p) fail("lock", "a refused open took the lock of another process");
        }
        tally("open(...)");
        { NP; then_read = ok && gencoin(1, 3); }
        if (!then_read) break;
      }
      // fall through
      case 5: {   // calls on an object in any state
        if (!o.s) break;
        int what; { NP; what = then_read ? 7 : gen(8); then_read = false; }
        char b[4]; long v = 0; long T;
        u64 t0; { NP; t0 = now(); }
        switch (what) {
          case 0: TRY(r, fl, v = o.s->write("abc", 3)); break;
          case 1: o.s->unblock(); { NP; o.T = -1; } TRY(r, fl, v = o.s->read(b, 4)); break;
          case 2: o.s->block(50); { NP; o.T = 50; } TRY(r, fl, v = o.s->read(b[0])); break;
          case 3: TRY(r, fl, v = o.s->remaining()); break;
          case 4: TRY(r, fl, o.s->clear()); break;
          case 5: { NP; T = (long[]){1, 7, 64, 100, 300, 1250, 5000}[gen(7)]; } TRY(r, fl, o.s->block(T)); { NP; o.T = T; } break;
          case 7: TRY(r, fl, v = o.s->read(b, 4)); break;                // as set before, be it on another port or a closed one
          default: TRY(r, fl, o.s->clearInputBuffer()); o.s->clearOutputBuffer(); break;
        }
        { NP;
          if (what == 7 && o.open && !o.dead && my_faults() == f0 && !r && v == 0 && !fault_fired("tty.setattr.eio")) {
            double el = (now() - t0) / 1e6, want = o.T < 0 ? 0 : o.T < 100 ? o.T : o.T / 100 * 100;
            if (el + 0.05 < want) fail("early", "read() on a port with a timeout of %ld ms gave up after %.3f ms", o.T, el);
            if (el > std::max(o.T, 0l) + 20) fail("late", "read() on a port with a timeout of %ld ms took %.3f ms", o.T, el);
            probe("kept.timeout");
          }
          if (what < 3 || what == 7) {
            if (!o.open && !r && v != -1) fail("dead-status", "%s on a closed port returns %ld", what ? "read()" : "write()", v);
            if (!o.open && !r && o.s->error().flag() == ecl::NoError) fail("error-flag", "error() is NoError after using a closed port");
            if (o.open && o.dead && what == 0 && !r && v >= 0) fail("dead-status", "write() to a device that is gone returns %ld", v);
            if (o.open && o.dead && what && !r && v > 0) fail("dead-status", "read() from a device that is gone returns %ld", v);
            if (o.open && !o.dead && my_faults() == f0 && (r || v != (what ? 0 : 3))) fail("bad-status", "%s on an idle port gives %ld", what ? "read()" : "write()", r ? -1 : v);
          } else if (r) fail("op-threw", "an auxiliary call threw flag %d", (int)fl);
          if (what == 3 && v != 0) fail("remaining", "remaining() is %ld on a port without input", v);
          if (now() - t0 > 7000 * MS && !fault_fired("tty.setattr.eio")) fail("late", "a call took %.1f s", (now() - t0) / 1e9); }
        tally("a call");
        break;
      }
      case 1: { if (!o.s) break; s_close: o.s->close(); { bool is = o.s->open(); NP; if (is) fail("open-after-close", "open() is true after close()"); o.open = false; } tally("close()"); bool again; { NP; again = gen(4) == 0; } if (again) goto s_close; break; }
      case 2: { if (!o.s) break; delete o.s; { NP; o.s = nullptr; o.open = false; } tally("~Serial"); break; }
      case 3: {   // unplugged, plugged in again
        NP;
        if (p.plugged) { vk_tty_unplug(p.dev); p.plugged = false; if (o.open) o.dead = true; p.held = false; }
        else { vk_tty_plug(p.dev); p.plugged = true; }
        break;
      }
      case 4: {   // open() notices a device that is gone
        if (!o.s) break;
        bool is = o.s->open();
        { NP;
          if (o.open && !p.plugged) { if (is) fail("open", "open() is true although the device is gone"); o.open = false; probe("gone"); }
          else if (is != o.open) fail("open", "open() is %d where it should be %d", is, o.open); }
        tally("open()");
        break;
      }
      default: {  // another process takes or releases the port
        NP;
        if (p.rival >= 0 && !finished(p.rival) && proc_alive(p.rival_p)) {
          if (op == 7) { kill_proc(p.rival_p); note_fault("process.crash"); p.held = false; p.rival = -1; }
          else { p.let_go = true; touch(); join_fiber(p.rival); p.held = false; p.rival = -1; }
        } else if (p.plugged) {
          if (p.rival_p == 0 || !proc_alive(p.rival_p)) p.rival_p = new_proc("rival");
          p.let_go = false;
          Port* pp = &p; bool* ready = new bool(false); bool mine = o.open && !o.dead;
          p.rival = spawn("rival", [=] {
            ecl::Serial* s = new ecl::Serial(); int r2; ecl::ErrorFlag f2; bool ok = false; int ff; { NP; ff = my_faults(); }
            TRY(r2, f2, ok = s->open(PORT[k]));
            { NP; if (!r2 && ok) { if (mine) fail("lock", "two processes have port %d open", k); pp->held = true; } else if (!mine && my_faults() == ff) fail("spurious-failure", "another process could not open a free port (flag %d)", (int)f2); *ready = true; touch(); if (pp->held) wait("let go", [pp] { return pp->let_go; }); }
            delete s;
          }, p.rival_p);
          wait("rival", [=] { return *ready; });
        }
      }
    }
  }
  for (Obj& o : st->o) { delete o.s; { NP; o.s = nullptr; o.open = false; } tally("~Serial"); }
  NP;
  for (Port& p : st->p) { p.let_go = true; touch(); }
}
