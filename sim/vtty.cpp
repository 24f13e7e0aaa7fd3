// Serial lines: terminal settings with their effect on the data (line discipline and wire format), bounded
// input and output queues, VMIN/VTIME reads, record locks, unplugging.
#include "fiber.hpp"
#include "runner.hpp"
#include "vk.hpp"
#include "wrap.hpp"
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <termios.h>

extern "C" {
int __real_tcgetattr(int, struct termios*);
int __real_tcsetattr(int, int, const struct termios*);
int __real_tcflush(int, int);
int __real_tcdrain(int);
int __real_tcflow(int, int);
int __real_tcsendbreak(int, int);
}

namespace sim { extern std::function<Ofd*(const std::string&, int)>* g_dev_open; }
extern "C" {
extern std::function<int(const std::string&)>* sim_dev_access;
extern std::function<int(sim::Ofd*, unsigned long, void*)>* sim_dev_ioctl;
extern std::function<int(sim::Ofd*, int, struct flock*)>* sim_dev_lock;
}

namespace sim {
struct Tty {
  std::string name;
  bool present = true;
  int generation = 0;                 // of the device node: an unplugged device stays dead for those who had it open
  struct termios line;
  WireFormat peer;                    // what the other end speaks
  std::string in;                     // received, unread
  std::string line_buf;               // canonical mode: the unfinished line
  struct Out { char c; u64 done; };
  std::deque<Out> out;                // being transmitted
  std::string sent;                   // arrived at the other end
  int locker = -1;                    // process holding the record lock
  u64 overruns = 0;
};
static std::vector<Tty*>* g_ttys;
static const speed_t SPEED[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200, B230400, B460800, B921600};
static const long RATE[] = {110, 300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200, 230400, 460800, 921600};
static WireFormat wire(const struct termios& t) {
  WireFormat w;
  w.rate = 0;
  speed_t o = cfgetospeed(&t), i = cfgetispeed(&t);
  for (int k = 0; k < 14; k++) if (SPEED[k] == o && (i == o || i == 0)) w.rate = RATE[k];
  switch (t.c_cflag & CSIZE) { case CS5: w.bits = 5; break; case CS6: w.bits = 6; break; case CS7: w.bits = 7; break; default: w.bits = 8; }
  w.stop = t.c_cflag & CSTOPB ? 2 : 1;
  w.parity = !(t.c_cflag & PARENB) ? 0 : t.c_cflag & PARODD ? 1 : 2;
  return w;
}
static bool same_wire(const WireFormat& a, const WireFormat& b) { return a.rate == b.rate && a.bits == b.bits && a.parity == b.parity && a.stop == b.stop; }
static unsigned char garble(unsigned char c) { return (c ^ 0x55) + 13; }
static u64 byte_ns(Tty* t) {
  WireFormat w = wire(t->line);
  if (!w.rate) return 1000000;
  return (u64)(1 + w.bits + (w.parity ? 1 : 0) + w.stop) * 1000000000ull / w.rate;
}
static void settle(Tty* t) {          // what has left the wire by now
  while (!t->out.empty() && t->out.front().done <= now()) { t->sent += t->out.front().c; t->out.pop_front(); }
}
static void transmit(Tty* t, unsigned char c) {
  WireFormat w = wire(t->line);
  c &= (1 << w.bits) - 1;
  if (!same_wire(w, t->peer)) c = garble(c);
  u64 from = t->out.empty() ? now() : std::max(now(), t->out.back().done);
  t->out.push_back({(char)c, from + byte_ns(t)});
}
static void emit(Tty* t, unsigned char c) {
  if ((t->line.c_oflag & OPOST) && (t->line.c_oflag & ONLCR) && c == '\n') transmit(t, '\r');
  if ((t->line.c_oflag & OPOST) && (t->line.c_oflag & OCRNL) && c == '\r') c = '\n';
  transmit(t, c);
}
static void receive(Tty* t, unsigned char c) {
  const struct termios& l = t->line;
  if (!(l.c_cflag & CREAD)) return;
  WireFormat w = wire(l);
  c &= (1 << t->peer.bits) - 1;
  if (!same_wire(w, t->peer)) c = garble(c);
  c &= (1 << w.bits) - 1;
  if (l.c_iflag & ISTRIP) c &= 0x7f;
  if ((l.c_iflag & IXON) && (c == 0x11 || c == 0x13)) return;
  if ((l.c_lflag & ISIG) && (c == 3 || c == 0x1c || c == 0x1a)) return;
  if (c == '\r') { if (l.c_iflag & IGNCR) return; if (l.c_iflag & ICRNL) c = '\n'; }
  else if (c == '\n' && (l.c_iflag & INLCR)) c = '\r';
  if (l.c_lflag & ECHO) emit(t, c);
  std::string& q = (l.c_lflag & ICANON) ? t->line_buf : t->in;
  if ((l.c_iflag & PARMRK) && !(l.c_iflag & IGNPAR) && c == 0xff && !(l.c_iflag & ISTRIP)) q += (char)c;
  if (t->in.size() + t->line_buf.size() >= 4095) { t->overruns++; return; }
  q += (char)c;
  if ((l.c_lflag & ICANON) && c == '\n') { t->in += t->line_buf; t->line_buf.clear(); }
}
int vk_tty(const std::string& name, const WireFormat& peer) {
  Guard g;
  Tty* t = new Tty;
  t->name = name;
  t->peer = peer;
  memset(&t->line, 0, sizeof t->line);       // a terminal's usual state: cooked
  t->line.c_iflag = ICRNL | IXON;
  t->line.c_oflag = OPOST | ONLCR;
  t->line.c_cflag = CS8 | CREAD | HUPCL;
  t->line.c_lflag = ISIG | ICANON | ECHO | ECHOE;
  cfsetspeed(&t->line, B9600);
  t->line.c_cc[VMIN] = 1;
  g_ttys->push_back(t);
  return g_ttys->size() - 1;
}
void vk_tty_peer(int d, const WireFormat& w) { (*g_ttys)[d]->peer = w; }
void vk_tty_feed(int d, const std::string& s) { Guard g; Tty* t = (*g_ttys)[d]; if (!t->present) return; for (char c : s) receive(t, c); touch(); }
std::string vk_tty_sent(int d) { Guard g; settle((*g_ttys)[d]); return (*g_ttys)[d]->sent; }
size_t vk_tty_sending(int d) { Guard g; settle((*g_ttys)[d]); return (*g_ttys)[d]->out.size(); }
size_t vk_tty_waiting(int d) { return (*g_ttys)[d]->in.size(); }
int vk_tty_locker(int d) { return (*g_ttys)[d]->locker; }
void vk_tty_unplug(int d) {
  Guard g;
  Tty* t = (*g_ttys)[d];
  t->present = false;
  t->generation++;
  t->in.clear(); t->line_buf.clear(); t->out.clear();
  t->locker = -1;
  note_fault("tty.unplug");
  touch();
}
void vk_tty_plug(int d) { Guard g; (*g_ttys)[d]->present = true; touch(); }

struct TtyOfd : Ofd {
  Tty* t;
  int gen, procid;
  bool dead() { return gen != t->generation; }
  bool can_read() override { return dead() || !t->in.empty(); }
  ssize_t read(void* b, size_t n) override {
    if ((flags & O_ACCMODE) == O_WRONLY) RV(EBADF);
    if (dead()) return 0;
    if (n == 0) return 0;
    if (fault("tty.read.eio")) { log("tty read -> EIO"); RV(EIO); }
    bool canon = t->line.c_lflag & ICANON;
    size_t vmin = canon ? 1 : t->line.c_cc[VMIN];
    u64 vtime = canon ? 0 : (u64)t->line.c_cc[VTIME] * 100000000ull;
    bool intr = fault("tty.read.eintr");
    if (!(vmin == 0 && vtime == 0)) {
      size_t need = vmin ? std::min(vmin, n) : 1;
      if (t->in.empty() && (flags & O_NONBLOCK)) RV(EAGAIN);
      u64 dl = vmin == 0 ? now() + vtime : INF;
      bool first = true;
      while (t->in.size() < need && !dead()) {
        if (flags & O_NONBLOCK) break;
        WaitOpts o;
        o.interruptible = true; o.cancellable = true;
        if (vmin && vtime && !t->in.empty()) dl = now() + vtime;
        o.mono_deadline = dl;
        if (intr && first) { g_cur->intr_at = now() + env(3) * env(100000000); first = false; }
        size_t had = t->in.size();
        WaitResult r = kwait("read of a serial line", [this, had] { return t->in.size() > had || dead(); }, o);
        if (r == INTERRUPTED) { if (t->in.empty()) { log("tty read -> EINTR"); RV(EINTR); } break; }
        if (r == TIMEDOUT) break;
      }
      if (dead()) return 0;
    }
    size_t k = std::min(n, t->in.size());
    if (canon) { size_t e = t->in.find('\n'); if (e != std::string::npos) k = std::min(k, e + 1); }
    memcpy(b, t->in.data(), k);
    t->in.erase(0, k);
    return k;
  }
  ssize_t write(const void* b, size_t n) override {
    if ((flags & O_ACCMODE) == O_RDONLY) RV(EBADF);
    if (dead()) RV(EIO);
    if (n == 0) return 0;
    if (fault("tty.write.eio")) { log("tty write -> EIO"); RV(EIO); }
    bool intr = fault("tty.write.eintr");
    size_t stop = intr ? env(n + 1) : n, done = 0;
    const size_t CAP = 4096;
    while (done < n) {
      settle(t);
      if (intr && done >= stop) { if (!done) { log("tty write -> EINTR"); RV(EINTR); } break; }
      if (t->out.size() >= CAP) {
        if (flags & O_NONBLOCK) { if (!done) RV(EAGAIN); break; }
        WaitOpts o; o.mono_deadline = t->out[t->out.size() - CAP].done + 1;
        kwait("write to a serial line", [this] { return dead(); }, o);
        if (dead()) { if (!done) RV(EIO); break; }
        continue;
      }
      emit(t, ((const unsigned char*)b)[done++]);
    }
    return done;
  }
  int last_close(bool) override {
    if (!dead() && t->locker == procid) { t->locker = -1; touch(); }
    return 0;
  }
};
void vk_tty_init() {
  g_ttys = new std::vector<Tty*>;
  g_dev_open = new std::function<Ofd*(const std::string&, int)>([](const std::string& p, int) -> Ofd* {
    static const struct { const char* k; int e; } F[] = {{"open.emfile", EMFILE}, {"open.eacces", EACCES}, {"open.eintr", EINTR}, {"open.ebusy", EBUSY}};
    for (auto& f : F) if (fault(f.k)) { errno = f.e; return nullptr; }
    for (Tty* t : *g_ttys) if (t->name == p) {
      if (!t->present) { errno = ENOENT; return nullptr; }
      TtyOfd* o = new TtyOfd;
      o->t = t; o->gen = t->generation; o->procid = proc(); o->kind = "serial line";
      return o;
    }
    errno = ENOENT;
    return nullptr;
  });
  sim_dev_access = new std::function<int(const std::string&)>([](const std::string& p) { for (Tty* t : *g_ttys) if (t->name == p) return t->present ? 0 : ENOENT; return ENOENT; });
  sim_dev_ioctl = new std::function<int(Ofd*, unsigned long, void*)>([](Ofd* f, unsigned long req, void* a) -> int {
    TtyOfd* o = dynamic_cast<TtyOfd*>(f);
    if (!o) RV(ENOTTY);
    if (o->dead()) RV(EIO);
    settle(o->t);
    if (req == FIONREAD) { check_range(a, sizeof(int), true, "ioctl"); *(int*)a = o->t->in.size(); return 0; }
    if (req == TIOCOUTQ) { check_range(a, sizeof(int), true, "ioctl"); *(int*)a = o->t->out.size(); return 0; }
    if (req == TIOCEXCL || req == TIOCNXCL) return 0;
    RV(EINVAL);
  });
  sim_dev_lock = new std::function<int(Ofd*, int, struct flock*)>([](Ofd* f, int cmd, struct flock* l) -> int {
    check_range(l, sizeof *l, cmd == F_GETLK, "fcntl");
    TtyOfd* o = dynamic_cast<TtyOfd*>(f);
    if (!o) return 0;
    if (o->dead()) RV(EIO);
    Tty* t = o->t;
    bool other = t->locker >= 0 && t->locker != proc();
    if (cmd == F_GETLK) { l->l_type = other ? F_WRLCK : F_UNLCK; return 0; }
    if (fault("lock.enolck")) RV(ENOLCK);
    if (l->l_type != F_UNLCK && l->l_type != F_RDLCK && l->l_type != F_WRLCK) RV(EINVAL);
    if (l->l_whence != SEEK_SET && l->l_whence != SEEK_CUR && l->l_whence != SEEK_END) RV(EINVAL);
    if (l->l_type == F_UNLCK) { if (!other) t->locker = -1; touch(); return 0; }
    if (other) {
      if (cmd == F_SETLK) { log("lock held by process %d -> EAGAIN", t->locker); RV(EAGAIN); }
      WaitOpts w; w.interruptible = true;
      if (kwait("record lock", [t] { return t->locker < 0; }, w) == INTERRUPTED) RV(EINTR);
    }
    if (l->l_type == F_RDLCK) { log("shared lock taken"); return 0; }   // keeps nobody out
    t->locker = proc();
    log("lock taken");
    return 0;
  });
}
static TtyOfd* tty(int fd, const char* by) {
  Ofd* f = vk_fd(fd, by);
  if (!f) return nullptr;
  TtyOfd* o = dynamic_cast<TtyOfd*>(f);
  if (!o) errno = ENOTTY;
  else if (o->dead()) { errno = EIO; return nullptr; }
  return o;
}
static int drain(TtyOfd* o) {
  Tty* t = o->t;
  settle(t);
  if (t->out.empty()) return 0;
  WaitOpts w; w.mono_deadline = t->out.back().done + 1; w.interruptible = true;
  if (fault("tty.drain.eintr")) g_cur->intr_at = now() + env(2) * env(10000000);
  WaitResult r = kwait("drain of a serial line", [o] { return o->dead(); }, w);
  if (r == INTERRUPTED) { log("drain -> EINTR"); RV(EINTR); }
  if (o->dead()) RV(EIO);
  settle(t);
  return 0;
}
}  // namespace sim
using namespace sim;

extern "C" {
int __wrap_tcgetattr(int fd, struct termios* p) {
  LIVE(__real_tcgetattr(fd, p));
  check_range(p, sizeof *p, true, "tcgetattr");
  yield_point("tcgetattr"); SCRIPT("tcgetattr");
  TtyOfd* o = tty(fd, "tcgetattr");
  if (!o) return -1;
  *p = o->t->line;
  return 0;
}
int __wrap_tcsetattr(int fd, int act, const struct termios* p) {
  LIVE(__real_tcsetattr(fd, act, p));
  check_range(p, sizeof *p, false, "tcsetattr");
  yield_point("tcsetattr"); SCRIPT("tcsetattr");
  TtyOfd* o = tty(fd, "tcsetattr");
  if (!o) return -1;
  if (fault("tty.setattr.eio")) { log("tcsetattr %d -> EIO", fd); RV(EIO); }
  if (act == TCSADRAIN || act == TCSAFLUSH) { if (drain(o) < 0) return -1; }
  Tty* t = o->t;
  if (act == TCSAFLUSH) { t->in.clear(); t->line_buf.clear(); }
  if (!(p->c_lflag & ICANON) && (t->line.c_lflag & ICANON)) { t->in += t->line_buf; t->line_buf.clear(); }
  t->line = *p;
  touch();
  log("tcsetattr %d action %d vmin %d vtime %d", fd, act, p->c_cc[VMIN], p->c_cc[VTIME]);
  return 0;
}
int __wrap_tcflush(int fd, int q) {
  LIVE(__real_tcflush(fd, q));
  yield_point("tcflush"); SCRIPT("tcflush");
  TtyOfd* o = tty(fd, "tcflush");
  if (!o) return -1;
  settle(o->t);
  if (q == TCIFLUSH || q == TCIOFLUSH) { o->t->in.clear(); o->t->line_buf.clear(); }
  if (q == TCOFLUSH || q == TCIOFLUSH) o->t->out.clear();
  touch();
  log("tcflush %d %d", fd, q);
  return 0;
}
int __wrap_tcdrain(int fd) { LIVE(__real_tcdrain(fd)); yield_point("tcdrain"); SCRIPT("tcdrain"); TtyOfd* o = tty(fd, "tcdrain"); return o ? drain(o) : -1; }
int __wrap_tcflow(int fd, int a) { LIVE(__real_tcflow(fd, a)); return tty(fd, "tcflow") ? 0 : -1; }
int __wrap_tcsendbreak(int fd, int d) { LIVE(__real_tcsendbreak(fd, d)); return tty(fd, "tcsendbreak") ? 0 : -1; }
}
