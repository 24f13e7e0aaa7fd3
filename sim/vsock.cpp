// Stream sockets over a simulated network: in-order byte streams with arbitrary segmentation and latency,
// bounded buffers, hang-up, reset, refused and aborted connections.  Plus ioctl, fcntl, poll and select.
#include "fiber.hpp"
#include "runner.hpp"
#include "vk.hpp"
#include "wrap.hpp"
#include <arpa/inet.h>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>

extern "C" {
#define R(ret, name, args) ret __real_##name args;
R(int, socket, (int, int, int))
R(int, bind, (int, const struct sockaddr*, socklen_t))
R(int, listen, (int, int))
R(int, accept, (int, struct sockaddr*, socklen_t*))
R(int, accept4, (int, struct sockaddr*, socklen_t*, int))
R(int, connect, (int, const struct sockaddr*, socklen_t))
R(ssize_t, send, (int, const void*, size_t, int))
R(ssize_t, recv, (int, void*, size_t, int))
R(ssize_t, sendto, (int, const void*, size_t, int, const struct sockaddr*, socklen_t))
R(ssize_t, recvfrom, (int, void*, size_t, int, struct sockaddr*, socklen_t*))
R(ssize_t, sendmsg, (int, const struct msghdr*, int))
R(ssize_t, recvmsg, (int, struct msghdr*, int))
R(int, shutdown, (int, int))
R(int, setsockopt, (int, int, int, const void*, socklen_t))
R(int, getsockopt, (int, int, int, void*, socklen_t*))
R(int, getsockname, (int, struct sockaddr*, socklen_t*))
R(int, getpeername, (int, struct sockaddr*, socklen_t*))
R(int, ioctl, (int, unsigned long, void*))
R(int, fcntl, (int, int, void*))
R(int, poll, (struct pollfd*, nfds_t, int))
R(int, ppoll, (struct pollfd*, nfds_t, const struct timespec*, const sigset_t*))
R(int, pselect, (int, fd_set*, fd_set*, fd_set*, const struct timespec*, const sigset_t*))
R(int, lockf, (int, int, off_t))
R(int, select, (int, fd_set*, fd_set*, fd_set*, struct timeval*))
R(struct hostent*, gethostbyname, (const char*))
R(int, gethostbyname_r, (const char*, struct hostent*, char*, size_t, struct hostent**, int*))
R(int, getaddrinfo, (const char*, const char*, const struct addrinfo*, struct addrinfo**))
R(void, freeaddrinfo, (struct addrinfo*))
#undef R
}

namespace sim {
u64 vk_net_latency = 2000;           // largest latency of a segment, in units of 50 ns
size_t vk_net_buffer = 65536;        // bytes in flight or unread per direction
static std::map<std::string, uint32_t>* g_hosts;
void vk_host(const std::string& name, uint32_t addr) { Guard g; (*g_hosts)[name] = addr; }
// one direction of a connection
struct Half {
  std::string rx;                    // arrived, unread
  size_t inflight = 0;
  u64 last = 0;                      // arrival of the latest segment: keeps order
  bool fin = false;                  // end of stream arrived
  bool gone = false;                 // the reader's socket is closed
};
struct Conn { Half h[2]; bool rst[2] = {false, false}; bool err_pending[2] = {false, false}; bool closed[2] = {false, false}; uint32_t addr = 0; int port = 0; bool dead = false; u64 hold = 0; };
struct Sock;
struct Listener { int port = 0; std::deque<Conn*> q; int backlog = 0; bool open = true; uint32_t addr = 0; int procid = 0; uint32_t key = 0; };
static std::map<std::pair<uint32_t, int>, Listener*>* g_listen;   // by address (0 = any) and port
static std::map<int, int>* g_rigid;                               // those of them without SO_REUSEADDR
static std::map<int, int>* g_unshared;                            // those of them without SO_REUSEPORT
static int g_addrinfos;
static std::map<int, int>* g_bound;                               // sockets bound to a port
static std::map<int, u64>* g_timewait;
static std::vector<Conn*>* g_conns;

static u64 latency(Conn* c) {
  u64 l = 200 + env(vk_net_latency) * 50;
  if (fault("net.stall")) l += (1 + env(50)) * 1000000;
  return std::max(now() + l, c->hold);
}
static void reset(Conn* c) {          // both ends learn that the connection is gone
  for (int s = 0; s < 2; s++) if (!c->rst[s]) { c->rst[s] = true; c->err_pending[s] = true; }
  touch();
}
static void arrive(Conn* c, int to, std::string data, bool fin) {
  Half& h = c->h[to];
  h.inflight -= data.size();
  if (c->rst[to]) return;
  if (h.gone) {                       // nobody there any more: reset the sender
    if (!data.empty()) { int from = 1 - to; at(latency(c), [c, from] { if (!c->rst[from]) { c->rst[from] = true; c->err_pending[from] = true; touch(); } }); }
    return;
  }
  h.rx += data;
  if (fin) h.fin = true;
  touch();
}
static void transmit(Conn* c, int to, std::string data, bool fin) {
  Half& h = c->h[to];
  h.inflight += data.size();
  size_t pos = 0;
  do {
    size_t n = data.size() - pos;
    if (n > 1 && env(3) == 0) n = 1 + env(n - 1);
    std::string part = data.substr(pos, n);
    pos += n;
    u64 t = std::max(latency(c), h.last + 1);
    h.last = t;
    bool last = fin && pos >= data.size();
    at(t, [c, to, part, last] { arrive(c, to, part, last); });
  } while (pos < data.size());
}
struct Sock : Ofd {
  enum St { NEW, BOUND, LISTENING, CONNECTING, CONNECTED } st = NEW;
  int port = 0; bool reuse = false, rigid = false, reuseport = false, shares = true; uint32_t addr = 0;
  Listener* l = nullptr;
  Conn* c = nullptr;
  int side = 0;
  bool wr_shut = false, rd_shut = false;
  i64 rcvtimeo = 0, sndtimeo = 0;
  Sock() { kind = "socket"; flags = O_RDWR; }
  bool nonblock(int fl) { return (flags & O_NONBLOCK) || (fl & MSG_DONTWAIT); }
  ssize_t recv(void* b, size_t n, int fl) {
    if (st != CONNECTED) RV(ENOTCONN);
    Half& h = c->h[side];
    if (fault("sock.recv.eio")) RV(ENOMEM);
    if (fl & MSG_OOB) RV(EINVAL);                 // nothing urgent ever arrives here
    if (n == 0) return 0;
    auto ready = [this, &h] { return !h.rx.empty() || h.fin || c->rst[side] || rd_shut; };
    size_t want = (fl & MSG_WAITALL) ? n : 1, got = 0;
    for (;;) {
      if (!h.rx.empty()) {
        size_t k = std::min(n - got, h.rx.size());
        if (!(fl & MSG_WAITALL) && k > 1 && fault("sock.short_read")) k = 1 + env(k - 1);
        if ((fl & MSG_PEEK) && k < want && !h.fin && !c->rst[side] && !nonblock(fl)) { size_t n0 = h.rx.size(); WaitOpts o; o.interruptible = true; o.cancellable = true; kwait("recv", [this, &h, n0] { return h.rx.size() > n0 || h.fin || c->rst[side] || rd_shut; }, o); if (h.rx.size() > n0) continue; }
        memcpy((char*)b + got, h.rx.data(), k);
        if (!(fl & MSG_PEEK)) { h.rx.erase(0, k); touch(); }
        got += k;
        if (got >= want || (fl & MSG_PEEK)) return got;
      }
      if (got && (h.fin || c->rst[side])) return got;
      if (c->rst[side]) { if (c->err_pending[side]) { c->err_pending[side] = false; h.rx.clear(); RV(ECONNRESET); } return 0; }
      if (h.fin || rd_shut) return 0;
      if (nonblock(fl)) RV(EAGAIN);
      WaitOpts o;
      o.interruptible = true;
      o.cancellable = true;
      if (rcvtimeo) o.mono_deadline = now() + rcvtimeo;
      if (fault("sock.eintr")) g_cur->intr_at = now() + env(2) * env(200000);
      WaitResult r = kwait("recv", ready, o);
      if (r != WOKEN && !ready()) { if (got) return got; RV(r == TIMEDOUT ? EAGAIN : EINTR); }
    }
  }
  ssize_t send(const void* b, size_t n, int fl) {
    if (st != CONNECTED) { if (!(fl & MSG_NOSIGNAL)) fail("sigpipe", "send on an unconnected socket without MSG_NOSIGNAL: SIGPIPE kills the process"); RV(st == NEW || st == BOUND ? EPIPE : ENOTCONN); }
    size_t done = 0;
    for (;;) {
      if (wr_shut || c->rst[side]) {
        if (done) return done;
        if (c->err_pending[side]) { c->err_pending[side] = false; if (!c->h[side].fin) RV(ECONNRESET); }
        if (!(fl & MSG_NOSIGNAL)) fail("sigpipe", "write to a connection the peer has closed, without MSG_NOSIGNAL: SIGPIPE kills the process");
        RV(EPIPE);
      }
      if (fault("sock.send.eio")) { if (done) return done; RV(ENOBUFS); }
      Half& h = c->h[1 - side];
      size_t used = h.inflight + h.rx.size();
      size_t room = used < vk_net_buffer ? vk_net_buffer - used : 0;
      size_t k = std::min(n - done, room);
      if (k) {
        size_t inl = (fl & MSG_OOB) && done + k == n ? k - 1 : k;   // the last octet of urgent data is not in the stream
        if (inl) transmit(c, 1 - side, std::string((const char*)b + done, inl), false);
        done += k;
      }
      if (done == n) return done;
      if (nonblock(fl)) { if (done) return done; RV(EAGAIN); }
      WaitOpts o;
      o.interruptible = true;
      o.cancellable = true;
      if (sndtimeo) o.mono_deadline = now() + sndtimeo;
      probe("send.blocked");
      if (fault("sock.eintr")) g_cur->intr_at = now() + env(2) * env(200000);
      auto ready = [this, &h] { return h.inflight + h.rx.size() < vk_net_buffer || c->rst[side] || wr_shut; };
      WaitResult r = kwait("send", ready, o);
      if (r != WOKEN && !ready()) { if (done) return done; RV(r == TIMEDOUT ? EAGAIN : EINTR); }
    }
  }
  ssize_t read(void* b, size_t n) override { return recv(b, n, 0); }
  ssize_t write(const void* b, size_t n) override { return send(b, n, 0); }
  bool can_read() override {
    if (st == LISTENING) return !l->q.empty();
    if (st != CONNECTED) return true;
    Half& h = c->h[side];
    return !h.rx.empty() || h.fin || c->rst[side];
  }
  bool can_write() override { if (st != CONNECTED) return true; Half& h = c->h[1 - side]; return h.inflight + h.rx.size() < vk_net_buffer || c->rst[side]; }
  int poll_extra() override { return st == CONNECTED && c->rst[side] ? POLLHUP | POLLERR : st == CONNECTED && c->h[side].fin && wr_shut ? POLLHUP : 0; }
  int last_close(bool) override {
    if (l) {
      l->open = false;
      g_listen->erase({l->key, l->port});
      for (Conn* p : l->q) { p->closed[1] = true; p->h[1].gone = true; Conn* q = p; at(latency(p), [q] { if (!q->rst[0]) { q->rst[0] = true; q->err_pending[0] = true; touch(); } }); }
    }
    if (port && side == 0) { if (--(*g_bound)[port] <= 0) g_bound->erase(port); if (rigid) --(*g_rigid)[port]; if (!shares) --(*g_unshared)[port]; }
    if (c && st == CONNECTED) {
      Half& h = c->h[side];
      h.gone = true;
      c->closed[side] = true;
      if (!c->closed[1 - side] && side == 1) (*g_timewait)[c->port] = now() + 60000000000ull;
      if (!c->rst[side]) {
        if (!h.rx.empty()) { Conn* k = c; int o = 1 - side; at(std::max(latency(c), c->h[o].last + 1), [k, o] { if (!k->rst[o]) { k->rst[o] = true; k->err_pending[o] = true; touch(); } }); }
        else if (!wr_shut) transmit(c, 1 - side, "", true);
      }
    }
    return 0;
  }
};
std::vector<int> vk_socks() { std::vector<int> v; for (int fd = 3; fd < 200; fd++) if (dynamic_cast<Sock*>(vk_fd_quiet(fd))) v.push_back(fd); return v; }
static Sock* sock(int fd, const char* by) {
  Ofd* f = vk_fd(fd, by);
  if (!f) return nullptr;
  Sock* s = dynamic_cast<Sock*>(f);
  if (!s) { errno = ENOTSOCK; return nullptr; }
  return s;
}
// scenario controls
void vk_net_reset() { Guard g; note_fault("net.reset"); for (Conn* c : *g_conns) if (!c->closed[0] || !c->closed[1]) reset(c); }
void vk_net_partition(u64 ns) { Guard g; note_fault("net.partition"); for (Conn* c : *g_conns) c->hold = std::max(c->hold, now() + ns); }
long vk_conn_rx(int side) { Guard g; return g_conns->empty() ? -1 : (long)g_conns->back()->h[side].rx.size(); }
bool vk_conn_reset(int side) { Guard g; return !g_conns->empty() && g_conns->back()->rst[side]; }
int vk_listeners() { return (int)g_listen->size(); }
void vk_sock_init() {
  g_hosts = new std::map<std::string, uint32_t>;
  g_listen = new std::map<std::pair<uint32_t, int>, Listener*>;
  g_bound = new std::map<int, int>;
  g_rigid = new std::map<int, int>;
  g_unshared = new std::map<int, int>;
  g_addrinfos = 0;
  g_timewait = new std::map<int, u64>;
  g_conns = new std::vector<Conn*>;
  (*g_hosts)["localhost"] = 0x7f000001;
  (*g_hosts)["thishost"] = vk_own_addr;
}
static bool resolve(const char* name, uint32_t& a, int& herr) {
  u64 d = 200 + env(40) * 100;
  u64 t = now() + d;
  WaitOpts o; o.mono_deadline = t;
  kwait("name lookup", [] { return false; }, o);
  if (fault("dns.again")) { herr = TRY_AGAIN; return false; }
  if (fault("dns.fail")) { herr = NO_RECOVERY; return false; }
  struct in_addr in;
  if (inet_aton(name, &in)) { a = ntohl(in.s_addr); return true; }
  auto i = g_hosts->find(name);
  if (i == g_hosts->end()) { herr = HOST_NOT_FOUND; return false; }
  a = i->second;
  return true;
}
static Listener* find_listener(uint32_t a, int port) {
  auto i = g_listen->find({a, port});
  if (i != g_listen->end()) return i->second;
  if ((a >> 24) == 0x7f || a == vk_own_addr) { i = g_listen->find({0, port}); if (i != g_listen->end()) return i->second; }
  return nullptr;
}
// whether somebody of this host listens where a socket bound to that address would
static bool listened(int port, uint32_t a) {
  for (auto& i : *g_listen) {
    uint32_t b = i.second->addr;
    if (i.second->port == port && (b == 0 || b >> 24 == 0x7f || b == vk_own_addr) && (a == 0 || b == 0 || a == b)) return true;
  }
  return false;
}
// a listening endpoint of another host, served by the scenario; returns its accept descriptor in this process
int vk_addrinfos() { return g_addrinfos; }
int vk_remote_listener(uint32_t addr, int port) {
  Guard g;
  Sock* s = new Sock;
  s->st = Sock::LISTENING;
  s->l = new Listener;
  s->l->addr = addr; s->l->port = port; s->l->backlog = 8; s->l->procid = proc();
  s->l->key = addr;
  (*g_listen)[{addr, port}] = s->l;
  return vk_install(s);
}
static int accept_impl(int fd, struct sockaddr* a, socklen_t* al, int fl) {
  yield_point("accept"); SCRIPT("accept");
  Sock* s = sock(fd, "accept");
  if (!s) return -1;
  if (s->st != Sock::LISTENING) { log("accept %d -> EINVAL", fd); RV(EINVAL); }
  static const struct { const char* k; int e; } F[] = {{"accept.emfile", EMFILE}, {"accept.enfile", ENFILE}, {"accept.econnaborted", ECONNABORTED}, {"accept.enobufs", ENOBUFS}};
  for (auto& f : F) if (fault(f.k)) { log("accept %d -> errno %d", fd, f.e); RV(f.e); }
  Listener* l = s->l;
  if (l->q.empty()) {
    if (s->flags & O_NONBLOCK) RV(EAGAIN);
    WaitOpts o;
    o.interruptible = true;
    o.cancellable = true;
    if (fault("accept.eintr")) g_cur->intr_at = now() + env(2) * env(200000);
    WaitResult r = kwait("accept", [l] { return !l->q.empty() || !l->open; }, o);
    if (!l->open) fail("fd-misuse", "descriptor %d was closed while %s waits in accept()", fd, fname(self()));
    if (r != WOKEN) { log("accept %d -> EINTR", fd); RV(EINTR); }
  }
  Conn* c = l->q.front();
  l->q.pop_front();
  Sock* n = new Sock;
  n->st = Sock::CONNECTED;
  n->c = c;
  n->side = 1;
  if (fl & SOCK_NONBLOCK) n->flags |= O_NONBLOCK;
  if (a && al) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(0x7f000001); in.sin_port = htons(40000); memcpy(a, &in, std::min((size_t)*al, sizeof in)); *al = sizeof in; }
  touch();
  int r = vk_install(n);
  log("accept %d -> %d", fd, r);
  return r;
}
static int connect_impl(int fd, const struct sockaddr* a, socklen_t) {
  yield_point("connect"); SCRIPT("connect");
  Sock* s = sock(fd, "connect");
  if (!s) return -1;
  const struct sockaddr_in* in = (const struct sockaddr_in*)a;
  if (in->sin_family != AF_INET) RV(EAFNOSUPPORT);
  uint32_t addr = ntohl(in->sin_addr.s_addr);
  int port = ntohs(in->sin_port);
  if (s->st == Sock::CONNECTED) RV(EISCONN);
  static const struct { const char* k; int e; } F[] = {{"connect.etimedout", ETIMEDOUT}, {"connect.ehostunreach", EHOSTUNREACH}, {"connect.enetunreach", ENETUNREACH}};
  for (auto& f : F) if (fault(f.k)) {
    WaitOpts o; o.mono_deadline = now() + 1000 + env(1000) * 1000;
    kwait("connect", [] { return false; }, o);
    log("connect %d -> errno %d", fd, f.e);
    RV(f.e);
  }
  u64 t = now() + 200 + env(vk_net_latency) * 50;
  bool intr = fault("connect.eintr");
  WaitOpts o;
  o.mono_deadline = t;
  o.cancellable = true;
  if (intr) { o.interruptible = true; g_cur->intr_at = now() + env(20000); }
  if (kwait("connect", [] { return false; }, o) == INTERRUPTED) { log("connect %d -> EINTR", fd); RV(EINTR); }
  Listener* l = find_listener(addr, port);
  if (!l) { log("connect %d to %08x:%d -> ECONNREFUSED", fd, addr, port); RV(ECONNREFUSED); }
  if ((int)l->q.size() > l->backlog) {
    WaitOpts w; w.mono_deadline = now() + 130000000000ull;
    if (kwait("connect", [=] { Listener* k = find_listener(addr, port); return !k || (int)k->q.size() <= k->backlog; }, w) == TIMEDOUT) RV(ETIMEDOUT);
    l = find_listener(addr, port);
    if (!l) RV(ECONNREFUSED);
  }
  Conn* c = new Conn;
  c->addr = addr; c->port = port;
  g_conns->push_back(c);
  l->q.push_back(c);
  s->st = Sock::CONNECTED;
  s->c = c;
  s->side = 0;
  touch();
  log("connect %d to %08x:%d", fd, addr, port);
  return 0;
}
}  // namespace sim
using namespace sim;

extern "C" {
int __wrap_socket(int d, int t, int p) {
  LIVE(__real_socket(d, t, p));
  yield_point("socket"); SCRIPT("socket");
  static const struct { const char* k; int e; } F[] = {{"socket.emfile", EMFILE}, {"socket.enfile", ENFILE}, {"socket.enobufs", ENOBUFS}};
  for (auto& f : F) if (fault(f.k)) { log("socket -> errno %d", f.e); RV(f.e); }
  if (d != AF_INET || (t & 15) != SOCK_STREAM) RV(EAFNOSUPPORT);
  if (p != 0 && p != IPPROTO_TCP) RV(EPROTONOSUPPORT);
  Sock* s = new Sock;
  if (t & SOCK_NONBLOCK) s->flags |= O_NONBLOCK;
  int fd = vk_install(s);
  log("socket -> %d", fd);
  return fd;
}
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t n) {
  LIVE(__real_bind(fd, a, n));
  check_range(a, n, false, "bind");
  yield_point("bind"); SCRIPT("bind");
  Sock* s = sock(fd, "bind");
  if (!s) return -1;
  if (fault("bind.eaddrinuse")) { log("bind %d -> EADDRINUSE", fd); RV(EADDRINUSE); }
  if (fault("bind.eacces")) { log("bind %d -> EACCES", fd); RV(EACCES); }
  if (s->st != Sock::NEW) RV(EINVAL);
  int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  bool tw = g_timewait->count(port) && (*g_timewait)[port] > now();
  bool share = s->reuseport && (*g_unshared)[port] == 0;   // everybody there allows it
  if (!share && ((g_bound->count(port) && (!s->reuse || (*g_rigid)[port] > 0)) || listened(port, ntohl(((const struct sockaddr_in*)a)->sin_addr.s_addr)) || (tw && !s->reuse))) { log("bind %d port %d -> EADDRINUSE", fd, port); RV(EADDRINUSE); }
  s->port = port;
  s->addr = ntohl(((const struct sockaddr_in*)a)->sin_addr.s_addr);
  (*g_bound)[port]++;
  s->rigid = !s->reuse;
  if (s->rigid) (*g_rigid)[port]++;
  s->shares = s->reuseport;
  if (!s->shares) (*g_unshared)[port]++;
  s->st = Sock::BOUND;
  log("bind %d port %d", fd, port);
  return 0;
}
int __wrap_listen(int fd, int b) {
  LIVE(__real_listen(fd, b));
  yield_point("listen"); SCRIPT("listen");
  Sock* s = sock(fd, "listen");
  if (!s) return -1;
  if (fault("listen.eaddrinuse")) { log("listen %d -> EADDRINUSE", fd); RV(EADDRINUSE); }
  if (s->st == Sock::LISTENING) { s->l->backlog = b; return 0; }
  if (s->st != Sock::BOUND) RV(EINVAL);
  uint32_t key = s->addr;
  if (s->shares && !(*g_unshared)[s->port]) while (g_listen->count({key, s->port})) key += 0xf0000001u;   // the first one gets the calls
  if (g_listen->count({key, s->port})) { log("listen %d -> EADDRINUSE", fd); RV(EADDRINUSE); }
  s->l = new Listener;
  s->l->port = s->port; s->l->backlog = b; s->l->addr = s->addr; s->l->procid = proc(); s->l->key = key;
  (*g_listen)[{key, s->port}] = s->l;
  s->st = Sock::LISTENING;
  touch();
  log("listen %d", fd);
  return 0;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) { LIVE(__real_accept(fd, a, l)); return accept_impl(fd, a, l, 0); }
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int f) { LIVE(__real_accept4(fd, a, l, f)); return accept_impl(fd, a, l, f); }
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t n) { LIVE(__real_connect(fd, a, n)); check_range(a, n, false, "connect"); return connect_impl(fd, a, n); }
static ssize_t send_impl(int fd, const void* b, size_t n, int fl) {
  check_range(b, n, false, "send()");
  yield_point("send"); SCRIPT("send");
  Sock* s = sock(fd, "send");
  if (!s) return -1;
  ssize_t r = s->send(b, n, fl);
  log("send %d %zu -> %zd%s", fd, n, r, r < 0 ? errno == EPIPE ? " EPIPE" : errno == ECONNRESET ? " ECONNRESET" : errno == EINTR ? " EINTR" : " error" : "");
  return r;
}
static ssize_t recv_impl(int fd, void* b, size_t n, int fl) {
  check_range(b, n, true, "recv()");
  yield_point("recv"); SCRIPT("recv");
  Sock* s = sock(fd, "recv");
  if (!s) return -1;
  ssize_t r = s->recv(b, n, fl);
  log("recv %d %zu%s -> %zd%s", fd, n, (fl & MSG_PEEK) ? " peek" : "", r, r < 0 ? errno == ECONNRESET ? " ECONNRESET" : errno == EINTR ? " EINTR" : " error" : "");
  return r;
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) { LIVE(__real_send(fd, b, n, fl)); return send_impl(fd, b, n, fl); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) { LIVE(__real_recv(fd, b, n, fl)); return recv_impl(fd, b, n, fl); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { LIVE(__real_sendto(fd, b, n, fl, a, l)); return send_impl(fd, b, n, fl); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { LIVE(__real_recvfrom(fd, b, n, fl, a, l)); return recv_impl(fd, b, n, fl); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int fl) {
  LIVE(__real_sendmsg(fd, m, fl));
  std::string s;
  for (size_t i = 0; i < m->msg_iovlen; i++) s.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return send_impl(fd, s.data(), s.size(), fl);
}
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int fl) {
  LIVE(__real_recvmsg(fd, m, fl));
  size_t n = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) n += m->msg_iov[i].iov_len;
  std::string s(n, 0);
  ssize_t r = recv_impl(fd, &s[0], n, fl);
  size_t at = 0;
  for (size_t i = 0; r > 0 && i < m->msg_iovlen && at < (size_t)r; i++) { size_t k = std::min(m->msg_iov[i].iov_len, (size_t)r - at); memcpy(m->msg_iov[i].iov_base, s.data() + at, k); at += k; }
  return r;
}
int __wrap_shutdown(int fd, int how) {
  LIVE(__real_shutdown(fd, how));
  yield_point("shutdown"); SCRIPT("shutdown");
  Sock* s = sock(fd, "shutdown");
  if (!s) return -1;
  log("shutdown %d %d", fd, how);
  if (s->st == Sock::LISTENING) return 0;
  if (s->st != Sock::CONNECTED) RV(ENOTCONN);
  if (how != SHUT_RD && !s->wr_shut) { s->wr_shut = true; if (!s->c->rst[s->side]) transmit(s->c, 1 - s->side, "", true); }
  if (how != SHUT_WR) s->rd_shut = true;
  touch();
  return 0;
}
int __wrap_setsockopt(int fd, int lv, int o, const void* v, socklen_t n) {
  LIVE(__real_setsockopt(fd, lv, o, v, n));
  check_range(v, n, false, "setsockopt");
  yield_point("setsockopt"); SCRIPT("setsockopt");
  Sock* s = sock(fd, "setsockopt");
  if (!s) return -1;
  if (lv == SOL_SOCKET && o == SO_REUSEADDR) s->reuse = *(const int*)v != 0;
  if (lv == SOL_SOCKET && o == SO_REUSEPORT) s->reuseport = *(const int*)v != 0;
  if (lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO)) { const struct timeval* t = (const struct timeval*)v; (o == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = t->tv_sec * 1000000000ll + t->tv_usec * 1000ll; }
  return 0;
}
int __wrap_getsockopt(int fd, int lv, int o, void* v, socklen_t* n) {
  LIVE(__real_getsockopt(fd, lv, o, v, n));
  yield_point("getsockopt"); SCRIPT("getsockopt");
  Sock* s = sock(fd, "getsockopt");
  if (!s) return -1;
  memset(v, 0, *n);
  if (lv == SOL_SOCKET && o == SO_ERROR && s->c && s->c->err_pending[s->side]) { *(int*)v = ECONNRESET; s->c->err_pending[s->side] = false; }
  return 0;
}
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* l) { LIVE(__real_getsockname(fd, a, l)); Sock* s = sock(fd, "getsockname"); if (!s) return -1; struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(s->port); memcpy(a, &in, std::min((size_t)*l, sizeof in)); return 0; }
int __wrap_getpeername(int fd, struct sockaddr* a, socklen_t* l) { LIVE(__real_getpeername(fd, a, l)); Sock* s = sock(fd, "getpeername"); if (!s) return -1; if (s->st != Sock::CONNECTED || s->c->rst[s->side]) RV(ENOTCONN); struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(s->c->port); memcpy(a, &in, std::min((size_t)*l, sizeof in)); return 0; }

std::function<int(Ofd*, unsigned long, void*)>* sim_dev_ioctl;
int __wrap_ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  LIVE(__real_ioctl(fd, req, a));
  yield_point("ioctl"); SCRIPT("ioctl");
  Ofd* f = vk_fd(fd, "ioctl");
  if (!f) return -1;
  if (fault("ioctl")) { log("ioctl %d -> ENOTTY", fd); RV(ENOTTY); }
  if (Sock* s = dynamic_cast<Sock*>(f)) {
    if (req == FIONREAD) {
      if (s->st == Sock::LISTENING) RV(EINVAL);
      check_range(a, sizeof(int), true, "ioctl");
      *(int*)a = s->st == Sock::CONNECTED ? (int)s->c->h[s->side].rx.size() : 0;
      log("ioctl %d FIONREAD -> %d", fd, *(int*)a);
      return 0;
    }
    if (req == FIONBIO) { if (*(int*)a) s->flags |= O_NONBLOCK; else s->flags &= ~O_NONBLOCK; return 0; }
    RV(EINVAL);
  }
  if (sim_dev_ioctl) return (*sim_dev_ioctl)(f, req, a);
  RV(ENOTTY);
}
std::function<int(Ofd*, int, struct flock*)>* sim_dev_lock;
static int fcntl_impl(int fd, int cmd, void* a) {
  yield_point("fcntl"); SCRIPT("fcntl"); if (cmd == F_SETLK || cmd == F_SETLKW) SCRIPT("fcntl.lock");
  Ofd* f = vk_fd(fd, "fcntl");
  if (!f) return -1;
  switch (cmd) {
    case F_GETFL: return f->flags;
    case F_SETFL: log("fcntl %d F_SETFL %lx", fd, (long)a); f->flags = (f->flags & O_ACCMODE) | ((long)a & ~O_ACCMODE); return 0;
    case F_GETFD: case F_SETFD: return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: return vk_install(f);
    case F_SETLK: case F_SETLKW: case F_GETLK: if (sim_dev_lock) return (*sim_dev_lock)(f, cmd, (struct flock*)a); return 0;
    default: RV(EINVAL);
  }
}
int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); LIVE(__real_fcntl(fd, cmd, a)); return fcntl_impl(fd, cmd, a); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); LIVE(__real_fcntl(fd, cmd, a)); return fcntl_impl(fd, cmd, a); }
int __wrap_lockf(int fd, int cmd, off_t len) {
  LIVE(__real_lockf(fd, cmd, len));
  struct flock l; memset(&l, 0, sizeof l);
  l.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK; l.l_whence = SEEK_CUR; l.l_len = len;
  if (cmd == F_TEST) { if (fcntl_impl(fd, F_GETLK, &l)) return -1; if (l.l_type != F_UNLCK) RV(EACCES); return 0; }
  return fcntl_impl(fd, cmd == F_LOCK ? F_SETLKW : F_SETLK, &l);
}

static int poll_now(std::vector<std::pair<Ofd*, short>>& v, std::vector<short>& out) {
  int n = 0;
  for (size_t i = 0; i < v.size(); i++) {
    short r = 0;
    if (Ofd* f = v[i].first) {
      if ((v[i].second & (POLLIN | POLLRDNORM)) && f->can_read()) r |= v[i].second & (POLLIN | POLLRDNORM);
      if ((v[i].second & (POLLOUT | POLLWRNORM)) && f->can_write()) r |= v[i].second & (POLLOUT | POLLWRNORM);
      r |= f->poll_extra();
    }
    out[i] = r;
    n += r != 0;
  }
  return n;
}
static int poll_impl(struct pollfd* p, nfds_t n, i64 ns) {
  yield_point("poll"); SCRIPT("poll");
  std::vector<std::pair<Ofd*, short>> v; std::vector<short> out(n);
  for (nfds_t i = 0; i < n; i++) v.push_back({p[i].fd < 0 ? nullptr : vk_fd(p[i].fd, "poll"), p[i].events});
  WaitOpts o;
  if (ns >= 0) o.mono_deadline = now() + (u64)ns;
  o.interruptible = true;
  if (fault("poll.eintr")) g_cur->intr_at = now() + env(200000);
  int r = poll_now(v, out);
  if (!r && ns != 0) { WaitResult w = kwait("poll", [&] { return poll_now(v, out) > 0; }, o); r = poll_now(v, out); if (!r && w == INTERRUPTED) RV(EINTR); }
  for (nfds_t i = 0; i < n; i++) p[i].revents = out[i];
  return r;
}
int __wrap_poll(struct pollfd* p, nfds_t n, int ms) { LIVE(__real_poll(p, n, ms)); return poll_impl(p, n, ms < 0 ? -1 : ms * 1000000ll); }
int __wrap_ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t* m) { LIVE(__real_ppoll(p, n, t, m)); return poll_impl(p, n, t ? t->tv_sec * 1000000000ll + t->tv_nsec : -1); }
static int select_impl(int nf, fd_set* rd, fd_set* wr, fd_set* ex, i64 ns) {
  yield_point("select"); SCRIPT("select");
  std::vector<std::pair<Ofd*, short>> v; std::vector<int> fds;
  for (int i = 0; i < nf; i++) {
    short e = (rd && FD_ISSET(i, rd) ? POLLIN : 0) | (wr && FD_ISSET(i, wr) ? POLLOUT : 0);
    if (e || (ex && FD_ISSET(i, ex))) { v.push_back({vk_fd(i, "select"), e}); fds.push_back(i); }
  }
  std::vector<short> out(v.size());
  WaitOpts o;
  if (ns >= 0) o.mono_deadline = now() + (u64)ns;
  o.interruptible = true;
  if (fault("poll.eintr")) g_cur->intr_at = now() + env(200000);
  int r = poll_now(v, out);
  if (!r && ns != 0) { WaitResult w = kwait("select", [&] { return poll_now(v, out) > 0; }, o); r = poll_now(v, out); if (!r && w == INTERRUPTED) RV(EINTR); }
  if (rd) FD_ZERO(rd);
  if (wr) FD_ZERO(wr);
  if (ex) FD_ZERO(ex);
  r = 0;
  for (size_t i = 0; i < v.size(); i++) {
    if ((out[i] & POLLIN) && rd) { FD_SET(fds[i], rd); r++; }
    if ((out[i] & POLLOUT) && wr) { FD_SET(fds[i], wr); r++; }
  }
  return r;
}
int __wrap_select(int nf, fd_set* rd, fd_set* wr, fd_set* ex, struct timeval* t) {
  LIVE(__real_select(nf, rd, wr, ex, t));
  u64 start = now();
  i64 ns = t ? t->tv_sec * 1000000000ll + t->tv_usec * 1000ll : -1;
  int r = select_impl(nf, rd, wr, ex, ns);
  if (t) { i64 left = ns - (i64)(now() - start); if (left < 0) left = 0; t->tv_sec = left / 1000000000; t->tv_usec = left % 1000000000 / 1000; }      // Linux writes the time not slept
  return r;
}
int __wrap_pselect(int nf, fd_set* rd, fd_set* wr, fd_set* ex, const struct timespec* t, const sigset_t* m) {
  LIVE(__real_pselect(nf, rd, wr, ex, t, m));
  return select_impl(nf, rd, wr, ex, t ? t->tv_sec * 1000000000ll + t->tv_nsec : -1);
}
// name lookup
struct hostent* __wrap_gethostbyname(const char* name) {
  LIVE(__real_gethostbyname(name));
  static struct hostent* he;                    // one static answer for the whole process, as in the C library
  static char* addr; static char* list[2]; static char* none[1];
  yield_point("gethostbyname");
  uint32_t a = 0; int e = 0;
  log("gethostbyname %s", name);
  if (int x = scripted("gethostbyname")) { h_errno = x; return nullptr; }
  if (!resolve(name, a, e)) { h_errno = e; return nullptr; }
  if (!he) { he = (struct hostent*)calloc(1, sizeof *he); addr = (char*)calloc(1, 4); }
  uint32_t n = htonl(a);
  memcpy(addr, &n, 4);
  list[0] = addr; list[1] = nullptr;
  he->h_name = addr; he->h_aliases = none; he->h_addrtype = AF_INET; he->h_length = 4; he->h_addr_list = list;
  yield_point("gethostbyname");
  return he;
}
int __wrap_gethostbyname_r(const char* name, struct hostent* he, char* b, size_t bl, struct hostent** res, int* herr) {
  LIVE(__real_gethostbyname_r(name, he, b, bl, res, herr));
  yield_point("gethostbyname_r");
  uint32_t a = 0; int e = 0;
  *res = nullptr;
  if (!resolve(name, a, e)) { *herr = e; return e == TRY_AGAIN ? EAGAIN : ENOENT; }
  if (bl < 64) return ERANGE;
  check_range(b, bl, true, "gethostbyname_r");
  uint32_t n = htonl(a);
  char** list = (char**)(((uintptr_t)b + 15) & ~15ul);
  char* ad = (char*)(list + 3);
  memcpy(ad, &n, 4);
  list[0] = ad; list[1] = nullptr; list[2] = nullptr;
  he->h_name = ad; he->h_aliases = list + 2; he->h_addrtype = AF_INET; he->h_length = 4; he->h_addr_list = list;
  *res = he;
  return 0;
}
int __wrap_getaddrinfo(const char* node, const char* serv, const struct addrinfo* hints, struct addrinfo** res) {
  LIVE(__real_getaddrinfo(node, serv, hints, res));
  yield_point("getaddrinfo");
  if (int e = scripted("getaddrinfo")) return e;
  uint32_t a = 0; int e = 0;
  int family = AF_UNSPEC;
  if (hints) {
    check_range(hints, sizeof *hints, false, "getaddrinfo");
    const int known = AI_PASSIVE | AI_CANONNAME | AI_NUMERICHOST | AI_V4MAPPED | AI_ALL | AI_ADDRCONFIG | AI_NUMERICSERV | 0x07c0;
    if (hints->ai_flags & ~known) return EAI_BADFLAGS;
    family = hints->ai_family;
    if (family != AF_UNSPEC && family != AF_INET && family != AF_INET6) return EAI_FAMILY;
    if (hints->ai_socktype != 0 && hints->ai_socktype != SOCK_STREAM && hints->ai_socktype != SOCK_DGRAM && hints->ai_socktype != SOCK_RAW) return EAI_SOCKTYPE;
    if (hints->ai_protocol != 0 && hints->ai_socktype != SOCK_RAW && hints->ai_protocol != (hints->ai_socktype == SOCK_DGRAM ? IPPROTO_UDP : IPPROTO_TCP)) return EAI_SERVICE;
  }
  log("getaddrinfo %s", node ? node : "(none)");
  if (!node) a = hints && (hints->ai_flags & AI_PASSIVE) ? 0 : 0x7f000001;
  else if (!resolve(node, a, e)) return e == TRY_AGAIN ? EAI_AGAIN : e == NO_RECOVERY ? EAI_FAIL : EAI_NONAME;
  g_live = true;
  struct addrinfo* ai = (struct addrinfo*)calloc(1, sizeof *ai + sizeof(struct sockaddr_in6));
  struct addrinfo* six = ai && family == AF_UNSPEC ? (struct addrinfo*)calloc(1, sizeof *ai + sizeof(struct sockaddr_in6)) : nullptr;
  g_live = false;
  if (!ai) return EAI_MEMORY;
  if (family != AF_INET6) {
    struct sockaddr_in* in = (struct sockaddr_in*)(ai + 1);
    in->sin_family = AF_INET;
    in->sin_addr.s_addr = htonl(a);
    in->sin_port = htons(serv ? atoi(serv) : 0);
    ai->ai_family = AF_INET;
    ai->ai_addrlen = sizeof *in;
  }
  for (struct addrinfo* x : {ai, six}) if (x && (x == six || family == AF_INET6)) {   // hosts have an address of either kind, and a mapped one is as good as any
    struct sockaddr_in6* in = (struct sockaddr_in6*)(x + 1);
    in->sin6_family = AF_INET6;
    uint32_t n = htonl(a);
    in->sin6_addr.s6_addr[10] = in->sin6_addr.s6_addr[11] = 0xff;
    memcpy(in->sin6_addr.s6_addr + 12, &n, 4);
    in->sin6_port = htons(serv ? atoi(serv) : 0);
    x->ai_family = AF_INET6;
    x->ai_addrlen = sizeof *in;
  }
  // the same address may be answered twice, as with "127.0.0.1 localhost" and "::1 localhost" in /etc/hosts
  struct addrinfo* twin = nullptr;
  if (family == AF_INET && node && env(2)) { g_live = true; twin = (struct addrinfo*)calloc(1, sizeof *ai + sizeof(struct sockaddr_in6)); g_live = false; }
  if (twin) { memcpy(twin, ai, sizeof *ai + sizeof(struct sockaddr_in6)); ai->ai_next = twin; }
  for (struct addrinfo* x : {ai, six, twin}) if (x) {
    x->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
    x->ai_protocol = x->ai_socktype == SOCK_STREAM ? IPPROTO_TCP : x->ai_socktype == SOCK_DGRAM ? IPPROTO_UDP : 0;
    x->ai_addr = (struct sockaddr*)(x + 1);
  }
  if (six) { six->ai_next = ai; ai = six; }
  *res = ai;
  for (struct addrinfo* x = ai; x; x = x->ai_next) g_addrinfos++;
  return 0;
}
void __wrap_freeaddrinfo(struct addrinfo* ai) { LIVE(__real_freeaddrinfo(ai)); g_live = true; while (ai) { struct addrinfo* n = ai->ai_next; free(ai); g_addrinfos--; ai = n; } g_live = false; }
}
