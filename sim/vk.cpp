// Descriptor tables, files, POSIX shared memory and semaphores of the simulated system.
#include "fiber.hpp"
#include "runner.hpp"
#include "vk.hpp"
#include "wrap.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <semaphore.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

extern "C" {
int __real_close(int);
int __real_open(const char*, int, ...);
int __real_ftruncate(int, off_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_fstat(int, struct stat*);
}

namespace sim {
// ---------------------------------------------------------------- processes and descriptors
struct Map { char* at; size_t len; Inode* ino; };
struct KSem { std::string name; int value = 0; bool linked = true; int mode = 0600; };
struct SemH { sem_t handle; KSem* k; int proc; int refs; bool closed; };
struct ProcTab { std::map<int, Ofd*> fds; std::map<int, Ofd*> std; std::vector<Map> maps; std::vector<SemH*> sems; };
static std::map<int, ProcTab>* g_pt;
static ProcTab& pt(int p = -1) { return (*g_pt)[p < 0 ? proc() : p]; }
static std::map<std::string, Inode*>* g_fs;     // files
static std::map<std::string, Inode*>* g_shm;    // shared memory names
static std::map<std::string, KSem*>* g_semn;
static std::vector<SemH*>* g_semh;
static char* g_map_top;
i64 vk_disk_free = -1;

ssize_t Ofd::read(void*, size_t) { RV(EINVAL); }
ssize_t Ofd::write(const void*, size_t) { RV(EINVAL); }
off_t Ofd::seek(off_t, int) { RV(ESPIPE); }
int Ofd::truncate(off_t) { RV(EINVAL); }

static int g_fd_base = 3;                 // 0: the program started without standard streams, as daemons do
int vk_install(Ofd* f, int) {
  ProcTab& t = pt();
  int fd = g_fd_base;
  while (t.fds.count(fd)) fd++;
  t.fds[fd] = f;
  f->refs++;
  return fd;
}
void vk_install_at(int fd, Ofd* f) {
  ProcTab& t = pt();
  if (t.fds.count(fd)) fail("harness", "standard descriptor %d is already in use", fd);
  t.fds[fd] = f; t.std[fd] = f; f->refs++; g_fd_base = 3;
}
static bool own(ProcTab& t, int fd, Ofd* f) { if (f->foreign) return false; auto i = t.std.find(fd); return i == t.std.end() || i->second != f; }
Ofd* vk_fd_quiet(int fd) { ProcTab& t = pt(); auto i = t.fds.find(fd); return i == t.fds.end() ? nullptr : i->second; }
Ofd* vk_fd(int fd, const char* by) {
  if (fd < 0) { errno = EBADF; return nullptr; }
  Ofd* f = vk_fd_quiet(fd);
  if (!f) fail("fd-misuse", "%s on descriptor %d, which is not open in this process", by, fd);
  if (f->foreign) fail("fd-misuse", "%s on descriptor %d, which belongs to another part of the program", by, fd);
  return f;
}
static int unref(Ofd* f, bool killed) {
  if (--f->refs > 0) return 0;
  int e = f->last_close(killed);
  delete f;
  touch();
  return e;
}
int vk_close_fd(int fd) {
  Ofd* f = vk_fd(fd, "close");
  if (!f) return -1;
  pt().fds.erase(fd);
  int e = unref(f, false);
  if (e) RV(e);
  return 0;
}
int vk_open_fds(int p) { int n = 0; ProcTab& t = pt(p); for (auto& x : t.fds) if (own(t, x.first, x.second)) n++; return n; }
std::string vk_describe_fds(int p) {
  std::string s;
  ProcTab& t = pt(p);
  for (auto& x : t.fds) if (own(t, x.first, x.second)) s += (s.empty() ? "" : ", ") + std::to_string(x.first) + ":" + x.second->kind;
  return s;
}
struct Bystander : Ofd { };
int vk_bystander() { Guard g; Ofd* f = new Bystander; f->foreign = true; f->kind = "bystander"; return vk_install(f); }

// ---------------------------------------------------------------- files
static void ino_put(Inode* i) {
  if (i->links <= 0 && i->fd_refs <= 0) { if (i->real >= 0) { __real_close(i->real); i->real = -1; } }
}
Inode* vk_file(const std::string& p) { auto i = g_fs->find(p); return i == g_fs->end() ? nullptr : i->second; }
Inode* vk_make_file(const std::string& p, const std::string& d) { Guard g; Inode* i = new Inode; i->data = d; (*g_fs)[p] = i; return i; }
void vk_remove(const std::string& p) { Guard g; auto i = g_fs->find(p); if (i == g_fs->end()) return; Inode* n = i->second; g_fs->erase(i); n->links--; ino_put(n); }

// ---- scripted failures: the n-th call of a function by this thread from now on fails with a given error, once
struct Script { const char* call; int err, left; bool fired; };
static std::map<int, Script>* g_scripts;               // by thread
static Script* my_script() { auto i = g_scripts->find(self()); return i == g_scripts->end() ? nullptr : &i->second; }
void script_errno(const char* call, int err, int nth) { Guard g; (*g_scripts)[self()] = Script{call, err, nth, false}; }
bool script_fired() { Guard g; Script* s = my_script(); return s && s->fired; }
int scripted(const char* call) {
  if (g_scripts->empty()) return 0;
  Guard g;
  Script* s = my_script();
  if (!s || !s->call || s->fired || strcmp(s->call, call) || --s->left) return 0;
  s->fired = true;
  log("%s fails: %d", call, s->err);
  note_fault((std::string(call) + " fails").c_str());
  return s->err;
}

struct FileOfd : Ofd {
  Inode* ino;
  size_t pos = 0;
  std::string path;
  ssize_t read(void* b, size_t n) override {
    if ((flags & O_ACCMODE) == O_WRONLY) RV(EBADF);
    if (fault("file.read.eio")) RV(EIO);
    size_t left = pos < ino->data.size() ? ino->data.size() - pos : 0;
    if (n > left) n = left;
    if (n > 1 && fault("file.short_read")) n = 1 + env(n - 1);
    memcpy(b, ino->data.data() + pos, n);
    pos += n;
    return n;
  }
  ssize_t write(const void* b, size_t n) override {
    if ((flags & O_ACCMODE) == O_RDONLY) RV(EBADF);
    if (n && fault("file.enospc")) RV(ENOSPC);
    if (n && fault("file.eio")) RV(env(4) == 1 ? EINTR : EIO);
    if (n > 1 && fault("file.short_write")) n = 1 + env(n - 1);
    if (flags & O_APPEND) pos = ino->data.size();
    size_t end = pos + n;
    if (vk_disk_free >= 0 && end > ino->data.size()) {
      i64 grow = (i64)(end - ino->data.size());
      if (grow > vk_disk_free) {
        note_fault("disk.full");
        if (vk_disk_free == 0) RV(ENOSPC);
        n -= grow - vk_disk_free;
        end = pos + n;
        grow = vk_disk_free;
      }
      vk_disk_free -= grow;
    }
    if (ino->data.size() < end) ino->data.resize(end);
    memcpy(&ino->data[pos], b, n);
    pos = end;
    return n;
  }
  int last_close(bool killed) override {
    ino->fd_refs--;
    ino_put(ino);
    return !killed && fault("file.close") ? (env(2) ? EIO : ENOSPC) : 0;
  }
  off_t seek(off_t o, int w) override {
    off_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)pos : (off_t)ino->data.size();
    if (base + o < 0) RV(EINVAL);
    pos = base + o;
    return pos;
  }
  off_t size() override { return ino->data.size(); }
  int truncate(off_t n) override { ino->data.resize(n); return 0; }
};
// extension point: device files (serial ports)
std::function<Ofd*(const std::string&, int)>* g_dev_open;

// the user who runs the program owns what it makes and is no superuser to the file system
static bool denied(int mode, int flags) {
  int acc = flags & O_ACCMODE;
  return (acc != O_WRONLY && !(mode & 0400)) || (acc != O_RDONLY && !(mode & 0200));
}
static int open_impl(const char* path, int flags, int mode) {
  std::string p(path);
  yield_point("open"); SCRIPT("open");
  if (g_dev_open && p.compare(0, 5, "/dev/") == 0) {
    Ofd* o = (*g_dev_open)(p, flags);
    if (!o) { log("open %s -> errno %d", path, errno); return -1; }
    o->flags = flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_NOCTTY | O_CLOEXEC);
    int fd = vk_install(o);
    log("open %s -> %d", path, fd);
    return fd;
  }
  static const struct { const char* k; int e; } F[] = {{"open.emfile", EMFILE}, {"open.enfile", ENFILE}, {"open.eacces", EACCES}, {"open.enospc", ENOSPC}, {"open.eintr", EINTR}};
  for (auto& f : F) if (fault(f.k)) { log("open %s -> errno %d", path, f.e); RV(f.e); }
  size_t sl = p.rfind('/');
  std::string dir = sl == std::string::npos ? "" : p.substr(0, sl);
  if (p.empty() || dir.find("/missing") != std::string::npos) RV(ENOENT);
  Inode* i = vk_file(p);
  if (i && i->dir) RV(EISDIR);
  if (i && (flags & O_CREAT) && (flags & O_EXCL)) RV(EEXIST);
  if (!i) {
    if (!(flags & O_CREAT)) RV(ENOENT);
    i = vk_make_file(p, "");
    i->mode = mode & 0777;
  } else if (denied(i->mode, flags)) RV(EACCES);
  if (flags & O_TRUNC) { if (vk_disk_free >= 0) vk_disk_free += i->data.size(); i->data.clear(); }
  FileOfd* o = new FileOfd;
  o->kind = "file";
  o->flags = flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_NOCTTY | O_CLOEXEC);
  o->ino = i;
  o->path = p;
  i->fd_refs++;
  int fd = vk_install(o);
  log("open %s flags %x -> %d", path, flags, fd);
  return fd;
}

int vk_open_path(const char* p, int flags, int mode) { return open_impl(p, flags, mode); }

// ---------------------------------------------------------------- shared memory
struct ShmOfd : Ofd {
  Inode* ino;
  int last_close(bool) override { ino->fd_refs--; ino_put(ino); return 0; }
  off_t size() override { struct stat st; __real_fstat(ino->real, &st); return st.st_size; }
  int truncate(off_t n) override { return __real_ftruncate(ino->real, n); }
};
std::vector<std::string> vk_shm_names() { Guard g; std::vector<std::string> v; for (auto& x : *g_shm) v.push_back(x.first); return v; }
std::vector<std::string> vk_sem_names() { Guard g; std::vector<std::string> v; for (auto& x : *g_semn) v.push_back(x.first); return v; }
const void* vk_mapping_object(const void* a) { Guard g; for (auto& m : pt().maps) if ((char*)a >= m.at && (char*)a < m.at + m.len) return m.ino; return nullptr; }
const void* vk_shm_object(const std::string& n) { Guard g; auto i = g_shm->find(n); return i == g_shm->end() ? nullptr : i->second; }
int vk_shm_creator(const void* o) { return ((const Inode*)o)->creator; }
int vk_mappings(int p) { return (int)pt(p).maps.size(); }
size_t vk_shm_size(const std::string& n) { Guard g; auto i = g_shm->find(n); if (i == g_shm->end()) return 0; struct stat st; __real_fstat(i->second->real, &st); return st.st_size; }
int vk_sem_value(const std::string& n) { Guard g; auto i = g_semn->find(n); return i == g_semn->end() ? -1 : i->second->value; }
int vk_open_sems(int p) { int n = 0; for (SemH* h : pt(p).sems) if (!h->closed) n++; return n; }
static bool bad_name(const char* n) { return n[0] != '/' || !n[1] || strchr(n + 1, '/') || strlen(n) > 250; }

static SemH* semh(sem_t* s, const char* by) {
  for (SemH* h : *g_semh) if (&h->handle == s) {
    if (h->closed) fail("semaphore-misuse", "%s on a closed semaphore", by);
    if (h->proc != proc()) fail("semaphore-misuse", "%s on a semaphore handle of another process", by);
    return h;
  }
  fail("crash", "%s on %p, which is not an open semaphore", by, s);
}
static int sem_wait_impl(sem_t* s, const char* by, WaitOpts o, bool bad) {
  SemH* h = semh(s, by);
  KSem* k = h->k;
  if (k->value > 0) { k->value--; race_acquire(k); log("%s: acquired", by); return 0; }
  if (bad) RV(EINVAL);
  nontrivial();
  probe("sem.contended");
  o.interruptible = true;
  o.cancellable = true;
  if (fault("sem.eintr")) g_cur->intr_at = now() + env(2) * env(50000);
  WaitResult r = kwait(by, [k] { return k->value > 0; }, o);
  if (h->closed) fail("semaphore-misuse", "semaphore closed while %s waits for it", fname(self()));
  if (r == WOKEN) { k->value--; race_acquire(k); log("%s: acquired", by); return 0; }
  log("%s: %s", by, r == TIMEDOUT ? "timeout" : "interrupted");
  RV(r == TIMEDOUT ? ETIMEDOUT : EINTR);
}

static void proc_died(int p) {
  ProcTab& t = pt(p);
  std::map<int, Ofd*> fds;
  fds.swap(t.fds);
  for (auto& x : fds) unref(x.second, true);
  for (auto& m : t.maps) { m.ino->fd_refs--; ino_put(m.ino); }
  t.maps.clear();
  for (SemH* h : t.sems) h->closed = true;
}
void vk_sock_init();
void vk_tty_init();
void vk_stdio_init();
void vk_init() {
  g_scripts = new std::map<int, Script>;
  g_pt = new std::map<int, ProcTab>;
  g_fs = new std::map<std::string, Inode*>;
  g_shm = new std::map<std::string, Inode*>;
  g_semn = new std::map<std::string, KSem*>;
  g_semh = new std::vector<SemH*>;
  g_map_top = (char*)MAP_BASE;
  g_fd_base = env(4) == 1 ? 0 : 3;
  on_proc_death(proc_died);
  vk_stdio_init();
  vk_sock_init();
  vk_tty_init();
}
}  // namespace sim
using namespace sim;

extern "C" {
#define R(ret, name, args) ret __real_##name args;
R(ssize_t, read, (int, void*, size_t))
R(ssize_t, write, (int, const void*, size_t))
R(ssize_t, readv, (int, const struct iovec*, int))
R(ssize_t, writev, (int, const struct iovec*, int))
R(off_t, lseek, (int, off_t, int))
R(int, fsync, (int))
R(int, fdatasync, (int))
R(int, dup, (int))
R(int, unlink, (const char*))
R(int, openat, (int, const char*, int, ...))
R(ssize_t, pread, (int, void*, size_t, off_t))
R(ssize_t, pwrite, (int, const void*, size_t, off_t))
R(ssize_t, pread64, (int, void*, size_t, off_t))
R(ssize_t, pwrite64, (int, const void*, size_t, off_t))
R(int, isatty, (int))
R(int, dup2, (int, int))
R(int, access, (const char*, int))
R(int, stat, (const char*, struct stat*))
R(int, flock, (int, int))
R(int, shm_open, (const char*, int, mode_t))
R(int, shm_unlink, (const char*))
R(int, fchmod, (int, mode_t))
R(sem_t*, sem_open, (const char*, int, ...))
R(int, sem_close, (sem_t*))
R(int, sem_unlink, (const char*))
R(int, sem_wait, (sem_t*))
R(int, sem_trywait, (sem_t*))
R(int, sem_timedwait, (sem_t*, const struct timespec*))
R(int, sem_clockwait, (sem_t*, clockid_t, const struct timespec*))
R(int, sem_post, (sem_t*))
R(int, sem_getvalue, (sem_t*, int*))
R(int, sem_init, (sem_t*, int, unsigned))
R(int, sem_destroy, (sem_t*))

int __wrap_open(const char* p, int flags, ...) {
  int mode = 0;
  if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
  LIVE(__real_open(p, flags, mode));
  return open_impl(p, flags, mode);
}
int __wrap_open64(const char* p, int flags, ...) {
  int mode = 0;
  if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
  LIVE(__real_open(p, flags, mode));
  return open_impl(p, flags, mode);
}
int __wrap_openat(int d, const char* p, int flags, ...) {
  int mode = 0;
  if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
  LIVE(__real_openat(d, p, flags, mode));
  if (d != AT_FDCWD && p[0] != '/') fail("sim-limit", "openat() in a directory is not simulated");
  return open_impl(p, flags, mode);
}
int __wrap_creat(const char* p, mode_t mode) {
  LIVE(__real_open(p, O_CREAT | O_WRONLY | O_TRUNC, mode));
  return open_impl(p, O_CREAT | O_WRONLY | O_TRUNC, mode);
}
int __wrap_close(int fd) {
  LIVE(__real_close(fd));
  yield_point("close");
  log("close %d", fd);
  if (int e = scripted("close")) { vk_close_fd(fd); RV(e); }   // gone all the same
  return vk_close_fd(fd);
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  LIVE(__real_read(fd, b, n));
  check_range(b, n, true, "read()");
  yield_point("read"); SCRIPT("read");
  Ofd* f = vk_fd(fd, "read");
  if (!f) return -1;
  ssize_t r = f->read(b, n);
  log("read %d %zu -> %zd", fd, n, r);
  return r;
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  LIVE(__real_write(fd, b, n));
  check_range(b, n, false, "write()");
  yield_point("write"); SCRIPT("write");
  Ofd* f = vk_fd(fd, "write");
  if (!f) return -1;
  ssize_t r = f->write(b, n);
  log("write %d %zu -> %zd", fd, n, r);
  return r;
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) {
  LIVE(__real_writev(fd, v, c));
  std::string s;
  for (int i = 0; i < c; i++) { check_range(v[i].iov_base, v[i].iov_len, false, "writev()"); s.append((const char*)v[i].iov_base, v[i].iov_len); }
  yield_point("writev"); SCRIPT("writev");
  Ofd* f = vk_fd(fd, "writev");
  return f ? f->write(s.data(), s.size()) : -1;
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) {
  LIVE(__real_readv(fd, v, c));
  size_t n = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  std::string s(n, 0);
  yield_point("readv"); SCRIPT("readv");
  Ofd* f = vk_fd(fd, "readv");
  if (!f) return -1;
  ssize_t r = f->read(&s[0], n);
  size_t at = 0;
  for (int i = 0; r > 0 && i < c && at < (size_t)r; i++) { size_t k = std::min(v[i].iov_len, (size_t)r - at); memcpy(v[i].iov_base, s.data() + at, k); at += k; }
  return r;
}
static ssize_t pio(int fd, void* rd, const void* wr, size_t n, off_t at) {
  check_range(rd ? rd : wr, n, rd != nullptr, rd ? "pread()" : "pwrite()");
  yield_point(rd ? "pread" : "pwrite"); SCRIPT(rd ? "pread" : "pwrite");
  Ofd* f = vk_fd(fd, rd ? "pread" : "pwrite");
  if (!f) return -1;
  off_t was = f->seek(0, SEEK_CUR);
  if (was < 0) RV(ESPIPE);
  f->seek(at, SEEK_SET);
  ssize_t r = rd ? f->read(rd, n) : f->write(wr, n);
  int e = errno;
  f->seek(was, SEEK_SET);
  errno = e;
  return r;
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { LIVE(__real_pread(fd, b, n, o)); return pio(fd, b, nullptr, n, o); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { LIVE(__real_pread64(fd, b, n, o)); return pio(fd, b, nullptr, n, o); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { LIVE(__real_pwrite(fd, b, n, o)); return pio(fd, nullptr, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { LIVE(__real_pwrite64(fd, b, n, o)); return pio(fd, nullptr, b, n, o); }
int __wrap_isatty(int fd) {
  LIVE(__real_isatty(fd));
  yield_point("isatty");
  Ofd* f = vk_fd(fd, "isatty");
  if (!f) return 0;
  if (!strcmp(f->kind, "serial line")) return 1;
  errno = ENOTTY;
  return 0;
}
int __wrap_dup2(int a, int b) { LIVE(__real_dup2(a, b)); fail("sim-limit", "dup2(%d, %d) is not simulated", a, b); }
off_t __wrap_lseek(int fd, off_t o, int w) { LIVE(__real_lseek(fd, o, w)); yield_point("lseek"); SCRIPT("lseek"); Ofd* f = vk_fd(fd, "lseek"); return f ? f->seek(o, w) : -1; }
int __wrap_fsync(int fd) { LIVE(__real_fsync(fd)); yield_point("fsync"); SCRIPT("fsync"); Ofd* f = vk_fd(fd, "fsync"); if (!f) return -1; if (fault("file.fsync")) RV(EIO); return 0; }
int __wrap_fdatasync(int fd) { LIVE(__real_fdatasync(fd)); yield_point("fdatasync"); SCRIPT("fdatasync"); Ofd* f = vk_fd(fd, "fdatasync"); if (!f) return -1; if (fault("file.fsync")) RV(EIO); return 0; }
int __wrap_dup(int fd) { LIVE(__real_dup(fd)); yield_point("dup"); SCRIPT("dup"); Ofd* f = vk_fd(fd, "dup"); return f ? vk_install(f) : -1; }
int __wrap_unlink(const char* p) { LIVE(__real_unlink(p)); yield_point("unlink"); SCRIPT("unlink"); if (!vk_file(p)) RV(ENOENT); vk_remove(p); return 0; }
int __wrap_flock(int fd, int op) { LIVE(__real_flock(fd, op)); yield_point("flock"); SCRIPT("flock"); return vk_fd(fd, "flock") ? 0 : -1; }
extern std::function<int(const std::string&)>* sim_dev_access;
std::function<int(const std::string&)>* sim_dev_access;
int __wrap_access(const char* p, int m) {
  LIVE(__real_access(p, m));
  yield_point("access"); SCRIPT("access");
  if (sim_dev_access && !strncmp(p, "/dev/", 5)) { int e = (*sim_dev_access)(p); if (e) RV(e); return 0; }
  Inode* i = vk_file(p);
  if (!i) RV(ENOENT);
  return 0;
}
static void fill_stat(struct stat* st, off_t size) { memset(st, 0, sizeof *st); st->st_size = size; st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_blksize = 4096; }
int __wrap_stat(const char* p, struct stat* st) {
  LIVE(__real_stat(p, st));
  yield_point("stat"); SCRIPT("stat");
  if (sim_dev_access && !strncmp(p, "/dev/", 5)) { int e = (*sim_dev_access)(p); if (e) RV(e); fill_stat(st, 0); st->st_mode = S_IFCHR | 0660; return 0; }
  Inode* i = vk_file(p);
  if (!i) RV(ENOENT);
  fill_stat(st, i->data.size());
  return 0;
}
int __wrap_fstat(int fd, struct stat* st) {
  LIVE(__real_fstat(fd, st));
  yield_point("fstat"); SCRIPT("fstat");
  Ofd* f = vk_fd(fd, "fstat");
  if (!f) return -1;
  fill_stat(st, f->size());
  return 0;
}
int __wrap_fchmod(int fd, mode_t m) { LIVE(__real_fchmod(fd, m)); yield_point("fchmod"); SCRIPT("fchmod"); return vk_fd(fd, "fchmod") ? 0 : -1; }
int __wrap_ftruncate(int fd, off_t n) {
  LIVE(__real_ftruncate(fd, n));
  yield_point("ftruncate"); SCRIPT("ftruncate");
  Ofd* f = vk_fd(fd, "ftruncate");
  if (!f) return -1;
  if (fault("ftruncate")) { log("ftruncate fails"); RV(env(2) ? ENOSPC : EIO); }
  int r = f->truncate(n);
  log("ftruncate %d %ld -> %d", fd, (long)n, r);
  return r;
}

// ---- shared memory
int __wrap_shm_open(const char* name, int flags, mode_t mode) {
  LIVE(__real_shm_open(name, flags, mode));
  yield_point("shm_open"); SCRIPT("shm_open");
  if (bad_name(name)) RV(strlen(name) > 250 ? ENAMETOOLONG : EINVAL);
  static const struct { const char* k; int e; } F[] = {{"shm_open.emfile", EMFILE}, {"shm_open.enfile", ENFILE}, {"shm_open.eacces", EACCES}};
  for (auto& f : F) if (fault(f.k)) { log("shm_open %s -> errno %d", name, f.e); RV(f.e); }
  auto it = g_shm->find(name);
  Inode* i = it == g_shm->end() ? nullptr : it->second;
  if (i && (flags & O_CREAT) && (flags & O_EXCL)) { log("shm_open %s -> EEXIST", name); RV(EEXIST); }
  if (!i) {
    if (!(flags & O_CREAT)) { log("shm_open %s -> ENOENT", name); RV(ENOENT); }
    i = new Inode;
    i->mode = mode;
    i->creator = self();
    i->real = memfd_create("sim-shm", 0);
    if (i->real < 0) abort();
    (*g_shm)[name] = i;
  } else if (denied(i->mode, flags)) { log("shm_open %s -> EACCES", name); RV(EACCES); }
  ShmOfd* o = new ShmOfd;
  o->kind = "shm";
  o->ino = i;
  o->flags = flags & O_ACCMODE;
  i->fd_refs++;
  if (flags & O_TRUNC) o->truncate(0);
  int fd = vk_install(o);
  log("shm_open %s flags %x -> %d", name, flags, fd);
  return fd;
}
int __wrap_shm_unlink(const char* name) {
  LIVE(__real_shm_unlink(name));
  yield_point("shm_unlink"); SCRIPT("shm_unlink");
  auto it = g_shm->find(name);
  log("shm_unlink %s%s", name, it == g_shm->end() ? ": no such name" : "");
  if (it == g_shm->end()) RV(ENOENT);
  Inode* i = it->second;
  g_shm->erase(it);
  i->links--;
  ino_put(i);
  touch();
  return 0;
}
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
  if (!g_live || (flags & MAP_ANONYMOUS)) return __real_mmap(a, len, prot, flags, fd, off);
  Guard guard_;
  yield_point("mmap");
  if (int e = scripted("mmap")) { errno = e; return MAP_FAILED; }
  Ofd* f = vk_fd(fd, "mmap");
  if (!f) return MAP_FAILED;
  ShmOfd* s = dynamic_cast<ShmOfd*>(f);
  if (!s) { errno = ENODEV; return MAP_FAILED; }
  if (fault("mmap")) { errno = env(2) ? EAGAIN : ENOMEM; log("mmap -> errno %d", errno); return MAP_FAILED; }
  if (len == 0) { errno = EINVAL; return MAP_FAILED; }
  size_t pl = (len + 4095) / 4096 * 4096;
  char* at = g_map_top;
  g_map_top += pl + 65536;                      // guard gap, never reused
  void* r = __real_mmap(at, len, prot, (flags & ~MAP_FIXED) | MAP_FIXED_NOREPLACE, s->ino->real, off);
  if (r == MAP_FAILED) return r;
  Map m = {at, len, s->ino};
  s->ino->fd_refs++;
  pt().maps.push_back(m);
  log("mmap %d %zu -> mapping %zd", fd, len, (ssize_t)(at - (char*)MAP_BASE));
  return r;
}
int __wrap_munmap(void* a, size_t len) {
  LIVE(__real_munmap(a, len));
  yield_point("munmap"); SCRIPT("munmap");
  auto& M = pt().maps;
  for (size_t i = 0; i < M.size(); i++)
    if (M[i].at == a) {
      if ((len + 4095) / 4096 != (M[i].len + 4095) / 4096) fail("mapping-misuse", "munmap of %zu bytes of a mapping of %zu", len, M[i].len);
      Inode* n = M[i].ino;
      M.erase(M.begin() + i);
      n->fd_refs--;
      ino_put(n);
      log("munmap mapping %zd", (ssize_t)((char*)a - (char*)MAP_BASE));
      return __real_munmap(a, len);
    }
  if (a == nullptr || a == MAP_FAILED) { log("munmap of no mapping"); if (a == nullptr) return 0; RV(EINVAL); }
  if (a >= (void*)MAP_BASE && a < (void*)g_map_top) fail("mapping-misuse", "munmap of a mapping this process does not have");
  return __real_munmap(a, len);
}

// ---- semaphores
sem_t* __wrap_sem_open(const char* name, int flags, ...) {
  mode_t mode = 0; unsigned value = 0;
  if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); value = va_arg(a, unsigned); va_end(a); }
  LIVE(__real_sem_open(name, flags, mode, value));
  yield_point("sem_open");
  if (int e = scripted("sem_open")) { errno = e; return SEM_FAILED; }
  if (bad_name(name)) { errno = EINVAL; return SEM_FAILED; }
  static const struct { const char* k; int e; } F[] = {{"sem_open.emfile", EMFILE}, {"sem_open.enomem", ENOMEM}, {"sem_open.eacces", EACCES}};
  for (auto& f : F) if (fault(f.k)) { log("sem_open %s -> errno %d", name, f.e); errno = f.e; return SEM_FAILED; }
  auto it = g_semn->find(name);
  KSem* k = it == g_semn->end() ? nullptr : it->second;
  if (k && (flags & O_CREAT) && (flags & O_EXCL)) { log("sem_open %s -> EEXIST", name); errno = EEXIST; return SEM_FAILED; }
  if (!k) {
    if (!(flags & O_CREAT)) { log("sem_open %s -> ENOENT", name); errno = ENOENT; return SEM_FAILED; }
    k = new KSem;
    k->name = name;
    k->value = (int)value;
    k->mode = (int)mode;
    (*g_semn)[name] = k;
  } else if (denied(k->mode, O_RDWR)) { log("sem_open %s -> EACCES", name); errno = EACCES; return SEM_FAILED; }
  for (SemH* h : pt().sems) if (h->k == k && !h->closed) { h->refs++; log("sem_open %s -> same handle", name); return &h->handle; }
  SemH* h = new SemH;
  h->k = k; h->proc = proc(); h->refs = 1; h->closed = false;
  pt().sems.push_back(h);
  g_semh->push_back(h);
  log("sem_open %s value %d", name, k->value);
  return &h->handle;
}
int __wrap_sem_close(sem_t* s) {
  LIVE(__real_sem_close(s));
  yield_point("sem_close"); SCRIPT("sem_close");
  SemH* h = semh(s, "sem_close");
  if (--h->refs == 0) h->closed = true;
  touch();
  log("sem_close");
  return 0;
}
int __wrap_sem_unlink(const char* n) {
  LIVE(__real_sem_unlink(n));
  yield_point("sem_unlink"); SCRIPT("sem_unlink");
  auto it = g_semn->find(n);
  log("sem_unlink %s%s", n, it == g_semn->end() ? ": no such name" : "");
  if (it == g_semn->end()) RV(ENOENT);
  it->second->linked = false;
  g_semn->erase(it);
  return 0;
}
int __wrap_sem_wait(sem_t* s) { LIVE(__real_sem_wait(s)); yield_point("sem_wait"); SCRIPT("sem_wait"); return sem_wait_impl(s, "sem_wait", WaitOpts(), false); }
int __wrap_sem_trywait(sem_t* s) {
  LIVE(__real_sem_trywait(s));
  yield_point("sem_trywait"); SCRIPT("sem_trywait");
  SemH* h = semh(s, "sem_trywait");
  if (h->k->value > 0) { h->k->value--; log("sem_trywait: acquired"); return 0; }
  RV(EAGAIN);
}
int __wrap_sem_timedwait(sem_t* s, const struct timespec* t) {
  LIVE(__real_sem_timedwait(s, t));
  yield_point("sem_timedwait"); SCRIPT("sem_timedwait");
  return sem_wait_impl(s, "sem_timedwait", vk_deadline(CLOCK_REALTIME, t), t->tv_nsec < 0 || t->tv_nsec >= 1000000000l);
}
int __wrap_sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) {
  LIVE(__real_sem_clockwait(s, c, t));
  yield_point("sem_clockwait"); SCRIPT("sem_clockwait");
  return sem_wait_impl(s, "sem_clockwait", vk_deadline(c, t), t->tv_nsec < 0 || t->tv_nsec >= 1000000000l);
}
int __wrap_sem_post(sem_t* s) {
  LIVE(__real_sem_post(s));
  yield_point("sem_post"); SCRIPT("sem_post");
  SemH* h = semh(s, "sem_post");
  h->k->value++;
  race_release(h->k);
  log("sem_post -> %d", h->k->value);
  touch();
  return 0;
}
int __wrap_sem_getvalue(sem_t* s, int* v) {
  LIVE(__real_sem_getvalue(s, v));
  yield_point("sem_getvalue"); SCRIPT("sem_getvalue");
  *v = semh(s, "sem_getvalue")->k->value;
  return 0;
}
int __wrap_sem_init(sem_t* s, int sh, unsigned v) { LIVE(__real_sem_init(s, sh, v)); fail("sim-limit", "sem_init is not simulated"); }
int __wrap_sem_destroy(sem_t* s) { LIVE(__real_sem_destroy(s)); fail("sim-limit", "sem_destroy is not simulated"); }
}
