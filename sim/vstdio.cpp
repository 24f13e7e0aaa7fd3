// C library streams of the simulated system: glibc's own FILE code over cookies, so buffering, error
// and end-of-file semantics are the real ones, while every transfer goes to a simulated descriptor.
#include "fiber.hpp"
#include "runner.hpp"
#include "vk.hpp"
#include "wrap.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>

extern "C" {
#define R(ret, name, args) ret __real_##name args;
R(FILE*, fopen, (const char*, const char*))
R(FILE*, fdopen, (int, const char*))
R(FILE*, freopen, (const char*, const char*, FILE*))
R(int, fileno, (FILE*))
R(int, fclose, (FILE*))
R(int, fflush, (FILE*))
R(size_t, fwrite, (const void*, size_t, size_t, FILE*))
R(size_t, fread, (void*, size_t, size_t, FILE*))
R(size_t, fwrite_unlocked, (const void*, size_t, size_t, FILE*))
R(size_t, fread_unlocked, (void*, size_t, size_t, FILE*))
R(int, fputs, (const char*, FILE*))
R(int, fputc, (int, FILE*))
R(int, putc, (int, FILE*))
R(int, putchar, (int))
R(int, fputc_unlocked, (int, FILE*))
R(int, putc_unlocked, (int, FILE*))
R(int, puts, (const char*))
R(char*, fgets, (char*, int, FILE*))
R(int, fgetc, (FILE*))
R(int, getc, (FILE*))
R(int, getchar, (void))
R(int, ungetc, (int, FILE*))
R(int, vfprintf, (FILE*, const char*, va_list))
R(int, feof, (FILE*))
R(int, ferror, (FILE*))
R(void, clearerr, (FILE*))
R(int, setvbuf, (FILE*, char*, int, size_t))
R(void, setbuf, (FILE*, char*))
R(int, fseek, (FILE*, long, int))
R(int, fseeko, (FILE*, off_t, int))
R(long, ftell, (FILE*))
R(off_t, ftello, (FILE*))
R(void, rewind, (FILE*))
R(ssize_t, getline, (char**, size_t*, FILE*))
R(ssize_t, getdelim, (char**, size_t*, int, FILE*))
R(void, flockfile, (FILE*))
R(void, funlockfile, (FILE*))
R(int, ftrylockfile, (FILE*))
#undef R
}

namespace sim {
struct VFile { FILE* f; int fd; int proc; int owner = -1; int depth = 0; bool closed = false; bool append = false; char* buf = nullptr; bool std = false; };
static std::map<FILE*, VFile*>* g_vf;
static std::set<FILE*>* g_closed;
static FILE *g_in0, *g_out0, *g_err0;
static Ofd* ofd_of(VFile* v, const char* by) { return vk_fd(v->fd, by); }

static ssize_t ck_read(void* c, char* b, size_t n) {
  VFile* v = (VFile*)c;
  yield_point("stream read"); SCRIPT("read");
  Ofd* o = ofd_of(v, "stream read");
  if (!o) return -1;
  ssize_t r = o->read(b, n);
  log("stream read %d %zu -> %zd", v->fd, n, r);
  return r;
}
static ssize_t ck_write(void* c, const char* b, size_t n) {
  VFile* v = (VFile*)c;
  size_t left = n;
  while (left) {
    yield_point("stream write");
    Ofd* o = ofd_of(v, "stream write");
    if (!o) break;
    if (int e = scripted("write")) { errno = e; break; }
    ssize_t r = o->write(b, left);
    log("stream write %d %zu -> %zd", v->fd, left, r);
    if (r < 0) break;
    left -= r;
    b += r;
  }
  return n - left;
}
static int ck_seek(void* c, off64_t* p, int w) {
  VFile* v = (VFile*)c;
  Ofd* o = ofd_of(v, "stream seek");
  if (!o) return -1;
  off_t r = o->seek(*p, w);
  if (r < 0) return -1;
  *p = r;
  return 0;
}
static int ck_close(void* c) {
  VFile* v = (VFile*)c;
  yield_point("stream close");
  log("stream close %d", v->fd);
  if (int e = scripted("close")) { vk_close_fd(v->fd); RV(e); }
  return vk_close_fd(v->fd);
}
static VFile* make(int fd, const char* mode, int buffering) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  VFile* v = new VFile;
  FILE* f = fopencookie(v, mode, io);
  v->f = f; v->fd = fd; v->proc = proc(); v->append = mode[0] == 'a';
  if (buffering == _IONBF) __real_setvbuf(f, nullptr, _IONBF, 0);
  else {
    // the buffer size is the file system's choice
    static const int S[] = {4096, 16, 64, 256, 1024, 4095};
    size_t n = S[env(6)];
    v->buf = (char*)malloc(n);
    __real_setvbuf(f, v->buf, buffering, n);
  }
  (*g_vf)[f] = v;
  g_closed->erase(f);
  return v;
}
// the stream, or nullptr for one of the program's standard streams
static VFile* vf(FILE* f, const char* by) {
  if (!f) fail("crash", "%s on a null stream", by);
  auto i = g_vf->find(f);
  if (i == g_vf->end()) {
    if (f == g_in0 || f == g_out0 || f == g_err0) return nullptr;
    if (g_closed->count(f)) fail("file-use-after-close", "%s on a stream that was closed", by);
    fail("crash", "%s on %p, which is not a stream", by, (void*)f);
  }
  VFile* v = i->second;
  if (v->proc != proc()) fail("file-use-after-close", "%s on a stream of another process", by);
  return v;
}
static void lock(VFile* v, const char* by) {
  if (v->owner == self()) { v->depth++; return; }
  if (v->owner >= 0) { probe("stream.contended"); kwait(by, [v] { return v->owner < 0 || v->closed; }); }
  if (v->closed) fail("file-use-after-close", "%s: the stream was closed while the call waited for it", by);
  v->owner = self();
  v->depth = 1;
}
static void unlock(VFile* v) { if (--v->depth == 0) { v->owner = -1; touch(); } }
struct Op {
  VFile* v;
  Op(FILE* f, const char* by) { yield_point(by); v = vf(f, by); if (v) lock(v, by); }
  ~Op() { if (v) { int e = errno; unlock(v); errno = e; } }
  Op(const Op&);
};
int vk_open_streams(int p) { Guard g; int n = 0; for (auto& x : *g_vf) if (x.second->proc == (p < 0 ? proc() : p) && !x.second->std) n++; return n; }
// standard streams of the calling process on simulated descriptors 0..2
void vk_std_stream(int n, Ofd* o, int buffering) {
  Guard g;
  extern void vk_install_at(int, Ofd*);
  vk_install_at(n, o);
  VFile* v = make(n, n == 0 ? "r" : "w", buffering);
  v->std = true;
  (n == 0 ? stdin : n == 1 ? stdout : stderr) = v->f;
}
static int close_impl(FILE* f) {
  yield_point("fclose");
  VFile* v = vf(f, "fclose");
  if (!v) return 0;
  lock(v, "fclose");
  v->closed = true;
  touch();
  for (int k = 0; k < 2; k++) yield_point("fclose");
  int r = __real_fclose(f);
  int e = errno;
  g_vf->erase(f);
  g_closed->insert(f);
  free(v->buf);
  delete v;
  log("fclose -> %d", r);
  errno = e;
  return r;
}
void vk_stdio_init() {
  g_vf = new std::map<FILE*, VFile*>;
  g_closed = new std::set<FILE*>;
  g_in0 = stdin; g_out0 = stdout; g_err0 = stderr;
  on_proc_death([](int p) { for (auto i = g_vf->begin(); i != g_vf->end();) if (i->second->proc == p) i = g_vf->erase(i); else ++i; });
}
static int mode_flags(const char* m) {
  bool plus = strchr(m, '+') != nullptr;
  if (m[0] == 'r') return plus ? O_RDWR : O_RDONLY;
  if (m[0] == 'w') return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  if (m[0] == 'a') return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  return -1;
}
int vk_open_path(const char*, int, int);
static FILE* fopen_impl(const char* p, const char* m) {
  int fl = mode_flags(m);
  if (fl < 0) { errno = EINVAL; return nullptr; }
  int fd = vk_open_path(p, fl, 0666);
  if (fd < 0) return nullptr;
  if (int e = scripted("fdopen")) { vk_close_fd(fd); errno = e; return nullptr; }
  if (fault("fdopen")) { vk_close_fd(fd); errno = ENOMEM; return nullptr; }
  return make(fd, m, _IOFBF)->f;
}
}  // namespace sim
using namespace sim;

extern "C" {
FILE* __wrap_fopen(const char* p, const char* m) { LIVE(__real_fopen(p, m)); return fopen_impl(p, m); }
FILE* __wrap_fopen64(const char* p, const char* m) { LIVE(__real_fopen(p, m)); return fopen_impl(p, m); }
FILE* __wrap_fdopen(int fd, const char* m) {
  LIVE(__real_fdopen(fd, m));
  yield_point("fdopen");
  if (int e = scripted("fdopen")) { errno = e; return nullptr; }
  Ofd* o = vk_fd(fd, "fdopen");
  if (!o) return nullptr;
  int fl = mode_flags(m), acc = o->flags & O_ACCMODE;
  if (fl < 0) { errno = EINVAL; return nullptr; }
  if (acc != O_RDWR && (fl & O_ACCMODE) != acc) { errno = EINVAL; return nullptr; }
  if (fault("fdopen")) { log("fdopen %d -> ENOMEM", fd); errno = ENOMEM; return nullptr; }
  if (m[0] == 'a') o->flags |= O_APPEND;
  log("fdopen %d %s", fd, m);
  return make(fd, m, _IOFBF)->f;
}
FILE* __wrap_freopen(const char* p, const char* m, FILE* f) {
  LIVE(__real_freopen(p, m, f));
  close_impl(f);
  return fopen_impl(p, m);
}
int __wrap_fileno(FILE* f) { LIVE(__real_fileno(f)); VFile* v = vf(f, "fileno"); return v ? v->fd : f == g_in0 ? 0 : f == g_out0 ? 1 : 2; }
int __wrap_fclose(FILE* f) { LIVE(__real_fclose(f)); return close_impl(f); }
int __wrap_fflush(FILE* f) {
  LIVE(__real_fflush(f));
  if (!f) {
    std::vector<FILE*> all;
    for (auto& x : *g_vf) if (x.second->proc == proc()) all.push_back(x.first);
    int r = 0;
    for (FILE* x : all) if (g_vf->count(x)) { Op o(x, "fflush"); if (__real_fflush(x)) r = EOF; }
    log("fflush of all streams -> %d", r);
    return r;
  }
  Op o(f, "fflush");
  int r = o.v ? __real_fflush(f) : 0;
  log("fflush -> %d", r);
  return r;
}
static size_t write_impl(const void* b, size_t s, size_t n, FILE* f, const char* by) {
  size_t t;
  if (__builtin_mul_overflow(s, n, &t)) fail("crash", "%s of an absurd size", by);
  check_range(b, t, false, by);
  Op o(f, by);
  if (!o.v) return n;
  size_t r = __real_fwrite(b, s, n, f);
  log("fwrite %zux%zu -> %zu", s, n, r);
  return r;
}
static size_t read_impl(void* b, size_t s, size_t n, FILE* f, const char* by) {
  check_range(b, s * n, true, by);
  Op o(f, by);
  if (!o.v) return 0;
  size_t r = __real_fread(b, s, n, f);
  log("fread %zux%zu -> %zu", s, n, r);
  return r;
}
size_t __wrap_fwrite(const void* b, size_t s, size_t n, FILE* f) { LIVE(__real_fwrite(b, s, n, f)); return write_impl(b, s, n, f, "fwrite"); }
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f) { LIVE(__real_fread(b, s, n, f)); return read_impl(b, s, n, f, "fread"); }
// unlocked calls exclude nobody: entering while another thread is inside is a data race on the stream
static void unlocked(FILE* f, const char* by) { VFile* v = vf(f, by); if (v && v->owner >= 0 && v->owner != self()) fail("stream-race", "%s while %s is inside a call on the same stream", by, fname(v->owner)); }
size_t __wrap_fwrite_unlocked(const void* b, size_t s, size_t n, FILE* f) { LIVE(__real_fwrite_unlocked(b, s, n, f)); unlocked(f, "fwrite_unlocked"); return write_impl(b, s, n, f, "fwrite_unlocked"); }
size_t __wrap_fread_unlocked(void* b, size_t s, size_t n, FILE* f) { LIVE(__real_fread_unlocked(b, s, n, f)); unlocked(f, "fread_unlocked"); return read_impl(b, s, n, f, "fread_unlocked"); }
int __wrap_fputs(const char* s, FILE* f) {
  LIVE(__real_fputs(s, f));
  check_range(s, strlen(s) + 1, false, "fputs");
  Op o(f, "fputs");
  int r = o.v ? __real_fputs(s, f) : 1;
  log("fputs %zu bytes -> %d", strlen(s), r < 0 ? -1 : 1);
  return r;
}
static int putc_impl(int c, FILE* f) { Op o(f, "fputc"); int r = o.v ? __real_fputc(c, f) : (unsigned char)c; log("fputc %02x -> %d", (unsigned char)c, r); return r; }
int __wrap_fputc(int c, FILE* f) { LIVE(__real_fputc(c, f)); return putc_impl(c, f); }
int __wrap_fputc_unlocked(int c, FILE* f) { LIVE(__real_fputc_unlocked(c, f)); unlocked(f, "fputc_unlocked"); return putc_impl(c, f); }
int __wrap_putc_unlocked(int c, FILE* f) { LIVE(__real_putc_unlocked(c, f)); unlocked(f, "putc_unlocked"); return putc_impl(c, f); }
int __wrap_dprintf(int fd, const char* fmt, ...) {
  va_list a; va_start(a, fmt); char b[4096]; int n;
  { Guard g; n = vsnprintf(b, sizeof b, fmt, a); }
  va_end(a);
  return n < 0 ? n : (int)write(fd, b, (size_t)n < sizeof b ? n : sizeof b - 1);
}
int __wrap_putc(int c, FILE* f) { LIVE(__real_putc(c, f)); return putc_impl(c, f); }
int __wrap__IO_putc(int c, FILE* f) { LIVE(__real_putc(c, f)); return putc_impl(c, f); }
int __wrap_putchar(int c) { LIVE(__real_putchar(c)); return putc_impl(c, stdout); }
int __wrap_puts(const char* s) {
  LIVE(__real_puts(s));
  Op o(stdout, "puts");
  if (!o.v) return 1;
  int r = __real_fputs(s, stdout);
  if (r >= 0) r = __real_fputc('\n', stdout);
  return r < 0 ? EOF : 1;
}
char* __wrap_fgets(char* b, int n, FILE* f) {
  LIVE(__real_fgets(b, n, f));
  if (n > 0) check_range(b, n, true, "fgets");
  Op o(f, "fgets");
  char* r = o.v ? __real_fgets(b, n, f) : nullptr;
  log("fgets %d -> %s", n, r ? "line" : "null");
  return r;
}
static int getc_impl(FILE* f) { Op o(f, "fgetc"); int r = o.v ? __real_fgetc(f) : EOF; log("fgetc -> %d", r); return r; }
int __wrap_fgetc(FILE* f) { LIVE(__real_fgetc(f)); return getc_impl(f); }
int __wrap_getc(FILE* f) { LIVE(__real_getc(f)); return getc_impl(f); }
int __wrap__IO_getc(FILE* f) { LIVE(__real_getc(f)); return getc_impl(f); }
int __wrap_getchar() { LIVE(__real_getchar()); return getc_impl(stdin); }
int __wrap_ungetc(int c, FILE* f) { LIVE(__real_ungetc(c, f)); Op o(f, "ungetc"); return o.v ? __real_ungetc(c, f) : EOF; }
static int vprintf_impl(FILE* f, const char* fmt, va_list a) { Op o(f, "fprintf"); return o.v ? __real_vfprintf(f, fmt, a) : 0; }
int __wrap_vfprintf(FILE* f, const char* fmt, va_list a) { LIVE(__real_vfprintf(f, fmt, a)); return vprintf_impl(f, fmt, a); }
int __wrap_vprintf(const char* fmt, va_list a) { LIVE(__real_vfprintf(stdout, fmt, a)); return vprintf_impl(stdout, fmt, a); }
int __wrap_fprintf(FILE* f, const char* fmt, ...) {
  va_list a; va_start(a, fmt); int r;
  if (!g_live) r = __real_vfprintf(f, fmt, a); else { Guard g; r = vprintf_impl(f, fmt, a); }
  va_end(a);
  return r;
}
int __wrap_printf(const char* fmt, ...) {
  va_list a; va_start(a, fmt); int r;
  if (!g_live) r = __real_vfprintf(stdout, fmt, a); else { Guard g; r = vprintf_impl(stdout, fmt, a); }
  va_end(a);
  return r;
}
int __wrap_feof(FILE* f) { LIVE(__real_feof(f)); return vf(f, "feof") ? __real_feof(f) : 0; }
int __wrap_ferror(FILE* f) { LIVE(__real_ferror(f)); return vf(f, "ferror") ? __real_ferror(f) : 0; }
void __wrap_clearerr(FILE* f) { LIVE(__real_clearerr(f)); if (vf(f, "clearerr")) __real_clearerr(f); }
int __wrap_setvbuf(FILE* f, char* b, int m, size_t n) { LIVE(__real_setvbuf(f, b, m, n)); Op o(f, "setvbuf"); return o.v ? __real_setvbuf(f, b, m, n) : 0; }
void __wrap_setbuf(FILE* f, char* b) { LIVE(__real_setbuf(f, b)); Op o(f, "setbuf"); if (o.v) __real_setbuf(f, b); }
int __wrap_fseek(FILE* f, long p, int w) { LIVE(__real_fseek(f, p, w)); Op o(f, "fseek"); return o.v ? __real_fseek(f, p, w) : -1; }
int __wrap_fseeko(FILE* f, off_t p, int w) { LIVE(__real_fseeko(f, p, w)); Op o(f, "fseeko"); return o.v ? __real_fseeko(f, p, w) : -1; }
long __wrap_ftell(FILE* f) { LIVE(__real_ftell(f)); Op o(f, "ftell"); return o.v ? __real_ftell(f) : -1; }
off_t __wrap_ftello(FILE* f) { LIVE(__real_ftello(f)); Op o(f, "ftello"); return o.v ? __real_ftello(f) : -1; }
void __wrap_rewind(FILE* f) { LIVE(__real_rewind(f)); Op o(f, "rewind"); if (o.v) __real_rewind(f); }
static ssize_t getdelim_impl(char** l, size_t* n, int d, FILE* f) {
  Op o(f, "getdelim");
  if (!o.v) return -1;
  char* t = nullptr; size_t tn = 0;
  ssize_t r = __real_getdelim(&t, &tn, d, f);
  if (r >= 0) {
    if (!*l || *n < (size_t)r + 1) { g_live = true; *l = (char*)realloc(*l, r + 1); g_live = false; *n = r + 1; }
    memcpy(*l, t, r + 1);
  }
  free(t);
  return r;
}
ssize_t __wrap_getdelim(char** l, size_t* n, int d, FILE* f) { LIVE(__real_getdelim(l, n, d, f)); return getdelim_impl(l, n, d, f); }
ssize_t __wrap___getdelim(char** l, size_t* n, int d, FILE* f) { LIVE(__real_getdelim(l, n, d, f)); return getdelim_impl(l, n, d, f); }
ssize_t __wrap_getline(char** l, size_t* n, FILE* f) { LIVE(__real_getline(l, n, f)); return getdelim_impl(l, n, '\n', f); }
void __wrap_flockfile(FILE* f) { LIVE(__real_flockfile(f)); yield_point("flockfile"); VFile* v = vf(f, "flockfile"); if (v) lock(v, "flockfile"); }
void __wrap_funlockfile(FILE* f) { LIVE(__real_funlockfile(f)); VFile* v = vf(f, "funlockfile"); if (v) { if (v->owner != self()) fail("stream-race", "funlockfile by a thread that does not hold the lock"); unlock(v); } yield_point("funlockfile"); }
int __wrap_ftrylockfile(FILE* f) { LIVE(__real_ftrylockfile(f)); yield_point("ftrylockfile"); VFile* v = vf(f, "ftrylockfile"); if (!v) return 0; if (v->owner >= 0 && v->owner != self()) return -1; lock(v, "ftrylockfile"); return 0; }
}
