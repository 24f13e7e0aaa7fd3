// C31 every failure of the system is reported as what it is, and leaves the object usable
#include <unistd.h>
#include <string.h>
#include <errno.h>
#include <netdb.h>
#include <sched.h>
#include <sys/resource.h>
#include <vector>
#include "sim/util.hpp"
#include "sim/fiber.hpp"
#include <ecl/devices/ofile.hpp>
#include <ecl/devices/shared_file.hpp>
#include <ecl/devices/socket.hpp>
#include <ecl/devices/serial.hpp>
#include <ecl/ipc/semaphore.hpp>
#include <ecl/ipc/shared_memory.hpp>
#include <ecl/threads/thread.hpp>
#include <ecl/threads/mutex.hpp>
#include <ecl/threads/priority.hpp>
#include <ecl/time/sleep.hpp>
#include <ecl/time/timestamp.hpp>
#include <ecl/time/stopwatch.hpp>
#include <ecl/streams/file_streams.hpp>
#include <ecl/streams/shared_file_stream.hpp>
#include <ecl/streams/log_stream.hpp>
#include <ecl/streams/serial_stream.hpp>
#include <ecl/streams/socket_streams.hpp>

using namespace sim;
using std::string;
using namespace ecl;

namespace {
// How a failure of the system has to come out.
enum How {
  Throws,      // an exception in every build
  Reports,     // an exception in debug builds; otherwise the failure value and, where there is one, error()
  DebugOnly,   // an exception in debug builds; release builds cannot tell
  Answers,     // the operation answers the given value in every build
  May = 16     // ... or the library copes with it
};
struct Wire { string sent[2]; size_t got[2] = {0, 0}; bool ended = false; };
Wire* W;
struct Plan { const char* op; const char* call; int err; int how; std::vector<ErrorFlag> flags; long value; int nth; };
std::vector<Plan>* plans;
void plan(const char* op, const char* call, int err, int how, std::vector<ErrorFlag> flags, long value = 0, int nth = 1) { plans->push_back(Plan{op, call, err, how, flags, value, nth}); }
void plan_open(const char* op) {
  struct { int e; ErrorFlag f; } R[] = {{ENOENT, NotFoundError}, {EINVAL, InvalidArgError}, {EACCES, PermissionsError}, {EFBIG, OutOfResourcesError}, {EOVERFLOW, OutOfResourcesError}, {EISDIR, InvalidObjectError},
    {ELOOP, SystemFailureError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError}, {ENAMETOOLONG, InvalidArgError}, {ENOMEM, MemoryError}, {ENOSPC, OutOfResourcesError}, {ENOTDIR, InvalidObjectError},
    {EROFS, PermissionsError}, {ETXTBSY, UsageError}};
  for (auto& r : R) plan(op, "open", r.e, Throws, {r.f});
  plan(op, "open", EINTR, Throws | May, {InterruptedError});
  plan(op, "open", ENXIO, Throws, {});
}
void plan_recv(const char* op) {
  struct { int e; ErrorFlag f; } R[] = {{EBADF, InvalidObjectError}, {ECONNREFUSED, ConnectionError}, {EFAULT, SystemFailureError}, {EINVAL, InvalidArgError}, {ENOMEM, MemoryError}, {ENOTCONN, ConnectionError}, {ENOTSOCK, InvalidObjectError}};
  for (auto& r : R) plan(op, "recv", r.e, Reports, {r.f});
  plan(op, "recv", EINTR, Reports | May, {InterruptedError});
  plan(op, "recv", EAGAIN, Reports, {InterruptedError, BlockingError, TimeOutError});
  plan(op, "recv", ETIMEDOUT, Reports, {TimeOutError, ConnectionError, InterruptedError, UnknownError});
}
void plan_send(const char* op) {
  struct { int e; ErrorFlag f; } R[] = {{EAGAIN, BlockingError}, {EACCES, PermissionsError}, {EBADF, InvalidObjectError}, {EFAULT, SystemFailureError}, {EINVAL, InvalidArgError}, {EISCONN, ConnectionError},
    {EMSGSIZE, WriteError}, {ENOBUFS, OutOfResourcesError}, {ENOMEM, MemoryError}, {ENOTCONN, ConnectionError}, {ENOTSOCK, InvalidObjectError}, {EOPNOTSUPP, NotSupportedError}};
  for (auto& r : R) plan(op, "send", r.e, Reports, {r.f});
  plan(op, "send", EINTR, Reports | May, {InterruptedError});
}
void plan_ioctl(const char* op) {
  struct { int e; ErrorFlag f; } R[] = {{EBADF, InvalidObjectError}, {EFAULT, OutOfRangeError}, {EINVAL, InvalidArgError}, {ENOTTY, InvalidObjectError}};
  for (auto& r : R) plan(op, "ioctl", r.e, Reports, {r.f});
}
void plan_socket(const char* op) {
  struct { int e; ErrorFlag f; } R[] = {{EACCES, OpenError}, {EAFNOSUPPORT, NotSupportedError}, {EINVAL, InvalidArgError}, {ENFILE, OutOfResourcesError}, {ENOBUFS, MemoryError}, {ENOMEM, MemoryError}, {EPROTONOSUPPORT, NotSupportedError}};
  for (auto& r : R) plan(op, "socket", r.e, Throws, {r.f});
  plan(op, "socket", EACCES, Throws, {OpenError, PermissionsError});
  plan(op, "socket", EMFILE, Throws, {OutOfRangeError, OutOfResourcesError});
}
void make_plans() {
  plans = new std::vector<Plan>;
  plan_open("file open");
  plan("file open", "fdopen", ENOMEM, Throws, {MemoryError});
  for (int e : {ENOSPC, EIO, EFBIG, EDQUOT, EPIPE, EAGAIN}) {
    plan("file write", "write", e, Reports, {WriteError});
    plan("file flush", "write", e, Reports, {});
    plan("file close", "write", e, Throws, {});
    plan("shared write", "write", e, Reports, {WriteError});
    plan("shared flush", "write", e, Reports, {WriteError});
  }
  plan("file close", "close", EIO, Throws, {SystemFailureError});
  plan("file close", "close", EINTR, Throws | May, {InterruptedError});
  plan("file close", "close", ENOSPC, Throws, {});
  plan_open("shared open");
  plan("shared open", "fdopen", ENOMEM, Throws, {MemoryError});
  // sockets
  plan_socket("server open"); plan_socket("client open");
  {
    struct { int e; ErrorFlag f; } B[] = {{EACCES, PermissionsError}, {EADDRINUSE, BusyError}, {EBADF, InvalidObjectError}, {EINVAL, BusyError}, {ENOTSOCK, InvalidObjectError}, {EADDRNOTAVAIL, InvalidObjectError}, {EFAULT, OutOfRangeError}, {ENOMEM, MemoryError}};
    for (auto& r : B) plan("server open", "bind", r.e, Throws, {r.f});
    struct { int e; ErrorFlag f; } A[] = {{EAGAIN, BlockingError}, {EBADF, InvalidObjectError}, {ECONNABORTED, InterruptedError}, {EINVAL, UsageError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError}, {ENOTSOCK, InvalidObjectError},
      {EOPNOTSUPP, InvalidObjectError}, {EFAULT, PermissionsError}, {ENOBUFS, MemoryError}, {ENOMEM, MemoryError}, {EPROTO, InvalidArgError}, {EPERM, PermissionsError}};
    for (auto& r : A) plan("server listen", "accept", r.e, r.e == ECONNABORTED ? Throws | May : Throws, {r.f});
    plan("server listen", "accept", EINTR, Throws | May, {InterruptedError});
    plan("server listen", "listen", EADDRINUSE, Throws, {BusyError});
    plan("server listen", "listen", EBADF, Throws, {InvalidObjectError});
    plan("server listen", "listen", ENOTSOCK, Throws, {InvalidObjectError});
    struct { int e; ErrorFlag f; } C[] = {{EACCES, PermissionsError}, {EPERM, PermissionsError}, {EADDRINUSE, BusyError}, {EAFNOSUPPORT, NotSupportedError}, {EAGAIN, OutOfResourcesError}, {EALREADY, BlockingError}, {EBADF, InvalidObjectError},
      {ECONNREFUSED, ConnectionRefusedError}, {EFAULT, OutOfRangeError}, {EINPROGRESS, BlockingError}, {EISCONN, ConnectionError}, {ENETUNREACH, NotFoundError}, {EHOSTUNREACH, NotFoundError}, {ENOTSOCK, InvalidObjectError}, {ETIMEDOUT, TimeOutError}};
    for (auto& r : C) plan("client open", "connect", r.e, Throws, {r.f});
    plan("client open", "connect", EINTR, Throws | May, {InterruptedError});
    plan("client open", "getaddrinfo", EAI_NONAME, Throws, {OpenError});
    plan("client open", "getaddrinfo", EAI_AGAIN, Throws, {OpenError});
    if (!exceptions_on) for (auto& q : *plans) if (!strcmp(q.op, "client open")) {   // error() and exceptions class these differently
      if (!strcmp(q.call, "getaddrinfo")) q.flags = {OpenError, ConnectionError, UnknownError};
      if (q.err == ENETUNREACH || q.err == EHOSTUNREACH) q.flags = {NotFoundError, ConfigurationError, UnknownError};
    }
    plan("client open", "getaddrinfo", EAI_FAIL, Throws, {});
    plan("client open", "getaddrinfo", EAI_MEMORY, Throws, {});
  }
  for (const char* op : {"server read", "client read", "server peek", "client peek"}) plan_recv(op);
  for (const char* op : {"server write", "client write"}) { plan_send(op); plan(op, "send", EPIPE, Answers, {}, ConnectionHungUp); }
  for (const char* op : {"server remaining", "client remaining"}) plan_ioctl(op);
  plan("client read", "recv", ECONNRESET, Answers, {}, ConnectionHungUp);
  plan("server read", "recv", ECONNRESET, Reports, {InterruptedError, ConnectionError}, ConnectionHungUp);
  plan("client peek", "recv", ECONNRESET, Reports, {InterruptedError, ConnectionError}, ConnectionHungUp);
  plan("server peek", "recv", ECONNRESET, Reports, {InterruptedError, ConnectionError}, ConnectionHungUp);
  for (const char* op : {"server write", "client write"}) plan(op, "send", ECONNRESET, Reports, {InterruptedError, ConnectionError}, ConnectionHungUp);
  // serial lines
  plan_open("serial open");
  for (int e : {EAGAIN, EACCES}) plan("serial open", "fcntl.lock", e, Throws, {OpenError, IsLockedError});
  for (int e : {EIO, EINVAL, ENOTTY}) plan("serial open", "tcsetattr", e, Throws, {ConfigurationError});
  {
    struct { int e; ErrorFlag f; } W[] = {{EAGAIN, BlockingError}, {EINVAL, InvalidObjectError}, {EFAULT, OutOfRangeError}, {EFBIG, MemoryError}, {EIO, SystemFailureError}, {ENOSPC, OutOfResourcesError}, {EPIPE, PermissionsError}};
    for (auto& r : W) plan("serial write", "write", r.e, Reports, {r.f});
    plan("serial write", "write", EINTR, Reports | May, {InterruptedError});
    struct { int e; ErrorFlag f; } R[] = {{EAGAIN, BlockingError}, {EINVAL, PermissionsError}, {EFAULT, OutOfRangeError}, {EIO, SystemFailureError}, {EISDIR, InvalidObjectError}};
    for (auto& r : R) for (int nth = 1; nth < 3; nth++) plan("serial read", "read", r.e, Reports, {r.f}, 0, nth);
    plan("serial read", "read", EINTR, Reports | May, {InterruptedError});
  }
  // semaphores and shared memory
  {
    struct { int e; ErrorFlag f; } R[] = {{EACCES, PermissionsError}, {ENOMEM, MemoryError}, {EINVAL, InvalidArgError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError}, {ENAMETOOLONG, InvalidArgError}};
    for (auto& r : R) for (const char* op : {"semaphore create", "semaphore join"}) plan(op, "sem_open", r.e, DebugOnly, {r.f});
    for (auto& r : R) if (r.e != ENAMETOOLONG) plan("semaphore join", "sem_open", r.e, DebugOnly, {r.f}, 0, 2);
    plan("semaphore trylock", "sem_trywait", EINTR, Answers, {}, 0);
    plan("semaphore trylock", "sem_trywait", EAGAIN, Answers, {}, 0);
    plan("semaphore timed", "sem_timedwait", EINTR, Reports | May, {InterruptedError});
    plan("semaphore timed", "sem_timedwait", EINVAL, Reports, {InvalidArgError});
    plan("semaphore timed", "sem_timedwait", ETIMEDOUT, Answers, {}, 0);
    plan("semaphore timed", "clock_gettime", EINVAL, Answers, {}, 0);   // no deadline to wait for: not obtained
    for (const char* op : {"memory create", "memory join"}) {
      plan(op, "shm_open", EACCES, Throws, {PermissionsError});
      plan(op, "shm_open", EMFILE, Throws, {OutOfResourcesError});
      plan(op, "shm_open", ENFILE, Throws, {OutOfResourcesError});
      plan(op, "shm_open", ENAMETOOLONG, Throws, {InvalidArgError});
      plan(op, "shm_open", EINVAL, Throws, {InvalidArgError});
      plan(op, "mmap", EACCES, Throws, {PermissionsError});
      plan(op, "mmap", EAGAIN, Throws, {MemoryError});
      plan(op, "mmap", EINVAL, Throws, {InvalidArgError});
      plan(op, "mmap", ENFILE, Throws, {OutOfResourcesError});
      plan(op, "mmap", ENODEV, Throws, {NotSupportedError});
      plan(op, "mmap", ENOMEM, Throws, {MemoryError});
      plan(op, "mmap", EPERM, Throws, {PermissionsError});
      for (int e : {EFBIG, EIO, EINTR, ENOSPC}) plan(op, "ftruncate", e, Throws, {});
    }
    plan("memory join", "shm_open", EACCES, Throws, {PermissionsError}, 0, 2);
    plan("memory join", "shm_open", EMFILE, Throws, {OutOfResourcesError}, 0, 2);
  }
  // threads
  plan("thread start", "pthread_create", EAGAIN, Reports, {MemoryError, OutOfResourcesError});
  plan("thread start", "pthread_create", EPERM, Reports, {PermissionsError});
  plan("thread start", "pthread_create", EINVAL, Reports, {InvalidInputError, InvalidArgError});
  plan("thread start", "pthread_attr_setstacksize", EINVAL, DebugOnly, {ConfigurationError});
  plan("thread cancel", "pthread_cancel", ESRCH, DebugOnly, {InvalidInputError});
  plan("thread join", "pthread_join", EDEADLK, DebugOnly, {UsageError});
  plan("thread join", "pthread_join", EINVAL, DebugOnly, {InvalidInputError});
  plan("thread join", "pthread_join", ESRCH, DebugOnly, {InvalidInputError});
  plan("mutex create", "pthread_mutex_init", EAGAIN, DebugOnly, {MemoryError, OutOfResourcesError});
  plan("mutex create", "pthread_mutex_init", ENOMEM, DebugOnly, {MemoryError});
  plan("mutex create", "pthread_mutex_init", EPERM, DebugOnly, {PermissionsError});
  plan("mutex lock", "pthread_mutex_lock", EDEADLK, DebugOnly, {UsageError});
  plan("mutex lock", "pthread_mutex_lock", EINVAL, DebugOnly, {InvalidInputError});
  plan("mutex lock", "pthread_mutex_lock", EAGAIN, DebugOnly, {OutOfRangeError});
  plan("mutex trylock", "pthread_mutex_trylock", EBUSY, Answers, {}, 0);
  plan("mutex trylock", "pthread_mutex_trylock", EINVAL, Reports, {InvalidInputError});
  plan("mutex trylock", "pthread_mutex_trylock", EAGAIN, Reports, {OutOfRangeError});
  plan("mutex timed", "pthread_mutex_timedlock", ETIMEDOUT, Answers, {}, 0);
  plan("mutex timed", "pthread_mutex_timedlock", EDEADLK, Reports, {UsageError});
  plan("mutex timed", "pthread_mutex_timedlock", EAGAIN, Reports, {OutOfRangeError});
  plan("mutex unlock", "pthread_mutex_unlock", EPERM, DebugOnly, {PermissionsError});
  plan("mutex unlock", "pthread_mutex_unlock", EINVAL, DebugOnly, {InvalidInputError});
  plan("priority set", "setpriority", EACCES, Reports, {PermissionsError});
  plan("priority set", "setpriority", EPERM, Reports, {PermissionsError});
  plan("priority set", "setpriority", ESRCH, Reports, {InvalidInputError});
  plan("priority set", "sched_setscheduler", EPERM, Reports, {PermissionsError});
  plan("priority set", "sched_setscheduler", EINVAL, Reports, {InvalidInputError});
  plan("priority set", "sched_setscheduler", ESRCH, Reports, {InvalidInputError});
  plan("priority get", "sched_getscheduler", ESRCH, Reports, {InvalidInputError});
  plan("priority get", "sched_getscheduler", EINVAL, Reports, {InvalidInputError});
  plan("priority get", "sched_getparam", ESRCH, Reports, {InvalidInputError});
  // time
  plan("sleep", "nanosleep", EINTR, DebugOnly | May, {InterruptedError});
  plan("sleep", "nanosleep", EINVAL, DebugOnly, {InvalidInputError});
  plan("sleep", "nanosleep", EFAULT, DebugOnly, {MemoryError});
  plan("stamp", "clock_gettime", EINVAL, DebugOnly, {NotSupportedError});
  plan("stamp", "clock_gettime", EFAULT, DebugOnly, {OutOfRangeError});
}
int rate = 0;             // failures out of 12 operations
bool no_alloc = false;
enum Status { Done, Failed, Spent };   // Spent: answered (or may have answered) something else than success, without being in error
const char* nothing() { return nullptr; }

// One operation f, which answers good() values when the system refuses nothing.
template <class F, class G, class E> Status step(const char* name, F f, G good, E error_flag) {
  const Plan* p = nullptr; int mem = 0; u64 a0;
  {
    NP;
    if (rate && gencoin(rate, 12)) {
      if (!no_alloc && gencoin(1, 4)) { mem = 1 + gen(10); script_errno("alloc", ENOMEM, mem); }
      else {
        std::vector<const Plan*> c;
        for (auto& q : *plans) if (!strcmp(q.op, name) && !(g_release && (q.how & 15) == DebugOnly)) c.push_back(&q);
        if (!c.empty()) { p = c[gen(c.size())]; if (W && (p->err == EPIPE || p->err == ECONNRESET)) W->ended = true; script_errno(p->call, p->err, p->nth); }
      }
    }
  }
  int r = 0; ErrorFlag fl = NoError; string* what; long v = -77;
  { NP; what = new string; }
  try { v = f(); }
  catch (const StandardException& e) { Guard g; r = 1; fl = e.flag(); *what = e.what(); }
  catch (const std::bad_alloc&) { Guard g; r = 2; fl = MemoryError; }
  NP;
  nontrivial();
  bool hit = (p || mem) && script_fired();
  script_errno(nullptr, 0);
  ErrorFlag ef = error_flag();
  string told; if (r == 1) { told = *what; } delete what;
  log("%s -> r=%d flag=%d value=%ld hit=%d", name, r, (int)fl, v, hit);
  if (r == 1 && told.find("exception_handler") != string::npos) fail("wrong-place", "%s: the exception does not tell where the failure was met but where its text was made: %s", name, told.c_str());
  bool fine = !r && good(v);
  if (!hit) {
    if (!fine) fail("spurious-failure", "%s failed although the system refused nothing (%s, flag %d, value %ld)", name, r == 1 ? "exception" : r ? "out of memory" : "answer", (int)fl, v);
    if (ef != NoError && (int)ef != -1) fail("error-flag", "error() is %d after a successful %s", (int)ef, name);
    return Done;
  }
  if (mem) {
    if (fine) { probe("coped without memory"); return Done; }
    if (r == 1 && fl != MemoryError) { bool io = false; for (ErrorFlag o : {OpenError, WriteError, UnknownError, OutOfResourcesError}) io |= fl == o; if (!io) fail("wrong-class", "%s ran out of memory and reported flag %d", name, (int)fl); }
    probe("out of memory reported");
    return Failed;
  }
  char at[120]; snprintf(at, sizeof at, "%s with %s failing (%d %s)", name, p->call, p->err, p->err > 0 ? strerror(p->err) : "");
  if (r == 2) fail("op-threw", "%s ran out of memory", at);
  if (fine && (p->how & May)) { probe("coped"); return Done; }
  auto right = [&](ErrorFlag x) { if (x == NoError) return false; if (p->flags.empty()) return true; for (ErrorFlag o : p->flags) if (o == x) return true; return false; };
  switch (p->how & 15) {
    case Answers:
      if (r) fail("spurious-exception", "%s threw flag %d", at, (int)fl);
      if (v != p->value) fail("wrong-answer", "%s answered %ld instead of %ld", at, v, p->value);
      return Spent;
    case Throws: case DebugOnly:
      if (!exceptions_on) {       // then it is a Reports
        if (r) fail("spurious-exception", "%s threw flag %d although exceptions are disabled", at, (int)fl);
        if (fine) fail("hidden-failure", "%s answered %ld, as if it had succeeded", at, v);
        if ((int)ef != -1 && !right(ef)) fail("wrong-class", "error() is %d after %s", (int)ef, at);
        return Failed;
      }
      if (!r) fail("hidden-failure", "%s did not throw (answer %ld)", at, v);
      if (!right(fl)) fail("wrong-class", "%s threw flag %d", at, (int)fl);
      return Failed;
    default:
      if (!r && p->value && v == p->value) return Spent;
      if (!g_release) {
        if (!r) fail("hidden-failure", "%s did not throw (answer %ld)", at, v);
        if (!right(fl)) fail("wrong-class", "%s threw flag %d", at, (int)fl);
      } else {
        if (r) fail("spurious-exception", "%s threw flag %d in a release build", at, (int)fl);
        if (fine) fail("hidden-failure", "%s answered %ld, as if it had succeeded", at, v);
        if ((int)ef != -1 && !right(ef)) fail("wrong-class", "error() is %d after %s", (int)ef, at);
      }
      return Failed;
  }
}
ErrorFlag none() { return (ErrorFlag)-1; }
template <class F, class G> Status step(const char* name, F f, G good) { return step(name, f, good, none); }
// what a constructor left: without exceptions, an object that is not open
template <class T> long built(T* t) { return exceptions_on || t->open() ? 1 : 0; }
template <class T> T* scrap(T* t) { if (!exceptions_on) delete t; return nullptr; }
bool yes(long v) { return v == 1; }
bool any(long) { return true; }
void clean(const char* what, size_t allocs) {
  NP;
  if (vk_open_fds()) fail("fd-leak", "%s: descriptors left open: %s", what, vk_describe_fds().c_str());
  if (vk_open_streams()) fail("fd-leak", "%s: %d streams left open", what, vk_open_streams());
  if (vk_addrinfos()) fail("leak", "%s: answers of getaddrinfo not given back", what);
  if (vk_mappings()) fail("leak", "%s: %d mappings left", what, vk_mappings());
  if (vk_open_sems()) fail("leak", "%s: %d semaphores left open", what, vk_open_sems());
  if (live_allocs() > allocs) { string d; dump_live_allocs(0, d); fail("leak", "%s: %zu blocks not freed%s", what, live_allocs() - allocs, d.c_str()); }
}
char* blob(size_t n) { char* b = new char[n + 1]; NP; memset(b, 'a' + n % 26, n); return b; }

// ---------------------------------------------------------------- files
void files(int n) {
  OFile* f = new OFile;
  string *name, *content; bool known = true;   // content: what the file holds (or has in its buffer)
  { NP; name = new string("/tmp/sim/a-file-with-a-name-that-is-long"); content = new string; }
  auto flag = [&] { return f->error().flag(); };
  bool opened = false;
  for (int k = 0; k < n; k++) {
    int op; size_t len; bool app; { NP; op = gen_weighted({3, 5, 3, 2, 1}); len = gen(4) ? gen(60) : 3000 + gen(6000); app = gencoin(1, 2); }
    if (op == 0 || !opened) {
      if (opened) {   // opening ends the use of what was open: keep these failures apart
        Status s = step("file close", [&] { return (long)f->close(); }, yes, flag);
        NP; opened = false; if (s != Done) known = false; if (f->open()) fail("open-after-close", "the file is open after close()");
      }
      Status s = step("file open", [&] { return (long)f->open(*name, app ? Append : New); }, yes, flag);
      NP;
      opened = s == Done;
      if (f->open() != opened) fail("half-open", "open() is %d after %s open()", (int)f->open(), opened ? "a successful" : "a failed");
      if (opened && !app) { content->clear(); known = true; }
      if (!opened && !app) known = false;
      continue;
    }
    Status s = Done;
    if (op == 1) {
      char* b = blob(len);
      s = step("file write", [&] { return f->write(b, len); }, [&](long v) { return v == (long)len; }, flag);
      { NP; content->append(b, len); }
      delete[] b;
    } else if (op == 2) s = step("file write", [&] { return f->write('x'); }, yes, flag);
    else if (op == 3) s = step("file flush", [&] { return (long)f->flush(); }, yes, flag);
    else { s = step("file close", [&] { return (long)f->close(); }, yes, flag); opened = false; }
    NP;
    if (op == 2) *content += 'x';
    if (s != Done) known = false;
    if (op >= 3 && known && vk_file(*name)->data != *content) fail("file-content", "%s succeeded but the file holds %zu bytes of %zu", op == 3 ? "flush()" : "close()", vk_file(*name)->data.size(), content->size());
    if (f->open() != opened) fail("half-open", "open() is %d after operation %d", (int)f->open(), op);
  }
  delete f;
}
void shared_files(int n) {
  SharedFile* f[2] = {nullptr, nullptr};
  string* name; bool known = true; size_t want = 0; bool on[2] = {false, false};
  { NP; name = new string("/tmp/sim/a-shared-file-with-a-long-name"); }
  for (int k = 0; k < n; k++) {
    int i, op; size_t len; { NP; i = gen(2); op = gen_weighted({2, 4, 3, 2}); len = gen(5) ? gen(60) : 1000 + gen(3000); }
    if (!f[i]) {
      bool ctor; { NP; ctor = gencoin(1, 2); }
      Status s = step("shared open", [&] { if (ctor) f[i] = new SharedFile(*name, Append); else { f[i] = new SharedFile; return (long)f[i]->open(*name, Append); } return built(f[i]); }, yes);
      if (ctor && s != Done) f[i] = scrap(f[i]);
      NP;
      on[i] = s == Done;
      if (f[i] && f[i]->open() != on[i]) fail("half-open", "open() is %d after %s open()", (int)f[i]->open(), on[i] ? "a successful" : "a failed");
      continue;
    }
    if (!on[i]) {
      Status s = step("shared open", [&] { return (long)f[i]->open(*name, Append); }, yes);
      NP; on[i] = s == Done;
      if (f[i]->open() != on[i]) fail("half-open", "open() is %d after %s open()", (int)f[i]->open(), on[i] ? "a successful" : "a failed");
      continue;
    }
    auto flag = [&] { return f[i]->open() ? f[i]->error().flag() : (ErrorFlag)-1; };
    if (op == 1) {
      char* b = blob(len);
      long w = -77;   // what stays in the buffer says nothing about the file
      Status s = step("shared write", [&] { return w = f[i]->write(b, len); }, [&](long v) { return v == (long)len; }, [&] { return w == (long)len ? none() : flag(); });
      { NP; want += len; if (s != Done) known = false; }
      delete[] b;
    } else if (op == 2) {
      Status s = step("shared flush", [&] { return (long)f[i]->flush(); }, yes, flag);
      NP; if (s != Done) known = false;
    } else if (op == 3 || op == 0) {
      if (rate) { Status s = step("shared flush", [&] { return (long)f[i]->flush(); }, yes, flag); NP; if (s != Done) known = false; }
      delete f[i]; f[i] = nullptr; on[i] = false;
    }
    NP;
    if (!on[0] && !on[1] && known && vk_file(*name) && vk_file(*name)->data.size() != want) fail("file-content", "everything was accepted but the file holds %zu bytes of %zu", vk_file(*name)->data.size(), want);
  }
  for (int i = 0; i < 2; i++) delete f[i];
}

// ---------------------------------------------------------------- sockets
const int DISC = ConnectionDisconnected, HUNG = ConnectionHungUp;
template <class D> struct Names {};
template <> struct Names<SocketServer> { static const char* read() { return "server read"; } static const char* peek() { return "server peek"; } static const char* write() { return "server write"; } static const char* rem() { return "server remaining"; } };
template <> struct Names<SocketClient> { static const char* read() { return "client read"; } static const char* peek() { return "client peek"; } static const char* write() { return "client write"; } static const char* rem() { return "client remaining"; } };
// sends or receives until `until` bytes of the stream went; false when the connection ended
template <class D> bool put(D* d, int me, size_t until) {
  for (;;) {
    size_t n; { NP; if (W->sent[me].size() >= until) return true; n = until - W->sent[me].size(); n = 1 + gen(n); }
    char* b = new char[n]; { NP; for (size_t k = 0; k < n; k++) b[k] = (char)((W->sent[me].size() + k) * 7 + me); W->sent[me].append(b, n); }
    long w = 0;
    bool gone = false;
    Status s = step(Names<D>::write(), [&] {
        try { w = d->write(b, n); }
        catch (const StandardException&) { NP; if (!W->ended || script_fired()) throw; w = HUNG; }
        NP; if (w <= 0 && W->ended && !script_fired()) gone = true;
        return w;
      }, [&](long v) { return (v > 0 && v <= (long)n) || gone; }, [&] { return gone ? none() : d->error().flag(); });
    delete[] b;
    if (gone) return false;
    NP;
    if (s == Failed) w = 0;
    W->sent[me].resize(W->sent[me].size() - n + (s == Done ? w : 0));
    if (s == Spent) { if (d->open()) fail("open-after-hangup", "the device is open after its connection broke"); W->ended = true; return false; }
    if (s == Failed && !d->open()) fail("closed-by-failure", "a failed write closed the connection");
  }
}
template <class D> bool get(D* d, int me, size_t until) {
  for (;;) {
    int op; size_t n; { NP; if (W->got[me] >= until) return true; n = until - W->got[me]; n = 1 + gen(n); op = gen_weighted({5, 1, 2}); }
    auto flag = [&] { return d->error().flag(); };
    if (op == 1) { step(Names<D>::rem(), [&] { return d->remaining(); }, [](long v) { return v >= 0 && v < 100000; }, flag); continue; }
    char* b = new char[n]; { NP; memset(b, '?', n); }
    long v = 0; bool over = false;
    bool gone = false;   // the other side left by itself: however that comes out is not the point here
    Status s = step(op ? Names<D>::peek() : Names<D>::read(), [&] {
        try { v = op ? d->peek(b, n) : d->read(b, n); }
        catch (const StandardException&) { NP; if (!W->ended || script_fired()) throw; v = HUNG; }
        NP; if (v <= 0 && W->ended && !script_fired()) gone = true;
        return v;
      }, [&](long x) { return (x > 0 && x <= (long)n) || (x == 0 && op == 2) || gone; }, [&] { return gone ? none() : flag(); });
    if (gone) { delete[] b; return false; }
    {
      NP;
      if (s == Done && v > 0) {
        for (long k = 0; k < v; k++) if (b[k] != (char)((W->got[me] + k) * 7 + 1 - me)) fail("stream", "byte %zu of the stream is wrong", W->got[me] + k);
        if (!op) W->got[me] += v;
      }
      if (s == Spent || v == HUNG) { if (d->open() && v == HUNG) fail("open-after-hangup", "the device is open after its connection broke"); W->ended = true; over = true; }
      if (s == Done && op == 2 && v == 0 && W->ended) over = true;
      if (s == Failed && !d->open()) fail("closed-by-failure", "a failed read closed the connection");
    }
    delete[] b;
    if (over) return false;
  }
}
void sockets(int n) {
  int *port, rounds; std::vector<size_t>* turns; string* host; int peer;
  { NP; W = new Wire; port = new int(4000 + gen(3)); rounds = 1 + gen(4); turns = new std::vector<size_t>; for (int k = 0; k < rounds; k++) turns->push_back(1 + gen(gen(3) ? 20 : 400)); host = new string(gencoin(1, 2) ? "127.0.0.1" : "a-computer-with-a-long-name.local"); vk_host("a-computer-with-a-long-name.local", 0x7f000001); }
  SocketServer* s = nullptr;
  while (!s) {
    bool ctor; { NP; ctor = gencoin(1, 2); }
    if (ctor) { Status r = step("server open", [&] { s = new SocketServer(*port); return built(s); }, yes); if (r != Done) s = scrap(s); }
    else s = new SocketServer;
  }
  while (!s->open()) {
    Status r = step("server open", [&] { return (long)s->open(*port); }, yes, [&] { return s->error().flag(); });
    NP; if ((r == Done) != s->open()) fail("half-open", "open() is %d after %s open()", (int)s->open(), r == Done ? "a successful" : "a failed");
  }
  { NP; peer = spawn("client", [=] {
      SocketClient* c = nullptr;
      { NP; wait("server", [] { return vk_listeners() > 0; }); }
      while (!c) {
        bool ctor; { NP; ctor = gencoin(1, 2); }
        if (ctor) { Status r = step("client open", [&] { c = new SocketClient(*host, *port); return built(c); }, yes); if (r != Done) c = scrap(c); }
        else c = new SocketClient;
      }
      while (!c->open()) {
        Status r = step("client open", [&] { return (long)c->open(*host, *port); }, yes, [&] { return c->error().flag(); });
        NP; if ((r == Done) != c->open()) fail("half-open", "open() is %d after %s open()", (int)c->open(), r == Done ? "a successful" : "a failed");
      }
      size_t a = 0;
      for (int k = 0; k < rounds; k++) { a += (*turns)[k]; if (!put(c, 0, a)) break; if (!get(c, 0, a)) break; }
      { NP; W->ended = true; }
      delete c;
    }); }
  for (;;) {
    Status r = step("server listen", [&] { return (long)s->listen(); }, [](long v) { return v >= 0; }, [&] { return s->error().flag(); });
    if (r == Done) break;
    NP; if (!s->open()) fail("closed-by-failure", "a failed listen() closed the server");
  }
  size_t a = 0;
  for (int k = 0; k < rounds; k++) { a += (*turns)[k]; if (!get(s, 1, a)) break; if (!put(s, 1, a)) break; }
  { NP; W->ended = true; }
  delete s;
  join_fiber(peer);
  NP; if (!rate && (W->got[0] != a || W->got[1] != a)) fail("stream", "only %zu and %zu of %zu bytes went through", W->got[0], W->got[1], a);
}

// ---------------------------------------------------------------- serial lines
void serial(int n) {
  int dev; string* port; Serial* s; bool known = true; string* sent;
  { NP; port = new string("/dev/ttyUSB0-with-a-long-name"); dev = vk_tty(*port, WireFormat{115200, 8, 0, 1}); sent = new string; }
  s = new Serial;
  bool opened = false; size_t fed = 0, got = 0;
  auto flag = [&] { return s->error().flag(); };
  for (int k = 0; k < n; k++) {
    int op; size_t len; { NP; op = gen_weighted({4, 4, 2, 1, 1, 1}); len = 1 + gen(20); }
    if (!opened) {
      Status r = step("serial open", [&] { return (long)s->open(*port, BaudRate_115200, DataBits_8, StopBits_1, NoParity); }, yes, flag);
      bool is = s->open();   // asks the system
      NP;
      opened = r == Done; got = fed;
      if (is != opened) fail("half-open", "open() is %d after %s open()", (int)is, opened ? "a successful" : "a failed");
      if (!opened && vk_tty_locker(dev) != -1) fail("lock-left", "the port stays locked after a failed open()");
      if (opened) *sent = vk_tty_sent(dev);
      continue;
    }
    switch (op) {
      case 0: {
        char* b = blob(len); long w = 0;
        Status r = step("serial write", [&] { return w = len == 1 ? s->write(b[0]) : s->write(b, len); }, [&](long v) { return v > 0 && v <= (long)len; }, flag);
        bool is = s->open();
        { NP; if (r == Done) sent->append(b, w); else if (r == Failed && !is) fail("closed-by-failure", "a failed write closed the port"); }
        delete[] b;
        break;
      }
      case 1: {
        char b[32]; long v = 0;
        Status r = step("serial read", [&] { return v = len == 1 ? s->read(b[0]) : s->read(b, len); }, [&](long x) { return x >= 0 && x <= (long)len; }, flag);
        bool is = s->open();
        NP;
        if (r == Done) { for (long i = 0; i < v; i++) if (b[i] != (char)('A' + (got + i) % 26)) fail("serial-data", "byte %zu read from the line is wrong", got + i); got += v; }
        else if (!is) fail("closed-by-failure", "a failed read closed the port");
        break;
      }
      case 2: { NP; string d; for (size_t i = 0; i < len; i++) d += (char)('A' + (fed + i) % 26); fed += len; vk_tty_feed(dev, d); sleep_ns(5000000); break; }
      case 3: { unsigned long t; { NP; static const unsigned long T[] = {1, 4, 10, 50, 100, 300}; t = T[gen(6)]; } s->block(t); break; }
      case 4: s->unblock(); break;
      default: s->close(); opened = false; break;
    }
  }
  delete s;
  NP; if (vk_tty_locker(dev) != -1) fail("lock-left", "the port stays locked");
}

// ---------------------------------------------------------------- semaphores, shared memory
struct Page { int a[40]; };
void semaphores(int n) {
  Semaphore *s = nullptr, *t = nullptr; string* name; { NP; name = new string("a-semaphore-with-a-long-name"); }
  while (!s) { Status r = step("semaphore create", [&] { s = new Semaphore(*name); return 1l; }, yes); NP; if (r != Done) { s = nullptr; if (!vk_sem_names().empty() && r == Failed && vk_open_sems() == 0) fail("name-leak", "a name is left after a failed construction"); } }
  for (int k = 0; k < n; k++) {
    int op; { NP; op = gen(4); }
    Status r = Done; Semaphore* u = t && (k & 1) ? t : s;
    bool held = false;
    switch (op) {
      case 0: if (t) { delete t; t = nullptr; } r = step("semaphore join", [&] { t = new Semaphore(*name); return 1l; }, yes); if (r != Done) t = nullptr; break;
      case 1: r = step("semaphore lock", [&] { u->lock(); return 1l; }, yes); held = r == Done; break;
      case 2: r = step("semaphore trylock", [&] { return (long)u->trylock(); }, yes); held = r == Done; break;
      case 3: { Duration d(0, 5000000); r = step("semaphore timed", [&] { return (long)u->trylock(d); }, yes); held = r == Done; break; }
    }
    { NP; int c = vk_sem_value("/" + *name); if (c != !held) fail("lock-count", "the semaphore counts %d after operation %d (%s)", c, op, held ? "obtained" : "not obtained"); }
    if (held) u->unlock();
    NP; if (vk_sem_value("/" + *name) != 1) fail("lock-count", "the semaphore is not free after unlock()");
  }
  delete t; delete s;
  NP; if (!vk_sem_names().empty()) fail("name-leak", "the name of the semaphore is left");
}
void memories(int n) {
  SharedMemory<Page>*a = nullptr, *b = nullptr; string* name; { NP; name = new string("a-shared-memory-with-a-long-name"); }
  for (int k = 0; k < n; k++) {
    if (!a) {
      Status r = step("memory create", [&] { a = new SharedMemory<Page>(*name); return exceptions_on || a->data() ? 1l : 0l; }, yes);
      if (r != Done) a = scrap(a);
      { NP; if (r != Done) { if (!vk_shm_names().empty()) fail("name-leak", "a name is left after a failed construction"); if (vk_mappings() || vk_open_fds()) fail("leak", "a mapping or descriptor is left after a failed construction"); continue; } }
      a->data()->a[7] = 5;
      continue;
    }
    if (!b) {
      Status r = step("memory join", [&] { b = new SharedMemory<Page>(*name); return exceptions_on || b->data() ? 1l : 0l; }, yes);
      if (r != Done) b = scrap(b);
      NP; if (r != Done) { if (vk_shm_names().size() != 1) fail("name-lost", "a failed construction took the name of another's memory"); if (vk_mappings() != 1 || vk_open_fds()) fail("leak", "a mapping or descriptor is left after a failed construction"); }
      continue;
    }
    int v; { NP; v = gen(1000); }
    a->data()->a[3] = v;
    { int x = b->data()->a[3], y = b->data()->a[7]; NP; if (x != v || y != 5) fail("not-shared", "the memory is not shared"); }
    int c; { NP; c = gen(3); }
    if (c) { delete b; b = nullptr; } else { delete b; delete a; a = b = nullptr; }
  }
  delete b; delete a;
  NP; if (!vk_shm_names().empty()) fail("name-leak", "the name of the memory is left");
}

// ---------------------------------------------------------------- threads
int ran;
void work() { NP; ran++; }
void work_long() { { NP; ran++; } for (;;) { struct timespec t = {0, 100000}; nanosleep(&t, 0); } }
void threads_(int n) {
  for (int k = 0; k < n; k++) {
    Thread* t = nullptr; bool lasting, ctor; long stack; { NP; static const long S[] = {-1, 65536, 1 << 20, 20480}; stack = S[gen(4)]; lasting = gencoin(1, 3); ctor = gencoin(1, 3) && !g_release; ran = 0; }
    bool started = false;
    for (int tries = 0; !started; tries++) {
      if (!t && ctor) {
        Status r = step("thread start", [&] { t = new Thread(lasting ? work_long : work, DefaultPriority, stack); return 1l; }, yes);
        NP; if (r != Done) t = nullptr; started = r == Done;
      } else {
        if (!t) t = new Thread;
        ErrorFlag got = NoError;
        Status r = step("thread start", [&] { got = t->start(lasting ? work_long : work, DefaultPriority, stack).flag(); return (long)(got == NoError); }, yes, [&] { return got; });
        NP; started = r == Done;
        if (!started && t->isRunning()) fail("half-started", "isRunning() is true after a failed start()");
      }
      NP; if (!started && ran) fail("half-started", "the thread runs although start() failed");
    }
    if (lasting) for (;;) { Status r = step("thread cancel", [&] { t->cancel(); return 1l; }, yes); if (r == Done) break; if (r == Failed) { NP; /* told that it is not there: ask again */ } }
    for (;;) { Status r = step("thread join", [&] { t->join(); return 1l; }, yes); if (r == Done) break; }
    { NP; if (!lasting && ran != 1) fail("not-joined", "join() returned before the thread's work was done (%d)", ran); if (live_pthreads()) fail("not-joined", "join() returned while the thread runs"); }
    delete t;
  }
}
void mutexes(int n) {
  Mutex* m = nullptr; bool locked0; { NP; locked0 = gencoin(1, 4); }
  while (!m) { Status r = step("mutex create", [&] { m = new Mutex(locked0); return 1l; }, yes); if (r != Done) m = nullptr; }
  if (locked0) m->unlock();
  for (int k = 0; k < n; k++) {
    int op; { NP; op = gen(3); }
    Status r = Done;
    switch (op) {
      case 0: r = step("mutex lock", [&] { m->lock(); return 1l; }, yes); break;
      case 1: r = step("mutex trylock", [&] { return (long)m->trylock(); }, yes); break;
      case 2: { Duration d(0, 5000000); r = step("mutex timed", [&] { return (long)m->trylock(d); }, yes); break; }
    }
    bool held = r == Done;
    { unsigned c = m->locks(); NP; if (c != (unsigned)held) fail("lock-count", "locks() is %u after operation %d (%s)", c, op, held ? "obtained" : "not obtained"); }
    if (!held) continue;
    for (;;) {
      Status q = step("mutex unlock", [&] { m->unlock(); return 1l; }, yes);
      unsigned c = m->locks();
      NP; if (c != (q == Done ? 0u : 1u)) fail("lock-count", "locks() is %u after %s unlock()", c, q == Done ? "a successful" : "a failed");
      if (q == Done) break;
    }
  }
  delete m;
}
void priorities(int n) {
  { NP; vk_privileged = true; }
  Priority cur = NormalPriority; bool sure = false;
  for (int k = 0; k < n; k++) {
    int op; Priority want; { NP; op = gen(2); static const Priority P[] = {BackgroundPriority, LowPriority, NormalPriority, HighPriority, CriticalPriority, RealTimePriority1, RealTimePriority2, RealTimePriority3, RealTimePriority4}; want = P[gen(9)]; }
    if (op) { Status r = step("priority set", [&] { return (long)set_priority(want); }, yes); if (r == Done) { cur = want; sure = true; } else sure = false; }
    else if (sure) step("priority get", [&] { Priority p = get_priority(); return p == UnknownPriority ? -1l : (long)(p == cur); }, yes);
  }
  { NP; rate = 0; }
  step("priority set", [&] { return (long)set_priority(NormalPriority); }, yes);
  step("priority get", [&] { return (long)(get_priority() == NormalPriority); }, yes);
}

// ---------------------------------------------------------------- time
void times(int n) {
  for (int k = 0; k < n; k++) {
    int op; unsigned long d; { NP; op = gen(8); d = 1 + gen(5); }
    u64 t0 = now(); u64 least = 0;
    Status r = Done;
    switch (op) {
      case 0: { Sleep s; least = d * 1000000000ull; r = step("sleep", [&] { s(d); return 1l; }, yes); break; }
      case 1: { MilliSleep s(d); least = d * 1000000ull; r = step("sleep", [&] { s(); return 1l; }, yes); break; }
      case 2: { MilliSleep s; least = d * 1000000ull; r = step("sleep", [&] { s(d); return 1l; }, yes); break; }
      case 3: { MicroSleep s; least = d * 1000ull; r = step("sleep", [&] { s(d); return 1l; }, yes); break; }
      case 4: { NanoSleep s(d); least = d; r = step("sleep", [&] { s(); return 1l; }, yes); break; }
      case 5: { Sleep s; Duration u(0, (long)d * 1000); least = d * 1000; r = step("sleep", [&] { s(u); return 1l; }, yes); break; }
      case 6: { TimeStamp* s = nullptr; r = step("stamp", [&] { s = new TimeStamp; return 1l; }, yes); if (r == Done) delete s; break; }
      case 7: { TimeStamp s(3, 500000000l); r = step("stamp", [&] { s.stamp(); return 1l; }, yes); break; }
    }
    NP; if (r == Done && op < 6 && !rate && now() - t0 < least) fail("short-sleep", "slept %llu of %llu ns", (unsigned long long)(now() - t0), (unsigned long long)least);
  }
}
// ---------------------------------------------------------------- streams that open their device
template <class S, class M> void stream_up(const char* op, M make) {
  S* s = nullptr; bool up = false, fails = false;
  Status r = step(op, [&] { s = make(); up = s->device().open(); fails = s->fail(); return exceptions_on || up ? 1l : 0l; }, yes);
  {
    NP;
    if (r == Done && (!up || fails)) fail("half-open", "%s: constructed, but open() is %d and fail() is %d", op, up, fails);
    if (r != Done && s && !fails) fail("hidden-failure", "%s: the device of the stream did not open, yet fail() is false", op);
    probe(r == Done ? "stream.up" : "stream.failed");
  }
  delete s;
}
void raii_streams(int n) {
  string *file, *port, *host; int peer, dev;
  {
    NP; W = nullptr; file = new string("/tmp/sim/a-file-with-a-name-that-is-long"); port = new string("/dev/ttyUSB0-with-a-long-name"); host = new string("a-computer-with-a-long-name.local");
    dev = vk_tty(*port, WireFormat{115200, 8, 0, 1}); vk_host(host->c_str(), 0x0a000001); peer = new_proc("peer");
    spawn("peer", [] { int l = vk_remote_listener(0x0a000001, 5555); for (;;) ::accept(l, nullptr, nullptr); }, peer);
    wait("peer", [] { return vk_listeners() > 0; });
  }
  for (int k = 0; k < n; k++) {
    int op; WriteMode mode; { NP; op = gen(6); mode = gencoin(1, 2) ? New : Append; }
    switch (op) {
      case 0: stream_up<OFileStream>("file open", [&] { return new OFileStream(*file, mode); }); break;
      case 1: stream_up<SharedFileStream>("shared open", [&] { return new SharedFileStream(*file, mode); }); break;
      case 2: stream_up<LogStream>("shared open", [&] { return new LogStream(*file, mode); }); break;
      case 3: stream_up<SerialStream>("serial open", [&] { return new SerialStream(*port, BaudRate_115200, DataBits_8, StopBits_1, NoParity); }); { NP; if (vk_tty_locker(dev) != -1) fail("lock-left", "the port stays locked"); } break;
      case 4: stream_up<SocketClientStream>("client open", [&] { return new SocketClientStream(*host, 5555); }); break;
      default: stream_up<SocketServerStream>("server open", [&] { return new SocketServerStream(4001); }); break;
    }
    NP; if (vk_open_fds() || vk_open_streams()) fail("fd-leak", "after the stream: %s", vk_describe_fds().c_str());
  }
}
// ---------------------------------------------------------------- using what is not open
// debug builds throw; the others answer a failure and error() says why
template <class F, class E> void misuse(const char* what, F f, E error_flag, bool has_flag = true) {
  int r = 0; ErrorFlag fl = NoError; bool ok = false;
  TRY(r, fl, ok = f());
  ErrorFlag ef = error_flag();
  NP;
  nontrivial();
  log("%s -> r=%d flag=%d ok=%d error=%d", what, r, (int)fl, ok, (int)ef);
  if (!g_release) {
    if (r != 1) fail("hidden-misuse", "%s did not throw in a debug build", what);
    if (fl != OpenError && fl != UsageError) fail("wrong-class", "%s threw flag %d", what, (int)fl);
  } else {
    if (r) fail("spurious-exception", "%s threw flag %d in a release build", what, (int)fl);
    if (ok) fail("hidden-misuse", "%s answered as if it had succeeded", what);
    if (has_flag && ef != OpenError && ef != UsageError) fail("wrong-class", "error() is %d after %s", (int)ef, what);
  }
}
struct Bytes { typedef char value_type; typedef char* iterator; typedef const char* const_iterator; std::string s; size_t size() const { return s.size(); } const char& operator[](size_t i) const { return s[i]; } };
void unopened(int n) {
  OFile* f = new OFile; SharedFile* h = new SharedFile; Serial* s = new Serial;
  OFileStream* os = new OFileStream; SerialStream* ss = new SerialStream; 
  string *file, *port; bool up[5] = {false, false, false, false, false};
  { NP; file = new string("/tmp/sim/a-file-with-a-name-that-is-long"); port = new string("/dev/ttyUSB0-with-a-long-name"); vk_tty(*port, WireFormat{115200, 8, 0, 1}); }
  auto ff = [&] { return f->error().flag(); }; auto sf = [&] { return s->error().flag(); }; auto no = [] { return NoError; };
  for (int k = 0; k < n; k++) {
    int dev, op; bool toggle; size_t len; { NP; dev = gen(5); op = gen(6); toggle = gencoin(1, 3); len = 1 + gen(40); }
    if (toggle || up[dev]) {          // open it, or close it again
      bool to = !up[dev]; int r = 0; ErrorFlag fl = NoError; bool ok = false, is = false;
      switch (dev) {
        case 0: TRY(r, fl, ok = to ? f->open(*file, New) : f->close()); is = f->open(); break;
        case 1: TRY(r, fl, ok = to && h->open(*file, Append)); if (!to) { delete h; h = new SharedFile; ok = true; } is = h->open(); break;
        case 2: TRY(r, fl, ok = to && s->open(*port, BaudRate_115200)); if (!to) { s->close(); ok = true; } is = s->open(); break;
        case 3: TRY(r, fl, ok = to ? os->device().open(*file, New) : os->device().close()); is = os->device().open(); break;
        default: TRY(r, fl, ok = to && ss->device().open(*port, BaudRate_115200)); if (!to) { ss->device().close(); ok = true; } is = ss->device().open(); break;
      }
      NP;
      if (dev == 2 || dev == 4) if (up[dev == 2 ? 4 : 2]) { up[dev] = is; continue; }     // the other object has the port
      if (r || !ok) fail("spurious-failure", "device %d could not be %s (flag %d)", dev, to ? "opened" : "closed", (int)fl);
      if (is != to) fail("half-open", "open() of device %d is %d after %s", dev, is, to ? "opening" : "closing");
      up[dev] = is;
      continue;
    }
    char b[64]; { NP; memset(b, 'a', sizeof b); }
    switch (dev) {
      case 0: switch (op % 3) {
        case 0: misuse("write(char) to a file that is not open", [&] { return f->write('x') == 1; }, ff); break;
        case 1: misuse("write() to a file that is not open", [&] { return f->write(b, len) == (long)len; }, ff); break;
        default: misuse("flush() of a file that is not open", [&] { return f->flush(); }, ff); break;
      } break;
      case 1: misuse("flush() of a shared file that is not open", [&] { h->write(b, len); return h->flush(); }, no, false); break;
      case 2: switch (op % 4) {
        case 0: misuse("write(char) to a serial line that is not open", [&] { return s->write('x') == 1; }, sf); break;
        case 1: misuse("write() to a serial line that is not open", [&] { return s->write(b, len) == (long)len; }, sf); break;
        case 2: misuse("read(char) of a serial line that is not open", [&] { return s->read(b[0]) >= 0; }, sf); break;
        default: misuse("read() of a serial line that is not open", [&] { return s->read(b, len) >= 0; }, sf); break;
      } break;
      case 3: {
        int i = 7; double d = 2.5; string* t; { NP; t = new string("text"); }
        misuse("<< to a stream that is not open", [&] {
          switch (op) { case 0: *os << i; break; case 1: *os << 'c'; break; case 2: *os << "text"; break; case 3: *os << d; break; case 4: *os << *t; break; default: *os << 7ul; }
          if (!os->fail()) os->flush();
          return !os->fail();
        }, no, false);
        delete os; os = new OFileStream;
        NP; delete t;
        break;
      }
      default: {
        int i = 7; char c; double d; string* t; { NP; t = new string; }
        misuse(">> from a stream that is not open", [&] {
          switch (op) { case 0: *ss >> i; break; case 1: *ss >> c; break; case 2: *ss >> *t; break; case 3: *ss >> d; break; default: { unsigned long u; *ss >> u; break; } }
          return !ss->fail();
        }, no, false);
        delete ss; ss = new SerialStream;
        NP; delete t;
        break;
      }
    }
  }
  delete f; delete h; delete s; delete os; delete ss;
}
void workload(void (*w)(int), const char* what, int most) {
  int n; size_t base;
  { NP; make_plans(); rate = faulty() ? 2 + gen(6) : 0; n = 3 + gen(most); base = live_allocs(); }
  w(n);
  clean(what, base);
}
}  // namespace
SCENARIO(errors_files, "C31") { workload(files, "files", 20); }
SCENARIO(errors_shared_files, "C31") { workload(shared_files, "shared files", 20); }
SCENARIO(errors_sockets, "C31") { workload(sockets, "sockets", 10); }
SCENARIO(errors_streams, "C31") { workload(raii_streams, "streams", 12); }
SCENARIO(errors_unopened, "C31") { workload(unopened, "what is not open", 16); }
SCENARIO(errors_serial, "C31") { workload(serial, "serial lines", 20); }
SCENARIO(errors_ipc, "C31") { int w; { NP; w = gen(2); } if (w) workload(semaphores, "semaphores", 10); else workload(memories, "shared memory", 14); }
SCENARIO(errors_threads, "C31") { int w; { NP; w = gen(3); } if (!w) workload(threads_, "threads", 4); else if (w == 1) workload(mutexes, "mutexes", 10); else workload(priorities, "priorities", 8); }
SCENARIO(errors_time, "C31") { workload(times, "time", 10); }
