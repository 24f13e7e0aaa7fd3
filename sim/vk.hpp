// Virtual kernel interface used by the interposition layer and by scenarios.
#ifndef VERIF_VK_HPP
#define VERIF_VK_HPP
#include "sim.hpp"
#include <sys/types.h>
#include <time.h>
#include <functional>
#include <string>
namespace sim {
extern bool vk_privileged;
int live_pthreads();
int unreaped_pthreads();
int mutex_owner(const void* m);
// clocks
extern bool vk_clock_ok;
void clock_log(bool on);
void rand_mode(int m);                             // 0 well mixed random numbers, 1 with extreme values mixed in
void pid_base(int b);
u64 rand_draws();
// the nth call of a function by the calling thread fails with err, once
void script_errno(const char* call, int err, int nth = 1);
int scripted(const char* call);
bool script_fired();
struct ClockRead { int clk; i64 value; u64 step; int fid; };
std::vector<ClockRead>& clock_reads();
u64 last_sleep_request();
WaitOpts vk_deadline(clockid_t c, const struct timespec* t);

// ---------------------------------------------------------------- open file descriptions
// One object per open file description, shared by dup()ed descriptors.
struct Ofd {
  int refs = 0;
  int flags = 0;               // access mode, O_NONBLOCK, O_APPEND
  bool foreign = false;        // belongs to the rest of the program: the library must never touch it
  const char* kind = "?";
  virtual ~Ofd() {}
  virtual ssize_t read(void*, size_t);
  virtual ssize_t write(const void*, size_t);
  virtual bool can_read() { return true; }
  virtual bool can_write() { return true; }
  virtual int last_close(bool killed) { (void)killed; return 0; }     // returns errno of close()
  virtual off_t seek(off_t, int);
  virtual off_t size() { return 0; }
  virtual int truncate(off_t);
  virtual int poll_extra() { return 0; }
};
int vk_install(Ofd* f, int cloexec = 0);          // lowest free descriptor of the calling process; -1/EMFILE
Ofd* vk_fd(int fd, const char* by);               // nullptr and errno=EBADF when fd is negative; otherwise a violation when not open
Ofd* vk_fd_quiet(int fd);
int vk_close_fd(int fd);
int vk_open_fds(int proc = -1);                   // descriptors open in a process, bystanders excluded
std::string vk_describe_fds(int proc = -1);
int vk_bystander();                               // a descriptor the library does not own

// C library streams
int vk_open_streams(int proc = -1);               // beyond the standard ones
void vk_std_stream(int n, Ofd* o, int buffering); // stdin, stdout or stderr of the calling process

// ---------------------------------------------------------------- files
struct Inode { std::string data; int links = 1; int fd_refs = 0; int mode = 0644; bool dir = false; int real = -1; int creator = -1; std::set<int> lock_holders; };
Inode* vk_file(const std::string& path);          // nullptr if absent
Inode* vk_make_file(const std::string& path, const std::string& data);
void vk_remove(const std::string& path);
extern i64 vk_disk_free;                          // bytes still free, -1 unlimited

// ---------------------------------------------------------------- paths
extern std::function<int(const std::string&, std::string&)> vk_resolver;   // realpath: errno or 0 and the answer; a partial one on failure

// ---------------------------------------------------------------- network
extern u64 vk_net_latency;                        // largest latency of a segment, in units of 50 ns
extern size_t vk_net_buffer;                      // bytes in flight or unread per direction
void vk_host(const std::string& name, uint32_t addr);
enum : uint32_t { vk_own_addr = 0xc000020a };        // 192.0.2.10, "thishost": the address of this host on its network
void vk_net_reset();                              // every connection is reset
void vk_net_partition(u64 ns);                    // nothing arrives for a while
long vk_conn_rx(int side);                        // bytes waiting at one side (0 client, 1 server) of the latest connection
bool vk_conn_reset(int side);
int vk_listeners();
int vk_addrinfos();                               // answers of getaddrinfo not given back
int vk_remote_listener(uint32_t addr, int port);  // an endpoint of another host, in the calling process

// ---------------------------------------------------------------- serial lines
struct WireFormat { long rate = 9600; int bits = 8, parity = 0, stop = 1; };   // parity 0 none, 1 odd, 2 even
int vk_tty(const std::string& name, const WireFormat& peer);
void vk_tty_peer(int d, const WireFormat& w);
void vk_tty_feed(int d, const std::string& s);    // the other end sends
std::string vk_tty_sent(int d);                   // what reached the other end
size_t vk_tty_sending(int d);                     // bytes in the output queue
size_t vk_tty_waiting(int d);                     // bytes in the input queue
int vk_tty_locker(int d);                         // process holding the lock, -1 none
void vk_tty_unplug(int d);
void vk_tty_plug(int d);

// ---------------------------------------------------------------- shared memory, semaphores
std::vector<std::string> vk_shm_names();
std::vector<std::string> vk_sem_names();
int vk_mappings(int proc = -1);
const void* vk_mapping_object(const void* at);    // identity of the shared memory mapped there in this process
const void* vk_shm_object(const std::string& name);
int vk_shm_creator(const void* object);           // thread that created it
size_t vk_shm_size(const std::string& name);
int vk_sem_value(const std::string& name);
int vk_open_sems(int proc = -1);
}
#endif
