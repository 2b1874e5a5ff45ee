// Deterministic simulator core: virtual file system, virtual clock, virtual
// entropy, cooperative processes/threads, and the fault engine.  Everything the
// code under test asks of the operating system is answered here (wrap.cpp).
#pragma once
#include <array>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }   // inclusive
  double uni() { return (double)(next() >> 11) / 9007199254740992.0; }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull);
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- faults
// A fault is addressed by (process, ordinal of the operation in that process).
// kind: eintr | short | eio | enospc | eacces | enoent | emfile | exdev | erofs |
//       crash_before | crash_after | crash_mid | jump (clock) | allocfail
struct Fault {
  int proc = 0;
  int op = 0;           // ordinal (1-based) of the OS operation in that process
  std::string kind;
  long arg = 0;
};

enum Op { OP_OPEN_R, OP_OPEN_W, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_STAT, OP_RENAME, OP_UNLINK, OP_OTHER, OP_N };
extern const char* op_names[OP_N];

struct OpRec { int proc; int n; Op op; std::string path; long len; long ret; int err; };

struct Inode { std::string data; bool readonly = false; long ver = 0; };
typedef std::shared_ptr<Inode> InodeP;

struct OpenFile { InodeP ino; std::string path; long off = 0; bool rd = false, wr = false, append = false; int proc = 0; };

struct Proc {
  int id = 0;
  std::function<int()> body;
  std::string name;
  // state
  int ops = 0;
  bool started = false, finished = false, crashed = false, threw = false;
  std::string what;
  int exit_code = 0;
  uint64_t libc_rand = 1;                  // every OS process starts with the same unseeded rand() state
  Rng entropy{1};
  void* fiber = nullptr;
  std::string out, err;                    // captured stdout and stderr together, stderr alone
  long allocs = 0;
  void* user = nullptr;
  std::string image, tls; bool imaged = false;    // private copies of the writable globals and thread-locals of the code under test
};

struct Config {
  uint64_t seed = 1;
  std::vector<Fault> faults;
  std::vector<std::pair<long, int>> sched;  // at global step k switch to process/thread j
  bool threads = false;                     // fibers share one OS process (yield at memory accesses)
  int read_chunk = 0;                       // 0: serve full reads, otherwise upper bound on bytes per read
  int write_chunk = 0;
  uint64_t chunk_seed = 0;                  // 0: fixed chunk; else pseudo-random 1..chunk
  int eintr_every = 0;                      // every n-th read/write returns EINTR once
  long disk_free = -1;                      // bytes that may still be allocated, -1 unlimited
  bool read_only_dir = false;               // no creation/rename/unlink permitted
  int junk = -1;                            // fill pattern for fresh heap and stack memory
  // clock model: each clock() call advances by tick; jumps are faults
  long clock_tick_us = 50;
  uint64_t clock_seed = 0;                  // non-zero: random ticks incl. stalls and backward steps of the wall clock
  int clock_mode = 0;                       // 0 steady, 1 random, 2 frozen, 3 fast (every call several seconds)
  long alloc_fail_at = -1;                  // n-th allocation inside the code under test throws bad_alloc
  long max_ops = 12000000;
};

void pristine_globals();                     // restore the globals of the code under test to their state at start-up
struct Sim {
  Config cfg;
  std::map<std::string, InodeP> dir;               // path -> inode
  std::map<std::string, std::string> links;        // symlinks
  std::set<std::string> dirs;                      // existing directories
  std::set<std::string> made;                      // those that the code under test has created
  std::string cwd = "/sim/w";
  std::vector<std::unique_ptr<OpenFile>> fds;      // index + FD_BASE
  std::vector<std::unique_ptr<Proc>> procs;
  std::vector<OpRec> log;
  bool keep_log = true;
  long step = 0;
  uint64_t trace_hash = 1469598103934665603ull;
  std::map<std::string, long> fault_count;
  // virtual time
  long long cpu_us = 0, wall_us = 1600000000000000ll, sim_elapsed_us = 0;
  Rng clock_rng{1}, chunk_rng{1};
  std::function<void(const OpRec&)> after_op;      // invariant hook, called after every operation that may change the disk
  int cur = -1;                                    // running process
  bool hang = false;
  size_t next_sched = 0;
  long switches = 0;
  bool rerun_ops_overflow = false;

  explicit Sim(const Config& c);
  ~Sim();
  // scenario set-up (outside the simulated processes)
  void put(const std::string& path, const std::string& data);
  bool exists(const std::string& path) const;
  std::string get(const std::string& path) const;
  std::vector<std::string> list() const;            // every regular file path
  int spawn(const std::string& name, std::function<int()> body);
  void run();                                       // run all unfinished processes to completion or crash
  // used by wrap.cpp
  std::string resolve(const std::string& p, int depth = 0) const;
  int sys_open(const std::string& path, int flags);
  long sys_read(int fd, void* buf, size_t n);
  long sys_write(int fd, const void* buf, size_t n);
  long sys_lseek(int fd, long off, int whence);
  int sys_close(int fd);
  int sys_rename(const std::string& a, const std::string& b);
  int sys_unlink(const std::string& a);
  int sys_exists(const std::string& a, long* size);
  int sys_truncate(int fd, long n);
  int sys_link(const std::string& a, const std::string& b, bool symbolic);
  int sys_dir(const std::string& a, bool make);                                   // mkdir, rmdir
  long sys_pio(int fd, void* rd, const void* wr, size_t n, long at);              // pread, pwrite
  OpenFile* file(int fd);
  long long clock_us();
  long long wall();
  void yield(bool forced = false);
  void force(int want);                             // run another thread now
  [[noreturn]] void crash_current();
  [[noreturn]] void exit_current(int code);
  void allocated(size_t n);
private:
  const Fault* begin(Op op, const std::string& path, long len, OpRec& r);
  void end(OpRec& r, const Fault* f);
  int pick_next();
  void switch_to_main();
};

const int FD_BASE = 1000;
extern Sim* g;              // current simulation, null outside
extern bool in_sim;         // true while a simulated process is executing
extern int in_kernel;       // > 0 while a simulated system call runs: its allocations are not the program's
struct Kernel { Kernel() { in_kernel++; } ~Kernel() { in_kernel--; } };
inline Proc* me() { return (in_sim && g && g->cur >= 0) ? g->procs[g->cur].get() : nullptr; }

// Leave the simulated world temporarily (oracle code running inside callbacks).
struct Outside { bool save; Outside() : save(in_sim) { in_sim = false; } ~Outside() { in_sim = save; } };

// race detector interface (race.cpp); inert in other flavours
void race_reset(int nthreads);
std::vector<std::string> race_reports();
std::vector<long> race_hot();                 // steps at which memory that another thread has used was accessed
void race_stop();
extern bool race_available;
long race_accesses();
}
