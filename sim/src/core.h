// Deterministic simulator core: choices, fibers, processes, heap, clock.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;

u64 mix(u64 x);                       // stateless hash
inline u64 mix(u64 a, u64 b) { return mix(a ^ mix(b + 0x9e3779b97f4a7c15ull)); }

//--------------------------------------------------------------------- choices
// Every nondeterministic decision of a run is one recorded integer; 0 is always
// the most boring outcome, so that shrinking towards zero removes it.
u32 choose(u32 n);                    // uniform in [0, n)
bool flip(u32 num, u32 den);          // true with probability num/den
inline u32 range(u32 lo, u32 hi) { return lo + choose(hi - lo + 1); }
u32 small(u32 n);                     // in [0, n), biased to small values
template <class T> const T &pick(const std::vector<T> &v) { return v[choose((u32)v.size())]; }

//------------------------------------------------------------------- reporting
[[noreturn]] void violate(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool verbose();
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // trace text, replay only
void event(u32 kind, u64 a = 0, u64 b = 0);       // folded in the run's hash
void count(const char *name, u64 n = 1);          // per-campaign counters (string literal)
void probe(const char *name);                     // "this rare condition was hit"
void nontrivial(bool yes = true);                 // marks the current run
void sample(const std::string &s);                // one-line description of the run
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

//------------------------------------------------------------------- processes
enum class End { Running, Returned, Exited, Aborted, Killed, Exception };
const char *end_name(End);

struct OFD;
struct Proc;

struct Task {
  Proc *proc = nullptr;
  std::string name;
  std::function<void()> fn;
  void *sp = nullptr;
  char *stack = nullptr;
  enum State { Ready, Sleeping, Blocked, Done } state = Ready;
  u64 wake = 0;
  const void *wait_on = nullptr;
  bool in_lib = false;
  int saved_errno = 0;
  void *eh[2] = {nullptr, nullptr};
  std::vector<char> tls;      // thread_local variables while another thread runs
  struct TlsDtor { void (*f)(void *); void *p; }; std::vector<TlsDtor> tls_dtors;
  u64 steps = 0;
  i64 fail_alloc_in = -1;     // k-th next library allocation throws
  u64 allocs = 0;
  i64 backend_fail_in = -1;   // k-th next call of LAPACK or ARPACK reports backend_status
  int backend_status = 0;
  u64 backend_seed = 0, backend_calls = 0;
  bool backend_hit = false, backend_reported = false; // injected; any status other than success
};

struct Proc {
  int id = 0;
  std::string name;
  End end = End::Running;
  int exit_code = 0;
  u64 ended = 0;                          // when
  std::string what;                       // exception text
  bool bad_alloc = false;                 // ended with std::bad_alloc
  std::map<int, std::shared_ptr<OFD>> fds;
  std::vector<void *> files;              // FILE* cookies
  std::map<std::string, std::string> env;
  unsigned umask_ = 022;
  std::string cwd = "/w";                 // relative paths of library calls; the host API is relative to /w
  int uid = 1000;
  i64 skew = 0;                           // wall-clock offset, ns
  std::string out;                        // captured std::cout / stdout
  std::vector<char> image;                // library globals
  bool immune = false;                    // no random kills
  bool quiet_faults = false;              // no injected faults in this process
  u64 sys = 0;
  Task *planner = nullptr;                // thread that is inside FFTW's planner
  bool live() const { return end == End::Running; }
  bool failed() const { return end == End::Aborted || end == End::Exception || (end == End::Exited && exit_code != 0); }
};

Proc *spawn(const std::string &name, std::function<void()> main);
Task *spawn_thread(Proc *p, const std::string &name, std::function<void()> fn);
void kill_proc(Proc *p);                  // from host or another task
void fresh_image(Proc *p, bool pristine); // pristine: as before static constructors
void host_image_back();
void run_static_constructors();           // in a process with a pristine image
// Run until nothing is runnable. Returns false if tasks stay blocked forever.
bool run();
Task *self();
Proc *me();
void yield();                             // explicit scheduling point
void call_point();                        // the library calls out: perhaps another task runs first
void sleep_ns(u64 ns);
u64 now();                                // simulated ns since run start
extern const u64 SEC;

// Library code runs inside lib(): heap faults, leak accounting and preemption apply.
struct LibScope {
  bool old; Task *t;
  LibScope(); ~LibScope();
};
template <class F> auto lib(F &&f) -> decltype(f()) { LibScope s; return f(); }
struct HostScope { bool old; Task *t; HostScope(); ~HostScope(); };

//------------------------------------------------------------- per-run settings
struct Config {
  // scheduling
  u32 switch_num = 0, switch_den = 1;     // at system calls
  u32 bb_gap = 0;                         // mean basic blocks between preemptions, 0: never
  u32 call_gap = 0;                       // mean calls (allocations, backend) between preemptions, 0: never
  u32 kill_num = 0, kill_den = 1;         // at every scheduling point
  int kills_left = 0;
  u32 stall_num = 0, stall_den = 1;
  u64 stall_max = 0;                      // ns
  u64 bb_limit = 200000000;               // basic blocks per run
  u64 yield_limit = 2000000;
  u64 time_limit = 0;                     // simulated ns, 0: none
  // heap
  u8 fill = 0xA5;
  bool guard = false;                     // page-guarded allocations
  // faults: legal weather and errors
  struct Fault { u32 num = 0, den = 1; };
  Fault short_io, eintr;                  // legal weather
  Fault err_write, err_read, err_open, err_close, err_lock, err_meta;
  bool open_transient = false;             // only errors that can go away by themselves
  bool close_loses = false;               // a failing close drops some of what was written (delayed allocation, NFS)
  bool faults_on = true;                  // master switch for errors (not weather)
  std::function<bool(const char *call, const std::string &path)> fault_filter;
  i64 disk_free = -1;                     // bytes until ENOSPC, -1: unlimited
  std::function<void()> on_fs_change;
  bool torn_kill = false;                 // a kill may land inside a write
  u64 max_alloc = 48u << 20;
};
extern Config cfg;
bool fault(const Config::Fault &f);       // draw
u64 faults();                             // errors injected so far in this run
bool hung();                              // a limit was hit during run()

//------------------------------------------------------------------------ heap
struct HeapStat { u64 live_blocks, live_bytes; };
HeapStat heap_live(Proc *p);
void heap_check();                        // canaries, quarantine: violates "heap-corruption"
u64 heap_serial();                        // serial of the next block
u64 heap_leaked_since(Proc *p, u64 serial, std::string *desc = nullptr);
bool heap_owns(const void *p);
bool heap_block_live(const void *p);      // a live block contains p

//------------------------------------------------------------------- scenarios
struct Scenario {
  const char *property;
  const char *name;
  void (*run)();
  u32 weight;
  Scenario *next;
  static Scenario *head;
  Scenario(const char *p, const char *n, void (*r)(), u32 w = 1);
};
const char *tier();                       // "quick" / "thorough"
// A known finding is printed by the driver; scenarios exercise it only in their probe runs.
#define SCENARIO(prop, name, weight)                                         \
  static void scen_##prop##_##name();                                        \
  static sim::Scenario reg_##prop##_##name(#prop, #name, scen_##prop##_##name, weight); \
  static void scen_##prop##_##name()

} // namespace sim
