#pragma once
#include "core.h"
#include <deque>
#include <stdexcept>
namespace sim {
struct ViolationEx { };
struct Global {
  // choices
  bool replay = false;
  u64 prng = 0;
  std::vector<u32> input;           // replayed choices
  u32 *rec = nullptr; size_t nrec = 0, caprec = 0; bool overflow = false;
  // violation
  bool violated = false; std::string vclass, vmsg;
  bool verbose_ = false;
  std::string log;
  u64 hash = 0, events = 0;
  std::map<std::string, u64> counters;
  bool nontriv = false;
  std::string sample_;
  // scheduler
  std::vector<std::unique_ptr<Task>> tasks;
  std::vector<std::unique_ptr<Proc>> procs;
  Task *cur = nullptr;              // running fiber
  Proc *img = nullptr;              // whose image is loaded (nullptr: host)
  void *host_sp = nullptr; void *host_eh[2] = {nullptr, nullptr}; int host_errno = 0;
  bool host_lib = false;
  i64 host_fail_alloc = -1;
  u64 now = 0, yields = 0, bb = 0; i64 bb_next = 0;
  bool hung = false;
  bool in_run = false;
  u64 fs_mut = 0, nfaults = 0;
  std::vector<char> host_image;
  std::vector<char> pristine, initial;
};
extern Global G;
void begin_run();
void end_run();
void sched_point(int kind);         // 1: system call, 2: basic block, 3: explicit
[[noreturn]] void end_current(End e, int code = 0, const char *what = nullptr);
void finish_proc(Proc *p, End e, int code, const std::string &what);
void block_on(const void *what);    // current task waits until wake_all(what)
void wake_all(const void *what);
void fs_reset();
void fs_proc_exit(Proc *p);
void heap_reset();
void heap_drop(Proc *p);
void soft_violate(const char *cls, const std::string &msg);
extern bool g_hook;                 // basic-block hook armed
}
