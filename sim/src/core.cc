#include "internal.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <iostream>
#include <link.h>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
extern char sim_img_data_begin[], sim_img_data_end[], sim_img_bss_begin[], sim_img_bss_end[];
extern void (*sim_ctor_begin)();
extern void (*sim_ctor_mid)();
void *__libc_malloc(size_t); 
}
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

namespace sim {
Global G;
Config cfg;
bool g_hook = false;
const u64 SEC = 1000000000ull;

//--------------------------------------------------------------------- choices
u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
static u64 next_random() { G.prng += 0x9e3779b97f4a7c15ull; return mix(G.prng); }
static void record(u32 v) {
  if (G.nrec < G.caprec) G.rec[G.nrec++] = v; else G.overflow = true;
}
static u32 draw(u32 n, u32 (*gen)(u32)) {
  u32 v;
  if (G.replay) v = G.nrec < G.input.size() ? G.input[G.nrec] % n : 0;
  else if (G.overflow) v = 0;
  else v = gen(n);
  record(v);
  return v;
}
u32 choose(u32 n) {
  if (n <= 1) return 0;
  return draw(n, [](u32 n) { return (u32)(((next_random() >> 32) * (u64)n) >> 32); });
}
u32 small(u32 n) {
  if (n <= 1) return 0;
  return draw(n, [](u32 n) {
    u64 r = next_random();
    u32 a = (u32)(((r >> 32) * (u64)n) >> 32), b = (u32)(((r & 0xffffffffu) * (u64)n) >> 32);
    return a < b ? a : b;
  });
}
bool flip(u32 num, u32 den) {
  if (num == 0) return false;
  if (num >= den) return true;
  u32 v;
  if (G.replay) v = G.nrec < G.input.size() ? (G.input[G.nrec] ? 1 : 0) : 0;
  else if (G.overflow) v = 0;
  else v = (next_random() >> 32) * (u64)den < ((u64)num << 32);
  record(v);
  return v;
}
u64 faults() { return G.nfaults; }
bool fault(const Config::Fault &f) { return flip(f.num, f.den); }

//------------------------------------------------------------------- reporting
static std::string vfmt(const char *f, va_list ap) {
  char buf[4096];
  int n = vsnprintf(buf, sizeof buf, f, ap);
  return std::string(buf, n < 0 ? 0 : std::min<size_t>(n, sizeof buf - 1));
}
std::string fmt(const char *f, ...) {
  HostScope h; va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s;
}
bool verbose() { return G.verbose_; }
void note(const char *f, ...) {
  if (!G.verbose_) return;
  HostScope h;
  va_list ap; va_start(ap, f);
  char pre[96];
  snprintf(pre, sizeof pre, "[%12.6f] %-14s ", G.now / 1e9, G.cur ? G.cur->name.c_str() : "-");
  if (G.log.size() < (8u << 20)) { G.log += pre; G.log += vfmt(f, ap); G.log += '\n'; }
  va_end(ap);
}
void event(u32 kind, u64 a, u64 b) {
  G.hash = mix(G.hash ^ (u64(kind) << 48) ^ a * 0x100000001b3ull ^ mix(b + 77));
  G.events++;
}
void count(const char *name, u64 n) { HostScope h; G.counters[name] += n; }
void probe(const char *name) { HostScope h; G.counters[std::string("probe:") + name] += 1; }
void nontrivial(bool yes) { if (yes) G.nontriv = true; }
void sample(const std::string &s) { HostScope h; G.sample_ = s; }
void soft_violate(const char *cls, const std::string &msg) {
  if (G.violated) return;
  HostScope h;
  G.violated = true; G.vclass = cls; G.vmsg = msg;
  note("VIOLATION %s: %s", cls, msg.c_str());
}
extern "C" void sim_switch(void **save, void *to);
static void to_host(bool save);
void violate(const char *cls, const char *f, ...) {
  {
    HostScope h; va_list ap; va_start(ap, f); std::string m = vfmt(f, ap); va_end(ap);
    soft_violate(cls, m);
  }
  if (G.cur) { to_host(false); __builtin_unreachable(); }
  throw ViolationEx();
}
void harness_error(const char *f, ...) {
  va_list ap; va_start(ap, f); std::string m = vfmt(f, ap); va_end(ap);
  std::string s = "HARNESS-ERROR " + m + "\n";
  (void)!::write(2, s.data(), s.size());
  _exit(3);
}

//---------------------------------------------------------------------- images
static size_t img_data() { return sim_img_data_end - sim_img_data_begin; }
static size_t img_bss() { return sim_img_bss_end - sim_img_bss_begin; }
static void img_save(std::vector<char> &v) {
  size_t d = img_data(), b = img_bss();
  if (v.size() != d + b) v.resize(d + b);
  memcpy(v.data(), sim_img_data_begin, d);
  memcpy(v.data() + d, sim_img_bss_begin, b);
}
static void img_load(const std::vector<char> &v) {
  size_t d = img_data(), b = img_bss();
  memcpy(sim_img_data_begin, v.data(), d);
  memcpy(sim_img_bss_begin, v.data() + d, b);
}
// Captured before any constructor of this program has run: plain memory only.
static char *pristine_mem;
extern "C" void sim_capture_pristine() {
  size_t d = img_data(), b = img_bss();
  pristine_mem = (char *)__libc_malloc(d + b);
  memcpy(pristine_mem, sim_img_data_begin, d);
  memcpy(pristine_mem + d, sim_img_bss_begin, b);
}
// thread_local variables of this program: each fiber has its own.
static struct Tls { char *at = nullptr; size_t size = 0; const char *init = nullptr; size_t filled = 0; std::vector<char> host; } tls;
static void tls_find() {
  dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
      tls.at = (char *)i->dlpi_tls_data; tls.size = i->dlpi_phdr[k].p_memsz;
      tls.init = (const char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tls.filled = i->dlpi_phdr[k].p_filesz;
    }
    return 1;                              // the program itself comes first
  }, nullptr);
}
static void tls_fresh(char *to) { memcpy(to, tls.init, tls.filled); memset(to + tls.filled, 0, tls.size - tls.filled); }
static void tls_swap(std::vector<char> &out, const std::vector<char> &in) {
  if (!tls.size) return;
  memcpy(out.data(), tls.at, tls.size); memcpy(tls.at, in.data(), tls.size);
}
void fresh_image(Proc *p, bool pristine) {
  if (G.cur && tls.size) { tls_fresh(tls.at); G.cur->tls_dtors.clear(); }
  if (pristine) p->image.assign(pristine_mem, pristine_mem + img_data() + img_bss());
  else p->image = G.initial;
  if (G.img == p) img_load(p->image);
}
void run_static_constructors() {
  for (void (**f)() = &sim_ctor_begin + 1; f < &sim_ctor_mid; ++f)
    if (*f) (*f)();
}
void host_image_back() { if (G.img) img_load(G.host_image); G.img = nullptr; }   // after a crash, so that the scenarios' own objects can be read
static void use_image(Proc *p) {
  if (G.img == p) return;
  HostScope h;
  img_save(G.img ? G.img->image : G.host_image);
  img_load(p ? p->image : G.host_image);
  G.img = p;
}

//---------------------------------------------------------------------- fibers
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  .cfi_startproc
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
  .cfi_endproc
.size sim_switch,.-sim_switch
)");

static const size_t STACK = 512 << 10;
static std::vector<char *> stack_pool;
static char *new_stack() {
  char *s;
  if (stack_pool.size()) { s = stack_pool.back(); stack_pool.pop_back(); }
  else {
    s = (char *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (s == MAP_FAILED) harness_error("stack mmap");
    mprotect(s, 4096, PROT_NONE);
  }
  // Uninitialised locals are deterministic, and differ from run to run.
  memset(s + 4096 + STACK - (48 << 10), cfg.fill, 48 << 10);
  return s;
}

static void swap_eh(void **out, void **in) {
  void **g = (void **)__cxxabiv1::__cxa_get_globals();
  out[0] = g[0]; out[1] = g[1];
  g[0] = in[0]; g[1] = in[1];
}
static void to_host(bool save) {
  Task *t = G.cur;
  void *dummy;
  t->saved_errno = errno;
  swap_eh(t->eh, G.host_eh); tls_swap(t->tls, tls.host);
  G.cur = nullptr; g_hook = false;
  sim_switch(save ? &t->sp : &dummy, G.host_sp);
  // resumed by resume()
  errno = t->saved_errno;
}
static void arm() {
  g_hook = G.cur && G.cur->in_lib;
}
static void resume(Task *t) {
  G.host_errno = errno;
  use_image(t->proc);
  G.cur = t;
  swap_eh(G.host_eh, t->eh); tls_swap(tls.host, t->tls);
  arm();
  sim_switch(&G.host_sp, t->sp);
  errno = G.host_errno;
}

static void fiber_main() noexcept {
  Task *t = G.cur;
  std::string what; bool exc = false, ba = false;
  try { t->fn(); }
  catch (std::bad_alloc &e) { exc = true; ba = true; HostScope h; what = "std::bad_alloc"; }
  catch (std::exception &e) { exc = true; HostScope h; what = e.what(); }
  catch (...) { exc = true; HostScope h; what = "unknown exception"; }
  t->in_lib = false;
  if (exc) {
    // An exception that leaves main() or a thread ends the process.
    t->proc->bad_alloc = ba;
    end_current(End::Exception, 134, what.c_str());
  }
  while (t->tls_dtors.size()) {
    auto d = t->tls_dtors.back(); { HostScope h; t->tls_dtors.pop_back(); }
    t->in_lib = true; arm(); d.f(d.p); t->in_lib = false; arm();
  }
  bool mainthread = false;
  for (auto &x : G.tasks) if (x->proc == t->proc) { mainthread = x.get() == t; break; }
  if (mainthread) end_current(End::Returned, 0);
  t->state = Task::Done;
  wake_all(t);
  to_host(false);
  __builtin_unreachable();
}
extern "C" void sim_fiber_entry();
asm(R"(
.text
.globl sim_fiber_entry
.type sim_fiber_entry,@function
sim_fiber_entry:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp, %ebp
  call sim_fiber_main
  ud2
  .cfi_endproc
.size sim_fiber_entry,.-sim_fiber_entry
)");
extern "C" void sim_fiber_main() { fiber_main(); }

Task *spawn_thread(Proc *p, const std::string &name, std::function<void()> fn) {
  HostScope h;
  G.tasks.emplace_back(new Task);
  Task *t = G.tasks.back().get();
  t->proc = p; t->name = name; t->fn = std::move(fn);
  if (tls.size) { t->tls.resize(tls.size); tls_fresh(t->tls.data()); }
  t->stack = new_stack();
  char *top = t->stack + 4096 + STACK;
  void **sp = (void **)((uintptr_t)top & ~(uintptr_t)63);
  *--sp = nullptr;
  *--sp = nullptr;
  *--sp = (void *)sim_fiber_entry;      // return address
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  --sp;
  u32 csr = 0x1f80; unsigned short cw = 0x37f;
  memset(sp, 0, 8); memcpy(sp, &csr, 4); memcpy((char *)sp + 4, &cw, 2);
  t->sp = sp;
  return t;
}
Proc *spawn(const std::string &name, std::function<void()> main) {
  HostScope h;
  G.procs.emplace_back(new Proc);
  Proc *p = G.procs.back().get();
  p->id = (int)G.procs.size();
  p->name = name;
  p->image = G.initial;
  spawn_thread(p, name, std::move(main));
  return p;
}
extern "C" int __wrap___cxa_thread_atexit(void (*f)(void *), void *p, void *) {
  if (G.cur) { HostScope h; G.cur->tls_dtors.push_back({f, p}); }
  return 0;
}
Task *self() { return G.cur; }
Proc *me() { return G.cur ? G.cur->proc : nullptr; }
u64 now() { return G.now; }
bool hung() { return G.hung; }

const char *end_name(End e) {
  static const char *n[] = {"running", "returned", "exited", "aborted", "killed", "exception"};
  return n[(int)e];
}
void finish_proc(Proc *p, End e, int code, const std::string &what) {
  if (!p->live()) return;
  HostScope h;
  p->end = e; p->ended = G.now; p->exit_code = code; p->what = what;
  event(0x10, p->id, (u64)e);
  if (G.verbose_) note("process %s ends: %s %s", p->name.c_str(), end_name(e), what.c_str());
  for (auto &t : G.tasks)
    if (t->proc == p && t->state != Task::Done) { t->state = Task::Done; }
  fs_proc_exit(p);
  if (e != End::Returned) heap_drop(p);
}
void end_current(End e, int code, const char *what) {
  Task *t = G.cur;
  finish_proc(t->proc, e, code, what ? what : "");
  to_host(false);
  __builtin_unreachable();
}
void kill_proc(Proc *p) {
  if (!p->live()) return;
  count("fault:kill");
  bool cur = G.cur && G.cur->proc == p;
  finish_proc(p, End::Killed, 137, "killed");
  if (cur) { to_host(false); __builtin_unreachable(); }
}
void block_on(const void *what) {
  Task *t = G.cur;
  t->state = Task::Blocked; t->wait_on = what;
  to_host(true);
}
void wake_all(const void *what) {
  for (auto &t : G.tasks)
    if (t->state == Task::Blocked && t->wait_on == what) { t->state = Task::Ready; t->wait_on = nullptr; }
}
void sleep_ns(u64 ns) {
  Task *t = G.cur;
  if (!t) { G.now += ns; return; }
  bool l = t->in_lib; t->in_lib = false;
  t->state = Task::Sleeping; t->wake = G.now + ns;
  event(0x11, t->proc->id, ns);
  to_host(true);
  t->in_lib = l; arm();
}
static void set_bb_next() {
  // (long runs: no more preemptions)
  if (cfg.bb_gap == 0 || G.nrec > G.caprec / 4) { G.bb_next = INT64_MAX; return; }
  // mean about bb_gap, heavy tail down
  u32 lg = 0; while ((1u << (lg + 1)) <= cfg.bb_gap * 2) lg++;
  u32 k = 1 + choose(lg);
  G.bb_next = 1 + choose(1u << k);
}
void sched_point(int kind) {
  Task *t = G.cur;
  if (!t) return;
  if (++G.yields > cfg.yield_limit || (cfg.time_limit && G.now > cfg.time_limit)) {
    G.hung = true; to_host(false); __builtin_unreachable();
  }
  t->steps++;
  if (cfg.kills_left > 0 && !t->proc->immune && flip(cfg.kill_num, cfg.kill_den)) {
    cfg.kills_left--;
    count(kind == 2 ? "fault:kill-in-computation" : "fault:kill-at-call", 1);
    note("KILLED here");
    finish_proc(t->proc, End::Killed, 137, "killed");
    to_host(false); __builtin_unreachable();
  }
  if (cfg.stall_num && flip(cfg.stall_num, cfg.stall_den)) {
    u32 lg = choose(48);
    u64 d = std::min<u64>(1ull << lg, cfg.stall_max);
    count("fault:stall");
    note("stalled for %.6f s", d / 1e9);
    sleep_ns(d);
    return;
  }
  u32 nready = 0;
  for (auto &x : G.tasks) if (x->state == Task::Ready) nready++;
  if (nready > 1 && flip(cfg.switch_num, cfg.switch_den)) {
    if (kind == 2) count("preemptions"); 
    bool l = t->in_lib; t->in_lib = false;
    G.yields++;
    to_host(true);
    t->in_lib = l; arm();
  }
}
void yield() {
  Task *t = G.cur; if (!t) return;
  if (++G.yields > cfg.yield_limit) { G.hung = true; to_host(false); __builtin_unreachable(); }
  bool l = t->in_lib; t->in_lib = false;
  to_host(true);
  t->in_lib = l; arm();
}
bool run() {
  G.in_run = true;
  set_bb_next();
  Task *last = nullptr;
  while (!G.violated && !G.hung) {
    // wake sleepers
    std::vector<Task *> ready;
    for (auto &t : G.tasks) {
      if (t->state == Task::Sleeping && t->wake <= G.now) t->state = Task::Ready;
      if (t->state == Task::Ready) ready.push_back(t.get());
    }
    if (ready.empty()) {
      u64 w = UINT64_MAX;
      for (auto &t : G.tasks) if (t->state == Task::Sleeping) w = std::min(w, t->wake);
      if (w == UINT64_MAX) break;
      G.now = w;
      if (cfg.time_limit && G.now > cfg.time_limit) { G.hung = true; break; }
      continue;
    }
    Task *t;
    if (ready.size() == 1) t = ready[0];
    else {
      // choice 0 = the first other task after the last one, in order
      u32 k = choose((u32)ready.size());
      size_t base = 0;
      for (size_t i = 0; i < ready.size(); i++) if (ready[i] == last) base = i + 1;
      t = ready[(base + k) % ready.size()];
    }
    if (t != last) { event(0x12, t->proc->id, t->steps); }
    last = t;
    resume(t);
  }
  use_image(nullptr);
  G.in_run = false;
  if (G.violated) throw ViolationEx();
  bool blocked = false;
  for (auto &t : G.tasks) if (t->state != Task::Done) blocked = true;
  return !blocked && !G.hung;
}
LibScope::LibScope() : t(G.cur) {
  if (t) { old = t->in_lib; t->in_lib = true; arm(); }
  else { old = G.host_lib; G.host_lib = true; }
}
LibScope::~LibScope() {
  if (t) { t->in_lib = old; arm(); } else G.host_lib = old;
}
HostScope::HostScope() : t(G.cur) {
  if (t) { old = t->in_lib; t->in_lib = false; g_hook = false; }
  else { old = G.host_lib; G.host_lib = false; }
}
HostScope::~HostScope() {
  if (t) { t->in_lib = old; if (G.cur == t) arm(); } else G.host_lib = old;
}

void call_point() {
  Task *t = G.cur;
  if (!t || !t->in_lib || !cfg.call_gap || G.violated || G.nrec > G.caprec / 4) return;
  int e = errno; g_hook = false;
  if (flip(1, cfg.call_gap)) { count("preemptions at calls"); yield(); }
  arm(); errno = e;
}

//-------------------------------------------------------------- basic-block hook
static __attribute__((noinline)) void bb_slow() {
  G.bb_next = INT64_MAX;
  if (G.bb > cfg.bb_limit) { G.hung = true; to_host(false); __builtin_unreachable(); }
  set_bb_next();
  sched_point(2);
}
} // namespace sim
static inline __attribute__((always_inline)) void trace_point() {
  using namespace sim;
  if (__builtin_expect(!g_hook, 1)) return;
  G.bb++;
  if (__builtin_expect(--G.bb_next <= 0 || G.bb > cfg.bb_limit, 0)) {
    int e = errno; g_hook = false;
    bb_slow();
    arm(); errno = e;
  }
}
extern "C" {
void __sanitizer_cov_trace_pc() { trace_point(); }
// comparisons: between a value's storing and its use there is often one
void __sanitizer_cov_trace_cmp1(unsigned char, unsigned char) { trace_point(); }
void __sanitizer_cov_trace_cmp2(unsigned short, unsigned short) { trace_point(); }
void __sanitizer_cov_trace_cmp4(unsigned, unsigned) { trace_point(); }
void __sanitizer_cov_trace_cmp8(unsigned long, unsigned long) { trace_point(); }
void __sanitizer_cov_trace_const_cmp1(unsigned char, unsigned char) { trace_point(); }
void __sanitizer_cov_trace_const_cmp2(unsigned short, unsigned short) { trace_point(); }
void __sanitizer_cov_trace_const_cmp4(unsigned, unsigned) { trace_point(); }
void __sanitizer_cov_trace_const_cmp8(unsigned long, unsigned long) { trace_point(); }
void __sanitizer_cov_trace_cmpf(float, float) { trace_point(); }
void __sanitizer_cov_trace_cmpd(double, double) { trace_point(); }
void __sanitizer_cov_trace_switch(unsigned long, void *) {}
}
namespace sim {

//------------------------------------------------------------------------ heap
static const u64 MAGIC = 0x51b10cca11ab1e00ull, DEAD = 0xdeadb10cdeadb10cull;
struct alignas(64) Block {
  u64 magic; u64 size; u64 serial; Proc *owner; Block *prev, *next; u32 cls; u32 pad; u64 check;
};
static_assert(sizeof(Block) == 64, "");
static char *const ARENA = (char *)0x200000000000ull;
static const size_t ARENA_SIZE = 1ull << 30;
static size_t arena_top = 0, arena_high = 0;
static Block live_head;
static std::deque<Block *> *quarantine; static size_t quarantine_bytes;
static std::vector<Block *> free_lists[40];
static u64 serial;
bool heap_owns(const void *p) { return (char *)p >= ARENA && (char *)p < ARENA + ARENA_SIZE; }
static u32 size_class(size_t n, size_t &cap) {   // capacity incl. header and canary
  size_t need = n + sizeof(Block) + 16;
  u32 c = 0; cap = 128;
  while (cap < need) { cap <<= 1; c++; }
  // finer classes keep memory bounded: use 3/4 step
  if (cap > 256 && need <= cap / 4 * 3) { cap = cap / 4 * 3; c += 20; }
  return c;
}
static u64 canary_of(Block *b) { return mix((u64)(uintptr_t)b ^ b->serial ^ b->size); }
static bool canary_ok(Block *b) {
  u64 c = canary_of(b);
  if (b->check != c) return false;
  return memcmp((char *)(b + 1) + b->size, &c, 8) == 0;
}
void heap_reset() {
  if (!quarantine) {
    void *p = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != ARENA) harness_error("arena mmap");
    quarantine = new std::deque<Block *>;
  }
  if (arena_high > (64u << 20)) { madvise(ARENA, ARENA_SIZE, MADV_DONTNEED); arena_high = 0; }
  arena_top = 0; serial = 0;
  live_head.prev = live_head.next = &live_head;
  quarantine->clear(); quarantine_bytes = 0;
  for (auto &v : free_lists) v.clear();
}
static bool dead_ok(Block *b) {
  const u8 *p = (const u8 *)(b + 1);
  size_t n = std::min<size_t>(b->size, 4096);
  for (size_t i = 0; i < n; i++) if (p[i] != 0xDD) return false;
  return b->magic == DEAD;
}
static void evict() {
  Block *b = quarantine->front(); quarantine->pop_front();
  quarantine_bytes -= b->size;
  if (!dead_ok(b)) soft_violate("heap-corruption", fmt("write to freed block #%llu of %llu bytes",
       (unsigned long long)b->serial, (unsigned long long)b->size));
  free_lists[b->cls].push_back(b);
}
static void *arena_alloc(size_t n) {
  HostScope h;
  size_t cap; u32 c = size_class(n, cap);
  Block *b;
  if (n > cfg.max_alloc) return nullptr;
  if (free_lists[c].size()) { b = free_lists[c].back(); free_lists[c].pop_back(); }
  else {
    size_t at = (arena_top + 63) & ~(size_t)63;
    if (at + cap > ARENA_SIZE) return nullptr;
    b = (Block *)(ARENA + at); arena_top = at + cap; arena_high = std::max(arena_high, arena_top);
  }
  b->magic = MAGIC; b->size = n; b->serial = ++serial; b->owner = me(); b->cls = c;
  b->prev = live_head.prev; b->next = &live_head; b->prev->next = b; live_head.prev = b;
  memset(b + 1, cfg.fill, n);
  u64 cn = canary_of(b); b->check = cn;
  memcpy((char *)(b + 1) + n, &cn, 8);
  return b + 1;
}
static void arena_free(void *p) {
  HostScope h;
  Block *b = (Block *)p - 1;
  if (((uintptr_t)p & 63) || (char *)b < ARENA || (char *)p > ARENA + arena_top) {
    soft_violate("heap-corruption", fmt("delete of a pointer that was never allocated: %p", p)); return; }
  if (b->magic == DEAD) { soft_violate("heap-corruption", fmt("double delete of block #%llu (%llu bytes)",
      (unsigned long long)b->serial, (unsigned long long)b->size)); return; }
  if (b->magic != MAGIC) { soft_violate("heap-corruption", fmt("delete of a corrupted or inner pointer %p", p)); return; }
  if (!canary_ok(b)) soft_violate("heap-corruption", fmt("write beyond block #%llu of %llu bytes",
      (unsigned long long)b->serial, (unsigned long long)b->size));
  b->prev->next = b->next; b->next->prev = b->prev;
  b->magic = DEAD;
  memset(b + 1, 0xDD, b->size);
  quarantine->push_back(b); quarantine_bytes += b->size;
  while (quarantine->size() > 256 || quarantine_bytes > (4u << 20)) evict();
}
void heap_check() {
  HostScope h;
  for (Block *b = live_head.next; b != &live_head; b = b->next)
    if (b->magic != MAGIC || !canary_ok(b)) {
      soft_violate("heap-corruption", fmt("write beyond block #%llu of %llu bytes", (unsigned long long)b->serial, (unsigned long long)b->size));
      break;
    }
  for (Block *b : *quarantine) if (!dead_ok(b)) { soft_violate("heap-corruption", fmt("write to freed block #%llu of %llu bytes", (unsigned long long)b->serial, (unsigned long long)b->size)); break; }
  if (G.violated && !G.cur) throw ViolationEx();
}
bool heap_block_live(const void *p) {
  for (Block *b = live_head.next; b != &live_head; b = b->next)
    if ((char *)p >= (char *)(b + 1) && (char *)p <= (char *)(b + 1) + b->size) return true;
  return false;
}
HeapStat heap_live(Proc *p) {
  HeapStat s{0, 0};
  for (Block *b = live_head.next; b != &live_head; b = b->next)
    if (b->owner == p) { s.live_blocks++; s.live_bytes += b->size; }
  return s;
}
u64 heap_serial() { return serial + 1; }
u64 heap_leaked_since(Proc *p, u64 from, std::string *desc) {
  HostScope h;
  u64 n = 0;
  for (Block *b = live_head.next; b != &live_head; b = b->next)
    if (b->owner == p && b->serial >= from) {
      if (desc && n < 6) *desc += fmt(" #%llu:%llu bytes", (unsigned long long)b->serial, (unsigned long long)b->size);
      n++;
    }
  return n;
}
void heap_drop(Proc *p) {
  for (Block *b = live_head.next; b != &live_head;) {
    Block *nx = b->next;
    if (b->owner == p) { b->prev->next = b->next; b->next->prev = b->prev; b->prev = b->next = b; }
    b = nx;
  }
}
static void *op_new(size_t n, bool nothrow) {
  Task *t = G.cur;
  bool in = t ? t->in_lib : G.host_lib;
  if (in) {
    call_point();
    i64 &k = t ? t->fail_alloc_in : G.host_fail_alloc;
    if (t) t->allocs++;
    void *p = nullptr;
    if (k > 0 && --k == 0) {
      k = -1;
      count("fault:alloc-failure"); G.nfaults++;
      note("allocation of %zu bytes fails", n);
    } else p = arena_alloc(n);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
  }
  void *p = malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; harness_error("out of memory"); }
  return p;
}
static void op_delete(void *p) {
  if (!p) return;
  if (heap_owns(p)) { call_point(); arena_free(p); } else free(p);
}

//--------------------------------------------------------------- run boundaries
void begin_run() {
  cfg = Config();
  G.nrec = 0; G.overflow = false;
  G.violated = false; G.vclass.clear(); G.vmsg.clear(); G.log.clear();
  G.hash = 0x1234; G.events = 0; G.nfaults = 0; G.nontriv = false; G.sample_.clear();
  G.now = 0; G.yields = 0; G.bb = 0; G.bb_next = INT64_MAX; G.hung = false;
  if (!tls.at) { tls_find(); tls.host.resize(tls.size); }
  if (tls.size) tls_fresh(tls.at);
  G.cur = nullptr; g_hook = false; G.host_lib = false; G.host_fail_alloc = -1;
  heap_reset(); fs_reset();
  if (G.initial.empty()) { img_save(G.initial); G.host_image = G.initial; }
  img_load(G.initial); G.host_image = G.initial; G.img = nullptr;
}
void end_run() {
  use_image(nullptr);
  for (auto &p : G.procs) if (p->live()) { fs_proc_exit(p.get()); }
  for (auto &t : G.tasks) if (t->stack) stack_pool.push_back(t->stack);
  G.tasks.clear(); 
  fs_reset();
  G.procs.clear();
}
Scenario *Scenario::head = nullptr;
Scenario::Scenario(const char *p, const char *n, void (*r)(), u32 w)
    : property(p), name(n), run(r), weight(w), next(head) { head = this; }
} // namespace sim

void *operator new(size_t n) { return sim::op_new(n, false); }
void *operator new[](size_t n) { return sim::op_new(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::op_new(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::op_new(n, true); }
void operator delete(void *p) noexcept { sim::op_delete(p); }
void operator delete[](void *p) noexcept { sim::op_delete(p); }
void operator delete(void *p, size_t) noexcept { sim::op_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim::op_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::op_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::op_delete(p); }
