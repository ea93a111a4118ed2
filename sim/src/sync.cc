// Seam at locks and at FFTW's planner. Threads of the program are fibers of one thread, so a lock must hand over to
// the simulator instead of blocking. FFTW documents that only fftw_execute may run in two threads at once: the
// planner's functions can be preempted at both ends, and two threads inside it are a violation of that contract.
#include "internal.h"
#include <fftw3.h>
#include <pthread.h>
using namespace sim;
namespace {
struct Planner {
  Proc *p = nullptr;
  explicit Planner(const char *fn) {
    Task *t = self(); if (!t) return;
    HostScope h; p = t->proc; event(43);
    if (p->planner && p->planner != t) { count("probe:planner overlap"); violate("unsafe-backend", "%s is called while another thread is inside FFTW's planner, which is not reentrant", fn); }
    p->planner = t; point();
  }
  ~Planner() { if (!p) return; HostScope h; point(); p->planner = nullptr; }
  static void point() { if (cfg.bb_gap && flip(1, 4)) { count("preemptions"); yield(); } }
};
int me_id() { return (int)(((uintptr_t)self() >> 4) & 0x7fffffff); }
}
extern "C" {
#define PLANNER(ret, name, params, args) ret __wrap_##name params { Planner p(#name); return name args; }
PLANNER(fftw_plan, fftw_plan_dft_1d, (int n, fftw_complex *i, fftw_complex *o, int s, unsigned f), (n, i, o, s, f))
PLANNER(fftw_plan, fftw_plan_dft_2d, (int n, int m, fftw_complex *i, fftw_complex *o, int s, unsigned f), (n, m, i, o, s, f))
PLANNER(fftw_plan, fftw_plan_dft_3d, (int n, int m, int k, fftw_complex *i, fftw_complex *o, int s, unsigned f), (n, m, k, i, o, s, f))
PLANNER(fftw_plan, fftw_plan_dft, (int r, const int *n, fftw_complex *i, fftw_complex *o, int s, unsigned f), (r, n, i, o, s, f))
PLANNER(fftw_plan, fftw_plan_many_dft, (int r, const int *n, int h, fftw_complex *i, const int *ie, int is, int id, fftw_complex *o, const int *oe, int os, int od, int s, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, s, f))
PLANNER(fftw_plan, fftw_plan_guru_dft, (int r, const fftw_iodim *d, int h, const fftw_iodim *hd, fftw_complex *i, fftw_complex *o, int s, unsigned f), (r, d, h, hd, i, o, s, f))
PLANNER(fftw_plan, fftw_plan_guru64_dft, (int r, const fftw_iodim64 *d, int h, const fftw_iodim64 *hd, fftw_complex *i, fftw_complex *o, int s, unsigned f), (r, d, h, hd, i, o, s, f))
PLANNER(void, fftw_destroy_plan, (fftw_plan q), (q))
PLANNER(void, fftw_cleanup, (), ())

int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_once(pthread_once_t *, void (*)()); int __real___cxa_guard_acquire(u64 *); void __real___cxa_guard_release(u64 *); void __real___cxa_guard_abort(u64 *);
static bool take(pthread_mutex_t *m) {
  if (m->__data.__lock && !((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && m->__data.__owner == me_id())) return false;
  m->__data.__lock = 1; m->__data.__owner = me_id(); m->__data.__count++; return true;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!self()) return __real_pthread_mutex_lock(m);
  HostScope h; bool waited = false;
  while (!take(m)) { if (!waited) { waited = true; count("waits for a lock"); } block_on(m); }
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!self()) return __real_pthread_mutex_trylock(m); return take(m) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!self()) return __real_pthread_mutex_unlock(m);
  HostScope h;
  if (m->__data.__count > 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count--; return 0; }
  m->__data.__count = 0; m->__data.__lock = 0; m->__data.__owner = 0; wake_all(m); return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
  if (!self()) return __real_pthread_once(o, f);
  while (*o != 2) {
    if (*o == 1) { HostScope h; block_on(o); continue; }
    *o = 1; struct Undo { pthread_once_t *o; ~Undo() { *o = *o == 3 ? 2 : 0; HostScope h; wake_all(o); } } u{o};
    f(); *o = 3;
  }
  return 0;
}
// std::shared_mutex
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *); int __real_pthread_rwlock_wrlock(pthread_rwlock_t *); int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *); int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
static bool take_rw(pthread_rwlock_t *m, bool write) {
  if (m->__data.__cur_writer || (write && m->__data.__readers)) return false;
  if (write) m->__data.__cur_writer = me_id(); else m->__data.__readers++;
  return true;
}
static int lock_rw(pthread_rwlock_t *m, bool write) { HostScope h; bool waited = false; while (!take_rw(m, write)) { if (!waited) { waited = true; count("waits for a lock"); } block_on(m); } return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return self() ? lock_rw(m, false) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return self() ? lock_rw(m, true) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (!self()) return __real_pthread_rwlock_tryrdlock(m); return take_rw(m, false) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (!self()) return __real_pthread_rwlock_trywrlock(m); return take_rw(m, true) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!self()) return __real_pthread_rwlock_unlock(m);
  HostScope h; if (m->__data.__cur_writer) m->__data.__cur_writer = 0; else if (m->__data.__readers) m->__data.__readers--;
  wake_all(m); return 0;
}
// Initialisation of static variables in functions: byte 0 done, byte 1 in progress.
int __wrap___cxa_guard_acquire(u64 *g) {
  if (!self()) return __real___cxa_guard_acquire(g);
  volatile char *b = (volatile char *)g;
  while (!b[0] && b[1]) { HostScope h; block_on(g); }
  if (b[0]) return 0;
  b[1] = 1; return 1;
}
void __wrap___cxa_guard_release(u64 *g) { if (!self()) return __real___cxa_guard_release(g); ((char *)g)[1] = 0; ((char *)g)[0] = 1; HostScope h; wake_all(g); }
void __wrap___cxa_guard_abort(u64 *g) { if (!self()) return __real___cxa_guard_abort(g); ((char *)g)[1] = 0; HostScope h; wake_all(g); }
}
