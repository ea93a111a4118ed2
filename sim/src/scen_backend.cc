// C16: a failing numerical backend is never passed off as a result.
#include "ops.h"
#include <exception>
#include <limits>
using namespace ops;
namespace {
const Entry &lapack_entry() { for (;;) { const Entry &e = catalogue[choose(catalogue_size)]; if (e.flags & LAP) return e; } }
struct Try { Out out; bool ended = false, hit = false, reported = false; u64 calls = 0; std::string how; };
// The computation in a process of its own, with or without a failing backend.
void attempt(const Entry &e, u64 seed, i64 fail_in, int status, u64 junk, Try &t, u32 poison, const Out *expected) {
  Proc *p = spawn("program", [&] {
    Ctx c(seed); c.name = e.name;
    c.go = [&](const std::function<void(Out &)> &f) {
      if (poison) {                            // operands that LAPACK cannot cope with
        const double bad[] = {0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 1e308, 0};
        u64 r = junk; auto at = [&](u64 n) { r = mix(r + 3); return (ix)(r % n); };
        lib([&] {
          for (RTensor *m : c.r) { if (poison == 4) { if (m->rank() == 2) { ix k = at((u64)m->columns()); for (ix i = 0; i < m->rows(); i++) m->at(i, k) = 0.0; } } else if (m->size()) m->at_seq(at((u64)m->size())) = bad[poison]; }
          for (CTensor *m : c.c) { if (poison == 4) { if (m->rank() == 2) { ix k = at((u64)m->columns()); for (ix i = 0; i < m->rows(); i++) m->at(i, k) = 0.0; } } else if (m->size()) m->at_seq(at((u64)m->size())) = bad[poison]; }
        });
      }
      Task *s = self(); u64 c0 = s->backend_calls;
      s->backend_fail_in = fail_in; s->backend_status = status; s->backend_seed = junk; s->backend_hit = s->backend_reported = false;
      auto ask = [&] { t.hit = s->backend_hit; t.reported = s->backend_reported; t.calls = s->backend_calls - c0; s->backend_fail_in = -1; };
      try { lib([&] { f(t.out); }); t.ended = true; } catch (std::exception &x) { HostScope h; t.how = x.what(); } catch (...) { HostScope h; t.how = "an exception"; }
      ask();
      if (expected) {                          // later calls are not affected
        Out again; lib([&] { f(again); }); HostScope h;
        if (!(again == *expected)) violate("disturbed", "%s gives another result after a failure of its backend: %s", e.name, diff(again, *expected).c_str());
      }
    };
    e.f(c);
  });
  run();
  if (p->end != End::Returned) {
    HostScope h; t.how = end_name(p->end);
    if (!p->failed()) violate("silent-end", "%s ended the program without reporting a failure (%s)", e.name, t.how.c_str());
  }
}
bool says_not_converged(const Entry &e, const Out &o) { return (e.flags & ARP) && !o.v.empty() && o.v.back() == 0; }
void injected() {
  const Entry &e = lapack_entry(); u64 seed = ((u64)choose(1u << 30) << 20) + choose(1u << 20); u32 tries = 1 + choose(4); cfg.fill = (u8)choose(256);
  Try ref; attempt(e, seed, -1, 0, 0, ref, 0, nullptr);
  if (!ref.ended) violate("false-alarm", "%s failed although its backend succeeded: %s", e.name, ref.how.c_str());
  u64 stopped = 0, said = 0;
  for (u32 k = 0; k < tries && ref.calls; k++) {
    u64 at = flip(1, 2) ? 1 + choose((u32)std::min<u64>(ref.calls, 1u << 20)) : ref.calls - small((u32)std::min<u64>(ref.calls, 20)); if (!at) at = 1;
    int status = flip(2, 3) ? 1 + (int)small(9) : -1 - (int)choose(12); u64 junk = choose(1u << 30);
    if (flip(1, 20) && (e.flags & ARP)) status = -9999;
    note("%s: call %llu of %llu to the backend reports %d", e.name, (unsigned long long)at, (unsigned long long)ref.calls, status);
    Try t; attempt(e, seed, (i64)at, status, junk, t, 0, &ref.out);
    event(42, at, t.ended);
    if (!t.hit && t.ended && !(t.out == ref.out)) violate("disturbed", "%s is not repeatable: %s", e.name, diff(t.out, ref.out).c_str());
    if (!t.ended) { stopped++; continue; }
    if (t.hit && says_not_converged(e, t.out)) { said++; continue; }
    if (t.hit && !(t.out == ref.out)) violate("passed-off", "%s returned a result although call %llu of %llu to its backend reported status %d", e.name, (unsigned long long)at, (unsigned long long)ref.calls, status);
  }
  if (stopped + said) nontrivial(); count("stopped the program or threw", stopped); count("reported by the convergence flag", said); event(43, mix((u64)(&e - catalogue), seed));
  sample(fmt("%s: %llu backend calls, %u failed, %llu stopped, %llu flagged", e.name, (unsigned long long)ref.calls, tries, (unsigned long long)stopped, (unsigned long long)said));
}
void genuine() {                               // inputs that make LAPACK itself give up
  const Entry &e = lapack_entry(); u64 seed = ((u64)choose(1u << 30) << 20) + choose(1u << 20); u32 poison = 1 + choose(4); cfg.fill = (u8)choose(256);
  if (strstr(e.name, "svd") || strstr(e.name, "expm")) poison = 4;   // LAPACK's own bdsqr never ends on NaN or infinity
  Try t; attempt(e, seed, -1, 0, choose(1u << 30), t, poison, nullptr);
  if (t.reported && t.ended && !says_not_converged(e, t.out)) violate("passed-off", "%s returned a result although its backend reported a failure (operands of kind %u)", e.name, poison);
  if (t.reported || !t.ended) { nontrivial(); probe("backend failed by itself"); }
  event(44, mix((u64)(&e - catalogue), seed), poison);
  sample(fmt("%s with operands of kind %u: %s", e.name, poison, t.ended ? "ended" : t.how.c_str()));
}
}
SCENARIO(C16, injected, 3) { injected(); }
SCENARIO(C16, genuine, 1) { genuine(); }
