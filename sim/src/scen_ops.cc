// C12: every allocation of an operation may fail. C13: computations do not disturb each other.
#include "ops.h"
#include <exception>
using namespace ops;
namespace {
const Entry &choose_entry(u32 without, u32 from = 0) {
  for (;;) { const Entry &e = catalogue[choose(catalogue_size)]; if (!(e.flags & without) && (!from || e.flags & from)) return e; }
}
// One operation under allocation failures.
void starve() {
  const Entry &e = choose_entry(RNG | IO); u64 seed = ((u64)choose(1u << 30) << 20) + choose(1u << 20);
  cfg.fill = (u8)choose(256); u32 tries = 3 + choose(8);
  note("operation %s with operands %llx", e.name, (unsigned long long)seed);
  u64 hits = 0, allocs = 0, kept = 0; bool done = false;
  Proc *p = spawn("program", [&] {
    u64 start = heap_serial();
    { Ctx c(seed); c.name = e.name;
    c.go = [&](const std::function<void(Out &)> &f) {
      Out first, before = c.digest(); u64 s0 = heap_serial();
      u64 a0 = self()->allocs; lib([&] { f(first); }); allocs = self()->allocs - a0;
      std::string d; u64 n = heap_leaked_since(me(), s0, &d);
      if (n) {                                 // memory kept for the next time is not lost: does it grow?
        Out again; d.clear(); kept = n; s0 = heap_serial(); a0 = self()->allocs; lib([&] { f(again); }); allocs = self()->allocs - a0;
        if ((n = heap_leaked_since(me(), s0, &d))) violate("leak", "%s leaves %llu blocks behind:%s", e.name, (unsigned long long)n, d.c_str());
      }
      if (!(c.digest() == before)) violate("operand-changed", "%s changes its operands: %s", e.name, diff(c.digest(), before).c_str());
      for (u32 t = 0; t < tries && allocs; t++) {
        u64 k = flip(1, 3) ? 1 + choose((u32)allocs) : flip(1, 2) ? 1 + small((u32)allocs) : allocs - small((u32)allocs);
        u64 s1 = heap_serial(); Out out; bool oom = false; note("allocation %llu of %llu fails", (unsigned long long)k, (unsigned long long)allocs);
        self()->fail_alloc_in = (i64)k;
        try { lib([&] { f(out); }); } catch (std::bad_alloc &) { oom = true; } catch (std::exception &x) { HostScope h; violate("wrong-exception", "%s ran out of memory and threw %s", e.name, x.what()); } catch (...) { HostScope h; violate("wrong-exception", "%s ran out of memory and threw something else", e.name); }
        bool hit = self()->fail_alloc_in < 0; self()->fail_alloc_in = -1; event(21, k, hit); HostScope h;
        if (hit) { hits++; count("failed allocations"); }
        if (hit && !oom) violate("swallowed", "%s went on after its allocation %llu of %llu failed", e.name, (unsigned long long)k, (unsigned long long)allocs);
        if (!hit && !(out == first)) violate("not-repeatable", "%s gives other results when repeated: %s", e.name, diff(out, first).c_str());
        heap_check(); d.clear();
        if ((n = heap_leaked_since(me(), s1, &d))) violate("leak", "%s leaves %llu blocks behind when its allocation %llu of %llu fails:%s", e.name, (unsigned long long)n, (unsigned long long)k, (unsigned long long)allocs, d.c_str());
        if (!(c.digest() == before)) violate("operand-changed", "%s changes its operands when its allocation %llu of %llu fails: %s", e.name, (unsigned long long)k, (unsigned long long)allocs, diff(c.digest(), before).c_str());
        if (hit && flip(1, 2)) { Out again; lib([&] { f(again); }); if (!(again == first)) violate("not-repeatable", "%s gives other results after an attempt that ran out of memory: %s", e.name, diff(again, first).c_str()); }
      }
    };
    e.f(c); }
    std::string d; u64 n = heap_leaked_since(me(), start, &d); HostScope h;
    if (n > kept) violate("leak", "operands of %s: %llu blocks:%s", e.name, (unsigned long long)n, d.c_str());
    heap_check(); done = true;
  });
  run();
  if (p->end != End::Returned || !done) violate("stopped", "%s ended the program (%s) when it ran out of memory: %s", e.name, end_name(p->end), p->out.c_str());
  if (hits) nontrivial(); event(22, hits, allocs); count("operations");
  sample(fmt("%s: %llu allocations, %llu failures", e.name, (unsigned long long)allocs, (unsigned long long)hits));
}

// Computations that run at the same time, or inside each other.
struct Work { const Entry *e; u64 seed; Out alone, got; bool done = false; };
void compute(Work &w, int id, Out &out, const std::function<void(Ctx &)> &prepare = nullptr) {
  Ctx c(w.seed, id); c.name = w.e->name; if (prepare) prepare(c);
  Out before; 
  c.go = [&](const std::function<void(Out &)> &f) { before = c.digest(); lib([&] { f(out); }); if (!(c.digest() == before)) violate("operand-changed", "the operands of %s changed: %s", c.name, diff(c.digest(), before).c_str()); };
  w.e->f(c);
}
Work make_work(u32 without, u32 from = 0) { const Entry &e = choose_entry(without, from); Work w; w.e = &e; w.seed = ((u64)choose(1u << 30) << 20) + choose(1u << 20); return w; }
void reference(std::vector<Work *> all, u8 fill) {
  cfg.fill = fill;
  for (Work *w : all) {                        // each one in a process of its own
    Proc *p = spawn("alone", [w] { compute(*w, 0, w->alone); });
    run();
    if (p->end != End::Returned) violate("stopped", "%s ended the program: %s", w->e->name, p->out.c_str());
  }
}
void check(const Work &w, const char *how) {
  HostScope h;
  if (!w.done) violate("stopped", "%s did not end %s", w.e->name, how);
  if (!(w.got == w.alone)) violate("disturbed", "%s gives another result %s than alone: %s", w.e->name, how, diff(w.got, w.alone).c_str());
}
void together(u32 kind = 0) {
  u32 threads = 2 + choose(3), each = 1 + choose(3), procs = 1 + choose(2); bool arp = false;
  std::vector<Work> w(threads * each * procs); std::vector<Work *> all;
  for (auto &x : w) { x = make_work(RNG | (arp ? ARP : 0) | TIMED, kind && flip(4, 5) ? kind : 0); if (x.e->flags & ARP) arp = true; all.push_back(&x); }
  // favour a few kinds of computation, so that the same code meets itself
  if (flip(1, 2)) for (auto &x : w) if (flip(1, 2) && !(w[0].e->flags & ARP)) x.e = w[0].e;
  else if (flip(1, 3) && !(w[0].e->flags & ARP)) for (auto &x : w) x.e = w[0].e;
  u32 na = 0; for (auto &x : w) if (x.e->flags & ARP && ++na > 1) x.e = &catalogue[0];
  reference(all, (u8)choose(256));
  cfg.fill = (u8)choose(256); cfg.bb_gap = 1 + small(4000); cfg.call_gap = flip(1, 2) ? 1 + small(60) : 0; cfg.switch_num = 1; cfg.switch_den = 1 + choose(4);
  for (u32 q = 0; q < procs; q++) {
    Proc *p = spawn("program", [&w, q, threads, each] { for (;;) { bool all = true; for (u32 k = 0; k < threads * each; k++) all = all && w[q * threads * each + k].done; if (all) return; yield(); } });
    for (u32 t = 0; t < threads; t++) {
      u32 at = (q * threads + t) * each;
      spawn_thread(p, fmt("t%u", t), [&w, at, each, q, t] { for (u32 k = 0; k < each; k++) { note("%s starts", w[at + k].e->name); compute(w[at + k], (int)(q * 100 + t), w[at + k].got); w[at + k].done = true; note("%s ends", w[at + k].e->name); } });
    }
  }
  bool ok = run(); (void)ok; cfg.bb_gap = cfg.call_gap = 0;
  for (auto &x : w) { check(x, "while others run"); event(23, x.got.v.size(), mix((u64)(x.e - catalogue), x.seed)); }
  nontrivial(); count("concurrent computations", w.size());
  sample(fmt("%u processes x %u threads x %u computations, first %s, switch every %u blocks", procs, threads, each, w[0].e->name, cfg.bb_gap));
}
void sequence() {                              // one process does one after the other, and repeats
  u32 n = 2 + choose(8); std::vector<Work> w(n); std::vector<Work *> all;
  for (auto &x : w) { x = make_work(0); all.push_back(&x); }
  if (flip(1, 2)) for (auto &x : w) if (flip(1, 3)) x.e = w[0].e;
  reference(all, (u8)choose(256)); cfg.fill = (u8)choose(256);
  Proc *p = spawn("program", [&] { for (u32 r = 0; r < 2; r++) for (u32 k = 0; k < n; k++) { Work &x = w[r ? choose(n) : k]; x.got = Out(); note("%s", x.e->name); compute(x, (int)k, x.got); x.done = true; check(x, "after others"); event(24, mix((u64)(x.e - catalogue), x.seed)); } });
  run(); if (p->end != End::Returned) violate("stopped", "a sequence ended the program: %s", p->out.c_str());
  nontrivial(); count("consecutive computations", n);
  sample(fmt("%u computations in a row, first %s", n, w[0].e->name));
}
void nested_run(bool arpack) {                 // inside the user's operator
  u32 depth = arpack ? 1 : 1 + choose(3); std::vector<Work> w(depth + 1); std::vector<Work *> all;
  for (u32 k = 0; k <= depth; k++) { w[k] = make_work(RNG | TIMED | (arpack ? 0 : ARP), k < depth && !arpack ? CB : 0); all.push_back(&w[k]); }
  if (arpack) { while ((w[0].e->flags & (ARP | CB)) != (ARP | CB)) w[0] = make_work(0, ARP); w[1] = w[0]; }   // the same solve inside itself
  for (size_t k = 0; k < w.size(); k++) all[k] = &w[k];
  reference(all, (u8)choose(256)); cfg.fill = (u8)choose(256);
  u64 calls = 0; std::vector<u32> skip(w.size()); for (u32 &s : skip) s = choose(4);
  std::function<void(size_t)> level = [&](size_t k) {
    Work &x = w[k]; Out out; u32 seen = 0;
    compute(x, (int)k, out, [&](Ctx &c) { c.in_callback = [&, k] { HostScope h; if (k + 1 < w.size() && seen++ >= skip[k] && calls < 40) { calls++; event(25, k); level(k + 1); } }; });
    HostScope h; x.got = out; x.done = true; check(x, k + 1 < w.size() ? "with others in its operator" : "inside an operator");
  };
  Proc *p = spawn("program", [&] { level(0); });
  run(); if (p->end != End::Returned) violate("stopped", "a nested computation ended the program: %s", p->out.c_str());
  if (calls) nontrivial(); count("nested computations", calls);
  for (auto &x : w) event(26, mix((u64)(x.e - catalogue), x.seed));
  std::string s; for (auto &x : w) s += fmt(" %s", x.e->name);
  sample(fmt("nested:%s, %llu times", s.c_str(), (unsigned long long)calls));
}
}
SCENARIO(C12, starve, 1) { starve(); }
SCENARIO(C13, together, 6) { together(); }
SCENARIO(C13, transforms, 1) { together(FFT); }
SCENARIO(C13, sequence, 4) { sequence(); }
SCENARIO(C13, nested, 4) { nested_run(false); }
SCENARIO(C13Karpack, nested, 1) { nested_run(true); }
