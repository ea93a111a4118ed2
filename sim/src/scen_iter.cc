// Iterative solvers that call the user back. C14: an exception in the operator cancels cleanly.
// C15: what the operator keeps or returns stays what it is, and convergence is reported truthfully.
#include "ops.h"
#include <exception>
#include <stdexcept>
using namespace ops;
namespace {
enum Kind : u32 { CGS, POWER, EIGS };
const char *kind_name(u32 k) { static const char *const n[] = {"cgs", "eig_power", "eigs"}; return n[k]; }
struct Spec { u32 kind; bool complex; long n; u32 type, neig; int limit; double tol; u64 seed; bool use_limit; };
Spec choose_spec(bool arpack, bool only_arpack = false) {
  Spec s; do s.kind = choose(3); while ((s.kind == EIGS && !arpack) || (s.kind != EIGS && only_arpack));
  s.complex = flip(1, 2);
  s.n = s.kind != EIGS ? (flip(1, 16) ? 8 + choose(40) : 1 + choose(7)) : flip(1, 3) ? 1 + choose(4) : flip(1, 12) ? 21 + choose(20) : 5 + choose(8);   // ARPACK restarts beyond 20
  s.type = choose(s.complex ? 6 : 4); s.neig = s.n < 4 ? 1 : 1 + choose(2);
  s.use_limit = flip(1, 2); s.limit = (int)(1 + choose(12)); s.tol = flip(1, 2) ? 0 : 1e-7;
  s.seed = ((u64)choose(1u << 30) << 20) + choose(1u << 20);
  return s;
}
std::string describe(const Spec &s) { return fmt("%s<%s> n=%ld%s", kind_name(s.kind), s.complex ? "complex" : "real", s.n, s.use_limit ? fmt(" limit %d", s.limit).c_str() : ""); }
template <class T> struct Operands {
  Ctx c; T &a, &b, &x;
  Operands(const Spec &s) : c(s.seed), a(s.kind == EIGS ? c.herm<T>(s.n) : c.spd<T>(s.n)), b(c.dense<T>({s.n})), x(c.dense<T>({s.n})) {}
};
// The user's operator.
template <class T> struct Op {
  const T *a; mutable u64 calls = 0; std::function<void(u64, const T &)> before; std::function<T(u64, const T &)> instead;
  const T operator()(const T &v) const {
    u64 k = ++calls;
    if (before) before(k, v);
    if (instead) return instead(k, v);
    return mmult(*a, v);
  }
};
// One solve. `vector` is the in/out argument of the eigenvalue solvers.
template <class T> void solve_with(const Spec &s, const Op<T> &op, const T &b, const T &x0, T &vector, Out &out) {
  switch (s.kind) {
  case CGS: out.t(s.use_limit ? linalg::cgs(op, b, &x0, s.limit, s.tol) : linalg::cgs(op, b, &x0)); break;
  case POWER: out.z(s.use_limit ? linalg::eig_power(op, (size_t)s.n, &vector, (size_t)s.limit, s.tol) : linalg::eig_power(op, (size_t)s.n, &vector)); out.t(vector); break;
  default: { bool ok = false; out.t(linalg::eigs(op, (size_t)s.n, (int)s.type, s.neig, &vector, &ok)); out.t(vector); out.d(ok); }
  }
}
struct Alone { Out out; u64 calls = 0; };
template <class T> void run_alone(const Spec &s, Alone &r) {
  Proc *p = spawn("alone", [&] { Operands<T> o(s); lib([&] { T v(o.x); Op<T> op{&o.a}; solve_with<T>(s, op, o.b, o.x, v, r.out); r.calls = op.calls; }); });
  run(); if (p->end != End::Returned) violate("stopped", "%s ended the program: %s", describe(s).c_str(), p->out.c_str());
}
void alone(const Spec &s, Alone &r) { if (s.complex) run_alone<CTensor>(s, r); else run_alone<RTensor>(s, r); }

// ---- C14
struct Cancelled : std::runtime_error { u64 token; Cancelled(u64 t) : std::runtime_error(std::to_string(t) + " cancels"), token(t) {} };
struct Plain { u64 token; };
[[noreturn]] void throw_it(u32 how, u64 token) {
  switch (how) {
  case 0: throw Cancelled(token);
  case 1: throw Plain{token};
  case 2: throw (int)token;
  case 3: { std::string s; { HostScope h; s = std::to_string(token); } throw s; }
  default: throw std::bad_alloc();
  }
}
// Runs f and tells whether exactly the exception (how, token) came out.
template <class F> bool catches(u32 how, u64 token, F f, std::string &got) {
  got = "no exception";
  try { lib(f); return false; }
  catch (const Cancelled &e) { HostScope h; got = fmt("Cancelled(%llu, %s)", (unsigned long long)e.token, e.what()); return how == 0 && e.token == token && e.what() == std::to_string(token) + " cancels"; }
  catch (const std::bad_alloc &) { HostScope h; got = "std::bad_alloc"; return how == 4; }
  catch (const std::exception &e) { HostScope h; got = fmt("std::exception(%s)", e.what()); return false; }
  catch (const Plain &e) { HostScope h; got = fmt("Plain(%llu)", (unsigned long long)e.token); return how == 1 && e.token == token; }
  catch (int e) { HostScope h; got = fmt("int %d", e); return how == 2 && e == (int)token; }
  catch (const std::string &e) { HostScope h; got = "string " + e; return how == 3 && e == std::to_string(token); }
  catch (...) { HostScope h; got = "something else"; return false; }
}
struct Site { Spec s; Alone ref; u64 at = 0; u32 how = 0; u64 token = 0; bool cancel = false; u64 inner_at = 0; };
// Runs site k with the remaining sites inside its operator; `depth` sites in all.
struct Nest {
  std::vector<Site> &w; u64 cancelled = 0, through = 0;
  // The exception of the innermost site may leave `levels` more sites before somebody catches it.
  u32 levels = 0;
  void level(size_t k) { if (w[k].s.complex) go<CTensor>(k); else go<RTensor>(k); }
  template <class T> void go(size_t k) {
    Site &x = w[k]; u64 s0 = heap_serial();
    {
    Operands<T> o(x.s); Out before, out; before = o.c.digest();
    bool last = k + 1 == w.size(), leaves = x.cancel || (!last && escapes(k));
    std::function<void()> attempt = [&] {
      T *pv = lib([&] { return new T(o.x); }); Op<T> op{&o.a};
      op.before = [&](u64 n, const T &) {
        if (x.cancel && n == x.at) throw_it(x.how, x.token);
        if (!last && n == x.inner_at) level(k + 1);
      };
      u64 s1 = heap_serial(); std::string got;
      if (leaves) {
        Site &y = w.back(); const Site &src = x.cancel ? x : y;
        bool ok = catches(src.how, src.token, [&] { solve_with<T>(x.s, op, o.b, o.x, *pv, out); }, got);
        HostScope h; std::string d; u64 n;
        if (!ok) violate("wrong-exception", "the operator of %s threw kind %u, token %llu at call %llu; the caller saw %s", describe(x.s).c_str(), src.how, (unsigned long long)src.token, (unsigned long long)(x.cancel ? x.at : x.inner_at), got.c_str());
        bool in_place = x.s.kind == POWER;
        if (in_place && (ix)pv->size() != x.s.n) violate("argument-lost", "%s cancelled at call %llu left a vector of %ld elements instead of %ld", describe(x.s).c_str(), (unsigned long long)op.calls, (long)pv->size(), (long)x.s.n);
        // whatever was allocated since belongs to the vector that eig_power works on, or to nobody
        if (!in_place) { Out vo, xo; vo.t(*pv); xo.t(o.x); if (!(vo == xo)) violate("argument-changed", "%s cancelled at call %llu changed its vector", describe(x.s).c_str(), (unsigned long long)op.calls); }
        lib([&] { if (in_place) { T fresh(*pv); for (ix q = 0; q < fresh.size(); q++) fresh.at_seq(q) = 1.0; *pv = fresh; } delete pv; });
        if ((n = heap_leaked_since(me(), s1, &d))) violate("leak", "%llu blocks remain of %s cancelled at call %llu:%s", (unsigned long long)n, describe(x.s).c_str(), (unsigned long long)(x.cancel ? x.at : x.inner_at), d.c_str());
        if (!(o.c.digest() == before)) violate("argument-changed", "%s cancelled at call %llu changed its arguments", describe(x.s).c_str(), (unsigned long long)op.calls);
        cancelled++; event(31, k, op.calls); count("fault:callback exception");
      } else {
        lib([&] { solve_with<T>(x.s, op, o.b, o.x, *pv, out); delete pv; });
        HostScope h;
        if (op.calls != x.ref.calls || !(out == x.ref.out)) violate("disturbed", "%s with cancelled solves in its operator gives another result (%llu calls, alone %llu; %s)", describe(x.s).c_str(), (unsigned long long)op.calls, (unsigned long long)x.ref.calls, diff(out, x.ref.out).c_str());
      }
    };
    attempt();
    if (leaves) {                              // and again, without the exception
      HostScope h; Out again; u64 calls = 0;
      lib([&] { T v(o.x); Op<T> op{&o.a}; solve_with<T>(x.s, op, o.b, o.x, v, again); calls = op.calls; });
      if (calls != x.ref.calls || !(again == x.ref.out)) violate("disturbed", "%s gives another result after it was cancelled at call %llu: %llu calls, alone %llu; %s", describe(x.s).c_str(), (unsigned long long)(x.cancel ? x.at : x.inner_at), (unsigned long long)calls, (unsigned long long)x.ref.calls, diff(again, x.ref.out).c_str());
      if (!(o.c.digest() == before)) violate("argument-changed", "%s changed its arguments", describe(x.s).c_str());
    }
    if (leaves && k && rethrow(k)) { const Site &src = w.back(); HostScope h; through++; lib_throw(src.how, src.token); }
    }
    std::string d; u64 n = heap_leaked_since(me(), s0, &d); HostScope h;
    if (n) violate("leak", "%s: %llu blocks:%s", describe(x.s).c_str(), (unsigned long long)n, d.c_str());
  }
  bool escapes(size_t k) const { return w.back().cancel && w.size() - 1 - k <= levels; }
  bool rethrow(size_t k) const { return w.back().cancel && w.size() - k <= levels; }
  static void lib_throw(u32 how, u64 token) { throw_it(how, token); }
};
void cancel() {
  u32 depth = 1 + choose(3); std::vector<Site> w(depth); bool arp = false;
  for (u32 k = 0; k < depth; k++) {
    w[k].s = choose_spec(!arp); if (w[k].s.kind == EIGS && w[k].s.n > 4) arp = true;
    alone(w[k].s, w[k].ref); if (!w[k].ref.calls) violate("stopped", "%s never called its operator", describe(w[k].s).c_str());
    w[k].inner_at = 1 + choose((u32)w[k].ref.calls);
  }
  Site &last = w.back(); last.cancel = true; last.at = flip(1, 3) ? 1 : flip(1, 3) ? last.ref.calls : 1 + choose((u32)last.ref.calls); last.how = choose(5); last.token = 1 + choose(1 << 20);
  Nest nest{w}; nest.levels = depth > 1 ? choose(depth) : 0;
  cfg.fill = (u8)choose(256); u32 repeat = 1 + choose(3);
  Proc *p = spawn("program", [&] { for (u32 r = 0; r < repeat; r++) nest.level(0); });
  run();
  if (p->end != End::Returned) violate("stopped", "the program ended (%s): %s %s", end_name(p->end), p->what.c_str(), p->out.c_str());
  if (nest.cancelled) nontrivial();
  count("solves left by an exception", nest.cancelled); count("exceptions through an outer solve", nest.through);
  std::string d; for (auto &x : w) { d += " " + describe(x.s); event(32, mix(x.s.seed, x.s.kind), x.s.n); }
  sample(fmt("cancelled at call %llu of %llu, kind %u, through %u more solves:%s", (unsigned long long)last.at, (unsigned long long)last.ref.calls, last.how, nest.levels, d.c_str()));
}
// Threads whose solves are cancelled while others run.
void cancel_threads() {
  u32 threads = 2 + choose(3); std::vector<Site> w(threads); bool arp = false; std::vector<u8> done(threads);
  for (Site &x : w) { x.s = choose_spec(!arp); if (x.s.kind == EIGS && x.s.n > 4) arp = true; alone(x.s, x.ref); x.cancel = flip(2, 3); x.at = 1 + choose((u32)x.ref.calls); x.how = choose(5); x.token = 1 + choose(1 << 20); x.inner_at = 1 + choose((u32)x.ref.calls); }
  cfg.fill = (u8)choose(256); cfg.bb_gap = 1 + small(2000); cfg.call_gap = flip(1, 2) ? 1 + small(40) : 0; cfg.switch_num = 1; cfg.switch_den = 1 + choose(4); u64 cancelled = 0, calls = 0;
  for (Site &x : w) calls += x.ref.calls;
  if (calls > 200) { cfg.bb_gap = std::max<u32>(cfg.bb_gap, (u32)calls * 4); if (cfg.call_gap) cfg.call_gap = std::max<u32>(cfg.call_gap, (u32)calls / 4); }
  Proc *p = spawn("program", [&] { for (;;) { bool all = true; for (u8 d : done) all = all && d; if (all) return; yield(); } });
  for (u32 t = 0; t < threads; t++) spawn_thread(p, fmt("t%u", t), [&, t] {
    Site &x = w[t];
    auto body = [&](auto *tag) {
      typedef typename std::remove_pointer<decltype(tag)>::type T;
      Operands<T> o(x.s); Out before = o.c.digest(), out;
      for (u32 round = 0; round < 2; round++) {
        bool c = x.cancel && !round; std::string got; out = Out();
        lib([&] { T v(o.x); Op<T> op{&o.a}; op.before = [&](u64 n, const T &) { if (n == x.inner_at) yield(); if (c && n == x.at) throw_it(x.how, x.token); };
        if (c) { bool ok = catches(x.how, x.token, [&] { solve_with<T>(x.s, op, o.b, o.x, v, out); }, got); HostScope h; cancelled++; count("fault:callback exception"); if (!ok) violate("wrong-exception", "the operator of %s threw kind %u; the caller saw %s", describe(x.s).c_str(), x.how, got.c_str()); }
        else { solve_with<T>(x.s, op, o.b, o.x, v, out); HostScope h; if (!(out == x.ref.out)) violate("disturbed", "%s gives another result while solves of other threads are cancelled", describe(x.s).c_str()); } });
        HostScope h; if (!(o.c.digest() == before)) violate("argument-changed", "%s changed its arguments", describe(x.s).c_str());
      }
    };
    if (x.s.complex) body((CTensor *)0); else body((RTensor *)0);
    done[t] = 1;
  });
  run(); cfg.bb_gap = cfg.call_gap = 0;
  if (p->end != End::Returned) violate("stopped", "the program ended (%s): %s", end_name(p->end), p->out.c_str());
  std::string d; u64 n = heap_leaked_since(p, 0, &d); (void)n;
  if (cancelled) nontrivial();
  for (auto &x : w) event(33, mix(x.s.seed, x.s.kind), x.at);
  sample(fmt("%u threads, %llu solves cancelled, first %s", threads, (unsigned long long)cancelled, describe(w[0].s).c_str()));
}

// ---- C15: values
template <class T> struct Keeper {
  struct Kept { T t; Out then; };
  std::vector<Kept *> kept; u64 writes = 0;
  void keep(const T &t) { HostScope h; Kept *k = lib([&] { return new Kept{t, Out()}; }); k->then.t(k->t); kept.push_back(k); }
  void verify(const char *what) { for (size_t k = 0; k < kept.size(); k++) { Out now; now.t(kept[k]->t); if (!(now == kept[k]->then)) violate("kept-changed", "%s: tensor %zu of %zu that the operator kept has changed", what, k, kept.size()); } }
  void write(size_t k, double v) { lib([&] { T &t = kept[k]->t; if (t.size()) t.at_seq(0) = v; }); kept[k]->then = Out(); kept[k]->then.t(kept[k]->t); writes++; }
  void drop(size_t k) { Kept *p = kept[k]; kept.erase(kept.begin() + (long)k); lib([&] { delete p; }); }
  ~Keeper() { for (auto p : kept) lib([&] { delete p; }); }
};
template <class T> void values_t(const Spec &s, bool identity) {
  Alone ref; u64 calls = 0, kept = 0, writes = 0; std::vector<u64> returned;
  Proc *p0 = spawn("alone", [&] { Operands<T> o(s); if (identity) lib([&] { o.a = T::eye(s.n); }); lib([&] { T v(o.x); Op<T> op{&o.a}; if (identity) op.instead = [&](u64, const T &x) { T y(x.dimensions()); for (ix q = 0; q < y.size(); q++) y.at_seq(q) = x[q]; return y; }; solve_with<T>(s, op, o.b, o.x, v, ref.out); ref.calls = op.calls; }); });
  run(); if (p0->end != End::Returned) violate("stopped", "%s ended the program: %s", describe(s).c_str(), p0->out.c_str());
  u64 plan = ((u64)choose(1u << 30) << 20) + choose(1u << 20); cfg.fill = (u8)choose(256);
  Proc *p = spawn("program", [&] {
    Operands<T> o(s); if (identity) lib([&] { o.a = T::eye(s.n); });
    Out before = o.c.digest(), out; u64 s0 = heap_serial();
    {
      Keeper<T> keep; u64 r = plan; auto rnd = [&](u32 n) { r = mix(r + 1); return (u32)(r >> 20) % n; };
      lib([&] {
        T v(o.x), stored; Op<T> op{&o.a};
        op.instead = [&](u64 n, const T &x) -> T {
          { HostScope h; keep.verify("between calls"); if (rnd(3)) { keep.keep(x); kept++; } if (keep.kept.size() && !rnd(3)) keep.write(rnd((u32)keep.kept.size()), 77.0 + (double)n); if (keep.kept.size() > 6) keep.drop(rnd((u32)keep.kept.size())); returned.push_back(0); }
          u32 how = rnd(6); if (identity && rnd(2)) how = 6 + rnd(3);
          { HostScope h; returned.back() = how; }
          if (how == 6) return x;                                   // its argument
          if (how == 7) { T y(x); { HostScope h; keep.keep(y); } return y; }
          if (how == 8) { stored = x; return stored; }
          T y;
          if (identity) { y = T(x.dimensions()); for (ix q = 0; q < y.size(); q++) y.at_seq(q) = x[q]; } else y = mmult(o.a, x);
          switch (how) {
          case 0: return y;                                         // fresh
          case 1: { HostScope h; keep.keep(y); } return y;          // shared with a kept tensor
          case 2: stored = y; return stored;                        // stored, overwritten by the next call
          case 3: { T big(s.n, 3); big.at(tensor::range(), tensor::range(1)) = y; { HostScope h; keep.keep(big); } return reshape(T(big(tensor::range(), tensor::range(1))), s.n); }
          case 4: { T z = reshape(y, 1, s.n); { HostScope h; keep.keep(z); } return reshape(z, s.n); }
          default: { T z(x); for (ix q = 0; q < z.size(); q++) z.at_seq(q) = y[q]; { HostScope h; keep.keep(z); } return z; } // a copy of its argument, overwritten
          }
        };
        solve_with<T>(s, op, o.b, o.x, v, out); calls = op.calls;
      });
      HostScope h; keep.verify("after the solve"); writes = keep.writes;
      if (calls != ref.calls || !(out == ref.out)) violate("disturbed", "%s gives another result when its operator keeps, overwrites or shares vectors (%llu calls, otherwise %llu): %s", describe(s).c_str(), (unsigned long long)calls, (unsigned long long)ref.calls, diff(out, ref.out).c_str());
      if (!(o.c.digest() == before)) violate("argument-changed", "%s changed its arguments", describe(s).c_str());
      lib([&] { for (int q = 0; q < 8; q++) { T junk((ix)s.n); junk.fill_with((typename T::elt_t)(double)q); T more(junk); more.at_seq(0) = 5.0; } }); // memory is used again
      keep.verify("later");
    }
    std::string d; u64 n = heap_leaked_since(me(), s0, &d); HostScope h; if (n) violate("leak", "%s: %llu blocks:%s", describe(s).c_str(), (unsigned long long)n, d.c_str());
  });
  run(); if (p->end != End::Returned) violate("stopped", "%s ended the program: %s", describe(s).c_str(), p->out.c_str());
  if (kept) nontrivial(); count("kept vectors", kept); count("writes to kept vectors", writes);
  for (u64 h : returned) event(34, h);
  event(35, mix(s.seed, s.kind), calls);
  sample(fmt("%s, %llu calls, %llu vectors kept, %llu writes%s", describe(s).c_str(), (unsigned long long)calls, (unsigned long long)kept, (unsigned long long)writes, identity ? ", identity" : ""));
}
void values() { Spec s = choose_spec(true); bool id = flip(1, 4); if (s.complex) values_t<CTensor>(s, id); else values_t<RTensor>(s, id); }

// ---- C15: truth
double len(const RTensor &t) { return lib([&] { return norm2(t); }); }
double len(const CTensor &t) { return lib([&] { return norm2(t); }); }
template <class T> T matrix(Ctx &c, long n, u32 how, bool symmetric) {
  typedef typename T::elt_t E;
  T a(n, n);
  for (ix k = 0; k < a.size(); k++) a.at_seq(k) = c.num(E());
  if (symmetric) { T b = a + adjoint(a); a = b; }
  switch (how) {
  case 1: { double f = 1; for (long i = 0; i < n; i++) { for (long j = 0; j < n; j++) { double g = std::pow(10.0, -(double)(i > j ? i : j) * 8 / (double)n); a.at(i, j) = a(i, j) * E(g); } } (void)f; break; }   // graded
  case 2: { for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) a.at(i, j) = i == j ? E(1.0 + 1e-9 * (double)i) : E(0.0); break; }                                                    // clustered
  case 3: { for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) a.at(i, j) = i == j ? E((double)(i / 2)) : E(0.0); break; }                                                          // pairs
  case 4: { T u((ix)n, (ix)1); for (long i = 0; i < n; i++) u.at(i, 0) = a(i, 0); a = mmult(u, adjoint(u)); break; }                                                                         // rank one
  case 5: { for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) a.at(i, j) = i == j ? E(2.0) : (i - j == 1 || j - i == 1) ? E(-1.0) : E(0.0); break; }                                // chain
  case 6: a = T::eye(n); break;
  default: break;
  }
  return a;
}
template <class T> void truth_t(bool symmetric) {
  bool real_ = std::is_same<T, RTensor>::value; long n = flip(1, 4) ? 1 + choose(4) : flip(1, 2) ? 5 + choose(16) : 21 + choose(30);
  u32 how = choose(7), type = choose(real_ ? 4 : 6), neig = 1 + choose((u32)std::min<long>(3, std::max<long>(n - 2, 1))), api = choose(4); u64 seed = ((u64)choose(1u << 30) << 20) + choose(1u << 20); bool start = flip(1, 2); u32 maxit = 1 + choose(30); double tol = flip(1, 2) ? 1e-6 : 0.0;
  bool claims = flip(1, 2), ended = false; u64 calls = 0; int status = -1; (void)real_;   // the flag may hold anything before
  if (n <= 4 && api == 3) api = 0;
  Proc *p = spawn("program", [&] {
    Ctx c(seed); T a, vecs, vals; lib([&] { a = matrix<T>(c, n, how, symmetric); if (start) { vecs = T((ix)n); for (ix k = 0; k < n; k++) vecs.at_seq(k) = c.num(typename T::elt_t()); } });
    lib([&] {
      Op<T> op{&a};
      switch (api) {
      case 0: vals = linalg::eigs(a, (int)type, neig, &vecs, &claims); break;
      case 1: vals = linalg::eigs(Sparse<typename T::elt_t>(a), (int)type, neig, &vecs, &claims); break;
      case 2: vals = linalg::eigs(op, (size_t)n, (int)type, neig, &vecs, &claims); calls = op.calls; break;
      default: {
        linalg::Arpack<T> arp((size_t)n, (linalg::EigType)type, neig); if (start) arp.set_start_vector(vecs.begin_const()); arp.set_maxiter(maxit); if (tol > 0) arp.set_tolerance(tol);
        while (arp.update() < linalg::Arpack<T>::Finished) { calls++; arp.set_y(mmult(a, arp.get_x())); HostScope h; if (calls > (maxit + 2) * 60) violate("too-many-iterations", "ARPACK with n=%ld and at most %u iterations called the operator %llu times", n, maxit, (unsigned long long)calls); }
        status = arp.get_status(); claims = status == (int)linalg::Arpack<T>::Finished;
        if (claims) vals = arp.get_data(&vecs);
      } }
    });
    HostScope h; ended = true;
    // a separated spectrum and a complete basis: there is nothing to stop it from converging
    if (!claims && symmetric && how == 0 && api != 3 && n <= 20) violate("false-failure", "eigs (interface %u, n=%ld, which %u, %u values) says that it did not converge", api, n, type, neig);
    if (!claims) return;
    double scale = len(a); if (api != 3) tol = 0; bool shape = lib([&] { return vals.size() == (ix)neig && vecs.rank() == 2 && vecs.rows() == (ix)n && vecs.columns() == (ix)neig; });
    if (!shape) violate("shape", "eigs (interface %u) n=%ld neig=%u: wrong dimensions of the result", api, n, neig);
    for (u32 k = 0; k < neig; k++) {
      T v, res; lib([&] { v = T(vecs(tensor::range(), tensor::range((ix)k))); v = reshape(v, n); res = mmult(a, v) - vals[k] * v; });
      double l = len(v), r = len(res);
      if (!(l < 1 + 1e-6 && l > (n <= 4 ? 0.4 : 1 - 1e-6))) violate("not-an-eigenpair", "eigs (interface %u, matrix %u, n=%ld, which %u) reports convergence, vector %u has norm %g", api, how, n, type, k, l);
      if (!(r <= (tol > 0 ? 1e-4 : 1e-7) * (scale + 1e-3))) violate("not-an-eigenpair", "eigs (interface %u, matrix %u, n=%ld, which %u) reports convergence, but A*v[%u] differs from lambda*v by %g, |A| = %g", api, how, n, type, k, r, scale);
    }
    if (symmetric && how == 0 && api != 3 && n <= 20) {   // with a complete basis it is also the one that was asked for
      RTensor w = lib([&] { return linalg::eig_sym(a); }); double want = 0; bool first = true;
      for (ix k = 0; k < n; k++) { double x = lib([&] { return (double)w[k]; }), f = type == 0 ? std::fabs(x) : type == 1 ? -std::fabs(x) : type == 2 ? x : type == 3 ? -x : 0; if (first || f > want) { want = f; first = false; } }
      double best = 0; first = true;
      for (u32 k = 0; k < neig; k++) { double x = lib([&] { return (double)std::real(cdouble(vals[k])); }), f = type == 0 ? std::fabs(x) : type == 1 ? -std::fabs(x) : type == 2 ? x : type == 3 ? -x : 0; if (first || f > best) { best = f; first = false; } }
      if (type < 4 && !(std::fabs(best - want) <= 1e-6 * scale)) violate("wrong-eigenvalue", "eigs (interface %u, n=%ld, which %u, %u values) reports convergence to %.12g, the spectrum's extreme is %.12g", api, n, type, neig, best, want);
    }
  });
  run(); if (p->end != End::Returned || !ended) { claims = false; if (p->end == End::Aborted || p->end == End::Exception) { count("solves that stopped the program"); } else violate("stopped", "eigs ended the program (%s): %s", end_name(p->end), p->out.c_str()); }
  nontrivial(); if (claims) count("converged"); else { count("not converged"); probe("eigs said that it did not converge"); }
  event(36, mix(seed, how * 64 + type * 8 + api), calls);
  sample(fmt("eigs<%s> interface %u matrix %u n=%ld which %u: %s", real_ ? "real" : "complex", api, how, n, type, claims ? "converged" : "not converged"));
}
template <class T> void limits_t() {          // cgs and eig_power: bounds and truth
  Spec s = choose_spec(false); s.complex = !std::is_same<T, RTensor>::value; s.n = 2 + choose(9); bool start = flip(2, 3); u64 calls = 0; double tol = s.tol > 0 ? s.tol : 1e-11;
  Proc *p = spawn("program", [&] {
    Operands<T> o(s); T x, v; typename T::elt_t eig = 0.0;
    lib([&] {
      Op<T> op{&o.a}; if (start) v = o.x;
      if (s.kind == CGS) x = s.use_limit ? linalg::cgs(op, o.b, start ? &o.x : (const T *)0, s.limit, s.tol) : linalg::cgs(op, o.b, start ? &o.x : (const T *)0);
      else eig = s.use_limit ? linalg::eig_power(op, (size_t)s.n, &v, (size_t)s.limit, s.tol) : linalg::eig_power(op, (size_t)s.n, &v);
      calls = op.calls;
    });
    HostScope h; double scale = len(o.a); u64 limit = s.use_limit ? (u64)s.limit : s.kind == CGS ? (u64)s.n : (u64)std::max<long>(20, s.n);
    if (calls > limit + 2) violate("too-many-iterations", "%s with %llu iterations at most called its operator %llu times", describe(s).c_str(), (unsigned long long)limit, (unsigned long long)calls);
    if (s.kind == CGS) {
      double r = len(lib([&] { return T(o.b - mmult(o.a, x)); }));
      double t = s.use_limit && s.tol > 0 ? s.tol : 1e-10;
      if ((calls < limit + 2 || limit >= (u64)s.n) && !(r <= 10 * t + 1e-9 * (1 + scale))) violate("not-a-solution", "%s ended after %llu calls with residual %g", describe(s).c_str(), (unsigned long long)calls, r);
    } else {
      double l = len(v), e = std::abs(eig), r = len(lib([&] { return T(mmult(o.a, v) - eig * v); }));
      if (!(std::fabs(l - 1) < 1e-9)) violate("not-normalised", "%s returned a vector of norm %g", describe(s).c_str(), l);
      if (!(e <= scale * (1 + 1e-9))) violate("not-an-eigenvalue", "%s returned %g, beyond the norm %g", describe(s).c_str(), e, scale);
      if (calls < limit + 1 && !(r <= (100 * std::sqrt(tol) + 1e-6) * scale)) violate("not-an-eigenpair", "%s stopped early, after %llu calls, with A*v - lambda*v of norm %g", describe(s).c_str(), (unsigned long long)calls, r);
    }
  });
  run(); if (p->end != End::Returned) violate("stopped", "%s ended the program: %s", describe(s).c_str(), p->out.c_str());
  nontrivial(); event(37, mix(s.seed, s.kind), calls);
  sample(fmt("%s took %llu calls", describe(s).c_str(), (unsigned long long)calls));
}
template <class T> void breakdown_t() {       // an operator that goes dead, from some call on
  Spec s = choose_spec(false); s.kind = CGS; s.complex = !std::is_same<T, RTensor>::value; s.n = 2 + choose(9); Alone ref; run_alone<T>(s, ref);
  u64 from = 2 + choose((u32)ref.calls), calls = 0;
  Proc *p = spawn("program", [&] {
    Operands<T> o(s); Out out;
    lib([&] { T v(o.x); Op<T> op{&o.a}; op.instead = [&](u64 n, const T &x) -> T { calls = n; if (n >= from) { HostScope h; count("fault:operator returns zero"); } return n >= from ? T(T::zeros(igen << s.n)) : T(mmult(o.a, x)); }; solve_with<T>(s, op, o.b, o.x, v, out); });
    HostScope h; if (calls >= from) violate("passed-off", "%s returned a result although its operator returned zero at call %llu of %llu", describe(s).c_str(), (unsigned long long)from, (unsigned long long)calls);
  });
  run(); if (p->end != End::Returned && calls < from) violate("stopped", "%s ended the program: %s", describe(s).c_str(), p->out.c_str());
  if (calls >= from) nontrivial(); event(38, mix(s.seed, from), calls);
  sample(fmt("%s, zero from call %llu, %llu calls: %s", describe(s).c_str(), (unsigned long long)from, (unsigned long long)calls, end_name(p->end)));
}
}
SCENARIO(C14, cancel, 3) { cancel(); }
SCENARIO(C14, cancel_threads, 1) { cancel_threads(); }
SCENARIO(C15, values, 3) { values(); }
SCENARIO(C15, truth, 2) { if (flip(1, 2)) truth_t<RTensor>(true); else truth_t<CTensor>(flip(1, 2)); }
SCENARIO(C15, breakdown, 1) { if (flip(1, 2)) breakdown_t<RTensor>(); else breakdown_t<CTensor>(); }
SCENARIO(C15, limits, 1) { if (flip(1, 2)) limits_t<RTensor>(); else limits_t<CTensor>(); }
SCENARIO(C15Knonsymmetric, truth, 1) { truth_t<RTensor>(false); }
