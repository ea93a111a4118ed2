// C11: histories over variables that share storage, against a model without sharing.
#include "core.h"
#include "fs.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <complex>
#include <tensor/tensor.h>
#include <tensor/sparse.h>
using namespace sim;
using namespace tensor;
namespace {
typedef std::complex<double> Z;
typedef tensor::index ix;
enum Kind { R, C, I, V };                    // RTensor, CTensor, Indices, Vector<double>
const char *KN[] = {"RTensor", "CTensor", "Indices", "Vector"};
struct Mod { std::vector<long> d; std::vector<Z> x; long n() const { return (long)x.size(); } };
long prod(const std::vector<long> &d) { if (d.empty()) return 0; long n = 1; for (long k : d) n *= k; return n; }
struct Slot { Kind kind; RTensor r; CTensor c; Indices i; Vector<double> v; Slot(Kind k) : kind(k) {} };
struct Pool { std::vector<Slot *> s; std::vector<Mod> m; };

Z rnd() { return Z((double)choose(19) - 9, (double)choose(9) - 4); }
Z part(Kind k, Z z) { return k == C ? z : Z(z.real(), 0); }
std::vector<long> rnd_dims() {
  static const long S[] = {1, 2, 3, 4, 0, 5}; std::vector<long> d(flip(1, 6) ? 4 + choose(3) : 1 + choose(4)); long n = 1;
  for (long &x : d) { x = S[small(6)]; if (n * x > 40) x = 1; n *= x ? x : 1; }
  return d;
}
std::vector<long> factor(long n) {           // dimensions with product n > 0
  std::vector<long> d; u32 k = choose(4);
  while (k-- && n > 0) { std::vector<long> f; for (long a = 1; a <= n; a++) if (n % a == 0) f.push_back(a); long a = pick(f); d.push_back(a); n /= a; }
  d.push_back(n); if (flip(1, 2)) std::swap(d[0], d.back()); return d;
}
Indices to_ix(const std::vector<long> &d) { Indices o((ix)d.size()); for (size_t k = 0; k < d.size(); k++) o.at(k) = d[k]; return o; }
template <class T> struct Tr;
template <> struct Tr<RTensor> { static const Kind k = R; static RTensor &of(Slot *s) { return s->r; } static double num(Z z) { return z.real(); } typedef double e; };
template <> struct Tr<CTensor> { static const Kind k = C; static CTensor &of(Slot *s) { return s->c; } static Z num(Z z) { return z; } typedef cdouble e; };

// f(i1, ..., ir) for the r elements of v, 1 <= r <= 6
template <class F, class E> decltype(auto) spread(F &&f, const std::vector<E> &v) {
  switch (v.size()) { case 1: return f(v[0]); case 2: return f(v[0], v[1]); case 3: return f(v[0], v[1], v[2]); case 4: return f(v[0], v[1], v[2], v[3]); case 5: return f(v[0], v[1], v[2], v[3], v[4]); default: return f(v[0], v[1], v[2], v[3], v[4], v[5]); }
}
long size_of(const Slot *s) { return s->kind == R ? s->r.size() : s->kind == C ? s->c.size() : s->kind == I ? s->i.size() : s->v.size(); }
Z elem(const Slot *s, long k) { return s->kind == R ? Z(s->r[k]) : s->kind == C ? Z(s->c[k]) : s->kind == I ? Z((double)s->i[k]) : Z(s->v[k]); }
std::string text(const std::vector<long> &d) { std::string s = "("; for (size_t k = 0; k < d.size(); k++) s += fmt("%s%ld", k ? "," : "", d[k]); return s + ")"; }
void compare(const Pool &p, const char *what, long dest) {
  HostScope h;
  for (size_t k = 0; k < p.s.size(); k++) {
    const Slot *s = p.s[k]; const Mod &m = p.m[k]; const char *who = (long)k == dest ? "its own" : "another";
    if (size_of(s) != m.n()) violate((long)k == dest ? "wrong-result" : "other-changed", "%s: %s variable #%zu (%s) has %ld elements instead of %ld", what, who, k, KN[s->kind], size_of(s), m.n());
    if (s->kind == R || s->kind == C) {
      const Indices &d = s->kind == R ? s->r.dimensions() : s->c.dimensions(); std::vector<long> e(d.begin(), d.end());
      if (e != m.d) violate((long)k == dest ? "wrong-result" : "other-changed", "%s: %s variable #%zu (%s) has dimensions %s instead of %s", what, who, k, KN[s->kind], text(e).c_str(), text(m.d).c_str());
    }
    for (long j = 0; j < m.n(); j++) if (elem(s, j) != m.x[j])
      violate((long)k == dest ? "wrong-result" : "other-changed", "%s: element %ld of %s variable #%zu (%s%s) is %g%+gi instead of %g%+gi", what, j, who, k, KN[s->kind], text(m.d).c_str(),
              elem(s, j).real(), elem(s, j).imag(), m.x[j].real(), m.x[j].imag());
  }
}
// selections along one dimension
struct Sel { u32 form; long a, b, st; std::vector<long> ix; };
Sel rnd_sel(long n, const std::vector<long> *list = nullptr) {
  Sel s{choose(4), 0, 0, 1, {}};
  if (!n && s.form == 1) s.form = 0;
  if (s.form == 2 && (!n || flip(1, 12))) { s.a = n ? choose((u32)n) : 0; s.b = s.a - 1; s.st = 1 + choose(3); return s; }   // nothing
  if (s.form == 1) { s.a = choose(n); s.ix = {s.a}; }
  if (s.form == 2) { s.a = choose(n); s.b = s.a + choose(n - s.a); s.st = 1 + choose(3); for (long k = s.a; k <= s.b; k += s.st) s.ix.push_back(k); }
  if (s.form == 3) { u32 c = n ? choose(4) : 0; for (u32 k = 0; k < c; k++) s.ix.push_back(choose(n)); }
  if (s.form == 0) for (long k = 0; k < n; k++) s.ix.push_back(k);
  return s;
}
PRange make(const Sel &s, const Indices &given) {
  if (s.form == 1) return range(s.a);
  if (s.form == 2) return s.st == 1 ? range(s.a, s.b) : range(s.a, s.b, s.st);
  if (s.form == 3) return range(given);
  return range();
}
std::vector<long> cross(const Sel *s, size_t r, const std::vector<long> &d) {
  std::vector<long> o = {0}; long f = 1; std::vector<std::vector<long>> parts;
  std::vector<long> out; long total = 1; for (size_t k = 0; k < r; k++) total *= (long)s[k].ix.size();
  for (long t = 0; t < total; t++) { long u = t, at = 0; f = 1; for (size_t k = 0; k < r; k++) { at += s[k].ix[u % s[k].ix.size()] * f; u /= (long)s[k].ix.size(); f *= d[k]; } out.push_back(at); }
  return out;
}
Mod mod_fold(const Mod &a, int n1, const Mod &b, int n2, bool cj, bool in) {
  long i = 1, l = a.d[n1], j = 1, k = 1, m = 1; Mod o;
  auto low = [](const std::vector<long> &d, int a, int b) { return std::vector<long>(d.begin() + a, d.begin() + b); };
  std::vector<long> di = low(a.d, 0, n1), dj = low(a.d, n1 + 1, (int)a.d.size()), dk = low(b.d, 0, n2), dm = low(b.d, n2 + 1, (int)b.d.size());
  for (long x : di) i *= x; for (long x : dj) j *= x; for (long x : dk) k *= x; for (long x : dm) m *= x;
  std::vector<std::vector<long>> order = in ? std::vector<std::vector<long>>{dk, di, dj, dm} : std::vector<std::vector<long>>{di, dj, dk, dm};
  for (auto &v : order) o.d.insert(o.d.end(), v.begin(), v.end());
  if (o.d.empty()) o.d = {1};
  o.x.assign(i * j * k * m, 0);
  for (long M = 0; M < m; M++) for (long K = 0; K < k; K++) for (long J = 0; J < j; J++) for (long I_ = 0; I_ < i; I_++) {
    Z z = 0; for (long L = 0; L < l; L++) { Z x = a.x[I_ + i * (L + l * J)]; z += (cj ? std::conj(x) : x) * b.x[K + k * (L + l * M)]; }
    (in ? o.x[K + k * (I_ + i * (J + j * M))] : o.x[I_ + i * (J + j * (K + k * M))]) = z; }
  return o;
}
bool small_values(const Mod &m, double lim = 1e5) { for (Z z : m.x) if (!(std::abs(z.real()) < lim && std::abs(z.imag()) < lim)) return false; return true; }

// Dimensions of an empty tensor.
std::vector<long> nothing() { std::vector<long> d(1 + choose(3)); for (long &x : d) x = choose(4); d[choose((u32)d.size())] = 0; return d; }
// One history.
struct Hist {
  Pool p; std::string what; bool inject; std::vector<std::vector<double>> foreign; u32 oom = 0;
  // Run an operation of the library; false if it ran out of memory.
  template <class F> bool op(F &&f) {
    if (inject && flip(1, 3)) self()->fail_alloc_in = 1 + small(6);
    bool ok = true;
    try { lib([&] { f(); }); } catch (std::bad_alloc &) { ok = false; oom++; }
    self()->fail_alloc_in = -1;
    return ok;
  }
  void say(const char *f, ...) __attribute__((format(printf, 2, 3))) { va_list ap; va_start(ap, f); char b[256]; vsnprintf(b, sizeof b, f, ap); va_end(ap); what = b; u64 hh = 0; for (char *q = b; *q; q++) hh = mix(hh, (u8)*q); event(12, hh); note("%s", b); }
  u32 some(Kind k) { std::vector<u32> v; for (u32 q = 0; q < p.s.size(); q++) if (p.s[q]->kind == k) v.push_back(q); return pick(v); }
  bool has(Kind k) { for (auto *s : p.s) if (s->kind == k) return true; return false; }
  Mod rnd_mod(Kind k) { Mod m; m.d = k == R || k == C ? rnd_dims() : std::vector<long>{(long)choose(6)}; m.x.resize(prod(m.d)); for (Z &z : m.x) z = part(k, rnd()); return m; }
  template <class T> void put(u32 a, const T &t, const Mod &m);
  template <class T> void tensor_op(u32 a);
  void indices_op(u32 a); void vector_op(u32 a);
  template <class T> void fresh(u32 a);
  void refresh(u32 a);
};
template <class T> void Hist::fresh(u32 a) {
  typedef Tr<T> X; T &t = X::of(p.s[a]); Mod m = rnd_mod(X::k); u32 how = choose(9); bool ok = true;
  say("variable %u = new %s of form %u", a, text(m.d).c_str(), how);
  auto fill = [&](T &q) { for (long k = 0; k < m.n(); k++) q.at_seq(k) = X::num(m.x[k]); };
  switch (how) {
  case 0: ok = op([&] { T q(to_ix(m.d)); fill(q); t = q; }); break;
  case 1: { m.d.resize(2, 2); m.x.resize(prod(m.d)); ok = op([&] { T q(m.d[0], m.d[1]); fill(q); t = q; }); break; }
  case 2: { Z z = part(X::k, rnd()); std::fill(m.x.begin(), m.x.end(), z); ok = op([&] { T q(to_ix(m.d)); q.fill_with(X::num(z)); t = q; }); break; }
  case 3: std::fill(m.x.begin(), m.x.end(), 0); ok = op([&] { t = T::zeros(to_ix(m.d)); }); break;
  case 4: std::fill(m.x.begin(), m.x.end(), 1); ok = op([&] { t = T::ones(to_ix(m.d)); }); break;
  case 5: { long n = 1 + choose(4), c = 1 + choose(3); m.d = {n, c}; m.x.assign(n * c, 0); for (long k = 0; k < n && k < c; k++) m.x[k * n + k] = 1; ok = op([&] { t = T::eye(n, c); }); break; }
  case 6: { m.d = {m.n()}; ok = op([&] { std::vector<typename X::e> v; for (Z z : m.x) v.push_back(X::num(z)); t = T(v); }); break; }
  case 8: { if (m.d.size() > 1 || flip(1, 2)) { u32 kind = m.d.size() > 1 ? choose(3) : 0; if (m.d.size() < 2 && kind) kind = 0; if (kind) std::fill(m.x.begin(), m.x.end(), kind == 1 ? 0 : 1);
      ok = op([&] { auto make = [&](auto... k) { if constexpr (sizeof...(k) > 1) { if (kind == 1) return T(T::zeros(k...)); if (kind == 2) return T(T::ones(k...)); } return T(k...); }; T q = spread(make, m.d); if (!kind) fill(q); t = q; }); } else ok = false; break; }
  case 7: { m.d = {3}; m.x = {part(X::k, rnd()), part(X::k, rnd()), part(X::k, rnd())}; ok = op([&] { t = T(xgen << X::num(m.x[0]) << X::num(m.x[1]) << X::num(m.x[2])); }); break; }
  }
  if (ok) p.m[a] = m;
}
void Hist::refresh(u32 a) {
  if (p.s[a]->kind == R) fresh<RTensor>(a); else if (p.s[a]->kind == C) fresh<CTensor>(a);
  else if (p.s[a]->kind == I) { Mod m = rnd_mod(I); if (op([&] { Indices q((ix)m.n()); for (long k = 0; k < m.n(); k++) q.at(k) = (long)m.x[k].real(); p.s[a]->i = q; })) p.m[a] = m; }
  else { Mod m = rnd_mod(V); if (op([&] { Vector<double> q((ix)m.n()); for (long k = 0; k < m.n(); k++) q.at(k) = m.x[k].real(); p.s[a]->v = q; })) p.m[a] = m; }
}
const RTensor real_part(const RTensor &t) { return t; }
template <class T> void Hist::tensor_op(u32 a) {
  typedef Tr<T> X; typedef typename X::e e; Kind K = X::k;
  u32 b = some(K); T &ta = X::of(p.s[a]), &tb = X::of(p.s[b]); Mod &ma = p.m[a]; Mod mb = p.m[b]; long n = ma.n();
  u32 which = choose(40);
  bool ok;
  if (!small_values(ma) || !small_values(mb)) { fresh<T>(a); return; }
  switch (which) {
  case 0: fresh<T>(a); break;
  case 1: case 2: say("variable %u = variable %u", a, b); if (op([&] { ta = tb; })) ma = mb; break;
  case 3: { say("variable %u is destroyed and built again as a copy of %u", a, b); if (a == b) break;
    op([&] { T copy(tb); ta = copy; copy = T(); }); ma = mb; break; }
  case 4: case 5: if (n) { long k = choose(n); Z z = part(K, rnd()); say("element %ld of variable %u is set", k, a); if (op([&] { ta.at_seq(k) = X::num(z); })) ma.x[k] = z; } break;
  case 6: if (n && ma.d.size() <= 6) {       // one element, by all its indices
      std::vector<long> i; long at = 0, f = 1; for (long d : ma.d) { long k = choose((u32)d); at += k * f; f *= d; i.push_back(flip(1, 4) ? k - d : k); }
      Z z = part(K, rnd()); say("element %s of variable %u is set", text(i).c_str(), a); const T &ca = ta; e got{}, seen{}; std::vector<long> dim(i.size(), -1);
      lib([&] { got = spread([&](auto... k) -> e { return ca(k...); }, i); });
      if (op([&] { spread([&](auto... k) -> e & { return ta.at(k...); }, i) = X::num(z); })) {
        lib([&] { seen = spread([&](auto... k) -> e { return ca(k...); }, i); spread([&](auto... k) { ca.get_dimensions(k...); return 0; }, [&] { std::vector<ix *> v; for (long &x : dim) v.push_back(&x); return v; }()); });
        if (!(got == X::num(ma.x[at])) || !(seen == X::num(z)) || dim != ma.d) { HostScope h; violate("wrong-result", "%s: it reads %g%+gi before and %g%+gi after, with dimensions %s", what.c_str(), Z(got).real(), Z(got).imag(), Z(seen).real(), Z(seen).imag(), text(dim).c_str()); }
        ma.x[at] = z; } }
    break;
  case 7: { Z z = part(K, rnd()); say("variable %u is written through its iterators", a); if (op([&] { for (typename T::iterator it = ta.begin(); it != ta.end(); ++it) *it = X::num(z); })) for (Z &q : ma.x) q = z; break; }
  case 8: { Z z = part(K, rnd()); say("variable %u is filled", a); if (op([&] { ta.fill_with(X::num(z)); })) for (Z &q : ma.x) q = z; break; }
  case 9: { std::vector<long> d = n ? factor(n) : nothing(); say("variable %u is reshaped to %s", a, text(d).c_str()); if (op([&] { ta.reshape(to_ix(d)); })) ma.d = d; } break;
  case 10: { std::vector<long> d = mb.n() ? factor(mb.n()) : nothing(); say("variable %u = variable %u reshaped to %s", a, b, text(d).c_str());
      bool ctor = flip(1, 3); if (op([&] { ta = ctor ? T(to_ix(d), tb) : reshape(tb, to_ix(d)); })) { ma = mb; ma.d = d; } } break;
  case 11: say("variable %u = flatten(variable %u)", a, b); if (op([&] { ta = flatten(tb); })) { ma = mb; ma.d = {mb.n()}; } break;
  case 12: { say("variable %u = squeeze(variable %u)", a, b); std::vector<long> d; for (long k : mb.d) if (k != 1) d.push_back(k); if (d.empty() && !mb.d.empty()) d = {1}; if (op([&] { ta = squeeze(tb); })) { ma = mb; ma.d = d; } break; }
  case 13: case 14: {                        // read through a view
    if (mb.d.empty()) break;
    size_t r = mb.d.size(); if (r > 6 || flip(1, 4)) r = 1; std::vector<long> d = r == 1 ? std::vector<long>{mb.n()} : mb.d;
    Sel s[6]; for (size_t k = 0; k < r; k++) s[k] = rnd_sel(d[k]);
    // the index lists are variables of the program, too
    Indices l[6]; if (!op([&] { for (size_t k = 0; k < r; k++) l[k] = to_ix(s[k].ix); })) break;
    say("variable %u = view (rank %zu) of variable %u", a, r, b);
    bool held = flip(1, 2) && mb.n(); long k0 = held ? choose(mb.n()) : 0; Z z = part(K, rnd());
    Mod o; for (size_t k = 0; k < r; k++) o.d.push_back((long)s[k].ix.size()); std::vector<long> at = cross(s, r, d); for (long q : at) o.x.push_back(mb.x[q]);
    bool wrote = false;
    bool twice = flip(1, 4); T other;        // the same view may be read again
    auto use = [&](const auto &v) { if (held) { tb.at_seq(k0) = X::num(z); wrote = true; } if (twice) other = T(v); ta = T(v); };
    ok = op([&] { std::vector<PRange> pr; for (size_t k = 0; k < r; k++) pr.push_back(make(s[k], l[k])); spread([&](const auto &...q) { use(tb(q...)); return 0; }, pr); });
    if (ok && twice && (other.size() != (ix)at.size() || !std::equal(other.begin_const(), other.end_const(), ta.begin_const()))) { HostScope h; violate("wrong-result", "%s: the view gives other elements when it is read again", what.c_str()); }
    lib([&] { other = T(); });
    if (wrote) { note("element %ld of variable %u was changed between taking the view and reading it", k0, b); p.m[b].x[k0] = z; }
    if (ok) ma = o;
    for (size_t k = 0; k < r; k++) if (!std::equal(s[k].ix.begin(), s[k].ix.end(), l[k].begin_const()) || l[k].size() != (ix)s[k].ix.size()) { HostScope h; violate("other-changed", "%s: the list of indices given to range() changed", what.c_str()); }
    lib([&] { for (auto &q : l) q = Indices(); });
    break; }
  case 15: case 16: {                        // assign through a view
    if (ma.d.empty()) break;
    size_t r = ma.d.size(); if (r > 6 || flip(1, 4)) r = 1; std::vector<long> d = r == 1 ? std::vector<long>{n} : ma.d;
    Sel s[6]; for (size_t k = 0; k < r; k++) s[k] = rnd_sel(d[k]);
    Indices l[6]; if (!op([&] { for (size_t k = 0; k < r; k++) l[k] = to_ix(s[k].ix); })) break;
    std::vector<long> at = cross(s, r, d); Mod o = ma; u32 from = choose(3); Z z = part(K, rnd());
    say("view (rank %zu) of variable %u is assigned from %s", r, a, from == 0 ? "a number" : from == 1 ? "a tensor" : "a view");
    T src; Mod ms; long off = 0;
    if (from == 1) {                         // a reshaped piece of b, perhaps all of it, sharing its storage
      if (mb.n() == (long)at.size() && b != a) { if (!op([&] { src = tb; })) break; ms = mb; }
      else { if (!op([&] { src = T((ix)at.size()); for (size_t k = 0; k < at.size(); k++) src.at_seq(k) = X::num(Z((double)k, 0)); })) break; ms.d = {(long)at.size()}; for (size_t k = 0; k < at.size(); k++) ms.x.push_back((double)k); }
    }
    if (from == 2) { if (mb.n() < (long)at.size() || at.empty()) { lib([&] { for (auto &q : l) q = Indices(); }); break; } off = choose((u32)(mb.n() - (long)at.size()) + 1); for (size_t k = 0; k < at.size(); k++) ms.x.push_back(mb.x[off + k]); }
    auto assign = [&](auto &&v) { if (from == 0) v = X::num(z); else if (from == 1) v = src; else v = tb(range(off, off + (long)at.size() - 1)); };
    ok = op([&] { std::vector<PRange> pr; for (size_t k = 0; k < r; k++) pr.push_back(make(s[k], l[k])); spread([&](const auto &...q) { assign(ta.at(q...)); return 0; }, pr); });
    bool had = false; T kept; Z y = part(K, rnd());
    if (ok && flip(1, 4) && op([&] { std::vector<PRange> pr; for (size_t k = 0; k < r; k++) pr.push_back(make(s[k], l[k])); spread([&](const auto &...q) { auto &&v = ta.at(q...); kept = ta; had = true; v = X::num(y); return 0; }, pr); })) {   // a copy is made while the view is held
      for (size_t k = 0; k < at.size(); k++) o.x[at[k]] = from == 0 ? z : ms.x[k];
      for (long k = 0; k < n; k++) if (!(kept.begin_const()[k] == X::num(o.x[k]))) { HostScope h; violate("other-changed", "%s: a copy made while the view was held changed with the variable", what.c_str()); }
      for (size_t k = 0; k < at.size(); k++) ma.x[at[k]] = y;
      note("and then from a number, after a copy"); lib([&] { kept = T(); for (auto &q : l) q = Indices(); }); break;
    } else if (had) { lib([&] { kept = T(); for (ix k = 0; k < (ix)n; k++) ma.x[k] = Z(ta.begin_const()[k]); for (auto &q : l) q = Indices(); }); break; }
    for (size_t k = 0; k < at.size(); k++) o.x[at[k]] = from == 0 ? z : ms.x[k];
    if (ok) ma = o;
    lib([&] { for (auto &q : l) q = Indices(); });
    break; }
  case 17: { if (ma.d != mb.d) break; say("variable %u += variable %u", a, b); if (op([&] { ta += tb; })) for (long k = 0; k < n; k++) ma.x[k] += mb.x[k]; break; }
  case 18: { if (ma.d != mb.d) break; say("variable %u -= variable %u", a, b); if (op([&] { ta -= tb; })) for (long k = 0; k < n; k++) ma.x[k] -= mb.x[k]; break; }
  case 19: { say("variable %u += number", a); e x = X::num(part(K, rnd())); if (op([&] { ta += x; })) for (long k = 0; k < n; k++) ma.x[k] += x; break; }
  case 20: { say("variable %u = variable %u times a number", a, b); e x = X::num(part(K, rnd())); Mod o = mb; if (op([&] { ta = tb * x; })) { for (Z &q : o.x) q *= x; ma = o; } break; }
  case 21: { if (ma.d != mb.d) break; say("variable %u = variable %u - variable %u", a, b, a); Mod o = mb; for (long k = 0; k < n; k++) o.x[k] -= ma.x[k]; if (op([&] { ta = tb - ta; })) ma = o; break; }
  case 22: { say("variable %u = - variable %u", a, b); Mod o = mb; for (Z &q : o.x) q = K == C ? -q : Z(-q.real(), 0); if (op([&] { ta = -tb; })) ma = o; break; }
  case 23: case 24: {                        // scale_inplace with a vector that may share the storage
    if (!n) break;
    int dim = choose((u32)ma.d.size()); if (mb.n() != ma.d[dim]) break;
    say("scale_inplace(variable %u, %d, variable %u)", a, dim, b); Mod o = ma; long d1 = 1; for (int k = 0; k < dim; k++) d1 *= ma.d[k];
    for (long k = 0; k < n; k++) o.x[k] *= mb.x[k / d1 % ma.d[dim]];
    if (op([&] { scale_inplace(ta, flip(1, 2) ? dim : dim - (int)ma.d.size(), tb); })) ma = o; break; }
  case 25: { if (mb.d.size() != 2) break; say("variable %u = transpose(variable %u)", a, b); Mod o; o.d = {mb.d[1], mb.d[0]}; o.x.resize(mb.n()); for (long i = 0; i < mb.d[0]; i++) for (long j = 0; j < mb.d[1]; j++) o.x[j + mb.d[1] * i] = mb.x[i + mb.d[0] * j];
    bool perm = flip(1, 2); if (op([&] { ta = perm ? permute(tb, 0, 1) : transpose(tb); })) ma = o; break; }
  case 26: { if (K == C) { say("variable %u = conj(variable %u)", a, b); Mod o = mb; for (Z &q : o.x) q = std::conj(q); if (op([&] { ta = conj(tb); })) ma = o; } else { say("variable %u = conj(variable %u)", a, b); if (op([&] { ta = conj(tb); })) ma = mb; } break; }
  case 27: case 28: {                        // contraction, also into a variable that shares the operand's storage
    u32 c = some(K); T &tc = X::of(p.s[c]); Mod mc = p.m[c]; if (!mb.n() || !mc.n() || !small_values(mb, 300) || !small_values(mc, 300)) break;
    int n1 = choose((u32)mb.d.size()), n2 = choose((u32)mc.d.size()); if (mb.d[n1] != mc.d[n2]) { bool f = false; for (n1 = 0; n1 < (int)mb.d.size() && !f; n1++) for (n2 = 0; n2 < (int)mc.d.size() && !f; n2++) f = mb.d[n1] == mc.d[n2]; if (!f) break; n1--; n2--; }
    if (mb.d[n1] != mc.d[n2] || mb.n() / mb.d[n1] * (mc.n() / mc.d[n2]) > 100 || mb.d.size() + mc.d.size() > 7) break;
    u32 how = choose(K == R ? 4 : 1); bool in = how == 2; if (how == 3 && (n1 != (int)mb.d.size() - 1 || n2 != 0)) how = 0;
    say("variable %u = contraction (form %u) of variable %u at %d and variable %u at %d", a, how, b, n1, c, n2);
    Mod o = mod_fold(mb, n1, mc, n2, false, in);
    ok = op([&] { if constexpr (X::k == C) ta = fold(tb, n1, tc, n2); else if (how == 0) ta = fold(tb, n1, tc, n2); else if (how == 1) fold_into(ta, tb, n1, tc, n2); else if (how == 2) foldin_into(ta, tb, n1, tc, n2); else mmult_into(ta, tb, tc); });
    if (ok) ma = o; else if (how) { if (prod(std::vector<long>(ta.dimensions().begin_const(), ta.dimensions().end_const())) != ta.size()) violate("inconsistent", "%s: after running out of memory the size and the dimensions of the result do not match", what.c_str()); lib([&] { ta = T(); }); ma.d = {}; ma.x.clear(); fresh<T>(a); if (size_of(p.s[a]) == 0 && ta.rank() == 0) { ma.d = {}; ma.x.clear(); } }
    break; }
  case 29: { if (mb.d.size() != 1) break; say("variable %u = sort(variable %u)", a, b); bool rev = flip(1, 2); if (K == C) break; Mod o = mb; std::sort(o.x.begin(), o.x.end(), [&](Z x, Z y) { return rev ? x.real() > y.real() : x.real() < y.real(); }); if (op([&] { ta = sort(tb, rev); })) ma = o; break; }
  case 30: {                                 // a vector with the tensor's data
    if (K != R || !has(V)) break;
    u32 v = some(V); say("vector %u = data of variable %u", v, b); Vector<double> &w = p.s[v]->v; const RTensor &q = p.s[b]->r;
    if (op([&] { w = q.operator Vector<double>(); })) { p.m[v].d = {mb.n()}; p.m[v].x = mb.x; } break; }
  case 31: {                                 // a dimension list of a tensor
    if (!has(I)) break;
    u32 v = some(I); say("list %u = dimensions of variable %u, then changed", v, b); Indices &w = p.s[v]->i; std::vector<long> d = mb.d; bool first = false;
    if (op([&] { w = tb.dimensions(); first = true; if (w.size()) w.at(0) = 77; })) { if (d.size()) d[0] = 77; } else if (!first) break;
    p.m[v].d = {(long)d.size()}; p.m[v].x.assign(d.begin(), d.end()); break; }
  case 32: { std::vector<Z> before = ma.x; say("variable %u is randomized", a); bool done = op([&] { ta.randomize(); });
    if (done) for (long k = 0; k < n; k++) { Z z = elem(p.s[a], k); if (!(z.real() >= 0 && z.real() < 1 && z.imag() >= 0 && z.imag() < 1)) violate("wrong-result", "randomize() gave %g%+gi", z.real(), z.imag()); ma.x[k] = z; }
    compare(p, what.c_str(), a);
    if (done) lib([&] { for (long k = 0; k < n; k++) { ma.x[k] = Z((double)(k % 7), 0); ta.at_seq(k) = X::num(ma.x[k]); } });
    break; }
  case 33: { if (a == b) break; say("variables %u and %u are swapped", a, b); if (op([&] { std::swap(ta, tb); })) { std::swap(p.m[a], p.m[b]); } break; }
  case 34: {                                 // copies in a container
    say("variable %u goes through a std::vector", b); Z z = part(K, rnd()); if (!mb.n() || (a == b)) break; long k = choose(mb.n()); T out; bool half = false;
    ok = op([&] { std::vector<T> v(2, tb); v.push_back(ta); v.insert(v.begin(), tb); v[1].at_seq(k) = X::num(z); ta = v[1]; half = true; v.erase(v.begin()); v.resize(5, tb); v[4].at_seq(k) = X::num(z); });
    if (half) { ma = mb; ma.x[k] = z; } break; }
  case 35: { say("variable %u = itself and an empty tensor", a); if (op([&] { T &self_ = ta; ta = self_; T empty; empty = T(); })) {} break; }
  case 36: {                                 // via a sparse matrix
    if (mb.d.size() != 2) break;
    say("variable %u = full(sparse(variable %u))", a, b); if (op([&] { Sparse<e> sp(tb); Sparse<e> sq(sp); sp = Sparse<e>(); ta = full(sq); })) ma = mb; break; }
  case 38: {                                 // a crowd of copies, beyond any narrow counter
    if (!n || a == b || !flip(1, 30)) break;
    static const u32 N[] = {130, 260, 32770, 65540}; u32 crowd = N[choose(4)], who = choose(crowd - 1) + 1; long k = choose(n); Z z = part(K, rnd()), y = part(K, rnd()); bool wrote = false, tell = true; u32 how = choose(3);
    say("%u copies of variable %u, one of them changed, then the variable", crowd, a); Mod mo = ma;
    op([&] {
      std::vector<T> v; if (!how) v.resize(crowd, ta); else { v.resize(crowd); for (u32 c = 0; c < crowd; c++) v[c] = how > 1 && c ? v[c - 1] : ta; }
      v[who].at_seq(k) = X::num(z); ta.at_seq(k) = X::num(y); wrote = true;
      for (u32 c : {0u, who - 1, who, crowd - 1}) for (long q = 0; q < n; q++) if (!(v[c].begin_const()[q] == X::num(c == who && q == k ? z : mo.x[q]))) tell = false;
    });
    if (!tell) violate("other-changed", "of %u copies of one variable, one was changed and others show it", crowd);
    if (wrote) ma.x[k] = y;
    if (crowd > 32768) probe("more than 32768 users of one block"); break; }
  case 39: {                                 // a tensor over memory of the caller, written to while shared
    if (!n) break;
    long k = choose(n); Z z = part(K, rnd()); bool tell = true, wrote = false; std::vector<e> mine; for (const Z &x : ma.x) mine.push_back(X::num(x)); Mod mo = ma;
    say("variable %u = tensor over memory of the caller; copied, changed", a);
    op([&] {
      { Vector<e> v((ix)n, &mine[0]); T t(ta.dimensions(), v), u(t); t.at_seq(k) = X::num(z); 
        for (long q = 0; q < n; q++) if (!(mine[q] == X::num(mo.x[q])) || !(u.begin_const()[q] == mine[q]) || !(v.begin_const()[q] == mine[q])) tell = false;
        ta = t; wrote = true; }
    });
    if (!tell) violate("other-changed", "a tensor over memory of the caller was copied and changed: the original shows it");
    if (wrote) ma.x[k] = z; break; }
  case 37: {                                 // real <-> complex
    if constexpr (X::k == R) { if (!has(C)) break; u32 v = some(C); CTensor &w = p.s[v]->c; u32 how = choose(2); say("complex variable %u = real variable %u", v, b); const RTensor &q = p.s[b]->r; if (op([&] { if (how) w = to_complex(q); else w = CTensor(q); })) { p.m[v] = mb; } }
    else { if (!has(R)) break; u32 v = some(R); RTensor &w = p.s[v]->r; bool im = flip(1, 2); say("real variable %u = part of complex variable %u", v, b); const CTensor &q = p.s[b]->c; if (op([&] { w = im ? imag(q) : real(q); })) { Mod o = mb; for (Z &z : o.x) z = im ? z.imag() : z.real(); p.m[v] = o; } }
    break; }
  }
}
void Hist::indices_op(u32 a) {
  u32 b = some(I); Indices &ia = p.s[a]->i, &ib = p.s[b]->i; Mod &ma = p.m[a]; Mod mb = p.m[b]; long n = ma.n();
  switch (choose(12)) {
  case 0: refresh(a); break;
  case 1: case 2: say("list %u = list %u", a, b); if (op([&] { ia = ib; })) ma = mb; break;
  case 3: case 4: if (n) { long k = choose(n), x = choose(9); say("element %ld of list %u is set", k, a); if (op([&] { ia.at(k) = x; })) ma.x[k] = (double)x; } break;
  case 5: { say("list %u is written through its iterators", a); long x = 0; if (op([&] { for (Indices::iterator it = ia.begin(); it != ia.end(); ++it) *it = x++; })) for (long k = 0; k < n; k++) ma.x[k] = (double)k; break; }
  case 6: { long m = choose(7); say("list %u is resized to %ld", a, m); if (op([&] { ia.resize(m); })) { ma.x.assign(m, 0); ma.d = {m}; lib([&] { std::fill(ia.begin(), ia.end(), 5L); }); for (Z &z : ma.x) z = 5; } break; }
  case 7: { say("list %u = sorted list %u", a, b); Mod o = mb; std::sort(o.x.begin(), o.x.end(), [](Z x, Z y) { return x.real() < y.real(); }); if (op([&] { ia = sort(ib); })) ma = o; break; }
  case 8: { if (mb.n() + n > 20) break; say("list %u = list %u << list %u", a, a, b); Mod o = ma; o.x.insert(o.x.end(), mb.x.begin(), mb.x.end()); o.d = {o.n()}; if (op([&] { ia = ia << ib; })) ma = o; break; }
  case 9: { say("list %u = igen", a); if (op([&] { ia = igen << 3 << 1 << 2; })) { ma.d = {3}; ma.x = {3., 1., 2.}; } break; }
  case 10: { say("list %u = iota", a); if (op([&] { ia = iota(2, 6); })) { ma.d = {5}; ma.x = {2., 3., 4., 5., 6.}; } break; }
  case 11: {                                 // dimensions of a new tensor
    if (!has(R)) break; bool good = mb.n() >= 1 && mb.n() <= 4; long t = 1; for (Z z : mb.x) { good &= z.real() >= 0; t *= (long)z.real() ? (long)z.real() : 1; } if (!good || t > 60) break;
    u32 v = some(R); say("variable %u gets the dimensions of list %u, which then changes", v, b); RTensor &w = p.s[v]->r; Mod o; for (Z z : mb.x) o.d.push_back((long)z.real()); o.x.assign(prod(o.d), 2.0); bool set = false;
    if (op([&] { RTensor q(ib); q.fill_with(2.0); w = q; set = true; ib.at(0) = 4; })) p.m[b].x[0] = 4; if (set) p.m[v] = o; break; }
  }
}
void Hist::vector_op(u32 a) {
  u32 b = some(V); Vector<double> &va = p.s[a]->v, &vb = p.s[b]->v; Mod &ma = p.m[a]; Mod mb = p.m[b]; long n = ma.n();
  switch (choose(9)) {
  case 0: refresh(a); break;
  case 1: case 2: say("vector %u = vector %u", a, b); if (op([&] { va = vb; })) ma = mb; break;
  case 3: case 4: if (n) { long k = choose(n); double x = choose(9); say("element %ld of vector %u is set", k, a); if (op([&] { va.at(k) = x; })) ma.x[k] = x; } break;
  case 5: { long m = choose(7); say("vector %u is resized to %ld", a, m); if (op([&] { va.resize(m); })) { ma.x.assign(m, 7); ma.d = {m}; lib([&] { for (long k = 0; k < m; k++) va.at(k) = 7; }); } break; }
  case 6: { if (!has(R)) break; u32 v = some(R); say("variable %u = tensor of vector %u", v, b); RTensor &w = p.s[v]->r; if (op([&] { w = RTensor(vb); })) { p.m[v] = mb; p.m[v].d = {mb.n()}; } break; }
  case 7: { say("vector %u = foreign memory", a); foreign.push_back({1, 2, 3, 4, 5}); double *q = foreign.back().data(); if (op([&] { va = Vector<double>(5, q); })) { ma.d = {5}; ma.x = {1., 2., 3., 4., 5.}; } break; }
  case 8: { if (a == b) break; say("vectors %u and %u are swapped", a, b); if (op([&] { std::swap(va, vb); })) std::swap(p.m[a], p.m[b]); break; }
  }
}
void history(bool inject) {
  cfg.fill = (u8)choose(256);
  u32 nr = 1 + choose(4), nc = choose(4), ni = choose(3), nv = choose(3), ops = 4 + choose(flip(1, 4) ? 60 : 24);
  Hist h; h.inject = false; h.foreign.reserve(256);
  spawn("program", [&] {
    u64 serial = heap_serial(); u64 copies = 0;
    for (u32 k = 0; k < nr + nc + ni + nv; k++) {
      Kind kd = k < nr ? R : k < nr + nc ? C : k < nr + nc + ni ? I : V;
      h.p.s.push_back(lib([&] { return new Slot(kd); })); Mod m; if (kd == I || kd == V) m.d = {0}; h.p.m.push_back(m); h.refresh(k);
    }
    compare(h.p, "after the beginning", -1);
    h.inject = inject;
    for (u32 t = 0; t < ops; t++) {
      u32 a = choose((u32)h.p.s.size()); h.what = "nothing";
      switch (h.p.s[a]->kind) { case R: h.tensor_op<RTensor>(a); break; case C: h.tensor_op<CTensor>(a); break; case I: h.indices_op(a); break; case V: h.vector_op(a); break; }
      compare(h.p, h.what.c_str(), a);
      for (auto *s : h.p.s) if ((s->kind == R ? s->r.ref_count() : s->kind == C ? s->c.ref_count() : s->kind == I ? s->i.ref_count() : s->v.ref_count()) > 1) copies++;
    }
    if (copies) nontrivial(); count("shared-variables", copies);
    event(11, copies, h.oom);
    // the last users go, in any order
    while (h.p.s.size()) { u32 k = choose((u32)h.p.s.size()); Slot *s = h.p.s[k]; lib([&] { delete s; }); h.p.s.erase(h.p.s.begin() + k); h.p.m.erase(h.p.m.begin() + k); if (flip(1, 4)) compare(h.p, "after a variable was destroyed", -1); }
    std::string d; u64 n = heap_leaked_since(me(), serial, &d);
    if (n) { HostScope hs; violate("leak", "%llu blocks are still allocated after the last variable is gone:%s", (unsigned long long)n, d.c_str()); }
    heap_check();
  });
  run();
  for (auto &v : h.foreign) if (v.size() != 5) violate("other-changed", "foreign memory");
  sample(fmt("%u real, %u complex tensors, %u lists, %u vectors, %u operations, %u out of memory", nr, nc, ni, nv, ops, h.oom));
}
}
SCENARIO(C11, values, 3) { history(false); }
SCENARIO(C11, memory, 2) { history(true); }
