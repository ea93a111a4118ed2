// C11: histories over sparse matrices and the lists and tensors they share storage with.
#include "core.h"
#include "fs.h"
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <tensor/map.h>
#include <tensor/sparse.h>
#include <tensor/tensor.h>
using namespace sim;
using namespace tensor;
namespace {
typedef tensor::index ix;
typedef std::vector<long> L;
typedef std::vector<double> D;
struct Sp { long r = 0, c = 0; L start{0}, col; D x; double at(long i, long j) const { for (long k = start[i]; k < start[i + 1]; k++) if (col[k] == j) return x[k]; return 0; } };
struct Te { L d; D x; };
D dense(const Sp &s) { D o(s.r * s.c, 0); for (long i = 0; i < s.r; i++) for (long k = s.start[i]; k < s.start[i + 1]; k++) o[i + s.r * s.col[k]] = s.x[k]; return o; }
Sp compress(long r, long c, const D &x) { Sp s; s.r = r; s.c = c; for (long i = 0; i < r; i++) { for (long j = 0; j < c; j++) if (x[i + r * j] != 0) { s.col.push_back(j); s.x.push_back(x[i + r * j]); } s.start.push_back((long)s.col.size()); } return s; }
Indices list(const L &v) { Indices o((ix)v.size()); for (size_t k = 0; k < v.size(); k++) o.at(k) = v[k]; return o; }
RTensor tens(const Te &t) { RTensor o(list(t.d)); for (size_t k = 0; k < t.x.size(); k++) o.at_seq(k) = t.x[k]; return o; }
template <class A> auto values(const A &a) { HostScope h; return std::vector<std::decay_t<decltype(*a.begin_const())>>(a.begin_const(), a.end_const()); }
double num() { return (double)choose(13) - 6; }
struct Hist {
  std::vector<RSparse *> s; std::vector<Sp> ms; std::vector<RTensor *> t; std::vector<Te> mt; std::vector<Indices *> l; std::vector<L> ml;
  bool inject = false; u32 oom = 0; std::string what;
  template <class F> bool op(F &&f) {
    if (inject && flip(1, 3)) self()->fail_alloc_in = 1 + small(8);
    bool ok = true; try { lib([&] { f(); }); } catch (std::bad_alloc &) { ok = false; oom++; }
    self()->fail_alloc_in = -1; return ok;
  }
  void say(const char *f, ...) __attribute__((format(printf, 2, 3))) { va_list ap; va_start(ap, f); char b[256]; vsnprintf(b, sizeof b, f, ap); va_end(ap); what = b; u64 hh = 0; for (char *q = b; *q; q++) hh = mix(hh, (u8)*q); event(13, hh); note("%s", b); }
  void bad(const char *cls, const char *kind, size_t k, const char *how) { HostScope h; violate(cls, "%s: %s #%zu %s", what.c_str(), kind, k, how); }
  void compare(int kind, long dest) {
    auto cls = [&](int q, size_t k) { return q == kind && (long)k == dest ? "wrong-result" : "other-changed"; };
    for (size_t k = 0; k < s.size(); k++) { const Sp &m = ms[k]; const RSparse &a = *s[k];
      if (values(a.priv_dims()) != L{m.r, m.c}) bad(cls(0, k), "matrix", k, "has other dimensions"); if (values(a.priv_row_start()) != m.start) bad(cls(0, k), "matrix", k, "has other rows");
      if (values(a.priv_column()) != m.col) bad(cls(0, k), "matrix", k, "has other columns"); if (values(a.priv_data()) != m.x) bad(cls(0, k), "matrix", k, "has other elements"); if (values(a.priv_data().dimensions()) != L{(long)m.x.size()}) bad(cls(0, k), "matrix", k, "has data of another shape"); }
    for (size_t k = 0; k < t.size(); k++) { if (values(t[k]->dimensions()) != mt[k].d) bad(cls(1, k), "tensor", k, "has other dimensions"); if (values(*t[k]) != mt[k].x) bad(cls(1, k), "tensor", k, "has other elements"); }
    for (size_t k = 0; k < l.size(); k++) if (values(*l[k]) != ml[k]) bad(cls(2, k), "list", k, "has other elements");
  }
  // What the operation left in a matrix, if it stands for the right values.
  void result(u32 a, long r, long c, const D &x) {
    const RSparse &q = *s[a]; Sp m; m.start = values(q.priv_row_start()); m.col = values(q.priv_column()); m.x = values(q.priv_data()); L d = values(q.priv_dims());
    HostScope h; bool ok = d == L{r, c} && (long)m.start.size() == r + 1 && m.start[0] == 0 && m.start[r] == (long)m.col.size() && m.col.size() == m.x.size();
    for (long i = 0; ok && i < r; i++) ok = m.start[i] <= m.start[i + 1]; for (long j : m.col) ok = ok && j >= 0 && j < c;
    if (!ok) { violate("inconsistent", "%s: the size and the dimensions of the result do not match its data", what.c_str()); }
    m.r = r; m.c = c; if (dense(m) != x) violate("wrong-result", "%s: the result has other elements", what.c_str());
    ms[a] = m;
  }
  D rnd_dense(long r, long c) { D x(r * c); u32 den = 1 + choose(4); for (double &v : x) v = choose(den) ? 0 : num(); return x; }
  void make(u32 a) { static const long N[] = {2, 3, 1, 4, 5}; long r = N[small(5)], c = flip(1, 2) ? r : N[small(5)]; D x = rnd_dense(r, c); Te q{{r, c}, x}; say("matrix %u = new %ld by %ld", a, r, c); if (op([&] { *s[a] = RSparse(tens(q)); })) ms[a] = compress(r, c, x); }
  void make_t(u32 a) { L d; u32 k = 1 + choose(2); long n = 1; while (k--) { d.push_back(1 + choose(4)); n *= d.back(); } Te q{d, D(n)}; for (double &v : q.x) v = num(); say("tensor %u = new", a); if (op([&] { *t[a] = tens(q); })) mt[a] = q; }
  void step();
};
bool tame(const D &x) { for (double v : x) if (!(std::fabs(v) < 1e4)) return false; return true; }
void Hist::step() {
  u32 a = choose((u32)s.size()), b = choose((u32)s.size()), c = choose((u32)s.size()), u = choose((u32)t.size()), v = choose((u32)l.size()), w = choose((u32)l.size());
  RSparse &A = *s[a], &B = *s[b], &C = *s[c]; RTensor &T = *t[u]; Indices &I = *l[v], &J = *l[w]; Sp mb = ms[b], mc = ms[c]; Te &mT = mt[u]; int kind = 0; long dest = a; what = "nothing";
  if (!tame(ms[a].x) || !tame(mb.x) || !tame(mc.x)) { make(a); compare(0, a); return; }
  if (!tame(mT.x)) { make_t(u); compare(1, u); return; }
  switch (choose(26)) {
  case 0: make(a); break;
  case 1: case 2: say("matrix %u = matrix %u", a, b); if (op([&] { A = B; })) ms[a] = mb; break;
  case 3: {                                    // from lists and a tensor that stay variables
    D x = rnd_dense(3, 2); Sp m = compress(3, 2, x); say("matrix %u is made of tensor %u and lists %u and %u, which then change", a, u, v, w); if (v == w || m.x.empty()) break; bool made = false;
    bool ok = op([&] { Indices rs = list(m.start), cl = list(m.col); RTensor d = tens(Te{{(long)m.x.size()}, m.x}); A = RSparse(igen << 3 << 2, rs, cl, d); made = true; I = rs; J = cl; T = d; });
    if (made) ms[a] = m; if (!made || !ok) { break; }
    ml[v] = m.start; ml[w] = m.col; mT = Te{{(long)m.x.size()}, m.x}; compare(0, a);
    if (op([&] { I.at(0) = 50; })) ml[v][0] = 50; if (op([&] { J.at(0) = 60; })) ml[w][0] = 60; if (op([&] { T.at_seq(0) = 70; })) mT.x[0] = 70; break; }
  case 4: say("tensor %u = data of matrix %u, then changed", u, b); if (op([&] { T = B.priv_data(); })) { mT.d = {(long)mb.x.size()}; mT.x = mb.x; compare(1, u); if (mT.x.size() && op([&] { T.at_seq(0) = 71; })) mT.x[0] = 71; } kind = 1; dest = u; break;
  case 5: say("list %u = columns of matrix %u, then changed", v, b); if (op([&] { I = B.priv_column(); })) { ml[v] = mb.col; compare(2, v); if (ml[v].size() && op([&] { I.at(0) = 72; })) ml[v][0] = 72; } kind = 2; dest = v; break;
  case 6: say("list %u = rows of matrix %u, then changed", v, b); if (op([&] { I = B.priv_row_start(); })) { ml[v] = mb.start; compare(2, v); if (op([&] { I.at(0) = 73; })) ml[v][0] = 73; } kind = 2; dest = v; break;
  case 7: case 8: if (ms[a].x.size()) { u32 k = choose((u32)ms[a].x.size()); double x = 1 + choose(9); say("stored element %u of matrix %u is set", k, a); if (op([&] { A.data_.at_seq(k) = x; })) ms[a].x[k] = x; } break;
  case 9: { if (mT.d.size() != 2) break; say("matrix %u = sparse form of tensor %u, which then changes", a, u); if (op([&] { A = RSparse(T); })) { ms[a] = compress(mT.d[0], mT.d[1], mT.x); compare(0, a); if (op([&] { T.at_seq(0) = 7; })) mT.x[0] = 7; } break; }
  case 10: say("tensor %u = full form of matrix %u", u, b); if (op([&] { T = full(B); })) mT = Te{{mb.r, mb.c}, dense(mb)}; kind = 1; dest = u; break;
  case 11: { double x = (double)(1 + choose(3)); u32 how = choose(4); say("matrix %u = matrix %u scaled (%u)", a, b, how); if (op([&] { if (how == 0) A = B * x; else if (how == 1) A = x * B; else if (how == 2) A = B / 2.0; else A = -B; })) { D d = dense(mb); for (double &q : d) q = how < 2 ? q * x : how == 2 ? q / 2 : 0 - q; result(a, mb.r, mb.c, d); } break; }
  case 12: case 13: { if (mb.r != mc.r || mb.c != mc.c) break; u32 how = choose(3); say("matrix %u = matrix %u %c matrix %u", a, b, "+-*"[how], c); if (op([&] { if (how == 0) A = B + C; else if (how == 1) A = B - C; else A = B * C; })) { D p = dense(mb), q = dense(mc); for (size_t k = 0; k < p.size(); k++) p[k] = how == 0 ? p[k] + q[k] : how == 1 ? p[k] - q[k] : p[k] * q[k]; result(a, mb.r, mb.c, p); } break; }
  case 14: { say("matrix %u = transpose of matrix %u", a, b); if (op([&] { A = choose(2) ? adjoint(B) : transpose(B); })) { D p = dense(mb), q(p.size()); for (long i = 0; i < mb.r; i++) for (long j = 0; j < mb.c; j++) q[j + mb.c * i] = p[i + mb.r * j]; result(a, mb.c, mb.r, q); } break; }
  case 15: { if (mb.r * mc.r * mb.c * mc.c > 100) break; u32 how = choose(2); say("matrix %u = Kronecker product %u of matrices %u and %u", a, how, b, c); if (op([&] { if (how) A = kron2(B, C); else A = kron(B, C); })) {
      const Sp &x = how ? mb : mc, &y = how ? mc : mb; long R = x.r * y.r, Cc = x.c * y.c; D o(R * Cc); for (long i = 0; i < x.r; i++) for (long j = 0; j < x.c; j++) for (long p = 0; p < y.r; p++) for (long q = 0; q < y.c; q++) o[i + x.r * p + R * (j + x.c * q)] = x.at(i, j) * y.at(p, q); result(a, R, Cc, o); } break; }
  case 16: { if (mT.d[0] != mb.c) break; say("tensor %u = matrix %u times itself", u, b); long n = mT.d.size() == 2 ? mT.d[1] : 1; Te o; o.d = mT.d.size() == 2 ? L{mb.r, n} : L{mb.r}; o.x.assign(mb.r * n, 0); D p = dense(mb); for (long i = 0; i < mb.r; i++) for (long j = 0; j < n; j++) for (long k = 0; k < mb.c; k++) o.x[i + mb.r * j] += p[i + mb.r * k] * mT.x[k + mb.c * j]; if (op([&] { T = mmult(B, T); })) mT = o; kind = 1; dest = u; break; }
  case 17: { if (mT.d.size() != 2 || mT.d[1] != mb.r) break; say("tensor %u = itself times matrix %u", u, b); long n = mT.d[0]; Te o; o.d = {n, mb.c}; o.x.assign(n * mb.c, 0); D p = dense(mb); for (long i = 0; i < n; i++) for (long j = 0; j < mb.c; j++) for (long k = 0; k < mb.r; k++) o.x[i + n * j] += mT.x[i + n * k] * p[k + mb.r * j]; if (op([&] { T = mmult(T, B); })) mT = o; kind = 1; dest = u; break; }
  case 18: {                                   // triplets in any order; lists and data are variables of the caller
    long r = 2 + choose(3), q = 2 + choose(3); D x = rnd_dense(r, q); L ri, ci; D val; std::vector<std::pair<long, long>> e; for (long i = 0; i < r; i++) for (long j = 0; j < q; j++) if (x[i + r * j] != 0) e.push_back({i, j});
    for (size_t k = e.size(); k > 1; k--) std::swap(e[k - 1], e[choose((u32)k)]); for (auto &z : e) { ri.push_back(z.first); ci.push_back(z.second); val.push_back(x[z.first + r * z.second]); }
    say("matrix %u from %zu triplets", a, e.size()); if (op([&] { *l[v] = list(ri); })) ml[v] = ri; else break; Te n{{(long)val.size()}, val};
    if (op([&] { Indices k = list(ci); RTensor d = tens(n); A = RSparse(I, k, d, r, q); if (!std::equal(ci.begin(), ci.end(), k.begin_const()) || !std::equal(val.begin(), val.end(), d.begin_const())) bad("other-changed", "matrix", a, "was made of lists that changed"); })) result(a, r, q, x); break; }
  case 19: { long r = 1 + choose(4), q = 1 + choose(4); say("matrix %u = identity", a); D x(r * q); for (long k = 0; k < r && k < q; k++) x[k + r * k] = 1; if (op([&] { A = RSparse::eye(r, q); })) result(a, r, q, x); break; }
  case 20: { if (a == b) break; say("matrices %u and %u are swapped", a, b); if (op([&] { std::swap(A, B); })) std::swap(ms[a], ms[b]); break; }
  case 21: { if (a == b || mb.x.empty()) break; u32 k = choose((u32)mb.x.size()); say("matrix %u goes through a std::vector to matrix %u", b, a); bool half = false; op([&] { std::vector<RSparse> q(2, B); q.push_back(A); q.insert(q.begin(), B); q[1].data_.at_seq(k) = 80; A = q[1]; half = true; q.resize(6, B); q[5].data_.at_seq(k) = 81; }); if (half) { ms[a] = mb; ms[a].x[k] = 80; } break; }
  case 22: {                                   // a map keeps the matrix it was made of
    if (mb.x.empty()) break; say("matrix %u is changed while a map of it exists", b); Te in{{mb.c}, D(mb.c)}; for (double &q : in.x) q = num(); D want(mb.r, 0), got; D p = dense(mb); for (long i = 0; i < mb.r; i++) for (long k = 0; k < mb.c; k++) want[i] += p[i + mb.r * k] * in.x[k]; bool set = false; double y = 1 + choose(9);
    if (op([&] { MatrixMap<RSparse> f(B); RTensor x = tens(in); B.data_.at_seq(0) = y; set = true; RTensor o = f(x); got = values(o); }) && got != want) bad("other-changed", "matrix", b, "was changed and a map made before shows it");
    if (set) ms[b].x[0] = y; dest = b; break; }
  case 23: {                                   // to complex and back
    say("matrix %u = real part of a complex copy of matrix %u", a, b); bool made = false; std::vector<std::complex<double>> z;
    if (op([&] { CSparse q = to_complex(B); CSparse k(q); if (q.length()) k.data_.at_seq(0) = 90.0; A = real(q); made = true; }) || made) result(a, mb.r, mb.c, dense(mb)); break; }
  case 24: { say("matrix %u = itself, and is read by its indices", a); if (op([&] { RSparse &q = A; A = q; RSparse e; e = RSparse(); })) {} D p = dense(ms[a]); for (long i = 0; i < ms[a].r; i++) for (long j = 0; j < ms[a].c; j++) { double x = lib([&] { const RSparse &q = A; return q(choose(4) ? i : i - ms[a].r, j); }); if (x != p[i + ms[a].r * j]) bad("wrong-result", "matrix", a, "reads another element"); } break; }
  case 25: if (flip(1, 2)) { make_t(u); kind = 1; dest = u; } else { say("list %u is resized", v); u32 n = choose(5); if (op([&] { I.resize(n); })) { lib([&] { std::fill(I.begin(), I.end(), 5L); }); ml[v].assign(n, 5); } kind = 2; dest = v; } break;
  }
  compare(kind, dest);
}
void history() {
  cfg.fill = (u8)choose(256); u32 ns = 1 + choose(4), nt = 1 + choose(2), nl = 2 + choose(2), ops = 4 + choose(flip(1, 4) ? 60 : 24); Hist h; bool inject = flip(2, 5);
  spawn("program", [&] {
    u64 serial = heap_serial(), shared = 0;
    for (u32 k = 0; k < ns; k++) { h.s.push_back(lib([] { return new RSparse; })); h.ms.push_back(Sp()); h.make(k); }
    for (u32 k = 0; k < nt; k++) { h.t.push_back(lib([] { return new RTensor; })); h.mt.push_back(Te()); h.make_t(k); }
    for (u32 k = 0; k < nl; k++) { h.l.push_back(lib([] { return new Indices; })); h.ml.push_back(L()); }
    h.compare(-1, -1); h.inject = inject;
    for (u32 k = 0; k < ops; k++) { h.step(); for (auto *q : h.s) if (q->data_.ref_count() > 1 || q->column_.ref_count() > 1) shared++; }
    if (shared) nontrivial(); count("shared-variables", shared); event(14, shared, h.oom); h.what = "after other variables were destroyed";
    while (h.s.size()) { u32 k = choose((u32)h.s.size()); RSparse *q = h.s[k]; lib([&] { delete q; }); h.s.erase(h.s.begin() + k); h.ms.erase(h.ms.begin() + k); if (flip(1, 4)) h.compare(-1, -1); }
    h.compare(-1, -1); lib([&] { for (auto *q : h.t) delete q; for (auto *q : h.l) delete q; });
    std::string d; u64 n = heap_leaked_since(me(), serial, &d); HostScope hs;
    if (n) violate("leak", "%llu blocks are still allocated after the last variable is gone:%s", (unsigned long long)n, d.c_str());
    heap_check();
  });
  run();
  sample(fmt("%u sparse matrices, %u tensors, %u lists, %u operations, %u out of memory", ns, nt, nl, ops, h.oom));
}
}
SCENARIO(C11, sparse, 2) { history(); }
