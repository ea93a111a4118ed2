// C20: unusual shapes. Operations on empty tensors, single elements, dimensions of length one, operands that
// do not fit. Each computation runs twice, in processes whose memory holds different remains: it has to end
// in the same way with the same results, the dimensions of which agree with their data, and without touching
// memory that is not its own. Refusing the operands (abort, an exception) is an answer.
#include "ops.h"
using namespace ops;
namespace tensor { const Booleans operator==(const CTensor &, cdouble) __attribute__((weak)); const Booleans operator!=(const CTensor &, cdouble) __attribute__((weak)); }   // once declared but not defined
namespace {
typedef std::vector<long> L;
long dim() { static const long D[] = {0, 1, 1, 2, 2, 3, 0, 4}; return D[choose(8)]; }
L dims() {
  static const long M[] = {2, 3, 2, 1, 3, 4, 2, 2};   // and many dimensions that are all longer than one
  u32 c = choose(14); L d(c < 3 ? 1 : c < 9 ? 2 : c < 11 ? 3 : c == 11 ? 1 + choose(6) : 4 + choose(3)); for (long &x : d) x = c > 11 ? M[choose(d.size() > 5 ? 4 : 8)] : dim();
  if (!choose(3)) for (long &x : d) if (!x) x = 1;
  return d;
}
L like(const L &a) {                          // dimensions that often fit with those of a
  switch (choose(5)) {
  case 0: return a;
  case 1: return dims();
  case 2: { L d(a); std::reverse(d.begin(), d.end()); return d; }
  case 3: { L d = dims(); d[choose((u32)d.size())] = a[choose((u32)a.size())]; return d; }
  default: { long n = a[choose((u32)a.size())]; if (flip(1, 2)) return L{n}; if (flip(1, 2)) return L{n, n}; return L{n, dim()}; }
  }
}
void set(double &x, double re, double) { x = re; } void set(cdouble &x, double re, double im) { x = cdouble(re, im); }
template <class T> T build(const L &d, u64 seed) {
  Indices n((ix)d.size()); for (size_t k = 0; k < d.size(); k++) n.at(k) = d[k];
  T t(n); u64 zeros = seed % 4;   // dense, some zeros, mostly zeros, nothing else
  for (ix k = 0; k < t.size(); k++) if (zeros && mix(seed, (u64)k + 777) % 4 < (zeros == 3 && seed % 5 ? 3 : zeros + (zeros == 3))) set(t.at_seq(k), 0, 0); else set(t.at_seq(k), (double)(mix(seed, (u64)k) % 9) - 3, (double)(mix(seed, (u64)k + 99) % 5) - 2);
  const u64 kind = seed >> 16; for (ix k = 0; k < t.size() && kind < 5; k++) { auto &x = t.at_seq(k); switch (kind) { case 0: set(x, -1 - std::abs(real(x)), -1 - std::abs(imag(x))); break; case 1: x = x * 0.5; break; case 2: x = x * 1048576.0; break; case 3: x = t[0]; break; default: set(x, (double)(k / 2), (double)(k % 2)); } }   // all negative, halves, large, all equal, ordered
  return t;
}
std::string str(const L &d) { std::string s = "("; for (size_t k = 0; k < d.size(); k++) s += fmt(k ? ",%ld" : "%ld", d[k]); return s + ")"; }
// Results whose dimensions do not agree with their data are noted.
struct Res {
  Out o; bool bad = false; std::string wrong;
  template <class T> void dense(const T &t) { long n = t.rank() ? 1 : 0; for (int k = 0; k < t.rank(); k++) n *= t.dimension(k); if (n != (long)t.size()) bad = true; o.t(t); }
  void t(const RTensor &x) { dense(x); } void t(const CTensor &x) { dense(x); }
  void t(const Indices &x) { o.t(x); } void t(const Booleans &x) { o.t(x); }
  template <class e> void t(const Sparse<e> &s) {
    const ix r = s.rows(), c = s.columns(); if ((long)s.priv_row_start().size() != (long)r + 1 || s.priv_column().size() != s.priv_data().size()) { bad = true; return; }
    if (s.priv_row_start()[r] != s.priv_data().size()) bad = true;
    for (ix k = 0; k < s.priv_column().size(); k++) if (s.priv_column()[k] < 0 || s.priv_column()[k] >= c) bad = true;
    o.t(s);
  }
  void z(const cdouble &x) { o.z(x); } void d(double x) { o.d(x); }
};
// A tensor of the reference: the definitions, element by element. The data are small integers: sums and products are exact.
struct N {
  L d; std::vector<Z> x;
  N() {} N(const L &dd) : d(dd) { long n = d.empty() ? 0 : 1; for (long k : d) n *= k; x.assign((size_t)n, 0); }
  long off(const L &i) const { long o = 0, f = 1; for (size_t k = 0; k < d.size(); k++) { o += i[k] * f; f *= d[k]; } return o; }
  Z operator()(const L &i) const { return x[(size_t)off(i)]; }
  template <class F> void each(F f) { if (x.empty()) return; L i(d.size(), 0); for (size_t k = 0; k < x.size(); k++) { x[k] = f(i); for (size_t q = 0; q < d.size() && ++i[q] == d[q]; q++) i[q] = 0; } }
};
template <class T> N model(const T &t) { N n; n.d.resize(t.rank()); for (int k = 0; k < t.rank(); k++) n.d[k] = t.dimension(k); for (ix k = 0; k < t.size(); k++) n.x.push_back(t[k]); return n; }
template <class T> void expect(Res &o, const T &r, const N &want, double tol = 0) {
  HostScope h; N g = model(r); o.t(r); if (o.wrong.size()) return;
  if (g.d != want.d) { o.wrong = "the dimensions are " + str(g.d) + " instead of " + str(want.d); return; }
  double sc = 1; for (const Z &z : want.x) sc = std::max(sc, std::abs(z));
  for (size_t k = 0; k < g.x.size(); k++) if (!(tol ? std::abs(g.x[k] - want.x[k]) <= tol * sc : g.x[k] == want.x[k])) { o.wrong = fmt("element %zu is (%.17g,%.17g) instead of (%.17g,%.17g)", k, g.x[k].real(), g.x[k].imag(), want.x[k].real(), want.x[k].imag()); return; }
}
void expect_number(Res &o, const Z &r, const Z &want, double tol = 0) { HostScope h; o.z(cdouble(r)); if (o.wrong.empty() && !(std::abs(r - want) <= tol * std::max(1.0, std::abs(want)))) o.wrong = fmt("the result is (%.17g,%.17g) instead of (%.17g,%.17g)", r.real(), r.imag(), want.real(), want.imag()); }
L without(L d, int k) { d.erase(d.begin() + k); return d; }
N fold_of(const N &a, int i, const N &b, int j, bool cj, bool in) {
  L ra = without(a.d, i), rb = without(b.d, j), od;
  if (in) { od.assign(rb.begin(), rb.begin() + j); od.insert(od.end(), ra.begin(), ra.end()); od.insert(od.end(), rb.begin() + j, rb.end()); } else { od = ra; od.insert(od.end(), rb.begin(), rb.end()); }
  size_t sa = 1, sb = 1; for (int k = 0; k < i; k++) sa *= (size_t)a.d[k]; for (int k = 0; k < j; k++) sb *= (size_t)b.d[k];
  N o(od.empty() ? L{1} : od); o.each([&](const L &q) {
    L ai, bi; if (!od.empty()) { auto p = q.begin(); if (in) { bi.assign(p, p + j); p += j; } ai.assign(p, p + ra.size()); bi.insert(bi.end(), p + ra.size(), q.end()); }
    ai.insert(ai.begin() + i, 0); bi.insert(bi.begin() + j, 0); size_t pa = (size_t)a.off(ai), pb = (size_t)b.off(bi); Z z = 0; for (long l = 0; l < a.d[i]; l++, pa += sa, pb += sb) if (pb < b.x.size()) z += (cj ? std::conj(a.x[pa]) : a.x[pa]) * b.x[pb]; return z; });
  return o;
}
N kron_of(const N &a, const N &b) { N o(a.d.size() == 1 ? L{a.d[0] * b.d[0]} : L{a.d[0] * b.d[0], a.d[1] * b.d[1]}); o.each([&](const L &q) { L A, B; for (size_t k = 0; k < q.size(); k++) { A.push_back(q[k] / b.d[k]); B.push_back(q[k] % b.d[k]); } return a(A) * b(B); }); return o; }
N swap_of(const N &a, int i, int j, bool cj = false) { L d = a.d; std::swap(d[i], d[j]); N o(d); o.each([&](L q) { std::swap(q[i], q[j]); Z z = a(q); return cj ? std::conj(z) : z; }); return o; }
N map_of(N a, const std::function<Z(Z)> &f) { for (Z &z : a.x) z = f(z); return a; }
N zip_of(N a, const N &b, const std::function<Z(Z, Z)> &f) { for (size_t k = 0; k < a.x.size(); k++) a.x[k] = f(a.x[k], b.x[k]); return a; }
N as(const L &d, const N &a) { N o; o.d = d; o.x = a.x; return o; }
N dft_of(const N &a, int k, int sign) { N o(a.d); o.each([&](L q) { long f = q[k], n = a.d[k]; Z z = 0; for (long t = 0; t < n; t++) { q[k] = t; z += a(q) * std::polar(1.0, sign * 2 * M_PI * (double)(f * t % n) / (double)n); } return z; }); return o; }
N shift_of(const N &a, int k, int dir) { N o(a.d); long n = a.d[k], m = dir == FFTW_FORWARD ? (n + 1) / 2 : n / 2; o.each([&](L q) { q[k] = (q[k] + m) % n; return a(q); }); return o; }
N mean_of(const N &a, int k) { N o(a.d.size() == 1 ? L{1} : without(a.d, k)); o.each([&](const L &q) { Z s = 0; for (long l = 0; l < a.d[k]; l++) { L z; if (a.d.size() > 1) z = q; z.insert(z.begin() + k, l); s += a(z); } return s / (double)a.d[k]; }); return o; }
N diag_of(const N &v, long w, long r, long c) { N o(L{r, c}); o.each([&](const L &q) { return q[1] - q[0] == w ? v.x[(size_t)std::min(q[0], q[1])] : Z(0); }); return o; }
N take_of(const N &a, long w, int y, int z) {
  if (y > z) { std::swap(y, z); w = -w; } long y0 = w < 0 ? -w : 0, z0 = w > 0 ? w : 0; L d = without(a.d, z); d[y] = std::max(0L, std::min(a.d[y] - y0, a.d[z] - z0));
  N o(d); o.each([&](const L &q) { L p(q); p.insert(p.begin() + z, q[y] + z0); p[y] += y0; return a(p); }); return o;
}
N trace_of(const N &a, int y, int z) {
  if (y > z) std::swap(y, z); L d = without(without(a.d, z), y); bool one = d.empty(); if (one) d = {1};
  N o(d); o.each([&](const L &q) { Z s = 0; for (long l = 0; l < std::min(a.d[y], a.d[z]); l++) { L p; if (!one) p = q; p.insert(p.begin() + y, l); p.insert(p.begin() + z, l); s += a(p); } return s; }); return o;
}
N scale_of(const N &a, int k, const N &v) { N o(a.d); o.each([&](const L &q) { return a(q) * v.x[(size_t)q[k]]; }); return o; }
N resize_of(const N &a, int k, long n) { L d = a.d; d[k] = n; N o(d); o.each([&](const L &q) { return q[k] < a.d[k] ? a(q) : Z(0); }); return o; }
Z sum_of(const N &a) { Z s = 0; for (Z z : a.x) s += z; return s; }
N mul(const N &a, const N &b) { return fold_of(a, 1, b, 0, false, false); }
template <class S> N cols_by(N a, const S &s) { for (long j = 0; j < a.d[1]; j++) for (long i = 0; i < a.d[0]; i++) a.x[(size_t)(i + a.d[0] * j)] *= Z(s[j]); return a; }
double size_of(const N &a) { double s = 0; for (Z z : a.x) s += std::norm(z); return std::sqrt(s); }
// a and b have to be equal but for rounding errors of computations with numbers as large as sc
void close(Res &o, const char *what, const N &a, const N &b, double sc, double tol = 1e-11) {
  HostScope h; if (o.wrong.size()) return; if (a.d != b.d) { o.wrong = fmt("%s: the dimensions are %s instead of %s", what, str(a.d).c_str(), str(b.d).c_str()); return; }
  for (size_t k = 0; k < a.x.size(); k++) if (!(std::abs(a.x[k] - b.x[k]) <= tol * std::max(sc, 1.0))) { o.wrong = fmt("%s: element %zu is (%.17g,%.17g) instead of (%.17g,%.17g)", what, k, a.x[k].real(), a.x[k].imag(), b.x[k].real(), b.x[k].imag()); return; }
}
N unit(long n) { N o(L{n, n}); o.each([&](const L &q) { return q[0] == q[1] ? Z(1) : Z(0); }); return o; }
template <class T> void check_svd(Res &o, const N &A, const RTensor &s, const T &U, const T &V, bool sorted) {
  HostScope h; o.t(s); o.t(U); o.t(V); if (A.x.empty() || A.d.size() != 2) return; N u = model(U), v = model(V); long m = std::min(A.d[0], A.d[1]); if ((long)s.size() != m) { o.wrong = "another number of singular values"; return; }
  if (u.d.size() != 2 || v.d.size() != 2 || u.d[0] != A.d[0] || v.d[1] != A.d[1] || u.d[1] < m || v.d[0] < m) { o.wrong = "the singular vectors are " + str(u.d) + " and " + str(v.d); return; }
  for (long k = 0; k < m; k++) if (s[k] < 0 || (k && s[k] > s[k - 1])) o.wrong = "the singular values are negative or not in order";
  N r(A.d); r.each([&](const L &q) { Z z = 0; for (long k = 0; k < m; k++) z += u.x[(size_t)(q[0] + u.d[0] * k)] * s[k] * v.x[(size_t)(k + v.d[0] * q[1])]; return z; }); close(o, "U S V", r, A, size_of(A));
  N uu = mul(swap_of(u, 0, 1, true), u), vv = mul(v, swap_of(v, 0, 1, true)), eu = unit(u.d[1]), ev = unit(v.d[0]);
  if (!sorted) for (long k = 0; k < (long)std::max(u.d[1], v.d[0]); k++) if (k >= m || !(s[k] > 1e-9)) { if (k < u.d[1]) eu.x[(size_t)(k * (u.d[1] + 1))] = uu({k, k}); if (k < v.d[0]) ev.x[(size_t)(k * (v.d[0] + 1))] = vv({k, k}); }
  close(o, "U'U", uu, eu, 1); close(o, "V V'", vv, ev, 1);
}
N exp_of(const N &a) {   // by scaling and squaring, with enough terms
  double s = size_of(a); int k = 0; while (s > 0.25) s /= 2, k++; N x(a); for (Z &z : x.x) z *= std::ldexp(1.0, -k); N r = unit(a.d[0]), t = r;
  for (int n = 1; n < 24; n++) { t = mul(t, x); for (size_t q = 0; q < t.x.size(); q++) t.x[q] /= (double)n, r.x[q] += t.x[q]; } while (k--) r = mul(r, r); return r;
}
void ordered(Res &o, const N &a, const Indices &k, bool rev) {   // a permutation that sorts a
  HostScope h; o.t(k); std::vector<long> g(k.begin_const(), k.end_const()); if (g.size() != a.x.size()) { o.wrong = "sort_indices() returned another number of positions"; return; }
  std::vector<char> seen(g.size(), 0); for (long x : g) { if (x < 0 || x >= (long)g.size() || seen[x]) { o.wrong = "sort_indices() did not return a permutation"; return; } seen[x] = 1; }
  for (size_t t = 1; t < g.size(); t++) if (rev ? a.x[g[t - 1]].real() < a.x[g[t]].real() : a.x[g[t - 1]].real() > a.x[g[t]].real()) o.wrong = "sort_indices() did not sort";
}
void truth(Res &o, const Booleans &r, const N &a, const N &b, bool (*f)(double, double)) { HostScope h; o.t(r); if ((size_t)r.size() != a.x.size()) o.wrong = "a comparison with another number of elements"; else for (size_t k = 0; k < a.x.size(); k++) if ((bool)r[k] != f(a.x[k].real(), b.x[k].real())) o.wrong = fmt("comparison %zu is wrong", k); }
int norm(int i, size_t r) { return i < 0 ? i + (int)r : i; }
const u32 NOPS = 64;
template <class T> void compute(u32 op, Res &o, const L &da, const L &db, const L &dv, u64 seed, u32 p, u32 q) {
  typedef typename T::elt_t e; const bool real_kind = std::is_same<e, double>::value;
  T a = build<T>(da, seed), b = build<T>(db, seed + 1), v = build<T>(dv, seed + 2); int i = (int)(p % (da.size() + 1)), j = (int)(q % (db.size() + 1)); if (p & 256) i = -1 - i; if (q & 256) j = -1 - j;
  if (p & 512) i = (int)da.size() - 1; if (q & 512) j = 0;
  const ix len = (ix)(q >> 12 & 3), len2 = (ix)(q >> 14 & 3); int w = (int)(p >> 12 & 7) - 3;
  T keep_a(a), keep_b(b); N A, B, V; { HostScope h; A = model(a); B = model(b); V = model(v); } const size_t ra = da.size(), rb = db.size(); const bool same = da == db; const int ni = norm(i, ra), nj = norm(j, rb), nja = norm(j, ra);
  auto real_only = [&](auto f) { if constexpr (std::is_same<e, double>::value) f(a, b, v); };
  auto cplx = [&]() { CTensor x(da.size() ? Indices(a.dimensions()) : Indices()); for (ix k = 0; k < x.size(); k++) x.at_seq(k) = a[k]; return x; };
  switch (op) {
  case 0: expect(o, T(-a), map_of(A, [](Z z) { return -z; })); { T r = a + b; expect(o, r, zip_of(A, B, [](Z x, Z y) { return x + y; })); } break;
  case 1: { T r = a * b; expect(o, r, zip_of(A, B, [](Z x, Z y) { return x * y; })); o.t(T(a / (b + 10.0))); expect(o, T(2.0 - a), map_of(A, [](Z z) { return 2.0 - z; })); expect(o, T(a - 2.0), map_of(A, [](Z z) { return z - 2.0; })); expect(o, T(a * 3.0), map_of(A, [](Z z) { return z * 3.0; })); expect(o, T(a / 2.0), map_of(A, [](Z z) { return z / 2.0; })); } break;
  case 2: { T c(a); c += b; expect(o, c, zip_of(A, B, [](Z x, Z y) { return x + y; })); c -= b; expect(o, c, A); c *= 2.0; c /= 4.0; c += 1.0; c -= 3.0; expect(o, c, map_of(A, [](Z z) { return z / 2.0 - 2.0; })); c *= 4.0; c += 8.0; expect(o, c, map_of(A, [](Z z) { return z * 2.0; })); c /= 2.0; c -= b; expect(o, c, zip_of(A, B, [](Z x, Z y) { return x - y; })); c *= b; expect(o, c, zip_of(A, B, [](Z x, Z y) { return (x - y) * y; })); } break;
  case 3: expect(o, abs(a), map_of(A, [](Z z) { return std::abs(z); }), 1e-15); expect(o, T(exp(a)), map_of(A, [](Z z) { return std::exp(z); }), 1e-12); expect(o, T(cos(a)), map_of(A, [](Z z) { return std::cos(z); }), 1e-12); expect(o, T(sinh(a)), map_of(A, [](Z z) { return std::sinh(z); }), 1e-12); break;
  case 4: { double m = 0, q2 = 0; for (Z z : A.x) { m = std::max(m, std::abs(z)); q2 += std::norm(z); } expect_number(o, sum(a), sum_of(A)); expect_number(o, norm0(a), m, 1e-15); expect_number(o, norm2(a), std::sqrt(q2), 1e-14); } break;
  case 5: if (a.size()) expect_number(o, mean(a), sum_of(A) / (double)a.size(), 1e-14); break;
  case 6: { T r = mean(a, i); if (a.size()) expect(o, r, mean_of(A, ra == 1 ? 0 : ni), 1e-14); else o.d((double)r.size()); } break;
  case 7: { double r = matrix_norminf(a), w = 0; for (long y = 0; y < da[0]; y++) { double s = 0; for (long z = 0; z < da[1]; z++) s += std::abs(A({y, z})); w = std::max(w, s); } expect_number(o, r, w, 1e-14); } break;
  case 8: if (a.size() == v.size()) { Z s = 0; for (size_t k = 0; k < A.x.size(); k++) s += A.x[k] * std::conj(V.x[k]); expect_number(o, scprod(a, v), s); } break;
  case 9: real_only([&](auto &x, auto &, auto &) { if (x.size()) { o.d(min(x)); o.d(max(x)); } o.t(round(x)); }); break;
  case 10: { expect(o, T(flatten(a)), as({(long)a.size()}, A)); T r = squeeze(a); L d; for (long x : da) if (x != 1) d.push_back(x); if (d.empty()) d = {1}; expect(o, r, as(d, A)); } break;
  case 11: { T r = reshape(a, b.dimensions()); expect(o, r, as(db, A)); } break;
  case 12: { expect(o, T(reshape(a, a.size(), 1)), as({(long)a.size(), 1}, A)); expect(o, T(reshape(a, 1, 1, a.size())), as({1, 1, (long)a.size()}, A)); } break;
  case 13: { T r = transpose(a), h = adjoint(a); expect(o, r, swap_of(A, 0, 1)); expect(o, h, swap_of(A, 0, 1, true)); } break;
  case 14: { T r = permute(a, i, j); expect(o, r, swap_of(A, ni, nja)); } break;
  case 15: { T r = diag(a); if (ra == 1) expect(o, r, diag_of(A, 0, da[0], da[0])); else o.t(r); } break;
  case 16: { T r = diag(v, w); if (dv.size() == 1) expect(o, r, diag_of(V, w, dv[0] + std::abs(w), dv[0] + std::abs(w))); else o.t(r); } break;
  case 17: { T r = diag(v, w, (int)len, (int)len2); expect(o, r, diag_of(V, w, len, len2)); } break;
  case 18: { T r = take_diag(a, w); if (ra == 2) expect(o, r, take_of(A, w, 0, 1)); else o.t(r); } break;
  case 19: { T r = take_diag(a, w, i, j); if (ni != nja) expect(o, r, take_of(A, w, ni, nja)); } break;
  case 20: { Z r = trace(a), s = 0; for (long k = 0; k < std::min(da[0], da[1]); k++) s += A({k, k}); expect_number(o, r, s); } break;
  case 21: { T r = trace(a, i, j); expect(o, r, trace_of(A, ni, nja)); } break;
  case 22: real_only([&](auto &x, auto &, auto &y) { bool rev = p & 1; RTensor f = flatten(x), r = sort(f, rev); N w = model(f); std::sort(w.x.begin(), w.x.end(), [&](Z s, Z t) { return rev ? s.real() > t.real() : s.real() < t.real(); }); expect(o, r, w); Indices k = sort_indices(y, rev); ordered(o, model(y), k, rev); }); break;
  case 23: { T r = change_dimension(a, i, len); expect(o, r, resize_of(A, ni, len)); } break;
  case 24: { T r = kron(a, b); expect(o, r, kron_of(A, B)); } break;
  case 25: { T r = kron2(a, b); expect(o, r, kron_of(B, A)); } break;
  case 26: o.t(T(kron2_sum(a, b))); break;
  case 27: { T r = fold(a, i, b, j); expect(o, r, fold_of(A, ni, B, nj, false, false)); } break;
  case 28: { T r = foldc(a, i, b, j); expect(o, r, fold_of(A, ni, B, nj, true, false)); } break;
  case 29: { T r = foldin(a, i, b, j); expect(o, r, fold_of(A, ni, B, nj, false, true)); } break;
  case 30: { T r = mmult(a, b); expect(o, r, fold_of(A, (int)ra - 1, B, 0, false, false)); } break;
  case 31: { T r = mmult(a, v); expect(o, r, fold_of(A, (int)ra - 1, V, 0, false, false)); } break;
  case 32: { T r = scale(a, i, v); expect(o, r, scale_of(A, ni, V)); } break;
  case 33: { T c(a); scale_inplace(c, i, v); expect(o, c, scale_of(A, ni, V)); } break;
  case 34: if (ra == 2) { T r = linalg::solve(a, b); o.t(r); HostScope h; N x = model(r); if (x.d != db) o.wrong = "the solution has other dimensions"; else if (rb <= 2 && r.size()) { N y = fold_of(A, 1, x, 0, false, false); close(o, "A X", y, B, size_of(A) * size_of(x) + size_of(B)); } } break;
  case 35: { T r = linalg::solve_with_svd(a, v); o.t(r); } break;
  case 36: { T U, W; RTensor s = linalg::svd(a, &U, &W, p & 1); check_svd(o, A, s, U, W, true); } break;
  case 37: { T U, W; RTensor s = linalg::block_svd(a, &U, &W, p & 1); check_svd(o, A, s, U, W, false); } break;
  case 38: o.t(linalg::svd(a)); break;
  case 39: { CTensor R, W; CTensor w = linalg::eig(a, p & 1 ? &R : nullptr, p & 2 ? &W : nullptr); o.t(w); o.t(R); o.t(W); HostScope h; if (a.size()) { if (p & 1) { N r = model(R); close(o, "A R", mul(A, r), cols_by(r, w), size_of(A)); } if (p & 2) { N l = model(W); close(o, "A' L", mul(swap_of(A, 0, 1, true), l), cols_by(l, conj(w)), size_of(A)); } } } break;
  case 40: { T R, h_ = a + adjoint(a); RTensor w = linalg::eig_sym(h_, &R); o.t(w); o.t(R); HostScope h; if (a.size()) { N r = model(R), H = model(h_); close(o, "A R", mul(H, r), cols_by(r, w), size_of(H)); close(o, "R'R", mul(swap_of(r, 0, 1, true), r), unit(da[0]), 1); } } break;
  case 41: { T r = linalg::expm(a); o.t(r); HostScope h; if (a.size()) close(o, "exp A", model(r), exp_of(A), std::exp(size_of(A))); if (ra == 2 && a.size() && a.size() <= 400) { T m = mmult(a, adjoint(a)) * (double)-(1 << (p % 12)); N M = model(m); if (size_of(M) < 1e5) { T y = linalg::expm(m); o.t(y); HostScope g; close(o, "exp -A A'", model(y), exp_of(M), 1, 1e-7); } } } break;
  case 42: { CTensor x = cplx(); N w1(A), w2(A); Booleans cv((ix)ra); for (size_t k = 0; k < ra; k++) { bool on = p >> k & 1; cv.at(k) = on; w1 = dft_of(w1, (int)k, -1); if (on) w2 = dft_of(w2, (int)k, 1); } expect(o, fftw(x, FFTW_FORWARD), w1, 1e-12); expect(o, fftw(x, cv, FFTW_BACKWARD), w2, 1e-12); fftw_inplace(x, cv, FFTW_BACKWARD); expect(o, x, w2, 1e-12); } break;
  case 43: { CTensor x = cplx(); CTensor r = fftw(x, (ix)i, FFTW_BACKWARD); expect(o, r, dft_of(A, ni, 1), 1e-12); fftw_inplace(x, (ix)i, FFTW_BACKWARD); expect(o, x, dft_of(A, ni, 1), 1e-12); } break;
  case 44: { CTensor x = cplx(); fftw_inplace(x, FFTW_FORWARD); N w1(A); for (size_t k = 0; k < ra; k++) w1 = dft_of(w1, (int)k, -1); expect(o, x, w1, 1e-12); } break;
  case 45: { CTensor x = cplx(); int dir = p & 1 ? FFTW_FORWARD : FFTW_BACKWARD; N w1(A); for (size_t k = 0; k < ra; k++) w1 = shift_of(w1, (int)k, dir); expect(o, fftshift(x, dir), w1); } break;
  case 46: { CTensor x = cplx(); int dir = p & 1 ? FFTW_FORWARD : FFTW_BACKWARD; CTensor r = fftshift(x, (ix)i, dir); expect(o, r, shift_of(A, ni, dir)); Booleans cv((ix)ra); N w1(A); for (size_t k = 0; k < ra; k++) { bool on = q >> k & 1; cv.at(k) = on; if (on) w1 = shift_of(w1, (int)k, dir); } expect(o, fftshift(x, cv, dir), w1); } break;
  case 47: if (ra == 2) { Sparse<e> s(a); o.t(s); expect(o, T(full(s)), A); } break;
  case 48: if (ra == 2 && rb == 2) { Sparse<e> s(a), r(b), y = s + r, z = s * r; o.t(y); o.t(z); expect(o, T(full(y)), zip_of(A, B, [](Z x_, Z y_) { return x_ + y_; })); expect(o, T(full(z)), zip_of(A, B, [](Z x_, Z y_) { return x_ * y_; })); Sparse<e> w(s - r); N D = zip_of(A, B, [](Z x_, Z y_) { return x_ - y_; }); expect(o, T(full(w)), D); auto stored = [&](const Sparse<e> &m, const N &g) { long n = 0; for (const Z &z_ : g.x) n += z_ != Z(0); expect_number(o, (double)m.length(), (double)n); }; stored(s, A); stored(w, D); stored(y, zip_of(A, B, [](Z x_, Z y_) { return x_ + y_; })); stored(z, zip_of(A, B, [](Z x_, Z y_) { return x_ * y_; })); } break;
  case 49: if (ra == 2) { Sparse<e> s(a), y = transpose(s), z = adjoint(s); o.t(y); o.t(z); expect(o, T(full(y)), swap_of(A, 0, 1)); expect(o, T(full(z)), swap_of(A, 0, 1, true)); } break;
  case 50: if (ra == 2) { Sparse<e> s(a); T r = mmult(s, b); expect(o, r, fold_of(A, 1, B, 0, false, false)); } break;
  case 51: if (rb == 2) { Sparse<e> s(b); T r = mmult(a, s); expect(o, r, fold_of(A, (int)ra - 1, B, 0, false, false)); } break;
  case 52: if (ra == 2 && rb == 2) { Sparse<e> s(a), r(b), y = kron(s, r), z = kron2(s, r); o.t(y); o.t(z); expect(o, T(full(y)), kron_of(A, B)); expect(o, T(full(z)), kron_of(B, A)); } break;
  case 53: { Sparse<e> s = Sparse<e>::eye(len, len2); o.t(s); o.t(T(full(s))); Sparse<e> z(len, len2); o.t(z); o.t(T(full(z))); break; }
  case 54: { T x; o.t(T(T::eye(len, len2))); o.t(T(T::zeros(len, len2))); o.t(T(T::ones(len2, len))); x = T(len, len2); x.fill_with(2.0); o.t(x); break; }
  case 55: o.t(linspace(1.0, 2.0, len)); real_only([&](auto &x, auto &y, auto &) { if (x.size() && x.size() == y.size()) o.t(linspace(x, y, (ix)len)); }); break;
  case 56: real_only([&](auto &x, auto &y, auto &) { if (x.size() == y.size()) { truth(o, x == y, A, B, [](double s, double t) { return s == t; }); truth(o, x < y, A, B, [](double s, double t) { return s < t; }); truth(o, x >= y, A, B, [](double s, double t) { return s >= t; }); } else o.t(x == y); N one(A); for (Z &z : one.x) z = 1; truth(o, x < 1.0, A, one, [](double s, double t) { return s < t; }); truth(o, 1.0 != x, one, A, [](double s, double t) { return s != t; }); Indices w = which(x < 1.0); std::vector<long> k; for (size_t q_ = 0; q_ < A.x.size(); q_++) if (A.x[q_].real() < 1) k.push_back((long)q_); { HostScope h; o.t(w); if (std::vector<long>(w.begin_const(), w.end_const()) != k) o.wrong = "which() returned other positions"; } expect_number(o, (double)all_of(x < 1.0), (double)(k.size() == A.x.size())); expect_number(o, (double)any_of(x < 1.0), (double)!k.empty()); o.d(all_equal(x, y)); }); break;
  case 57: expect_number(o, (double)all_equal(a, b), (double)(same && A.x == B.x)); break;
  case 58: { T x(a); x.at(range()) = v; o.t(x); break; }
  case 59: if (da.size() == 2) { o.t(T(a(range(), range(0, da[1] - 1)))); o.t(T(a(range(0, da[0] - 1, 2), range()))); T x(a); x.at(range(), range(0, da[1] - 1)) = b; o.t(x); } break;
  case 60: { expect(o, T(conj(a)), map_of(A, [](Z z) { return std::conj(z); })); expect(o, real(a), map_of(A, [](Z z) { return z.real(); })); expect(o, imag(a), map_of(A, [](Z z) { return z.imag(); })); expect(o, to_complex(real(a), imag(a)), A); } break;
  case 61: { Indices x((ix)(p % 7)); for (ix k = 0; k < x.size(); k++) x.at(k) = (ix)(mix(seed, (u64)k) % 5); Indices r = sort(x), y = x << x; o.t(r); std::vector<long> g(x.begin_const(), x.end_const()), u(y.begin_const(), y.end_const()), t(g); long n = g.empty() ? 0 : 1; for (long k : g) n *= k; t.insert(t.end(), g.begin(), g.end()); std::sort(g.begin(), g.end()); if (std::vector<long>(r.begin_const(), r.end_const()) != g) o.wrong = "the list is not sorted"; if (u != t) o.wrong = "the concatenation holds other numbers"; N m(L{(long)x.size()}); for (ix k = 0; k < x.size(); k++) m.x[k] = (double)x[k]; ordered(o, m, sort_indices(x), false); expect_number(o, (double)x.total_size(), (double)n); o.t(y); o.t(iota(0, (ix)w)); }; break;
  case 62: { tensor::set_seed(seed); T vec; o.z(linalg::eig_power_right(T(a), &vec, 50)); o.t(vec); break; }
  default: o.t(T(linalg::cgs(a, v, &v, 3))); break;
  }
  if (!all_equal(a, keep_a) || !all_equal(b, keep_b)) o.bad = true;
}
// Operands that fit, so that the operation has an answer.
bool fits(u32 op, const L &a, const L &b, const L &v, u32 p, u32 q) {
  int ra = (int)a.size(), rb = (int)b.size(), i = (int)(p % (a.size() + 1)), j = (int)(q % (b.size() + 1)), w = (int)(p >> 12 & 7) - 3; if (p & 256) i = -1 - i; if (q & 256) j = -1 - j; if (p & 512) i = ra - 1; if (q & 512) j = 0;
  int ni = norm(i, a.size()), nj = norm(j, b.size()), nja = norm(j, a.size()); bool vi = ni >= 0 && ni < ra, vj = nj >= 0 && nj < rb, vja = nja >= 0 && nja < ra; long na = 1, nb = 1; for (long x : a) na *= x; for (long x : b) nb *= x;
  switch (op) {
  case 0: case 1: case 2: case 48: return a == b && (op != 48 || ra == 2);
  case 3: case 4: case 10: case 12: case 42: case 44: case 45: case 47: case 49: case 57: case 60: return true;
  case 6: return na && vi; case 7: case 13: case 20: return ra == 2; case 11: return na == nb; case 14: return vi && vja; case 15: return ra == 1; case 16: return v.size() == 1;
  case 18: return ra == 2 && w > -a[0] && w < a[1];
  case 21: return vi && vja && ni != nja && i > -ra && j > -ra;
  case 23: return vi; case 24: case 25: case 26: return ra == rb && ra <= 2;
  case 27: case 28: case 29: return vi && vj && a[ni] && a[ni] == b[nj]; case 30: return b[0] && a.back() == b[0]; case 31: return v[0] && a.back() == v[0]; case 32: case 33: return vi && v.size() == 1 && v[0] == a[ni];
  case 36: case 37: case 38: return ra == 2 && na; case 39: case 40: case 41: return ra == 2 && na && a[0] == a[1];
  case 43: case 46: return i >= 0 && i < ra;
  case 50: return ra == 2 && a[1] == b[0]; case 51: return rb == 2 && a.back() == b[0]; case 52: return true;
  default: return false;
  }
}
// Ranges of one index, as asked for and as the positions they mean.
struct Span { PRange r; std::vector<long> at; };
Span span(long n, u64 h) {
  std::vector<long> at; long lo, hi;
  switch (n ? h % 7 : 6) {
  case 0: lo = (long)(h / 7 % (u64)n); return {range(lo), {lo}};
  case 1: lo = (long)(h / 7 % (u64)n); hi = lo + (long)(h / 97 % (u64)(n - lo)); for (long k = lo; k <= hi; k++) at.push_back(k); return {range(lo, hi), at};
  case 2: { lo = (long)(h / 7 % (u64)n); hi = lo + (long)(h / 97 % (u64)(n - lo)); long st = 1 + (long)(h / 1009 % 3); for (long k = lo; k <= hi; k += st) at.push_back(k); return {range(lo, hi, st), at}; }
  case 3: { Indices i((ix)(h / 7 % 5)); for (ix k = 0; k < i.size(); k++) at.push_back(i.at(k) = (ix)(mix(h, (u64)k) % (u64)n)); return {range(i), at}; }
  case 4: lo = (long)(h / 7 % (u64)(n + 1)); return {range(lo, lo - 1 - (long)(h / 97 % 2) * (lo > 0)), at};   // nothing
  default: for (long k = 0; k < n; k++) at.push_back(k); return {range(), at};
  }
}
PRange no_span(long n, u64 h) {   // with an index that does not exist
  const long k = h % 2 ? n + (long)(h / 2 % 3) : -1 - (long)(h / 2 % 3), m = n ? (long)(h / 11 % (u64)n) : 0;
  switch (h / 101 % 3) {
  case 0: return range(k);
  case 1: return k < 0 ? range(k, m) : range(m, k, 1 + (k - m) / (1 + (long)(h / 1009 % 3) * (k - m)));   // up to its end, which counts even if no step reaches it
  default: { Indices i((ix)(1 + h / 7 % 4)); for (ix x = 0; x < i.size(); x++) i.at(x) = n ? (ix)(mix(h, (u64)x) % (u64)n) : k; i.at((ix)(h / 13 % (u64)i.size())) = k; return range(i); }
  }
}
template <class T, class F> void with_view(T &t, std::vector<Span> &s, F f) {   // f(view or assignable view)
  switch (s.size()) {
  case 1: return f(t(s[0].r)); case 2: return f(t(s[0].r, s[1].r)); case 3: return f(t(s[0].r, s[1].r, s[2].r)); case 4: return f(t(s[0].r, s[1].r, s[2].r, s[3].r));
  case 5: return f(t(s[0].r, s[1].r, s[2].r, s[3].r, s[4].r)); default: return f(t(s[0].r, s[1].r, s[2].r, s[3].r, s[4].r, s[5].r));
  }
}
template <class T, class F> void with_place(T &t, std::vector<Span> &s, F f) {
  switch (s.size()) {
  case 1: return f(t.at(s[0].r)); case 2: return f(t.at(s[0].r, s[1].r)); case 3: return f(t.at(s[0].r, s[1].r, s[2].r)); case 4: return f(t.at(s[0].r, s[1].r, s[2].r, s[3].r));
  case 5: return f(t.at(s[0].r, s[1].r, s[2].r, s[3].r, s[4].r)); default: return f(t.at(s[0].r, s[1].r, s[2].r, s[3].r, s[4].r, s[5].r));
  }
}
std::vector<Span> spans(const L &d, u64 h) { std::vector<Span> s; for (size_t k = 0; k < d.size(); k++) s.push_back(span(d[k], mix(h, k))); return s; }
N view_of(const N &a, const std::vector<Span> &s) { L d; for (auto &x : s) d.push_back((long)x.at.size()); N o(d); o.each([&](L q) { for (size_t k = 0; k < q.size(); k++) q[k] = s[k].at[(size_t)q[k]]; return a(q); }); return o; }
void put(N &a, const std::vector<Span> &s, const N &v) { N o(v.d); size_t n = 0; o.each([&](L q) { for (size_t k = 0; k < q.size(); k++) q[k] = s[k].at[(size_t)q[k]]; a.x[(size_t)a.off(q)] = v.x[n++]; return Z(0); }); }
void truths(Res &o, const Booleans &r, const std::vector<char> &want) { HostScope h; o.t(r); if ((size_t)r.size() != want.size()) { o.wrong = "a list of truth values of another length"; return; } for (size_t k = 0; k < want.size(); k++) if ((bool)r[k] != (bool)want[k]) o.wrong = fmt("truth value %zu is wrong", k); }
void list(Res &o, const Indices &r, const std::vector<long> &want) { HostScope h; o.t(r); if (std::vector<long>(r.begin_const(), r.end_const()) != want) o.wrong = "a list of indices is wrong"; }
void bools(Res &o, const char *what, bool got, bool want) { HostScope h; o.d(got); if (got != want && o.wrong.empty()) o.wrong = fmt("%s is %d", what, got); }
template <class e> e lead_of(u64 h); template <> double lead_of<double>(u64 h) { return h & 1 ? 8 : -8; } template <> cdouble lead_of<cdouble>(u64 h) { return std::polar(8.0, (double)(h % 16) * 0.39269908169872414); }
template <class e> e number(u64 h); template <> double number<double>(u64 h) { return (double)(mix(h) % 7) - 3; } template <> cdouble number<cdouble>(u64 h) { return cdouble((double)(mix(h) % 7) - 3, (double)(mix(h, 1) % 5) - 2); }
template <class e> void expect_sparse(Res &o, const Sparse<e> &s, const N &want, double tol = 0) {
  o.t(s); if (o.bad) return; expect(o, Tensor<e>(full(s)), want, tol); if (tol || o.wrong.size()) return;
  const ix r = s.rows(), c = s.columns(); if (!r || !c) return; const bool wide = r * c > 100;   // also counted from the end
  for (ix y = 0; y < r; y += wide ? 1 + r / 7 : 1) for (ix x = 0; x < c; x += wide ? 1 + c / 7 : 1) { Z a(s(y, x)), b(s(y - r, x)), d(s(y, x - c)); if (a != want({(long)y, (long)x}) || b != a || d != a) { HostScope h; o.wrong = fmt("element (%d,%d) of the sparse matrix", (int)y, (int)x); return; } }
}
RTensor as_real(const N &a) { Indices d((ix)a.d.size()); for (size_t k = 0; k < a.d.size(); k++) d.at(k) = a.d[k]; RTensor t(d); for (ix k = 0; k < t.size(); k++) t.at_seq(k) = a.x[(size_t)k].real(); return t; }
template <class T> void further(u32 op, Res &o, const L &da, const L &db, const L &dv, u64 seed, u32 p, u32 q) {
  typedef typename T::elt_t e; const bool real_kind = std::is_same<e, double>::value;
  T a = build<T>(da, seed), b = build<T>(db, seed + 1), v = build<T>(dv, seed + 2); N A, B, V; { HostScope h; A = model(a); B = model(b); V = model(v); }
  const size_t ra = da.size(), rb = db.size(); const int i = (int)(p % (ra + 1)) - (p & 256 ? (int)ra : 0), j = (int)(q % (rb + 1)) - (q & 256 ? (int)rb : 0), ni = norm(i, ra), nj = norm(j, rb); const ix len = (ix)(q >> 12 & 3), len2 = (ix)(q >> 14 & 3);
  T keep_a(a), keep_b(b); const bool same = da == db; const u64 h = mix(seed, ((u64)p << 32) + q); const e c = number<e>(h); const Z zc(c);
  auto plus = [](Z x, Z y) { return x + y; }; auto minus = [](Z x, Z y) { return x - y; }; auto times = [](Z x, Z y) { return x * y; };
  switch (op) {
  case 0: if (ra == 2) {   // from coordinates and values, in any order
    std::vector<long> pos; for (size_t k = 0; k < A.x.size(); k++) if (A.x[k] != Z(0)) pos.push_back((long)k); for (size_t k = pos.size(); k > 1; k--) std::swap(pos[k - 1], pos[mix(h, k) % k]);
    Indices r((ix)pos.size()), s((ix)pos.size()); T d((ix)pos.size()); for (ix k = 0; k < r.size(); k++) { r.at(k) = pos[k] % da[0]; s.at(k) = pos[k] / da[0]; d.at_seq(k) = a[pos[k]]; }
    Sparse<e> m(r, s, d, da[0], da[1]); if (da[0] && da[1]) { expect_sparse(o, m, A); expect_number(o, (double)m.length(), (double)pos.size()); for (long x = 0; x < da[0]; x++) for (long y = 0; y < da[1]; y++) expect_number(o, Z(m(x, y)), A({x, y})); } else o.t(m);
    long mr = 0, mc = 0; for (long k : pos) mr = std::max(mr, k % da[0] + 1), mc = std::max(mc, k / da[0] + 1); Sparse<e> g(r, s, d); N C(L{mr, mc}); C.each([&](const L &t) { return A(t); }); expect_sparse(o, g, C);   // without sizes: the smallest matrix that holds them
    if (pos.size()) {   // a position given twice holds one of the values
      const ix n = r.size(), at = (ix)(h / 11 % pos.size()); Indices r2(n + 1), s2(n + 1); T d2(n + 1); for (ix k = 0; k <= n; k++) { const ix f = k < n ? k : at; r2.at(k) = r[f]; s2.at(k) = s[f]; d2.at_seq(k) = k < n ? a[pos[f]] : a[pos[f]] * (e)2.0; }
      Sparse<e> w(r2, s2, d2, da[0], da[1]); o.t(w); expect_number(o, (double)w.length(), (double)n); Z z(w(r[at], s[at])); N D(A); Z &y = D.x[(size_t)pos[at]]; if (z == 2.0 * y) y = z; expect(o, T(full(w)), D); }     } break;
  case 1: if (ra <= 6) { auto s = spans(da, h); with_view((const T &)a, s, [&](const typename T::view &w) { T r(w); expect(o, r, view_of(A, s)); }); } break;
  case 2: if (ra <= 6) { auto s = spans(da, h); N w = view_of(A, s), M(A); for (size_t k = 0; k < w.x.size(); k++) w.x[k] = number<e>(h + k); T t(a), u(as_real(w)); for (ix k = 0; k < u.size(); k++) u.at_seq(k) = number<e>(h + (u64)k); put(M, s, w); with_place(t, s, [&](typename T::mutable_view w_) { w_ = u; }); expect(o, t, M); } break;
  case 3: if (ra <= 6) { auto s = spans(da, h); N M(A), w = view_of(A, s); for (Z &z : w.x) z = zc; put(M, s, w); T t(a); with_place(t, s, [&](typename T::mutable_view w_) { w_ = c; }); expect(o, t, M);
    if (same) { auto s2 = spans(da, h); N M2(B), w2 = view_of(A, s2); put(M2, s2, w2); auto s3 = spans(da, h); T y(b); with_place(y, s2, [&](typename T::mutable_view w_) { with_view((const T &)a, s3, [&](const typename T::view &z) { w_ = z; }); }); expect(o, y, M2); } } break;
  case 4: if (da.size() && A.x.size()) { Span s = span((long)A.x.size(), h); N w(L{(long)s.at.size()}); for (size_t k = 0; k < s.at.size(); k++) w.x[k] = A.x[(size_t)s.at[k]]; T r(a(s.r)); expect(o, r, w); N M(as({(long)A.x.size()}, A)); Span s2 = span((long)A.x.size(), h); for (long k : s2.at) M.x[(size_t)k] = zc; T t(a); t.at(s2.r) = c; expect(o, T(flatten(t)), M); } break;   // all elements as a vector
  case 5: { const ix n = (ix)(p % 9); e x = number<e>(h), y = number<e>(h + 1); N w(L{(long)n}); for (ix k = 0; k < n; k++) w.x[k] = n == 1 ? Z(x) : Z(x) + (Z(y) - Z(x)) * ((double)k / (double)(n - 1)); T r = linspace(x, y, n); expect(o, r, w, 1e-14); if (a.size() == 1) {} else if (same && ra <= 4) { L d(da); d.push_back(n); N m(d); const size_t na = A.x.size(); for (size_t k = 0; k < m.x.size(); k++) m.x[k] = n == 1 ? A.x[k % na] : A.x[k % na] + (B.x[k % na] - A.x[k % na]) * ((double)(k / na) / (double)(n - 1)); T t = linspace(a, b, n); expect(o, t, m, 1e-14); } } break;
  case 6: { Indices d((ix)ra); for (size_t k = 0; k < ra; k++) d.at(k) = da[k]; N z(da), n(da); for (Z &x : n.x) x = 1; expect(o, T(T::zeros(d)), z); expect(o, T(T::ones(d)), n); if (ra == 2) { expect(o, T(T::zeros(da[0], da[1])), z); expect(o, T(T::ones(da[0], da[1])), n); expect(o, T(T::eye(da[0], da[1])), [&] { N u(da); u.each([](const L &t) { return t[0] == t[1] ? Z(1) : Z(0); }); return u; }()); expect(o, T(T::eye(da[0])), unit(da[0])); }
    if (ra == 3) { expect(o, T(T::zeros(da[0], da[1], da[2])), z); expect(o, T(T::ones(da[0], da[1], da[2])), n); } if (ra == 4) { expect(o, T(T::zeros(da[0], da[1], da[2], da[3])), z); expect(o, T(T::ones(da[0], da[1], da[2], da[3])), n); } if (ra == 5) { expect(o, T(T::zeros(da[0], da[1], da[2], da[3], da[4])), z); expect(o, T(T::ones(da[0], da[1], da[2], da[3], da[4])), n); }
    if (ra == 6) { expect(o, T(T::zeros(da[0], da[1], da[2], da[3], da[4], da[5])), z); expect(o, T(T::ones(da[0], da[1], da[2], da[3], da[4], da[5])), n); }
    T t(a); t.fill_with(c); for (Z &x : n.x) x = zc; expect(o, t, n); t.fill_with_zeros(); expect(o, t, z); } break;
  case 7: { const ix n = (ix)(h / 4 % 8 ? p % 70 : p % 700); Booleans x(n), y(n); std::vector<char> X, Y, both, either, neither; std::vector<long> w; bool all = true, any = false; const u64 kind = h % 4;
    for (ix k = 0; k < n; k++) { bool s = kind == 0 ? true : kind == 1 ? false : mix(h, (u64)k) & 1, t = mix(h, (u64)k) & 2; x.at(k) = s; y.at(k) = t; both.push_back(s && t); either.push_back(s || t); neither.push_back(!s); if (s) w.push_back(k); all = all && s; any = any || s; }
    truths(o, x && y, both); truths(o, x || y, either); truths(o, !x, neither); list(o, which(x), w); bools(o, "all_of", all_of(x), all); bools(o, "any_of", any_of(x), any); bools(o, "none_of", none_of(x), !any); } break;
  case 8: { const ix n = (ix)(h / 8 % 8 ? p % 7 : p % 200), m = (ix)(h % 5); Indices x(n), y(n); std::vector<long> X, Y; for (ix k = 0; k < n; k++) { X.push_back(x.at(k) = (ix)(mix(h, (u64)k) % 5)); Y.push_back(y.at(k) = (ix)(mix(h, (u64)k + 50) % 5)); }
    auto zip = [&](auto f) { std::vector<char> r; for (size_t k = 0; k < X.size(); k++) r.push_back(f(X[k], Y[k])); return r; }; auto one = [&](auto f) { std::vector<char> r; for (long k : X) r.push_back(f(k, (long)m)); return r; };
    truths(o, x == y, zip([](long s, long t) { return s == t; })); truths(o, x != y, zip([](long s, long t) { return s != t; })); truths(o, x < y, zip([](long s, long t) { return s < t; })); truths(o, x > y, zip([](long s, long t) { return s > t; })); truths(o, x <= y, zip([](long s, long t) { return s <= t; })); truths(o, x >= y, zip([](long s, long t) { return s >= t; }));
    truths(o, x == m, one([](long s, long t) { return s == t; })); truths(o, x != m, one([](long s, long t) { return s != t; })); truths(o, x < m, one([](long s, long t) { return s < t; })); truths(o, x > m, one([](long s, long t) { return s > t; })); truths(o, x <= m, one([](long s, long t) { return s <= t; })); truths(o, x >= m, one([](long s, long t) { return s >= t; }));
    truths(o, m == x, one([](long s, long t) { return t == s; })); truths(o, m != x, one([](long s, long t) { return t != s; })); truths(o, m < x, one([](long s, long t) { return t < s; })); truths(o, m > x, one([](long s, long t) { return t > s; })); truths(o, m <= x, one([](long s, long t) { return t <= s; })); truths(o, m >= x, one([](long s, long t) { return t >= s; }));
    bools(o, "all_equal", all_equal(x, y), X == Y); const ix lo = (ix)(h / 5 % 9) - 4, hi = (ix)(h / 50 % 12) - 4, st = 1 + (ix)(h / 700 % 3); std::vector<long> g; for (long k = lo; k <= hi; k += st) g.push_back(k); list(o, iota(lo, hi, st), g); list(o, Indices::range(lo, hi, st), g);
    long t = n ? 1 : 0; for (long k : X) t *= k; if (n < 20) expect_number(o, (double)x.total_size(), (double)t); N I(L{(long)n}); for (size_t k = 0; k < X.size(); k++) I.x[k] = (double)X[k]; expect(o, index_to_tensor(x), I); ordered(o, I, sort_indices(x, p & 256), p & 256); } break;
  case 9: if constexpr (std::is_same<e, double>::value) {
      auto one = [&](auto f) { std::vector<char> r; for (Z z : A.x) r.push_back(f(z.real(), c)); return r; }; auto zip = [&](auto f) { std::vector<char> r; for (size_t k = 0; k < A.x.size(); k++) r.push_back(f(A.x[k].real(), B.x[k].real())); return r; };
      truths(o, a == c, one([](double s, double t) { return s == t; })); truths(o, a != c, one([](double s, double t) { return s != t; })); truths(o, a < c, one([](double s, double t) { return s < t; })); truths(o, a > c, one([](double s, double t) { return s > t; })); truths(o, a <= c, one([](double s, double t) { return s <= t; })); truths(o, a >= c, one([](double s, double t) { return s >= t; }));
      truths(o, c == a, one([](double s, double t) { return t == s; })); truths(o, c != a, one([](double s, double t) { return t != s; })); truths(o, c < a, one([](double s, double t) { return t < s; })); truths(o, c > a, one([](double s, double t) { return t > s; })); truths(o, c <= a, one([](double s, double t) { return t <= s; })); truths(o, c >= a, one([](double s, double t) { return t >= s; }));
      if (same) { truths(o, a == b, zip([](double s, double t) { return s == t; })); truths(o, a != b, zip([](double s, double t) { return s != t; })); truths(o, a < b, zip([](double s, double t) { return s < t; })); truths(o, a > b, zip([](double s, double t) { return s > t; })); truths(o, a <= b, zip([](double s, double t) { return s <= t; })); truths(o, a >= b, zip([](double s, double t) { return s >= t; })); }
    } else {
      auto eq = [&](const N &x, auto at, bool w) { std::vector<char> r; for (size_t k = 0; k < x.x.size(); k++) r.push_back((x.x[k] == at(k)) == w); return r; }; auto bb = [&](size_t k) { return B.x[k]; }; auto cc = [&](size_t) { return zc; }; const Booleans (*defined[2])(const CTensor &, cdouble) = {tensor::operator==, tensor::operator!=};
      if (defined[0] && defined[1]) { truths(o, a == c, eq(A, cc, true)); truths(o, a != c, eq(A, cc, false)); truths(o, c == a, eq(A, cc, true)); truths(o, c != a, eq(A, cc, false)); } else { HostScope hs; o.wrong = "a complex tensor cannot be compared with a number"; }
      if (same) { truths(o, a == b, eq(A, bb, true)); truths(o, a != b, eq(A, bb, false)); }
    }
    { bool all = true; for (Z z : A.x) all = all && z == zc; bools(o, "all_equal", all_equal(a, c), all); T f(a); f.fill_with(c); bools(o, "all_equal", all_equal(c, f), true); } break;
  case 10: if (ra == 2 && da[0] && da[1]) {   // conjugate gradients of a positive matrix
    tensor::set_seed(seed); T m = mmult(adjoint(a), a) + T::eye(da[1]); T x0 = T::zeros(Indices(v.dimensions())); if (dv.size() == 1 && dv[0] == da[1] && dv[0] <= 8) { T x = linalg::cgs(m, v, p & 1 ? &x0 : nullptr, 4 * (int)dv[0] + 4), r = mmult(m, x); Sparse<e> sm(m); o.t(T(v)); { HostScope hs; N M = model(m); close(o, "A x", model(r), V, size_of(M) * size_of(V), 1e-7); } if (dv[0] <= 4) { T r2 = mmult(m, T(linalg::cgs(m, v))); HostScope hs2; N M = model(m); close(o, "A x, as many steps as rows", model(r2), V, size_of(M) * size_of(V), 1e-5); } if constexpr (std::is_same<e, double>::value) { T y = linalg::cgs(sm, v, p & 1 ? &x0 : nullptr, 4 * (int)dv[0] + 4); N M = model(m); close(o, "A x of a sparse matrix", model(mmult(m, y)), V, size_of(M) * size_of(V), 1e-7); } } } break;
  case 11: if (ra == 2 && same) {   // real with complex sparse matrices
    RTensor x = real(a); RSparse s(x); Sparse<e> y(b); N X = model(x); CSparse cy = to_complex(y); expect_sparse(o, cy, B);
    if constexpr (std::is_same<e, cdouble>::value) { expect_sparse(o, CSparse(s + y), zip_of(X, B, plus)); expect_sparse(o, CSparse(s - y), zip_of(X, B, minus)); expect_sparse(o, CSparse(s * y), zip_of(X, B, times)); expect_sparse(o, CSparse(y + s), zip_of(B, X, plus)); expect_sparse(o, CSparse(y - s), zip_of(B, X, minus)); expect_sparse(o, CSparse(y * s), zip_of(B, X, times)); }
    else { CSparse g = s * cdouble(1, 2); expect_sparse(o, g, map_of(X, [](Z z) { return z * Z(1, 2); })); CSparse g2 = cdouble(0, 2) * s; expect_sparse(o, g2, map_of(X, [](Z z) { return z * Z(0, 2); })); CSparse g3 = s / cdouble(0, 2); expect_sparse(o, g3, map_of(X, [](Z z) { return z / Z(0, 2); }), 1e-15); } } break;
  case 12: if (ra == 2) { Sparse<e> s(a); expect_sparse(o, Sparse<e>(s * c), map_of(A, [&](Z z) { return z * zc; })); expect_sparse(o, Sparse<e>(c * s), map_of(A, [&](Z z) { return z * zc; })); expect_sparse(o, Sparse<e>(s / (e)4.0), map_of(A, [&](Z z) { return z / 4.0; })); expect_sparse(o, Sparse<e>(-s), map_of(A, [&](Z z) { return -z; })); expect_sparse(o, RSparse(real(s)), map_of(A, [&](Z z) { return z.real(); })); expect_sparse(o, RSparse(imag(s)), map_of(A, [&](Z z) { return z.imag(); })); expect_sparse(o, Sparse<e>(conj(s)), map_of(A, [&](Z z) { return std::conj(z); }));
    for (long x = 0; x < da[0]; x++) for (long y = 0; y < da[1]; y++) if (A.x.size() < 40) expect_number(o, Z(s(x, y)), A({x, y})); bools(o, "is_empty", s.is_empty(), A.x.empty()); bools(o, "all_equal", all_equal(s, a), true); if (rb == 2) { Sparse<e> t(b); bools(o, "all_equal", all_equal(s, t), same && A.x == B.x); } } break;
  case 13: if (same) {   // real with complex tensors and numbers
    RTensor x = real(a); N X = model(x); CTensor w = to_complex(b); N W = model(w); expect(o, CTensor(x + w), zip_of(X, W, plus)); expect(o, CTensor(x - w), zip_of(X, W, minus)); expect(o, CTensor(x * w), zip_of(X, W, times)); expect(o, CTensor(w + x), zip_of(W, X, plus)); expect(o, CTensor(w - x), zip_of(W, X, minus)); expect(o, CTensor(w * x), zip_of(W, X, times)); expect(o, CTensor(w / (x + 10.0)), zip_of(W, X, [](Z s, Z t) { return s / (t + 10.0); }), 1e-15);
    expect(o, CTensor(x * cdouble(1, 2)), map_of(X, [](Z z) { return z * Z(1, 2); })); expect(o, CTensor(cdouble(1, 2) + x), map_of(X, [](Z z) { return z + Z(1, 2); })); expect(o, CTensor(cdouble(1, 2) - x), map_of(X, [](Z z) { return Z(1, 2) - z; })); expect(o, CTensor(w * 2.0), map_of(W, [](Z z) { return z * 2.0; })); expect(o, CTensor(2.0 - w), map_of(W, [](Z z) { return 2.0 - z; })); expect(o, CTensor(w - 2.0), map_of(W, [](Z z) { return z - 2.0; })); expect(o, CTensor(2.0 / (w + 10.0)), map_of(W, [](Z z) { return 2.0 / (z + 10.0); }), 1e-15); } break;
  case 14: { RTensor x = real(a); N X = model(x); CTensor w = to_complex(b); N W = model(w); if (p & 1) { CTensor r = fold(x, i, w, j); expect(o, r, fold_of(X, ni, W, nj, false, false)); r = foldc(x, i, w, j); expect(o, r, fold_of(X, ni, W, nj, true, false)); } else { CTensor r = fold(w, j, x, i); expect(o, r, fold_of(W, nj, X, ni, false, false)); r = foldc(w, j, x, i); expect(o, r, fold_of(W, nj, X, ni, true, false)); } } break;
  case 15: { RTensor x = real(a); N X = model(x); CTensor w = to_complex(b); N W = model(w); if (p & 1) { CTensor r = mmult(x, w); expect(o, r, fold_of(X, (int)ra - 1, W, 0, false, false)); } else { CTensor r = mmult(w, x); expect(o, r, fold_of(W, (int)rb - 1, X, 0, false, false)); } } break;
  case 16: { CTensor w = to_complex(a); RTensor y = real(v); N Y = model(y); CTensor r = scale(w, i, y); expect(o, r, scale_of(A, ni, Y)); scale_inplace(w, i, y); expect(o, w, scale_of(A, ni, Y)); } break;
  case 17: if constexpr (std::is_same<e, double>::value) { T r(v); fold_into(r, a, i, b, j); expect(o, r, fold_of(A, ni, B, nj, false, false)); } break;
  case 18: if constexpr (std::is_same<e, double>::value) { T r(v); foldin_into(r, a, i, b, j); expect(o, r, fold_of(A, ni, B, nj, false, true)); } break;
  case 19: if constexpr (std::is_same<e, double>::value) { T r(v); mmult_into(r, a, b); expect(o, r, fold_of(A, (int)ra - 1, B, 0, false, false)); } break;
  case 20: if (a.size()) {   // elements, also counted from the end
    L at; for (size_t k = 0; k < ra; k++) at.push_back((long)(mix(h, k) % (u64)da[k])); L g(at); for (size_t k = 0; k < ra; k++) if (mix(h, k + 100) % 3 == 0) g[k] -= da[k]; N M(A); M.x[(size_t)A.off(at)] = zc; T t(a); Z z = 0;
    switch (ra) { case 1: z = Z(a(g[0])); t.at(g[0]) = c; break; case 2: z = Z(a(g[0], g[1])); t.at(g[0], g[1]) = c; break; case 3: z = Z(a(g[0], g[1], g[2])); t.at(g[0], g[1], g[2]) = c; break; case 4: z = Z(a(g[0], g[1], g[2], g[3])); t.at(g[0], g[1], g[2], g[3]) = c; break; case 5: z = Z(a(g[0], g[1], g[2], g[3], g[4])); t.at(g[0], g[1], g[2], g[3], g[4]) = c; break; case 6: z = Z(a(g[0], g[1], g[2], g[3], g[4], g[5])); t.at(g[0], g[1], g[2], g[3], g[4], g[5]) = c; break; default: z = A(at); t.at_seq((ix)A.off(at)) = c; }
    expect_number(o, z, A(at)); expect(o, t, M); for (size_t k = 0; k < ra; k++) { expect_number(o, (double)a.dimension((int)k), (double)da[k]); } expect_number(o, (double)a.rows(), (double)da[0]); if (ra > 1) expect_number(o, (double)a.columns(), (double)da[1]);
    ix n[6]; if (ra == 1) { a.get_dimensions(n); } if (ra == 2) a.get_dimensions(n, n + 1); if (ra == 3) a.get_dimensions(n, n + 1, n + 2); if (ra == 4) a.get_dimensions(n, n + 1, n + 2, n + 3); if (ra == 5) a.get_dimensions(n, n + 1, n + 2, n + 3, n + 4); if (ra == 6) a.get_dimensions(n, n + 1, n + 2, n + 3, n + 4, n + 5); if (ra <= 6) for (size_t k = 0; k < ra; k++) expect_number(o, (double)n[k], (double)da[k]); } break;
  case 21: expect(o, T(sin(a)), map_of(A, [](Z z) { return std::sin(z); }), 1e-12); expect(o, T(cosh(a)), map_of(A, [](Z z) { return std::cosh(z); }), 1e-12); expect(o, T(tanh(a)), map_of(A, [](Z z) { return std::tanh(z); }), 1e-12); { T t = abs(a) + 1.0; N X = model(t); expect(o, T(sqrt(t)), map_of(X, [](Z z) { return std::sqrt(z); }), 1e-13); expect(o, T(log(t)), map_of(X, [](Z z) { return std::log(z); }), 1e-13); expect(o, T(tan(a * 0.25)), map_of(A, [](Z z) { return std::tan(z * 0.25); }), 1e-12); } break;
  case 22: if (ra == 2 && rb <= 2) { bool tr = p & 1; T r = MatrixMap<T>(a, tr)(b); expect(o, r, tr ? fold_of(B, (int)rb - 1, A, 0, false, false) : fold_of(A, 1, B, 0, false, false)); Sparse<e> s(a); T g = MatrixMap<Sparse<e> >(s, tr)(b); expect(o, g, tr ? fold_of(B, (int)rb - 1, A, 0, false, false) : fold_of(A, 1, B, 0, false, false)); } break;
  case 23: { Indices d((ix)ra); for (size_t k = 0; k < ra; k++) d.at(k) = da[k]; T t(d, flatten(a)); expect(o, t, A); std::vector<e> sv; { HostScope hs; for (ix k = 0; k < a.size(); k++) sv.push_back(a[k]); } T u(sv); expect(o, u, as({(long)a.size()}, A)); T w(a); if (da == db || (long)A.x.size() == (long)B.x.size()) { Indices d2((ix)rb); for (size_t k = 0; k < rb; k++) d2.at(k) = db[k]; w.reshape(d2); expect(o, w, as(db, A)); } { HostScope hs; std::vector<e>().swap(sv); } T s; s = a; expect(o, s, A); bools(o, "is_empty", a.is_empty(), A.x.empty()); } break;
  case 24: if constexpr (std::is_same<e, double>::value) { if (a.size()) { double lo = 1e9, hi = -1e9; for (Z z : A.x) lo = std::min(lo, z.real()), hi = std::max(hi, z.real()); expect_number(o, min(a), lo); expect_number(o, max(a), hi); } const double f = p & 1 ? 0.375 : 0.5; RTensor x = a * f; expect(o, round(x), map_of(A, [&](Z z) { return std::round(z.real() * f); })); } break;
  case 25: { const ix n = a.size(); expect(o, T(reshape(a, n)), as({(long)n}, A)); expect(o, T(reshape(a, 1, n, 1, 1)), as({1, (long)n, 1, 1}, A)); expect(o, T(reshape(a, 1, 1, n, 1, 1)), as({1, 1, (long)n, 1, 1}, A)); expect(o, T(reshape(a, n, 1, 1, 1, 1, 1)), as({(long)n, 1, 1, 1, 1, 1}, A)); T x(a); expect(o, T(permute(a)), swap_of(A, 0, (int)ra - 1)); if (ra == 2 && a.size()) expect(o, T(x.diag(0)), take_of(A, 0, 0, 1)); } break;
  case 26: { RTensor s = linalg::svd(a); HostScope hs; if (ra == 2 && a.size()) { double g = 0; for (ix k = 0; k < s.size(); k++) g += s[k] * s[k]; expect_number(o, std::sqrt(g), size_of(A), 1e-11); } o.t(s); } break;
  case 27: if (ra == 2) {   // the smallest solution of least squares
    T r = linalg::solve_with_svd(a, b, 1e-8); o.t(r); HostScope hs; if (db[0] == da[0] && a.size() && rb <= 2) { N x = model(r), Y = fold_of(A, 1, x, 0, false, false), R = zip_of(Y, B, minus), H = swap_of(A, 0, 1, true), z = fold_of(H, 1, R, 0, false, false), zero(z.d); if (da[0] <= 8 && da[1] <= 8) { close(o, "A'(A x - b)", z, zero, size_of(A) * (size_of(A) * size_of(x) + size_of(B)), 1e-10); } }
    if (rb == 1 && db[0] == da[0] && a.size()) {   // and with a tolerance that leaves some singular values out
      T U, W; RTensor s = linalg::svd(a, &U, &W, true); const ix m = s.size(), at = (ix)(h % (u64)m); const double low = at + 1 < m ? s[at + 1] : 0, tol = (s[at] + low) / 2; if (tol < 1e-3 || s[at] - low < 1e-3 * s[0]) break;
      T r2 = linalg::solve_with_svd(a, b, tol); HostScope hs2; N u = model(U), w = model(W), want(L{da[1]}); for (long k = 0; k <= (long)at; k++) { Z z = 0; for (long y = 0; y < da[0]; y++) z += std::conj(u({y, k})) * B.x[(size_t)y]; for (long y = 0; y < da[1]; y++) want.x[(size_t)y] += std::conj(w({k, y})) * z / s[k]; } close(o, "the solution within the tolerance", model(r2), want, size_of(want), 1e-8); } } break;
  case 28: if (ra == rb && ra <= 2) {   // the sum of operators on two spaces; in which order is not said
    T r = kron2_sum(a, b); o.t(r); if (ra == 2 && da[0] == da[1] && db[0] == db[1]) { HostScope hs; N g = model(r), w1 = zip_of(kron_of(A, unit(db[0])), kron_of(unit(da[0]), B), plus), w2 = zip_of(kron_of(unit(db[0]), A), kron_of(B, unit(da[0])), plus); if (!(g.d == w1.d && g.x == w1.x) && !(g.d == w2.d && g.x == w2.x)) o.wrong = "kron2_sum() is the sum in neither order"; }
    if (ra == 2) { Sparse<e> s(a), t(b), y = kron2_sum(s, t); o.t(y); if (da[0] == da[1] && db[0] == db[1]) { T f = full(y); HostScope hs; N g = model(f), w1 = zip_of(kron_of(A, unit(db[0])), kron_of(unit(da[0]), B), plus), w2 = zip_of(kron_of(unit(db[0]), A), kron_of(B, unit(da[0])), plus); if (!(g.d == w1.d && g.x == w1.x) && !(g.d == w2.d && g.x == w2.x)) o.wrong = "kron2_sum() of sparse matrices is the sum in neither order"; } } } break;
  case 29: { Sparse<e> s = Sparse<e>::eye(len, len2), z(len, len2), y = Sparse<e>::eye(len); N u(L{(long)len, (long)len2}); N zero(u); u.each([](const L &t) { return t[0] == t[1] ? Z(1) : Z(0); }); expect_sparse(o, s, u); expect_sparse(o, z, zero); expect_sparse(o, y, unit(len)); } break;
  case 30: { T t(a); t += t; expect(o, t, map_of(A, [](Z z) { return 2.0 * z; })); t -= t; expect(o, t, N(da)); T u(a); u = u + u; expect(o, u, map_of(A, [](Z z) { return 2.0 * z; })); if (ra == 2 && da[0] == da[1] && da[0]) { T m(a); m = mmult(m, m); expect(o, m, mul(A, A)); m = transpose(m); expect(o, m, swap_of(mul(A, A), 0, 1)); } } break;   // the operand is also the result
  case 32: if (ra <= 6) {   // a view of an index that does not exist
    auto s = spans(da, h); const size_t k = h % ra; s[k].r = no_span(da[k], mix(h, 17)); if (p & 1) { T t(a); with_place(t, s, [&](typename T::mutable_view w_) { w_ = c; }); o.t(t); } else with_view((const T &)a, s, [&](const typename T::view &w) { T r(w); o.t(r); });
    HostScope hs; o.wrong = "a range with an index that does not exist was taken"; } break;
  case 33: if (ra <= 6) {   // from a view to a view, also of the same tensor
    auto s = spans(da, h), u = s; N M(A); for (size_t k = 0; k < ra; k++) { u[k].at.clear(); const long n = (long)s[k].at.size(), m = da[k]; if (n == m) { for (long x = 0; x < n; x++) u[k].at.push_back(x); u[k].r = range(); } else { Indices i((ix)n); for (ix x = 0; x < n; x++) u[k].at.push_back(i.at(x) = (ix)(mix(h, (u64)(x + 64)) % (u64)m)); u[k].r = range(i); } }
    put(M, s, view_of(A, u)); T t(a); with_place(t, s, [&](typename T::mutable_view w_) { if (q & 1) with_view((const T &)t, u, [&](const typename T::view &w) { w_ = w; }); else with_view((const T &)a, u, [&](const typename T::view &w) { w_ = w; }); }); expect(o, t, M); } break;
  case 35: if (ra == 2 && da[0] == da[1] && da[0] && da[0] <= 9) {   // powers of a matrix with one large eigenvalue
    const long n = da[0]; T m = a * (0.5 / (1.0 + norm2(a))); const e lead = lead_of<e>(h); for (long k = 0; k < n; k++) m.at(k, k) += k == (long)(h % (u64)n) ? lead : e(1.0);
    T x, y; Sparse<e> sm(m); T sx, sy; tensor::set_seed(seed); const e wr = linalg::eig_power_right(m, &x, 200, 1e-14), wl = linalg::eig_power_left(m, &y, 200, 1e-14), sr = linalg::eig_power_right(sm, &sx, 200, 1e-14), sl = linalg::eig_power_left(sm, &sy, 200, 1e-14);
    HostScope g; N M = model(m); auto right = [&](const char *what, const T &v_, e w) { N r = model(v_); close(o, what, fold_of(M, 1, r, 0, false, false), map_of(r, [&](Z z) { return z * Z(w); }), 8, 1e-5); if (r.d != L{n} || std::abs(size_of(r) - 1) > 1e-8) o.wrong = fmt("%s: not a vector of length one", what); if (std::abs(w - lead) > 1) o.wrong = fmt("%s: another eigenvalue", what); }; auto left = [&](const char *what, const T &v_, e w) { M = swap_of(M, 0, 1); right(what, v_, w); M = swap_of(M, 0, 1); };
    right("M v", x, wr); left("v M", y, wl); right("M v, sparse", sx, sr); left("v M, sparse", sy, sl); o.z(cdouble(wr)); o.z(cdouble(wl)); o.t(x); o.t(y); }
    if (ra == 2 && da[0] != da[1]) { RTensor w = p & 1 ? linalg::eig_sym(a) : RTensor(real(linalg::eig(a))); o.t(w); HostScope g; o.wrong = "the eigenvalues of a matrix that is not square"; } break;
  case 34: {   // elements that do not exist
    const size_t k = h % ra; L g(da); for (size_t x = 0; x < ra; x++) g[x] = da[x] ? (long)(mix(h, x) % (u64)da[x]) : 0; g[k] = h / 8 % 2 ? da[k] + (long)(h / 16 % 3) : -da[k] - 1 - (long)(h / 16 % 3); T t(a); Z z = 0; if (ra > 6) break;
    if (ra == 2 && h / 64 % 2) { Sparse<e> s(a); z = Z(s(g[0], g[1])); } else if (p & 1) switch (ra) { case 1: t.at(g[0]) = c; break; case 2: t.at(g[0], g[1]) = c; break; case 3: t.at(g[0], g[1], g[2]) = c; break; case 4: t.at(g[0], g[1], g[2], g[3]) = c; break; case 5: t.at(g[0], g[1], g[2], g[3], g[4]) = c; break; default: t.at(g[0], g[1], g[2], g[3], g[4], g[5]) = c; }
    else switch (ra) { case 1: z = Z(a(g[0])); break; case 2: z = Z(a(g[0], g[1])); break; case 3: z = Z(a(g[0], g[1], g[2])); break; case 4: z = Z(a(g[0], g[1], g[2], g[3])); break; case 5: z = Z(a(g[0], g[1], g[2], g[3], g[4])); break; default: z = Z(a(g[0], g[1], g[2], g[3], g[4], g[5])); }
    o.z(cdouble(z)); o.t(t); HostScope hs; o.wrong = "an element that does not exist was taken"; } break;
  default: { u32 type = p % 3; tensor::rand_reseed(); T r = T::random(Indices(a.dimensions())); HostScope hs; N g = model(r); (void)type; if (g.d != da) o.wrong = "random() has the dimensions " + str(g.d); for (Z z : g.x) if (!(z.real() >= 0 && z.real() < 1.0000001 && z.imag() >= 0 && z.imag() < 1.0000001)) o.wrong = "random() left its range"; } break;
  }
  if (!all_equal(a, keep_a) || !all_equal(b, keep_b)) o.bad = true;
}
const u32 NMORE = 36;
bool fits_further(u32 op, const L &a, const L &b, const L &v, u32 p, u32 q) {
  const int ra = (int)a.size(), rb = (int)b.size(), i = (int)(p % (u32)(ra + 1)) - (p & 256 ? ra : 0), j = (int)(q % (u32)(rb + 1)) - (q & 256 ? rb : 0), ni = norm(i, a.size()), nj = norm(j, b.size()); const bool vi = ni >= 0 && ni < ra, vj = nj >= 0 && nj < rb;
  switch (op) {
  case 0: return true; case 32: case 34: return false; case 35: return ra == 2 && a[0] == a[1]; case 14: case 17: case 18: return vi && vj && a[ni] && a[ni] == b[nj];
  case 15: return p & 1 ? b[0] && a.back() == b[0] : a[0] && b.back() == a[0]; case 19: return b[0] && a.back() == b[0];
  case 16: return vi && v.size() == 1 && v[0] == a[ni]; case 22: return ra == 2 && (p & 1 ? a[0] && b.back() == a[0] : b[0] && a[1] == b[0]);
  case 26: { long n = 1; for (long x : a) n *= x; return ra == 2 && n; } case 27: { long n = 1; for (long x : a) n *= x; return ra == 2 && n && b[0] == a[0]; }
  default: return true;
  }
}
u64 hash_of(const void *p, size_t n) { u64 h = n; for (size_t k = 0; k < n; k++) h = (h ^ ((const u8 *)p)[k]) * 0x100000001b3ull; return h; }
// What is left in memory: once it may be kept for the next time, but it does not grow.
template <class F> void no_leak(const std::string &what, const char *when, u64 since, F again) {
  std::string d; u64 n; { HostScope h; n = heap_leaked_since(me(), since, &d); } if (!n) return;
  u64 s1 = heap_serial(); again(); HostScope h; d.clear(); if ((n = heap_leaked_since(me(), s1, &d))) violate("leak", "%s leaves %llu blocks behind%s:%s", what.c_str(), (unsigned long long)n, when, d.c_str());
}
void shapes() {
  u32 n = 1 + choose(3), answers = 0; std::string desc;
  for (u32 k = 0; k < n; k++) {
    u32 op = choose(NOPS + NMORE); bool z = flip(1, 2); L da = dims(), db = like(da), dv = flip(1, 2) ? like(da) : L{flip(1, 2) ? da[choose((u32)da.size())] : dim()}; u64 seed = choose(1u << 20); for (u32 x : {3u, 4u, 34u, 35u, 36u, 37u, 39u, 40u, 41u, 62u, 63u, 64u + 10, 64u + 21, 64u + 26, 64u + 27}) if (op == x && seed >> 17 != 0) seed |= 15u << 16; u32 p = choose(1u << 16), q = choose(1u << 16); u8 fill[2] = {(u8)choose(256), (u8)choose(256)};
    if (flip(1, 4)) dv = {da.back()};
    if (!choose(16) && !(op >= 24 && op <= 26) && op != 52 && op != 41 && op != 64 + 10 && op != 64 + 27 && op != 64 + 28) {   // larger ones: the same length wherever it was the same
      static const long B[] = {5, 7, 8, 16, 17, 24, 32, 33, 64, 65, 100, 130, 300, 257, 1000, 1025, 4097}; bool huge = !choose(4); long most = 3000; if (huge) { huge = false; for (u32 x : {0u, 1u, 2u, 3u, 4u, 5u, 6u, 10u, 11u, 12u, 13u, 14u, 18u, 19u, 21u, 22u, 23u, 32u, 33u, 47u, 48u, 49u, 56u, 57u, 60u, 65u, 66u, 67u, 68u, 69u, 77u, 80u, 84u, 87u, 88u, 89u, 97u}) huge = huge || op == x; if (huge) most = 20000; } long to[5]; for (long &x : to) x = B[choose(huge ? 17 : 13)];
      auto grow = [&](L d) { for (long &x : d) if (x > 1) { long n = 1; for (long y : d) n *= std::max(y, 1L); if (n / x * to[x] <= ((op >= 27 && op <= 31) || (op >= 64 + 14 && op <= 64 + 19) || op == 64 + 22 ? 300 : most)) x = to[x]; } return d; }; da = grow(da), db = grow(db), dv = grow(dv); count("larger");
    }
    std::string what = fmt("operation %u on %s tensors %s, %s, %s (%u, %u)", op, z ? "complex" : "real", str(da).c_str(), str(db).c_str(), str(dv).c_str(), p, q); note("%s", what.c_str()); event(72, hash_of(what.data(), what.size())); desc += what + "; ";
    auto go = [&](Res &o) { lib([&] { if (op >= NOPS) { if (z) further<CTensor>(op - NOPS, o, da, db, dv, seed, p, q); else further<RTensor>(op - NOPS, o, da, db, dv, seed, p, q); } else if (z) compute<CTensor>(op, o, da, db, dv, seed, p, q); else compute<RTensor>(op, o, da, db, dv, seed, p, q); }); };
    Res r[2]; End end[2]; u64 allocs = 0; bool early = flip(1, 12);
    for (u32 turn = 0; turn < 2; turn++) {
      cfg.fill = fill[turn]; Res &o = r[turn];
      Proc *pr = spawn(fmt("p%u.%u", k, turn), [&] {
        if (turn && early) {                                // first from a static object that is constructed before the library's
          fresh_image(me(), true); go(o); run_static_constructors(); Res later; go(later); HostScope h; probe("computing before the library's static objects"); event(75);
          if (!(later.o == o.o)) violate("garbage", "%s: other results before the library's static objects are constructed: %s", what.c_str(), diff(later.o, o.o).c_str());
          return;
        }
        u64 s0 = heap_serial(), a0 = self()->allocs; go(o); if (!turn) allocs = self()->allocs - a0; no_leak(what, "", s0, [&] { Res again; go(again); }); });
      run(); end[turn] = pr->end; event(70, (u64)pr->end, hash_of(o.o.v.data(), o.o.v.size() * sizeof(double)));
    }
    if (end[0] == End::Returned && allocs && flip(1, 4)) {   // and once without enough memory
      u64 nth = flip(1, 2) ? 1 + choose((u32)allocs) : allocs - small((u32)allocs); bool oom = false, hit = false, done = false; Res o; note("its allocation %llu of %llu fails", (unsigned long long)nth, (unsigned long long)allocs);
      auto starve = [&](Res &x) { self()->fail_alloc_in = (i64)nth; try { go(x); } catch (std::bad_alloc &) { oom = true; } hit = self()->fail_alloc_in < 0; self()->fail_alloc_in = -1; };
      Proc *pr = spawn(fmt("p%u.starved", k), [&] { u64 s0 = heap_serial(); starve(o); bool threw = oom; no_leak(what, " when it runs out of memory", s0, [&] { Res x; starve(x); }); if (threw) { Res x; go(x); HostScope h; if (!(x.o == r[0].o)) violate("garbage", "%s: other results after an attempt that ran out of memory: %s", what.c_str(), diff(r[0].o, x.o).c_str()); } done = true; });
      run(); event(71, (u64)pr->end, hit);
      if (pr->end != End::Running) { if (hit) count("failed allocations"); if (!done) violate("stopped", "%s %s when its allocation %llu of %llu failed", what.c_str(), end_name(pr->end), (unsigned long long)nth, (unsigned long long)allocs); if (!oom && !(o.o == r[0].o)) violate("garbage", "%s: other results when an allocation fails: %s", what.c_str(), diff(r[0].o, o.o).c_str()); }
    }
    if (end[0] == End::Running || end[1] == End::Running) { count("unfinished"); continue; }   // too long for this run
    if (end[0] != end[1]) violate("garbage", "%s %s once and %s %s", what.c_str(), end_name(end[0]), end_name(end[1]), early ? "before the library's static objects are constructed" : "once, only the earlier content of the memory differing");
    if (end[0] != End::Returned && (op >= NOPS ? fits_further(op - NOPS, da, db, dv, p, q) : fits(op, da, db, dv, p, q))) violate("refused", "%s %s although the operands fit", what.c_str(), end_name(end[0]));
    if (end[0] == End::Returned) {
      static const u32 strict[] = {14, 23, 27, 28, 30, 31, 43, 46, 64 + 14, 64 + 15}; bool must = false; for (u32 s : strict) must = must || s == op;   // those that say what they take
      if (must && !(op >= NOPS ? fits_further(op - NOPS, da, db, dv, p, q) : fits(op, da, db, dv, p, q))) violate("wrong-value", "%s answers although the operands do not fit", what.c_str());
      answers++;
      if (r[0].wrong.size() || r[1].wrong.size()) violate("wrong-value", "%s: %s", what.c_str(), (r[0].wrong.size() ? r[0] : r[1]).wrong.c_str());
      if (r[0].bad || r[1].bad) violate("inconsistent", "%s: the dimensions of a result do not agree with its data, or an operand changed", what.c_str());
      if (!(r[0].o == r[1].o)) violate("garbage", "%s: the results depend on the earlier content of the memory: %s", what.c_str(), diff(r[0].o, r[1].o).c_str());
    } else count("refused");
  }
  if (answers) nontrivial(); count("answers", answers); sample(desc);
}
}
SCENARIO(C20, shapes, 1) { shapes(); }
