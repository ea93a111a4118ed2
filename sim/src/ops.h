// A catalogue of computations on separate objects, for C12 and C13.
#pragma once
#include "core.h"
#include "fs.h"
#include <cmath>
#include <complex>
#include <cstring>
#include <sstream>
#include <tensor/arpack.h>
#include <tensor/fftw.h>
#include <tensor/gen.h>
#include <tensor/io.h>
#include <tensor/jobs.h>
#include <tensor/linalg.h>
#include <tensor/rand.h>
#include <tensor/sdf.h>
#include <tensor/sparse.h>
#include <tensor/tensor.h>
namespace ops {
using namespace sim;
using namespace tensor;
using namespace sdf;
using namespace jobs;
typedef std::complex<double> Z;
typedef tensor::index ix;
using tensor::range;

// Results, as numbers.
struct Out {
  std::vector<double> v;
  void d(double x) { HostScope h; v.push_back(x); }
  void z(const cdouble &x) { d(x.real()); d(x.imag()); }
  void t(const RTensor &a) { HostScope h; v.push_back((double)a.rank()); for (int k = 0; k < a.rank(); k++) v.push_back((double)a.dimension(k)); v.insert(v.end(), a.begin_const(), a.end_const()); }
  void t(const CTensor &a) { HostScope h; v.push_back((double)a.rank()); for (int k = 0; k < a.rank(); k++) v.push_back((double)a.dimension(k)); for (const cdouble *p = a.begin_const(); p != a.end_const(); ++p) { v.push_back(p->real()); v.push_back(p->imag()); } }
  void t(const Indices &a) { HostScope h; v.push_back((double)a.size()); v.insert(v.end(), a.begin_const(), a.end_const()); }
  void t(const Booleans &a) { HostScope h; v.push_back((double)a.size()); v.insert(v.end(), a.begin_const(), a.end_const()); }
  template <class e> void t(const Sparse<e> &a) { t(a.priv_dims()); t(a.priv_row_start()); t(a.priv_column()); t(a.priv_data()); }
  void text(const std::string &s) { HostScope h; v.push_back((double)s.size()); for (char c : s) v.push_back(c); }
  bool operator==(const Out &o) const { return v.size() == o.v.size() && (v.empty() || !memcmp(v.data(), o.v.data(), v.size() * sizeof(double))); }
};
inline std::string diff(const Out &a, const Out &b) {
  if (a.v.size() != b.v.size()) return fmt("%zu numbers instead of %zu", a.v.size(), b.v.size());
  for (size_t k = 0; k < a.v.size(); k++) if (memcmp(&a.v[k], &b.v[k], sizeof(double))) return fmt("number %zu of %zu is %.17g instead of %.17g", k, a.v.size(), a.v[k], b.v[k]);
  return "equal";
}
// Operands: reproducible from the seed.
struct Ctx {
  u64 s; int id; const char *name = "";
  std::vector<RTensor *> r; std::vector<CTensor *> c; std::vector<RSparse *> rs; std::vector<CSparse *> cs; std::vector<Indices *> ii; std::vector<Booleans *> bb;
  std::function<void(const std::function<void(Out &)> &)> go;   // runs the computation
  std::function<void()> in_callback;                            // called by user operators
  Ctx(u64 seed, int i = 0) : s(seed), id(i) {}
  ~Ctx() { lib([&] { for (auto p : r) delete p; for (auto p : c) delete p; for (auto p : rs) delete p; for (auto p : cs) delete p; for (auto p : ii) delete p; for (auto p : bb) delete p; }); }
  u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  u32 pick(u32 n) { return (u32)(next() >> 33) % n; }
  long some(long lo, u32 n) { return lo + (long)(pick(24) ? pick(n) : pick(n * 9)); }   // mostly small, now and then larger
  double real() { return (double)(next() >> 11) / 9007199254740992.0 * 4 - 2; }
  double num(double) { return real(); }
  cdouble num(cdouble) { double a = real(); return cdouble(a, real()); }
  template <class T> T *keep(std::vector<T *> &l, T *p) { HostScope h; l.push_back(p); return p; }
  std::vector<RTensor *> &list(RTensor *) { return r; } std::vector<CTensor *> &list(CTensor *) { return c; }
  std::vector<RSparse *> &list(RSparse *) { return rs; } std::vector<CSparse *> &list(CSparse *) { return cs; }
  template <class T> T &dense(const std::vector<long> &d) {
    return lib([&]() -> T & { Indices n((ix)d.size()); for (size_t k = 0; k < d.size(); k++) n.at(k) = d[k]; T *p = new T(n); for (ix k = 0; k < p->size(); k++) p->at_seq(k) = num(typename T::elt_t()); return *keep(list((T *)0), p); });
  }
  template <class T> T &spd(long n) {          // symmetric or hermitian, positive, well conditioned
    T &a = dense<T>({n, n}); lib([&] { T b = a + adjoint(a); a = b; for (long k = 0; k < n; k++) a.at(k, k) = (double)(4 * n) + (double)k; }); return a;
  }
  template <class T> T &herm(long n) { T &a = dense<T>({n, n}); lib([&] { T b = a + adjoint(a); a = b; for (long k = 0; k < n; k++) a.at(k, k) = real() * 3 + (double)(k * k); }); return a; }
  template <class T> T &blocks(long n, long m) { // block structure after a permutation
    T &a = dense<T>({n, m}); u32 g = 1 + pick(3); u64 salt = next();
    lib([&] { for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) if ((u32)(mix(salt, (u64)i) >> 40) % g != (u32)(mix(salt, (u64)j) >> 40) % g) a.at(i, j) = 0.0; }); return a;
  }
  template <class S> S &sparse(long n, long m, u32 den = 3) {
    typedef typename S::tensor T;
    return lib([&]() -> S & { T a((ix)n, (ix)m); for (ix k = 0; k < a.size(); k++) { a.at_seq(k) = num(typename T::elt_t()); if (pick(den)) a.at_seq(k) = 0.0; } S *p = new S(a); return *keep(list((S *)0), p); });
  }
  Indices &list_(long n, long lim) { return lib([&]() -> Indices & { Indices *p = new Indices((ix)n); for (long k = 0; k < n; k++) p->at(k) = (ix)pick((u32)lim); return *keep(ii, p); }); }
  Booleans &bools(long n) { return lib([&]() -> Booleans & { Booleans *p = new Booleans((ix)n); for (long k = 0; k < n; k++) p->at(k) = pick(2); return *keep(bb, p); }); }
  Out digest() const { Out o; for (auto p : r) o.t(*p); for (auto p : c) o.t(*p); for (auto p : rs) o.t(*p); for (auto p : cs) o.t(*p); for (auto p : ii) o.t(*p); for (auto p : bb) o.t(*p); return o; }
  void op(const std::function<void(Out &)> &f) { go(f); }
};
enum : u32 { RNG = 1, IO = 2, ARP = 4, CB = 8, TIMED = 16, LAP = 32, FFT = 64 };   // draws random numbers; files or streams; ARPACK; user operator
struct Entry { const char *name; void (*f)(Ctx &); u32 flags; };
extern const Entry catalogue[];
extern const u32 catalogue_size;
// One step at a time by user operators.
template <class T> struct UserMap {
  const T &m; Ctx *c;
  const T operator()(const T &x) const { if (c->in_callback) c->in_callback(); return mmult(m, x); }
};
} // namespace ops
