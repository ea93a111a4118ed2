// The catalogue: public operations of the library on operands of their own.
#include "ops.h"
namespace ops {
namespace {
template <class T> struct El { typedef typename T::elt_t e; };
// shapes that fit together
std::vector<long> shape(Ctx &c, u32 maxrank = 3) { std::vector<long> d(1 + c.pick(maxrank)); for (long &x : d) x = 1 + c.pick(4); if (!c.pick(30)) d[c.pick((u32)d.size())] = 20 + c.pick(300); return d; }
template <class T> void arith_tt(Ctx &c) { auto d = shape(c); T &a = c.dense<T>(d), &b = c.dense<T>(d); c.op([&](Out &o) { o.t(a + b); o.t(a - b); o.t(a * b); o.t(a / b); }); }
template <class T> void arith_tn(Ctx &c) { T &a = c.dense<T>(shape(c)); auto x = c.num(typename T::elt_t()); c.op([&](Out &o) { o.t(a + x); o.t(a - x); o.t(a * x); o.t(a / x); o.t(x + a); o.t(x - a); o.t(x * a); o.t(x / a); }); }
template <class T> void inplace(Ctx &c) { auto d = shape(c); T &a = c.dense<T>(d), &b = c.dense<T>(d); auto x = c.num(typename T::elt_t()); c.op([&](Out &o) { T t(a); t += b; t -= a; t *= b; t /= a; t *= x; t /= x; t += x; t -= x; o.t(t); }); }
void mixed(Ctx &c) { auto d = shape(c); RTensor &a = c.dense<RTensor>(d); CTensor &b = c.dense<CTensor>(d); double x = c.real(); cdouble z(c.real(), 1);
  c.op([&](Out &o) { o.t(a + b); o.t(b - a); o.t(a * b); o.t(b / a); o.t(a * z); o.t(z - a); o.t(b * x); o.t(b / x); o.t(to_complex(a)); o.t(to_complex(a, a)); o.t(real(b)); o.t(imag(b)); o.t(conj(b)); o.t(imag(a)); o.t(CTensor(a)); }); }
template <class T> void unary(Ctx &c) { T &a = c.dense<T>(shape(c)); c.op([&](Out &o) { o.t(-a); o.t(abs(a)); o.t(cos(a)); o.t(sin(a)); o.t(tan(a)); o.t(cosh(a)); o.t(sinh(a)); o.t(tanh(a)); o.t(exp(a)); T b = a * conj(a); o.t(sqrt(b)); o.t(log(b)); }); }
template <class T> void reductions(Ctx &c) { T &a = c.dense<T>(shape(c)), &v = c.dense<T>({5}), &w = c.dense<T>({5}), &m = c.dense<T>({3, 3}); u32 k = c.pick((u32)a.rank());
  c.op([&](Out &o) { o.z(sum(a)); o.z(mean(a)); o.t(mean(a, (int)k)); o.d(norm0(a)); o.d(norm2(a)); o.z(scprod(v, w)); o.d(matrix_norminf(m)); o.z(trace(m)); }); }
void extrema(Ctx &c) { RTensor &a = c.dense<RTensor>(shape(c)); c.op([&](Out &o) { o.d(min(a)); o.d(max(a)); o.t(round(a)); o.t(sort(flatten(a))); o.t(sort(flatten(a), true)); o.t(sort_indices(flatten(a))); }); }
void sorting(Ctx &c) { Indices &i = c.list_(7, 9); c.op([&](Out &o) { o.t(sort(i)); o.t(sort(i, true)); o.t(sort_indices(i)); }); }
void comparisons(Ctx &c) { auto d = shape(c); RTensor &a = c.dense<RTensor>(d), &b = c.dense<RTensor>(d); double x = c.real();
  c.op([&](Out &o) { o.t(a == b); o.t(a < b); o.t(a > b); o.t(a <= b); o.t(a >= b); o.t(a != b); o.t(a < x); o.t(a >= x); o.t(x == a); o.t(which(a > b)); o.t(!(a > b)); o.t((a > b) && (a < x)); o.t((a > b) || (a < x)); o.d(all_of(a > b)); o.d(any_of(a > b)); o.d(all_equal(a, b)); o.d(all_equal(a, x)); }); }
void comparisons_z(Ctx &c) { auto d = shape(c); CTensor &a = c.dense<CTensor>(d), &b = c.dense<CTensor>(d); cdouble x(c.real(), 0); c.op([&](Out &o) { o.t(a == b); o.t(a != b); o.d(all_equal(a, b)); o.d(all_equal(a, x)); o.d(all_equal(a, a)); }); }
template <class T> void diagonals(Ctx &c) { T &v = c.dense<T>({4}), &m = c.dense<T>({4, 4}), &q = c.dense<T>({3, 2, 3}); int w = (int)c.pick(3) - 1; c.op([&](Out &o) { o.t(diag(v)); o.t(diag(v, w)); o.t(diag(v, w, 4 + (w < 0 ? -w : w), 4 + (w < 0 ? -w : w))); o.t(take_diag(m)); o.t(take_diag(m, w)); o.t(trace(q, 0, 2)); o.t(m.diag(w)); }); }
template <class T> void reshapes(Ctx &c) { T &a = c.dense<T>({2, 3, 4}), &m = c.dense<T>({3, 2}); c.op([&](Out &o) { o.t(reshape(a, 24)); o.t(reshape(a, 6, 4)); o.t(reshape(a, 2, 2, 6)); o.t(reshape(a, igen << 3 << 8)); o.t(flatten(a)); T b = reshape(a, 1, 24, 1); o.t(squeeze(b)); b.reshape(igen << 4 << 6); o.t(b); o.t(permute(a, 0, 2)); o.t(permute(a, 1, 2)); o.t(transpose(m)); o.t(adjoint(m)); o.t(change_dimension(a, 1, 5)); o.t(change_dimension(a, 2, 1)); }); }
template <class T> void contractions(Ctx &c) { T &a = c.dense<T>({c.some(2, 1), 3, 4}), &b = c.dense<T>({4, 3}), &m = c.dense<T>({3, 3}); c.op([&](Out &o) { o.t(fold(a, 2, b, 0)); o.t(fold(a, 1, b, 1)); o.t(foldc(a, 2, b, 0)); o.t(foldin(m, 0, a, 1)); o.t(foldin(b, 1, a, 1)); o.t(mmult(b, m)); o.t(fold(a, 0, a, 0)); o.t(fold(a, -1, b, 0)); }); }
void contractions_into(Ctx &c) { RTensor &a = c.dense<RTensor>({c.some(2, 1), 3, 4}), &b = c.dense<RTensor>({4, 3}), &m = c.dense<RTensor>({3, 3}); c.op([&](Out &o) { RTensor x, y, z; fold_into(x, a, 2, b, 0); o.t(x); foldin_into(y, m, 0, a, 1); o.t(y); mmult_into(z, b, m); o.t(z); mmult_into(z, z, m); o.t(z); fold_into(x, a, 0, a, 0); o.t(x); }); }
void contractions_mixed(Ctx &c) { RTensor &a = c.dense<RTensor>({2, 3}); CTensor &b = c.dense<CTensor>({3, 2}); c.op([&](Out &o) { o.t(fold(a, 1, b, 0)); o.t(fold(b, 1, a, 0)); o.t(foldc(a, 1, b, 0)); o.t(foldc(b, 0, a, 1)); o.t(mmult(a, b)); o.t(mmult(b, a)); }); }
template <class T> void scaling(Ctx &c) { T &a = c.dense<T>({c.some(2, 1), 3, 4}), &v = c.dense<T>({3}), &w = c.dense<T>({4}); c.op([&](Out &o) { o.t(scale(a, 1, v)); o.t(scale(a, -1, w)); T b(a); scale_inplace(b, 1, v); scale_inplace(b, 2, w); o.t(b); }); }
template <class T> void krons(Ctx &c) { T &a = c.dense<T>({2, 3}), &b = c.dense<T>({2, 2}), &m = c.dense<T>({3, 3}); c.op([&](Out &o) { o.t(kron(a, b)); o.t(kron2(a, b)); o.t(kron2_sum(b, m)); }); }
template <class T> void views(Ctx &c) { T &a = c.dense<T>({4, 5}), &q = c.dense<T>({2, 3, 4}), &f = c.dense<T>({3, 2, 2, 2}); Indices &i = c.list_(3, 4); Booleans &b = c.bools(4);
  c.op([&](Out &o) { o.t(T(a(range(1), range()))); o.t(T(a(range(0, 2), range(1, 4, 2)))); o.t(T(a(range(i), range(2)))); o.t(T(q(range(), range(1), range(0, 2)))); o.t(T(f(range(2), range(), range(1), range()))); o.t(T(a(range(which(b)), range()))); T s = a(range(), range(3)); o.t(s); o.t(T(flatten(a)(range(2, 15, 3)))); }); }
template <class T> void view_writes(Ctx &c) { T &a = c.dense<T>({4, 5}), &q = c.dense<T>({2, 3, 4}), &col = c.dense<T>({4}), &blk = c.dense<T>({2, 3}); Indices &i = c.list_(2, 4); auto x = c.num(typename T::elt_t());
  c.op([&](Out &o) { T t(a), u(q); t.at(range(), range(2)) = col; t.at(range(1, 2), range(0, 2)) = blk; t.at(range(i), range(4)) = x; t.at(range(3), range()) = t(range(0), range()); u.at(range(), range(1), range()) = u(range(), range(0), range()); u.at(range(0), range(2), range(0, 3, 2)) = x; o.t(t); o.t(u); }); }
template <class T> void makers(Ctx &c) { long n = 1 + c.pick(4), m = 1 + c.pick(4); auto x = c.num(typename T::elt_t()); c.op([&](Out &o) { o.t(T::eye(n)); o.t(T::eye(n, m)); o.t(T::zeros(n, m)); o.t(T::ones(n, m, 2)); o.t(T::zeros(igen << n << 2)); T t(n, m); t.fill_with(x); o.t(t); T e = T::ones(n, m); e = t; o.t(e); std::vector<typename T::elt_t> v(3, x); o.t(T(v)); o.t(T(igen << 3 << 1, T(v))); Vector<typename T::elt_t> w = e; o.t(T(w)); }); }
void spaces(Ctx &c) { RTensor &a = c.dense<RTensor>({3}), &b = c.dense<RTensor>({3}); double x = c.real(); c.op([&](Out &o) { o.t(linspace(x, x + 2, 7)); o.t(linspace(a, b, 4)); o.t(linspace(cdouble(x, 1), cdouble(2, x), 5)); o.t(linspace(to_complex(a), to_complex(b), 3)); }); }
void lists(Ctx &c) { Indices &a = c.list_(4, 5), &b = c.list_(4, 5); c.op([&](Out &o) { o.t(a << b); o.t(igen << 3 << 1); o.t(iota(1, 6)); o.t(Indices::range(0, 9, 2)); o.t(a == b); o.t(a < b); o.t(a >= b); o.t(a != (ix)2); o.t((ix)3 > a); o.t(which(a == b)); o.t(index_to_tensor(a)); o.d((double)a.total_size()); o.d(all_equal(a, b)); RTensor g(rgen << 1.0 << 2.5 << -1.0); o.t(g); Indices d(a); d.at(0) = 9; o.t(d); d = b; o.t(d); }); }
void dims(Ctx &c) { RTensor &a = c.dense<RTensor>({2, 3, 4, 2}); c.op([&](Out &o) { for (ix k = 0; k < 4; k++) { ix x, y, z; surrounding_dimensions(a.dimensions(), k, &x, &y, &z); o.d((double)x); o.d((double)y); o.d((double)z); } ix p, q, r, s; a.get_dimensions(&p, &q, &r, &s); o.d((double)(p * 1000 + q * 100 + r * 10 + s)); o.t(a.dimensions()); }); }
template <class S> void sparse_arith(Ctx &c) { S &a = c.sparse<S>(4, 5), &b = c.sparse<S>(4, 5); auto x = c.num(typename S::elt_t()); c.op([&](Out &o) { o.t(a + b); o.t(a - b); o.t(a * b); o.t(-a); o.t(a * x); o.t(x * a); o.t(a / x); o.t(full(a)); o.t(S(full(b))); S d(a); d = b; o.t(d); d = d + a; o.t(d); o.z(a(1, 2)); o.d((double)a.length()); }); }
template <class S> void sparse_algebra(Ctx &c) { typedef typename S::tensor T; S &a = c.sparse<S>(4, 3), &b = c.sparse<S>(2, 3); T &m = c.dense<T>({3, 2}), &n = c.dense<T>({2, 4}), &v = c.dense<T>({3}); c.op([&](Out &o) { o.t(mmult(a, m)); o.t(mmult(n, a)); o.t(mmult(a, v)); o.t(transpose(a)); o.t(adjoint(a)); o.t(kron(a, b)); o.t(kron2(b, a)); o.t(S::eye(3)); o.t(S::eye(2, 4)); o.t(full(S::eye(3, 2))); }); }
template <class S> void sparse_kron_sum(Ctx &c) { S &a = c.sparse<S>(3, 3), &b = c.sparse<S>(2, 2); c.op([&](Out &o) { o.t(kron2_sum(a, b)); o.t(kron2_sum(b, b)); }); }
void sparse_mixed(Ctx &c) { RSparse &a = c.sparse<RSparse>(4, 4); CSparse &b = c.sparse<CSparse>(4, 4); cdouble z(1, c.real()); c.op([&](Out &o) { o.t(a + b); o.t(b - a); o.t(a * b); o.t(to_complex(a)); o.t(real(b)); o.t(imag(b)); o.t(conj(b)); o.t(imag(a)); o.t(a * z); o.t(z * a); o.t(a / z); o.t(b * 2.0); o.t(CSparse(b)); }); }
template <class S> void sparse_make(Ctx &c) { typedef typename S::tensor T; T &d = c.dense<T>({4}); Indices &i = c.list_(4, 5); c.op([&](Out &o) { Indices cols = iota(0, 3); S s(sort(i), cols, d, 6, 5); o.t(s); o.t(full(s)); S e(3, 4); o.t(e); o.t(full(e)); S r((igen << 2 << 4), (igen << 0 << 2 << 4), (igen << 0 << 3 << 1 << 2), d); o.t(r); }); }
void list_compare(Ctx &c) { Indices &a = c.list_(5, 4), &b = c.list_(5, 4); ix x = (ix)c.pick(4); c.op([&](Out &o) { o.t(a > b); o.t(a <= b); o.t(a != b); o.t(a == x); o.t(a < x); o.t(a > x); o.t(a <= x); o.t(a >= x); o.t(x == a); o.t(x != a); o.t((a > x) && (b > x)); o.t((a > x) || !(b > x)); o.d(all_of(a <= b)); o.d(any_of(a < b)); }); }
void scalar_compare(Ctx &c) { auto d = shape(c); RTensor &a = c.dense<RTensor>(d); CTensor &z = c.dense<CTensor>(d); double x = c.real(); cdouble w(x, 1); c.op([&](Out &o) { o.t(a == x); o.t(a != x); o.t(a > x); o.t(a <= x); o.t(x < a); o.t(x != a); o.d(all_equal(z, w)); }); }
void mixed_more(Ctx &c) { auto d = shape(c); RTensor &a = c.dense<RTensor>(d); CTensor &b = c.dense<CTensor>(d); double x = c.real(); cdouble z(x, 2); RSparse &s = c.sparse<RSparse>(3, 4); CSparse &t = c.sparse<CSparse>(3, 4);
  c.op([&](Out &o) { o.t(b + a); o.t(a - b); o.t(b * a); o.t(a / b); o.t(a + z); o.t(z + a); o.t(a - z); o.t(a / z); o.t(z * a); o.t(z / a); o.t(b + x); o.t(x + b); o.t(b - x); o.t(x - b); o.t(x * b); o.t(x / b); o.t(t + s); o.t(s - t); o.t(t * s); o.t(2.0 * t); o.t(t / 2.0); CTensor q(b); q += a; q -= a; o.t(q); }); }
template <class T> void makers_more(Ctx &c) { typedef typename T::elt_t e; long n = 1 + c.pick(3); e x = c.num(e()); e own[6]; for (e &y : own) y = c.num(e()); c.op([&](Out &o) { o.t(T::zeros(n)); o.t(T::ones(n)); o.t(T::zeros(1, n, 2)); o.t(T::zeros(n, 1, 2, 1)); o.t(T::ones(1, 2, n, 1, 2)); o.t(T::zeros(1, 2, 1, n, 1, 2)); T t(n, 1, 2); t.fill_with_zeros(); o.t(t); T u(1, n, 1, 2); u.fill_with(x); o.t(u);
    Vector<e> v(6, own); T r(v); o.t(r); r.at_seq(2) = x; o.t(r); T g(igen << 2 << 3, v); o.t(g); g *= x; o.t(g); for (e &y : own) o.z(y); }); }
template <class S> void sparse_more(Ctx &c) { typedef typename S::tensor T; long n = 1 + c.pick(4); S &a = c.sparse<S>(n, 3); T &d = c.dense<T>({3}); c.op([&](Out &o) { o.t(S::eye(n)); o.t(S::eye(n, 2)); o.t(full(S::eye(2, n))); o.d((double)a.dimension(0)); o.d((double)a.dimension(1)); o.d(a.is_empty()); S e; o.d(e.is_empty()); e = a; o.t(e); o.t(mmult(a, d)); o.t(full(a)); o.t(a.dimensions()); o.d((double)a.length()); }); }
// linear algebra
template <class T> void solves(Ctx &c) { long n = c.some(1, 5); T &a = c.spd<T>(n), &b = c.dense<T>({n}), &m = c.dense<T>({n, 2}); c.op([&](Out &o) { o.t(linalg::solve(a, b)); o.t(linalg::solve(a, m)); }); }
template <class T> void solves_svd(Ctx &c) { long n = c.some(1, 4); T &a = c.spd<T>(n), &b = c.dense<T>({n}); c.op([&](Out &o) { o.t(linalg::solve_with_svd(a, b)); o.t(linalg::solve_with_svd(a, b, 1e-9)); }); }
template <class T> void svds(Ctx &c) { long n = c.some(1, 5), m = c.some(1, 5); T &a = c.dense<T>({n, m}); bool e = c.pick(2); u32 w = c.pick(4); c.op([&](Out &o) { T u, v; o.t(linalg::svd(a, w & 1 ? &u : 0, w & 2 ? &v : 0, e)); o.t(u); o.t(v); }); }
template <class T> void block_svds(Ctx &c) { long n = c.some(2, 5), m = c.pick(2) ? n : c.some(2, 5); T &a = c.blocks<T>(n, m); bool e = c.pick(2); u32 w = c.pick(4); c.op([&](Out &o) { T u, v; o.t(linalg::block_svd(a, w & 1 ? &u : 0, w & 2 ? &v : 0, e)); o.t(u); o.t(v); }); }
template <class T> void eigens(Ctx &c) { long n = c.some(1, 5); T &a = c.dense<T>({n, n}); u32 w = c.pick(4); c.op([&](Out &o) { CTensor u, v; o.t(linalg::eig(a, w & 1 ? &u : 0, w & 2 ? &v : 0)); o.t(u); o.t(v); }); }
void eigen_sym(Ctx &c) { long n = c.some(1, 5); RTensor &a = c.herm<RTensor>(n); bool w = c.pick(2); c.op([&](Out &o) { RTensor u; o.t(linalg::eig_sym(a, w ? &u : 0)); o.t(u); }); }
void eigen_herm(Ctx &c) { long n = c.some(1, 5); CTensor &a = c.herm<CTensor>(n); c.op([&](Out &o) { o.t(linalg::eig_sym(a)); }); }
template <class T> void expms(Ctx &c) { long n = c.some(1, 4); T &a = c.dense<T>({n, n}); u32 k = 3 + c.pick(6); c.op([&](Out &o) { o.t(linalg::expm(a)); o.t(linalg::expm(a * 5.0, k)); }); }
template <class T> void cgs_dense(Ctx &c) { long n = c.some(2, 5); T &a = c.spd<T>(n), &b = c.dense<T>({n}), &x = c.dense<T>({n}); c.op([&](Out &o) { o.t(linalg::cgs(a, b, &x)); o.t(linalg::cgs(a, b, &x, 2 * (int)n, 1e-6)); }); }
void cgs_sparse(Ctx &c) { long n = c.some(3, 4); RTensor &m = c.spd<RTensor>(n), &b = c.dense<RTensor>({n}), &x = c.dense<RTensor>({n}); RSparse *s = lib([&] { return c.keep(c.rs, new RSparse(m)); }); c.op([&](Out &o) { o.t(linalg::cgs(*s, b, &x)); }); }
template <class T> void cgs_map(Ctx &c) { long n = c.some(2, 5); T &a = c.spd<T>(n), &b = c.dense<T>({n}), &x = c.dense<T>({n}); c.op([&](Out &o) { UserMap<T> f{a, &c}; o.t(linalg::cgs(f, b, &x)); }); }
template <class T> void power(Ctx &c) { long n = c.some(2, 5); T &a = c.spd<T>(n), &v = c.dense<T>({n}); c.op([&](Out &o) { T x(v), y(v); o.z(linalg::eig_power_right(a, &x, 30)); o.t(x); o.z(linalg::eig_power_left(a, &y, 30, 1e-8)); o.t(y); }); }
template <class T> void power_sparse(Ctx &c) { typedef Sparse<typename T::elt_t> S; long n = c.some(2, 5); T &m = c.spd<T>(n), &v = c.dense<T>({n}); S *s = lib([&] { return c.keep(c.list((S *)0), new S(m)); }); c.op([&](Out &o) { T x(v), y(v); o.z(linalg::eig_power_right(*s, &x, 25)); o.t(x); o.z(linalg::eig_power_left(*s, &y, 25)); o.t(y); }); }
template <class T> void power_map(Ctx &c) { long n = c.some(2, 5); T &a = c.spd<T>(n), &v = c.dense<T>({n}); c.op([&](Out &o) { UserMap<T> f{a, &c}; T x(v); o.z(linalg::eig_power(f, (size_t)n, &x, 20)); o.t(x); }); }
template <class T> void eigs_dense(Ctx &c) { long n = c.pick(4) ? (c.pick(10) ? 5 + c.pick(8) : 21 + c.pick(16)) : 1 + c.pick(4); T &a = c.herm<T>(n), &v = c.dense<T>({n}); u32 k = 1 + c.pick(n > 4 ? 2 : 1), t = c.pick(4); c.op([&](Out &o) { T x(v); bool ok = false; o.t(linalg::eigs(a, (int)t, k, &x, &ok)); o.t(x); o.d(ok); }); }
template <class T> void eigs_sparse(Ctx &c) { typedef Sparse<typename T::elt_t> S; long n = c.pick(4) ? (c.pick(10) ? 6 + c.pick(6) : 21 + c.pick(16)) : 2 + c.pick(3); T &m = c.herm<T>(n), &v = c.dense<T>({n}); S *s = lib([&] { return c.keep(c.list((S *)0), new S(m)); }); u32 t = c.pick(4); c.op([&](Out &o) { T x(v); bool ok = false; o.t(linalg::eigs(*s, (int)t, 1, &x, &ok)); o.t(x); o.d(ok); }); }
template <class T> void eigs_map(Ctx &c) { long n = c.pick(4) ? (c.pick(10) ? 6 + c.pick(6) : 21 + c.pick(16)) : 2 + c.pick(3); T &m = c.herm<T>(n), &v = c.dense<T>({n}); u32 t = c.pick(4); c.op([&](Out &o) { UserMap<T> f{m, &c}; T x(v); bool ok = false; o.t(linalg::eigs(f, (size_t)n, (int)t, 1, &x, &ok)); o.t(x); o.d(ok); }); }
template <class T> void eigs_plain(Ctx &c) { typedef Sparse<typename T::elt_t> S; long n = c.pick(4) ? (c.pick(10) ? 6 + c.pick(6) : 21 + c.pick(16)) : 2 + c.pick(3); T &m = c.herm<T>(n), &v = c.dense<T>({n}); u32 t = c.pick(4), how = c.pick(3); bool vec = c.pick(2); S *s = lib([&] { return c.keep(c.list((S *)0), new S(m)); }); c.op([&](Out &o) { UserMap<T> f{m, &c}; T x(v), *p = &x; o.t(how == 0 ? linalg::eigs(m, (int)t, 1, p) : how == 1 ? linalg::eigs(*s, (int)t, 1, p) : linalg::eigs(f, (size_t)n, (int)t, 1, p)); if (vec) o.t(x); o.d(1); }); }
template <class T> void maps(Ctx &c) { typedef Sparse<typename T::elt_t> S; T &m = c.dense<T>({4, 4}), &v = c.dense<T>({4}); S &s = c.sparse<S>(4, 4); c.op([&](Out &o) { MatrixMap<T> a(m), b(m, true); MatrixMap<S> p(s), q(s, true); o.t(a(v)); o.t(b(v)); o.t(p(v)); o.t(q(v)); UserMap<T> u{m, &c}; FunctionMap<UserMap<T>, T> f(u); o.t(f(v)); Map<T> id; o.t(id(v)); }); }
// transforms
void ffts(Ctx &c) { auto d = shape(c); CTensor &a = c.dense<CTensor>(d); u32 k = c.pick((u32)d.size()); Booleans &b = c.bools((long)d.size()); c.op([&](Out &o) { o.t(fftw(a, FFTW_FORWARD)); o.t(fftw(a, FFTW_BACKWARD)); o.t(fftw(a, (ix)k, FFTW_FORWARD)); o.t(fftw(a, b, FFTW_BACKWARD)); }); }
void ffts_inplace(Ctx &c) { auto d = shape(c); CTensor &a = c.dense<CTensor>(d); u32 k = c.pick((u32)d.size()); Booleans &b = c.bools((long)d.size()); c.op([&](Out &o) { CTensor x(a), y(a), z(a); fftw_inplace(x, FFTW_FORWARD); o.t(x); fftw_inplace(y, (ix)k, FFTW_BACKWARD); o.t(y); fftw_inplace(z, b, FFTW_FORWARD); o.t(z); }); }
void shifts(Ctx &c) { auto d = shape(c); CTensor &a = c.dense<CTensor>(d); u32 k = c.pick((u32)d.size()); Booleans &b = c.bools((long)d.size()); c.op([&](Out &o) { o.t(fftshift(a, FFTW_FORWARD)); o.t(fftshift(a, (ix)k, FFTW_BACKWARD)); o.t(fftshift(a, b, FFTW_FORWARD)); }); }
// files, streams, jobs
void printing(Ctx &c) { RTensor &a = c.dense<RTensor>({2, 3}); CTensor &b = c.dense<CTensor>({3}); RSparse &s = c.sparse<RSparse>(2, 2); Indices &i = c.list_(3, 9); c.op([&](Out &o) { std::ostringstream x; x << a << b << s << i << matrix_form(a) << matrix_form(b); o.text(x.str()); }); }
void data_file(Ctx &c, int mode) { RTensor &a = c.dense<RTensor>(shape(c)); CTensor &b = c.dense<CTensor>(shape(c)); double x = c.real(); u32 n = c.pick(3);
  c.op([&](Out &o) { std::string f = fmt("data%d", c.id); { OutDataFile w(f, mode == 0 ? DataFile::SDF_SHARED : mode == 1 ? DataFile::SDF_OVERWRITE : DataFile::SDF_PARANOID); w.dump(a, "a"); w.dump(x, "x"); std::vector<CTensor> v(n, b); w.dump(v, "v"); w.dump(b, "b"); w.close(); }
    { InDataFile r(f); RTensor p; CTensor q; double y; std::vector<CTensor> v; r.load(&p, "a"); r.load(&y, "x"); r.load(&v, "v"); r.load(&q, "b"); o.t(p); o.d(y); for (auto &t : v) o.t(t); o.t(q); } delete_file(f.c_str()); }); }
void file_shared(Ctx &c) { data_file(c, 0); } void file_over(Ctx &c) { data_file(c, 1); } void file_paranoid(Ctx &c) { data_file(c, 2); }
void job(Ctx &c) { u32 n = 2 + c.pick(3), m = 1 + c.pick(3), blk = 1 + c.pick(4); c.op([&](Out &o) { std::string a = fmt("a,0,1,%u", n), b = fmt("b,-1,1,%u", m), k = fmt("%u", blk); const char *argv[] = {"prog", "--variable", a.c_str(), "--variable", b.c_str(), "--job-blocks", k.c_str(), "--this-job", "0"}; Job j(9, argv); for (; j.to_do(); ++j) { o.d((double)j.current_job()); o.d(j.get_value("a")); o.d(j.get_value("b")); } o.d((double)j.number_of_jobs()); }); }
// random numbers: shared by the whole process, so only for single computations
void randoms(Ctx &c) { u64 seed = c.next(); c.op([&](Out &o) { set_seed((unsigned long)seed); o.t(RTensor::random(3, 2)); o.t(CTensor::random(4)); o.t(CTensor::random(2, 1, 2)); o.t(RTensor::random(1, 2, 1, 2)); o.t(RTensor::random(1, 2, 1, 2, 1)); o.t(CTensor::random(2, 1, 1, 1, 2, 1)); o.t(RTensor::random(igen << 2 << 2)); o.t(RSparse::random(4, 4, 0.4)); RTensor t(2, 2); t.randomize(); o.t(t); }); }
} // namespace
#define BOTH(n, f) {#n "<R>", n<RTensor>, f}, {#n "<C>", n<CTensor>, f}
#define BOTHS(n, f) {#n "<R>", n<RSparse>, f}, {#n "<C>", n<CSparse>, f}
#define ONE(n, f) {#n, n, f}
const Entry catalogue[] = {BOTH(arith_tt, 0), BOTH(arith_tn, 0), BOTH(inplace, 0), ONE(mixed, 0), BOTH(unary, 0), BOTH(reductions, 0), ONE(extrema, 0), ONE(sorting, 0), ONE(comparisons, 0), ONE(comparisons_z, 0), BOTH(diagonals, 0), BOTH(reshapes, 0), BOTH(contractions, 0),
    ONE(contractions_into, 0), ONE(contractions_mixed, 0), BOTH(scaling, 0), BOTH(krons, 0), BOTH(views, 0), BOTH(view_writes, 0), BOTH(makers, 0), ONE(spaces, 0), ONE(lists, 0), ONE(dims, 0), BOTHS(sparse_arith, 0), BOTHS(sparse_algebra, 0), BOTHS(sparse_kron_sum, 0), ONE(sparse_mixed, 0), BOTHS(sparse_make, 0), ONE(list_compare, 0), ONE(scalar_compare, 0), ONE(mixed_more, 0), BOTH(makers_more, 0), BOTHS(sparse_more, 0),
    BOTH(solves, LAP), BOTH(solves_svd, LAP), BOTH(svds, LAP), BOTH(block_svds, LAP), BOTH(eigens, LAP), ONE(eigen_sym, LAP), ONE(eigen_herm, LAP), BOTH(expms, LAP), BOTH(cgs_dense, 0), ONE(cgs_sparse, 0), BOTH(cgs_map, CB), BOTH(power, 0), BOTH(power_sparse, 0), BOTH(power_map, CB), BOTH(eigs_dense, ARP | LAP), BOTH(eigs_sparse, ARP | LAP), BOTH(eigs_map, ARP | CB | LAP), BOTH(eigs_plain, ARP | LAP), BOTH(maps, CB),
    ONE(ffts, FFT), ONE(ffts_inplace, FFT), ONE(shifts, 0), ONE(printing, IO), ONE(file_shared, IO | TIMED), ONE(file_over, IO), ONE(file_paranoid, IO), ONE(job, IO), ONE(randoms, RNG)};
const u32 catalogue_size = sizeof catalogue / sizeof *catalogue;
} // namespace ops
