// Seam at LAPACK and ARPACK: the library's calls arrive here (ld --wrap), are counted, and may be made to fail.
#include "core.h"
using namespace sim;
namespace {
typedef int I;
// Decides the fate of one call. Returns the status to report, or 0 to leave the call alone.
int fate(const char *name, bool query) {
  Task *t = self(); call_point();
  if (!t || query) return 0;
  t->backend_calls++;
  if (t->backend_fail_in <= 0 || --t->backend_fail_in) return 0;
  t->backend_fail_in = -1; t->backend_hit = true;
  HostScope h; count(fmt("fault:%s status %s", name, t->backend_status > 0 ? "> 0" : "< 0").c_str()); event(41, (u64)(i64)t->backend_status);
  if (verbose()) note("%s fails with status %d", name, t->backend_status);
  return t->backend_status;
}
void said(int info) { call_point(); if (info && self()) self()->backend_reported = true; }
// What a routine leaves behind when it gives up: something between its input and its result.
void scribble(double *p, long n) { if (!p) return; u64 s = self()->backend_seed; for (long k = 0; k < n; k++) { u64 r = mix(s + (u64)k); if (r & 1) p[k] = (double)(i64)(r >> 20) * 1e-9; } }
}
extern "C" {
void dgesv_(I *, I *, double *, I *, I *, double *, I *, I *);
void zgesv_(I *, I *, double *, I *, I *, double *, I *, I *);
void dgeev_(char *, char *, I *, double *, I *, double *, double *, double *, I *, double *, I *, double *, I *, I *, size_t, size_t);
void zgeev_(char *, char *, I *, double *, I *, double *, double *, I *, double *, I *, double *, I *, double *, I *, size_t, size_t);
void dsyev_(char *, char *, I *, double *, I *, double *, double *, I *, I *, size_t, size_t);
void zheev_(char *, char *, I *, double *, I *, double *, double *, I *, double *, I *, size_t, size_t);
void dgesvd_(char *, char *, I *, I *, double *, I *, double *, double *, I *, double *, I *, double *, I *, I *, size_t, size_t);
void zgesvd_(char *, char *, I *, I *, double *, I *, double *, double *, I *, double *, I *, double *, I *, double *, I *, size_t, size_t);
void dsaupd_(I *, char *, I *, char *, I *, double *, double *, I *, double *, I *, I *, I *, double *, double *, I *, I *, size_t, size_t);
void znaupd_(I *, char *, I *, char *, I *, double *, double *, I *, double *, I *, I *, I *, double *, double *, I *, double *, I *, size_t, size_t);
void dseupd_(I *, char *, I *, double *, double *, I *, double *, char *, I *, char *, I *, double *, double *, I *, double *, I *, I *, I *, double *, double *, I *, I *, size_t, size_t, size_t);
void zneupd_(I *, char *, I *, double *, double *, I *, double *, double *, char *, I *, char *, I *, double *, double *, I *, double *, I *, I *, I *, double *, double *, I *, double *, I *, size_t, size_t, size_t);

int __wrap_dgesv_(I *n, I *r, double *a, I *lda, I *p, double *b, I *ldb, I *info) {
  int f = fate("dgesv", false); if (f >= 0) dgesv_(n, r, a, lda, p, b, ldb, info);
  if (f >= 0) said(*info);
  if (f) { if (f > 0) scribble(b, (long)*ldb * *r); *info = f; } return 0;
}
int __wrap_zgesv_(I *n, I *r, double *a, I *lda, I *p, double *b, I *ldb, I *info) {
  int f = fate("zgesv", false); if (f >= 0) zgesv_(n, r, a, lda, p, b, ldb, info);
  if (f >= 0) said(*info);
  if (f) { if (f > 0) scribble(b, 2L * *ldb * *r); *info = f; } return 0;
}
int __wrap_dgeev_(char *jl, char *jr, I *n, double *a, I *lda, double *wr, double *wi, double *vl, I *ldvl, double *vr, I *ldvr, double *w, I *lw, I *info) {
  int f = fate("dgeev", *lw == -1); if (f >= 0) dgeev_(jl, jr, n, a, lda, wr, wi, vl, ldvl, vr, ldvr, w, lw, info, 1, 1);
  if (f >= 0) said(*info);
  if (f) { if (f > 0) { scribble(wr, *n); scribble(vl, (long)*n * *n); scribble(vr, (long)*n * *n); } *info = f; } return 0;
}
int __wrap_zgeev_(char *jl, char *jr, I *n, double *a, I *lda, double *w0, double *vl, I *ldvl, double *vr, I *ldvr, double *w, I *lw, double *rw, I *info) {
  int f = fate("zgeev", *lw == -1); if (f >= 0) zgeev_(jl, jr, n, a, lda, w0, vl, ldvl, vr, ldvr, w, lw, rw, info, 1, 1);
  if (f >= 0) said(*info);
  if (f) { if (f > 0) { scribble(w0, 2L * *n); scribble(vl, 2L * *n * *n); scribble(vr, 2L * *n * *n); } *info = f; } return 0;
}
int __wrap_dsyev_(char *j, char *u, I *n, double *a, I *lda, double *w0, double *w, I *lw, I *info) {
  int f = fate("dsyev", *lw == -1); if (f >= 0) dsyev_(j, u, n, a, lda, w0, w, lw, info, 1, 1);
  if (f >= 0) said(*info);
  if (f) { if (f > 0) { scribble(w0, *n); scribble(a, (long)*n * *n); } *info = f; } return 0;
}
int __wrap_zheev_(char *j, char *u, I *n, double *a, I *lda, double *w0, double *w, I *lw, double *rw, I *info) {
  int f = fate("zheev", *lw == -1); if (f >= 0) zheev_(j, u, n, a, lda, w0, w, lw, rw, info, 1, 1);
  if (f >= 0) said(*info);
  if (f) { if (f > 0) { scribble(w0, *n); scribble(a, 2L * *n * *n); } *info = f; } return 0;
}
int __wrap_dgesvd_(char *ju, char *jv, I *m, I *n, double *a, I *lda, double *s, double *u, I *ldu, double *v, I *ldv, double *w, I *lw, I *info) {
  int f = fate("dgesvd", *lw == -1); if (f >= 0) dgesvd_(ju, jv, m, n, a, lda, s, u, ldu, v, ldv, w, lw, info, 1, 1);
  if (f >= 0) said(*info);
  if (f) { if (f > 0) scribble(s, *m < *n ? *m : *n); *info = f; } return 0;
}
int __wrap_zgesvd_(char *ju, char *jv, I *m, I *n, double *a, I *lda, double *s, double *u, I *ldu, double *v, I *ldv, double *w, I *lw, double *rw, I *info) {
  int f = fate("zgesvd", *lw == -1); if (f >= 0) zgesvd_(ju, jv, m, n, a, lda, s, u, ldu, v, ldv, w, lw, rw, info, 1, 1);
  if (f >= 0) said(*info);
  if (f) { if (f > 0) scribble(s, *m < *n ? *m : *n); *info = f; } return 0;
}
// ARPACK gives up: it asks for nothing more (ido 99) and tells why.
int __wrap_dsaupd_(I *ido, char *bm, I *n, char *wh, I *nev, double *tol, double *res, I *ncv, double *v, I *ldv, I *ip, I *pt, double *wd, double *wl, I *lwl, I *info) {
  int f = fate("dsaupd", false);
  if (f) { *ido = 99; *info = f; ip[4] = 0; return 0; }
  dsaupd_(ido, bm, n, wh, nev, tol, res, ncv, v, ldv, ip, pt, wd, wl, lwl, info, 1, 2); if (*ido == 99) said(*info); return 0;
}
int __wrap_znaupd_(I *ido, char *bm, I *n, char *wh, I *nev, double *tol, double *res, I *ncv, double *v, I *ldv, I *ip, I *pt, double *wd, double *wl, I *lwl, double *rw, I *info) {
  int f = fate("znaupd", false);
  if (f) { *ido = 99; *info = f; ip[4] = 0; return 0; }
  znaupd_(ido, bm, n, wh, nev, tol, res, ncv, v, ldv, ip, pt, wd, wl, lwl, rw, info, 1, 2); if (*ido == 99) said(*info); return 0;
}
int __wrap_dseupd_(I *rv, char *hm, I *sel, double *d, double *z, I *ldz, double *sg, char *bm, I *n, char *wh, I *nev, double *tol, double *res, I *ncv, double *v, I *ldv, I *ip, I *pt, double *wd, double *wl, I *lwl, I *info) {
  int f = fate("dseupd", false); if (f) { scribble(d, *nev); *info = f; return 0; }
  dseupd_(rv, hm, sel, d, z, ldz, sg, bm, n, wh, nev, tol, res, ncv, v, ldv, ip, pt, wd, wl, lwl, info, 1, 1, 2); said(*info); return 0;
}
int __wrap_zneupd_(I *rv, char *hm, I *sel, double *d, double *z, I *ldz, double *sg, double *wev, char *bm, I *n, char *wh, I *nev, double *tol, double *res, I *ncv, double *v, I *ldv, I *ip, I *pt, double *wd, double *wl, I *lwl, double *rw, I *info) {
  int f = fate("zneupd", false); if (f) { scribble(d, 2L * *nev); *info = f; return 0; }
  zneupd_(rv, hm, sel, d, z, ldz, sg, wev, bm, n, wh, nev, tol, res, ncv, v, ldv, ip, pt, wd, wl, lwl, rw, info, 1, 1, 2); said(*info); return 0;
}
}
