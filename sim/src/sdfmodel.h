// Independent model of SDF values and of the on-disk layout that the Python and
// Matlab readers of the repository expect.
#pragma once
#include "core.h"
#include "fs.h"
#include <cmath>
#include <cstring>
#include <tensor/tensor.h>
#include <tensor/sdf.h>

namespace sdfm {
using namespace sim;
enum Kind { INT, SIZE, REAL, CPLX, RT, CT, RTV, CTV, NKINDS };
inline const char *kind_name(int k) { static const char *n[] = {"int", "size_t", "double", "cdouble", "RTensor", "CTensor", "vector<RTensor>", "vector<CTensor>"}; return n[k]; }
struct Ten { std::vector<long> dims; std::vector<double> x; bool z = false; };   // x: 2 per element when complex
struct Val { Kind kind = REAL; Ten t; std::vector<Ten> v; long i = 0; };
struct Rec { std::string name; Val val; };

inline bool same(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 8)); }
inline bool same(const Ten &a, const Ten &b) { return a.z == b.z && a.dims == b.dims && same(a.x, b.x); }
inline bool same(const Val &a, const Val &b) {
  if (a.kind != b.kind) return false;
  if (a.kind == INT || a.kind == SIZE) return a.i == b.i;
  if (a.kind == RTV || a.kind == CTV) { if (a.v.size() != b.v.size()) return false; for (size_t k = 0; k < a.v.size(); k++) if (!same(a.v[k], b.v[k])) return false; return true; }
  return same(a.t, b.t);
}
//---------------------------------------------------------------- generation
inline double gen_num(u64 seed, u64 k) {
  u64 h = mix(seed, k);
  if (seed == 0) return (double)(k + 1);
  switch (h & 31) {
  case 0: return 0.0; case 1: return -0.0; case 2: return INFINITY; case 3: return -INFINITY;
  case 4: { u64 b = 0x7ff8000000000000ull | (h >> 14); double d; memcpy(&d, &b, 8); return d; }
  case 5: { u64 b = (h >> 12); double d; memcpy(&d, &b, 8); return d; }        // subnormal or small
  case 6: case 7: case 8: { u64 b = mix(h); double d; memcpy(&d, &b, 8); if (d != d) d = 1; return d; }
  default: return (double)(i64)h / 1e12;
  }
}
inline Ten gen_ten(bool z, u32 maxelem) {
  Ten t; t.z = z;
  u32 rank = small(6) ; // 0..5 -> rank 1.. mostly
  rank = rank == 5 ? 0 : rank + 1;
  if (choose(24) == 23) rank = 6 + (flip(1, 4) ? choose(7) : 0);
  size_t n = rank ? 1 : 0;
  for (u32 k = 0; k < rank; k++) {
    u32 cap = (u32)std::max<size_t>(1, maxelem / std::max<size_t>(n, 1));
    u32 d = flip(1, 12) ? 0 : 1 + small(std::min<u32>(cap, k == 0 && flip(1, 10) ? cap : 7));
    t.dims.push_back(d); n *= d;
  }
  if (maxelem > 10000) { t.dims.assign(1, (long)(maxelem / 2 + choose(maxelem / 2))); if (flip(1, 2)) t.dims.push_back(1 + choose(2)); n = 1; for (long d : t.dims) n *= d; }
  u64 seed = choose(1u << 30);
  t.x.resize(n * (z ? 2 : 1));
  for (size_t k = 0; k < t.x.size(); k++) t.x[k] = gen_num(seed, k);
  return t;
}
inline Val gen_val(u32 maxelem) {
  Val v; v.kind = (Kind)choose(NKINDS);
  switch (v.kind) {
  case INT: { u32 c = choose(8); v.i = c == 7 ? INT32_MAX : c == 6 ? INT32_MIN : (long)(int)(choose(1u << 31) - (c & 1 ? (1u << 30) : 0)) >> (choose(31)); } break;
  case SIZE: { u64 b = ((u64)choose(1u << 21) << 32 | choose(0xffffffffu)); v.i = (long)(b >> choose(53)); } break;
  case REAL: v.t.dims = {1}; v.t.x = {gen_num(choose(1u << 20), 0)}; break;
  case CPLX: { u32 s = choose(1u << 20); v.t.z = true; v.t.dims = {1}; v.t.x = {gen_num(s, 0), gen_num(s, 1)}; } break;
  case RT: v.t = gen_ten(false, maxelem); break;
  case CT: v.t = gen_ten(true, maxelem); break;
  default: { u32 n = choose(400) == 399 ? 300 : small(5); if (n > 5) maxelem = 8; for (u32 k = 0; k < n; k++) v.v.push_back(gen_ten(v.kind == CTV, std::max(4u, maxelem / 4))); }
  }
  return v;
}
inline std::string gen_name() {
  static const std::vector<std::string> fix = {"x", "", "energy", "H(1,2)", "a b", "sdf", "sdf481", "psi/\xc3\xa9", "0", "L"};
  u32 c = choose(15);
  if (c < fix.size()) return fix[c];
  if (c == 14) { u32 n = 1 + choose(63), seed = choose(1u << 20); std::string s; for (u32 k = 0; k < n; k++) s += (char)(1 + mix(seed, k) % 255); return s; }
  u32 n = c == 13 ? 63 : c == 12 ? 62 : 1 + choose(63);
  std::string s; for (u32 k = 0; k < n; k++) s += (char)('a' + (k * 7 + n) % 26);
  return s;
}
inline std::string describe(const Rec &r) {
  std::string d = kind_name(r.val.kind);
  if (r.val.kind <= SIZE) return fmt("%s '%s' = %ld", d.c_str(), r.name.c_str(), r.val.i);
  if (r.val.kind >= RTV) return fmt("%s '%s' of %zu", d.c_str(), r.name.c_str(), r.val.v.size());
  std::string dd; for (long x : r.val.t.dims) dd += fmt("%ld,", x);
  return fmt("%s '%s' (%s)", d.c_str(), r.name.c_str(), dd.c_str());
}
//-------------------------------------------------------------------- layout
inline void put_long(std::string &s, long v) { s.append((char *)&v, 8); }
inline std::string header() { std::string h(64, '\0'); memcpy(&h[0], "sdf481", 6); return h; }
inline void put_tag(std::string &s, const std::string &name, long code) { std::string n(64, '\0'); memcpy(&n[0], name.data(), std::min<size_t>(63, name.size())); s += n; put_long(s, code); }
inline void put_ten(std::string &s, const Ten &t, const std::string &name) {
  put_tag(s, name, t.z ? 1 : 0);
  put_long(s, t.dims.size()); for (long d : t.dims) put_long(s, d);
  put_long(s, t.x.size() / (t.z ? 2 : 1));
  s.append((const char *)t.x.data(), t.x.size() * 8);
}
inline void encode(std::string &s, const Rec &r) {
  const Val &v = r.val;
  switch (v.kind) {
  case INT: case SIZE: { Ten t; t.dims = {1}; t.x = {(double)v.i}; put_ten(s, t, r.name); } break;
  case REAL: case CPLX: case RT: case CT: put_ten(s, v.t, r.name); break;
  default:
    put_tag(s, r.name, v.kind == RTV ? 2 : 3); put_long(s, v.v.size());
    for (auto &t : v.v) put_ten(s, t, "");
  }
}
inline std::string encode(const std::vector<Rec> &rs) { std::string s; for (auto &r : rs) encode(s, r); return s; }
//------------------------------------------------------ strict stream decoder
struct Raw { std::string name; long code; Ten t; std::vector<Ten> v; size_t end; };
struct Cursor {
  const std::string &b; size_t p; bool ok = true;
  Cursor(const std::string &b, size_t p) : b(b), p(p) {}
  bool need(size_t n) { if (n > b.size() || p > b.size() - n) ok = false; return ok; }
  long lng() { if (!need(8)) return 0; long v; memcpy(&v, &b[p], 8); p += 8; return v; }
  std::string name() { if (!need(64)) return ""; size_t n = 0; while (n < 64 && b[p + n]) n++; if (n == 64) ok = false; std::string s = b.substr(p, n); p += 64; return s; }
  void tensor(Ten &t, bool z) {
    t.z = z; long r = lng(); if (!ok || r < 0 || r > 64) { ok = false; return; }
    long n = r ? 1 : 0;
    for (long k = 0; k < r && ok; k++) { long d = lng(); if (d < 0) ok = false; t.dims.push_back(d); if (ok && d && n > (1l << 40) / d) ok = false; n *= d; }
    long l = lng(); if (!ok || l != n || l < 0 || l > (1l << 32)) { ok = false; return; }
    if (!need(l * (z ? 16 : 8))) return;
    t.x.resize(l * (z ? 2 : 1)); memcpy(t.x.data(), b.data() + p, t.x.size() * 8); p += t.x.size() * 8;
  }
};
inline bool decode_one(const std::string &b, size_t at, Raw &r) {
  Cursor c(b, at); r = Raw();
  r.name = c.name(); r.code = c.lng();
  if (!c.ok) return false;
  if (r.code == 0 || r.code == 1) c.tensor(r.t, r.code == 1);
  else if (r.code == 2 || r.code == 3) {
    long n = c.lng(); if (!c.ok || n < 0 || n > 1000000) return false;
    for (long k = 0; k < n && c.ok; k++) {
      c.name(); long code = c.lng(); if (code != r.code - 2) c.ok = false;
      if (!c.ok) break;
      r.v.emplace_back(); c.tensor(r.v.back(), code == 1);
    }
  } else return false;
  r.end = c.p;
  return c.ok;
}
// Whole file: header and complete records only.
inline bool decode_file(const std::string &b, std::vector<Raw> &out) {
  out.clear();
  if (b.size() < 64 || b.compare(0, 64, header())) return false;
  size_t p = 64;
  while (p < b.size()) { Raw r; if (!decode_one(b, p, r)) return false; p = r.end; out.push_back(r); }
  return true;
}
//------------------------------------------------- library side (run in lib())
inline tensor::RTensor make_rt(const Ten &t) {
  if (t.dims.empty()) return tensor::RTensor();
  tensor::Indices d((tensor::index)t.dims.size()); for (size_t k = 0; k < t.dims.size(); k++) d.at(k) = t.dims[k];
  tensor::RTensor r(d); for (size_t k = 0; k < t.x.size(); k++) r.at(k) = t.x[k];
  return r;
}
inline tensor::CTensor make_ct(const Ten &t) {
  if (t.dims.empty()) return tensor::CTensor();
  tensor::Indices d((tensor::index)t.dims.size()); for (size_t k = 0; k < t.dims.size(); k++) d.at(k) = t.dims[k];
  tensor::CTensor r(d); for (size_t k = 0; k < t.x.size() / 2; k++) r.at(k) = tensor::to_complex(t.x[2 * k], t.x[2 * k + 1]);
  return r;
}
template <class T> Ten from_dims(const T &t) { HostScope h; Ten r; r.dims.clear(); const tensor::Indices &d = t.dimensions(); for (tensor::index k = 0; k < d.size(); k++) r.dims.push_back(d[k]); return r; }
inline Ten from(const tensor::RTensor &t) { HostScope h; Ten r = from_dims(t); for (tensor::index k = 0; k < t.size(); k++) r.x.push_back(t[k]); return r; }
inline Ten from(const tensor::CTensor &t) { HostScope h; Ten r = from_dims(t); r.z = true; for (tensor::index k = 0; k < t.size(); k++) { r.x.push_back(tensor::real(t[k])); r.x.push_back(tensor::imag(t[k])); } return r; }
inline void dump(sdf::OutDataFile &f, const Rec &r) {
  note("dump %s", describe(r).c_str());
  event(0x40, r.val.kind, r.name.size());
  const Val &v = r.val;
  switch (v.kind) {
  case INT: f.dump((int)v.i, r.name); break;
  case SIZE: f.dump((size_t)v.i, r.name); break;
  case REAL: f.dump(v.t.x[0], r.name); break;
  case CPLX: f.dump(tensor::to_complex(v.t.x[0], v.t.x[1]), r.name); break;
  case RT: f.dump(make_rt(v.t), r.name); break;
  case CT: f.dump(make_ct(v.t), r.name); break;
  case RTV: { std::vector<tensor::RTensor> x; for (auto &t : v.v) x.push_back(make_rt(t)); f.dump(x, r.name); } break;
  case CTV: { std::vector<tensor::CTensor> x; for (auto &t : v.v) x.push_back(make_ct(t)); f.dump(x, r.name); } break;
  default: break;
  }
}
// Load with the type of `kind`; `dirty`: the destination already holds shared data.
inline Val load(sdf::InDataFile &f, Kind kind, const std::string &name, bool dirty) {
  Val v; { HostScope h; v.kind = kind; }
  switch (kind) {
  case INT: { int x = 77; f.load(&x, name); v.i = x; } break;
  case SIZE: { size_t x = 77; f.load(&x, name); v.i = (long)x; } break;
  case REAL: { double x = 77; f.load(&x, name); HostScope h; v.t.dims = {1}; v.t.x = {x}; } break;
  case CPLX: { tensor::cdouble x = tensor::to_complex(7, 7); f.load(&x, name); HostScope h; v.t.z = true; v.t.dims = {1}; v.t.x = {tensor::real(x), tensor::imag(x)}; } break;
  case RT: {
    tensor::RTensor t, keep; if (dirty) { t = tensor::RTensor(2, 3); for (int k = 0; k < 6; k++) t.at(k) = k + 0.5; keep = t; }
    f.load(&t, name); { HostScope h; v.t = from(t); }
    if (dirty) for (int k = 0; k < 6; k++) if (keep[k] != k + 0.5) violate("bystander-changed", "loading into a tensor changed another tensor that shared its old data");
  } break;
  case CT: {
    tensor::CTensor t, keep; if (dirty) { t = tensor::CTensor(2, 3); for (int k = 0; k < 6; k++) t.at(k) = k + 0.5; keep = t; }
    f.load(&t, name); { HostScope h; v.t = from(t); }
    if (dirty) for (int k = 0; k < 6; k++) if (tensor::real(keep[k]) != k + 0.5) violate("bystander-changed", "loading into a tensor changed another tensor that shared its old data");
  } break;
  case RTV: { std::vector<tensor::RTensor> x; if (dirty) x.resize(3); f.load(&x, name); HostScope h; for (auto &t : x) v.v.push_back(from(t)); } break;
  case CTV: { std::vector<tensor::CTensor> x; if (dirty) x.resize(3); f.load(&x, name); HostScope h; for (auto &t : x) v.v.push_back(from(t)); } break;
  default: break;
  }
  return v;
}
inline void weather() {      // legal but unusual: partial transfers and interrupted calls
  static const u32 r[] = {0, 2, 8, 30};
  u32 a = r[choose(4)], b = r[choose(4)];
  cfg.short_io = {a, 60}; cfg.eintr = {b, 90};
}
inline void heap_weather() { static const u8 f[] = {0x00, 0xA5, 0xFF, 0x7F}; cfg.fill = f[choose(4)]; }
} // namespace sdfm
