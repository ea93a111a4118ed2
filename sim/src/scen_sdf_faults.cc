// C02: writers on failing disks. C03: readers of missing, short, failing and damaged files.
#include "sdfmodel.h"
#include <stdexcept>
using namespace sdfm;

namespace {
std::vector<Rec> gen_recs(u32 maxn, u32 maxelem) {
  std::vector<Rec> v; u32 n = small(maxn + 1);
  for (u32 k = 0; k < n; k++) { Rec r; r.name = gen_name(); r.val = gen_val(maxelem); v.push_back(r); }
  return v;
}
const char *mode_name(int m) { return m == sdf::DataFile::SDF_SHARED ? "shared" : m == sdf::DataFile::SDF_OVERWRITE ? "overwrite" : "paranoid"; }
bool starts_with(const std::string &a, const std::string &p) { return a.size() >= p.size() && !a.compare(0, p.size(), p); }
bool ends_with(const std::string &a, const std::string &p) { return a.size() >= p.size() && !a.compare(a.size() - p.size(), p.size(), p); }
}

//----------------------------------------------------------------------- C02
SCENARIO(C02, disk_errors, 4) {
  heap_weather(); weather();
  const std::string path = flip(1, 3) ? "run/data.sdf" : "data.sdf";
  fs::mkdir("/w/run");
  u32 kind = choose(7), rate = 1 + choose(3) * 12;        // errors are rare enough for sessions to get going
  u32 n = 1 + small(5);
  std::string desc; bool any = false;
  for (u32 s = 0; s < n; s++) {
    static const int modes[] = {sdf::DataFile::SDF_SHARED, sdf::DataFile::SDF_OVERWRITE, sdf::DataFile::SDF_PARANOID};
    int mode = modes[choose(3)];
    std::vector<Rec> recs = gen_recs(6, choose(6) == 5 ? 3000 : 24);
    bool last = s + 1 == n, quiet = s == 0 ? flip(1, 2) : flip(1, 4);
    if (last && flip(1, 3)) quiet = true;
    cfg.faults_on = !quiet;
    cfg.err_write = cfg.err_open = cfg.err_close = cfg.err_meta = Config::Fault(); cfg.disk_free = -1;
    Config::Fault f; f.num = rate; f.den = 120;
    if (kind == 0 || kind >= 5) cfg.err_write = f;
    if (kind == 1 || kind >= 5) { cfg.err_close = f; cfg.close_loses = flip(1, 2); }
    if (kind == 2 || kind >= 5) cfg.err_open = f;
    if (kind == 3 || kind == 6) cfg.err_meta = f;
    if (kind == 4 && !quiet) { std::string e = encode(recs); cfg.disk_free = 1 + choose((u32)e.size() + 80); }   // 0 would leave no room for the lock file: waiting for space is fine
    std::string prior; bool existed = fs::get(path, &prior);
    u64 f0 = faults(); bool closed = false, ec = flip(1, 2);
    std::string body = encode(recs);
    Proc *p = spawn(fmt("writer%u", s), [&] {
      lib([&] {
        sdf::OutDataFile out(path, mode);
        for (auto &r : recs) dump(out, r);
        if (ec) { out.close(); closed = true; }
      });
      closed = true;
    });
    if (!run()) { cfg.faults_on = false; violate("stuck", "a %s session never ended after a disk error", mode_name(mode)); }
    bool hit = faults() != f0; any |= hit;
    std::string now; bool there = fs::get(path, &now);
    desc += fmt("%s:%zu%s:%s ", mode_name(mode), recs.size(), hit ? "!" : "", end_name(p->end));
    if (closed) {
      if (!there) violate("lost-data", "close() of a %s session returned after a disk error, but the file does not exist", mode_name(mode));
      if (mode == sdf::DataFile::SDF_SHARED && prior.size()) {
        if (now.size() != prior.size() + body.size() || !starts_with(now, prior) || !ends_with(now, body))
          violate("lost-data", "close() of a shared session returned, but the file does not hold all it was given: %zu bytes, %zu before plus %zu of %zu records", now.size(), prior.size(), body.size(), recs.size());
      } else if (now != header() + body)
        violate("lost-data", "close() of a %s session returned, but the file holds %zu bytes instead of header and %zu records (%zu bytes)", mode_name(mode), now.size(), recs.size(), body.size() + 64);
      if (hit) probe("session survived an error with its data");
    } else {
      if (p->end == End::Returned) harness_error("session neither closed nor failed");
      if (mode == sdf::DataFile::SDF_SHARED && existed && !(there && starts_with(now, prior)))
        violate("destroyed-data", "a shared session that failed changed what was in the file before it");
      if (mode == sdf::DataFile::SDF_PARANOID && (there != existed || now != prior))
        violate("destroyed-data", "a paranoid session that failed changed the published file");
    }
    if (p->end != End::Returned && !hit) violate("needless-failure", "a %s session ended with %s (%s) although no call failed", mode_name(mode), end_name(p->end), p->what.c_str());
    if (p->end != End::Returned) probe("session stopped by an error");
  }
  nontrivial(any);
  sample(desc);
}

// The program does not call close(): the destructor, an early return and a long-lived process with many files.
SCENARIO(C02, one_error, 3) {
  heap_weather();
  const std::string path = "data.sdf";
  static const int modes[] = {sdf::DataFile::SDF_SHARED, sdf::DataFile::SDF_OVERWRITE, sdf::DataFile::SDF_PARANOID};
  int mode = modes[choose(3)];
  std::vector<Rec> old = gen_recs(3, 12), recs = gen_recs(5, choose(5) == 4 ? 2000 : 16);
  std::string prior; bool existed = flip(2, 3);
  if (existed) { prior = header() + encode(old); fs::put(path, prior); }
  // exactly one failing call, the k-th of its kind
  const char *kinds[] = {"write", "close", "open", "fsync"}; const char *kind = kinds[choose(3)];
  u32 k = 1 + small(strcmp(kind, "write") ? 3 : 60);
  bool sticky = flip(1, 2);                       // the device stays broken
  cfg.close_loses = flip(1, 2);
  u32 seen = 0; bool hit = false;
  Config::Fault always; always.num = 1; always.den = 1;
  cfg.err_write = cfg.err_close = cfg.err_open = always;
  cfg.fault_filter = [&](const char *call, const std::string &) {
    if (strcmp(call, kind)) return false;
    seen++;
    bool f = sticky ? seen >= k : seen == k;
    if (f) hit = true;
    return f;
  };
  bool closed = false;
  Proc *p = spawn("writer", [&] {
    lib([&] { sdf::OutDataFile out(path, mode); for (auto &r : recs) dump(out, r); });
    closed = true;
  });
  if (!run()) { if (sticky && !strcmp(kind, "open") && mode == sdf::DataFile::SDF_SHARED) return; violate("stuck", "a session never ended after one failing %s", kind); }
  std::string now; bool there = fs::get(path, &now);
  std::string body = encode(recs);
  if (closed) {
    std::string want = (mode == sdf::DataFile::SDF_SHARED && existed ? prior : header()) + body;
    if (!there || now != want) violate("lost-data", "%s number %u failed, the program went on, and the file holds %zu bytes instead of %zu", kind, k, now.size(), want.size());
  } else {
    if (mode == sdf::DataFile::SDF_SHARED && existed && !starts_with(now, prior)) violate("destroyed-data", "a failing shared session changed earlier records");
    if (mode == sdf::DataFile::SDF_PARANOID && (there != existed || now != prior)) violate("destroyed-data", "a failing paranoid session changed the published file");
    if (!hit) violate("needless-failure", "the session ended with %s (%s) although no call failed", end_name(p->end), p->what.c_str());
  }
  // the next program finds a working disk
  if (!hit) return;
  cfg.fault_filter = nullptr; cfg.faults_on = false;
  std::vector<Rec> more = gen_recs(3, 8);
  Proc *q = spawn("next", [&] { lib([&] { sdf::OutDataFile out(path, sdf::DataFile::SDF_SHARED); for (auto &r : more) dump(out, r); out.close(); }); });
  if (!run()) violate("stuck", "a session after a failed one never ended");
  if (q->end != End::Returned) violate("needless-failure", "a session after a failed one ended with %s", end_name(q->end));
  std::string fin; fs::get(path, &fin);
  if (now.size() >= 64 || now.empty()) {
    std::string want = (now.empty() ? header() : now) + encode(more);
    if (fin != want) violate("lost-data", "after a failed session a later one stored %zu bytes in a file of %zu, which now has %zu", encode(more).size(), now.size(), fin.size());
  }
  nontrivial();
  sample(fmt("%s, %s #%u%s fails: %s", mode_name(mode), kind, k, sticky ? "+" : "", end_name(p->end)));
}

//----------------------------------------------------------------------- C03
namespace {
struct Got { bool ok; Val v; };
// Load everything in order in one process; stops at the first record that does not load.
Proc *read_all(const std::string &path, const std::vector<Rec> &want, std::vector<Got> &got, const std::vector<u8> &anon, bool *opened) {
  got.clear(); *opened = false;
  return spawn("reader", [&path, &want, &got, &anon, opened] {
    lib([&] {
      sdf::InDataFile in(path);
      *opened = true;
      for (size_t k = 0; k < want.size(); k++) {
        Val v = load(in, want[k].val.kind, anon[k] ? std::string() : want[k].name, false);
        HostScope h; got.push_back(Got{true, v});
      }
      in.close();
    });
  });
}
std::vector<Rec> some_recs(u32 maxn, u32 maxelem) { auto v = gen_recs(maxn, maxelem); if (v.empty()) { Rec r; r.name = "x"; r.val = gen_val(maxelem); v.push_back(r); } return v; }
void check_got(const std::vector<Rec> &want, const std::vector<Got> &got, const char *what) {
  for (size_t k = 0; k < got.size(); k++) if (!same(got[k].v, want[k].val))
    violate("garbage", "%s: load of record %zu, %s, returned something that was not stored there", what, k, describe(want[k]).c_str());
}
}
SCENARIO(C03, truncated, 3) {
  heap_weather(); weather();
  std::vector<Rec> recs = some_recs(5, choose(5) == 4 ? 1500 : 20);
  std::string full = header() + encode(recs);
  std::vector<size_t> ends; { std::string s = header(); for (auto &r : recs) { encode(s, r); ends.push_back(s.size()); } }
  size_t cut = flip(1, 3) ? choose((u32)full.size()) : full.size() - 1 - small((u32)full.size());
  if (flip(1, 4)) { size_t e = ends[choose((u32)ends.size())]; cut = std::min(full.size() - 1, flip(1, 2) ? e : e - 1 - choose(8)); }
  fs::put("data.sdf", full.substr(0, cut));
  std::vector<u8> anon; for (auto &r : recs) { (void)r; anon.push_back(flip(1, 2)); }
  std::vector<Got> got; bool opened;
  Proc *p = read_all("data.sdf", recs, got, anon, &opened);
  if (!run()) violate("stuck", "reading a truncated file never ended");
  check_got(recs, got, "truncated file");
  size_t complete = 0; while (complete < ends.size() && ends[complete] <= cut) complete++;
  if (got.size() > complete) violate("garbage", "%zu records loaded from a file cut after %zu of them (at byte %zu of %zu)", got.size(), complete, cut, full.size());
  if (cut >= 64 && got.size() < complete) violate("needless-failure", "only %zu of the %zu complete records of a truncated file loaded", got.size(), complete);
  if (p->end == End::Returned) violate("not-reported", "reading a file cut at byte %zu of %zu ended as if nothing were wrong", cut, full.size());
  nontrivial(); count("fault:truncated-file");
  sample(fmt("%zu records cut at %zu of %zu: %zu loaded, %s", recs.size(), cut, full.size(), got.size(), end_name(p->end)));
}
SCENARIO(C03, read_errors, 3) {
  heap_weather(); weather();
  std::vector<Rec> recs = some_recs(6, choose(5) == 4 ? 3000 : 20);
  fs::put("data.sdf", header() + encode(recs));
  cfg.err_read.num = 1; cfg.err_read.den = 1;
  u32 k = 1 + small(40), seen = 0; bool sticky = flip(1, 2), hit = false; bool openerr = flip(1, 6);
  if (openerr) { cfg.err_open = cfg.err_read; }
  cfg.fault_filter = [&](const char *call, const std::string &path) {
    if (path != "data.sdf") return false;
    if (openerr) { if (strcmp(call, "open")) return false; hit = true; return true; }
    if (strcmp(call, "read")) return false;
    seen++; bool f = sticky ? seen >= k : seen == k; if (f) hit = true; return f;
  };
  std::vector<u8> anon; for (auto &r : recs) { (void)r; anon.push_back(flip(1, 2)); }
  std::vector<Got> got; bool opened;
  Proc *p = read_all("data.sdf", recs, got, anon, &opened);
  if (!run()) violate("stuck", "reading from a failing disk never ended");
  check_got(recs, got, "read error");
  if (!hit && p->end != End::Returned) violate("needless-failure", "reading failed although every read succeeded");
  if (openerr && hit && got.size()) violate("garbage", "%zu records loaded from a file that could not be opened", got.size());
  nontrivial(hit);
  if (hit) probe("read error reached");
  sample(fmt("%zu records, read #%u%s fails: %zu loaded, %s", recs.size(), k, sticky ? "+" : "", got.size(), end_name(p->end)));
}
SCENARIO(C03, foreign, 2) {
  heap_weather(); weather();
  std::vector<Rec> recs = some_recs(2, 12);
  std::string path = "data.sdf", body = header() + encode(recs); const char *what = "";
  switch (choose(9)) {
  case 0: what = "missing file"; break;
  case 1: what = "empty file"; fs::put(path, ""); break;
  case 2: what = "directory"; fs::mkdir("/w/data.sdf"); break;
  case 3: what = "unreadable file"; fs::put(path, body, 0200); break;
  case 4: { what = "random bytes"; std::string s; u64 sd = choose(1u << 30); u32 n = choose(400); for (u32 k = 0; k < n; k++) s += (char)mix(sd, k); fs::put(path, s); } break;
  case 5: { what = "text file"; std::string s; while (s.size() < 200) s += "# 1.0 2.0 sdf481\n"; fs::put(path, s); } break;
  case 6: { what = "other word sizes"; static const char *h[] = {"sdf441", "sdf480", "sdf880", "sdf281", "sdf48", "sdf", "s", "tdf481", "sda481", "sxf481", "Sdf481", "sDf481", "sdF481", "sdf4 1", "sdf48 ", "sdf48\x01"}; std::string b = body; const char *x = h[choose(16)]; std::fill(b.begin(), b.begin() + 64, 0); b.replace(0, strlen(x), x); fs::put(path, b); } break;
  case 7: { what = "header without end"; std::string b = body; std::fill(b.begin(), b.begin() + 64, 'x'); fs::put(path, b); } break;
  case 8: what = "missing directory"; path = "nowhere/data.sdf"; break;
  }
  std::vector<u8> anon(recs.size(), flip(1, 2)); std::vector<Got> got; bool opened;
  cfg.time_limit = 600 * SEC;
  Proc *p = read_all(path, recs, got, anon, &opened);
  if (!run()) violate("stuck", "reading a %s never ended", what);
  if (got.size()) violate("garbage", "%s: a load returned a value", what);
  if (p->end == End::Returned || opened) violate("not-reported", "%s: opening it for reading succeeded", what);
  nontrivial(); count("fault:foreign-file");
  sample(fmt("%s: %s", what, end_name(p->end)));
}
SCENARIO(C03, mismatch, 3) {
  heap_weather(); weather();
  std::vector<Rec> recs = some_recs(4, 16);
  u32 at = choose((u32)recs.size());
  if (flip(1, 4)) {                                        // numbers around the limits of the integer types
    static const double edge[] = {0, -0.0, 0.5, -0.5, -1, 2147483647.0, 2147483647.5, 2147483648.0, -2147483648.0, -2147483648.5, -2147483649.0, 4294967296.0, 9007199254740992.0, 9223372036854775808.0, 18446744073709551616.0, 1e300, -1e300, NAN, INFINITY};
    Val &v = recs[at].val; v = Val(); v.kind = REAL; v.t.dims = {1}; v.t.x = {edge[choose(sizeof edge / sizeof *edge)]};
  }
  fs::put("data.sdf", header() + encode(recs));
  const Rec &r = recs[at];
  bool wrong_name = flip(1, 2);
  std::string name = r.name; Kind kind = r.val.kind;
  if (wrong_name) {
    switch (choose(5)) {
    case 0: name = r.name + "_"; break;
    case 1: name = r.name.size() > 1 ? r.name.substr(0, r.name.size() - 1) : "other"; break;
    case 2: name = "other"; break;
    case 3: if (r.name.size()) { name[choose((u32)name.size())] ^= 1; } else name = "z"; break;
    case 4: name = at + 1 < recs.size() ? recs[at + 1].name : "next"; break;
    }
    if (name.empty() || name == r.name || name.find('\0') != std::string::npos) return;
  } else {
    kind = (Kind)choose(NKINDS);
    if (flip(1, 2)) name = "";
  }
  auto tag = [](const Val &v, Kind k) { (void)v; return k == INT || k == SIZE || k == REAL || k == RT ? 0 : k == CPLX || k == CT ? 1 : k == RTV ? 2 : 3; };
  bool scalar_req = kind == INT || kind == SIZE || kind == REAL || kind == CPLX;
  size_t elems = r.val.kind <= SIZE ? 1 : r.val.t.x.size() / (r.val.t.z ? 2 : 1);
  bool compatible = !wrong_name && tag(r.val, r.val.kind) == tag(r.val, kind) && (!scalar_req || (r.val.kind <= CT && elems == 1));
  if (compatible && (kind == INT || kind == SIZE)) {      // a number that is no integer or does not fit must be refused
    double d = r.val.kind <= SIZE ? (double)r.val.i : r.val.t.x[0];
    if (!(d >= (kind == INT ? -2147483648.0 : 0.0) && d < (kind == INT ? 2147483648.0 : 18446744073709551616.0) && d == std::floor(d))) compatible = false;
    else if (!(d <= 9007199254740992.0)) return;           // integers beyond 2^53 are not covered
  }
  Val got; bool returned = false;
  Proc *p = spawn("reader", [&] {
    lib([&] {
      sdf::InDataFile in("data.sdf");
      for (u32 k = 0; k < at; k++) { Val v = load(in, recs[k].val.kind, recs[k].name, false); if (!same(v, recs[k].val)) violate("garbage", "record %u came back different", k); }
      Val v = load(in, kind, name, flip(1, 2));
      HostScope h; got = v; returned = true;
    });
  });
  if (!run()) violate("stuck", "a mismatched load never ended");
  if (!compatible && returned) violate("garbage", "a load of a %s named '%s' returned although %s is stored there", kind_name(kind), name.c_str(), describe(r).c_str());
  if (compatible) {
    if (!returned) violate("needless-failure", "%s was refused as a %s", describe(r).c_str(), kind_name(kind));
    std::vector<double> a = got.kind <= SIZE ? std::vector<double>{(double)got.i} : got.t.x, b = r.val.kind <= SIZE ? std::vector<double>{(double)r.val.i} : r.val.t.x;
    bool eq = kind >= RTV ? same(got, r.val) : kind <= SIZE ? (a.size() == 1 && b.size() == 1 && a[0] == b[0]) : same(a, b);
    if (!eq) violate("garbage", "%s loaded as a %s differs", describe(r).c_str(), kind_name(kind));
  } else if (p->end == End::Returned) violate("not-reported", "a mismatched load ended as if nothing were wrong");
  nontrivial(); count("fault:mismatched-request");
  sample(fmt("%s asked as %s '%s': %s", describe(r).c_str(), kind_name(kind), name.c_str(), end_name(p->end)));
}
namespace {
struct Field { size_t at, len; };
void fields_of(const Rec &r, size_t base, std::vector<Field> &out) {   // names, type codes, dimensions and lengths of non-empty tensors
  size_t p = base;
  auto ten = [&](const Ten &t) {
    out.push_back({p, 72}); p += 72; size_t rank = t.dims.size();
    if (t.x.size()) out.push_back({p + 8, 8 * rank + 8});
    p += 16 + 8 * rank + t.x.size() * 8;
  };
  const Val &v = r.val;
  if (v.kind <= SIZE) { Ten t; t.dims = {1}; t.x = {0}; ten(t); }
  else if (v.kind <= CT) ten(v.t);
  else { out.push_back({p, 72}); p += 80; for (auto &t : v.v) ten(t); }
}
}
SCENARIO(C03, damaged, 4) {
  heap_weather(); weather();
  std::vector<Rec> recs = some_recs(4, 16);
  std::string full = header() + encode(recs);
  std::vector<Field> fs_; fs_.push_back({0, 64}); { std::string s = header(); for (auto &r : recs) { fields_of(r, s.size(), fs_); encode(s, r); } }
  Field f = fs_[choose((u32)fs_.size())];
  size_t at = f.at + choose((u32)f.len);
  u8 old = (u8)full[at], nw;
  switch (choose(4)) { case 0: nw = old ^ (1u << choose(8)); break; case 1: nw = 0xff; break; case 2: nw = 0; break; default: nw = (u8)choose(256); }
  if (nw == old) nw ^= 0x80;
  full[at] = (char)nw;
  fs::put("data.sdf", full);
  std::vector<u8> anon; for (auto &r : recs) { (void)r; anon.push_back(flip(1, 3)); }
  std::vector<Got> got; bool opened;
  Proc *p = read_all("data.sdf", recs, got, anon, &opened);
  if (!run()) violate("stuck", "reading a damaged file never ended");
  check_got(recs, got, fmt("byte %zu changed from %02x to %02x", at, old, nw).c_str());
  nontrivial(); count("fault:flipped-byte");
  if (p->end == End::Returned) probe("damage was harmless");
  sample(fmt("byte %zu %02x->%02x of %zu: %zu of %zu loaded, %s", at, old, nw, full.size(), got.size(), recs.size(), end_name(p->end)));
}
// Dimensions that no tensor has, but whose product is the stored number of elements: two negative ones, a product that wraps.
SCENARIO(C03, false_shape, 2) {
  heap_weather(); weather();
  std::vector<Rec> recs = some_recs(2, 12);
  u32 at = choose((u32)recs.size() + 1);
  Rec r; r.name = gen_name(); Ten t; t.z = flip(1, 3);
  u32 rank = 2 + choose(4); size_t n = 1;
  for (u32 k = 0; k < rank; k++) { i64 d = 1 + (i64)choose(3); t.dims.push_back(d); n *= (size_t)d; }
  for (size_t k = 0; k < n * (t.z ? 2 : 1); k++) t.x.push_back((double)choose(100) + 0.5);
  bool vec = flip(1, 3); Ten plain = t; const char *what;
  u32 i = choose(rank), j = (i + 1 + choose(rank - 1)) % rank;
  switch (choose(4)) {
  case 0: what = "two negative dimensions"; t.dims[i] = -t.dims[i]; t.dims[j] = -t.dims[j]; break;
  case 1: {                                        // a * b = dims[i] * dims[j] modulo 2^64, a odd and b its inverse times that
    what = "dimensions whose product wraps"; u64 m = (u64)t.dims[i] * (u64)t.dims[j], a = 0, b = 0; bool ok = false; u64 sd = choose(1u << 30);
    for (u32 q = 0; q < 16 && !ok; q++) { a = (mix(sd, q) >> (1 + sd % 40)) | 1; u64 inv = a; for (int w = 0; w < 6; w++) inv *= 2 - a * inv; b = inv * m; ok = a > 3 && !(b >> 63); }
    if (!ok) return;
    t.dims[i] = (i64)a; t.dims[j] = (i64)b;
  } break;
  case 2: what = "a product of 2^64 for no elements"; { u32 a = 1 + choose(62); t.dims.assign(rank, 1); t.dims[i] = (i64)1 << a; t.dims[j] = (i64)1 << (64 - a > 62 ? 62 : 64 - a); if (64 - a > 62) t.dims[i] <<= 1; t.x.clear(); } break;
  default: what = "negative dimensions around zero elements"; { t.dims[i] = 0; t.dims[j] = -t.dims[j]; t.x.clear(); } break;
  }
  r.val.kind = vec ? (t.z ? CTV : RTV) : (t.z ? CT : RT);
  if (vec) { r.val.v.push_back(plain); r.val.v.push_back(t); } else r.val.t = t;
  std::vector<Rec> all = recs; all.insert(all.begin() + at, r);
  fs::put("data.sdf", header() + encode(all));
  std::vector<u8> anon; for (auto &q : all) { (void)q; anon.push_back(flip(1, 3)); }
  std::vector<Got> got; bool opened;
  Proc *p = read_all("data.sdf", all, got, anon, &opened);
  if (!run()) violate("stuck", "reading a record with %s never ended", what);
  if (got.size() > at) violate("garbage", "a load returned a tensor with %s", what);
  check_got(all, got, what);
  if (got.size() < at) violate("needless-failure", "only %zu of the %u records before one with %s loaded", got.size(), at, what);
  if (p->end == End::Returned) violate("not-reported", "reading a record with %s ended as if nothing were wrong", what);
  nontrivial(); count("fault:false-shape");
  sample(fmt("%s in a rank %u tensor: %s", what, rank, end_name(p->end)));
}
// Arbitrary damage, also where nothing can detect it: memory safety and termination only.
SCENARIO(C03, scrambled, 2) {
  heap_weather(); weather();
  std::vector<Rec> recs = some_recs(4, 16);
  std::string full = header() + encode(recs);
  u32 n = 1 + small(4);
  for (u32 k = 0; k < n; k++) {
    size_t at = choose((u32)full.size());
    switch (choose(4)) {
    case 0: full[at] = (char)choose(256); break;
    case 1: { i64 v = choose(2) ? -(i64)choose(100) : (i64)1 << choose(63); at = at / 8 * 8; if (at + 8 <= full.size()) memcpy(&full[at], &v, 8); } break;
    case 2: full.erase(at, 1 + choose(16)); if (full.size() < 64) full.resize(64); break;
    case 3: full.insert(at, std::string(1 + choose(16), (char)choose(256))); break;
    }
  }
  fs::put("data.sdf", full);
  std::vector<u8> anon; for (auto &r : recs) { (void)r; anon.push_back(flip(1, 2)); }
  std::vector<Got> got; bool opened;
  read_all("data.sdf", recs, got, anon, &opened);
  if (!run()) violate("stuck", "reading a scrambled file never ended");
  nontrivial(); count("fault:scrambled-file");
  sample(fmt("%u places of %zu bytes scrambled, %zu loads returned", n, full.size(), got.size()));
}
