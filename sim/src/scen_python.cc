// C19: the repository's Python reader on the files that real sessions of the library left behind.
#include "sdfmodel.h"
#include "pyread.h"
#include <algorithm>
#include <tensor/jobs.h>
using namespace sdfm;

namespace {
typedef sdf::DataFile DF;
std::string hex(const std::string &b) { static const char d[] = "0123456789abcdef"; std::string s; s.reserve(b.size() * 2); for (unsigned char c : b) { s += d[c >> 4]; s += d[c & 15]; } return s; }
std::string hex(const std::vector<double> &x) { return hex(std::string((const char *)x.data(), x.size() * 8)); }
int digit(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
std::string unhex(const std::string &h) { std::string s; for (size_t k = 0; k + 1 < h.size(); k += 2) s += (char)(digit(h[k]) * 16 + digit(h[k + 1])); return s; }
std::string show(const std::vector<long> &dims) { std::string s; for (size_t k = 0; k < dims.size(); k++) s += fmt(k ? ",%ld" : "%ld", dims[k]); return s; }
// What a name stands for, as text: "R dims data", "C dims data", "L count [..]".
std::string text_of(const Ten &t) { std::vector<long> d = t.dims; if (d.empty()) d.push_back(0); return std::string(t.z ? "C " : "R ") + show(d) + " " + hex(t.x); }
struct Item { std::string name, val; bool list = false; };
typedef std::vector<Item> Items;
Item item_of(const Rec &r) {
  Item i; i.name = r.name; const Val &v = r.val;
  if (v.kind == INT || v.kind == SIZE) { Ten t; t.dims = {1}; t.x = {(double)v.i}; i.val = text_of(t); }
  else if (v.kind == RTV || v.kind == CTV) { i.list = true; i.val = fmt("L %zu", v.v.size()); for (auto &t : v.v) i.val += " [" + text_of(t) + "]"; }
  else i.val = text_of(v.t);
  return i;
}
// The layout with integers of `w` bytes in either byte order.
struct Form { int w = 8; bool big = false, header = true; };
void put(std::string &s, const Form &f, u64 v, int w) { for (int k = 0; k < w; k++) s += (char)(v >> 8 * (f.big ? w - 1 - k : k)); }
void put_t(std::string &s, const Form &f, const Ten &t, const std::string &name) {
  std::string n(64, '\0'); memcpy(&n[0], name.data(), std::min<size_t>(63, name.size())); s += n;
  put(s, f, t.z, f.w); put(s, f, t.dims.size(), f.w); for (long d : t.dims) put(s, f, d, f.w);
  put(s, f, t.x.size() / (t.z ? 2 : 1), f.w);
  for (double x : t.x) { u64 b; memcpy(&b, &x, 8); put(s, f, b, 8); }
}
std::string image(const std::vector<Rec> &recs, const Form &f) {
  std::string s;
  if (f.header) { s.assign(64, '\0'); memcpy(&s[0], "sdf4", 4); s[4] = '0' + f.w; s[5] = f.big ? '0' : '1'; }
  for (auto &r : recs) {
    const Val &v = r.val; Ten t;
    if (v.kind == INT || v.kind == SIZE) { t.dims = {1}; t.x = {(double)v.i}; put_t(s, f, t, r.name); }
    else if (v.kind == RTV || v.kind == CTV) { std::string n(64, '\0'); memcpy(&n[0], r.name.data(), std::min<size_t>(63, r.name.size())); s += n; put(s, f, v.kind == RTV ? 2 : 3, f.w); put(s, f, v.v.size(), f.w); for (auto &q : v.v) put_t(s, f, q, ""); }
    else put_t(s, f, v.t, r.name);
  }
  return s;
}
// Strict reference reader of any bytes. False: they are not a complete data file.
struct Ref {
  const std::string &b; size_t p = 0; Form f; bool ok = true;
  Ref(const std::string &b) : b(b) {}
  bool need(u64 n) { if (!ok || n > b.size() - p) ok = false; return ok; }
  u64 num(int w) { if (!need(w)) return 0; u64 v = 0; for (int k = 0; k < w; k++) v |= (u64)(u8)b[p + k] << 8 * (f.big ? w - 1 - k : k); p += w; return v; }
  long lng() { u64 v = num(f.w); return f.w == 4 ? (long)(int)v : (long)v; }
  std::string name() { if (!need(64)) return ""; std::string s = b.substr(p, 64); p += 64; size_t z = s.find('\0'); return z == std::string::npos ? s : s.substr(0, z); }
  Item record() {
    Item i; i.name = name(); long code = lng(); if (!ok) return i;
    if (code == 0 || code == 1) {
      Ten t; t.z = code; long r = lng(); if (!ok || r < 0 || r > 1000) { ok = false; return i; }
      __int128 n = r ? 1 : 0;
      for (long k = 0; k < r && ok; k++) { long d = lng(); t.dims.push_back(d); if (d < 0) ok = false; n *= d; if (n > ((__int128)1 << 62)) n = (__int128)1 << 62; }
      long l = lng(); if (r == 0) n = 0;
      if (!ok || l < 0 || n != l || !need((u64)l > b.size() ? ~0ull : (u64)l * (t.z ? 16 : 8))) { ok = false; return i; }
      for (long k = 0; k < l * (t.z ? 2 : 1); k++) { u64 v = num(8); double x; memcpy(&x, &v, 8); t.x.push_back(x); }
      i.val = text_of(t);
    } else if (code == 2 || code == 3) {
      long n = lng(); if (!ok || n < 0 || n > (long)b.size()) { ok = false; return i; }
      i.list = true; i.val = fmt("L %ld", n);
      for (long k = 0; k < n && ok; k++) i.val += " [" + record().val + "]";
    } else ok = false;
    return i;
  }
  bool file(Items &out) {
    if (b.empty()) return true;
    if (b.size() >= 3 && !b.compare(0, 3, "sdf")) {
      if (!need(64)) return false;
      if ((b[4] != '4' && b[4] != '8') || (b[5] != '0' && b[5] != '1')) return false;
      f.w = b[4] - '0'; f.big = b[5] == '0'; p = 64;
    } else { f.w = 4; f.header = false; }
    while (ok && p < b.size()) { Item i = record(); if (ok) out.push_back(i); }
    return ok;
  }
};
std::map<std::string, Item> last(const Items &v) { std::map<std::string, Item> m; for (auto &i : v) if (i.name.size()) m[i.name] = i; return m; }
// One answer of the reader.
struct Answer { bool raised = false; std::string what; u32 errors = 0; std::map<std::string, std::string> got; std::string nested; };
std::vector<Answer> ask(const std::string &req) {
  std::string s = pyread(req);
  u64 h = 1; for (char c : s) h = h * 1099511628211ull + (u8)c;
  event(0x77, h, s.size());
  if (verbose()) { note("request:"); size_t p = 0; while (p < req.size()) { size_t e = req.find('\n', p); note("  %s", req.substr(p, std::min<size_t>(e - p, 900)).c_str()); p = e + 1; } note("answer:"); p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); note("  %s", s.substr(p, std::min<size_t>(e - p, 900)).c_str()); p = e + 1; } }
  std::vector<Answer> out; size_t p = 0;
  auto line = [&] { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); std::string l = s.substr(p, e - p); p = e + 1; return l; };
  if (s[0] == 'I') violate("reader-broken", "python/sdf.py cannot be imported: %s", line().c_str());
  while (p < s.size()) {
    Answer a; std::string l = line();
    if (l[0] == 'A') a.errors = atoi(l.c_str() + 2); else if (l[0] == 'N') a.nested = l.substr(2); else harness_error("answer %s", l.c_str());
    l = line();
    if (l[0] == 'H') violate("stuck", "the reader does not come to an end");
    if (l[0] == 'E') { a.raised = true; a.what = l.substr(2); count("loads that raised an exception"); }
    else if (l[0] == 'V') { for (int n = atoi(l.c_str() + 2); n--;) { l = line(); size_t sp = l.find(' '); a.got[l[0] == '-' ? "" : unhex(l.substr(0, sp))] = l.substr(sp + 1); } count("loads that returned data"); }
    else a.got["?"] = l;
    out.push_back(a);
  }
  return out;
}
bool utf8(const std::string &s) {
  for (size_t k = 0; k < s.size();) {
    u8 c = s[k]; int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if (n < 0 || k + n >= s.size()) return false;
    u32 v = n ? c & (0x3f >> n) : c;
    for (int j = 1; j <= n; j++) { if (((u8)s[k + j] & 0xc0) != 0x80) return false; v = v << 6 | ((u8)s[k + j] & 0x3f); }
    if ((n == 2 && v < 0x800) || (n == 3 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) return false;
    k += n + 1;
  }
  return true;
}
bool matches(const Answer &a, const Items &want, std::string *why) {
  std::map<std::string, Item> m = last(want);
  for (auto &x : m) {
    auto i = a.got.find(x.first);
    if (i == a.got.end()) { *why = fmt("'%s' is missing", x.first.c_str()); return false; }
    if (i->second != x.second.val && !(x.second.list && i->second == "L 0")) { *why = fmt("'%s' is %.200s instead of %.200s", x.first.c_str(), i->second.c_str(), x.second.val.c_str()); return false; }
  }
  for (auto &x : a.got) if (!m.count(x.first)) { if (x.first.empty()) continue; *why = fmt("'%s' was never stored", x.first.c_str()); return false; }
  return true;
}
// `states`: what the file held while it was read.
void judge(const Answer &a, const std::vector<std::string> &states, bool may_raise, const char *what) {
  bool bad = false, odd = false; std::string why;
  for (auto &b : states) {
    Items v; Ref r(b);
    if (!r.file(v)) { bad = true; continue; }
    for (auto &i : v) odd |= !utf8(i.name);
    if (!a.raised && matches(a, v, &why)) { count("values agree"); return; }
  }
  if (a.raised) {
    if (bad || may_raise || odd || a.errors) { if (bad) probe("incomplete or damaged file reported"); if (a.errors) probe("I/O error reported"); return; }
    violate("load-refused", "%s: loading a complete data file raised %s", what, a.what.c_str());
  }
  if (a.errors) violate("error-ignored", "%s: a read failed and the load returned something else than the data: %s", what, why.c_str());
  if (why.empty()) violate("garbage", "%s: a truncated or damaged data file was loaded as if it were complete (%zu names)", what, a.got.size());
  violate("wrong-data", "%s: %s", what, why.c_str());
}
std::string plan(bool errors, bool grow, bool swap, bool nest, const char *other) {
  u32 n = small(8) + (grow || swap || nest ? 1 : 0); std::string s; static const u32 sizes[] = {1, 2, 7, 8, 63, 64, 65, 100, 4096};
  std::vector<std::string> acts;
  for (u32 k = 0; k < n; k++) { u32 c = choose(4); acts.push_back(c == 0 ? "s" : c == 3 ? fmt("s%u", 1 + choose(200)) : fmt("s%u", sizes[choose(9)])); if (acts.back() == "s") acts.back() = ""; }
  auto place = [&](const std::string &x) { acts.insert(acts.begin() + choose((u32)acts.size() + 1), x); };
  if (grow) place("g");
  if (swap) place("r");
  if (nest) place(std::string("n") + other);
  if (errors) { static const int e[] = {5, 5, 116, 12}; place(fmt("e%d", e[choose(4)])); count("fault:read error (Python)"); }
  for (size_t k = 0; k < acts.size(); k++) { if (acts[k].size()) count(acts[k][0] == 's' ? "short reads (Python)" : acts[k][0] == 'g' ? "file grew while it was read" : acts[k][0] == 'r' ? "file was replaced while it was read" : acts[k][0] == 'n' ? "nested loads" : "read errors (Python)"); s += (k ? "," : "") + (acts[k].empty() ? std::string("-") : acts[k]); }
  return s;
}
std::vector<Rec> gen_recs(u32 maxn, u32 maxelem, bool odd_names) {
  std::vector<Rec> v; u32 n = small(maxn + 1);
  static const std::vector<std::string> more = {" x", "x ", "X", "\tx", "\xe6\x97\xa5", "x\n", "data", "a/b", "x.1"};
  for (u32 k = 0; k < n; k++) { Rec r; do r.name = flip(1, 5) ? more[choose(9)] : gen_name(); while (!odd_names && !utf8(r.name)); r.val = gen_val(maxelem); v.push_back(r); }
  return v;
}
}

// Files of real sessions, complete or cut by a crash or a full disk.
SCENARIO(C19, files, 4) {
  heap_weather();
  std::string desc; std::vector<std::string> bytes; std::vector<Items> stored; std::vector<bool> sure;
  u32 nf = 1 + choose(2); bool odd = choose(4) == 3;
  for (u32 f = 0; f < nf; f++) {
    std::string path = fmt("f%u", f); Items all; bool clean = true; u32 ns = 1 + small(3);
    for (u32 s = 0; s < ns; s++) {
      static const int modes[] = {DF::SDF_SHARED, DF::SDF_OVERWRITE, DF::SDF_PARANOID};
      int mode = modes[choose(3)]; std::vector<Rec> recs = gen_recs(6, choose(30) == 29 ? 4000 : 24, odd);
      cfg.kills_left = s + 1 == ns && flip(1, 4); cfg.kill_num = 1; cfg.kill_den = 4 + choose(30); cfg.torn_kill = flip(1, 2);
      cfg.disk_free = s + 1 == ns && flip(1, 8) ? 1 + choose(600) : -1;
      Proc *p = spawn("writer", [&] { lib([&] { sdf::OutDataFile out(path, mode); for (auto &r : recs) dump(out, r); out.close(); }); });
      if (!run()) harness_error("a single writer does not end");
      cfg.disk_free = -1;
      if (mode != DF::SDF_SHARED && p->end == End::Returned) all.clear();
      if (p->end == End::Returned) for (auto &r : recs) all.push_back(item_of(r)); else clean = false;
      desc += fmt("%zu%s ", recs.size(), p->end == End::Returned ? "" : p->end == End::Killed ? " (killed)" : " (disk full)");
    }
    std::string b; bool there = fs::get(path, &b);
    bytes.push_back(there ? b : "-"); stored.push_back(all); sure.push_back(clean && there);
  }
  std::string req; std::vector<std::string> states; bool err = false, grow = false, swap = false;
  u32 how = choose(8); bool twice = flip(1, 5), nest = nf > 1 && flip(1, 3);
  for (u32 f = 0; f < nf; f++) if (bytes[f] != "-") req += fmt("F f%u ", f) + hex(bytes[f]) + "\n";
  states.push_back(bytes[0]);
  if (how == 1) err = true;
  if (how == 2 && bytes[0] != "-") {       // another session appends meanwhile, whole or torn
    grow = true; std::vector<Rec> more = gen_recs(3, 10, false); std::string g = bytes[0].empty() ? header() : ""; g += encode(more); if (flip(1, 3) && g.size()) { g.resize(choose((u32)g.size())); }
    req += "G f0 " + hex(g) + "\n"; states.push_back(bytes[0] + g); sure[0] = false;
  }
  if (how == 3 && bytes[0] != "-") { swap = true; std::vector<Rec> rs = gen_recs(4, 10, false); Form nf_; if (flip(1, 2)) { nf_.w = flip(1, 2) ? 4 : 8; nf_.big = flip(1, 3); if (choose(4) == 3) { nf_.header = false; nf_.w = 4; nf_.big = false; if (rs.size() && rs[0].name.compare(0, 3, "sdf") == 0) rs[0].name = "x"; } } std::string n = image(rs, nf_); req += "R f0 " + hex(n) + "\n"; states.push_back(n); sure[0] = false; }
  bool nofile = how == 4; static const int oe[] = {13, 24, 5, 2};
  if (nofile) { req += fmt("O f0 %d\n", oe[choose(4)]); count("fault:open fails (Python)"); }
  if (choose(3)) req += "P f0 " + plan(err, grow, swap, nest, "f1") + "\n"; else err = grow = swap = nest = false;
  req += fmt("A %s f0\n", twice ? "twice" : "load");
  std::vector<Answer> as = ask(req);
  for (auto &a : as) {
    u32 f = a.nested.size() ? 1 : 0; std::string what = fmt("a file of %zu bytes%s", f ? bytes[1].size() : bytes[0].size(), f ? ", loaded while another one is read" : "");
    if (bytes[f] == "-" || (!f && nofile && a.errors)) { if (!a.raised) violate("garbage", "loading a file that %s returned something", bytes[f] == "-" ? "does not exist" : "cannot be opened"); continue; }
    judge(a, f ? std::vector<std::string>{bytes[1]} : states, false, what.c_str());
    std::string why;
    if (sure[f] && !a.raised && !matches(a, stored[f], &why)) violate("wrong-data", "%s: %s", what.c_str(), why.c_str());
  }
  nontrivial(stored[0].size() > 0);
  sample(desc + req.substr(req.rfind("\nP") == std::string::npos ? req.size() : req.rfind("\nP") + 1));
}
// Files from other machines and older versions, and damaged ones, one after the other in one program.
SCENARIO(C19, foreign, 3) {
  struct One { Form f; std::vector<Rec> recs; std::string bytes; bool damaged = false, odd = false; };
  u32 loads = 1 + choose(3), paths = 1 + choose(2); std::vector<One> asked; std::string req, desc; bool any = false;
  std::vector<One> now(paths); std::vector<bool> there(paths, false);
  for (u32 l = 0; l < loads; l++) {
    u32 which = choose(paths); One &o = now[which];
    if (!there[which] || flip(2, 3)) {
      o = One(); Form &f = o.f; f.w = flip(1, 3) ? 4 : 8; f.big = flip(1, 3);
      if (choose(5) == 4) { f.header = false; f.w = 4; f.big = false; }
      std::vector<Rec> &recs = o.recs; recs = gen_recs(5, 20, choose(6) == 5);
      if (!f.header && recs.size() && recs[0].name.compare(0, 3, "sdf") == 0) recs[0].name = "x";
      std::string &b = o.bytes; b = image(recs, f); u32 how = choose(6); o.damaged = how >= 2;
      if (how == 2 && b.size()) b.resize(choose((u32)b.size()));
      if (how == 3 && b.size()) { u32 n = 1 + choose(2); while (n--) b[choose((u32)std::min<size_t>(b.size(), flip(1, 3) ? 64 : 400))] = (char)(flip(1, 2) ? choose(4) : choose(256)); }
      if (how == 4 && b.size() >= 72) {        // integers of the records
        u32 n = 1 + choose(2); static const long v[] = {0, 1, 2, 3, 4, 5, -1, -2, 64, 65, 255, 1l << 31, (1l << 31) - 1, 1l << 40, 1l << 61, (long)(1ull << 63)};
        size_t base = f.header ? 64 : 0;
        while (n--) { size_t at = base + 64 + (size_t)f.w * choose(8); if (flip(1, 3)) at = base + f.w * choose((u32)(b.size() / f.w)); if (at + f.w > b.size()) continue; std::string x; put(x, f, v[choose(16)], f.w); b.replace(at, f.w, x); }
      }
      if (how == 5) { u32 n = 1 + choose(80); std::string junk; u32 seed = choose(1000); for (u32 k = 0; k < n; k++) junk += (char)(seed ? mix(seed, k) : 0); if (flip(1, 2)) b += junk; else b.insert(choose((u32)b.size() + 1), junk); }
      for (auto &r : recs) o.odd |= !utf8(r.name);
      req += fmt("F p%u ", which) + hex(b) + "\n"; there[which] = true;
      if (o.damaged) count("fault:damaged or truncated file (Python)");
      desc += fmt("%zu records, %d-byte %s, damage %u; ", recs.size(), f.w, f.big ? "big" : "little", how);
    }
    if (choose(3)) req += fmt("P p%u ", which) + plan(choose(8) == 7, false, false, false, "") + "\n"; else req += fmt("P p%u -\n", which);
    bool twice = flip(1, 6);
    req += fmt("A %s p%u\n", twice ? "twice" : "load", which);
    asked.push_back(o); if (twice) asked.push_back(o);
    any |= o.recs.size() > 0;
  }
  std::vector<Answer> as = ask(req);
  if (as.size() != asked.size()) harness_error("%zu answers", as.size());
  for (size_t k = 0; k < as.size(); k++) {
    Answer &a = as[k]; One &o = asked[k];
    std::string what = fmt("load %zu, %s file with %d-byte integers in %s order%s", k + 1, o.damaged ? "a damaged" : "a", o.f.w, o.f.big ? "big-endian" : "little-endian", o.f.header ? "" : " without header");
    judge(a, {o.bytes}, o.damaged, what.c_str());
    if (!o.damaged && !a.raised) { Items v; std::string why; for (auto &r : o.recs) v.push_back(item_of(r)); if (!matches(a, v, &why)) violate("wrong-data", "%s: %s", what.c_str(), why.c_str()); }
  }
  nontrivial(any); sample(desc);
}
// Data sets as crashed and relaunched workers leave them.
SCENARIO(C19, dataset, 2) {
  heap_weather();
  long n = 1 + small(7); std::vector<std::string> argv = {"program", "--variable", fmt("k,0,%ld,%ld", n > 1 ? n - 1 : 1, n)};
  std::vector<const char *> av; for (auto &s : argv) av.push_back(s.c_str()); av.push_back(nullptr);
  // the same names with the same dimensions in every record
  struct Field { std::string name; std::vector<long> dims; bool z; u64 seed; };
  std::vector<Field> fields; u32 nfield = 1 + choose(3);
  for (u32 k = 0; k < nfield; k++) { Field q; q.name = fmt("q%u", k); u32 r = 1 + choose(3); for (u32 j = 0; j < r; j++) q.dims.push_back(choose(12) == 11 ? 0 : 1 + choose(3)); q.z = flip(1, 3); q.seed = choose(1u << 20); fields.push_back(q); }
  const u32 vec = choose(4) == 3 ? choose(4) : 9; const u32 vec_len = choose(3);   // where a vector of tensors stands, the value of which is not read
  static const double scales[] = {1.5, 0.3, 1e-3, 1e250, 5e-324}; double scale = scales[choose(5)], shift = 1 + choose(3); std::vector<double> key(n); for (long k = 0; k < n; k++) key[k] = scale * ((double)k - shift); for (long k = n; k > 1; k--) std::swap(key[k - 1], key[choose((u32)k)]);
  auto recs_of = [&](long id) {
    std::vector<Rec> v; { Rec r; r.name = "key"; r.val.t.dims = {1}; r.val.t.x = {key[id]}; v.push_back(r); }
    for (auto &q : fields) { Rec r; r.name = q.name; r.val.kind = q.z ? CT : RT; r.val.t.z = q.z; r.val.t.dims = q.dims; size_t m = q.z ? 2 : 1; for (long d : q.dims) m *= d; for (size_t k = 0; k < m; k++) r.val.t.x.push_back(gen_num(q.seed + 1, id * 100 + k)); v.push_back(r); }
    if (vec < 9) { Rec r; r.name = "vec"; r.val.kind = RTV; for (u32 k = 0; k < vec_len; k++) { Ten x; x.dims = {2}; x.x = {id + 0.5, k - 1.0}; r.val.v.push_back(x); } v.insert(v.begin() + std::min<size_t>(vec, v.size()), r); }
    return v;
  };
  struct Snap { std::map<std::string, std::string> files; }; std::vector<Snap> snaps;
  auto snap = [&] { Snap s; for (auto &e : fs::list("/w/out")) fs::get("/w/out/" + e, &s.files[e]); snaps.push_back(s); };
  i64 at = choose(60); std::string desc;
  for (int round = 0; round < 2; round++) {
    cfg.kills_left = round == 0 && flip(2, 3); cfg.kill_num = 1; cfg.kill_den = 10 << choose(5); cfg.torn_kill = flip(1, 2);
    if (!round) cfg.on_fs_change = [&] { if (at-- == 0) { HostScope h; snap(); } };
    Proc *p = spawn("worker", [&] { lib([&] {
      jobs::Job job((int)argv.size(), av.data());
      for (; job.to_do(); ++job) { jobs::Job::dataset d = job.open_dataset("out"); if (!d.operator->()) continue; job.dump_variables(*d); std::vector<Rec> rs; { HostScope h; rs = recs_of(job.current_job()); } for (auto &r : rs) dump(*d, r); d->close(); { HostScope h; rs.clear(); rs.shrink_to_fit(); } }
    }); });
    if (!run()) harness_error("a single worker does not end");
    cfg.on_fs_change = nullptr;
    if (p->end != End::Returned && p->end != End::Killed) violate("refused", "the worker ended with %s", end_name(p->end));
    desc += p->end == End::Killed ? "killed " : "done ";
    snap();
  }
  for (auto &s : snaps) {
    std::vector<std::string> order, pub; for (auto &x : s.files) { order.push_back(x.first); if (x.first.find_first_not_of("0123456789") == std::string::npos) pub.push_back(x.first); else probe("data set with the file of a crashed worker"); }
    for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[choose((u32)k)]);
    std::string req; req = "M out\n"; std::string o; u32 kind = choose(3); int victim = -1;
    for (auto &e : order) { o += (o.size() ? "," : "") + e; req += "F out/" + e + " " + hex(s.files[e]) + "\n"; if (flip(1, 4)) req += "P out/" + e + " " + plan(false, false, false, false, "") + "\n"; }
    if (o.size()) req += "D out " + o + "\n";
    if (pub.size() && choose(6) == 5) { victim = choose((u32)pub.size()); req += fmt("O out/%s 5\n", pub[victim].c_str()); count("fault:open fails (Python)"); }
    req += kind ? "A sorted out " + hex(std::string("key")) + "\n" : std::string("A dataset out\n");
    Answer a = ask(req)[0];
    if (a.raised) { if (pub.empty() || a.errors) continue; violate("load-refused", "loading a data set with %zu finished records and %zu other files raised %s", pub.size(), order.size() - pub.size(), a.what.c_str()); }
    if (a.errors) violate("error-ignored", "a record could not be opened and the data set was loaded without it");
    if (pub.empty()) { if (a.got.size()) violate("garbage", "a data set without records has names"); continue; }
    std::string kv = a.got["key"]; std::string pre = fmt("R 1,%zu ", pub.size());
    if (kv.compare(0, pre.size(), pre)) violate("wrong-data", "%zu records give the key %s", pub.size(), kv.substr(0, 200).c_str());
    std::string kb = unhex(kv.substr(pre.size())); std::vector<double> ks(kb.size() / 8); if (ks.size()) memcpy(ks.data(), kb.data(), ks.size() * 8);
    std::vector<long> ids; for (double x : ks) { long id = std::find(key.begin(), key.end(), x) - key.begin(); if (id == n || std::find(ids.begin(), ids.end(), id) != ids.end() || !s.files.count(fmt("%ld", id))) violate("wrong-data", "the data set has a record with key %g", x); ids.push_back(id); }
    if (ids.size() != pub.size()) violate("wrong-data", "%zu of %zu records were loaded", ids.size(), pub.size());
    if (kind) for (size_t k = 1; k < ks.size(); k++) if (!(ks[k - 1] < ks[k])) violate("wrong-order", "the sorted data set is not sorted");
    std::map<std::string, Ten> want;
    for (long id : ids) for (auto &r : recs_of(id)) { if (r.name == "vec") continue; Ten &t = want[r.name]; if (t.dims.empty()) { t.dims = r.val.t.dims; t.dims.push_back((long)ids.size()); t.z = r.val.t.z; } t.x.insert(t.x.end(), r.val.t.x.begin(), r.val.t.x.end()); }
    { Ten &t = want["k"]; t.dims = {1, (long)ids.size()}; for (long id : ids) t.x.push_back((double)id); }
    for (auto &w : want) if (a.got[w.first] != text_of(w.second)) violate("wrong-data", "'%s' of the data set is %.150s instead of %.150s", w.first.c_str(), a.got[w.first].c_str(), text_of(w.second).c_str());
    if (vec < 9 && a.got["vec"].compare(0, fmt("L %zu", ids.size()).size(), fmt("L %zu", ids.size()))) violate("wrong-data", "'vec' of the data set is %.150s", a.got["vec"].c_str());
    if (a.got.size() != want.size() + (vec < 9)) violate("wrong-data", "the data set has %zu names instead of %zu", a.got.size(), want.size());
  }
  nontrivial(n > 1); sample(fmt("%ld jobs, %s", n, desc.c_str()));
}
