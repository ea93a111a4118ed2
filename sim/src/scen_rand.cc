// C17: random numbers. C18: timers.
#include "ops.h"
#include <random>
#include <set>
#include <tensor/tools.h>
using namespace ops;
namespace {
// The published generator.
struct Model {
  std::mt19937_64 g; bool known = false;
  void seed(u64 s) { g.seed(s); known = true; }
  u64 raw() { return g(); }
  static double res53(u64 r) { return (double)(r >> 11) * (1.0 / 9007199254740992.0); }
};
// Seeds whose stream holds a double so close to 1 that rounding matters: {seed, position}.
const u32 near_one[][2] = {{82219, 273}, {356289, 186}, {562220, 298}, {568165, 119}, {721621, 128}, {1021284, 112}};
struct Drawer {
  Model m; std::string name; u64 drawn = 0; std::vector<double> log;
  void bad(const char *what, double got, double want) { violate("wrong-number", "%s: draw %llu by %s is %.17g instead of %.17g", name.c_str(), (unsigned long long)drawn, what, got, want); }
  void range_(const char *what, double got, double lo, double hi, bool closed = false) { if (!(got >= lo && (closed ? got <= hi : got < hi))) violate("out-of-range", "%s: draw %llu by %s is %.17g, outside [%.17g, %.17g%c", name.c_str(), (unsigned long long)drawn, what, got, lo, hi, closed ? ']' : ')'); }
  // One draw of kind k. Ranges always; values when the state is known.
  void draw(u32 k, u64 arg) {
    drawn++; long n = (long)(arg % 1000) + 1; if (arg & 4096) n = (long)(arg >> 20) + 1; int ni = (int)(n & 0x3fffffff) + 1;
    switch (k) {
    case 0: { unsigned long x = lib([&] { return tensor::rand<unsigned long>(); }); log.push_back((double)x); if (m.known) { u64 w = m.raw(); if (x != w) bad("rand<unsigned long>", (double)x, (double)w); } break; }
    case 1: { long x = lib([&] { return tensor::rand<long>(); }); log.push_back((double)x); range_("rand<long>", (double)x, 0, 9.3e18); if (m.known) { long w = (long)(m.raw() >> 1); if (x != w) bad("rand<long>", (double)x, (double)w); } break; }
    case 2: { unsigned x = lib([&] { return tensor::rand<unsigned>(); }); log.push_back(x); if (m.known) { unsigned w = (unsigned)m.raw(); if (x != w) bad("rand<unsigned>", x, w); } break; }
    case 3: { int x = lib([&] { return tensor::rand<int>(); }); log.push_back(x); if (m.known) { int w = (int)(m.raw() >> 1); if (x != w) bad("rand<int>", x, w); } break; }
    case 4: { double x = lib([&] { return tensor::rand<double>(); }); log.push_back(x); range_("rand<double>", x, 0, 1); if (m.known) { double w = Model::res53(m.raw()); if (x != w) bad("rand<double>", x, w); } break; }
    case 5: { float x = lib([&] { return tensor::rand<float>(); }); log.push_back(x); range_("rand<float>", x, 0, 1); if (m.known) { double w = Model::res53(m.raw()); if (std::fabs(x - w) > 1.2e-7) bad("rand<float>", x, w); } break; }
    case 6: { cdouble x = lib([&] { return tensor::rand<cdouble>(); }); log.push_back(x.real()); log.push_back(x.imag()); range_("rand<cdouble> (real part)", x.real(), 0, 1); range_("rand<cdouble> (imaginary part)", x.imag(), 0, 1);
      if (m.known) { double a = Model::res53(m.raw()), b = Model::res53(m.raw()); if (!((x.real() == a && x.imag() == b) || (x.real() == b && x.imag() == a))) bad("rand<cdouble>", x.real(), a); } break; }
    case 7: { int x = lib([&] { return tensor::rand<int>(ni); }); log.push_back(x); range_("rand<int>(n)", x, 0, ni); if (m.known) m.raw(); break; }
    case 8: { long x = lib([&] { return tensor::rand<long>(n); }); log.push_back((double)x); range_("rand<long>(n)", (double)x, 0, (double)n); if (m.known) m.raw(); break; }
    case 9: { unsigned long x = lib([&] { return tensor::rand<unsigned long>((unsigned long)n); }); log.push_back((double)x); range_("rand<unsigned long>(n)", (double)x, 0, (double)n); if (m.known) m.raw(); break; }
    case 10: { double x = lib([&] { return tensor::rand<double>((double)n); }); log.push_back(x); range_("rand<double>(n)", x, 0, (double)n); if (m.known) { double w = (double)n * Model::res53(m.raw()); if (std::fabs(x - w) > 1e-9 * (double)n) bad("rand<double>(n)", x, w); } break; }
    case 11: { int lo = (int)(arg % 2001) - 1000, hi = lo + 1 + ni % 100000; int x = lib([&] { return tensor::rand<int>(lo, hi); }); log.push_back(x); range_("rand<int>(a,b)", x, lo, hi); if (m.known) m.raw(); break; }
    case 12: { long lo = (long)(arg % 2001) - 1000, hi = lo + n; long x = lib([&] { return tensor::rand<long>(lo, hi); }); log.push_back((double)x); range_("rand<long>(a,b)", (double)x, (double)lo, (double)hi); if (m.known) m.raw(); break; }
    case 13: { double lo = (double)(arg % 2001) - 1000, hi = lo + (double)n; double x = lib([&] { return tensor::rand<double>(lo, hi); }); log.push_back(x); range_("rand<double>(a,b)", x, lo, hi, true); if (m.known) m.raw(); break; }
    case 14: { ix q = (ix)(arg % 7); Out o; lib([&] { RTensor t = RTensor::random(q, 2); o.t(t); }); for (size_t j = 3; j < o.v.size(); j++) { log.push_back(o.v[j]); range_("RTensor::random", o.v[j], 0, 1); if (m.known) { double w = Model::res53(m.raw()); if (o.v[j] != w) bad("RTensor::random", o.v[j], w); } } break; }
    case 15: { ix q = (ix)(arg % 7); Out o; lib([&] { CTensor t = CTensor::random(q); o.t(t); }); for (size_t j = 2; j < o.v.size(); j++) { log.push_back(o.v[j]); range_("CTensor::random", o.v[j], 0, 1); if (m.known) m.raw(); } break; }
    default: { int a = lib([&] { return tensor::rand<int>(0); }); long b = lib([&] { return tensor::rand<long>(0L); }); if (a || b) violate("out-of-range", "rand(0) is not 0"); break; }
    }
  }
};
void dirty_stack(u8 with) { volatile char junk[16384]; for (size_t k = 0; k < sizeof junk; k++) junk[k] = (char)with; (void)junk[0]; }

void seeded() {
  u32 procs = 1 + choose(3); u64 same = choose(5); cfg.switch_num = 1; cfg.switch_den = 1 + choose(3); cfg.fill = (u8)choose(256);
  std::vector<Drawer> d(procs); std::vector<Proc *> ps; u64 reseeds = 0, draws = 0;
  fs::urandom.mode = (int)choose(5); fs::urandom.seed = choose(1u << 30); fs::urandom.short_at = choose(9); wall.base_s = 1 + choose(1u << 31);
  for (u32 q = 0; q < procs; q++) {
    std::string env; if (flip(1, 2)) { i64 v = flip(1, 4) ? -(i64)choose(1000) : flip(1, 2) ? choose(100) : choose(0x7fffffff); env = fmt("%lld", (long long)v); }
    u32 steps = 3 + choose(40); u8 junk = (u8)choose(256); u32 early = flip(1, 4) ? 1 + choose(3) : 0;
    Proc *p = spawn(fmt("p%u", q), [&, q, env, steps, junk, early] {
      Drawer &x = d[q]; x.name = me()->name;
      if (!env.empty()) x.m.seed((u64)(i64)atoi(env.c_str()));
      fresh_image(me(), true); dirty_stack(junk);
      for (u32 k = 0; k < early; k++) {   // static objects of the user's that come before the library's
        u32 what = choose(20);
        if (what >= 17) { u64 s = 1 + choose(1u << 31); lib([&] { set_seed(s); }); x.m.seed(s); reseeds++; event(57, s); probe("set_seed before the library's static objects"); }
        else { x.draw(what, ((u64)choose(1u << 30) << 20) + choose(1u << 20)); draws++; event(58); probe("draw before the library's static objects"); }
      }
      run_static_constructors();
      if (me()->env.count("RANDSEED")) event(51);
      for (u32 k = 0; k < steps; k++) {
        if (flip(1, 3)) yield();
        u32 what = choose(24);
        if (what == 20) { u64 s = same ? same * 7919 : ((u64)choose(1u << 31) << 33) + choose(1u << 31); if (flip(1, 4)) s = s << 32 | s; if (flip(1, 10)) s = ~s; lib([&] { set_seed(s); }); x.m.seed(s); reseeds++; event(52, s); }
        else if (what == 21) { lib([&] { rand_reseed(); }); if (me()->env.count("RANDSEED")) x.m.seed((u64)(i64)atoi(me()->env["RANDSEED"].c_str())); else x.m.known = false; reseeds++; event(53); }
        else if (what == 22) { int v = (int)choose(100000) - 1000; me()->env["RANDSEED"] = std::to_string(v); }
        else if (what == 23 && flip(1, 3)) { u32 r = choose(6); lib([&] { set_seed(near_one[r][0]); }); x.m.seed(near_one[r][0]); for (u32 j = 0; j < near_one[r][1]; j++) { lib([&] { tensor::rand<long>(); }); x.m.raw(); } u32 kinds[] = {4, 5, 6, 10, 13, 14}; x.draw(kinds[choose(6)], choose(1u << 30)); probe("a draw next to 1"); }
        else { u32 n = 1 + small(60); for (u32 j = 0; j < n; j++) { x.draw(what < 17 ? what : choose(17), ((u64)choose(1u << 30) << 20) + choose(1u << 20)); draws++; } }
        event(54, (u64)x.log.size());
      }
    });
    if (!env.empty()) p->env["RANDSEED"] = env; else p->env.erase("RANDSEED");
    ps.push_back(p);
  }
  run();
  for (Proc *p : ps) if (p->end != End::Returned) violate("stopped", "%s ended: %s %s", p->name.c_str(), end_name(p->end), p->what.c_str());
  u64 h = 0; for (Drawer &x : d) for (double v : x.log) { u64 b; memcpy(&b, &v, 8); h = mix(h, b); }
  event(55, h); if (draws) nontrivial(); count("draws", draws); count("seedings", reseeds);
  sample(fmt("%u processes, %llu draws, %llu seedings", procs, (unsigned long long)draws, (unsigned long long)reseeds));
}
// Programs that start without a seed.
void entropy() {
  u32 n = 2 + choose(4); struct Start { u64 seed; int mode; u64 short_at, time; u8 junk; bool reseed, early; std::vector<unsigned long> got; u64 began = 0; }; std::vector<Start> s(n); bool eintr = flip(1, 4);
  for (u32 k = 0; k < n; k++) { s[k].seed = flip(1, 4) && k ? s[0].seed : choose(1u << 31); s[k].mode = flip(1, 2) ? 0 : (int)choose(5); s[k].short_at = choose(9); s[k].time = flip(1, 3) && k ? s[k - 1].time : 1000000 + choose(0x7f000000); s[k].junk = (u8)choose(256); s[k].reseed = flip(1, 3); s[k].early = flip(1, 5); }
  if (eintr) cfg.eintr = {1, 3};
  for (u32 k = 0; k < n; k++) {
    Start &x = s[k]; fs::urandom.mode = x.mode; fs::urandom.seed = x.seed; fs::urandom.short_at = x.short_at; wall.base_s = x.time; cfg.fill = x.junk;
    Proc *p = spawn(fmt("p%u", k), [&x] { x.began = now(); fresh_image(me(), true); dirty_stack(x.junk); if (x.early) { probe("drawing before the library's static objects"); for (int j = 0; j < 8; j++) x.got.push_back(lib([&] { return tensor::rand<unsigned long>(); })); } run_static_constructors(); if (x.early) return; if (x.reseed) { dirty_stack((u8)(x.junk + 1)); lib([&] { rand_reseed(); }); } for (int j = 0; j < 8; j++) x.got.push_back(lib([&] { return tensor::rand<unsigned long>(); })); if (fs::open_fds(me()) > 1) violate("leak", "repeated seeding (entropy mode %d) leaves %zu descriptors open", x.mode, fs::open_fds(me())); });
    p->env.erase("RANDSEED"); run();
    if (p->end != End::Returned) violate("stopped", "a program with entropy mode %d ended: %s %s", x.mode, end_name(p->end), p->what.c_str());
    std::set<unsigned long> distinct(x.got.begin(), x.got.end());
    if (distinct.size() < 8) violate("degenerate", "a program with entropy mode %d draws repeated numbers", x.mode);
    u64 h = 0; for (auto v : x.got) h = mix(h, v); event(56, h, (u64)x.mode);
    count(x.mode ? "fault:entropy unusable at start" : "starts with entropy");
  }
  auto second = [](const Start &x) { return x.time + x.began / SEC; };
  bool fallback_seen = false;
  for (u32 a = 0; a < n; a++) for (u32 b = 0; b < a; b++) {
    bool ga = s[a].mode == 0 && !eintr, gb = s[b].mode == 0 && !eintr, equal = s[a].got == s[b].got;
    if (ga && gb && s[a].seed != s[b].seed && equal) violate("same-stream", "two programs with different entropy draw the same numbers");
    if (ga && gb && s[a].seed == s[b].seed && s[a].early == s[b].early && !s[a].reseed && !s[b].reseed && !equal) violate("stray-memory", "two programs with the same entropy draw different numbers");
    // a source that yields nothing at all: the clock alone decides
    bool ca = s[a].mode == 1 || s[a].mode == 2, cb = s[b].mode == 1 || s[b].mode == 2;
    if (ca && cb) { fallback_seen = true;
      if (second(s[a]) == second(s[b]) && !equal) violate("stray-memory", "two programs without entropy that start in the same second draw different numbers");
      if (second(s[a]) != second(s[b]) && equal) violate("same-stream", "two programs without entropy that start in different seconds draw the same numbers"); }
    bool sa = s[a].mode == 3 && s[a].short_at < 8, sb = s[b].mode == 3 && s[b].short_at < 8;
    if ((ca || sa) && (cb || sb) && second(s[a]) == second(s[b]) && s[a].seed == s[b].seed && s[a].mode == s[b].mode && s[a].short_at == s[b].short_at && s[a].early == s[b].early && !equal) violate("stray-memory", "two programs that start alike with a short entropy source draw different numbers");
  }
  if (fallback_seen) probe("two starts from the clock");
  nontrivial(); sample(fmt("%u starts, first with entropy mode %d", n, s[0].mode));
}

// ---- C18
void timers() {
  u32 procs = 1 + choose(3); cfg.switch_num = 1; cfg.switch_den = 1 + choose(3);
  static const u64 epochs[] = {0, 1, 86400, 1000000000, 1700000000, 2147483640, 2147483647, 2147483648ull, 4294967290ull, 4294967296ull, 8589934592ull};
  wall.base_s = flip(1, 3) ? choose(0x7fffffff) : epochs[choose(11)] + choose(20); wall.offset_ns = flip(1, 2) ? 0 : flip(1, 2) ? (i64)choose(1000000000) : 999999000 + (i64)choose(1000);
  u64 checks = 0; std::vector<Proc *> ps;
  for (u32 q = 0; q < procs; q++) {
    u32 steps = 2 + choose(25); i64 skew = flip(1, 2) ? 0 : (i64)choose(2000000000);
    Proc *p = spawn(fmt("p%u", q), [&, steps] {
      struct Mark { double t; u64 lo, hi; }; std::vector<Mark> marks; bool started = false; u64 lo = 0, hi = 0;
      auto check = [&](const char *what, double got, u64 from_lo, u64 from_hi, u64 before, u64 after) {
        double least = (double)(before - from_hi) * 1e-9, most = (double)(after - from_lo) * 1e-9, tol = 2.5e-6 + 3 * 9.6e-7;   // microseconds, and doubles near 2^33
        checks++; event(61, (u64)(i64)(got * 1e6));
        if (!(got >= least - tol && got <= most + tol)) violate("wrong-time", "%s returned %.9f s, but %.9f s passed (wall clock started at %llu s)", what, got, least, (unsigned long long)wall.base_s);
      };
      for (u32 k = 0; k < steps; k++) {
        u32 what = choose(7);
        switch (what) {
        case 0: { u64 b = now(); double t = lib([&] { return tic(); }); lo = b; hi = now(); started = true; marks.push_back({t, lo, hi}); event(62); break; }
        case 1: case 2: if (started) { u64 b = now(); double x = lib([&] { return toc(); }); check("toc()", x, lo, hi, b, now()); } break;
        case 3: case 4: if (!marks.empty()) { Mark &m = marks[choose((u32)marks.size())]; u64 b = now(); double x = lib([&] { return toc(m.t); }); check("toc(t)", x, m.lo, m.hi, b, now()); } break;
        default: { static const u64 spans[] = {1000, 1000000, 999999000, 1000000000, 60000000000ull, 86400000000000ull, 31557600000000000ull}; sleep_ns(1 + (u64)(((double)choose(1u << 30) / (1u << 30)) * (double)spans[choose(7)])); break; }
        }
        if (flip(1, 3)) yield();
      }
    });
    p->skew = skew; ps.push_back(p);
  }
  run();
  for (Proc *p : ps) if (p->end != End::Returned) violate("stopped", "%s ended: %s %s", p->name.c_str(), end_name(p->end), p->what.c_str());
  if (checks) nontrivial(); count("measurements", checks); count("fault:clock skew between processes", procs - 1);
  sample(fmt("%u processes, %llu measurements, wall clock from %llu s", procs, (unsigned long long)checks, (unsigned long long)wall.base_s));
}
}
SCENARIO(C17, seeded, 3) { seeded(); }
SCENARIO(C17, entropy, 1) { entropy(); }
SCENARIO(C18, timers, 1) { timers(); }
