// C08: job partition. C09: dataset fleets with crashes. C10: job files.
#include "sdfmodel.h"
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <tensor/jobs.h>
using namespace sdfm;

namespace {
typedef sdf::DataFile DF;
struct Var { std::string name, text[3]; int ntext = 0; double min = 0, max = 0; long n = 1;   // as the documentation defines them
  double value(long k) const { return n == 1 ? min : min + (max - min) * (double)k / (double)(n - 1); }
  bool near(double x, long k) const { double v = value(k), s = std::max(std::fabs(min), std::fabs(max)); return std::fabs(x - v) <= 1e-12 * s || x == v; } };
const char *NUMS[] = {"0", "1", "-1", "0.5", "2.25", "1e-3", "-3.5e2", "10", "19", "0.1", "7", "1e6", "+4", ".5", "-0", "100", "3.", "1E2"};
const char *NAMES[] = {"x", "g", "omega", "L", "x2", "beta_1", "J/U", "name-with-dash", "X", "t", "aa", "gg", "#x", "%", "\"q\"", "a=b", "-z", "4", "//w", "a_rather_long_name_of_more_than_forty_characters"};
const u32 NNAMES = sizeof NAMES / sizeof *NAMES;
std::string number() { u32 c = choose(20); if (c < 18) return NUMS[c]; double x = ((double)choose(1u << 30) + choose(1u << 20) / 1048576.0) / (c == 18 ? 1e9 : 3e4); return fmt("%s%.*g", flip(1, 3) ? "-" : "", 3 + (int)choose(15), x); }
std::vector<Var> gen_vars(u32 maxvars, long maxjobs, bool unique = true) {
  std::vector<Var> v; u32 nv = maxvars > 3 && choose(80) == 79 ? 10 + choose(60) : choose(maxvars + 1); long total = 1;
  for (u32 k = 0; k < nv; k++) {
    Var x; x.name = NAMES[flip(3, 4) ? choose(12) : choose(NNAMES)];
    bool dup = false; for (auto &y : v) dup |= y.name == x.name;
    if (dup && unique) x.name += fmt("%u", k + 10);
    u32 form = choose(5);
    x.text[0] = number(); x.min = x.max = strtod(x.text[0].c_str(), nullptr); x.ntext = 1;
    if (form >= 1) { x.text[1] = number(); x.max = strtod(x.text[1].c_str(), nullptr); x.ntext = 2; x.n = 10; }
    if (form >= 2) { x.n = 1 + small(7); x.text[2] = fmt("%ld", x.n); x.ntext = 3; }
    if (total * x.n > maxjobs) { x.n = 1; if (x.ntext >= 2) { x.ntext = 3; x.text[2] = "1"; } }
    total *= x.n;
    v.push_back(x);
  }
  return v;
}
std::string separator(bool comma_only) {
  static const char *s[] = {",", " ", "\t", ";", ", ", " ; ", "  ", ",,"};
  return s[comma_only ? 0 : choose(8)];
}
std::string var_line(const Var &v, bool plain) {
  std::string s = plain || !flip(1, 6) ? "" : " ";
  s += v.name; for (int k = 0; k < v.ntext; k++) s += separator(plain) + v.text[k];
  if (!plain && flip(1, 6)) s += " ";
  return s;
}
long count_jobs(const std::vector<Var> &v) { long n = 1; for (auto &x : v) n *= x.n; return n; }
std::vector<long> digits(const std::vector<Var> &v, long job) { std::vector<long> d; for (auto &x : v) { d.push_back(job % x.n); job /= x.n; } return d; }
struct Argv { std::vector<std::string> s; std::vector<const char *> p; int n() { return (int)s.size(); } const char **v() { p.clear(); for (auto &x : s) p.push_back(x.c_str()); p.push_back(nullptr); return p.data(); } };
std::string text(const std::vector<std::string> &a) { std::string t; for (auto &x : a) { if (t.size()) t += ' '; t += x.find(' ') == std::string::npos ? x : "'" + x + "'"; } return t; }
std::vector<std::string> with_vars(const std::vector<Var> &vars, const std::vector<std::string> &job_opts, bool plain = false) {
  // variables keep their order; the other options may stand anywhere
  std::vector<std::vector<std::string>> groups;
  std::vector<std::string> a; u32 cut = choose((u32)vars.size() + 1);
  if (flip(1, 2)) a.push_back("./program");
  for (u32 k = 0; k <= vars.size(); k++) {
    if (k == cut) { a.insert(a.end(), job_opts.begin(), job_opts.end()); if (flip(1, 4)) a.push_back("--verbose"); }
    if (k < vars.size()) { a.push_back("--variable"); a.push_back(var_line(vars[k], plain)); }
  }
  return a;
}
struct Done { int worker, attempt; long job; };
// Check one job from inside the worker.
void check_values(const jobs::Job &job, const std::vector<Var> &vars, long id) {
  std::vector<long> d = digits(vars, id);
  for (size_t k = 0; k < vars.size(); k++) {
    bool again = false; for (size_t j = 0; j < k; j++) again |= vars[j].name == vars[k].name;
    if (again) continue;                            // which one of several the name means is not covered
    bool later = false; for (size_t j = k + 1; j < vars.size(); j++) later |= vars[j].name == vars[k].name;
    if (later) continue;
    double x = lib([&] { return job.get_value(vars[k].name); }), y = lib([&] { return job.get_value_with_default(vars[k].name, -12345.0); });
    if (!vars[k].near(x, d[k]) || (y != x)) { HostScope h; violate("wrong-value", "in job %ld variable %s has the value %.17g instead of %.17g", id, vars[k].name.c_str(), x, vars[k].value(d[k])); }
  }
  double z = lib([&] { return job.get_value_with_default("no such variable", 17.5); });
  if (z != 17.5) { HostScope h; violate("wrong-value", "the default of an undefined variable is %g", z); }
}
std::vector<Rec> var_recs(const std::vector<Var> &vars, long id, const std::vector<double> &exact) {
  std::vector<Rec> v; for (size_t k = 0; k < vars.size(); k++) { Rec r; r.name = vars[k].name; r.val.kind = REAL; r.val.t.dims = {1}; r.val.t.x = {exact[k]}; v.push_back(r); } (void)id; return v;
}
// The ways in which a fleet splits `n` jobs.
struct Split { std::vector<std::vector<std::string>> opts; std::vector<std::vector<long>> jobs; std::string desc; };
Split gen_split(long n) {
  Split s; u32 kind = choose(4);
  auto range_of = [](long a, long b) { std::vector<long> v; for (long k = a; k < b; k++) v.push_back(k); return v; };
  if (kind == 0) { s.desc = "one worker"; s.opts.push_back({}); s.jobs.push_back(range_of(0, n)); }
  if (kind == 1) {
    long b = flip(1, 8) ? n + choose(4) : 1 + choose((u32)std::min<long>(n + 1, 9)); s.desc = fmt("%ld blocks", b);
    // The documentation only promises a split into blocks: any one that is a partition will do; checked by the caller.
    for (long k = 0; k < b; k++) {
      std::vector<std::string> o = flip(1, 2) ? std::vector<std::string>{"--job-blocks", fmt("%ld", b), "--this-job", fmt("%ld", k)} : std::vector<std::string>{"--this-job", fmt("%ld", k), "--job-blocks", fmt("%ld", b)};
      if (k == 0 && flip(1, 5)) o = {"--job-blocks", fmt("%ld", b)};
      s.opts.push_back(o); s.jobs.push_back({-1});
    }
  }
  if (kind == 2) {
    s.desc = "intervals"; long a = 0;
    while (a < n) {
      long e = a + 1 + choose((u32)std::min<long>(n - a, 8)); if (s.opts.size() > 6) e = n; e = std::min(e, n);
      std::vector<std::string> o = {"--first-job", fmt("%ld", a), "--last-job", fmt("%ld", e - 1)};
      if (e == n) { u32 c = choose(4); if (c == 0) o = {"--first-job", fmt("%ld", a)}; if (c == 1) o[3] = fmt("%ld", n + choose(5)); }
      s.opts.push_back(o); s.jobs.push_back(range_of(a, e)); a = e;
    }
  }
  if (kind == 3) {
    if (n > 24) return gen_split(n);
    s.desc = "single jobs"; for (long k = 0; k < n + (flip(1, 3) ? 1 + choose(3) : 0); k++) { s.opts.push_back({"--this-job", fmt("%ld", k)}); s.jobs.push_back(k < n ? std::vector<long>{k} : std::vector<long>{}); }
  }
  return s;
}
// Something else happens in the process before: it must not matter.
void earlier_life(u32 kind) {
  lib([&] {
    if (kind == 1) { const char *a[] = {"x", "--variable", "q,0,1,7", "--first-job", "3", "--last-job", "5"}; jobs::Job j(7, a); ++j; }
    if (kind == 2) { const char *a[] = {"--this-job", "2", "--variable", "a,1,9,4"}; jobs::Job j(4, a); jobs::Job k(j); ++k; }
    if (kind == 3) { volatile char junk[4096]; for (size_t i = 0; i < sizeof junk; i++) junk[i] = (char)(i * 37 + 1); }
    if (kind == 4) { std::vector<char *> v; for (int i = 0; i < 8; i++) { char *p = new char[512]; memset(p, 1, 512); v.push_back(p); } for (char *p : v) delete[] p; }
  });
}
}

//----------------------------------------------------------------------- C08
SCENARIO(C08, fleet, 8) {
  heap_weather();
  std::vector<Var> vars = gen_vars(4, choose(6) == 5 ? 200 : 40, flip(7, 8));
  long n = count_jobs(vars);
  Split sp = gen_split(n); bool blocks = sp.jobs.size() && sp.jobs[0] == std::vector<long>{-1};
  cfg.switch_num = 1; cfg.switch_den = 3;
  bool dump_them = flip(1, 3), fromfile = vars.size() && flip(1, 5);
  u32 crashes = flip(1, 2) ? 1 + choose(3) : 0;
  std::string file; if (fromfile) { for (auto &v : vars) file += var_line(v, false) + "\n"; fs::put("jobs.txt", file); }
  std::vector<std::vector<std::vector<long>>> log(sp.opts.size());     // worker, attempt, jobs
  std::vector<Argv> argv(sp.opts.size()); std::vector<u32> early(sp.opts.size());
  for (size_t w = 0; w < sp.opts.size(); w++) {
    argv[w].s = fromfile ? with_vars({}, sp.opts[w]) : with_vars(vars, sp.opts[w]);
    if (fromfile) { std::vector<std::string> j = {"--job", "jobs.txt"}; argv[w].s.insert(flip(1, 2) ? argv[w].s.end() : argv[w].s.begin(), j.begin(), j.end()); }
    early[w] = choose(5);
  }
  std::vector<long> body;                                              // what a worker does
  auto worker = [&](size_t w, int attempt, long stop_after) {
    earlier_life(early[w]);
    // the object lives in memory that held something else before
    void *mem = lib([&] { return operator new(sizeof(jobs::Job)); });
    { HostScope h; }
    const char **av = argv[w].v(); int ac = argv[w].n();
    jobs::Job *job = lib([&] { return new (mem) jobs::Job(ac, av); });
    if (job->number_of_jobs() != n) violate("wrong-number", "%s: %ld jobs instead of %ld", text(argv[w].s).c_str(), (long)job->number_of_jobs(), n);
    long steps = 0;
    for (; lib([&] { return job->to_do(); }); lib([&] { ++*job; })) {
      long id = job->current_job();
      { HostScope h; log[w][attempt].push_back(id); event(0x50, id, w); }
      if (id < 0 || id >= n) violate("wrong-job", "%s: job number %ld of %ld", text(argv[w].s).c_str(), id, n);
      check_values(*job, vars, id);
      if (dump_them && !(id % 3)) {
        std::string name = fmt("w%zu.%d.%ld", w, attempt, id);
        std::vector<double> exact; for (auto &v : vars) exact.push_back(job->get_value(v.name));
        lib([&] { sdf::OutDataFile f(name, DF::SDF_OVERWRITE); job->dump_variables(f); f.close(); });
        HostScope h; std::string b; fs::get(name, &b);
        // of several variables with one name each has its own value
        std::vector<Raw> raw; std::vector<long> dg = digits(vars, id);
        if (decode_file(b, raw) && raw.size() == vars.size())
          for (size_t k = 0; k < vars.size(); k++) {
            bool dup = false; for (size_t j = 0; j < vars.size(); j++) dup |= j != k && vars[j].name == vars[k].name;
            if (dup && raw[k].t.x.size() == 1) { if (!vars[k].near(raw[k].t.x[0], dg[k])) violate("wrong-dump", "variable %zu, one of several named %s, is dumped as %.17g instead of %.17g in job %ld", k, vars[k].name.c_str(), raw[k].t.x[0], vars[k].value(dg[k]), id); exact[k] = raw[k].t.x[0]; }
          }
        if (b != header() + encode(var_recs(vars, id, exact))) violate("wrong-dump", "the variables dumped in job %ld are not those of the job", id);
      }
      if (++steps > n + 5) violate("runaway", "%s: more jobs than there are", text(argv[w].s).c_str());
      if (steps == stop_after) kill_proc(me());
      yield();
      if (flip(1, 8)) lib([&] { jobs::Job copy(*job); ++copy; jobs::Job third = copy; ++third; });   // copies are independent
    }
    lib([&] { job->~Job(); operator delete(mem); });
  };
  // Launch in any order, a few at a time; crash some and relaunch them.
  std::vector<size_t> order; for (size_t w = 0; w < sp.opts.size(); w++) order.push_back(w);
  for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[choose((u32)k)]);
  std::vector<long> stop(sp.opts.size(), -1);
  for (u32 c = 0; c < crashes; c++) stop[choose((u32)stop.size())] = 1 + choose((u32)std::min<long>(n, 12));
  for (size_t at = 0; at < order.size();) {
    u32 batch = 1 + choose(4); std::vector<std::pair<size_t, Proc *>> ps;
    for (u32 b = 0; b < batch && at < order.size(); b++, at++) {
      size_t w = order[at]; log[w].push_back({}); long st = stop[w];
      ps.push_back({w, spawn(fmt("worker%zu", w), [&worker, w, st] { worker(w, 0, st); })});
    }
    if (!run()) violate("stuck", "a worker never ended");
    for (auto &x : ps) {
      if (x.second->end == End::Killed) {
        size_t w = x.first; log[w].push_back({}); early[w] = choose(5);
        Proc *p = spawn(fmt("worker%zu'", w), [&worker, w] { worker(w, 1, -1); });
        if (!run()) violate("stuck", "a relaunched worker never ended");
        if (p->end != End::Returned) violate("refused", "%s: the relaunched worker ended with %s", text(argv[w].s).c_str(), end_name(p->end));
        const auto &a = log[w][0], &b = log[w][1];
        if (b.size() < a.size() || !std::equal(a.begin(), a.end(), b.begin())) violate("not-repeatable", "%s: a relaunched worker runs other jobs than before", text(argv[w].s).c_str());
        probe("worker relaunched after a crash");
      } else if (x.second->end != End::Returned) violate("refused", "%s ended with %s", text(argv[x.first].s).c_str(), end_name(x.second->end));
    }
  }
  std::vector<int> seen(n, 0);
  for (size_t w = 0; w < log.size(); w++) {
    const auto &l = log[w].back();
    if (!blocks && l != sp.jobs[w]) violate("wrong-jobs", "%s: ran %zu jobs from %ld instead of %zu from %ld", text(argv[w].s).c_str(), l.size(), l.size() ? l[0] : -1, sp.jobs[w].size(), sp.jobs[w].size() ? sp.jobs[w][0] : -1);
    for (long j : l) seen[j]++;
  }
  for (long j = 0; j < n; j++) if (seen[j] != 1) violate(seen[j] ? "job-repeated" : "job-missing", "with %s job %ld of %ld was run %d times", sp.desc.c_str(), j, n, seen[j]);
  nontrivial(n > 1);
  sample(fmt("%zu variables, %ld jobs, %s (%zu workers), %u crashes", vars.size(), n, sp.desc.c_str(), sp.opts.size(), crashes));
}
// Huge parameter spaces: only a few job numbers are looked at.
SCENARIO(C08, huge, 1) {
  heap_weather();
  std::vector<Var> vars; u32 nv = 4 + choose(3);
  for (u32 k = 0; k < nv; k++) { Var x; x.name = fmt("v%u", k); x.text[0] = "0"; x.text[1] = "1"; x.n = 50 + choose(100); x.text[2] = fmt("%ld", x.n); x.max = 1; x.ntext = 3; vars.push_back(x); }
  long n = count_jobs(vars);
  auto rnd = [&] { return (long)(((u64)choose(0x7fffffff) << 31 | choose(0x7fffffff)) % (u64)n); };
  long first = flip(1, 4) ? n - 1 - choose(3) : rnd(); long cnt = std::min<long>(1 + choose(4), n - first);
  u32 kind = choose(3); std::vector<long> want; std::vector<std::string> o; 
  if (kind == 0) { o = {"--this-job", fmt("%ld", first)}; want = {first}; }
  if (kind == 1) { o = {"--first-job", fmt("%ld", first), "--last-job", fmt("%ld", first + cnt - 1)}; for (long k = 0; k < cnt; k++) want.push_back(first + k); }
  if (kind == 2) {                           // the blocks follow one another from job 0 to the last one
    long delta = 1 + choose(flip(1, 100) ? 1500 : 40), B = std::max(1l, n / delta); if (choose(4) == 3 && n % B) B = std::min(n, B + 1);
    if (n / B > 20000) { kind = 1; o = {"--first-job", fmt("%ld", first), "--last-job", fmt("%ld", first + cnt - 1)}; for (long k = 0; k < cnt; k++) want.push_back(first + k); }
    else {
      long at = choose(3) ? (long)(((u64)choose(0x7fffffff) << 31 | choose(0x7fffffff)) % (u64)B) : (long)choose(3), pairs = 0; bool empty_tail = false, search = flip(1, 5); std::string why;
      Proc *p = spawn("worker", [&] {
        struct Span { long from = -1, to = -1; };
        auto span = [&](long k) { Argv a; a.s = with_vars(vars, {"--job-blocks", fmt("%ld", B), "--this-job", fmt("%ld", k)}); const char **av = a.v(); int ac = a.n(); Span s;
          lib([&] { jobs::Job job(ac, av); while (job.to_do()) { if (s.from < 0) s.from = job.current_job(); s.to = job.current_job(); ++job; } }); return s; };
        Span f = span(0); if (f.from != 0) { why = fmt("the first of %ld blocks begins with job %ld", B, f.from); return; }
        for (int k = 0; k < (search ? 1 : 2) && at + 1 < B; k++, at = B - 2) { Span x = span(at), y = span(at + 1); pairs++; if (y.from >= 0 && (x.from < 0 || y.from != x.to + 1)) { why = fmt("block %ld of %ld ends with job %ld and the next one begins with %ld", at, B, x.to, y.from); return; } if (at < 0) break; }
        if (!search) { Span x = span(B - 1); if (x.from >= 0 && x.to != n - 1) why = fmt("the last of %ld blocks ends with job %ld of %ld", B, x.to, n); return; }
        long lo = 0, hi = B; while (hi - lo > 1) { long m = hi == B ? B - 1 : lo + (hi - lo) / 2; if (span(m).from >= 0) lo = m; else { hi = m; empty_tail = true; } }
        Span l = span(lo); if (l.to != n - 1) why = fmt("the last of %ld blocks that has jobs is %ld and ends with job %ld of %ld", B, lo, l.to, n);
      });
      if (!run()) violate("stuck", "a worker never ended");
      if (p->end != End::Returned) violate("refused", "%ld blocks of %ld jobs: the worker ended with %s", B, n, end_name(p->end));
      if (why.size()) violate("job-missing", "%ld jobs: %s", n, why.c_str());
      if (empty_tail) probe("blocks without jobs"); if (pairs) probe("neighbouring blocks");
      nontrivial(n > (1l << 31)); sample(fmt("%ld jobs in %ld blocks", n, B)); return;
    }
  }
  Argv a; a.s = with_vars(vars, o); std::vector<long> got;
  Proc *p = spawn("worker", [&] { const char **av = a.v(); int ac = a.n(); 
    jobs::Job *job = lib([&] { return new jobs::Job(ac, av); });
    if (job->number_of_jobs() != n) violate("wrong-number", "%ld jobs instead of %ld", (long)job->number_of_jobs(), n);
    for (int k = 0; k < 8 && lib([&] { return job->to_do(); }); k++) { got.push_back(job->current_job()); check_values(*job, vars, job->current_job()); lib([&] { ++*job; }); }
    lib([&] { delete job; }); });
  if (!run()) violate("stuck", "a worker never ended");
  if (p->end != End::Returned) violate("refused", "%s ended with %s", text(a.s).c_str(), end_name(p->end));
  if (got != want) violate("wrong-jobs", "%s of %ld jobs: ran %zu jobs from %ld", text(o).c_str(), n, got.size(), got.size() ? got[0] : -1);
  nontrivial(n > (1l << 31)); sample(fmt("%ld jobs, %s", n, text(o).c_str()));
}
// --print-jobs tells a launcher how many jobs there are, and contradictory options stop the program.
SCENARIO(C08, options, 1) {
  heap_weather();
  std::vector<Var> vars = gen_vars(3, 60); long n = count_jobs(vars); u32 kind = choose(13); std::vector<std::string> o; const char *what = ""; bool stops = true;
  static const char *no_number[] = {"foo", "", "1x", "1e0", "0.5", "0x1", "1 2", "99999999999999999999", "-", "+-1"};
  switch (kind) {
  case 0: case 1: o = {"--print-jobs"}; what = "print-jobs"; break;
  case 2: o = {"--first-job", fmt("%ld", n + choose(3))}; what = "first job beyond the end"; break;
  case 3: o = {"--last-job", "0"}; what = "last job without first"; break;
  case 4: o = {"--first-job", "-1"}; what = "negative first job"; break;
  case 5: o = {"--job-blocks", "0"}; what = "no blocks"; break;
  case 6: o = {"--job-blocks", "2", "--first-job", "0"}; what = "blocks and interval"; break;
  case 7: if (n < 2) { return; } o = {"--first-job", fmt("%ld", n - 1), "--last-job", fmt("%ld", n - 2)}; what = "empty interval"; break;
  case 8: o = {"--job-blocks", "-3"}; what = "negative blocks"; break;
  case 9: o = {"--this-job", no_number[choose(10)]}; what = "job that is no number"; break;
  case 10: o = {"--job-blocks", "1", flip(1, 2) ? "--this-job" : "--job-blocks", no_number[choose(10)]}; what = "block that is no number"; break;
  case 11: o = {"--first-job", "0"}; if (flip(1, 2)) o.insert(o.end(), {"--last-job", no_number[choose(10)]}); else o[1] = no_number[choose(10)]; what = "interval that is no number"; break;
  case 12: { static const char *bad[] = {"", " , ", "a", "a,1x", "a,1,", "a,x", "a,1,2x", "a,1,2,x", "a,1,2,0", "a,1,2,-1", "a,1,2,2.5", ";"}; u32 b = choose(12); if (b == 4) b = 5; o = {"--variable", bad[b]}; what = "variable that is none"; break; }
  }
  Argv a; a.s = with_vars(vars, o); 
  Proc *p = spawn("worker", [&] { earlier_life(choose(5)); const char **av = a.v(); int ac = a.n(); lib([&] { jobs::Job job(ac, av); while (job.to_do()) ++job; }); });
  if (!run()) violate("stuck", "the constructor never ended");
  if (kind <= 1) { if (p->end != End::Exited || p->exit_code) violate("wrong-number", "--print-jobs ended with %s", end_name(p->end)); if (p->out != fmt("%ld", n)) violate("wrong-number", "--print-jobs printed '%s' for %ld jobs", p->out.c_str(), n); }
  else if (stops && p->end == End::Returned) violate("not-reported", "%s: %s was accepted", text(a.s).c_str(), what);
  nontrivial(); sample(fmt("%s: %s", what, end_name(p->end)));
}

//----------------------------------------------------------------------- C09
namespace {
double result_of(const std::vector<double> &x, long id) { double r = 1 + id * 0.5; for (double v : x) r = r * 0.75 + v; return r; }
}
SCENARIO(C09, fleet, 4) {
  heap_weather(); weather();
  cfg.switch_num = 1 + choose(3); cfg.switch_den = 4;
  std::vector<Var> vars = gen_vars(3, 12); long n = count_jobs(vars);
  std::string dir = flip(1, 4) ? "deep/out" : "out"; fs::mkdir("/w/deep");
  if (flip(1, 4)) { if (flip(1, 3)) { fs::mkdir("/w/elsewhere"); fs::symlink("/w/elsewhere", "/w/" + dir); } else fs::mkdir("/w/" + dir); }
  u32 rounds = 1 + choose(4);
  struct Job_ { std::string want, bytes; u64 ino = 0; bool complete = false; u32 computed = 0; };
  std::vector<Job_> jobs_(n);
  {  // the reference: what a record must contain
    std::vector<std::vector<double>> vals(n);
    Argv a; a.s = with_vars(vars, {}, true);
    Proc *p = spawn("reference", [&] { const char **av = a.v(); int ac = a.n(); lib([&] { jobs::Job j(ac, av); for (; j.to_do(); ++j) { HostScope h; check_values(j, vars, j.current_job()); for (auto &v : vars) vals[j.current_job()].push_back(j.get_value(v.name)); } }); });
    if (!run() || p->end != End::Returned) violate("refused", "the job constructor ended with %s", end_name(p->end));
    for (long k = 0; k < n; k++) { std::vector<Rec> r = var_recs(vars, k, vals[k]); Rec q; q.name = "result"; q.val.kind = REAL; q.val.t.dims = {1}; q.val.t.x = {result_of(vals[k], k)}; r.push_back(q); jobs_[k].want = header() + encode(r); }
  }
  auto look = [&] {
    auto d = fs::inode("/w/" + dir); std::vector<u8> here(n, 0);
    if (d) for (auto &en : d->ents) {
      const std::string &e = en.first;
      if (e.find_first_not_of("0123456789") != std::string::npos) continue;
      long k = atol(e.c_str());
      if (k >= n || (e.size() > 1 && e[0] == '0')) violate("foreign-record", "record %s of a data set with %ld jobs", e.c_str(), n);
      Inode &i = *en.second; Job_ &j = jobs_[k];
      if (i.data != j.want) violate("incomplete-record", "record %ld is visible with %zu bytes that are not its complete content (%zu)", k, i.data.size(), j.want.size());
      if (j.complete && i.num != j.ino) violate("record-replaced", "record %ld was written again", k);
      j.complete = true; j.ino = i.num; here[k] = 1;
    }
    for (long k = 0; k < n; k++) if (jobs_[k].complete && !here[k]) violate("record-lost", "record %ld has disappeared", k);
  };
  std::string desc; u32 crashes = 0;
  for (u32 r = 0; r <= rounds; r++) {
    bool clean = r == rounds;
    cfg.faults_on = !clean; cfg.kills_left = 0; cfg.err_write = cfg.err_open = cfg.err_close = cfg.err_meta = Config::Fault(); cfg.torn_kill = false; cfg.stall_num = 0;
    u32 mood = clean ? 0 : choose(5);
    if (mood == 1 || mood == 2 || mood == 4) { cfg.kills_left = 1 + choose(4); cfg.kill_num = 1; cfg.kill_den = 15 << choose(4); cfg.torn_kill = flip(1, 2); }
    if (mood == 3) { cfg.err_write = cfg.err_open = cfg.err_close = {1, 60}; if (flip(1, 2)) cfg.err_meta = {1, 30}; }
    cfg.fault_filter = [](const char *c, const std::string &) { return strcmp(c, "access") && strcmp(c, "stat"); };   // a record that cannot be seen may be computed again
    if (mood == 4) { cfg.stall_num = 1; cfg.stall_den = 60; cfg.stall_max = SEC; }
    if (r && flip(1, 4) && !clean) { long k = choose((u32)n); std::string junk = jobs_[k].want.substr(0, choose((u32)jobs_[k].want.size())); if (fs::exists(dir) && !jobs_[k].complete) fs::put(fmt("%s/%ld.tmp", dir.c_str(), k), junk); }
    Split sp = gen_split(n);
    cfg.on_fs_change = look;
    std::vector<Proc *> ps; std::vector<Argv> argv(sp.opts.size());
    u32 style = choose(4), thrower = choose(8); bool copies = flip(1, 3);
    u64 f0 = faults();
    for (size_t w = 0; w < sp.opts.size(); w++) argv[w].s = with_vars(vars, sp.opts[w], true);
    for (size_t w = 0; w < sp.opts.size(); w++) {
      Argv *av = &argv[w];
      ps.push_back(spawn(fmt("worker%u.%zu", r, w), [&, av] {
        const char **v = av->v(); int ac = av->n();
        lib([&] {
          jobs::Job job(ac, v);
          for (; job.to_do(); ++job) {
            long id = job.current_job(); bool full; { HostScope h; full = jobs_[id].complete; }
            if (style == 1 || style == 3) { bool there = job.dataset_record_exists(dir); if (there && !full) { HostScope h; violate("wrong-query", "dataset_record_exists() for job %ld, which has no record", id); } if (full && !there && clean) { HostScope h; violate("wrong-query", "dataset_record_exists() does not hold for the finished job %ld", id); } if (there) continue; }
            try {
              jobs::Job::dataset d = job.open_dataset(dir);
              if (!d.operator->()) { if (!full && !jobs_[id].complete) { HostScope h; violate("work-skipped", "job %ld is skipped although it has no record", id); } continue; }
              if (full) { HostScope h; violate("work-redone", "job %ld is computed again although its record is complete", id); }
              { HostScope h; jobs_[id].computed++; event(0x51, id); }
              yield();
              if (!clean && thrower == 1 && !(id % 2)) throw std::runtime_error("no convergence");
              std::vector<double> x; { HostScope h; for (auto &q : vars) x.push_back(job.get_value(q.name)); }
              double res; { HostScope h; res = result_of(x, id); }
              job.dump_variables(*d);
              if (!clean && thrower == 2 && !(id % 3)) throw std::runtime_error("no convergence");
              if (copies) { jobs::Job::dataset e = d; jobs::Job::dataset g(e); g->dump(res, "result"); e = g; }
              else d->dump(res, "result");
              if (style >= 2) d->close();
            } catch (std::runtime_error &) { count("fault:exception"); }
            { HostScope h; if (fs::open_fds(me())) violate("descriptor-leak", "descriptors stay open after a record was finished"); }
          }
        });
      }));
    }
    if (!run()) violate("stuck", "a worker never ended");
    cfg.on_fs_change = nullptr; look();
    bool trouble = faults() != f0;
    for (Proc *p : ps) { crashes += p->end == End::Killed; if (p->end != End::Returned && p->end != End::Killed && !trouble) violate("needless-failure", "%s ended with %s (%s) although no call failed", p->name.c_str(), end_name(p->end), p->what.c_str()); }
    long have = 0; for (auto &j : jobs_) have += j.complete;
    desc += fmt("%ld ", have);
    if (clean) {
      for (long k = 0; k < n; k++) if (!jobs_[k].complete) violate("job-missing", "after a round without crashes job %ld of %ld has no record", k, n);
      for (auto &e : fs::list("/w/" + dir)) if (e.find_first_not_of("0123456789") != std::string::npos) violate("leftover-file", "%s is left in the data set after all jobs are done", e.c_str());
    }
  }
  nontrivial(crashes > 0 || n > 1);
  if (crashes) probe("workers crashed and restarted");
  sample(fmt("%ld jobs, finished after each round: %s(%u crashes)", n, desc.c_str(), crashes));
}
// Large job numbers: every job has a record of its own.
SCENARIO(C09, large_numbers, 1) {
  heap_weather(); weather();
  std::vector<Var> vars; u32 nv = 3 + choose(6); long n = 1;
  for (u32 k = 0; k < nv; k++) { Var x; x.name = fmt("v%u", k); x.text[0] = "0"; x.text[1] = "1"; x.n = 12 + choose(36); x.text[2] = fmt("%ld", x.n); x.max = 1; x.ntext = 3; vars.push_back(x); n *= x.n; }
  // job numbers around powers of ten and two, and anywhere
  std::set<long> ids; u32 groups = 1 + choose(3); std::vector<std::pair<long, long>> iv;
  for (u32 g = 0; g < groups; g++) {
    long a = 0; u32 how = choose(4);
    if (how == 0) { a = 1; for (u32 k = choose(16); k--;) a *= 10; a -= choose(3); }
    else if (how == 1) a = (1l << choose(50)) - choose(3);
    else if (how == 2) a = n - 1 - choose(4);
    else a = (long)(((u64)choose(0x7fffffff) << 31 | choose(0x7fffffff)) % (u64)n);
    if (a < 0) a = 0; if (a >= n) a = n - 1;
    long e = std::min(n - 1, a + (long)choose(4)); iv.push_back({a, e}); for (long k = a; k <= e; k++) ids.insert(k);
  }
  std::set<long> done; bool crash = flip(1, 3);
  for (u32 round = 0; round < 2; round++) {
    std::vector<Argv> argv(iv.size()); u32 computed = 0;
    cfg.kills_left = crash && !round ? 1 : 0; cfg.kill_num = 1; cfg.kill_den = 60;
    for (size_t w = 0; w < iv.size(); w++) {         // one after the other: intervals may overlap
      argv[w].s = with_vars(vars, iv[w].first == iv[w].second && flip(1, 2) ? std::vector<std::string>{"--this-job", fmt("%ld", iv[w].first)} : std::vector<std::string>{"--first-job", fmt("%ld", iv[w].first), "--last-job", fmt("%ld", iv[w].second)}, true);
      Argv *av = &argv[w];
      Proc *p = spawn(fmt("worker%u.%zu", round, w), [&, av] {
        const char **v = av->v(); int ac = av->n();
        lib([&] {
          jobs::Job job(ac, v);
          for (; job.to_do(); ++job) {
            long id = job.current_job(); bool was; { HostScope h; was = done.count(id); if (!ids.count(id)) violate("wrong-job", "job number %ld was not asked for", id); }
            if (job.dataset_record_exists("out") != was) { HostScope h; violate("wrong-query", "dataset_record_exists() is %s for job %ld", was ? "false" : "true", id); }
            jobs::Job::dataset d = job.open_dataset("out");
            if (!d.operator->()) { if (!was) { HostScope h; violate("work-skipped", "job %ld is skipped although it has no record", id); } continue; }
            if (was) { HostScope h; violate("work-redone", "job %ld is computed again although its record is complete", id); }
            job.dump_variables(*d); d->dump((double)id, "result"); d->close();
            { HostScope h; done.insert(id); computed++; }
          }
        });
      });
      if (!run()) violate("stuck", "a worker never ended");
      if (p->end == End::Killed) {           // its last record may have been published
        done.clear(); for (auto &e : fs::list("/w/out")) { std::string b; fs::get("/w/out/" + e, &b); std::vector<Raw> r; if (e.find(".tmp") == std::string::npos && decode_file(b, r) && r.size() == vars.size() + 1) done.insert((long)r.back().t.x[0]); }
      } else if (p->end != End::Returned) violate("needless-failure", "%s ended with %s (%s)", p->name.c_str(), end_name(p->end), p->what.c_str());
    }
  }
  std::multiset<long> found;
  for (auto &e : fs::list("/w/out")) {
    std::string b; fs::get("/w/out/" + e, &b); std::vector<Raw> r;
    if (!decode_file(b, r) || r.size() != vars.size() + 1 || r.back().name != "result" || r.back().t.x.size() != 1) violate("incomplete-record", "%s is not a complete record", e.c_str());
    long id = (long)r.back().t.x[0]; found.insert(id); std::vector<long> dg = digits(vars, id);
    for (size_t k = 0; k < vars.size(); k++) if (r[k].name != vars[k].name || r[k].t.x.size() != 1 || !vars[k].near(r[k].t.x[0], dg[k])) violate("incomplete-record", "the record of job %ld has another %s", id, vars[k].name.c_str());
  }
  for (long id : ids) if (found.count(id) != 1) violate("job-missing", "job %ld has %zu records", id, found.count(id));
  if (found.size() != ids.size()) violate("foreign-record", "%zu records of %zu jobs", found.size(), ids.size());
  nontrivial(ids.size() > 1); sample(fmt("%zu of %ld jobs, numbers up to %ld", ids.size(), n, *ids.rbegin()));
}
// Out of memory while a record is opened or written: no record, and the next attempt makes it.
SCENARIO(C09, memory, 1) {
  heap_weather();
  std::vector<Var> vars = gen_vars(2, 4); long n = count_jobs(vars); Argv a; a.s = with_vars(vars, {}, true);
  i64 oom = 1 + small(60); bool threw = false; long at = choose((u32)n);
  Proc *p = spawn("worker", [&] {
    const char **v = a.v(); int ac = a.n();
    lib([&] {
      jobs::Job job(ac, v);
      for (; job.to_do(); ++job) {
        long id = job.current_job();
        for (int attempt = 0; attempt < 2; attempt++) {
          if (id == at && !attempt) self()->fail_alloc_in = oom;
          bool failed = false;
          try {
            jobs::Job::dataset d = job.open_dataset("out");
            if (!d.operator->()) violate("work-skipped", "job %ld is skipped although it was not finished", id);
            job.dump_variables(*d); d->dump((double)id, "result");
            self()->fail_alloc_in = -1;
          } catch (std::bad_alloc &) { failed = true; }
          self()->fail_alloc_in = -1;
          HostScope h; std::string b; bool there = fs::get(fmt("out/%ld", id), &b);
          if (fs::open_fds(me())) violate("descriptor-leak", "descriptors stay open");
          if (!failed) { std::vector<Raw> r; if (!there || !decode_file(b, r) || r.size() != vars.size() + 1) violate("incomplete-record", "a finished record is not complete"); break; }
          threw = true;
          if (there) violate("incomplete-record", "job %ld ran out of memory and left a record of %zu bytes", id, b.size());
        }
      }
    });
  });
  if (!run()) violate("stuck", "a worker never ended");
  if (p->end != End::Returned) violate("needless-failure", "the worker ended with %s (%s)", end_name(p->end), p->what.c_str());
  nontrivial(threw); if (threw) probe("out of memory while a record is written");
  sample(fmt("%ld jobs, allocation %lld of job %ld fails", n, (long long)oom, at));
}

//----------------------------------------------------------------------- C10
namespace {
struct Outcome { bool ok = false; long n = 0; std::vector<std::vector<double>> vals; End end = End::Running; };
Outcome run_job(const std::vector<std::string> &args, const std::vector<std::string> &names, const char *who) {
  Outcome o; Argv a; a.s = args;
  Proc *p = spawn(who, [&] {
    const char **v = a.v(); int ac = a.n();
    lib([&] {
      jobs::Job j(ac, v);
      o.n = j.number_of_jobs();
      long lim = 0;
      for (; j.to_do() && lim < 64; ++j, ++lim) { HostScope h; o.vals.push_back({}); for (auto &nm : names) o.vals.back().push_back(lib([&] { return j.get_value_with_default(nm, -98765.0); })); }
      HostScope h; if (fs::open_fds(me())) violate("descriptor-leak", "the job file is still open");
    });
    o.ok = true;
  });
  if (!run()) violate("stuck", "reading a job file never ended");
  o.end = p->end;
  return o;
}
}
SCENARIO(C10, jobfile, 4) {
  heap_weather(); weather();
  std::vector<Var> vars = gen_vars(5, 60, flip(7, 8)); std::vector<std::string> lines, names; 
  bool cr = false; u32 bad = choose(4) == 3 ? 1 + choose(16) : 0; const char *what = "valid";
  for (auto &v : vars) { lines.push_back(var_line(v, flip(1, 3))); names.push_back(v.name); }
  if (flip(1, 10) && lines.size()) { std::string &l = lines[choose((u32)lines.size())]; l += std::string(100 + choose(9000), ' '); }  // longer than any buffer
  if (flip(1, 8) && lines.size()) { cr = true; lines[choose((u32)lines.size())] += "\r"; }
  std::vector<std::string> valid = lines;
  if (bad) {
    static const char *b[] = {"lonely", "x 1 2 3 4", "y,0,1,0", "z 0 1 -3", "w;1;2;3;4;5", "q", "ab", "c one", "d 1 two", "e 1 2 three", "f 1x", "g 1 2 2.5", "h,0,1,1e2", "i,0,1,18446744073709551617", "k,1.5.2", "m,--1,2"};
    what = b[bad - 1]; lines.insert(lines.begin() + choose((u32)lines.size() + 1), b[bad - 1]);
  }
  std::string file; bool final_nl = flip(1, 2);
  for (size_t k = 0; k < lines.size(); k++) { if (flip(1, 6)) file += flip(1, 2) ? "\n" : " \t\n"; file += lines[k]; if (k + 1 < lines.size() || final_nl) file += "\n"; }
  if (final_nl && flip(1, 4)) file += flip(1, 2) ? "\n\n" : "  ";
  fs::put("jobs.txt", file);
  u32 trouble = choose(3) == 2 ? 1 + choose(3) : 0; u32 seen = 0, k = 1 + small(6); bool sticky = flip(1, 2);
  std::vector<std::string> direct; for (auto &l : valid) { direct.push_back("--variable"); direct.push_back(l); }
  std::vector<std::string> viafile = {"--job", "jobs.txt"};
  if (flip(1, 4) && !bad && vars.size() >= 2) {   // two files, or a file and options
    size_t c = 1 + choose((u32)lines.size() - 1); std::string f1, f2; for (size_t i = 0; i < lines.size(); i++) (i < c ? f1 : f2) += lines[i] + "\n";
    fs::put("jobs.txt", f1); viafile = {"--job", "jobs.txt"};
    if (flip(1, 2)) { fs::put("more.txt", f2); viafile.insert(viafile.end(), {"--job", "more.txt"}); }
    else for (size_t i = c; i < lines.size(); i++) { viafile.push_back("--variable"); viafile.push_back(lines[i]); }
  }
  Outcome want = run_job(direct, names, "options");
  if (!want.ok && !cr) violate("refused", "options that define variables ended the program with %s", end_name(want.end));
  long n = count_jobs(vars); if (want.n != n && !cr) violate("wrong-number", "%ld jobs from options instead of %ld", want.n, n);
  if (trouble == 1) { cfg.err_read = {1, 1}; cfg.fault_filter = [&](const char *c, const std::string &) { if (strcmp(c, "read")) return false; ++seen; return sticky ? seen >= k : seen == k; }; }
  if (trouble == 2) { cfg.err_open = {1, 1}; cfg.fault_filter = [&](const char *c, const std::string &) { return !strcmp(c, "open"); }; }
  u64 f0 = faults();
  Outcome got = run_job(viafile, names, "file");
  bool hit = faults() != f0; cfg.fault_filter = nullptr; cfg.faults_on = false;
  if (bad && got.ok) violate("not-reported", "a job file with the line '%s' was accepted: %ld jobs", what, got.n);
  if (!want.ok) { if (got.ok) violate("not-reported", "a job file was accepted whose lines are refused as options"); return; }
  if (got.ok && (got.n != want.n || got.vals != want.vals)) violate(hit ? "fewer-variables" : "different", "a job file of %zu lines%s gives %ld jobs, the same lines as options give %ld", lines.size(), hit ? " that failed while it was read" : "", got.n, want.n);
  if (!got.ok && !bad && !hit) violate("refused", "a job file of %zu valid lines ended the program with %s", lines.size(), end_name(got.end));
  if (hit) probe("job file failed while it was read");
  if (hit && trouble == 2 && got.ok) violate("not-reported", "a job file that cannot be opened was accepted");
  nontrivial(lines.size() > 0);
  sample(fmt("%zu lines (%s)%s: %s", lines.size(), what, hit ? ", read error" : "", got.ok ? fmt("%ld jobs", got.n).c_str() : end_name(got.end)));
}
SCENARIO(C10, unreadable, 1) {
  heap_weather();
  u32 kind = choose(5); const char *what = ""; std::string path = "jobs.txt";
  switch (kind) {
  case 0: what = "missing file"; break;
  case 1: what = "directory"; fs::mkdir("/w/jobs.txt"); break;
  case 2: what = "unreadable file"; fs::put(path, "x 1 2 3\n", 0200); break;
  case 3: what = "file in a missing directory"; path = "nowhere/jobs.txt"; break;
  case 4: what = "empty name"; path = ""; break;
  }
  std::vector<std::string> a = {"--job", path}; if (flip(1, 2)) a.insert(flip(1, 2) ? a.begin() : a.end(), {"--variable", "y,1,2,3"});
  if (flip(1, 3)) a.push_back("--print-jobs");
  Outcome o = run_job(a, {}, "program");
  if (o.ok || o.end == End::Returned || (o.end == End::Exited)) violate("not-reported", "a %s given as job file was accepted: %ld jobs", what, o.n);
  nontrivial(); sample(fmt("%s: %s", what, end_name(o.end)));
}
