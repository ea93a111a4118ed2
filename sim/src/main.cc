#include "internal.h"
#include "fs.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <streambuf>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;
namespace sim {
static const char *g_tier = "quick";
const char *tier() { return g_tier; }
std::string scratch_dir;             // for the files of the Python reader
}

struct SimBuf : std::streambuf {
  bool is_err;
  SimBuf(bool e) : is_err(e) {}
  int overflow(int c) override { char ch = (char)c; xsputn(&ch, 1); return c; }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    if (G.cur) { HostScope h; if (me()->out.size() < 65536 && !is_err) me()->out.append(s, n); if (verbose() && n > 1) note("%s: %.*s", is_err ? "stderr" : "stdout", (int)n, s); return n; }
    (void)!::write(is_err ? 2 : 1, s, n);
    return n;
  }
};

static std::string out_path;
static u64 g_index, g_seed; static const Scenario *g_scen; static const char *g_prop;
static std::vector<const Scenario *> g_list;

static void append_num(std::string &s, u64 v) { char b[24]; int i = 24; do { b[--i] = '0' + v % 10; v /= 10; } while (v); s.append(b + i, 24 - i); }
static std::string json(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string record_text() {
  std::string s = "property "; s += g_prop; s += "\nscenario "; s += g_scen->name;
  s += "\nseed "; append_num(s, g_seed); s += "\nindex "; append_num(s, g_index);
  s += "\nclass "; s += G.vclass; s += "\nmessage ";
  for (char c : G.vmsg) s += (c == '\n') ? ' ' : c;
  s += "\nhash "; append_num(s, G.hash);
  s += "\nchoices";
  for (size_t i = 0; i < G.nrec; i++) { s += ' '; append_num(s, G.rec[i]); }
  s += "\n";
  return s;
}
static void write_file(const std::string &p, const std::string &s) {
  int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  size_t o = 0; while (fd >= 0 && o < s.size()) { ssize_t r = ::write(fd, s.data() + o, s.size() - o); if (r <= 0) break; o += r; }
  ::close(fd);
}
static bool in_handler = false;
static void on_signal(int sig, siginfo_t *, void *) {
  G.cur = nullptr; g_hook = false; G.host_lib = false;
  if (in_handler) _exit(4);
  in_handler = true; host_image_back();
  struct itimerval z = {}; setitimer(ITIMER_REAL, &z, nullptr);
  if (sig == SIGALRM) { fprintf(stderr, "HARNESS-ERROR wall-clock watchdog: property %s scenario %s index %llu\n", g_prop, g_scen ? g_scen->name : "-", (unsigned long long)g_index); _exit(3); }
  if (!G.violated) { G.violated = true; G.vclass = "memory-fault"; G.vmsg = std::string("the process died of signal ") + std::to_string(sig) + " (invalid memory access or arithmetic trap)"; }
  write_file(out_path + ".viol", record_text());
  if (G.verbose_) write_file(out_path + ".log", G.log);
  _exit(10);
}
static void choose_scenario(const char *prop) {
  g_list.clear();
  for (Scenario *s = Scenario::head; s; s = s->next) if (!strcmp(s->property, prop)) g_list.push_back(s);
  std::sort(g_list.begin(), g_list.end(), [](const Scenario *a, const Scenario *b) { return strcmp(a->name, b->name) < 0; });
  if (g_list.empty()) harness_error("no scenario for %s", prop);
}
static const Scenario *scenario_of(u64 seed, u64 index) {
  u32 total = 0; for (auto s : g_list) total += s->weight;
  u32 r = (u32)(mix(seed, index * 2 + 1) % total);
  for (auto s : g_list) { if (r < s->weight) return s; r -= s->weight; }
  return g_list[0];
}
// One run. True: no violation.
static bool one_run(const Scenario *sc) {
  g_scen = sc;
  begin_run();
  bool ok = true;
  try { sc->run(); if (!G.violated) heap_check(); }
  catch (ViolationEx &) { ok = false; }
  catch (std::exception &e) { G.cur = nullptr; std::string w = e.what(); end_run(); harness_error("exception in scenario %s index %llu: %s", sc->name, (unsigned long long)g_index, w.c_str()); }
  if (G.violated) ok = false;
  end_run();
  return ok;
}
static void arm_watchdog(int s) { struct itimerval z = {}; z.it_value.tv_sec = s; setitimer(ITIMER_REAL, &z, nullptr); }
static bool parse_replay(const std::string &path, std::map<std::string, std::string> &kv) {
  FILE *f = fopen(path.c_str(), "r"); if (!f) return false;
  char *line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    if (line[n - 1] == '\n') line[--n] = 0;
    if (!strncmp(line, "---", 3)) break;
    char *sp = strchr(line, ' ');
    if (sp) kv[std::string(line, sp - line)] = sp + 1; else if (*line) kv[line] = "";
  }
  free(line); fclose(f);
  return true;
}
static std::vector<u32> parse_choices(const std::string &s) { std::vector<u32> v; std::istringstream i(s); u32 x; while (i >> x) v.push_back(x); return v; }

// Try one candidate in a child; true if it fails with the same class.
static std::string want_class;
static bool try_candidate(const std::vector<u32> &in, std::vector<u32> *used) {
  int pfd[2]; if (pipe(pfd)) return false;
  pid_t pid = fork();
  if (pid == 0) {
    ::close(pfd[0]);
    G.input = in; G.replay = true;
    out_path += ".cand";
    arm_watchdog(20);
    bool ok = one_run(g_scen);
    if (ok || G.vclass != want_class) _exit(0);
    u32 n = (u32)G.nrec; (void)!::write(pfd[1], &n, 4);
    size_t o = 0; while (o < n * 4ul) { ssize_t r = ::write(pfd[1], (char *)G.rec + o, n * 4ul - o); if (r <= 0) break; o += r; }
    _exit(10);
  }
  ::close(pfd[1]);
  std::string data; char buf[65536]; ssize_t r;
  while ((r = ::read(pfd[0], buf, sizeof buf)) > 0) data.append(buf, r);
  ::close(pfd[0]);
  int st; waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 10) return false;
  if (data.size() >= 4) { u32 n; memcpy(&n, data.data(), 4); used->assign((u32 *)(data.data() + 4), (u32 *)(data.data() + 4) + (data.size() - 4) / 4); (void)n; return true; }
  // died in the signal handler
  std::map<std::string, std::string> kv;
  if (want_class != "memory-fault") return false;
  if (!parse_replay(out_path + ".cand.viol", kv) || kv["class"] != want_class) return false;
  *used = parse_choices(kv["choices"]);
  return true;
}
static bool better(const std::vector<u32> &a, const std::vector<u32> &b) {   // shortlex on trimmed
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}
static void trim(std::vector<u32> &v) { while (v.size() && v.back() == 0) v.pop_back(); }

int main(int argc, char **argv) {
  if (!::getenv("SIM_CHILD")) {   // one thread, fixed addresses, fixed seed for the static constructors
    personality(ADDR_NO_RANDOMIZE);
    static char e1[] = "SIM_CHILD=1", e2[] = "OPENBLAS_NUM_THREADS=1", e3[] = "OMP_NUM_THREADS=1", e4[] = "RANDSEED=1", e5[] = "PATH=/usr/bin:/bin", e6[] = "LC_ALL=C";
    char *env[] = {e1, e2, e3, e4, e5, e6, nullptr};
    execve("/proc/self/exe", argv, env);
    perror("execve"); return 3;
  }
  std::map<std::string, std::string> opt;
  std::string cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
  static SimBuf cb(false), eb(true);
  std::cout.rdbuf(&cb); std::cerr.rdbuf(&eb); std::clog.rdbuf(&eb);
  { std::ostringstream o; o << 1.5 << 12 << 13ul << true; std::istringstream is("1.5 2"); double d; int k; is >> d >> k; }
  out_path = opt.count("--out") ? opt["--out"] : "/tmp/sim-out";
  scratch_dir = out_path.find('/') == std::string::npos ? "." : out_path.substr(0, out_path.rfind('/') + 1);
  if (opt.count("--tier")) g_tier = strdup(opt["--tier"].c_str());
  G.caprec = 1u << 20;
  G.rec = (u32 *)mmap(nullptr, G.caprec * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  stack_t ss = {}; ss.ss_size = 256 << 10; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
  struct sigaction sa = {}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGALRM}) sigaction(s, &sa, nullptr);

  if (cmd == "search") {
    g_prop = strdup(opt["--property"].c_str());
    choose_scenario(g_prop);
    g_seed = strtoull(opt["--seed"].c_str(), nullptr, 10);
    u64 from = strtoull(opt["--from"].c_str(), nullptr, 10), n = strtoull(opt["--count"].c_str(), nullptr, 10);
    int wd = opt.count("--watchdog") ? atoi(opt["--watchdog"].c_str()) : 60;
    bool twice = opt.count("--twice");
    std::vector<u64> hashes; std::vector<std::string> samples;
    u64 runs = 0, nontriv = 0, simns = 0, events = 0; std::map<std::string, u64> per;
    u64 allhash = 0;
    auto t0 = std::chrono::steady_clock::now();
    for (u64 i = from; i < from + n; i++) {
      g_index = i; arm_watchdog(wd);
      G.replay = false; G.prng = mix(mix(g_seed, 0x5eed), mix(i) ^ (u64)(unsigned char)g_prop[1] * 131 + (unsigned char)g_prop[2]);
      const Scenario *sc = scenario_of(g_seed, i);
      u64 p0 = G.prng;
      bool ok = one_run(sc);
      if (twice) {
        u64 h = G.hash; size_t nr = G.nrec; bool ok0 = ok;
        G.prng = p0; ok = one_run(sc);
        if (h != G.hash || nr != G.nrec || ok != ok0) harness_error("nondeterminism: %s index %llu", sc->name, (unsigned long long)i);
      }
      runs++; simns += G.now; events += G.events; per[sc->name]++;
      allhash = mix(allhash, G.hash);
      if (G.overflow) { harness_error("choice buffer overflow in %s index %llu", sc->name, (unsigned long long)i); }
      if (!ok) { arm_watchdog(0); write_file(out_path + ".viol", record_text()); break; }
      if (G.nontriv) { nontriv++; hashes.push_back(G.hash); }
      if (samples.size() < 2 && G.sample_.size()) samples.push_back(std::string(sc->name) + ": " + G.sample_);
    }
    arm_watchdog(0);
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    std::string j = "{\"runs\":" + std::to_string(runs) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"sim_ns\":" + std::to_string(simns) +
      ",\"events\":" + std::to_string(events) + ",\"wall\":" + std::to_string(wall) + ",\"digest\":\"" + std::to_string(allhash) + "\",\"scenarios\":{";
    bool first = true;
    for (auto &p : per) { j += std::string(first ? "" : ",") + json(p.first) + ":" + std::to_string(p.second); first = false; }
    j += "},\"counters\":{"; first = true;
    for (auto &p : G.counters) { j += std::string(first ? "" : ",") + json(p.first) + ":" + std::to_string(p.second); first = false; }
    j += "},\"samples\":["; first = true;
    for (auto &s : samples) { j += std::string(first ? "" : ",") + json(s); first = false; }
    j += "]}\n";
    write_file(out_path + ".json", j);
    write_file(out_path + ".hash", std::string((char *)hashes.data(), hashes.size() * 8));
    _exit(G.violated ? 10 : 0);
  }
  if (cmd == "replay" || cmd == "shrink") {
    std::map<std::string, std::string> kv;
    if (!parse_replay(opt["--file"], kv)) harness_error("cannot read %s", opt["--file"].c_str());
    g_prop = strdup(kv["property"].c_str());
    g_seed = strtoull(kv["seed"].c_str(), nullptr, 10); g_index = strtoull(kv["index"].c_str(), nullptr, 10);
    choose_scenario(g_prop);
    for (auto s : g_list) if (kv["scenario"] == s->name) g_scen = s;
    if (!g_scen) harness_error("unknown scenario %s", kv["scenario"].c_str());
    std::vector<u32> best = parse_choices(kv["choices"]);
    if (cmd == "replay") {
      G.input = best; G.replay = true; G.verbose_ = true; arm_watchdog(60);
      bool ok = one_run(g_scen);
      if (!ok) write_file(out_path + ".viol", record_text());
      write_file(out_path + ".log", G.log);
      if (opt.count("--print")) { (void)!::write(1, G.log.data(), G.log.size()); std::string r = ok ? "no violation\n" : record_text().substr(0, record_text().find("\nchoices")) + "\n"; (void)!::write(1, r.data(), r.size()); }
      _exit(ok ? 0 : 10);
    }
    want_class = kv["class"];
    double limit = opt.count("--time") ? atof(opt["--time"].c_str()) : 20;
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::vector<u32> used;
    u64 tries = 1;
    if (!try_candidate(best, &used)) { write_file(out_path + ".shrunk", ""); _exit(5); }
    best = used; trim(best);
    size_t start_len = best.size();
    auto attempt = [&](std::vector<u32> c) {
      if (elapsed() > limit) return false;
      trim(c); tries++;
      if (!better(c, best)) return false;
      std::vector<u32> u;
      if (!try_candidate(c, &u)) return false;
      trim(u);
      if (better(u, c)) best = u; else best = c;
      return true;
    };
    bool progress = true;
    while (progress && elapsed() < limit) {
      progress = false;
      for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && elapsed() < limit; len /= 2) {
        for (size_t i = 0; i + len <= best.size() && elapsed() < limit;) {
          std::vector<u32> c = best; c.erase(c.begin() + i, c.begin() + i + len);
          if (attempt(c)) { progress = true; continue; }
          bool nz = false; for (size_t k = i; k < i + len; k++) if (best[k]) nz = true;
          if (nz) { c = best; std::fill(c.begin() + i, c.begin() + i + len, 0); if (attempt(c)) { progress = true; } }
          i += len;
        }
        if (len == 1) break;
      }
      for (size_t i = 0; i < best.size() && elapsed() < limit; i++) {
        u32 v = best[i]; if (!v) continue;
        std::vector<u32> c = best;
        for (u32 t : {1u, v / 2, v - 1}) { if (t >= best[i]) continue; c = best; c[i] = t; if (attempt(c)) { progress = true; } if (i >= best.size()) break; }
      }
    }
    std::string s = "property " + std::string(g_prop) + "\nscenario " + g_scen->name + "\nseed " + std::to_string(g_seed) + "\nindex " + std::to_string(g_index) + "\nclass " + want_class + "\nchoices";
    for (u32 v : best) s += " " + std::to_string(v);
    s += "\nshrunk-from " + std::to_string(start_len) + " to " + std::to_string(best.size()) + " choices in " + std::to_string(tries) + " tries\n";
    write_file(out_path + ".shrunk", s);
    _exit(0);
  }
  if (cmd == "list") { for (Scenario *s = Scenario::head; s; s = s->next) printf("%s %s %u\n", s->property, s->name, s->weight); fflush(stdout); _exit(0); }
  harness_error("usage");
}
