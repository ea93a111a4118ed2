// C04: atomic publication. C05: exclusion. C06: liveness of waiting. C07: file utilities.
#include "sdfmodel.h"
#include <algorithm>
#include <stdexcept>
#include <unistd.h>
using namespace sdfm;

namespace {
typedef sdf::DataFile DF;
std::vector<Rec> gen_recs(u32 maxn, u32 maxelem) {
  std::vector<Rec> v; u32 n = small(maxn + 1);
  for (u32 k = 0; k < n; k++) { Rec r; r.name = gen_name(); r.val = gen_val(maxelem); v.push_back(r); }
  return v;
}
bool starts_with(const std::string &a, const std::string &p) { return a.size() >= p.size() && !a.compare(0, p.size(), p); }
struct UserError : std::runtime_error { UserError() : std::runtime_error("user error") {} };
Rec version_rec(int k) { Rec r; r.name = "version"; r.val.kind = INT; r.val.i = k; return r; }
}

//----------------------------------------------------------------------- C04
namespace {
struct Pub {                          // what the final name may show right now
  std::string path;
  bool old_there = false; std::string old_, new_;
  bool may_be_new = false;            // close() has been called
  std::string ino_note;
  void check(const char *when) {
    std::string b; bool there = fs::get(path, &b);
    if (!there && fs::exists(path)) violate("half-published", "%s is not a regular file any more", path.c_str());
    if (!there) { if (old_there) violate("half-published", "%s has no file under the final name although a version had been published", when); return; }
    if (old_there && b == old_) return;
    if (b == new_) { if (!may_be_new) violate("published-early", "%s the new version is visible although its session is not closed", when); return; }
    violate("half-published", "%s the final name shows %zu bytes that are neither the old version (%zu) nor the new one (%zu)", when, b.size(), old_there ? old_.size() : 0, new_.size());
  }
};
}
SCENARIO(C04, publish, 4) {
  heap_weather(); weather();
  cfg.switch_num = 1 + choose(3); cfg.switch_den = 4;
  fs::mkdir("/w/run");
  Pub pub; static const char *names[] = {"data.sdf", "run/data.sdf", "noext", "a.b.tmp"};
  pub.path = names[choose(4)];
  std::map<int, std::vector<Rec>> versions; int ver = 0;
  if (flip(2, 3)) { versions[0] = gen_recs(4, 30); versions[0].insert(versions[0].begin(), version_rec(0)); pub.old_there = true; pub.old_ = header() + encode(versions[0]); if (pub.path == "data.sdf" && flip(1, 4)) { fs::put("store", pub.old_); fs::symlink("store", "/w/data.sdf"); } else fs::put(pub.path, pub.old_); }
  if (flip(1, 4)) { std::string junk = header() + encode(gen_recs(4, 40)); junk.resize(choose((u32)junk.size() + 1)); fs::put(pub.path + ".tmp", junk); }
  u32 n = 1 + small(4); std::string desc; u32 hits = 0;
  for (u32 s = 0; s < n; s++) {
    ver++;
    std::vector<Rec> recs = gen_recs(5, choose(6) == 5 ? 2500 : 24); recs.insert(recs.begin(), version_rec(ver));
    versions[ver] = recs;
    pub.new_ = header() + encode(recs); pub.may_be_new = false;
    // one kind of trouble per session
    u32 trouble = s + 1 == n && n > 1 && flip(1, 2) ? 0 : choose(8);
    cfg.kills_left = 0; cfg.torn_kill = false; cfg.faults_on = true; cfg.disk_free = -1; cfg.fault_filter = nullptr;
    cfg.err_write = cfg.err_open = cfg.err_close = cfg.err_meta = Config::Fault();
    u32 at = choose((u32)recs.size() + 1); i64 oom = 0; bool caught = false, retried = false; bool want_retry = flip(1, 2);
    u64 f0 = faults(); u32 seen = 0;
    switch (trouble) {
    case 1: case 2: cfg.kills_left = 1; cfg.torn_kill = trouble == 2; cfg.kill_num = 1; cfg.kill_den = 6 + choose(3) * 40; break;
    case 3: cfg.err_write = cfg.err_close = cfg.err_open = cfg.err_meta = Config::Fault{1, 1}; cfg.close_loses = flip(1, 2); { u32 k = 1 + small(60); cfg.fault_filter = [&seen, k](const char *, const std::string &) { return ++seen == k; }; } break;
    case 4: cfg.disk_free = 1 + choose((u32)pub.new_.size()); break;
    case 5: oom = 1 + small(30); break;
    case 7: cfg.err_meta = Config::Fault{1, 1}; { bool sticky = flip(1, 2); cfg.fault_filter = [&seen, sticky](const char *c, const std::string &) { if (strcmp(c, "rename")) return false; return ++seen == 1 || sticky; }; } break;
    }
    bool ec = flip(1, 2), closed = false, thrown = false;
    cfg.on_fs_change = [&] { pub.check("while a session is in progress"); };
    Proc *w = spawn(fmt("writer%u", s), [&] {
      for (int attempt = 0; attempt < 2; attempt++) {
        try {
          lib([&] {
            sdf::OutDataFile out(pub.path, DF::SDF_PARANOID);
            for (size_t k = 0; k < recs.size(); k++) {
              if (trouble == 6 && k == at && !attempt) { thrown = true; throw UserError(); }
              if (oom && k == at && !attempt) self()->fail_alloc_in = oom;
              dump(out, recs[k]);
            }
            self()->fail_alloc_in = -1;
            if (trouble == 6 && at == recs.size() && !attempt) { thrown = true; throw UserError(); }
            pub.may_be_new = true;
            if (ec) out.close();
          });
          closed = true;
          return;
        } catch (UserError &) { HostScope h; caught = true; }
        catch (std::bad_alloc &) { HostScope h; caught = true; }
        self()->fail_alloc_in = -1;
        if (pub.may_be_new) return;
        { HostScope h; pub.check("after an exception left the session"); if (fs::open_fds(me())) violate("descriptor-leak", "an abandoned session leaves descriptors open"); }
        if (!want_retry) return;
        retried = true;
      }
    });
    // readers at any time: they see one whole version
    std::vector<Proc *> rs; u32 nr = pub.old_there ? small(3) : 0;
    for (u32 i = 0; i < nr; i++) {
      Proc *r = spawn(fmt("reader%u.%u", s, i), [&] {
        u32 loops = 1 + choose(2);
        for (u32 l = 0; l < loops; l++) lib([&] {
          sdf::InDataFile in(pub.path);
          int v = -1; in.load(&v, "version");
          const std::vector<Rec> *rv; { HostScope h; if (!versions.count(v)) violate("wrong-data", "a reader found version %d", v); rv = &versions[v]; }
          for (size_t k = 1; k < rv->size(); k++) {
            Val x = load(in, (*rv)[k].val.kind, (*rv)[k].name, false);
            if (!same(x, (*rv)[k].val)) violate("wrong-data", "a reader found a mixture of two versions");
          }
          in.close();
          count("versions read while a writer works");
        });
      });
      r->immune = r->quiet_faults = true;
      rs.push_back(r);
    }
    bool done = run();
    cfg.on_fs_change = nullptr;
    if (!done) violate("stuck", "a paranoid session or a reader never ended");
    for (Proc *r : rs) if (r->end != End::Returned) violate("reader-failed", "a reader of a published file ended with %s: it did not find one complete version", end_name(r->end));
    pub.check("after the session");
    bool hit = w->end == End::Killed || faults() != f0 || thrown || caught;
    hits += hit;
    std::string b; bool there = fs::get(pub.path, &b);
    if (closed) {
      if (!there || b != pub.new_) violate("not-published", "close() of a paranoid session returned, but the file holds %zu bytes instead of the %zu of the new version", b.size(), pub.new_.size());
      if (fs::exists(pub.path + ".tmp")) violate("leftover-file", "the temporary file is still there after close()");
      if (fs::open_fds(w)) violate("descriptor-leak", "a closed session leaves descriptors open");
      if (retried) probe("session succeeded after an abandoned one");
    } else if (!hit) violate("needless-failure", "a paranoid session ended with %s (%s) although nothing failed", end_name(w->end), w->what.c_str());
    if (there && b == pub.new_) { pub.old_there = true; pub.old_ = b; if (!closed) probe("crash after publication"); }
    else if (!closed && hit) probe("crash or failure before publication");
    desc += fmt("%s%s ", w->end == End::Killed ? "killed" : closed ? "closed" : caught ? "exception" : end_name(w->end), there && b == pub.new_ ? "+new" : "+old");
  }
  nontrivial(hits);
  sample(desc);
}
// A checkpoint written from a destructor while an exception unwinds the program is a session like any other.
SCENARIO(C04, checkpoint_in_unwinding, 1) {
  heap_weather(); weather();
  Pub pub; pub.path = "state.sdf"; bool old = flip(1, 2);
  if (old) { pub.old_there = true; pub.old_ = header() + encode(gen_recs(3, 10)); fs::put(pub.path, pub.old_); }
  std::vector<Rec> recs = gen_recs(4, 20), outer = gen_recs(4, 20); pub.new_ = header() + encode(recs);
  bool inner_throw = flip(1, 3), outer_session = flip(1, 2), closed = false;
  cfg.on_fs_change = [&] { pub.check("during a checkpoint"); };
  struct Guard { std::function<void()> f; ~Guard() { f(); } };
  Proc *p = spawn("program", [&] {
    try {
      lib([&] {
        Guard g{[&] {
          try {
            sdf::OutDataFile out(pub.path, DF::SDF_PARANOID);
            for (auto &r : recs) dump(out, r);
            if (inner_throw) throw UserError();
            pub.may_be_new = true;
          } catch (UserError &) { return; }
          closed = true;
        }};
        if (outer_session) {
          sdf::OutDataFile out("other.sdf", DF::SDF_PARANOID);
          for (auto &r : outer) dump(out, r);
          throw UserError();
        }
        throw UserError();
      });
    } catch (UserError &) {}
  });
  if (!run()) violate("stuck", "a checkpoint never ended");
  cfg.on_fs_change = nullptr;
  if (p->end != End::Returned) violate("needless-failure", "a checkpoint during unwinding ended with %s (%s)", end_name(p->end), p->what.c_str());
  pub.check("after a checkpoint");
  std::string b; bool there = fs::get(pub.path, &b);
  if (closed && (!there || b != pub.new_)) violate("not-published", "a completed checkpoint is not in place");
  if (outer_session && fs::exists("other.sdf")) violate("published-early", "a session that an exception interrupted published its file");
  nontrivial(); count("fault:exception");
  sample(fmt("checkpoint of %zu records%s%s", recs.size(), inner_throw ? ", itself interrupted" : "", outer_session ? ", outer session interrupted" : ""));
}

//----------------------------------------------------------------- C05 and C06
namespace {
struct Session { int proc; bool reader, opened = false, closed = false, sees_empty = false; std::vector<Rec> recs; u64 t_open = 0; };
struct Fleet {
  std::string path; std::string prior;
  std::vector<Session> all;               // in order of acquisition once opened
  std::vector<int> order;
  int holder = -1; Proc *holder_p = nullptr;
  std::vector<Proc *> procs;
  u64 released = 0;                       // last time a session ended in whatever way
  void acquired(int s, Proc *p) {
    HostScope h;
    if (holder >= 0 && holder_p->live())
      violate("two-holders", "%s has a shared session open while the one of %s is still open", p->name.c_str(), holder_p->name.c_str());
    holder = s; holder_p = p; all[s].opened = true; all[s].t_open = now();
    order.push_back(s);
  }
  void releasing(int s) { HostScope h; if (holder == s) holder = -1; }
  void release_done(int s) { HostScope h; all[s].closed = true; released = now(); }
};
// Can `file` be prior + sessions in order, where sessions that did not close contribute any prefix?
bool explain(const std::string &file, const Fleet &f, size_t i, size_t pos, std::set<std::pair<size_t, size_t>> &bad) {
  while (i < f.order.size() && f.all[f.order[i]].reader) i++;
  if (i == f.order.size()) {
    if (pos == file.size()) return true;
    if (pos || file.size() > 64) return false;
    for (auto &q : f.all) if (!q.reader && !q.opened) return starts_with(header(), file);
    return false;
  }
  if (bad.count({i, pos})) return false;
  const Session &s = f.all[f.order[i]];
  if (pos == 0) {                      // a process that died while it opened the file left a header or part of one
    bool some = false; for (auto &q : f.all) if (!q.reader && !q.opened) some = true;
    if (some) { std::string h = header(); size_t l = 0; while (l < 64 && l < file.size() && file[l] == h[l]) l++; for (; l > 0; l--) if (explain(file, f, i, l, bad)) return true; }
  }
  std::string full = (pos == 0 ? header() : std::string()) + encode(s.recs);
  if (s.closed) { if (file.compare(pos, full.size(), full) == 0 && pos + full.size() <= file.size() && explain(file, f, i + 1, pos + full.size(), bad)) return true; }
  else {
    size_t l = 0; while (l < full.size() && pos + l < file.size() && file[pos + l] == full[l]) l++;
    for (size_t k = l + 1; k-- > 0;) if (explain(file, f, i + 1, pos + k, bad)) return true;
  }
  bad.insert({i, pos});
  return false;
}
void session(Fleet &f, int idx, bool ec, u64 hold, const std::string &as = "") {
  Session &s = f.all[idx]; const std::string &path = as.size() ? as : f.path;
  lib([&] {
    if (s.reader) {
      sdf::InDataFile in(path);
      f.acquired(idx, me());
      // everything that closed sessions stored, up to the first torn one
      std::vector<const Rec *> want; std::string now_;
      { HostScope h; fs::get(f.path, &now_); size_t k = f.prior.size() ? 1 : 0; (void)k;
        for (int o : f.order) { const Session &q = f.all[o]; if (q.reader) continue; if (!q.closed) break; for (auto &r : q.recs) want.push_back(&r); } 
        if (f.prior.size() > 64) want.clear(); }
      if (hold) { HostScope h; sleep_ns(hold); }
      for (auto *r : want) { Val v = load(in, r->val.kind, r->name, false); if (!same(v, r->val)) violate("wrong-data", "a reader found a record that no session stored there"); }
      f.releasing(idx);
      in.close();
    } else {
      sdf::OutDataFile out(path, DF::SDF_SHARED);
      f.acquired(idx, me());
      for (auto &r : s.recs) { dump(out, r); if (hold) { HostScope h; sleep_ns(hold / s.recs.size()); } }
      f.releasing(idx);
      if (ec) out.close();
    }
  });
  f.release_done(idx);
}
}
SCENARIO(C05, fleet, 4) {
  heap_weather(); weather();
  cfg.switch_num = 1 + choose(4); cfg.switch_den = 4;
  cfg.time_limit = 20000 * SEC;
  Fleet f; f.path = flip(1, 4) ? "run/log.sdf" : "log.sdf"; fs::mkdir("/w/run", 0777);
  u32 start = choose(4);
  if (start == 1) { f.prior = header() + encode(gen_recs(3, 10)); fs::put(f.path, f.prior); }
  if (start == 2) fs::put(f.path, "");
  if (start == 3) { f.prior = header(); fs::put(f.path, f.prior); }
  if (flip(1, 3)) fs::put(f.path + ".lck", "", 0666, flip(1, 4) ? 1001 : 1000);   // left by a crashed process
  u32 np = 2 + small(3);
  u32 mood = choose(6);                                 // 0,1: calm; 2,3: kills; 4: stalls; 5: errors
  if (mood == 2 || mood == 3) { cfg.kills_left = 1 + choose(3); cfg.kill_num = 1; cfg.kill_den = 30 << choose(4); cfg.torn_kill = flip(1, 2); }
  if (mood == 4 || mood == 3) { cfg.stall_num = 1; cfg.stall_den = 40; cfg.stall_max = 30 * SEC; }
  if (mood == 5) { cfg.err_lock = {1, 12}; cfg.err_meta = {1, 20}; cfg.err_close = {1, 60}; if (flip(1, 2)) cfg.err_write = {1, 60}; cfg.err_open = {1, 40}; }
  u32 total = 0; bool aliases = flip(1, 2), threaded = flip(1, 3);
  for (u32 p = 0; p < np; p++) {
    u32 ns = 1 + small(3); std::vector<int> mine; std::vector<u8> ecs; std::vector<u64> holds, gaps;
    for (u32 s = 0; s < ns; s++) {
      Session x; x.proc = p; x.reader = f.prior.size() && flip(1, 5);
      if (!x.reader) x.recs = gen_recs(3, choose(8) == 7 ? 1500 : 12);
      mine.push_back((int)f.all.size()); f.all.push_back(x);
      ecs.push_back(flip(1, 2)); holds.push_back(flip(1, 3) ? choose(3000000) * 1000ull : 0); gaps.push_back(flip(1, 2) ? choose(2000000) * 1000ull : 0);
      total++;
    }
    bool nostdin = flip(1, 4);
    // some processes work in other directories or spell the name differently
    std::string as = f.path; const char *cwd = "/w";
    auto link_to = [](const std::string &target, const std::string &name) { if (!fs::inode_nofollow(name)) fs::symlink(target, name); return name; };
    if (aliases) switch (choose(9)) {
      case 0: cwd = "/w/run"; as = starts_with(f.path, "run/") ? f.path.substr(4) : "../" + f.path; break;
      case 1: as = "/w/" + f.path; if (flip(1, 2)) cwd = "/tmp"; break;
      case 2: as = "./" + f.path; break;
      case 3: as = "run/../" + f.path; break;
      case 4: as = link_to(f.path, "alias.sdf"); break;
      case 5: as = link_to(flip(1, 2) ? "/w/" + f.path : "../" + f.path, "run/other"); if (flip(1, 2)) { cwd = "/w/run"; as = "other"; } break;
      case 6: link_to(f.path, "alias.sdf"); as = link_to("./alias.sdf", "again.sdf"); break;
      case 7: as = link_to(flip(1, 2) ? "." : "/w", "here") + "/" + f.path; break;
      default: break;
    }
    // sessions of one program may be open in several of its threads
    u32 threads = threaded ? 1 + small((u32)mine.size()) : 1; auto left = std::make_shared<u32>(threads - 1);
    auto part = [&f, mine, ecs, holds, gaps, as, threads](u32 t) { for (size_t k = t; k < mine.size(); k += threads) { sleep_ns(gaps[k]); session(f, mine[k], ecs[k], holds[k], as); } };
    f.procs.push_back(spawn(fmt("worker%u", p), [part, nostdin, left] {
      if (nostdin) ::close(0);
      part(0);
      while (*left) sleep_ns(SEC / 10);
    }));
    for (u32 t = 1; t < threads; t++) spawn_thread(f.procs.back(), fmt("t%u", t), [part, t, left] { part(t); --*left; });
    f.procs.back()->cwd = cwd;
  }
  if (!run()) { if (mood == 5) harness_error("C05 mood 5 did not end"); violate("stuck", "some process never got the file"); }
  cfg.faults_on = false; cfg.kills_left = 0; cfg.stall_num = 0;
  for (Proc *p : f.procs) if (p->failed() && mood != 5) violate("needless-failure", "%s ended with %s (%s) although no call failed", p->name.c_str(), end_name(p->end), p->what.c_str());
  for (Proc *p : f.procs) if (p->end == End::Exception) violate("needless-failure", "%s ended with an exception: %s", p->name.c_str(), p->what.c_str());
  std::string b; fs::get(f.path, &b);
  if (!starts_with(b, f.prior)) violate("destroyed-data", "records that were there before are gone");
  std::set<std::pair<size_t, size_t>> bad;
  if (!explain(b, f, 0, f.prior.size(), bad)) {
    u32 c = 0; for (int o : f.order) c += f.all[o].closed && !f.all[o].reader;
    violate("interleaved-records", "the file (%zu bytes) is not one header followed by the records of its %u closed sessions, each contiguous, and prefixes of the interrupted ones", b.size(), c);
  }
  if (mood < 2) for (auto &s : f.all) if (!s.closed) violate("lost-session", "a session did not complete although nothing failed");
  nontrivial(total >= 2);
  sample(fmt("%u processes, %u sessions, mood %u: %zu opened", np, total, mood, f.order.size()));
}

SCENARIO(C06, contention, 4) {
  heap_weather(); weather();
  cfg.switch_num = 1 + choose(4); cfg.switch_den = 4;
  cfg.time_limit = 3000 * SEC;
  Fleet f; f.path = flip(1, 4) ? "run/log.sdf" : "log.sdf"; fs::mkdir("/w/run", 0777);
  if (flip(1, 2)) { f.prior = header(); fs::put(f.path, f.prior); }
  if (flip(1, 3)) fs::put(f.path + ".lck", "", 0666, flip(1, 4) ? 1001 : 1000);
  u32 np = 2 + small(3), mood = choose(4);
  if (mood == 1 || mood == 2) { cfg.kills_left = 1 + choose(3); cfg.kill_num = 1; cfg.kill_den = 30 << choose(4); cfg.torn_kill = flip(1, 2); }
  u64 faults_stop = 0;
  if (mood == 3) {
    cfg.err_lock = {1, 4}; cfg.err_meta = {1, 6}; faults_stop = (1 + choose(40)) * SEC; bool op = flip(1, 2);
    if (op) { cfg.err_open = {1, 6}; cfg.open_transient = true; }
    cfg.fault_filter = [&f](const char *, const std::string &p) { return p == f.path + ".lck"; };
    Proc *c = spawn("operator", [faults_stop] { sleep_ns(faults_stop); cfg.faults_on = false; }); c->immune = true;
  }
  u64 worst = 0; u32 total = 0; std::vector<u64> dead_at(np, 0);
  for (u32 p = 0; p < np; p++) {
    u32 ns = 1 + small(3); std::vector<int> mine; std::vector<u8> ecs; std::vector<u64> holds, gaps;
    for (u32 s = 0; s < ns; s++) {
      Session x; x.proc = p; x.reader = f.prior.size() && flip(1, 6);
      if (!x.reader) x.recs = gen_recs(2, 8);
      mine.push_back((int)f.all.size()); f.all.push_back(x);
      ecs.push_back(flip(1, 2)); holds.push_back(flip(1, 2) ? choose(20000000) * 1000ull : 0); gaps.push_back(flip(1, 2) ? choose(3000000) * 1000ull : 0);
      total++;
    }
    bool nostdin = flip(1, 4); unsigned um = pick(std::vector<unsigned>{022, 077, 0});
    Proc *q = spawn(fmt("worker%u", p), [&f, mine, ecs, holds, gaps, nostdin, um] {
      if (nostdin) ::close(0);
      for (size_t k = 0; k < mine.size(); k++) { sleep_ns(gaps[k]); session(f, mine[k], ecs[k], holds[k]); }
      HostScope h; if (fs::open_fds(me())) violate("descriptor-leak", "%zu descriptors are open after every session was closed", fs::open_fds(me()));
      if (me()->umask_ != um) violate("side-effect", "sessions changed the file creation mask of the program from %o to %o", um, me()->umask_);
    });
    q->umask_ = um; f.procs.push_back(q);
  }
  // the watcher looks every 100 ms whether somebody is kept waiting for a free file
  Proc *watch = spawn("watcher", [&] {
    u64 free_since = now(); std::vector<int> was(f.procs.size(), 1); size_t opened = 0;
    for (;;) {
      bool any = false, busy = f.holder >= 0 && f.holder_p->live(), asleep = true; (void)asleep;
      for (size_t k = 0; k < f.procs.size(); k++) { bool l = f.procs[k]->live(); if (l) any = true; if (was[k] && !l) { was[k] = 0; free_since = now(); } }
      if (!any) return;
      if (f.order.size() != opened) { opened = f.order.size(); free_since = now(); }
      if (busy || f.released > free_since) free_since = std::max(f.released, busy ? now() : 0);
      u64 ref = std::max(free_since, faults_stop);
      // gaps between the sessions of one process last up to 3 s; a waiter retries every second
      if (now() > ref && now() - ref > 9 * SEC) violate("kept-waiting", "nobody has the file since %.1f s, and yet a live process does not get it", (now() - ref) / 1e9);
      if (now() > ref) worst = std::max(worst, now() - ref);
      sleep_ns(SEC / 10);
    }
  });
  watch->immune = true;
  bool ok = run();
  if (!ok) violate("stuck", "a process waits forever for a file that nobody has");
  cfg.faults_on = false; cfg.kills_left = 0;
  bool calm = mood == 0;
  for (Proc *p : f.procs) if (p->failed()) violate("needless-failure", "%s ended with %s", p->name.c_str(), end_name(p->end));
  if (fs::locks_held()) violate("leftover-lock", "a lock is held although no process is alive");
  if (calm && fs::exists(f.path + ".lck")) violate("leftover-file", "the lock file is still there after every session was closed");
  // whatever happened, the next session gets the file at once and leaves nothing behind
  u64 took = 0;
  Proc *q = spawn("next", [&] {
    u64 t0 = now(); u64 ser = heap_serial(); (void)ser;
    lib([&] { sdf::OutDataFile out(f.path); { HostScope h; took = now() - t0; } out.dump(1.0, "x"); });
    HostScope h; if (fs::open_fds(me())) violate("descriptor-leak", "%zu descriptors are open after the session was closed", fs::open_fds(me()));
  });
  if (!run()) violate("stuck", "a session waits forever although no other process is alive");
  if (q->end != End::Returned) violate("needless-failure", "a session after the others ended with %s", end_name(q->end));
  if (took > 5 * SEC) violate("kept-waiting", "a lone session waited %.1f s", took / 1e9);
  if (fs::locks_held()) violate("leftover-lock", "a lock is held after every session was closed");
  if (fs::exists(f.path + ".lck")) violate("leftover-file", "the lock file is still there after the last session was closed");
  nontrivial(f.order.size() >= 2);
  sample(fmt("%u processes, %u sessions, mood %u: longest idle %.1f s", np, total, mood, worst / 1e9));
}
// A single waiter: the time between the end of the holder and the start of the waiter.
SCENARIO(C06, handover, 3) {
  heap_weather(); weather();
  cfg.switch_num = 1 + choose(4); cfg.switch_den = 4;
  cfg.time_limit = 2000 * SEC;
  std::string path = "log.sdf"; if (flip(1, 2)) fs::put(path, header());
  if (flip(1, 3)) fs::put(path + ".lck", "", 0666);
  u64 scale = 1; if (flip(1, 60)) { scale = 100; cfg.time_limit = 20000 * SEC; probe("file held for up to hours"); }
  bool kill = flip(1, 2); u64 hold = choose(60000000) * 1000ull * scale, when = choose(80000000) * 1000ull * scale; u64 freed = UINT64_MAX, got = 0, start = choose(3000000) * 1000ull;
  if (flip(1, 3)) { cfg.kills_left = 1; cfg.kill_num = 1; cfg.kill_den = 8 << choose(3); }
  std::vector<Rec> recs = gen_recs(4, 10);
  bool ec = flip(1, 2), rd = flip(1, 4) && fs::exists(path), throws = flip(1, 4), stays = flip(1, 2), wec = flip(1, 2);
  auto closed = [&] { HostScope x; if (fs::open_fds(me())) violate("descriptor-leak", "descriptors are open after close() has returned"); };
  Proc *h = spawn("holder", [&] {
    try {
      lib([&] { sdf::OutDataFile out(path); for (auto &r : recs) dump(out, r); { HostScope x; sleep_ns(hold); } if (throws) throw UserError(); if (ec) { out.close(); freed = now(); closed(); if (stays) { HostScope x; sleep_ns(300 * SEC); } } });
    } catch (UserError &) {}
    if (freed == UINT64_MAX) freed = now();
    if (flip(1, 2)) sleep_ns(200 * SEC);                       // lives on without the file
  });
  Proc *k = nullptr;
  if (kill) { k = spawn("killer", [&] { sleep_ns(when); if (freed == UINT64_MAX && h->live()) { kill_proc(h); freed = now(); } }); k->immune = true; }
  Proc *w = spawn("waiter", [&] {
    sleep_ns(start);
    lib([&] {
      if (rd) { sdf::InDataFile in(path); got = now(); if (wec) { in.close(); closed(); } }
      else { sdf::OutDataFile out(path); got = now(); out.dump(2.0, "w"); if (wec) { out.close(); closed(); } }
    });
    HostScope x; if (fs::open_fds(me())) violate("descriptor-leak", "descriptors are open after the session was closed");
  });
  w->immune = true;
  // overwrite and paranoid sessions do not wait for anybody
  u32 other = choose(3); u64 ostart = choose(40000000) * 1000ull; Proc *o = nullptr;
  if (other) { o = spawn("unshared", [&] {
    sleep_ns(ostart); u64 t0 = now();
    // on the same name only in paranoid mode: overwriting under a shared session is the user's choice
    lib([&] { sdf::OutDataFile out(other == 1 ? path : std::string("log2.sdf"), other == 1 ? DF::SDF_PARANOID : DF::SDF_OVERWRITE); if (now() - t0 > SEC / 2) violate("kept-waiting", "an unshared session waited %.1f s", (now() - t0) / 1e9); if (other == 1) throw UserError(); });
  }); o->immune = true; }
  if (other == 2 && flip(1, 2)) fs::put("log2.sdf.lck", "");
  if (!run()) violate("stuck", "the waiter never gets the file although its holder is gone");
  if (w->end != End::Returned) violate("needless-failure", "the waiter ended with %s (%s)", end_name(w->end), w->what.c_str());
  if (freed == UINT64_MAX && !h->live()) freed = h->ended;
  u64 ref = freed == UINT64_MAX ? start : std::max(freed, start);
  if (got > ref && got - ref > 5 * SEC) violate("kept-waiting", "the waiter got the file %.1f s after its holder was gone", (got - ref) / 1e9);
  if (fs::locks_held()) violate("leftover-lock", "a lock is still held");
  if (fs::exists(path + ".lck")) violate("leftover-file", "the lock file is still there");
  nontrivial(got > start + SEC / 2);
  if (got > start + SEC / 2) probe("handover after waiting");
  sample(fmt("holder %s at %.1f s, waiter since %.1f s got it at %.1f s", end_name(h->end), freed == UINT64_MAX ? -1.0 : freed / 1e9, start / 1e9, got / 1e9));
}
// Other users, other modes and a file that is removed or replaced under a session: nobody waits longer for it.
SCENARIO(C06, company, 3) {
  heap_weather(); weather();
  cfg.switch_num = 1 + choose(4); cfg.switch_den = 4; cfg.time_limit = 3000 * SEC;
  fs::mkdir("/w/run", 0777);
  const std::string path = "run/log.sdf";
  std::string prior = header() + encode(gen_recs(2, 6)); bool there = flip(3, 4); if (there) fs::put(path, prior, 0666, flip(1, 2) ? 1000 : 1001);
  bool users = there && flip(1, 2);               // without the file the first writer's file creation mask decides who may write
  if (flip(1, 4)) fs::put(path + ".lck", "", 0666, flip(1, 2) ? 1001 : 1000);
  u32 np = 2 + small(2); std::vector<Proc *> ps; std::vector<u8> st(np, 0); u64 worst = 0;   // st: 1 has the file, 2 had it
  if (flip(1, 2)) { cfg.kills_left = 1 + choose(2); cfg.kill_num = 1; cfg.kill_den = 8 << choose(4); }
  struct Plan { bool rd, ec, stays; u64 gap, hold; };
  for (u32 k = 0; k < np; k++) {
    Plan x{there && flip(1, 4), flip(1, 2), flip(1, 2), choose(4000000) * 1000ull, flip(1, 2) ? choose(30000000) * 1000ull : 0};
    std::vector<Rec> recs = gen_recs(2, 6); unsigned um = pick(std::vector<unsigned>{022, 077, 0});
    Proc *p = spawn(fmt("worker%u", k), [&, k, x, recs, um] {
      sleep_ns(x.gap);
      lib([&] {
        if (x.rd) { sdf::InDataFile in(path); { HostScope h; st[k] = 1; sleep_ns(x.hold); } if (x.ec) in.close(); }
        else { sdf::OutDataFile out(path); { HostScope h; st[k] = 1; } for (auto &r : recs) dump(out, r); { HostScope h; sleep_ns(x.hold); } if (x.ec) out.close(); }
      });
      HostScope h; st[k] = 2;
      if (fs::open_fds(me())) violate("descriptor-leak", "%zu descriptors are open after the session was closed", fs::open_fds(me()));
      if (me()->umask_ != um) violate("side-effect", "a session changed the file creation mask of the program from %o to %o", um, me()->umask_);
      if (x.stays) sleep_ns(400 * SEC);        // lives on without the file
    });
    p->umask_ = um; if (users) p->uid = 1000 + (int)choose(3);
    ps.push_back(p);
  }
  u32 ev = choose(4); u64 when = choose(20000000) * 1000ull, unshared = 0; const char *what = "nothing";
  // a program that overwrites, replaces or removes the file does so at once, whoever has a shared session
  if (ev) {
    what = ev == 1 ? "overwritten" : ev == 2 ? "replaced" : "removed";
    Proc *o = spawn("other", [&, ev] {
      sleep_ns(when); u64 t0 = now();
      if (ev == 3) lib([&] { sdf::delete_file(path); });
      else lib([&] { sdf::OutDataFile out(path, ev == 1 ? DF::SDF_OVERWRITE : DF::SDF_PARANOID); unshared = now() - t0; if (unshared > SEC / 2) violate("kept-waiting", "an unshared session waited %.1f s", unshared / 1e9); out.dump(1.0, "o"); out.close(); });
      HostScope h; if (fs::open_fds(me())) violate("descriptor-leak", "descriptors are open after an unshared session was closed");
      sleep_ns(400 * SEC);
    });
    o->immune = true; o->umask_ = 0; ps.push_back(o);
  }
  Proc *watch = spawn("watcher", [&] {
    u64 free_since = now();
    for (;;) {
      bool waiting = false, held = false, alive = false;
      for (u32 k = 0; k < np; k++) { bool l = ps[k]->live(); alive |= l; waiting |= l && st[k] == 0; held |= l && st[k] == 1; }
      if (!alive) return;
      if (held) free_since = now();
      if (waiting && now() - free_since > 9 * SEC) violate("kept-waiting", "nobody has had the file for %.1f s, and yet a live process does not get it", (now() - free_since) / 1e9);
      if (waiting) worst = std::max(worst, now() - free_since);
      sleep_ns(SEC / 10);
    }
  });
  watch->immune = true;
  if (!run()) violate("stuck", "a process waits forever for a file that nobody has");
  cfg.kills_left = 0;
  for (u32 k = 0; k < np; k++) if (ps[k]->failed() && !(ev && (ps[k]->end == End::Aborted))) violate("needless-failure", "%s ended with %s (%s)", ps[k]->name.c_str(), end_name(ps[k]->end), ps[k]->what.c_str());
  if (fs::locks_held()) violate("leftover-lock", "a lock is held although no process is alive");
  bool clean = true; for (Proc *p : ps) clean &= p->end == End::Returned;
  if (clean && fs::exists(path + ".lck")) violate("leftover-file", "the lock file is still there after every session was closed");
  u64 took = 0; int uid = users ? 1000 + (int)choose(3) : 1000; bool may = !fs::exists(path) || (fs::inode(path)->uid == uid ? (fs::inode(path)->mode & 0600) == 0600 : (fs::inode(path)->mode & 6) == 6);
  if (may) {
    Proc *q = spawn("next", [&] { u64 t0 = now(); lib([&] { sdf::OutDataFile out(path); { HostScope h; took = now() - t0; } out.dump(1.0, "x"); }); });
    q->uid = uid;
    if (!run()) violate("stuck", "a session waits forever although no other process is alive");
    if (q->end != End::Returned) violate("needless-failure", "a session after the others ended with %s", end_name(q->end));
    if (took > 5 * SEC) violate("kept-waiting", "a lone session waited %.1f s", took / 1e9);
    if (fs::exists(path + ".lck")) violate("leftover-file", "the lock file is still there after the last session was closed");
  }
  nontrivial();
  sample(fmt("%u processes%s, file %s: longest idle %.1f s", np, users ? " of several users" : "", what, worst / 1e9));
}
// Threads of one program: what a session needs from its process (the creation mask, descriptors) is as before.
SCENARIO(C06, threads, 1) {
  heap_weather(); weather(); cfg.switch_num = 1 + choose(4); cfg.switch_den = 4; cfg.time_limit = 3000 * SEC; cfg.bb_gap = flip(1, 2) ? 20 + choose(400) : 0; cfg.call_gap = flip(1, 3) ? 1 + small(30) : 0;
  struct Job { int kind; std::string path; std::vector<Rec> recs; bool ec; u64 gap, hold; };   // 0-2: modes of a session, 3: directory
  u32 nt = 2 + small(3); std::vector<std::vector<Job>> jobs(nt); std::map<std::string, const Job *> made; unsigned um = pick(std::vector<unsigned>{022, 077, 002, 0}); u32 left = nt, total = 0;
  bool common = flip(1, 3);
  for (u32 t = 0; t < nt; t++) for (u32 k = 0, n = 1 + small(3); k < n; k++) {
    Job j; j.kind = choose(8); j.kind = j.kind < 5 ? 0 : j.kind - 4; j.path = j.kind == 0 && common && flip(1, 2) ? "log.sdf" : fmt("f%u_%u", t, k); j.recs = gen_recs(2, 6); j.ec = flip(1, 2);
    j.gap = flip(1, 2) ? choose(2000000) * 1000ull : 0; j.hold = flip(1, 3) ? choose(3000000) * 1000ull : 0; jobs[t].push_back(j); total++;
  }
  for (auto &v : jobs) for (auto &j : v) made[j.path] = &j;
  Proc *p = spawn("program", [&] {
    while (left) sleep_ns(SEC / 20);
    if (fs::open_fds(me())) violate("descriptor-leak", "%zu descriptors are open after every session was closed", fs::open_fds(me()));
    if (me()->umask_ != um) violate("side-effect", "sessions in several threads changed the file creation mask of the program from %o to %o", um, me()->umask_);
  });
  p->umask_ = um;
  for (u32 t = 0; t < nt; t++) spawn_thread(p, fmt("t%u", t), [&, t] {
    for (auto &j : jobs[t]) {
      if (j.gap) sleep_ns(j.gap);
      lib([&] {
        if (j.kind == 3) { if (!sdf::make_directory(j.path)) violate("wrong-result", "a directory that was not there could not be made"); return; }
        sdf::OutDataFile out(j.path, j.kind == 0 ? DF::SDF_SHARED : j.kind == 1 ? DF::SDF_OVERWRITE : DF::SDF_PARANOID);
        for (auto &r : j.recs) dump(out, r);
        if (j.hold) { HostScope h; sleep_ns(j.hold); }
        if (j.ec) out.close();
      });
    }
    left--;
  });
  if (!run()) violate("stuck", "a session waits forever although no other is open");
  cfg.bb_gap = cfg.call_gap = 0;
  if (p->end != End::Returned) violate("needless-failure", "the program ended with %s (%s)", end_name(p->end), p->what.c_str());
  for (auto &m : made) {
    auto i = fs::inode(m.first); if (!i) violate("lost-data", "%s is not there", m.first.c_str());
    unsigned want = (m.second->kind == 3 ? 0777 : 0666) & ~um, got = i->mode & 0777;
    if (m.second->kind == 3) { if (got & um) violate("side-effect", "directory %s has mode %o in spite of the mask %o", m.first.c_str(), got, um); continue; }
    if (got != want) violate("side-effect", "%s was created with mode %o instead of %o", m.first.c_str(), got, want);
    if (m.first == "log.sdf") continue;
    std::string b; fs::get(m.first, &b); if (b != header() + encode(m.second->recs)) violate("wrong-data", "%s does not hold the records of its session", m.first.c_str());
    if (fs::exists(m.first + ".lck")) violate("leftover-file", "the lock file of %s is still there", m.first.c_str());
  }
  nontrivial(); sample(fmt("%u threads, %u sessions, mask %03o", nt, total, um));
}
// Sessions that cannot work say so instead of waiting.
SCENARIO(C06, hopeless, 1) {
  heap_weather(); weather(); cfg.time_limit = 100 * SEC;
  std::string path = "log.sdf"; const char *what = ""; int mode = pick(std::vector<int>{DF::SDF_SHARED, DF::SDF_OVERWRITE, DF::SDF_PARANOID}); bool rd = flip(1, 3);
  switch (choose(4)) {
  case 0: what = "missing directory"; path = "nowhere/log.sdf"; break;
  case 1: what = "directory under a file"; fs::put("plain", "x"); path = "plain/log.sdf"; break;
  case 2: what = "read-only directory"; fs::mkdir("/w/ro", 0555); path = "ro/log.sdf"; break;
  case 3: what = "name too long"; path = std::string(253, 'n'); break;
  }
  if (rd) mode = DF::SDF_SHARED;
  Proc *p = spawn("program", [&] { lib([&] { if (rd) { sdf::InDataFile in(path); } else { sdf::OutDataFile out(path, mode); out.dump(1.0, "x"); out.close(); } }); });
  bool done = run();
  if (!done) violate("kept-waiting", "a session in a %s waits forever", what);
  if (p->end == End::Returned && !fs::exists(path)) violate("not-reported", "a session in a %s seemed to succeed", what);
  if (now() > 5 * SEC) violate("kept-waiting", "a session in a %s took %.1f s to fail", what, now() / 1e9);
  nontrivial(); sample(fmt("%s: %s", what, end_name(p->end)));
}

//----------------------------------------------------------------------- C07
namespace {
typedef std::map<std::string, std::string> Tree;
void walk(Tree &t, const std::string &dir) {
  for (auto &e : fs::list(dir)) {
    std::string p = dir + "/" + e; auto i = fs::inode(p);
    t[p] = fmt("%d:%o:", (int)i->type, i->mode) + i->data;
    if (i->type == Inode::Dir) walk(t, p);
  }
}
Tree tree() { Tree t; walk(t, "/w"); return t; }
std::string abs_(const std::string &p) { return p[0] == '/' ? p : "/w/" + p; }
const char *make_entry(const std::string &p, u32 kind, int mode = 0644) {
  switch (kind) {
  case 0: return "nothing";
  case 1: fs::put(p, fmt("content of %s %u", p.c_str(), choose(1000)), mode); return "file";
  case 2: fs::mkdir(abs_(p)); return "directory";
  case 3: fs::mknod(p, Inode::Block); return "block device";
  case 4: fs::mknod(p, Inode::Char); return "character device";
  case 5: fs::mknod(p, Inode::Fifo); return "fifo";
  case 6: fs::mknod(p, Inode::Socket); return "socket";
  case 7: fs::put(p, "", mode); return "empty file";
  default: fs::mkdir(abs_(p)); fs::put(p + "/inside", "x"); return "full directory";
  }
}
bool is_dir(const std::string &p) { auto i = fs::inode(p); return i && i->type == Inode::Dir; }
void only_differs(const Tree &a, const Tree &b, const std::set<std::string> &allowed, const char *what) {
  auto under = [&](const std::string &p) { for (auto &q : allowed) if (p == abs_(q) || starts_with(p, abs_(q) + "/")) return true; return false; };
  for (auto &x : a) if (!under(x.first)) { auto it = b.find(x.first); if (it == b.end() || it->second != x.second) violate("bystander-changed", "%s changed or removed %s", what, x.first.c_str()); }
  for (auto &x : b) if (!under(x.first) && !a.count(x.first)) violate("bystander-changed", "%s created %s", what, x.first.c_str());
}
}
SCENARIO(C07, rename, 4) {
  heap_weather();
  fs::mkdir("/w/sub"); fs::put("bystander", "b"); fs::put("sub/other", "o");
  static const char *srcs[] = {"a", "sub/a"}, *dsts[] = {"b", "sub/b", "nowhere/b", "ro/b", "a"};
  fs::mkdir("/w/ro", 0555);
  std::string src = srcs[choose(2)], dst = dsts[choose(7) % 5]; if (dst == "a" && src != "a") dst = "sub/b";
  static const int modes[] = {0644, 0600, 0444, 0000, 0200};
  const char *sk = make_entry(src, flip(5, 6) ? 1 : choose(9), modes[choose(5)]), *dk = dst == src ? "itself" : starts_with(dst, "nowhere") || starts_with(dst, "ro") ? "nothing" : make_entry(dst, flip(1, 2) ? 1 : flip(1, 3) ? 0 : choose(9), modes[choose(5)]);
  bool overwrite = flip(2, 3); bool by_default = overwrite && flip(1, 2);
  std::string olds, oldd; bool sreg = fs::get(src, &olds), dreg = fs::get(dst, &oldd); bool sthere = fs::exists(src), dthere = fs::exists(dst);
  u32 trouble = choose(4); u32 seen = 0, k = 1 + choose(4); u64 f0 = faults();
  if (trouble == 1) { cfg.kills_left = 1; cfg.kill_num = 1; cfg.kill_den = 2 + choose(3); }
  if (trouble >= 2) { cfg.err_meta = cfg.err_open = cfg.err_write = cfg.err_close = cfg.err_read = {1, 1}; bool sticky = trouble == 3; cfg.fault_filter = [&seen, k, sticky](const char *, const std::string &) { ++seen; return sticky ? seen >= k : seen == k; }; }
  Tree before = tree(); std::string seenby;
  cfg.switch_num = 1; cfg.switch_den = 2;
  auto look = [&] {
    std::string d; bool there = fs::get(dst, &d);
    if (dreg && !fs::exists(dst)) violate("not-atomic", "while %s is renamed over %s there is no file under the second name", src.c_str(), dst.c_str());
    if (there && !(dreg && d == oldd) && !(sreg && d == olds)) violate("not-atomic", "the destination shows %zu bytes that are neither its old nor the new content", d.size());
    if (sreg && !fs::exists(src)) { std::string x; if (!fs::get(dst, &x) || x != olds) violate("destroyed-data", "the source is gone before the destination has its content"); }
    if (!overwrite && dthere) { Tree t = tree(); if (t[abs_(dst)] != before[abs_(dst)]) violate("overwritten", "a rename that must not overwrite changed the destination"); }
  };
  cfg.on_fs_change = look;
  int res = -1;
  Proc *p = spawn("program", [&] { bool r = lib([&] { return by_default ? sdf::rename_file(src, dst) : sdf::rename_file(src, dst, overwrite); }); res = r; });
  Proc *o = spawn("observer", [&] { for (int i = 0; i < 6; i++) { look(); yield(); } }); o->immune = true;
  if (!run()) violate("stuck", "rename_file never ended");
  cfg.on_fs_change = nullptr; cfg.faults_on = false;
  Tree after = tree(); bool hit = faults() != f0 || p->end == End::Killed;
  only_differs(before, after, {src, dst}, "rename_file");
  look();
  if (res == 1 && p->end == End::Returned) {
    std::string d; bool there = fs::exists(dst);
    if (!sthere) violate("wrong-result", "renaming a file that does not exist was reported as done");
    if (!there || (sreg && (!fs::get(dst, &d) || d != olds))) violate("wrong-result", "a rename that was reported as done did not put the content under the new name");
    if (src != dst && fs::exists(src)) violate("wrong-result", "a rename that was reported as done left the old name");
    if (!overwrite && dthere) violate("overwritten", "a rename that must not overwrite succeeded over a %s", dk);
  } else if (p->end != End::Killed) {
    if (before != after) violate("destroyed-data", "rename_file(%s, %s) over a %s failed and changed the directory", sk, dst.c_str(), dk);
    bool possible = sreg && (!dthere || (dreg && overwrite)) && !starts_with(dst, "nowhere") && !starts_with(dst, "ro");
    if (possible && !hit) violate("wrong-result", "renaming a %s to a name that is %s %s although no call failed", sk, dk, p->end == End::Returned ? "returned false" : "ended the program");
  }
  if (hit && res != 1) probe("rename interrupted or failed");
  nontrivial(sthere);
  sample(fmt("rename %s over %s%s: %s", sk, dk, overwrite ? "" : ", not to overwrite", res == 1 ? "done" : res == 0 ? "false" : end_name(p->end)));
}
SCENARIO(C07, queries, 3) {
  heap_weather();
  fs::put("bystander", "b"); fs::mkdir("/w/sub"); fs::put("sub/x", "x");
  std::string p = pick(std::vector<std::string>{"e", "sub/e", "./e", "sub/../e", "/w/e"}); u32 kind = choose(9); const char *k = make_entry(p, kind);
  Tree before = tree(); u32 op = choose(4); int res = -1; bool fails = flip(1, 5); if (fails) cfg.err_meta = {1, 1};
  int mode = pick(std::vector<int>{0777, 0755, 0700, 0777}); bool def = flip(1, 2);
  std::string dirarg = p + (kind == 2 && flip(1, 4) ? "/" : "");
  Proc *q = spawn("program", [&] { res = lib([&] {
    switch (op) { case 0: return sdf::isdir(dirarg); case 1: return sdf::file_exists(p); case 2: return sdf::delete_file(p); default: return def ? sdf::make_directory(p) : sdf::make_directory(p, mode); } }); });
  if (!run()) violate("stuck", "a file utility never ended");
  cfg.faults_on = false;
  Tree after = tree(); std::string pa = abs_(pick(std::vector<std::string>{p})); bool sub = starts_with(p, "sub/e");
  std::string target = sub ? "sub/e" : "e";
  only_differs(before, after, op < 2 ? std::set<std::string>{} : std::set<std::string>{target}, "a file utility");
  bool isfile = kind && kind != 2 && kind != 8;
  if (q->end != End::Returned) violate("wrong-result", "a file utility ended the program on a %s", k);
  switch (op) {
  case 0: if (res == 1 && (kind != 2 && kind != 8)) violate("wrong-result", "isdir() holds for a %s", k);
    if (res == 0 && (kind == 2 || kind == 8) && !fails) violate("wrong-result", "isdir() does not hold for a directory"); break;
  case 1: if (res == 1 && kind == 0) violate("wrong-result", "file_exists() holds for nothing");
    if (res == 0 && isfile && !fails) violate("wrong-result", "file_exists() does not hold for an accessible %s", k);
    break;
  case 2: if (res == 1 && fs::exists(p)) violate("wrong-result", "delete_file() was reported as done, but the %s is still there", k);
    if (res == 1 && kind == 0) violate("wrong-result", "deleting nothing was reported as done");
    if (res == 0 && before != after) violate("wrong-result", "delete_file() was reported as failed, but the %s is gone", k);
    if (res == 0 && isfile && !fails) violate("wrong-result", "deleting a %s failed", k);
    if (res == 1 && (kind == 2 || kind == 8)) violate("destroyed-data", "delete_file() removed a directory");
    if (kind == 8 && before != after) violate("destroyed-data", "delete_file() emptied a directory"); break;
  case 3: if (res == 1 && (kind || !is_dir(p))) violate("wrong-result", "make_directory() over a %s was reported as done", k);
    if (res == 0 && before != after) violate("wrong-result", "make_directory() was reported as failed, but changed the tree");
    if (res == 0 && kind == 0 && !fails) violate("wrong-result", "make_directory() failed on a free name");
    if (res == 1 && (fs::inode(p)->mode & 0777) != ((def ? 0777 : mode) & ~022)) violate("wrong-result", "make_directory() gave the directory mode %o", fs::inode(p)->mode); break;
  }
  nontrivial();
  static const char *on[] = {"isdir", "file_exists", "delete_file", "make_directory"};
  sample(fmt("%s on %s: %d", on[op], k, res));
}
// Names that are symbolic links to something, to nothing, or to another link.
SCENARIO(C07, links, 1) {
  heap_weather();
  fs::put("bystander", "b"); fs::mkdir("/w/sub"); fs::put("sub/x", "x");
  static const u32 kinds[] = {1, 0, 2, 8, 7}; u32 kind = kinds[choose(5)]; std::string t = flip(1, 2) ? "t" : "sub/t"; const char *k = make_entry(t, kind);
  bool chain = flip(1, 4), abs = flip(1, 3); if (chain) { fs::symlink(abs ? "/w/" + t : t, "/w/m"); fs::symlink("m", "/w/l"); } else fs::symlink(abs ? "/w/" + t : t, "/w/l");
  const bool dir = kind == 2 || kind == 8, file = kind == 1 || kind == 7; u32 op = choose(6); bool overwrite = flip(2, 3); fs::put("a", "renamed"); std::string l = flip(1, 2) ? "l" : "/w/l";
  auto state = [&](const std::string &n) { auto i = fs::inode(n); return i ? fmt("%d:%o:", (int)i->type, i->mode) + i->data + (fs::exists(n + "/inside") ? "+" : "") : std::string("nothing"); };
  const std::string was = state(t); int res = -1; std::string old; fs::get(t, &old);
  cfg.switch_num = 1; cfg.switch_den = 2; if (op == 4 && flip(1, 3)) { cfg.kills_left = 1; cfg.kill_num = 1; cfg.kill_den = 2 + choose(3); }
  auto look = [&] { std::string d; bool there = fs::get("l", &d); if (op == 4 && file && !there) violate("not-atomic", "while a file is renamed over a link nothing has the second name"); if (op == 4 && there && d != "renamed" && !(file && d == old)) violate("not-atomic", "the destination shows neither its old nor the new content"); };
  cfg.on_fs_change = look;
  Proc *q = spawn("program", [&] { res = lib([&] {
    switch (op) { case 0: return sdf::isdir(l); case 1: return sdf::file_exists(l); case 2: return sdf::delete_file(l); case 3: return sdf::make_directory(l); case 4: return sdf::rename_file("a", l, overwrite); default: return sdf::rename_file(l, "new", overwrite); } }); });
  if (!run()) violate("stuck", "a file utility never ended");
  cfg.on_fs_change = nullptr; look(); std::string d; const bool gone = !fs::inode_nofollow("l");
  if (!fs::exists("bystander") || !fs::exists("sub/x")) violate("bystander-changed", "a file utility removed another file");
  if (state(t) != was && !(op == 4 && file && fs::get(t, &d) && d == "renamed" && overwrite) && !(op == 3 && kind == 0 && res == 1)) violate("bystander-changed", "a file utility on a link to a %s changed that: %s", k, state(t).c_str());
  if (q->end != End::Returned && op < 4) violate("wrong-result", "a file utility ended the program on a link to a %s", k);
  if (op != 4 && op != 5 && op != 2 && gone) violate("destroyed-data", "the link is gone");
  switch (op) {
  case 0: if (res != dir) violate("wrong-result", "isdir() answers %d for a link to a %s", res, k); break;
  case 1: if ((file && res != 1) || (kind == 0 && res != 0)) violate("wrong-result", "file_exists() answers %d for a link to a %s", res, k); break;
  case 2: if (res != gone) violate("wrong-result", "delete_file() answers %d for a link to a %s", res, k); if (file && !res) violate("wrong-result", "a link to a file was not deleted"); break;
  case 3: if (res && (kind || !is_dir("l"))) violate("wrong-result", "make_directory() over a link to a %s was reported as done", k); break;
  case 4: if (!overwrite && kind && res == 1) violate("overwritten", "a rename that must not overwrite succeeded over a link to a %s", k);
    if (res == 1 && (fs::exists("a") || !fs::get("l", &d) || d != "renamed")) violate("wrong-result", "a rename over a link to a %s that was reported as done is not", k);
    if (res != 1 && q->end != End::Killed && (!fs::exists("a") || gone)) violate("destroyed-data", "a rename over a link failed and changed the directory");
    if (res != 1 && q->end != End::Killed && overwrite && file) violate("wrong-result", "renaming a file over a link to a %s failed", k); break;
  default: if (res == 1 && (!gone || !fs::inode_nofollow("new") || (file && (!fs::get("new", &d) || d != old)))) violate("wrong-result", "renaming a link to a %s that was reported as done is not", k);
    if (res != 1 && gone) violate("destroyed-data", "renaming a link failed and it is gone"); if (res != 1 && file) violate("wrong-result", "renaming a link to a %s failed", k); break;
  }
  nontrivial(); static const char *on[] = {"isdir", "file_exists", "delete_file", "make_directory", "rename over", "rename"};
  sample(fmt("%s on a link to a %s: %d", on[op], k, res));
}
SCENARIO(C07, mkdir_race, 2) {
  heap_weather();
  cfg.switch_num = 1 + choose(3); cfg.switch_den = 3;
  u32 np = 2 + choose(3), wins = 0, ok = 0; bool kills = flip(1, 3);
  if (kills) { cfg.kills_left = 1; cfg.kill_num = 1; cfg.kill_den = 4; }
  bool fileops = flip(1, 3);                       // instead: deletions of one file race
  if (fileops) fs::put("victim", "v");
  std::vector<Proc *> ps;
  for (u32 k = 0; k < np; k++) ps.push_back(spawn(fmt("p%u", k), [&] {
    bool r = lib([&] { return fileops ? sdf::delete_file("victim") : sdf::make_directory("shared"); });
    if (r) wins++;
    if (!fileops && !sdf::isdir("shared")) violate("wrong-result", "after make_directory() the directory is not there");
    ok++;
  }));
  if (!run()) violate("stuck", "make_directory never ended");
  cfg.kills_left = 0; u32 killed = 0; for (Proc *p : ps) killed += p->end == End::Killed;
  if (wins > 1) violate("wrong-result", "%u of %u processes were told that they %s", wins, np, fileops ? "deleted the file" : "created the directory");
  if (wins == 0 && !killed) violate("wrong-result", "none of %u processes was told that it %s", np, fileops ? "deleted the file" : "created the directory");
  if (!fileops && ok && !is_dir("shared")) violate("wrong-result", "the directory does not exist");
  if (fileops && ok && fs::exists("victim")) violate("wrong-result", "the file still exists");
  nontrivial(); sample(fmt("%u processes race: %u told, %u killed", np, wins, killed));
}
// Renames over one destination by several processes: the last one wins, nothing else is ever visible.
SCENARIO(C07, rename_race, 2) {
  heap_weather();
  cfg.switch_num = 1 + choose(3); cfg.switch_den = 3;
  u32 np = 2 + choose(3); std::set<std::string> allowed; bool existed = flip(2, 3);
  if (existed) { fs::put("dest", "old"); allowed.insert("old"); }
  bool kills = flip(1, 3); if (kills) { cfg.kills_left = 1; cfg.kill_num = 1; cfg.kill_den = 4; }
  std::vector<Proc *> ps; std::vector<int> res(np, -1); bool ever = existed;
  for (u32 k = 0; k < np; k++) { std::string c = fmt("content %u", k); fs::put(fmt("src%u", k), c); allowed.insert(c); }
  auto look = [&] { std::string d; bool t = fs::get("dest", &d); if (t) ever = true; if (!t && ever) violate("not-atomic", "no file under the destination name while it is replaced"); if (t && !allowed.count(d)) violate("not-atomic", "the destination shows something else: %zu bytes", d.size()); };
  cfg.on_fs_change = look;
  for (u32 k = 0; k < np; k++) ps.push_back(spawn(fmt("p%u", k), [&, k] { res[k] = lib([&] { return sdf::rename_file(fmt("src%u", k), "dest"); }); }));
  Proc *r = spawn("reader", [&] { for (int i = 0; i < 8; i++) { if (existed && !sdf::file_exists("dest")) violate("not-atomic", "a reader does not find the destination"); yield(); } }); r->immune = true;
  if (!run()) violate("stuck", "rename_file never ended");
  cfg.on_fs_change = nullptr; cfg.kills_left = 0; look();
  for (u32 k = 0; k < np; k++) {
    bool src = fs::exists(fmt("src%u", k));
    if (res[k] == 1 && src) violate("wrong-result", "a completed rename left the source");
    if (res[k] != 1 && ps[k]->end != End::Killed) violate("wrong-result", "a rename over an existing file failed though no call failed");
  }
  nontrivial(); sample(fmt("%u renames race", np));
}
