// C01: what a session stored is what any later session reads back.
#include "sdfmodel.h"
using namespace sdfm;

namespace {
struct File { std::string path; std::vector<Rec> recs; bool exists = false; };

void writer(File &f, int flags, const std::vector<Rec> &recs, bool explicit_close, bool twice) {
  lib([&] {
    sdf::OutDataFile out(f.path, flags);
    for (auto &r : recs) dump(out, r);
    if (explicit_close) out.close();
    if (twice) out.close();
  });
}
void reader(const File &f, const std::vector<Rec> &recs, u32 upto, const std::vector<u8> &anon, const std::vector<u8> &dirty, bool close) {
  lib([&] {
    sdf::InDataFile in(f.path);
    for (u32 k = 0; k < upto; k++) {
      const Rec &r = recs[k];
      Val v = load(in, r.val.kind, anon[k] ? std::string() : r.name, dirty[k]);
      if (!same(v, r.val)) violate("wrong-data", "record %u of %s: %s came back different", k, f.path.c_str(), describe(r).c_str());
      count("records read back");
    }
    if (close) in.close();
  });
}
void check_proc(Proc *p, const char *what) {
  if (p->end != End::Returned) violate("session-failed", "%s ended with %s (%s) although every I/O call succeeded", what, end_name(p->end), p->what.c_str());
}
}

SCENARIO(C01, history, 3) {
  heap_weather(); weather();
  cfg.switch_num = choose(3); cfg.switch_den = 4;
  std::vector<File> files(1 + small(3));
  const char *names[] = {"data.sdf", "sub/deep.dat", "noext"};
  fs::mkdir("/w/sub"); std::string desc;
  for (size_t k = 0; k < files.size(); k++) { files[k].path = names[k]; if (flip(1, 6)) { fs::put(names[k], ""); desc += "an empty file "; } }
  u32 n = 1 + small(7); u64 total = 0;
  for (u32 s = 0; s < n; s++) {
    // One concurrent round: distinct files are written at the same time by distinct processes.
    std::vector<size_t> use; for (size_t k = 0; k < files.size(); k++) if (use.empty() || flip(1, 2)) use.push_back((k + s) % files.size());
    std::sort(use.begin(), use.end()); use.erase(std::unique(use.begin(), use.end()), use.end());
    std::vector<Proc *> ps; 
    for (size_t k : use) {
      File &f = files[k];
      static const int modes[] = {sdf::DataFile::SDF_SHARED, sdf::DataFile::SDF_OVERWRITE, sdf::DataFile::SDF_PARANOID};
      int mode = modes[choose(3)];
      std::vector<Rec> recs; u32 nr = choose(300) == 299 ? 200 + choose(100) : small(7);
      u32 maxelem = nr > 7 ? 6 : choose(1500) == 1499 ? 150000 : choose(12) == 11 ? 6000 : choose(4) == 3 ? 600 : 24;
      for (u32 i = 0; i < nr; i++) { Rec r; r.name = gen_name(); r.val = gen_val(maxelem); recs.push_back(r); }
      bool ec = flip(1, 2), tw = ec && flip(1, 4);
      if (mode != sdf::DataFile::SDF_SHARED) f.recs.clear();
      f.recs.insert(f.recs.end(), recs.begin(), recs.end()); f.exists = true; total += recs.size();
      desc += fmt("%s:%d:%zu ", f.path.c_str(), mode, recs.size());
      ps.push_back(spawn(fmt("writer%u.%zu", s, k), [&f, mode, recs, ec, tw] { writer(f, mode, recs, ec, tw); }));
    }
    if (!run()) violate("stuck", "a writer never finished although no other process uses its file");
    for (Proc *p : ps) check_proc(p, "a writer");
    for (auto &f : files) if (f.exists) {
      std::string b;
      if (!fs::get(f.path, &b)) violate("missing-file", "%s does not exist after its session", f.path.c_str());
      if (b != header() + encode(f.recs)) violate("wrong-bytes", "%s does not hold the layout of its %zu records (%zu bytes, %zu expected)", f.path.c_str(), f.recs.size(), b.size(), encode(f.recs).size() + 64);
    }
    if (flip(2, 3)) {
      std::vector<Proc *> rs; u32 nread = 1 + choose(2);
      for (u32 i = 0; i < nread; i++) {
        std::vector<File *> ex; for (auto &f : files) if (f.exists) ex.push_back(&f);
        File *f = ex[choose((u32)ex.size())];
        u32 upto = flip(1, 4) ? choose((u32)f->recs.size() + 1) : (u32)f->recs.size();
        std::vector<u8> an, di; bool cl = flip(1, 2); for (u32 k = 0; k < upto; k++) { an.push_back(flip(1, 3)); di.push_back(flip(1, 4)); }
        rs.push_back(spawn(fmt("reader%u.%u", s, i), [f, upto, an, di, cl] { reader(*f, f->recs, upto, an, di, cl); }));
      }
      if (!run()) violate("stuck", "a reader never finished");
      for (Proc *p : rs) check_proc(p, "a reader");
    }
  }
  // Nothing but the data files (and possibly lock files) may be left.
  for (const char *d : {"/w", "/w/sub"}) for (auto &e : fs::list(d)) {
    std::string p = std::string(d) == "/w" ? e : "sub/" + e; bool known = e == "sub";
    for (auto &f : files) if (f.path == p || f.path + ".lck" == p) known = true;
    if (!known) violate("leftover-file", "%s was left behind after every session was closed", p.c_str());
  }
  if (fs::locks_held()) violate("leftover-lock", "a lock is still held after every session was closed");
  nontrivial(total >= 2);
  sample(desc);
}

// Many sessions in one long-lived process: no descriptor, lock or memory is lost between them.
SCENARIO(C01, longlived, 1) {
  heap_weather(); weather();
  File f; f.path = "log.sdf";
  u32 n = choose(200) == 199 ? 300 + choose(800) : 3 + choose(6); bool many = n > 8;
  std::vector<std::vector<Rec>> all(n); std::vector<int> modes(n);
  for (u32 s = 0; s < n; s++) {
    modes[s] = s == 0 ? sdf::DataFile::SDF_OVERWRITE : sdf::DataFile::SDF_SHARED;
    u32 nr = 1 + (many ? 0 : small(4));
    for (u32 i = 0; i < nr; i++) { Rec r; r.name = gen_name(); r.val = gen_val(many ? 2 : 20); all[s].push_back(r); }
  }
  u64 base_blocks = 0;
  Proc *p = spawn("service", [&] {
    u64 last = 0;
    for (u32 s = 0; s < n; s++) {
      u64 ser = heap_serial();
      writer(f, modes[s], all[s], s % 2, false);
      { HostScope h; f.recs.insert(f.recs.end(), all[s].begin(), all[s].end()); }
      std::vector<u8> no(f.recs.size(), 0);
      if (!many || s % 100 == 99 || s + 1 == n) reader(f, f.recs, (u32)f.recs.size(), no, no, s % 3 == 0);
      if (fs::open_fds(me())) violate("descriptor-leak", "%zu descriptors remain open after session %u was closed", fs::open_fds(me()), s);
      u64 live = heap_live(me()).live_blocks;
      if (s >= 2 && live > last && heap_leaked_since(me(), ser)) { count("heap growth"); base_blocks++; }
      last = live;
    }
  });
  if (!run()) violate("stuck", "a single process waits for its own lock");
  check_proc(p, "the service");
  if (base_blocks >= n - 2) violate("memory-leak", "every session of a long-lived process leaves memory behind");
  nontrivial();
  sample(fmt("%u sessions in one process", n));
}
