#include "fs.h"
#include "internal.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <unistd.h>
#include <utime.h>

namespace sim {
Wall wall;
namespace fs { Urandom urandom; }
static std::shared_ptr<Inode> root;
static u64 next_ino;
static const int MAXFD = 256;

static std::shared_ptr<Inode> new_inode(Inode::Type t, int mode, int uid) {
  auto i = std::make_shared<Inode>();
  i->type = t; i->mode = mode; i->uid = uid; i->num = ++next_ino; i->mtime = G.now;
  return i;
}
static void mutated() {
  G.fs_mut++;
  if (cfg.on_fs_change && !G.violated) { HostScope h; cfg.on_fs_change(); }
}
OFD::~OFD() {
  if (ino && lock) {
    auto &v = ino->lockers;
    for (size_t i = 0; i < v.size(); i++) if (v[i] == this) { v.erase(v.begin() + i); break; }
    wake_all(ino.get());
  }
}
//------------------------------------------------------------------------ paths
static std::string host_path(const std::string &p) { return p.empty() || p[0] == '/' ? p : "/w/" + p; }
static std::vector<std::string> split(const std::string &p) {
  std::vector<std::string> v; std::string c;
  std::string full = (p.size() && p[0] == '/') ? p : (me() ? me()->cwd : std::string("/w")) + "/" + p;
  for (char ch : full) { if (ch == '/') { if (c.size()) v.push_back(c); c.clear(); } else c += ch; }
  if (c.size()) v.push_back(c);
  std::vector<std::string> o;
  for (auto &s : v) { if (s == ".") continue; if (s == "..") { if (o.size()) o.pop_back(); continue; } o.push_back(s); }
  return o;
}
static bool perm(const Inode &i, int want /*rwx bits*/, int uid) {
  int m = (i.uid == uid) ? (i.mode >> 6) & 7 : i.mode & 7;
  return (m & want) == want;
}
static int cur_uid() { return me() ? me()->uid : 0; }
static bool have_links;
// The name without symbolic links, as far as it exists; `last`: also follow one in the last place.
static int canon(const std::string &p, bool last, std::string &out) {
  out = p; if (!have_links || p.empty()) return 0;
  auto join = [](const std::vector<std::string> &v, size_t a, size_t b) { std::string s; for (; a < b; a++) s += "/" + v[a]; return s; };
  auto v = split(p);
  for (int n = 0; n < 40; n++) {
    std::shared_ptr<Inode> cur = root; size_t i = 0; bool again = false;
    for (; i < v.size() && cur->type == Inode::Dir; i++) {
      auto it = cur->ents.find(v[i]); if (it == cur->ents.end()) break;
      if (it->second->type == Inode::Link && (i + 1 < v.size() || last)) {
        const std::string &t = it->second->data, rest = join(v, i + 1, v.size());
        v = split(t[0] == '/' ? t + rest : join(v, 0, i) + "/" + t + rest); again = true; break;
      }
      cur = it->second;
    }
    if (!again) { out = join(v, 0, v.size()); if (out.empty()) out = "/"; if (p.back() == '/') out += "/"; return 0; }
  }
  return ELOOP;
}
// Find the parent directory; errno-style result.
static int find_parent(const std::string &name, std::shared_ptr<Inode> &dir, std::string &leaf, bool follow = false) {
  std::string p; if (int e = canon(name, follow, p)) return e;
  if (p.empty()) return ENOENT;
  auto v = split(p);
  dir = root; leaf.clear();
  if (v.empty()) return 0;
  for (size_t i = 0; i + 1 < v.size(); i++) {
    if (dir->type != Inode::Dir) return ENOTDIR;
    if (cur_uid() && !perm(*dir, 1, cur_uid())) return EACCES;
    auto it = dir->ents.find(v[i]);
    if (it == dir->ents.end()) return ENOENT;
    dir = it->second;
  }
  if (dir->type != Inode::Dir) return ENOTDIR;
  if (cur_uid() && !perm(*dir, 1, cur_uid())) return EACCES;
  leaf = v.back();
  if (leaf.size() > 255) return ENAMETOOLONG;
  return 0;
}
static int find(const std::string &p, std::shared_ptr<Inode> &out, bool follow = true) {
  std::shared_ptr<Inode> d; std::string leaf;
  int e = find_parent(p, d, leaf, follow);
  if (e) return e;
  if (leaf.empty()) { out = d; return 0; }
  auto it = d->ents.find(leaf);
  if (it == d->ents.end()) return ENOENT;
  out = it->second;
  if (p.size() && p.back() == '/' && out->type != Inode::Dir) return ENOTDIR;
  return 0;
}
//---------------------------------------------------------------------- host API
namespace fs {
void mkdir(const std::string &path, int mode, int uid) {
  std::shared_ptr<Inode> d; std::string leaf;
  if (find_parent(host_path(path), d, leaf) || leaf.empty() || d->ents.count(leaf)) return;
  auto i = new_inode(Inode::Dir, mode, uid); i->nlink = 2; d->ents[leaf] = i;
}
void put(const std::string &path, const std::string &bytes, int mode, int uid) {
  std::shared_ptr<Inode> d; std::string leaf;
  if (find_parent(host_path(path), d, leaf) || leaf.empty()) harness_error("fs::put %s", path.c_str());
  u64 h = bytes.size(); for (unsigned char c : bytes) h = (h ^ c) * 0x100000001b3ull;
  event(0x27, h, mode);
  auto i = new_inode(Inode::File, mode, uid); i->nlink = 1; i->data = bytes; d->ents[leaf] = i;
}
void mknod(const std::string &path, Inode::Type type, int mode) {
  std::shared_ptr<Inode> d; std::string leaf;
  if (find_parent(host_path(path), d, leaf) || leaf.empty()) harness_error("fs::mknod %s", path.c_str());
  auto i = new_inode(type, mode, 1000); i->nlink = 1; d->ents[leaf] = i;
}
void symlink(const std::string &target, const std::string &path) {
  std::shared_ptr<Inode> d; std::string leaf;
  if (find_parent(host_path(path), d, leaf) || leaf.empty() || target.empty()) harness_error("fs::symlink %s", path.c_str());
  auto i = new_inode(Inode::Link, 0777, 1000); i->nlink = 1; i->data = target; d->ents[leaf] = i; have_links = true;
}
std::shared_ptr<Inode> inode(const std::string &path) { std::shared_ptr<Inode> i; if (find(host_path(path), i)) return nullptr; return i; }
bool inode_nofollow(const std::string &path) { std::shared_ptr<Inode> i; return !find(host_path(path), i, false); }
bool exists(const std::string &path) { return inode(path) != nullptr; }
bool get(const std::string &path, std::string *b) {
  auto i = inode(path); if (!i || i->type != Inode::File) return false;
  if (b) *b = i->data; return true;
}
void unlink(const std::string &path) {
  std::shared_ptr<Inode> d; std::string leaf;
  if (find_parent(host_path(path), d, leaf)) return;
  auto it = d->ents.find(leaf); if (it == d->ents.end()) return;
  it->second->nlink--; d->ents.erase(it);
}
void rename(const std::string &a, const std::string &b) {
  std::shared_ptr<Inode> d, e; std::string l, m;
  if (find_parent(host_path(a), d, l) || find_parent(host_path(b), e, m) || !d->ents.count(l)) return;
  auto i = d->ents[l]; d->ents.erase(l); e->ents[m] = i;
}
std::vector<std::string> list(const std::string &dir) {
  std::vector<std::string> v; auto i = inode(dir);
  if (i) for (auto &e : i->ents) v.push_back(e.first);
  return v;
}
u64 mutations() { return G.fs_mut; }
static u64 count_locks(const Inode &i) {
  u64 n = i.lockers.size();
  for (auto &e : i.ents) n += count_locks(*e.second);
  return n;
}
u64 locks_held() { return count_locks(*root); }
size_t open_fds(Proc *p) { size_t n = 0; for (auto &f : p->fds) if (!(f.second->ino->dev == 3)) n++; return n; }
size_t open_streams(Proc *p) { return p->files.size(); }
}
void fs_reset() {
  next_ino = 0; G.fs_mut = 0; have_links = false;
  root = new_inode(Inode::Dir, 0755, 0);
  fs::mkdir("/w"); fs::mkdir("/dev", 0755, 0); fs::mkdir("/tmp", 0777, 0);
  for (int k = 1; k <= 3; k++) {
    static const char *n[] = {"null", "urandom", "console"};
    auto i = new_inode(Inode::Char, 0666, 0); i->dev = k; i->nlink = 1;
    root->ents["dev"]->ents[n[k - 1]] = i;
  }
  root->ents["dev"]->ents["random"] = root->ents["dev"]->ents["urandom"];
  fs::urandom = fs::Urandom(); wall = Wall();
}
static void setup_fds(Proc *p) {
  if (p->sys++ == 0 && p->fds.empty()) {
    for (int i = 0; i < 3; i++) {
      auto o = std::make_shared<OFD>(); o->ino = root->ents["dev"]->ents["console"]; o->flags = O_RDWR; o->path = "console";
      p->fds[i] = o;
    }
  }
}
struct Cookie { FILE *f; Proc *p; int fd; bool dead, closing; };
static std::map<FILE *, Cookie *> *cookies;

void fs_proc_exit(Proc *p) {
  HostScope h;
  // stdio streams: closed without writing anything (a clean exit has flushed them before)
  auto files = p->files; p->files.clear();
  for (void *c : files) {
    Cookie *k = (Cookie *)c;
    k->dead = true;
    if (!k->closing) { FILE *f = k->f; cookies->erase(f); int (*rf)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose"); rf(f); delete k; }
  }
  p->fds.clear();
}

//------------------------------------------------------------------ call prologue
struct Call {
  Task *t; bool old;
  Call(const char *name, u64 a = 0) : t(G.cur) {
    old = t->in_lib; t->in_lib = false; g_hook = false;
    setup_fds(t->proc);
    G.now += 5000;
    event(0x20, mix(*(const u32 *)name ^ name[0] * 977), a ^ (u64)t->proc->id << 40);
    sched_point(1);
    g_hook = false;
  }
  ~Call() { t->in_lib = old; if (G.cur == t) g_hook = old; }
};
static bool armed(const char *call, const std::string &path) {
  if (!cfg.faults_on || G.cur->proc->quiet_faults) return false;
  if (cfg.fault_filter && !cfg.fault_filter(call, path)) return false;
  return true;
}
static int fail(int e) { errno = e; return -1; }
static int err(const Config::Fault &f, const char *call, const std::string &path, std::initializer_list<int> es, const char *kind) {
  if (f.num == 0 || !armed(call, path)) return 0;
  if (!fault(f)) return 0;
  int e = *(es.begin() + choose((u32)es.size()));
  count(kind); G.nfaults++;
  event(0x21, e);
  note("FAULT %s(%s) fails: %s", call, path.c_str(), strerrorname_np(e));
  return e;
}
static int alloc_fd(Proc *p, std::shared_ptr<OFD> o) {
  for (int i = 0; i < MAXFD; i++) if (!p->fds.count(i)) { p->fds[i] = o; return i; }
  return -1;
}
static std::shared_ptr<OFD> ofd(int fd) {
  auto it = me()->fds.find(fd);
  if (it == me()->fds.end()) return nullptr;
  return it->second;
}
//------------------------------------------------------------------------- calls
static int sim_open(const char *path, int flags, int mode) {
  Call c("open");
  Proc *p = me();
  int e;
  if ((e = err(cfg.err_open, "open", path, {EIO, cfg.open_transient ? EINTR : EACCES, EMFILE, ENOSPC, ENFILE}, "fault:open-error"))) return fail(e);
  std::shared_ptr<Inode> d, i; std::string leaf;
  if ((e = find_parent(path, d, leaf, !(flags & O_NOFOLLOW) && (flags & (O_CREAT | O_EXCL)) != (O_CREAT | O_EXCL)))) { note("open(%s) = %s", path, strerrorname_np(e)); return fail(e); }
  auto it = leaf.empty() ? d->ents.end() : d->ents.find(leaf);
  int acc = flags & O_ACCMODE, want = acc == O_RDONLY ? 4 : acc == O_WRONLY ? 2 : 6;
  bool created = false;
  if (leaf.empty()) i = d;
  else if (it == d->ents.end()) {
    if (!(flags & O_CREAT)) { note("open(%s) = ENOENT", path); return fail(ENOENT); }
    if (!perm(*d, 3, p->uid)) { note("open(%s) = EACCES", path); return fail(EACCES); }
    if (cfg.disk_free == 0 && armed("open", path)) { G.nfaults++; count("fault:disk-full"); return fail(ENOSPC); }
    i = new_inode(Inode::File, mode & ~p->umask_ & 07777, p->uid); i->nlink = 1;
    d->ents[leaf] = i; created = true;
  } else {
    i = it->second;
    if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
    if (i->type == Inode::Link) return fail(ELOOP);
    if (i->type == Inode::Dir && want != 4) return fail(EISDIR);
    if ((flags & O_DIRECTORY) && i->type != Inode::Dir) return fail(ENOTDIR);
    if (!perm(*i, want, p->uid)) { note("open(%s) = EACCES", path); return fail(EACCES); }
    if (i->dev == 2 && fs::urandom.mode == 1) return fail(ENOENT);
  }
  bool trunc = (flags & O_TRUNC) && i->type == Inode::File && acc != O_RDONLY && !created && i->data.size();
  if (trunc) i->data.clear();
  auto o = std::make_shared<OFD>(); o->ino = i; o->flags = flags; o->path = path; o->base = i->data.size();
  int fd = alloc_fd(p, o);
  note("open(%s, 0x%x) = %d%s", path, flags, fd, created ? " (created)" : "");
  if (created || trunc) mutated();
  return fd < 0 ? fail(EMFILE) : fd;
}
static int sim_close(int fd) {
  Call c("close", fd);
  auto o = ofd(fd);
  if (!o) return fail(EBADF);
  int e = err(cfg.err_close, "close", o->path, {EIO, ENOSPC, EDQUOT}, "fault:close-error");
  note("close(%d) [%s]%s", fd, o->path.c_str(), e ? " fails" : "");
  me()->fds.erase(fd);
  auto i = o->ino; size_t base = (size_t)o->base; bool wr = (o->flags & O_ACCMODE) != O_RDONLY;
  o.reset();
  if (e && wr && cfg.close_loses && i->type == Inode::File && i->data.size() > base) {
    size_t lost = 1 + choose((u32)std::min<size_t>(i->data.size() - base, 0xffffffffu));
    if (lost > i->data.size() - base) lost = i->data.size() - base;
    i->data.resize(i->data.size() - lost); i->mtime = G.now; count("fault:close-lost-data"); note("  %zu written bytes are lost", lost);
    event(0x22, i->data.size(), mix(lost, i->num)); mutated();
  }
  return e ? fail(e) : 0;
}
static ssize_t do_write(int fd, const std::string &buf, bool at, u64 off) {
  Call c("write", fd);
  auto o = ofd(fd);
  if (!o || (o->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
  Inode &i = *o->ino;
  if (i.dev == 3) { if (me()->out.size() < 65536) me()->out += buf; return buf.size(); }
  if (i.type == Inode::Char) return buf.size();
  if (i.type != Inode::File) return fail(EINVAL);
  size_t n = buf.size();
  if (n == 0) return 0;
  if (cfg.eintr.num && fault(cfg.eintr)) { count("fault:EINTR"); note("write(%d, %zu) = EINTR", fd, n); return fail(EINTR); }
  int e = err(cfg.err_write, "write", o->path, {EIO, ENOSPC, EDQUOT}, "fault:write-error");
  if (e && (e == EIO || n < 2 || !flip(1, 2))) { return fail(e); }
  if (e) { n = choose((u32)n); count("fault:torn-write"); if (n == 0) return fail(e); }
  else if (n > 1 && cfg.short_io.num && fault(cfg.short_io)) { n = 1 + choose((u32)n - 1); count("fault:short-write"); }
  if (cfg.disk_free >= 0 && armed("write", o->path)) {
    if ((i64)n > cfg.disk_free) { n = (size_t)cfg.disk_free; count("fault:disk-full"); G.nfaults++; note("disk full: %zu of %zu bytes fit", n, buf.size()); if (n == 0) return fail(ENOSPC); }
    cfg.disk_free -= n;
  }
  bool torn = false;
  if (cfg.torn_kill && cfg.kills_left > 0 && n > 1 && !me()->immune && flip(cfg.kill_num, cfg.kill_den)) { n = 1 + choose((u32)n - 1); torn = true; count("fault:torn-kill"); }
  u64 pos = at ? off : (o->flags & O_APPEND) ? i.data.size() : o->pos;
  if (i.data.size() < pos + n) i.data.resize(pos + n);
  memcpy(&i.data[pos], buf.data(), n);
  if (!at) o->pos = pos + n;
  i.mtime = G.now;
  note("write(%d [%s], %zu at %llu) = %zu", fd, o->path.c_str(), buf.size(), (unsigned long long)pos, n);
  event(0x22, n, mix(pos, i.num));
  mutated();
  if (torn) { cfg.kills_left--; note("KILLED inside write"); finish_proc(me(), End::Killed, 137, "killed"); yield(); }
  return n;
}
static ssize_t do_read(int fd, char *buf, size_t n, bool at, u64 off) {
  Call c("read", fd);
  auto o = ofd(fd);
  if (!o || (o->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
  Inode &i = *o->ino;
  if (i.type == Inode::Dir) return fail(EISDIR);
  if (n && cfg.eintr.num && fault(cfg.eintr)) { count("fault:EINTR"); return fail(EINTR); }
  if (i.dev == 2) {
    auto &u = fs::urandom;
    if (u.mode == 2) { count("fault:entropy-error"); return fail(EIO); }
    size_t m = n;
    if (u.mode == 3) { m = o->pos >= u.short_at ? 0 : std::min<size_t>(n, u.short_at - o->pos); count("fault:entropy-short"); }
    if (u.mode == 4 && n > 1) { m = 1 + choose((u32)n - 1); count("fault:entropy-short"); }
    for (size_t k = 0; k < m; k++) buf[k] = (char)(mix(u.seed, (o->pos + k) / 8) >> (((o->pos + k) % 8) * 8));
    o->pos += m;
    return m;
  }
  if (i.type != Inode::File) return 0;
  int e = err(cfg.err_read, "read", o->path, {EIO}, "fault:read-error");
  if (e) return fail(e);
  u64 pos = at ? off : o->pos;
  size_t have = pos < i.data.size() ? i.data.size() - pos : 0;
  size_t m = std::min(n, have);
  if (m > 1 && cfg.short_io.num && fault(cfg.short_io)) { m = 1 + choose((u32)m - 1); count("fault:short-read"); }
  memcpy(buf, i.data.data() + pos, m);
  if (!at) o->pos = pos + m;
  note("read(%d [%s], %zu at %llu) = %zu", fd, o->path.c_str(), n, (unsigned long long)pos, m);
  return m;
}
static off_t sim_lseek(int fd, off_t off, int wh) {
  Call c("lseek", fd);
  auto o = ofd(fd);
  if (!o) return fail(EBADF);
  i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)o->pos : (i64)o->ino->data.size();
  if (b + off < 0) return fail(EINVAL);
  return o->pos = b + off;
}
static void fill_stat(const Inode &i, struct stat *s) {
  memset(s, 0, sizeof *s);
  static const mode_t ty[] = {S_IFREG, S_IFDIR, S_IFBLK, S_IFCHR, S_IFIFO, S_IFSOCK, S_IFLNK};
  s->st_dev = 1; s->st_ino = i.num; s->st_mode = ty[i.type] | i.mode; s->st_nlink = i.nlink; s->st_uid = i.uid;
  s->st_size = i.type == Inode::File || i.type == Inode::Link ? i.data.size() : 0; s->st_blksize = 4096; s->st_blocks = (s->st_size + 511) / 512;
  s->st_mtim.tv_sec = wall.base_s + i.mtime / SEC; s->st_mtim.tv_nsec = i.mtime % SEC;
  s->st_atim = s->st_ctim = s->st_mtim;
}
static int sim_stat(const char *path, struct stat *s, bool follow = true) {
  Call c("stat");
  int e = err(cfg.err_meta, "stat", path, {EIO, EACCES}, "fault:metadata-error");
  if (e) return fail(e);
  std::shared_ptr<Inode> i;
  if ((e = find(path, i, follow))) return fail(e);
  fill_stat(*i, s); note("stat(%s) = 0", path);
  return 0;
}
static int sim_fstat(int fd, struct stat *s) {
  Call c("fstat");
  auto o = ofd(fd); if (!o) return fail(EBADF);
  fill_stat(*o->ino, s); return 0;
}
static int sim_access(const char *path, int m) {
  Call c("access");
  int e = err(cfg.err_meta, "access", path, {EIO, EACCES}, "fault:metadata-error");
  if (e) return fail(e);
  std::shared_ptr<Inode> i;
  e = find(path, i);
  if (!e && m && !perm(*i, m, me()->uid)) e = EACCES;
  note("access(%s, %d) = %s", path, m, e ? strerrorname_np(e) : "0");
  event(0x23, e);
  return e ? fail(e) : 0;
}
static int sim_unlink(const char *path, bool dir) {
  Call c("unlink");
  int e = err(cfg.err_meta, "unlink", path, {EIO, EACCES, EBUSY}, "fault:metadata-error");
  if (e) return fail(e);
  std::shared_ptr<Inode> d; std::string leaf;
  if ((e = find_parent(path, d, leaf))) return fail(e);
  auto it = d->ents.find(leaf);
  if (it == d->ents.end()) { note("unlink(%s) = ENOENT", path); return fail(ENOENT); }
  if (!perm(*d, 3, me()->uid)) { note("unlink(%s) = EACCES", path); return fail(EACCES); }
  if (!dir && it->second->type == Inode::Dir) return fail(EISDIR);
  if (dir && it->second->type != Inode::Dir) return fail(ENOTDIR);
  if (dir && it->second->ents.size()) return fail(ENOTEMPTY);
  it->second->nlink -= dir ? 2 : 1;
  d->ents.erase(it);
  note("unlink(%s) = 0", path);
  event(0x24, mix(leaf.size(), leaf.empty() ? 0 : leaf.back()));
  mutated();
  return 0;
}
static int sim_rename(const char *a, const char *b, unsigned flags) {
  Call c("rename");
  int e = err(cfg.err_meta, "rename", a, {EIO, EACCES, ENOSPC}, "fault:rename-error");
  if (e) return fail(e);
  std::shared_ptr<Inode> d, q; std::string l, m;
  if ((e = find_parent(a, d, l)) || (e = find_parent(b, q, m))) return fail(e);
  auto it = d->ents.find(l);
  if (it == d->ents.end()) { note("rename(%s, %s) = ENOENT", a, b); return fail(ENOENT); }
  if (!perm(*d, 3, me()->uid) || !perm(*q, 3, me()->uid)) return fail(EACCES);
  auto jt = q->ents.find(m);
  if (jt != q->ents.end()) {
    if (flags & 1) return fail(EEXIST);
    if (jt->second == it->second) return 0;
    if (jt->second->type == Inode::Dir && it->second->type != Inode::Dir) return fail(EISDIR);
    if (jt->second->type != Inode::Dir && it->second->type == Inode::Dir) return fail(ENOTDIR);
    if (jt->second->type == Inode::Dir && jt->second->ents.size()) return fail(ENOTEMPTY);
    jt->second->nlink--;
  }
  auto i = it->second;
  d->ents.erase(it); q->ents[m] = i;
  note("rename(%s, %s) = 0", a, b);
  event(0x25, 1);
  mutated();
  return 0;
}
static int sim_link(const char *a, const char *b) {
  Call c("link");
  int e = err(cfg.err_meta, "link", a, {EIO, EACCES, ENOSPC}, "fault:metadata-error");
  if (e) return fail(e);
  std::shared_ptr<Inode> i, q; std::string m;
  if ((e = find(a, i, false)) || (e = find_parent(b, q, m))) return fail(e);
  if (i->type == Inode::Dir) return fail(EPERM);
  if (q->ents.count(m)) return fail(EEXIST);
  if (!perm(*q, 3, me()->uid)) return fail(EACCES);
  q->ents[m] = i; i->nlink++;
  note("link(%s, %s) = 0", a, b);
  mutated();
  return 0;
}
static int sim_symlink(const char *a, const char *b) {
  Call c("symlink");
  int e = err(cfg.err_meta, "symlink", b, {EIO, EACCES, ENOSPC}, "fault:metadata-error");
  if (e) return fail(e);
  if (!*a) return fail(ENOENT);
  std::shared_ptr<Inode> d; std::string leaf;
  if ((e = find_parent(b, d, leaf))) return fail(e);
  if (leaf.empty() || d->ents.count(leaf)) return fail(EEXIST);
  if (!perm(*d, 3, me()->uid)) return fail(EACCES);
  auto i = new_inode(Inode::Link, 0777, me()->uid); i->nlink = 1; i->data = a; d->ents[leaf] = i; have_links = true;
  note("symlink(%s, %s) = 0", a, b);
  mutated();
  return 0;
}
static ssize_t sim_readlink(const char *path, char *buf, size_t n) {
  Call c("readlink");
  std::shared_ptr<Inode> i; int e;
  if ((e = find(path, i, false))) return fail(e);
  if (i->type != Inode::Link || !n) return fail(EINVAL);
  n = std::min(n, i->data.size()); memcpy(buf, i->data.data(), n);
  note("readlink(%s) = %s", path, i->data.c_str());
  return n;
}
static int sim_realpath(const char *path, std::string &out) {
  Call c("realpath");
  std::string s; std::shared_ptr<Inode> i; int e;
  if ((e = canon(path, true, s)) || (e = find(s, i))) return e;
  out.clear(); for (auto &x : split(s)) out += "/" + x; if (out.empty()) out = "/";
  note("realpath(%s) = %s", path, out.c_str());
  return 0;
}
static int sim_mkdir(const char *path, int mode) {
  Call c("mkdir");
  int e = err(cfg.err_meta, "mkdir", path, {EIO, EACCES, ENOSPC}, "fault:metadata-error");
  if (e) return fail(e);
  std::shared_ptr<Inode> d; std::string leaf;
  if ((e = find_parent(path, d, leaf))) return fail(e);
  if (leaf.empty() || d->ents.count(leaf)) { note("mkdir(%s) = EEXIST", path); return fail(EEXIST); }
  if (!perm(*d, 3, me()->uid)) return fail(EACCES);
  auto i = new_inode(Inode::Dir, mode & ~me()->umask_ & 07777, me()->uid); i->nlink = 2;
  d->ents[leaf] = i;
  note("mkdir(%s, 0%o) = 0", path, mode);
  mutated();
  return 0;
}
static int sim_flock(int fd, int op) {
  Call c("flock", op);
  auto o = ofd(fd);
  if (!o) return fail(EBADF);
  int kind = op & ~LOCK_NB;
  if (kind != LOCK_UN) {
    int e = err(cfg.err_lock, "flock", o->path, {EINTR, ENOLCK}, "fault:lock-error");
    if (e) return fail(e);
  }
  auto *ip = o->ino.get(); auto keep = o->ino;
  auto drop = [&] { auto &v = ip->lockers; for (size_t i = 0; i < v.size(); i++) if (v[i] == o.get()) { v.erase(v.begin() + i); break; } o->lock = 0; };
  if (kind == LOCK_UN) { drop(); wake_all(ip); note("flock(%d, UN)", fd); return 0; }
  for (;;) {
    bool conflict = false;
    for (OFD *x : ip->lockers) if (x != o.get() && (x->lock == LOCK_EX || kind == LOCK_EX)) conflict = true;
    if (!conflict) break;
    event(0x26, 0);
    if (op & LOCK_NB) { note("flock(%d [%s ino %llu]) = EWOULDBLOCK", fd, o->path.c_str(), (unsigned long long)ip->num); count("lock contention"); return fail(EWOULDBLOCK); }
    block_on(ip);
  }
  drop(); o->lock = kind; ip->lockers.push_back(o.get());
  event(0x26, 1 + ip->num);
  note("flock(%d [%s ino %llu]) = 0", fd, o->path.c_str(), (unsigned long long)ip->num);
  return 0;
}
// POSIX record locks, whole file only: enough for a lock file.
static std::map<std::pair<u64, int>, int> *plocks;

//--------------------------------------------------------------- stdio cookies
static ssize_t ck_read(void *c, char *b, size_t n) { Cookie *k = (Cookie *)c; if (k->dead || !G.cur) return 0; return do_read(k->fd, b, n, false, 0); }
static ssize_t ck_write(void *c, const char *b, size_t n) { Cookie *k = (Cookie *)c; if (k->dead || !G.cur) return n; ssize_t r = do_write(k->fd, std::string(b, n), false, 0); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { Cookie *k = (Cookie *)c; if (k->dead || !G.cur) return -1; off_t r = sim_lseek(k->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) {
  Cookie *k = (Cookie *)c;
  if (k->dead || !G.cur) return 0;
  k->closing = true;
  int r = sim_close(k->fd);
  return r;
}
static FILE *make_file(int fd, const char *mode) {
  HostScope h;
  Cookie *k = new Cookie{nullptr, me(), fd, false, false};
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie(k, mode, io);
  if (!f) { delete k; return nullptr; }
  k->f = f;
  if (!cookies) cookies = new std::map<FILE *, Cookie *>;
  (*cookies)[f] = k;
  me()->files.push_back(k);
  return f;
}
static FILE *sim_fopen(const char *path, const char *mode) {
  int fl;
  bool plus = strchr(mode, '+');
  switch (mode[0]) {
  case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
  case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
  case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
  default: errno = EINVAL; return nullptr;
  }
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = sim_open(path, fl, 0666);
  if (fd < 0) return nullptr;
  FILE *f = make_file(fd, mode);
  return f;
}
static Cookie *cookie(FILE *f) {
  if (!cookies) return nullptr;
  auto it = cookies->find(f);
  return it == cookies->end() ? nullptr : it->second;
}
//------------------------------------------------------------------------- time
static u64 wall_ns() { return wall.base_s * SEC + G.now + wall.offset_ns + (me() ? me()->skew : 0); }
static void tick() { if (G.cur) G.now += 100; }
} // namespace sim

using namespace sim;
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)

extern "C" {
int open(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  if (G.cur) return sim_open(path, flags, mode);
  return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  if (G.cur) return sim_open(path, flags, mode);
  return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int __open_2(const char *path, int flags) { return open(path, flags); }
int __open64_2(const char *path, int flags) { return open(path, flags); }
int openat(int dfd, const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  if (G.cur) { if (dfd != AT_FDCWD && path[0] != '/') { errno = ENOSYS; return -1; } return sim_open(path, flags, mode); }
  return syscall(SYS_openat, dfd, path, flags, mode);
}
int openat64(int dfd, const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  return openat(dfd, path, flags, mode);
}
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int close(int fd) { if (G.cur) return sim_close(fd); return syscall(SYS_close, fd); }
ssize_t write(int fd, const void *b, size_t n) {
  if (G.cur) { std::string s; { HostScope h; s.assign((const char *)b, n); } return do_write(fd, s, false, 0); }
  return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (G.cur) { std::string s; { HostScope h; s.assign((const char *)b, n); } return do_write(fd, s, true, o); }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (!G.cur) return syscall(SYS_writev, fd, v, n);
  std::string s; { HostScope h; for (int i = 0; i < n; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); }
  return do_write(fd, s, false, 0);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (!G.cur) return syscall(SYS_readv, fd, v, n);
  ssize_t all = 0;
  for (int i = 0; i < n; i++) { ssize_t r = do_read(fd, (char *)v[i].iov_base, v[i].iov_len, false, 0); if (r < 0) return all ? all : r; all += r; if ((size_t)r < v[i].iov_len) break; }
  return all;
}
ssize_t read(int fd, void *b, size_t n) { if (G.cur) return do_read(fd, (char *)b, n, false, 0); return syscall(SYS_read, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (G.cur) return do_read(fd, (char *)b, n, true, o); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) { if (G.cur) return sim_lseek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int fsync(int fd) {
  if (!G.cur) return syscall(SYS_fsync, fd);
  Call c("fsync"); auto o = ofd(fd); if (!o) return fail(EBADF);
  int e = err(cfg.err_write, "fsync", o->path, {EIO, ENOSPC}, "fault:fsync-error");
  return e ? fail(e) : 0;
}
int fdatasync(int fd) { if (!G.cur) return syscall(SYS_fdatasync, fd); return fsync(fd); }
int ftruncate(int fd, off_t n) {
  if (!G.cur) return syscall(SYS_ftruncate, fd, n);
  Call c("ftruncate"); auto o = ofd(fd); if (!o) return fail(EBADF);
  o->ino->data.resize(n); mutated(); return 0;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int truncate(const char *p, off_t n) {
  if (!G.cur) return syscall(SYS_truncate, p, n);
  Call c("truncate"); std::shared_ptr<Inode> i; int e = find(p, i); if (e) return fail(e);
  if (!perm(*i, 2, me()->uid)) return fail(EACCES);
  i->data.resize(n); mutated(); return 0;
}
int dup3(int fd, int to, int fl) {
  if (!G.cur) return syscall(SYS_dup3, fd, to, fl);
  Call c("dup2"); auto o = ofd(fd); if (!o || to < 0 || to >= MAXFD) return fail(EBADF);
  if (fd != to) me()->fds[to] = o;
  return to;
}
int dup2(int fd, int to) { if (!G.cur && fd == to) return to; return dup3(fd, to, 0); }
int dup(int fd) {
  if (!G.cur) return syscall(SYS_dup, fd);
  Call c("dup"); auto o = ofd(fd); if (!o) return fail(EBADF); int r = alloc_fd(me(), o); return r < 0 ? fail(EMFILE) : r;
}
int stat(const char *p, struct stat *s) { if (G.cur) return sim_stat(p, s); return syscall(SYS_stat, p, s); }
int stat64(const char *p, struct stat64 *s) { return stat(p, (struct stat *)s); }
int lstat(const char *p, struct stat *s) { if (G.cur) return sim_stat(p, s, false); return syscall(SYS_lstat, p, s); }
int lstat64(const char *p, struct stat64 *s) { return lstat(p, (struct stat *)s); }
int fstat(int fd, struct stat *s) { if (G.cur) return sim_fstat(fd, s); return syscall(SYS_fstat, fd, s); }
int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *)s); }
int fstatat(int d, const char *p, struct stat *s, int f) {
  if (G.cur) { if (p[0] == 0 && (f & AT_EMPTY_PATH)) return sim_fstat(d, s); return sim_stat(p, s, !(f & AT_SYMLINK_NOFOLLOW)); }
  return syscall(SYS_newfstatat, d, p, s, f);
}
int __xstat(int, const char *p, struct stat *s) { return stat(p, s); }
int __fxstat(int, int fd, struct stat *s) { return fstat(fd, s); }
int access(const char *p, int m) { if (G.cur) return sim_access(p, m); return syscall(SYS_access, p, m); }
int faccessat(int d, const char *p, int m, int f) { if (G.cur) return sim_access(p, m); return syscall(SYS_faccessat2, d, p, m, f); }
int eaccess(const char *p, int m) { if (G.cur) return sim_access(p, m); return syscall(SYS_faccessat2, AT_FDCWD, p, m, AT_EACCESS); }
int euidaccess(const char *p, int m) { return eaccess(p, m); }
int unlink(const char *p) { if (G.cur) return sim_unlink(p, false); return syscall(SYS_unlink, p); }
int rmdir(const char *p) { if (G.cur) return sim_unlink(p, true); return syscall(SYS_rmdir, p); }
int unlinkat(int d, const char *p, int f) { if (G.cur) return sim_unlink(p, f & AT_REMOVEDIR); return syscall(SYS_unlinkat, d, p, f); }
int remove(const char *p) {
  if (!G.cur) { int r = syscall(SYS_unlink, p); if (r && errno == EISDIR) r = syscall(SYS_rmdir, p); return r; }
  int r = sim_unlink(p, false); if (r && errno == EISDIR) r = sim_unlink(p, true); return r;
}
int rename(const char *a, const char *b) { if (G.cur) return sim_rename(a, b, 0); return syscall(SYS_rename, a, b); }
int renameat(int da, const char *a, int db, const char *b) { if (G.cur) return sim_rename(a, b, 0); return syscall(SYS_renameat, da, a, db, b); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { if (G.cur) return sim_rename(a, b, f); return syscall(SYS_renameat2, da, a, db, b, f); }
int link(const char *a, const char *b) { if (G.cur) return sim_link(a, b); return syscall(SYS_link, a, b); }
int linkat(int da, const char *a, int db, const char *b, int f) { if (G.cur) return sim_link(a, b); return syscall(SYS_linkat, da, a, db, b, f); }
int mkdir(const char *p, mode_t m) { if (G.cur) return sim_mkdir(p, m); return syscall(SYS_mkdir, p, m); }
int mkdirat(int d, const char *p, mode_t m) { if (G.cur) return sim_mkdir(p, m); return syscall(SYS_mkdirat, d, p, m); }
int chmod(const char *p, mode_t m) {
  if (!G.cur) return syscall(SYS_chmod, p, m);
  Call c("chmod"); std::shared_ptr<Inode> i; int e = find(p, i); if (e) return fail(e);
  if (i->uid != me()->uid) return fail(EPERM); i->mode = m & 07777; return 0;
}
int fchmod(int fd, mode_t m) {
  if (!G.cur) return syscall(SYS_fchmod, fd, m);
  Call c("fchmod"); auto o = ofd(fd); if (!o) return fail(EBADF); o->ino->mode = m & 07777; return 0;
}
int chdir(const char *p) {
  if (!G.cur) return syscall(SYS_chdir, p);
  Call c("chdir"); std::shared_ptr<Inode> i; int e = find(p, i); if (!e && i->type != Inode::Dir) e = ENOTDIR; if (e) return fail(e);
  HostScope h; std::string w; for (auto &x : split(p)) w += "/" + x; me()->cwd = w.empty() ? "/" : w; return 0;
}
char *getcwd(char *b, size_t n) noexcept {
  if (!G.cur) { if (syscall(SYS_getcwd, b, n) < 0) return nullptr; return b; }
  Call c("getcwd"); const std::string &w = me()->cwd;
  if (!b) { if (!n) n = w.size() + 1; b = (char *)malloc(n); if (!b) return nullptr; }
  if (n < w.size() + 1) { errno = ERANGE; return nullptr; }
  memcpy(b, w.c_str(), w.size() + 1); return b;
}
mode_t umask(mode_t m) {
  if (!G.cur) return syscall(SYS_umask, m);
  Call c("umask", m); unsigned o = me()->umask_; me()->umask_ = m & 0777; return o;
}
int flock(int fd, int op) { if (G.cur) return sim_flock(fd, op); return syscall(SYS_flock, fd, op); }
int lockf(int fd, int cmd, off_t) {
  if (!G.cur) { errno = ENOSYS; return -1; }
  return sim_flock(fd, cmd == F_ULOCK ? LOCK_UN : cmd == F_TLOCK ? LOCK_EX | LOCK_NB : LOCK_EX);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap);
  if (!G.cur) return syscall(SYS_fcntl, fd, cmd, a);
  if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW) {
    struct flock *l = (struct flock *)a;
    int k = l->l_type == F_UNLCK ? LOCK_UN : l->l_type == F_WRLCK ? LOCK_EX : LOCK_SH;
    int r = sim_flock(fd, k | ((cmd == F_SETLK || cmd == F_OFD_SETLK) ? LOCK_NB : 0));
    if (r && errno == EWOULDBLOCK) errno = EAGAIN;
    return r;
  }
  Call c("fcntl", cmd);
  auto o = ofd(fd); if (!o) return fail(EBADF);
  switch (cmd) {
  case F_GETFL: return o->flags;
  case F_SETFL: case F_SETFD: return 0;
  case F_GETFD: return 0;
  case F_DUPFD: case F_DUPFD_CLOEXEC: { int r = alloc_fd(me(), o); return r < 0 ? fail(EMFILE) : r; }
  }
  return fail(EINVAL);
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return fcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
  if (!G.cur) return syscall(SYS_ioctl, fd, req, a);
  errno = ENOTTY; return -1;
}
int isatty(int fd) { if (G.cur) { errno = ENOTTY; return 0; } char b[64]; return syscall(SYS_ioctl, fd, 0x5401, b) == 0; }
FILE *fopen(const char *p, const char *m) { if (G.cur) return sim_fopen(p, m); REAL(fopen); return real(p, m); }
FILE *fopen64(const char *p, const char *m) { if (G.cur) return sim_fopen(p, m); REAL(fopen64); return real(p, m); }
FILE *fdopen(int fd, const char *m) { if (G.cur) return make_file(fd, m); REAL(fdopen); return real(fd, m); }
int fileno(FILE *f) { if (G.cur || cookies) { Cookie *k = cookie(f); if (k) return k->fd; if (G.cur) { return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : -1; } } REAL(fileno); return real(f); }
int fclose(FILE *f) {
  REAL(fclose);
  Cookie *k = G.cur ? cookie(f) : nullptr;
  int r = real(f);
  if (k) {
    HostScope h; cookies->erase(f);
    auto &v = k->p->files; for (size_t i = 0; i < v.size(); i++) if (v[i] == k) { v.erase(v.begin() + i); break; }
    delete k;
  }
  return r;
}
struct SimDir { int fd; std::vector<std::string> names; size_t pos = 0; struct dirent ent; };
DIR *opendir(const char *p) {
  if (!G.cur) { REAL(opendir); return real(p); }
  int fd = sim_open(p, O_RDONLY | O_DIRECTORY, 0); if (fd < 0) return nullptr;
  HostScope h; SimDir *d = new SimDir; d->fd = fd; d->names = {".", ".."}; for (auto &e : ofd(fd)->ino->ents) d->names.push_back(e.first);
  return (DIR *)d;
}
int dirfd(DIR *d) { if (G.cur) return ((SimDir *)d)->fd; REAL(dirfd); return real(d); }
int closedir(DIR *d) {
  if (!G.cur) { REAL(closedir); return real(d); }
  int fd = ((SimDir *)d)->fd; { HostScope h; delete (SimDir *)d; } return sim_close(fd);
}
struct dirent *readdir(DIR *d) {
  if (!G.cur) { REAL(readdir); return real(d); }
  SimDir *x = (SimDir *)d; if (x->pos >= x->names.size()) return nullptr;
  memset(&x->ent, 0, sizeof x->ent); x->ent.d_ino = x->pos + 1; x->ent.d_type = DT_UNKNOWN; snprintf(x->ent.d_name, sizeof x->ent.d_name, "%s", x->names[x->pos++].c_str());
  return &x->ent;
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
int symlink(const char *a, const char *b) { if (G.cur) return sim_symlink(a, b); return syscall(SYS_symlink, a, b); }
char *realpath(const char *a, char *b) {
  if (!G.cur) { REAL(realpath); return real(a, b); }
  std::string s; { HostScope h; int e = sim_realpath(a, s); if (e) { errno = e; return nullptr; } }
  if (s.size() >= PATH_MAX) { errno = ENAMETOOLONG; return nullptr; }
  if (!b) b = (char *)malloc(s.size() + 1);
  if (b) memcpy(b, s.c_str(), s.size() + 1);
  return b;
}
char *__realpath_chk(const char *a, char *b, size_t) { return realpath(a, b); }
char *canonicalize_file_name(const char *a) { return realpath(a, nullptr); }
ssize_t __readlink_chk(const char *a, char *b, size_t n, size_t) { return readlink(a, b, n); }
ssize_t readlink(const char *a, char *b, size_t n) { if (G.cur) return sim_readlink(a, b, n); return syscall(SYS_readlink, a, b, n); }
int mkstemp(char *t) {
  if (!G.cur) { REAL(mkstemp); return real(t); }
  size_t n = strlen(t);
  for (u64 k = 0; k < 1000; k++) {
    u64 h = mix(G.fs_mut * 1000 + k + me()->id);
    for (int i = 0; i < 6; i++) t[n - 6 + i] = 'a' + (h >> (i * 8)) % 26;
    int fd = sim_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  errno = EEXIST; return -1;
}
unsigned sleep(unsigned s) {
  if (!G.cur) { REAL(sleep); return real(s); }
  Call c("sleep", s); note("sleep(%u)", s); count("sleeps"); sleep_ns(u64(s) * SEC); return 0;
}
int usleep(useconds_t us) { if (!G.cur) { REAL(usleep); return real(us); } Call c("usleep"); sleep_ns(u64(us) * 1000); return 0; }
int nanosleep(const struct timespec *t, struct timespec *) { if (!G.cur) { return syscall(SYS_nanosleep, t, nullptr); } Call c("nanosleep"); sleep_ns(u64(t->tv_sec) * SEC + t->tv_nsec); return 0; }
int clock_nanosleep(clockid_t ck, int fl, const struct timespec *t, struct timespec *) {
  if (!G.cur) return syscall(SYS_clock_nanosleep, ck, fl, t, nullptr);
  Call c("clock_nanosleep"); u64 ns = u64(t->tv_sec) * SEC + t->tv_nsec;
  if (fl & TIMER_ABSTIME) { u64 w = ck == CLOCK_REALTIME ? wall_ns() : G.now + 1000 * SEC; ns = ns > w ? ns - w : 0; }
  sleep_ns(ns); return 0;
}
int poll(struct pollfd *f, nfds_t n, int ms) {      // as a pause
  if (!G.cur) { struct timespec t = {ms / 1000, ms % 1000 * 1000000l}; return syscall(SYS_ppoll, f, n, ms < 0 ? nullptr : &t, nullptr, 8); }
  Call c("poll"); for (nfds_t k = 0; k < n; k++) f[k].revents = f[k].fd < 0 ? 0 : f[k].events & (POLLIN | POLLOUT);
  if (n) return (int)n; sleep_ns(u64(ms < 0 ? 1 << 30 : ms) * (SEC / 1000)); return 0;
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
  if (!G.cur) { struct timespec q; if (t) { q.tv_sec = t->tv_sec; q.tv_nsec = t->tv_usec * 1000; } return syscall(SYS_pselect6, n, r, w, x, t ? &q : nullptr, nullptr); }
  Call c("select"); if (t && !n) sleep_ns(u64(t->tv_sec) * SEC + u64(t->tv_usec) * 1000); return 0;
}
int timespec_get(struct timespec *t, int base) { return base == TIME_UTC && !clock_gettime(CLOCK_REALTIME, t) ? base : 0; }
int sched_yield() { if (!G.cur) return syscall(SYS_sched_yield); Call c("sched_yield"); yield(); return 0; }
unsigned alarm(unsigned s) { if (G.cur) return 0; return syscall(SYS_alarm, s); }
int gettimeofday(struct timeval *__restrict tv, void *__restrict) {
  if (!G.cur) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
  tick(); u64 w = wall_ns(); tv->tv_sec = w / SEC; tv->tv_usec = w % SEC / 1000; return 0;
}
int clock_gettime(clockid_t ck, struct timespec *t) {
  if (!G.cur) return syscall(SYS_clock_gettime, ck, t);
  tick(); u64 w = ck == CLOCK_REALTIME || ck == CLOCK_REALTIME_COARSE ? wall_ns() : G.now + 1000 * SEC;
  t->tv_sec = w / SEC; t->tv_nsec = w % SEC; return 0;
}
time_t time(time_t *t) {
  u64 s;
  if (G.cur) { tick(); s = wall_ns() / SEC; } else { struct timespec x; syscall(SYS_clock_gettime, CLOCK_REALTIME, &x); s = x.tv_sec; }
  if (t) *t = s; return s;
}
clock_t clock() {
  if (G.cur) { tick(); return G.now / 1000; }
  struct timespec x; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &x); return x.tv_sec * 1000000 + x.tv_nsec / 1000;
}
char *getenv(const char *n) noexcept {
  if (G.cur) { auto it = me()->env.find(n); return it == me()->env.end() ? nullptr : (char *)it->second.c_str(); }
  for (char **e = environ; e && *e; e++) { size_t l = strlen(n); if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1; }
  return nullptr;
}
char *secure_getenv(const char *n) noexcept { return getenv(n); }
int setenv(const char *n, const char *v, int) noexcept { if (!G.cur) { return -1; } HostScope h; me()->env[n] = v; return 0; }
pid_t getpid() { if (G.cur) return 1000 + me()->id; return syscall(SYS_getpid); }
pid_t getppid() { if (G.cur) return 1; return syscall(SYS_getppid); }
uid_t getuid() noexcept { if (G.cur) return me()->uid; return syscall(SYS_getuid); }
uid_t geteuid() noexcept { if (G.cur) return me()->uid; return syscall(SYS_geteuid); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!G.cur) return syscall(SYS_getrandom, b, n, f);
  if (fs::urandom.mode == 1 || fs::urandom.mode == 2) { errno = ENOSYS; return -1; }
  for (size_t k = 0; k < n; k++) ((char *)b)[k] = (char)(mix(fs::urandom.seed, k / 8) >> ((k % 8) * 8));
  return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
[[noreturn]] void abort() noexcept {
  if (G.cur) { event(0x30, 1); note("abort()"); G.cur->in_lib = false; end_current(End::Aborted, 134, "abort"); }
  signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134);
}
[[noreturn]] void exit(int c) noexcept {
  if (G.cur) { event(0x30, 2, c); note("exit(%d)", c); G.cur->in_lib = false; end_current(End::Exited, c, "exit"); }
  fflush(nullptr); _exit(c);
}
[[noreturn]] void _exit(int c) {
  if (G.cur) { G.cur->in_lib = false; end_current(End::Exited, c, "_exit"); }
  for (;;) syscall(SYS_exit_group, c);
}
[[noreturn]] void _Exit(int c) noexcept { _exit(c); }
[[noreturn]] void quick_exit(int c) noexcept { _exit(c); }
[[noreturn]] void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept {
  if (G.cur) { event(0x30, 3, l); note("assertion failed: %s (%s:%u)", e, f, l); G.cur->in_lib = false; end_current(End::Aborted, 134, "assert"); }
  fprintf(stderr, "assert %s %s:%u\n", e, f, l); abort();
}
int raise(int s) noexcept {
  if (G.cur) { if (s == SIGABRT || s == SIGKILL || s == SIGTERM) end_current(End::Aborted, 128 + s, "raise"); return 0; }
  return syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), s);
}
int __cxa_atexit(void (*)(void *), void *, void *) noexcept { return 0; }  // the simulator leaves with _exit
}
