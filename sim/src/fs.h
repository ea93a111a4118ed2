// In-memory file system behind the libc seam.
#pragma once
#include "core.h"
namespace sim {
struct Inode;
struct OFD {                       // open file description
  std::shared_ptr<Inode> ino; u64 pos = 0; int flags = 0; int lock = 0; // 0, LOCK_SH, LOCK_EX
  u64 base = 0;                    // size when opened: what a close that loses data cannot take away
  std::string path;
  ~OFD();
};
struct Inode {
  enum Type { File, Dir, Block, Char, Fifo, Socket, Link } type = File;
  u64 num = 0; int mode = 0644; int uid = 1000; int nlink = 0;
  std::string data;
  std::map<std::string, std::shared_ptr<Inode>> ents;
  std::vector<OFD *> lockers;
  int dev = 0;                     // 1 null, 2 urandom, 3 console
  u64 mtime = 0;
};
namespace fs {
void mkdir(const std::string &path, int mode = 0755, int uid = 1000);
bool inode_nofollow(const std::string &path);   // something has this name, perhaps a link to nothing
void symlink(const std::string &target, const std::string &path);
void put(const std::string &path, const std::string &bytes, int mode = 0644, int uid = 1000);
void mknod(const std::string &path, Inode::Type type, int mode = 0644);
bool exists(const std::string &path);
bool get(const std::string &path, std::string *bytes);
std::shared_ptr<Inode> inode(const std::string &path);
void unlink(const std::string &path);
void rename(const std::string &a, const std::string &b);
std::vector<std::string> list(const std::string &dir);
u64 mutations();
u64 locks_held();                  // flocks held by anybody
size_t open_fds(Proc *p);          // beyond stdin, stdout and stderr
size_t open_streams(Proc *p);
struct Urandom { u64 seed = 1; int mode = 0; /*0 ok, 1 missing, 2 EIO, 3 short then EOF, 4 short chunks*/ u64 short_at = 0; };
extern Urandom urandom;
}
struct Wall { u64 base_s = 1700000000; i64 offset_ns = 0; };
extern Wall wall;                  // simulated wall clock = base + now + offset
}
