#include "internal.h"
#include "pyread.h"
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <spawn.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#ifndef SIM_PYTHON
#define SIM_PYTHON ""
#endif
namespace sim {
extern std::string scratch_dir;
static int to_ = -1, from_ = -1;
static pid_t pid_;
static double cpu() { clockid_t c; timespec t; if (clock_getcpuclockid(pid_, &c) || clock_gettime(c, &t)) return 0; return t.tv_sec + t.tv_nsec * 1e-9; }
// A reader that takes 25 s of processor time, or four minutes, over one request never ends.
static bool hangs(double since) {
  for (int k = 0; k < 48; k++) {
    pollfd p = {from_, POLLIN, 0};
    if (::poll(&p, 1, 5000) != 0) return false;
    if (cpu() - since > 25) break;
  }
  kill(pid_, SIGKILL); waitpid(pid_, nullptr, 0); ::close(to_); ::close(from_); to_ = from_ = -1;
  return true;
}
static bool start() {
  int a[2], b[2];
  if (!*SIM_PYTHON || pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) return false;
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, a[0], 0); posix_spawn_file_actions_adddup2(&fa, b[1], 1);
  std::string base = scratch_dir;
  char prog[] = SIM_PYTHON, e[] = "-B", server[] = SIM_SERVER, mod[] = SIM_REPO "/python/sdf.py";
  char *argv[] = {prog, e, server, mod, &base[0], nullptr};
  char e1[] = "PATH=/usr/bin:/bin", e2[] = "OPENBLAS_NUM_THREADS=1", e3[] = "PYTHONHASHSEED=0", e4[] = "LC_ALL=C.UTF-8";
  char *env[] = {e1, e2, e3, e4, nullptr};
  int rc = posix_spawn(&pid_, prog, &fa, nullptr, argv, env);
  posix_spawn_file_actions_destroy(&fa); ::close(a[0]); ::close(b[1]);
  if (rc) return false;
  to_ = a[1]; from_ = b[0];
  return true;
}
std::string pyread(const std::string &request) {
  if (to_ < 0 && !start()) harness_error("no Python with numpy for the reader");
  uint32_t n = (uint32_t)request.size(); std::string msg((char *)&n, 4); msg += request;
  for (size_t o = 0; o < msg.size();) { ssize_t r = ::write(to_, msg.data() + o, msg.size() - o); if (r <= 0) harness_error("the Python server does not listen"); o += r; }
  std::string ans; char buf[65536]; size_t want = 4;
  double since = cpu();
  while (ans.size() < want) {
    if (hangs(since)) return "A 0\nH";
    ssize_t r = ::read(from_, buf, std::min(sizeof buf, want - ans.size()));
    if (r <= 0) harness_error("the Python server died");
    ans.append(buf, r);
    if (ans.size() == 4) { memcpy(&n, ans.data(), 4); want = 4 + (size_t)n; }
  }
  ans.erase(0, 4);
  if (ans.rfind("HARNESS ", 0) == 0) harness_error("Python server: %s", ans.c_str());
  return ans;
}
}
