// File-operation crash and fault injection for harness executables.
//
// The executable interposes the libc calls that change files. While armed, every such call on a path below a chosen
// root is numbered; at a chosen number the process stops (optionally after part of a write, optionally losing what
// was not yet synced, like a machine losing power) or the call fails with a chosen error.
#pragma once

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

namespace crash {

enum class Mode { kOff, kCount, kKill, kFail };

struct Config {
  std::string root;           // only operations below this directory count
  Mode mode = Mode::kCount;
  long target = -1;           // operation number (from 0) to stop or fail at
  double partial = 0;         // the part of a write at the target that still happens
  int err = ENOSPC;           // error of a failing call
  bool sticky = false;        // every mutating call from the target on fails
  bool lose_data = false;     // power loss: bytes written since a file's last fsync vanish
  std::string skip;           // operations on paths with this in them do not count, unless the path also has this:
  std::string unskip;
  double lose_meta = 0;       // power loss: the latest part of the unsynced directory changes vanishes (1 = all)
  bool strict_dirs = false;   // syncing a file does not keep its directory entry: only syncing the directory does
};

struct Outcome {
  bool killed = false;  // stopped at the target
  bool threw = false;
  std::string what;     // exception text, or whatever the body returned
  long ops = 0;         // mutating operations counted
  std::string target_op;
  bool died = false;    // crashed on its own
};

constexpr int kKilledCode = 77;

struct State {
  std::recursive_mutex m;
  Config cfg;
  long n = 0;
  bool busy = false;
  std::string target_op;
  int report_fd = -1;
  struct Ino { off_t synced = 0; bool dirty = false; };
  std::map<std::pair<dev_t, ino_t>, Ino> data;
  struct Undo { std::string dir, path; int kind; std::string from, backup; };  // 0 create 1 mkdir 2 rename 3 unlink 4 rmdir
  std::vector<Undo> undo;
  int backups = 0;
};
inline State &st() {
  static State *s = new State;
  return *s;
}
inline bool &active() {
  static bool a = false;
  return a;
}

template <class F>
F next(const char *name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define CRASH_REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__) = crash::next<ret (*)(__VA_ARGS__)>(#name)

inline std::string abs_path(int dirfd, const char *p) {
  if (!p) return "";
  if (p[0] == '/') return std::filesystem::path(p).lexically_normal().string();
  char link[64], buf[4096];
  if (dirfd == AT_FDCWD) {
    if (!getcwd(buf, sizeof buf)) return "";
  } else {
    snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
    ssize_t k = readlink(link, buf, sizeof buf - 1);
    if (k < 0) return "";
    buf[k] = 0;
  }
  return (std::filesystem::path(buf) / p).lexically_normal().string();
}
inline std::string fd_path(int fd) {
  char link[64], buf[4096];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(link, buf, sizeof buf - 1);
  if (k < 0) return "";
  buf[k] = 0;
  return buf;
}
inline bool below(const std::string &p) {
  const auto &r = st().cfg.root;
  if (!st().cfg.skip.empty() && p.find(st().cfg.skip) != std::string::npos && p.find(st().cfg.unskip) == std::string::npos) return false;
  return p.size() >= r.size() && p.compare(0, r.size(), r) == 0 && (p.size() == r.size() || p[r.size()] == '/');
}
inline std::string parent(const std::string &p) { return std::filesystem::path(p).parent_path().string(); }

// Undoes what a power loss would undo, then stops the process.
[[noreturn]] inline void stop_now() {
  State &s = st();
  s.busy = true;
  std::error_code ec;
  if (s.cfg.lose_data) {
    for (auto it = std::filesystem::recursive_directory_iterator(s.cfg.root, ec); it != std::filesystem::recursive_directory_iterator(); it.increment(ec)) {
      struct stat b;
      if (lstat(it->path().c_str(), &b) != 0 || !S_ISREG(b.st_mode)) continue;
      auto d = s.data.find({b.st_dev, b.st_ino});
      if (d != s.data.end() && d->second.dirty && b.st_size > d->second.synced) {
        if (truncate(it->path().c_str(), d->second.synced)) {}
      }
    }
  }
  if (s.cfg.lose_meta > 0) {
    size_t k = (size_t)(s.cfg.lose_meta * s.undo.size() + 0.5);
    for (size_t i = 0; i < k && i < s.undo.size(); ++i) {
      auto &u = s.undo[s.undo.size() - 1 - i];
      switch (u.kind) {
        case 0: unlink(u.path.c_str()); break;
        case 1: std::filesystem::remove_all(u.path, ec); break;
        case 2:
          std::filesystem::create_directories(parent(u.from), ec);
          std::filesystem::rename(u.path, u.from, ec);
          if (!u.backup.empty()) std::filesystem::rename(u.backup, u.path, ec);
          break;
        case 3:
          if (!u.backup.empty()) std::filesystem::rename(u.backup, u.path, ec);
          break;
        case 4: std::filesystem::create_directories(u.path, ec); break;
      }
    }
  }
  std::filesystem::remove_all(s.cfg.root + ".bk", ec);
  if (s.report_fd >= 0) {
    std::string r = "K" + std::to_string(s.n) + "\n" + s.target_op + "\n";
    if (syscall(SYS_write, s.report_fd, r.data(), r.size())) {}
  }
  _exit(kKilledCode);
}

inline std::string backup_of(const std::string &p) {
  State &s = st();
  struct stat b;
  if (s.cfg.lose_meta <= 0 || lstat(p.c_str(), &b) != 0 || !S_ISREG(b.st_mode)) return "";
  std::string bk = s.cfg.root + ".bk";
  std::error_code ec;
  std::filesystem::create_directories(bk, ec);
  bk += "/" + std::to_string(s.backups++);
  return link(p.c_str(), bk.c_str()) == 0 ? bk : "";
}

// Result of announcing an operation: go ahead, or fail with errno set.
struct Guard {
  bool counted = false, fail = false, kill = false;
  std::unique_lock<std::recursive_mutex> lock;
};
inline Guard announce(const char *op, const std::string &path) {
  Guard g;
  if (!active()) return g;
  State &s = st();
  g.lock = std::unique_lock<std::recursive_mutex>(s.m);
  if (s.busy || s.cfg.mode == Mode::kOff || path.empty() || !below(path)) {
    g.lock.unlock();
    return g;
  }
  s.busy = true;
  g.counted = true;
  long n = s.n++;
  if (n == s.cfg.target) s.target_op = std::string(op) + " " + path.substr(s.cfg.root.size());
  if (s.cfg.mode == Mode::kKill && n == s.cfg.target) {
    g.kill = true;
  } else if (s.cfg.mode == Mode::kFail && (n == s.cfg.target || (s.cfg.sticky && n > s.cfg.target && s.cfg.target >= 0))) {
    g.fail = true;
  }
  return g;
}
inline void finish(Guard &g) {
  if (g.counted) st().busy = false;
}

inline void note_write(int fd) {
  State &s = st();
  struct stat b;
  if (fstat(fd, &b) != 0 || !S_ISREG(b.st_mode)) return;
  auto it = s.data.find({b.st_dev, b.st_ino});
  if (it == s.data.end()) it = s.data.emplace(std::make_pair(b.st_dev, b.st_ino), State::Ino{b.st_size, false}).first;
  it->second.dirty = true;
}
inline void note_created(const std::string &p, bool existed) {
  State &s = st();
  struct stat b;
  if (lstat(p.c_str(), &b) != 0 || !S_ISREG(b.st_mode)) return;
  s.data[{b.st_dev, b.st_ino}] = State::Ino{0, true};
  if (!existed) s.undo.push_back({parent(p), p, 0, "", ""});
}
inline void note_sync(int fd, const std::string &p) {
  State &s = st();
  struct stat b;
  if (fstat(fd, &b) != 0) return;
  if (S_ISREG(b.st_mode)) {
    s.data[{b.st_dev, b.st_ino}] = State::Ino{b.st_size, false};
    // Syncing a new file also makes its directory entry durable, with the earlier changes of that directory and the
    // directories above it (as journaling file systems do).
    size_t at = s.undo.size();
    for (size_t i = 0; i < s.undo.size(); ++i) {
      if (s.undo[i].kind == 0 && s.undo[i].path == p) at = i;
    }
    if (at < s.undo.size() && !s.cfg.strict_dirs) {
      std::string dir = parent(p);
      std::vector<State::Undo> keep;
      for (size_t i = 0; i < s.undo.size(); ++i) {
        auto &u = s.undo[i];
        bool done = i <= at && (u.dir == dir || (u.kind == 1 && (p.compare(0, u.path.size() + 1, u.path + "/") == 0)));
        if (!done) keep.push_back(u);
      }
      s.undo.swap(keep);
    }
  } else if (S_ISDIR(b.st_mode)) {
    auto kept_by = [&](auto &u) { return u.dir == p || (u.kind == 1 && (u.path == p || p.compare(0, u.path.size() + 1, u.path + "/") == 0)); };
    for (size_t i = 0; i < s.undo.size(); ++i) {
      if (s.undo[i].kind != 2 || !kept_by(s.undo[i])) continue;
      // the rename stays: what happened below the old name is found below the new one from now on
      const std::string from = s.undo[i].from, to = s.undo[i].path;
      auto moved = [&](std::string &n) {
        if (n == from || n.compare(0, from.size() + 1, from + "/") == 0) n = to + n.substr(from.size());
      };
      for (size_t j = 0; j < i; ++j) {
        if (s.undo[j].dir == from || s.undo[j].dir.compare(0, from.size() + 1, from + "/") == 0) {
          moved(s.undo[j].dir);
          moved(s.undo[j].path);
          if (!s.undo[j].from.empty()) moved(s.undo[j].from);
        }
      }
    }
    std::erase_if(s.undo, kept_by);
  }
}

inline void arm(Config cfg) {
  State &s = st();
  std::lock_guard<std::recursive_mutex> l(s.m);
  s.cfg = std::move(cfg);
  s.cfg.root = std::filesystem::path(s.cfg.root).lexically_normal().string();
  s.n = 0;
  s.busy = false;
  s.target_op.clear();
  s.data.clear();
  s.undo.clear();
  active() = true;
}
inline long disarm() {
  State &s = st();
  std::lock_guard<std::recursive_mutex> l(s.m);
  active() = false;
  s.cfg.mode = Mode::kOff;
  std::error_code ec;
  if (!s.cfg.root.empty()) std::filesystem::remove_all(s.cfg.root + ".bk", ec);
  return s.n;
}

// Runs the body in a child process under the given configuration. What the body returns is passed back.
inline Outcome run(const Config &cfg, const std::function<std::string()> &body) {
  Outcome o;
  int p[2];
  if (pipe(p) != 0) throw std::runtime_error("pipe");
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    st().report_fd = p[1];
    std::string msg;
    char tag = 'R';
    arm(cfg);
    try {
      msg = body();
    } catch (const std::exception &e) {
      tag = 'T';
      msg = e.what();
    } catch (...) {
      tag = 'T';
      msg = "unknown exception";
    }
    std::string target_op = st().target_op;
    long n = disarm();
    std::string r = tag + std::to_string(n) + "\n" + target_op + "\n" + msg;
    size_t off = 0;
    while (off < r.size()) {
      long k = syscall(SYS_write, p[1], r.data() + off, r.size() - off);
      if (k <= 0) break;
      off += (size_t)k;
    }
    _exit(0);
  }
  close(p[1]);
  std::string r;
  char buf[4096];
  for (;;) {
    ssize_t k = read(p[0], buf, sizeof buf);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) break;
    r.append(buf, (size_t)k);
  }
  close(p[0]);
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
  if (r.empty()) {
    o.died = true;
    o.what = WIFSIGNALED(ws) ? std::string("signal ") + strsignal(WTERMSIG(ws)) : "exit code " + std::to_string(WEXITSTATUS(ws));
    return o;
  }
  o.killed = r[0] == 'K';
  o.threw = r[0] == 'T';
  size_t a = r.find('\n'), b = r.find('\n', a + 1);
  o.ops = std::stol(r.substr(1, a - 1));
  o.target_op = r.substr(a + 1, b - a - 1);
  o.what = r.substr(b + 1);
  return o;
}

}  // namespace crash

// ---- interposed calls -------------------------------------------------------------------------------------------

#define CRASH_SIMPLE_FAIL(g, ret)      \
  if ((g).kill) crash::stop_now();     \
  if ((g).fail) {                      \
    errno = crash::st().cfg.err;       \
    crash::finish(g);                  \
    return ret;                        \
  }

extern "C" {

ssize_t write(int fd, const void *buf, size_t count) {
  CRASH_REAL(ssize_t, write, int, const void *, size_t);
  if (!crash::active()) return real_write(fd, buf, count);
  auto g = crash::announce("write", crash::fd_path(fd));
  if (!g.counted) return real_write(fd, buf, count);
  crash::note_write(fd);
  if (g.kill || g.fail) {
    size_t part = (size_t)(crash::st().cfg.partial * (double)count);
    if (g.kill) {
      if (part) real_write(fd, buf, part);
      crash::stop_now();
    }
    // A short write first, so that the retry meets the error, as a filling disk behaves.
    if (part && part < count) {
      ssize_t r = real_write(fd, buf, part);
      crash::st().cfg.target = crash::st().n;
      crash::finish(g);
      return r;
    }
    errno = crash::st().cfg.err;
    crash::finish(g);
    return -1;
  }
  ssize_t r = real_write(fd, buf, count);
  int e = errno;
  crash::finish(g);
  errno = e;
  return r;
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  CRASH_REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!crash::active()) return real_writev(fd, iov, cnt);
  auto g = crash::announce("writev", crash::fd_path(fd));
  if (!g.counted) return real_writev(fd, iov, cnt);
  crash::note_write(fd);
  if (g.kill) {
    size_t total = 0;
    for (int i = 0; i < cnt; ++i) total += iov[i].iov_len;
    size_t part = (size_t)(crash::st().cfg.partial * (double)total);
    CRASH_REAL(ssize_t, write, int, const void *, size_t);
    for (int i = 0; i < cnt && part; ++i) {
      size_t k = iov[i].iov_len < part ? iov[i].iov_len : part;
      if (k && real_write(fd, iov[i].iov_base, k) < 0) break;
      part -= k;
    }
    crash::stop_now();
  }
  CRASH_SIMPLE_FAIL(g, -1)
  ssize_t r = real_writev(fd, iov, cnt);
  int e = errno;
  crash::finish(g);
  errno = e;
  return r;
}
#define CRASH_PWRITE(name, off_type)                                                                   \
  ssize_t name(int fd, const void *buf, size_t count, off_type off) {                                  \
    CRASH_REAL(ssize_t, name, int, const void *, size_t, off_type);                                    \
    if (!crash::active()) return real_##name(fd, buf, count, off);                                     \
    auto g = crash::announce(#name, crash::fd_path(fd));                                               \
    if (!g.counted) return real_##name(fd, buf, count, off);                                           \
    crash::note_write(fd);                                                                             \
    if (g.kill) {                                                                                      \
      size_t part = (size_t)(crash::st().cfg.partial * (double)count);                                 \
      if (part && real_##name(fd, buf, part, off) < 0) {}                                              \
      crash::stop_now();                                                                               \
    }                                                                                                  \
    CRASH_SIMPLE_FAIL(g, -1)                                                                           \
    ssize_t r = real_##name(fd, buf, count, off);                                                      \
    int e = errno;                                                                                     \
    crash::finish(g);                                                                                  \
    errno = e;                                                                                         \
    return r;                                                                                          \
  }
CRASH_PWRITE(pwrite, off_t)
CRASH_PWRITE(pwrite64, off64_t)

static inline int crash_open_common(const char *name, int dirfd, const char *path, int flags, mode_t mode) {
  CRASH_REAL(int, openat, int, const char *, int, ...);
  bool mutates = (flags & (O_CREAT | O_TRUNC)) != 0;
  if (!crash::active() || !mutates) return real_openat(dirfd, path, flags, mode);
  std::string p = crash::abs_path(dirfd, path);
  struct stat b;
  bool existed = lstat(p.c_str(), &b) == 0;
  if (existed && !(flags & O_TRUNC)) return real_openat(dirfd, path, flags, mode);
  auto g = crash::announce(name, p);
  if (!g.counted) return real_openat(dirfd, path, flags, mode);
  CRASH_SIMPLE_FAIL(g, -1)
  int fd = real_openat(dirfd, path, flags, mode);
  int e = errno;
  if (fd >= 0) crash::note_created(p, existed);
  crash::finish(g);
  errno = e;
  return fd;
}
#define CRASH_OPEN(name)                                        \
  int name(const char *path, int flags, ...) {                  \
    mode_t mode = 0;                                            \
    if (flags & (O_CREAT | O_TMPFILE)) {                        \
      va_list ap;                                               \
      va_start(ap, flags);                                      \
      mode = va_arg(ap, mode_t);                                \
      va_end(ap);                                               \
    }                                                           \
    return crash_open_common("open", AT_FDCWD, path, flags, mode); \
  }
CRASH_OPEN(open)
CRASH_OPEN(open64)
int openat64(int dirfd, const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return crash_open_common("open", dirfd, path, flags, mode);
}
#define CRASH_FOPEN(name)                                                       \
  FILE *name(const char *path, const char *mode) {                              \
    CRASH_REAL(FILE *, name, const char *, const char *);                       \
    bool w = strpbrk(mode, "wa") != nullptr;                                    \
    if (!crash::active() || !w) return real_##name(path, mode);                 \
    std::string p = crash::abs_path(AT_FDCWD, path);                            \
    struct stat b;                                                              \
    bool existed = lstat(p.c_str(), &b) == 0;                                   \
    if (existed && !strchr(mode, 'w')) return real_##name(path, mode);          \
    auto g = crash::announce("fopen", p);                                       \
    if (!g.counted) return real_##name(path, mode);                             \
    CRASH_SIMPLE_FAIL(g, nullptr)                                               \
    FILE *f = real_##name(path, mode);                                          \
    int e = errno;                                                              \
    if (f) crash::note_created(p, existed);                                     \
    crash::finish(g);                                                           \
    errno = e;                                                                  \
    return f;                                                                   \
  }
CRASH_FOPEN(fopen)
CRASH_FOPEN(fopen64)

#define CRASH_PATH_OP(name, kind, undo_kind)                                     \
  int name(const char *path) {                                                   \
    CRASH_REAL(int, name, const char *);                                         \
    if (!crash::active()) return real_##name(path);                              \
    std::string p = crash::abs_path(AT_FDCWD, path);                             \
    struct stat b;                                                               \
    if (lstat(p.c_str(), &b) != 0) return real_##name(path);                     \
    auto g = crash::announce(#name, p);                                          \
    if (!g.counted) return real_##name(path);                                    \
    CRASH_SIMPLE_FAIL(g, -1)                                                     \
    std::string bk = crash::backup_of(p);                                        \
    int r = real_##name(path);                                                   \
    int e = errno;                                                               \
    if (r == 0) crash::st().undo.push_back({crash::parent(p), p, S_ISDIR(b.st_mode) ? 4 : 3, "", bk}); \
    crash::finish(g);                                                            \
    errno = e;                                                                   \
    return r;                                                                    \
  }
CRASH_PATH_OP(unlink, 0, 3)
CRASH_PATH_OP(rmdir, 0, 4)
CRASH_PATH_OP(remove, 0, 3)

int unlinkat(int dirfd, const char *path, int flags) {
  CRASH_REAL(int, unlinkat, int, const char *, int);
  if (!crash::active()) return real_unlinkat(dirfd, path, flags);
  std::string p = crash::abs_path(dirfd, path);
  struct stat b;
  if (lstat(p.c_str(), &b) != 0) return real_unlinkat(dirfd, path, flags);
  auto g = crash::announce("unlinkat", p);
  if (!g.counted) return real_unlinkat(dirfd, path, flags);
  CRASH_SIMPLE_FAIL(g, -1)
  std::string bk = crash::backup_of(p);
  int r = real_unlinkat(dirfd, path, flags);
  int e = errno;
  if (r == 0) crash::st().undo.push_back({crash::parent(p), p, S_ISDIR(b.st_mode) ? 4 : 3, "", bk});
  crash::finish(g);
  errno = e;
  return r;
}
int mkdir(const char *path, mode_t mode) {
  CRASH_REAL(int, mkdir, const char *, mode_t);
  if (!crash::active()) return real_mkdir(path, mode);
  std::string p = crash::abs_path(AT_FDCWD, path);
  struct stat b;
  if (lstat(p.c_str(), &b) == 0) return real_mkdir(path, mode);
  auto g = crash::announce("mkdir", p);
  if (!g.counted) return real_mkdir(path, mode);
  CRASH_SIMPLE_FAIL(g, -1)
  int r = real_mkdir(path, mode);
  int e = errno;
  if (r == 0) crash::st().undo.push_back({crash::parent(p), p, 1, "", ""});
  crash::finish(g);
  errno = e;
  return r;
}
int rename(const char *from, const char *to) {
  CRASH_REAL(int, rename, const char *, const char *);
  if (!crash::active()) return real_rename(from, to);
  std::string a = crash::abs_path(AT_FDCWD, from), p = crash::abs_path(AT_FDCWD, to);
  auto g = crash::announce("rename", p);
  if (!g.counted) return real_rename(from, to);
  CRASH_SIMPLE_FAIL(g, -1)
  std::string bk = crash::backup_of(p);
  int r = real_rename(from, to);
  int e = errno;
  if (r == 0) crash::st().undo.push_back({crash::parent(p), p, 2, a, bk});
  crash::finish(g);
  errno = e;
  return r;
}
static inline int crash_renameat2(int fd1, const char *from, int fd2, const char *to, unsigned flags) {
  if (!crash::active()) return (int)renameat2(fd1, from, fd2, to, flags);
  std::string a = crash::abs_path(fd1, from), p = crash::abs_path(fd2, to);
  auto g = crash::announce("renameat2", p);
  if (!g.counted) return (int)renameat2(fd1, from, fd2, to, flags);
  CRASH_SIMPLE_FAIL(g, -1)
  std::string bk = crash::backup_of(p);
  int r = renameat2(fd1, from, fd2, to, flags);
  int e = errno;
  if (r == 0) crash::st().undo.push_back({crash::parent(p), p, 2, a, bk});
  crash::finish(g);
  errno = e;
  return r;
}
int renameat(int fd1, const char *from, int fd2, const char *to) { return crash_renameat2(fd1, from, fd2, to, 0); }
long syscall(long nr, ...) {
  CRASH_REAL(long, syscall, long, ...);
  va_list ap;
  va_start(ap, nr);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (nr == SYS_renameat2) return crash_renameat2((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
  return real_syscall(nr, a, b, c, d, e, f);
}
#define CRASH_SYNC(name)                                    \
  int name(int fd) {                                        \
    CRASH_REAL(int, name, int);                             \
    if (!crash::active()) return real_##name(fd);           \
    std::string p = crash::fd_path(fd);                     \
    auto g = crash::announce(#name, p);                     \
    if (!g.counted) return real_##name(fd);                 \
    CRASH_SIMPLE_FAIL(g, -1)                                \
    crash::note_sync(fd, p);                                \
    crash::finish(g);                                       \
    return 0;                                               \
  }
CRASH_SYNC(fsync)
CRASH_SYNC(fdatasync)
#define CRASH_FTRUNC(name, off_type)                               \
  int name(int fd, off_type len) {                                 \
    CRASH_REAL(int, name, int, off_type);                          \
    if (!crash::active()) return real_##name(fd, len);             \
    auto g = crash::announce(#name, crash::fd_path(fd));           \
    if (!g.counted) return real_##name(fd, len);                   \
    CRASH_SIMPLE_FAIL(g, -1)                                       \
    crash::note_write(fd);                                         \
    int r = real_##name(fd, len);                                  \
    int e = errno;                                                 \
    crash::finish(g);                                              \
    errno = e;                                                     \
    return r;                                                      \
  }
CRASH_FTRUNC(ftruncate, off_t)
CRASH_FTRUNC(ftruncate64, off64_t)
#define CRASH_TRUNC(name, off_type)                                \
  int name(const char *path, off_type len) {                       \
    CRASH_REAL(int, name, const char *, off_type);                 \
    if (!crash::active()) return real_##name(path, len);           \
    auto g = crash::announce(#name, crash::abs_path(AT_FDCWD, path)); \
    if (!g.counted) return real_##name(path, len);                 \
    CRASH_SIMPLE_FAIL(g, -1)                                       \
    int r = real_##name(path, len);                                \
    int e = errno;                                                 \
    crash::finish(g);                                              \
    errno = e;                                                     \
    return r;                                                      \
  }
CRASH_TRUNC(truncate, off_t)
CRASH_TRUNC(truncate64, off64_t)
ssize_t sendfile(int out, int in, off_t *off, size_t count) {
  CRASH_REAL(ssize_t, sendfile, int, int, off_t *, size_t);
  if (!crash::active()) return real_sendfile(out, in, off, count);
  auto g = crash::announce("sendfile", crash::fd_path(out));
  if (!g.counted) return real_sendfile(out, in, off, count);
  CRASH_SIMPLE_FAIL(g, -1)
  crash::note_write(out);
  ssize_t r = real_sendfile(out, in, off, count);
  int e = errno;
  crash::finish(g);
  errno = e;
  return r;
}
ssize_t copy_file_range(int in, off64_t *oin, int out, off64_t *oout, size_t count, unsigned flags) {
  CRASH_REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  if (!crash::active()) return real_copy_file_range(in, oin, out, oout, count, flags);
  auto g = crash::announce("copy_file_range", crash::fd_path(out));
  if (!g.counted) return real_copy_file_range(in, oin, out, oout, count, flags);
  CRASH_SIMPLE_FAIL(g, -1)
  crash::note_write(out);
  ssize_t r = real_copy_file_range(in, oin, out, oout, count, flags);
  int e = errno;
  crash::finish(g);
  errno = e;
  return r;
}
}  // extern "C"
