// File-system fault injector: interposes the mutating libc calls of this process.
//   COUNT : count calls;  KILL: die before call n;  TORN: do part of write n, then die;
//   POWER : die before call n and drop everything that was not fsynced (contents, not names);
//   NAMES : as POWER, and additionally undo every creation, removal and rename whose directory was not fsynced since;
//   RENAMES : as POWER, and additionally undo every rename whose directory was not fsynced since.
//   FAIL  : make call n fail with an errno, once.
//   SHORT : write n stores only a part and the next write to that path fails (disk full); other calls fail.
// Only calls whose path lies under `root` are considered.  Include in exactly one translation unit.
#pragma once
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdint>
#include <map>
#include <mutex>
#include <string>
#include <vector>

namespace crashfs {
enum Mode { OFF, COUNT, KILL, TORN, POWER, FAIL, SHORT, NAMES, RENAMES };
struct Undo {  // a change of names that is not yet durable
  enum Kind { CREATE, MKDIR, RENAME, REMOVE } kind;
  std::string a, b, backup;  // RENAME a -> b; otherwise a; backup: the file that was replaced or removed
};
struct Inode {
  off_t synced = 0;
  std::string path;
  bool dirty = false;
};
struct State {
  Mode mode = OFF;
  std::string root;
  long n = 0;        // calls seen
  long target = -1;  // call to act on
  int err = EIO;
  long acted = 0;
  std::string short_path;
  std::map<std::pair<uint64_t, uint64_t>, Inode> inodes;
  std::vector<std::string> trace;
  bool keep_trace = false;
  bool reads = false;  // opening a file for reading is a call, too
  std::vector<Undo> undo;
  bool renames_only = false;
  int backups = 0;
  std::recursive_mutex mu;
};
inline State *st = nullptr;
inline thread_local int inside = 0;

inline std::string parent_of(const std::string &p) {
  auto k = p.rfind('/');
  return k == std::string::npos ? "." : k == 0 ? "/" : p.substr(0, k);
}
inline void rebase(std::string &p, const std::string &a, const std::string &b) {
  if (p == a) p = b;
  else if (p.compare(0, a.size() + 1, a + "/") == 0) p = b + p.substr(a.size());
}
inline void power_cut() {
  for (auto &[k, i] : st->inodes) {
    if (!i.dirty) continue;
    struct stat s;
    if (stat(i.path.c_str(), &s) == 0 && s.st_ino == k.second && s.st_size > i.synced) {
      if (::truncate(i.path.c_str(), i.synced) != 0) {}
    }
  }
}
inline void lose_names() {
  for (size_t k = st->undo.size(); k-- > 0;) {
    auto u = st->undo[k];
    if (st->renames_only && u.kind != Undo::RENAME) continue;
    switch (u.kind) {
      case Undo::CREATE: ::unlink(u.a.c_str()); break;
      case Undo::MKDIR: { std::error_code ec; std::filesystem::remove_all(u.a, ec); break; }
      case Undo::RENAME:
        ::rename(u.b.c_str(), u.a.c_str());
        if (!u.backup.empty()) ::rename(u.backup.c_str(), u.b.c_str());
        for (size_t j = 0; j < k; ++j) rebase(st->undo[j].a, u.b, u.a), rebase(st->undo[j].b, u.b, u.a);
        break;
      case Undo::REMOVE: if (!u.backup.empty()) ::rename(u.backup.c_str(), u.a.c_str()); break;
    }
  }
}
inline std::string fd_path(int fd) {
  char l[64], b[4096];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1);
  if (n <= 0) return {};
  b[n] = 0;
  return b;
}
inline std::string at_path(int dfd, const char *p) {
  if (!p) return {};
  if (p[0] == '/') return p;
  std::string base;
  if (dfd == AT_FDCWD) {
    char b[4096];
    base = getcwd(b, sizeof b) ? b : "";
  } else {
    base = fd_path(dfd);
  }
  return base + "/" + p;
}
inline bool under(const std::string &p) { return !st->root.empty() && p.compare(0, st->root.size(), st->root) == 0; }
// returns: 0 go on, 1 fail with st->err, 2 torn write (caller writes a part and dies)
inline int point(const char *what, const std::string &path, bool is_write = false) {
  if (!st || st->mode == OFF || inside) return 0;
  if (!under(path)) return 0;
  std::lock_guard<std::recursive_mutex> g(st->mu);
  long k = st->n++;
  if (st->mode == SHORT && is_write && !st->short_path.empty() && st->short_path == path) { st->short_path.clear(); return 1; }
  if (st->keep_trace) st->trace.push_back(std::string(what) + " " + path);
  if (k != st->target) return 0;
  st->acted++;
  switch (st->mode) {
    case KILL: _exit(137);
    case POWER: inside++; power_cut(); _exit(137);
    case NAMES: inside++; power_cut(); lose_names(); _exit(137);
    case TORN: if (is_write) return 2; _exit(137);
    case FAIL: return 1;
    case SHORT: if (!is_write) return 1; st->short_path = path; return 3;
    default: return 0;
  }
}
inline void note_write(int fd) {
  if (!st || (st->mode != POWER && st->mode != NAMES) || inside) return;
  struct stat s;
  if (fstat(fd, &s) != 0 || !S_ISREG(s.st_mode)) return;
  auto p = fd_path(fd);
  if (!under(p)) return;
  std::lock_guard<std::recursive_mutex> g(st->mu);
  auto &i = st->inodes[{s.st_dev, s.st_ino}];
  i.path = p;
  i.dirty = true;
}
inline void commit_names(const std::string &dir);

inline void note_sync(int fd) {
  if (!st || (st->mode != POWER && st->mode != NAMES) || inside) return;
  struct stat s;
  if (fstat(fd, &s) != 0) return;
  std::lock_guard<std::recursive_mutex> g(st->mu);
  if (S_ISDIR(s.st_mode)) {
    if (st->mode == NAMES) { inside++; commit_names(fd_path(fd)); inside--; }
    return;
  }
  auto it = st->inodes.find({s.st_dev, s.st_ino});
  if (it != st->inodes.end()) {
    it->second.synced = s.st_size;
    it->second.dirty = false;
  }
}
// before a name goes away: keep what it named
inline std::string keep(const std::string &p) {
  if (!st || st->mode != NAMES || inside || !under(p)) return {};
  struct stat s;
  if (lstat(p.c_str(), &s) != 0 || !S_ISREG(s.st_mode)) return {};
  std::lock_guard<std::recursive_mutex> g(st->mu);
  std::string b = st->root + ".kept" + std::to_string(getpid()) + "_" + std::to_string(st->backups++);
  return ::link(p.c_str(), b.c_str()) == 0 ? b : std::string();
}
inline void note_name(Undo::Kind k, const std::string &a, const std::string &b = {}, const std::string &backup = {}) {
  if (!st || st->mode != NAMES || inside || !under(a)) return;
  std::lock_guard<std::recursive_mutex> g(st->mu);
  if (k == Undo::RENAME) for (auto &u : st->undo) rebase(u.a, a, b), rebase(u.b, a, b);
  st->undo.push_back({k, a, b, backup});
}
inline void commit_names(const std::string &dir) {
  for (size_t k = 0; k < st->undo.size();) {
    auto &u = st->undo[k];
    if (parent_of(u.kind == Undo::RENAME ? u.b : u.a) != dir) { ++k; continue; }
    if (!u.backup.empty()) ::unlink(u.backup.c_str());
    st->undo.erase(st->undo.begin() + static_cast<long>(k));
  }
}
inline void note_rename(const std::string &a, const std::string &b) {
  if (!st || (st->mode != POWER && st->mode != NAMES) || inside) return;
  std::lock_guard<std::recursive_mutex> g(st->mu);
  for (auto &[k, i] : st->inodes) {
    if (i.path == a) i.path = b;
    else if (i.path.compare(0, a.size() + 1, a + "/") == 0) i.path = b + i.path.substr(a.size());
  }
}
inline void note_trunc(int fd) {
  if (!st || (st->mode != POWER && st->mode != NAMES) || inside) return;
  struct stat s;
  if (fstat(fd, &s) != 0 || !S_ISREG(s.st_mode)) return;
  auto p = fd_path(fd);
  if (!under(p)) return;
  std::lock_guard<std::recursive_mutex> g(st->mu);
  auto &i = st->inodes[{s.st_dev, s.st_ino}];
  i.path = p;
  if (i.synced > s.st_size) i.synced = s.st_size;
}
// pre-existing files count as synced at their current size
inline void assume_existing_synced(const std::string &dir) {
  std::string cmd;
  inside++;
  for (auto &e : std::filesystem::recursive_directory_iterator(dir)) {
    struct stat s;
    if (stat(e.path().c_str(), &s) == 0 && S_ISREG(s.st_mode)) {
      auto &i = st->inodes[{s.st_dev, s.st_ino}];
      i.path = e.path().string();
      i.synced = s.st_size;
    }
  }
  inside--;
}
inline void arm(Mode m, const std::string &root, long target, int err = EIO) {
  if (!st) st = new State;
  st->mode = OFF;
  st->root = root;
  st->n = 0;
  st->acted = 0;
  st->short_path.clear();
  st->target = target;
  st->err = err;
  st->inodes.clear();
  st->undo.clear();
  st->renames_only = m == RENAMES;
  if (m == RENAMES) m = NAMES;
  if (m == POWER || m == NAMES) assume_existing_synced(root);
  st->mode = m;
}
inline long disarm() {
  if (!st) return 0;
  st->mode = OFF;
  return st->n;
}
inline bool names() { return st && st->mode == NAMES && !inside; }
template <class F>
int removing(const std::string &p, F f) {
  if (!names()) return f();
  std::string kept = keep(p);
  int k = f();
  if (k == 0 && !kept.empty()) note_name(Undo::REMOVE, p, {}, kept);
  return k;
}
template <class F>
F real(const char *name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}  // namespace crashfs

#define CFS_REAL(name) static auto r = crashfs::real<decltype(&::name)>(#name)
extern "C" {
inline __attribute__((used)) int cfs_used = 0;
ssize_t write(int fd, const void *b, size_t n) {
  CFS_REAL(write);
  if (crashfs::st && crashfs::st->mode != crashfs::OFF && !crashfs::inside && fd > 2) {
    int a = crashfs::point("write", crashfs::fd_path(fd), true);
    if (a == 1) { errno = crashfs::st->err; return -1; }
    if (a == 2) { if (r(fd, b, n / 2) < 0) {} _exit(137); }
    if (a == 3) n = n > 1 ? n / 2 : n;
    ssize_t k = r(fd, b, n);
    if (k > 0) crashfs::note_write(fd);
    return k;
  }
  return r(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  CFS_REAL(writev);
  if (crashfs::st && crashfs::st->mode != crashfs::OFF && !crashfs::inside) {
    int a = crashfs::point("writev", crashfs::fd_path(fd), true);
    if (a == 1) { errno = crashfs::st->err; return -1; }
    if (a == 3) c = 1;
    if (a == 2) {
      size_t t = 0;
      std::string all;
      for (int i = 0; i < c; ++i) { all.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len); t += v[i].iov_len; }
      crashfs::inside++;
      if (::write(fd, all.data(), t / 2) < 0) {}
      _exit(137);
    }
    ssize_t k = r(fd, v, c);
    if (k > 0) crashfs::note_write(fd);
    return k;
  }
  return r(fd, v, c);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  CFS_REAL(pwrite64);
  if (crashfs::st && crashfs::st->mode != crashfs::OFF && !crashfs::inside) {
    int a = crashfs::point("pwrite", crashfs::fd_path(fd), true);
    if (a == 1) { errno = crashfs::st->err; return -1; }
    if (a == 2) { if (r(fd, b, n / 2, o) < 0) {} _exit(137); }
    if (a == 3) n = n > 1 ? n / 2 : n;
    ssize_t k = r(fd, b, n, o);
    if (k > 0) crashfs::note_write(fd);
    return k;
  }
  return r(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
size_t fwrite_unused_cfs(void) { return 0; }
int rename(const char *a, const char *b) {
  CFS_REAL(rename);
  if (crashfs::point("rename", crashfs::at_path(AT_FDCWD, b)) == 1) { errno = crashfs::st->err; return -1; }
  std::string kept = crashfs::names() ? crashfs::keep(crashfs::at_path(AT_FDCWD, b)) : std::string();
  int k = r(a, b);
  if (k == 0) {
    crashfs::note_rename(crashfs::at_path(AT_FDCWD, a), crashfs::at_path(AT_FDCWD, b));
    if (crashfs::names()) crashfs::note_name(crashfs::Undo::RENAME, crashfs::at_path(AT_FDCWD, a), crashfs::at_path(AT_FDCWD, b), kept);
  }
  return k;
}
int unlink(const char *a) {
  CFS_REAL(unlink);
  if (crashfs::point("unlink", crashfs::at_path(AT_FDCWD, a)) == 1) { errno = crashfs::st->err; return -1; }
  return crashfs::removing(crashfs::at_path(AT_FDCWD, a), [&] { return r(a); });
}
int remove(const char *a) noexcept {
  CFS_REAL(remove);
  if (crashfs::point("remove", crashfs::at_path(AT_FDCWD, a)) == 1) { errno = crashfs::st->err; return -1; }
  return crashfs::removing(crashfs::at_path(AT_FDCWD, a), [&] { return r(a); });
}
int unlinkat(int d, const char *a, int f) {
  CFS_REAL(unlinkat);
  if (crashfs::point("unlinkat", crashfs::at_path(d, a)) == 1) { errno = crashfs::st->err; return -1; }
  return crashfs::removing(crashfs::at_path(d, a), [&] { return r(d, a, f); });
}
int rmdir(const char *a) {
  CFS_REAL(rmdir);
  if (crashfs::point("rmdir", crashfs::at_path(AT_FDCWD, a)) == 1) { errno = crashfs::st->err; return -1; }
  return r(a);
}
int mkdir(const char *a, mode_t m) {
  CFS_REAL(mkdir);
  if (crashfs::point("mkdir", crashfs::at_path(AT_FDCWD, a)) == 1) { errno = crashfs::st->err; return -1; }
  int k = r(a, m);
  if (k == 0 && crashfs::names()) crashfs::note_name(crashfs::Undo::MKDIR, crashfs::at_path(AT_FDCWD, a));
  return k;
}
int fsync(int fd) {
  CFS_REAL(fsync);
  if (crashfs::st && crashfs::st->mode != crashfs::OFF && !crashfs::inside) {
    if (crashfs::point("fsync", crashfs::fd_path(fd)) == 1) { errno = crashfs::st->err; return -1; }
    int k = r(fd);
    if (k == 0) crashfs::note_sync(fd);
    return k;
  }
  return r(fd);
}
int fdatasync(int fd) {
  CFS_REAL(fdatasync);
  if (crashfs::st && crashfs::st->mode != crashfs::OFF && !crashfs::inside) {
    if (crashfs::point("fdatasync", crashfs::fd_path(fd)) == 1) { errno = crashfs::st->err; return -1; }
    int k = r(fd);
    if (k == 0) crashfs::note_sync(fd);
    return k;
  }
  return r(fd);
}
int ftruncate64(int fd, off64_t n) {
  CFS_REAL(ftruncate64);
  if (crashfs::st && crashfs::st->mode != crashfs::OFF && !crashfs::inside) {
    if (crashfs::point("ftruncate", crashfs::fd_path(fd)) == 1) { errno = crashfs::st->err; return -1; }
    int k = r(fd, n);
    crashfs::note_write(fd);
    crashfs::note_trunc(fd);
    return k;
  }
  return r(fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int cfs_open(int (*r)(const char *, int, ...), const char *p, int f, mode_t m) {
  if ((f & (O_CREAT | O_TRUNC)) && crashfs::st && crashfs::st->mode != crashfs::OFF && !crashfs::inside) {
    if (crashfs::point("open", crashfs::at_path(AT_FDCWD, p)) == 1) { errno = crashfs::st->err; return -1; }
    struct stat was;
    bool fresh = crashfs::names() && lstat(p, &was) != 0;
    int fd = r(p, f, m);
    if (fd >= 0 && fresh) crashfs::note_name(crashfs::Undo::CREATE, crashfs::at_path(AT_FDCWD, p));
    if (fd >= 0) { crashfs::note_write(fd); crashfs::note_trunc(fd); }
    return fd;
  }
  if (crashfs::st && crashfs::st->reads && crashfs::st->mode != crashfs::OFF && !crashfs::inside) {
    if (crashfs::point("open-read", crashfs::at_path(AT_FDCWD, p)) == 1) { errno = EMFILE; return -1; }
  }
  return r(p, f, m);
}
int open(const char *p, int f, ...) {
  CFS_REAL(open);
  va_list v; va_start(v, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(v, mode_t) : 0; va_end(v);
  return cfs_open(r, p, f, m);
}
int open64(const char *p, int f, ...) {
  CFS_REAL(open64);
  va_list v; va_start(v, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(v, mode_t) : 0; va_end(v);
  return cfs_open(r, p, f, m);
}
FILE *fopen64(const char *p, const char *m) {
  CFS_REAL(fopen64);
  bool w = strpbrk(m, "wa+") != nullptr;
  if (w && crashfs::point("open", crashfs::at_path(AT_FDCWD, p)) == 1) { errno = crashfs::st->err; return nullptr; }
  struct stat was;
  bool fresh = w && crashfs::names() && lstat(p, &was) != 0;
  FILE *f = r(p, m);
  if (f && fresh) crashfs::note_name(crashfs::Undo::CREATE, crashfs::at_path(AT_FDCWD, p));
  if (f && w) { crashfs::note_write(fileno(f)); crashfs::note_trunc(fileno(f)); }
  return f;
}
FILE *fopen(const char *p, const char *m) {
  CFS_REAL(fopen);
  bool w = strpbrk(m, "wa+") != nullptr;
  if (w && crashfs::point("open", crashfs::at_path(AT_FDCWD, p)) == 1) { errno = crashfs::st->err; return nullptr; }
  struct stat was;
  bool fresh = w && crashfs::names() && lstat(p, &was) != 0;
  FILE *f = r(p, m);
  if (f && fresh) crashfs::note_name(crashfs::Undo::CREATE, crashfs::at_path(AT_FDCWD, p));
  if (f && w) { crashfs::note_write(fileno(f)); crashfs::note_trunc(fileno(f)); }
  return f;
}
long syscall(long num, ...) noexcept {
  static auto r = crashfs::real<long (*)(long, ...)>("syscall");
  va_list v; va_start(v, num);
  long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
  va_end(v);
  if (num == SYS_renameat2) {
    auto from = crashfs::at_path(static_cast<int>(a), reinterpret_cast<const char *>(b));
    auto to = crashfs::at_path(static_cast<int>(c), reinterpret_cast<const char *>(d));
    if (crashfs::st && crashfs::st->mode != crashfs::OFF && crashfs::point("renameat2", to) == 1) { errno = crashfs::st->err; return -1; }
    long k = r(num, a, b, c, d, e, f);
    if (k == 0) {
      crashfs::note_rename(from, to);
      if (crashfs::names()) crashfs::note_name(crashfs::Undo::RENAME, from, to);
    }
    return k;
  }
  return r(num, a, b, c, d, e, f);
}
}
