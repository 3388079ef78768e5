#include "vos.h"
#include "mc.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/fs.h>
#include <poll.h>
#include <signal.h>
#include <sys/eventfd.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/mount.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

Vos vos;
static const int FDBASE = 600;

long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long rawe(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
template <class F> static F next(const char *n, F) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) ([]() { static auto f = next(#name, &::name); return f; }())

int real_fork() { static pid_t (*f)() = (pid_t(*)())dlsym(RTLD_NEXT, "fork"); return f(); }

std::string Ev::str() const {
  char buf[700]; snprintf(buf, sizeof buf, "@%lld.%03llds %s%s %s a=%ld b=%ld ret=%ld%s", (long long)t / 1000, (long long)t % 1000,
    helper ? "[helper] " : "", kind.c_str(), path.c_str(), a, this->b, ret, err ? (" errno=" + std::to_string(err)).c_str() : "");
  return buf;
}

// ---------------------------------------------------------------- world helpers
InodeP Vos::put(const std::string &path, const std::string &data, mode_t mode) {
  auto i = std::make_shared<Inode>(); i->data = data; i->mode = mode; i->ino = next_ino++;
  files[path] = i; size_t p = path.rfind('/'); if (p != std::string::npos) mkdirs(path.substr(0, p));
  return i;
}
void Vos::mkdirs(const std::string &p) {
  std::string q = p;
  while (!q.empty()) { dirs.insert(q); size_t k = q.rfind('/'); if (k == std::string::npos) break; q = q.substr(0, k); }
  dirs.insert("/");
}
int Vos::open_fds() const { int n = 0; for (auto &f : fds) if (f.kind != VFd::FREE && f.kind != VFd::EVENTFD && f.kind != VFd::PIPE_R && f.kind != VFd::PIPE_W) n++; return n; }
std::string Vos::fd_desc() const { std::string s; for (size_t i = 0; i < fds.size(); i++) if (fds[i].kind != VFd::FREE) s += std::to_string(i + FDBASE) + ":" + std::to_string((int)fds[i].kind) + fds[i].path + " "; return s; }
void Vos::set_mem(long total, long fr, long av, long buf, long ca) {
  char b[1024];
  int n = snprintf(b, sizeof b, "MemTotal:       %8ld kB\nMemFree:        %8ld kB\n", total, fr);
  if (av >= 0) n += snprintf(b + n, sizeof b - n, "MemAvailable:   %8ld kB\n", av);
  n += snprintf(b + n, sizeof b - n, "Buffers:        %8ld kB\nCached:         %8ld kB\nSwapCached:     %8ld kB\nActive:          1000 kB\nInactive:        2000 kB\nActive(anon):     500 kB\nInactive(anon):   600 kB\nActive(file):     700 kB\nInactive(file):   800 kB\nUnevictable:       90 kB\n", buf, ca, ca / 2 + 300);
  meminfo = b;
}
void Vos::ev(const Ev &e0) {
  if (!logging) return;
  Ev e = e0; e.t = now_us / 1000; if (helper) e.helper = helper_pid;
  if (helper) {
    std::string l = e.kind + "\t" + e.path + "\t" + std::to_string(e.a) + "\t" + std::to_string(e.b) + "\t" + std::to_string(e.ret) + "\t" + std::to_string(e.err) + "\n";
    raw(SYS_write, helper_pipe, (long)l.data(), l.size());
  } else log.push_back(e);
}
static void EV(const char *k, const std::string &p, long a = 0, long b = 0, long ret = 0, int err = 0) {
  Ev e; e.kind = k; e.path = p; e.a = a; e.b = b; e.ret = ret; e.err = err; vos.ev(e);
}
void Vos::reset_process() {
  for (auto &f : fds) if (f.kind != VFd::EVENTFD) f = VFd(); else *f.evc = 0; // GLib's own wake-up descriptor outlives the daemon's main()
  for (int i = 0; i < 65; i++) { handler[i] = nullptr; handler_set[i] = false; hflags[i] = 0; hmask[i] = 0; }
  for (int i = 0; i < 3; i++) { std_to[i] = -1; stdf[i] = VFd(); }
  sigmask = sigpending = 0; in_handler = 0; zombies.clear(); max_children = 0; out.clear(); err.clear(); maps.clear();
  ops_since_idle = 0;
}

// entry of every intercepted call; returns false when the call must go to the real kernel
static bool enter(const char *name, bool handler_safe) {
  if (!vos.on) return false;
  if (++vos.ops_since_idle > vos.ops_limit) { vos.on = false; mc_fail("livelock", "the daemon makes system calls without end and never returns to its event loop (last: %s)", name); }
  if (vos.in_handler && !handler_safe && vos.forbidden) { vos.on = false; vos.forbidden(name); vos.on = true; }
  if (vos.point && !vos.in_point && !vos.helper) { vos.in_point = true; int e = errno; vos.point(name); errno = e; vos.in_point = false; }
  return true;
}
struct In { In() { vos.on = false; } ~In() { vos.on = true; } };
#define ENTER(safe) if (!enter(__func__, safe)) 

static std::string absp(const char *p) {
  if (!p) return ""; if (*p == '/') return p; return vos.cwd == "/" ? std::string("/") + p : vos.cwd + "/" + p;
}
static FaultAns fault(const char *op, const std::string &path, long a = 0, long b = 0) {
  if (!vos.fault) return {}; return vos.fault(FaultReq{op, path, a, b});
}
static int newfd(const VFd &f) {
  for (size_t i = 0; i < vos.fds.size(); i++) if (vos.fds[i].kind == VFd::FREE) { vos.fds[i] = f; return (int)i + FDBASE; }
  vos.fds.push_back(f); return (int)vos.fds.size() - 1 + FDBASE;
}
static VFd *getfd(int fd) {
  if (fd >= 0 && fd < 3) { return vos.std_to[fd] >= 0 ? &vos.stdf[fd] : nullptr; }
  int i = fd - FDBASE; if (i < 0 || i >= (int)vos.fds.size() || vos.fds[i].kind == VFd::FREE) return nullptr; return &vos.fds[i];
}
// dynamic files of /proc
static bool dyn(const std::string &p, std::string &data, int &err) {
  err = 0;
  if (p == "/proc/meminfo") { data = vos.meminfo; EV("meminfo", p); if (data.empty()) err = ENOENT; return true; }
  if (p == "/proc/vmstat") { data = vos.vmstat; if (data.empty()) err = ENOENT; return true; }
  if (p == "/proc/stat") { data = vos.procstat; if (data.empty()) err = ENOENT; return true; }
  if (p.compare(0, 6, "/proc/") == 0) {
    char *e; long pid = strtol(p.c_str() + 6, &e, 10);
    if (e != p.c_str() + 6 && !strcmp(e, "/maps")) {
      for (auto &q : vos.procs) if (q.pid == pid) { if (q.maps_err) err = q.maps_err; else data = q.maps; return true; }
      err = ENOENT; return true;
    }
    err = ENOENT; return true;
  }
  return false;
}
static int do_open(const char *path, int flags, mode_t mode) {
  In in; std::string p = absp(path);
  FaultAns fa = fault((flags & O_CREAT) ? "create" : "open", p, flags);
  if (fa.err) { EV("open", p, flags, 0, -1, fa.err); errno = fa.err; return -1; }
  if (vos.links.count(p)) { int e = (flags & O_CREAT) && (flags & O_EXCL) ? EEXIST : flags & O_NOFOLLOW ? ELOOP : 0; if (e) { EV("open", p, flags, 0, -1, e); errno = e; return -1; } EV("follow", p); p = vos.links[p]; }
  auto oe = vos.open_err.find(p); if (oe != vos.open_err.end() && oe->second) { EV("open", p, flags, 0, -1, oe->second); errno = oe->second; return -1; }
  VFd f; f.path = p; f.flags = flags;
  if (p == "/dev/null") { f.kind = VFd::NULLDEV; return newfd(f); }
  std::string d; int err;
  if (dyn(p, d, err)) {
    if (err) { errno = err; return -1; }
    f.kind = VFd::FILE_; f.ino = std::make_shared<Inode>(); f.ino->data = d; f.ino->mode = 0100444; f.ino->ino = 7; return newfd(f);
  }
  auto it = vos.files.find(p); bool created = false;
  if (it == vos.files.end()) {
    if (vos.dirs.count(p)) { if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; } if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; } f.kind = VFd::FILE_; f.ino = std::make_shared<Inode>(); f.ino->mode = 0040755; return newfd(f); }
    size_t k = p.rfind('/'); std::string dir = k == 0 ? "/" : p.substr(0, k);
    if (!(flags & O_CREAT) || !vos.dirs.count(dir)) { EV("open", p, flags, 0, -1, ENOENT); errno = ENOENT; return -1; }
    auto n = std::make_shared<Inode>(); n->ino = vos.next_ino++; n->mode = 0100000 | (mode & 0777 & ~vos.umask_); n->owned = true; vos.files[p] = n; f.ino = n; created = true;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { EV("open", p, flags, 0, -1, EEXIST); errno = EEXIST; return -1; }
    f.ino = it->second;
    if (S_ISDIR(f.ino->mode) && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    if (flags & O_TRUNC) f.ino->data.clear();
  }
  f.kind = VFd::FILE_; if (flags & O_APPEND) f.pos = f.ino->data.size();
  int fd = newfd(f); EV(created ? "create" : "open", p, flags, (flags & O_TRUNC) ? 1 : 0, fd); return fd;
}
static void std_capture(int fd, const char *b, size_t n) {
  if (vos.std_to[fd] >= 0) { VFd &f = vos.stdf[fd]; if (f.kind == VFd::FILE_) f.ino->data.append(b, n); return; }
  (fd == 1 ? vos.out : vos.err).append(b, n);
}
static ssize_t do_write(int fd, const void *b, size_t n) {
  In in;
  if ((fd == 1 || fd == 2) && vos.std_to[fd] < 0) { std_capture(fd, (const char *)b, n); return n; }
  VFd *f = getfd(fd); if (!f) { errno = EBADF; return -1; }
  if (f->kind == VFd::NULLDEV) return n;
  if (f->kind == VFd::EVENTFD) { *f->evc += *(const uint64_t *)b; return 8; }
  if (f->kind == VFd::PIPE_W) { if (f->pipe->size() >= 65536) { errno = EAGAIN; return -1; } f->pipe->append((const char *)b, n); return n; }
  if (f->kind != VFd::FILE_ || (f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  FaultAns fa = fault("write", f->path, n);
  if (fa.err) { EV("write", f->path, n, f->pos, -1, fa.err); errno = fa.err; return -1; }
  size_t m = fa.shortn >= 0 && (size_t)fa.shortn < n ? fa.shortn : n;
  if (f->flags & O_APPEND) f->pos = f->ino->data.size();
  if (f->ino->data.size() < f->pos + m) f->ino->data.resize(f->pos + m);
  memcpy(&f->ino->data[f->pos], b, m);
  if (vos.logging && !vos.helper) { Ev e; e.kind = "write"; e.path = f->path; e.a = n; e.b = f->pos; e.ret = m; e.data.assign((const char *)b, m); vos.ev(e); }
  f->pos += m; return m;
}
static ssize_t do_read(int fd, void *b, size_t n) {
  In in; VFd *f = getfd(fd);
  if (!f) { if (fd == 0) return 0; errno = EBADF; return -1; }
  if (f->kind == VFd::NULLDEV) return 0;
  if (f->kind == VFd::EVENTFD) { if (!*f->evc) { errno = EAGAIN; return -1; } memcpy(b, f->evc.get(), 8); *f->evc = 0; return 8; }
  if (f->kind == VFd::PIPE_R) { if (f->pipe->empty()) { errno = EAGAIN; return -1; } size_t m = std::min(n, f->pipe->size()); memcpy(b, f->pipe->data(), m); f->pipe->erase(0, m); return m; }
  if (S_ISDIR(f->ino->mode)) { errno = EISDIR; return -1; }
  FaultAns fa = fault("read", f->path, n); if (fa.err) { errno = fa.err; return -1; }
  if (f->pos >= f->ino->data.size()) return 0;
  size_t m = std::min(n, f->ino->data.size() - f->pos);
  if (fa.shortn >= 0 && (size_t)fa.shortn < m) m = fa.shortn;
  memcpy(b, f->ino->data.data() + f->pos, m); f->pos += m; return m;
}
static int do_stat(const std::string &p, struct stat *st, bool note) {
  auto se = vos.stat_err.find(p); if (se != vos.stat_err.end() && se->second) { errno = se->second; return -1; }
  FaultAns fa = fault("stat", p); if (fa.err) { errno = fa.err; return -1; }
  memset(st, 0, sizeof *st); st->st_nlink = 1; st->st_blksize = 4096;
  auto li = vos.links.find(p); auto it = vos.files.find(li == vos.links.end() ? p : li->second);
  if (it != vos.files.end()) { st->st_mode = it->second->mode; st->st_ino = it->second->ino; st->st_size = it->second->data.size(); st->st_mtime = it->second->mtime; st->st_blksize = it->second->blksize; return 0; }
  if (vos.dirs.count(p) || p == "/") { st->st_mode = 0040755; st->st_ino = 2; return 0; }
  if (p.compare(0, 6, "/proc/") == 0) { std::string d; int e; bool l = vos.logging; vos.logging = false; dyn(p, d, e); vos.logging = l; if (!e) { st->st_mode = 0100444; st->st_ino = 7; return 0; } }
  // a path below a regular file
  for (size_t k = p.find('/', 1); k != std::string::npos; k = p.find('/', k + 1)) if (vos.files.count(p.substr(0, k)) && !S_ISDIR(vos.files[p.substr(0, k)]->mode)) { errno = ENOTDIR; return -1; }
  errno = ENOENT; return -1;
}

static int do_lstat(const std::string &p, struct stat *st) { bool l = vos.symlinks.count(p) || vos.links.count(p); if (do_stat(p, st, true)) { if (!l || errno != ENOENT) return -1; memset(st, 0, sizeof *st); } if (l) { st->st_mode = S_IFLNK | 0777; st->st_size = 20; } return 0; }
struct CookieFd { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) { bool s = vos.on; ssize_t r = do_read(((CookieFd *)c)->fd, b, n); vos.on = s; return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) { bool s = vos.on; ssize_t r = do_write(((CookieFd *)c)->fd, b, n); vos.on = s; return r < 0 ? 0 : r; }
static int do_close(int fd);
static int ck_close(void *c) { bool s = vos.on; int r = do_close(((CookieFd *)c)->fd); vos.on = s; delete (CookieFd *)c; return r; }
static FILE *cookie(int fd, const char *mode) {
  cookie_io_functions_t io = {ck_read, ck_write, nullptr, ck_close}; return fopencookie(new CookieFd{fd}, mode, io);
}
static ssize_t so_write(void *c, const char *b, size_t n) {
  bool s = vos.on; vos.on = false; std_capture((int)(long)c, b, n); vos.on = s; return n;
}
FILE *vos_stdio(int fd) {
  cookie_io_functions_t io = {nullptr, so_write, nullptr, nullptr}; FILE *f = fopencookie((void *)(long)fd, "w", io); setvbuf(f, nullptr, fd == 2 ? _IONBF : _IONBF, 0); return f;
}
static int do_close(int fd) {
  bool s = vos.on; vos.on = false; VFd *f = getfd(fd); int r = 0;
  if (!f || fd < 3) { errno = EBADF; r = -1; }
  else {
    bool logit = f->kind == VFd::FILE_; std::string p = f->path; *f = VFd();
    FaultAns fa = logit ? fault("close", p) : FaultAns();
    if (fa.err) { errno = fa.err; r = -1; }
  }
  vos.on = s; return r;
}

void deliver(int sig); // dm.cpp: fails if the signal kills the daemon
static void run_handler(int sig) {
  bool s = vos.on; int e = errno; uint64_t m0 = vos.sigmask; void *h = vos.handler[sig]; int fl = vos.hflags[sig]; if (!(fl & SA_NODEFER)) vos.sigmask |= 1ull << sig; vos.sigmask |= vos.hmask[sig]; if (fl & SA_RESETHAND) vos.handler[sig] = nullptr; vos.in_handler++; vos.on = true;
  if (fl & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; ((void (*)(int, siginfo_t *, void *))h)(sig, &si, nullptr); }
  else ((void (*)(int))h)(sig);
  vos.on = s; vos.in_handler--; errno = e; vos.sigmask = m0;
  for (int i = 1; i < 64; i++) if ((vos.sigpending >> i & 1) && !(vos.sigmask >> i & 1)) { vos.sigpending &= ~(1ull << i); deliver(i); }
}
int Vos::signal(int sig) {
  if (sigmask & (1ull << sig)) { sigpending |= 1ull << sig; return 2; }
  if (!handler[sig]) return (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH || sig == SIGCONT) ? 0 : -1;
  if (handler[sig] == (void *)1) return 0;
  run_handler(sig); woken = true; return 1;
}

static bool fd_ready(const struct pollfd &p, short &re) {
  re = 0; VFd *f = getfd(p.fd); if (!f) { if (p.fd >= 0) re = POLLNVAL; return re; }
  if (f->kind == VFd::EVENTFD) { if (*f->evc) re |= POLLIN; }
  else if (f->kind == VFd::PIPE_R) { if (!f->pipe->empty()) re |= POLLIN; }
  else re |= POLLIN | POLLOUT;
  re &= p.events; return re;
}
static int do_poll(struct pollfd *fds, nfds_t n, int64_t timeout_us) {
  In in;
  if (vos.helper) { EV("escaped", "poll"); raw(SYS_exit_group, 0); }
  int cnt = 0;
  for (nfds_t i = 0; i < n; i++) if (fd_ready(fds[i], fds[i].revents)) cnt++;
  if (cnt || timeout_us == 0) return cnt;
  vos.ops_since_idle = 0; vos.woken = false;
  vos.idle_deadline_us = timeout_us < 0 ? INT64_MAX : vos.now_us + timeout_us;
  if (vos.idle) { auto f = vos.idle; f(); }
  if (vos.woken) { vos.woken = false; errno = EINTR; return -1; }
  cnt = 0; for (nfds_t i = 0; i < n; i++) if (fd_ready(fds[i], fds[i].revents)) cnt++;
  if (cnt) return cnt;
  if (timeout_us < 0) mc_fail("sleeps-forever", "the daemon sleeps with no timer pending");
  vos.now_us = vos.idle_deadline_us; return 0;
}

static void helper_exit(int st) { EV("exit", "", st); raw(SYS_exit_group, 0); __builtin_unreachable(); }
static void daemon_exit(int st) {
  if (vos.helper) helper_exit(st);
  vos.on = false; vos.exit_status = st; if (vos.exit_jmp) longjmp(*vos.exit_jmp, 1);
  mc_fail("harness", "exit without run");
}

static void unmodelled(const char *name) { vos.on = false; mc_error("the daemon makes a call that is not modelled: %s", name); }

// ---------------------------------------------------------------- intercepted calls
extern "C" {
#define MODE_ARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE_ARG ENTER(true) return rawe(raw(SYS_open, (long)path, flags, mode)); return do_open(path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE_ARG ENTER(true) return rawe(raw(SYS_open, (long)path, flags, mode)); return do_open(path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE_ARG ENTER(true) return rawe(raw(SYS_openat, d, (long)path, flags, mode)); return do_open(path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE_ARG ENTER(true) return rawe(raw(SYS_openat, d, (long)path, flags, mode)); return do_open(path, flags, mode); }
int creat(const char *path, mode_t mode) { ENTER(true) return rawe(raw(SYS_creat, (long)path, mode)); return do_open(path, O_WRONLY | O_CREAT | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { ENTER(true) return rawe(raw(SYS_creat, (long)path, mode)); return do_open(path, O_WRONLY | O_CREAT | O_TRUNC, mode); }
ssize_t write(int fd, const void *b, size_t n) { ENTER(true) return rawe(raw(SYS_write, fd, (long)b, n)); return do_write(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { ENTER(true) return rawe(raw(SYS_pwrite64, fd, (long)b, n, o)); VFd *f = getfd(fd); if (!f) { errno = EBADF; return -1; } size_t s = f->pos; f->pos = o; ssize_t r = do_write(fd, b, n); f->pos = s; return r; }
ssize_t writev(int fd, const struct iovec *v, int c) { ENTER(true) return rawe(raw(SYS_writev, fd, (long)v, c)); ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t read(int fd, void *b, size_t n) { ENTER(true) return rawe(raw(SYS_read, fd, (long)b, n)); return do_read(fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { ENTER(true) return rawe(raw(SYS_read, fd, (long)b, n)); return do_read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { ENTER(true) return rawe(raw(SYS_pread64, fd, (long)b, n, o)); VFd *f = getfd(fd); if (!f) { errno = EBADF; return -1; } size_t s = f->pos; f->pos = o; ssize_t r = do_read(fd, b, n); f->pos = s; return r; }
int close(int fd) { ENTER(true) return rawe(raw(SYS_close, fd)); return do_close(fd); }
off_t lseek(int fd, off_t o, int w) { ENTER(true) return rawe(raw(SYS_lseek, fd, o, w)); VFd *f = getfd(fd); if (!f || f->kind != VFd::FILE_) { errno = f ? ESPIPE : EBADF; return -1; } long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)f->pos : (long)f->ino->data.size(); f->pos = b + o; return f->pos; }
off64_t lseek64(int fd, off64_t o, int w) { ENTER(true) return rawe(raw(SYS_lseek, fd, o, w)); VFd *f = getfd(fd); if (!f || f->kind != VFd::FILE_) { errno = f ? ESPIPE : EBADF; return -1; } long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)f->pos : (long)f->ino->data.size(); f->pos = b + o; return f->pos; }
static int do_sync(const char *op, int fd) { In in; VFd *f = getfd(fd); if (!f) { errno = EBADF; return -1; } FaultAns fa = fault("fsync", f->path); if (fa.err) { EV("fsync", f->path, 0, 0, -1, fa.err); errno = fa.err; return -1; } EV("fsync", f->path); return 0; }
int fsync(int fd) { ENTER(true) return rawe(raw(SYS_fsync, fd)); return do_sync("fsync", fd); }
int fdatasync(int fd) { ENTER(true) return rawe(raw(SYS_fdatasync, fd)); return do_sync("fsync", fd); }
int syncfs(int fd) { ENTER(true) return rawe(raw(SYS_syncfs, fd)); return do_sync("fsync", fd); }
static int do_ftruncate(int fd, off_t n) { In in; VFd *f = getfd(fd); if (!f || f->kind != VFd::FILE_) { errno = EBADF; return -1; } f->ino->data.resize(n); EV("truncate", f->path, n); return 0; }
int ftruncate(int fd, off_t n) { ENTER(true) return rawe(raw(SYS_ftruncate, fd, n)); return do_ftruncate(fd, n); }
int ftruncate64(int fd, off64_t n) { ENTER(true) return rawe(raw(SYS_ftruncate, fd, n)); return do_ftruncate(fd, n); }
int rename(const char *a, const char *b) {
  ENTER(true) return rawe(raw(SYS_rename, (long)a, (long)b)); In in; std::string p = absp(a), q = absp(b);
  FaultAns fa = fault("rename", p); int err = fa.err; if (!err && !vos.files.count(p) && !vos.links.count(p)) err = ENOENT; if (!err && vos.dirs.count(q) && !vos.files.count(q)) err = EISDIR;
  Ev e; e.kind = "rename"; e.path = p; e.data = q; e.ret = err ? -1 : 0; e.err = err; vos.ev(e);
  if (err) { errno = err; return -1; }
  if (p != q) { if (vos.links.count(p)) { vos.links[q] = vos.links[p]; vos.links.erase(p); vos.files.erase(q); return 0; } vos.links.erase(q); vos.files[q] = vos.files[p]; vos.files.erase(p); } return 0;
}
int unlink(const char *a) {
  ENTER(true) return rawe(raw(SYS_unlink, (long)a)); In in; std::string p = absp(a);
  FaultAns fa = fault("unlink", p); int err = fa.err; if (!err && vos.links.count(p)) { vos.links.erase(p); EV("unlink", p); return 0; } if (!err && !vos.files.count(p)) err = vos.dirs.count(p) ? EISDIR : ENOENT; if (!err && S_ISDIR(vos.files[p]->mode)) err = EISDIR;
  EV("unlink", p, 0, 0, err ? -1 : 0, err); if (err) { errno = err; return -1; } vos.files.erase(p); return 0;
}
int remove(const char *a) { ENTER(true) return rawe(raw(SYS_unlink, (long)a)); vos.on = true; return unlink(a); }
int truncate(const char *a, off_t n) { ENTER(true) return rawe(raw(SYS_truncate, (long)a, n)); In in; auto it = vos.files.find(absp(a)); if (it == vos.files.end()) { errno = ENOENT; return -1; } it->second->data.resize(n); EV("truncate", absp(a), n); return 0; }
int access(const char *a, int m) { ENTER(true) return rawe(raw(SYS_access, (long)a, m)); In in; struct stat st; return do_stat(absp(a), &st, false); }
int stat(const char *a, struct stat *st) { ENTER(true) return rawe(raw(SYS_stat, (long)a, (long)st)); In in; return do_stat(absp(a), st, true); }
int stat64(const char *a, struct stat64 *st) { ENTER(true) return rawe(raw(SYS_stat, (long)a, (long)st)); In in; return do_stat(absp(a), (struct stat *)st, true); }
int lstat(const char *a, struct stat *st) { ENTER(true) return rawe(raw(SYS_lstat, (long)a, (long)st)); In in; return do_lstat(absp(a), st); }
int lstat64(const char *a, struct stat64 *st) { ENTER(true) return rawe(raw(SYS_lstat, (long)a, (long)st)); In in; return do_lstat(absp(a), (struct stat *)st); }
static int do_fstat(int fd, struct stat *st) {
  In in; memset(st, 0, sizeof *st); st->st_nlink = 1; st->st_blksize = 4096; VFd *f = getfd(fd); if (!f) { if (fd < 3) { st->st_mode = S_IFCHR | 0666; return 0; } errno = EBADF; return -1; }
  FaultAns fa = fault("fstat", f->path); if (fa.err) { errno = fa.err; return -1; }
  if (f->kind != VFd::FILE_) { st->st_mode = f->kind == VFd::NULLDEV ? S_IFCHR | 0666 : S_IFIFO | 0600; return 0; }
  st->st_mode = f->ino->mode; st->st_ino = f->ino->ino; st->st_size = f->ino->data.size(); st->st_blksize = f->ino->blksize; st->st_mtime = f->ino->mtime; return 0;
}
int fstat(int fd, struct stat *st) { ENTER(true) return rawe(raw(SYS_fstat, fd, (long)st)); return do_fstat(fd, st); }
int fstat64(int fd, struct stat64 *st) { ENTER(true) return rawe(raw(SYS_fstat, fd, (long)st)); return do_fstat(fd, (struct stat *)st); }
// the same calls under their other names
static std::string atp(int d, const char *a) { std::string r; bool s = vos.on; vos.on = false; if (*a == '/' || d == AT_FDCWD) r = absp(a); else { VFd *f = getfd(d); r = f ? f->path + "/" + a : std::string("/nowhere/") + a; } vos.on = s; return r; }
static int do_fstatat(int d, const char *a, struct stat *st, int fl) { if ((fl & AT_EMPTY_PATH) && !*a) return do_fstat(d, st); std::string p = atp(d, a); In in; return fl & AT_SYMLINK_NOFOLLOW ? do_lstat(p, st) : do_stat(p, st, true); }
int fstatat(int d, const char *a, struct stat *st, int fl) { ENTER(true) return rawe(raw(SYS_newfstatat, d, (long)a, (long)st, fl)); return do_fstatat(d, a, st, fl); }
int fstatat64(int d, const char *a, struct stat64 *st, int fl) { ENTER(true) return rawe(raw(SYS_newfstatat, d, (long)a, (long)st, fl)); return do_fstatat(d, a, (struct stat *)st, fl); }
int statx(int d, const char *a, int fl, unsigned mask, struct statx *x) {
  ENTER(true) return rawe(raw(SYS_statx, d, (long)a, fl, mask, (long)x)); struct stat st; if (do_fstatat(d, a, &st, fl)) return -1;
  memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS; x->stx_mode = st.st_mode; x->stx_ino = st.st_ino; x->stx_size = st.st_size; x->stx_nlink = st.st_nlink; x->stx_blksize = st.st_blksize; x->stx_uid = st.st_uid; x->stx_gid = st.st_gid; x->stx_mtime.tv_sec = st.st_mtime; return 0;
}
int faccessat(int d, const char *a, int m, int) { if (!vos.on) return rawe(raw(SYS_faccessat, d, (long)a, m)); return access(atp(d, a).c_str(), m); }
int euidaccess(const char *a, int m) { return access(a, m); }
int eaccess(const char *a, int m) { return access(a, m); }
int renameat(int d, const char *a, int e, const char *b) { if (!vos.on) return rawe(raw(SYS_renameat, d, (long)a, e, (long)b)); return rename(atp(d, a).c_str(), atp(e, b).c_str()); }
int renameat2(int d, const char *a, int e, const char *b, unsigned fl) { if (!vos.on) return rawe(raw(SYS_renameat2, d, (long)a, e, (long)b, fl)); if (fl & ~1u) { errno = EINVAL; return -1; } std::string q = atp(e, b); if (fl && (vos.files.count(q) || vos.links.count(q) || vos.dirs.count(q))) { errno = EEXIST; return -1; } return rename(atp(d, a).c_str(), q.c_str()); }
int unlinkat(int d, const char *a, int fl) { if (!vos.on) return rawe(raw(SYS_unlinkat, d, (long)a, fl)); if (fl & AT_REMOVEDIR) unmodelled("rmdir"); return unlink(atp(d, a).c_str()); }
static int mktemp_(char *t, int suf, int fl) { size_t n = strlen(t); if (n < 6u + suf || strncmp(t + n - suf - 6, "XXXXXX", 6)) { errno = EINVAL; return -1; } memcpy(t + n - suf - 6, "mc0001", 6); return do_open(t, O_RDWR | O_CREAT | O_EXCL | fl, 0600); }
int mkstemp(char *t) { ENTER(false) return REAL(mkstemp)(t); return mktemp_(t, 0, 0); }
int mkstemp64(char *t) { ENTER(false) return REAL(mkstemp64)(t); return mktemp_(t, 0, 0); }
int mkostemp(char *t, int fl) { ENTER(false) return REAL(mkostemp)(t, fl); return mktemp_(t, 0, fl); }
int mkstemps(char *t, int n) { ENTER(false) return REAL(mkstemps)(t, n); return mktemp_(t, n, 0); }
int fchown(int fd, uid_t u, gid_t g) { ENTER(true) return rawe(raw(SYS_fchown, fd, u, g)); return 0; }
int fallocate(int fd, int m, off_t o, off_t n) { ENTER(true) return rawe(raw(SYS_fallocate, fd, m, o, n)); errno = EOPNOTSUPP; return -1; }
int fallocate64(int fd, int m, off64_t o, off64_t n) { ENTER(true) return rawe(raw(SYS_fallocate, fd, m, o, n)); errno = EOPNOTSUPP; return -1; }
int posix_fallocate(int fd, off_t o, off_t n) { ENTER(false) return REAL(posix_fallocate)(fd, o, n); VFd *f = getfd(fd); if (!f || f->kind != VFd::FILE_) return EBADF; if ((size_t)(o + n) > f->ino->data.size()) return do_ftruncate(fd, o + n) ? errno : 0; return 0; }
int flock(int fd, int op) { ENTER(true) return rawe(raw(SYS_flock, fd, op)); return 0; }
int lockf(int fd, int c, off_t n) { ENTER(true) return REAL(lockf)(fd, c, n); return 0; }
void sync(void) { if (!vos.on) { raw(SYS_sync); return; } enter("sync", true); for (size_t i = 0; i < vos.fds.size(); i++) if (vos.fds[i].kind == VFd::FILE_) do_sync("fsync", (int)i + FDBASE); }
int dirfd(DIR *dp);
static int do_fcntl(int fd, int cmd, long arg) {
  In in; VFd *f = getfd(fd); if (!f) { if (fd < 3 && fd >= 0) return cmd == F_GETFL ? O_RDWR : 0; errno = EBADF; return -1; }
  if (cmd == F_GETFL) return f->flags; if (cmd == F_SETFL) { f->flags = (f->flags & O_ACCMODE) | (arg & ~O_ACCMODE); return 0; }
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { VFd c = *f; return newfd(c); } return 0;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); ENTER(true) return rawe(raw(SYS_fcntl, fd, cmd, a)); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); ENTER(true) return rawe(raw(SYS_fcntl, fd, cmd, a)); return do_fcntl(fd, cmd, a); }
int dup(int fd) { ENTER(true) return rawe(raw(SYS_dup, fd)); VFd *f = getfd(fd); if (!f) { errno = EBADF; return -1; } VFd c = *f; return newfd(c); }
int dup2(int, int);
int dup3(int a, int b, int fl) { if (!vos.on) return rawe(raw(SYS_dup3, a, b, fl)); return dup2(a, b); }
int dup2(int a, int b) {
  ENTER(true) return rawe(raw(SYS_dup2, a, b)); In in; VFd *f = getfd(a); if (!f) { errno = EBADF; return -1; }
  FaultAns fa = fault("dup2", f->path, a, b); if (fa.err) { errno = fa.err; return -1; }
  if (b >= 0 && b < 3) { VFd c = *f; vos.stdf[b] = c; vos.std_to[b] = 1; EV("dup2", c.path, b); return b; }
  VFd *g = getfd(b); if (!g) { errno = EBADF; return -1; } VFd c = *f; *g = c; return b;
}
int pipe2(int p[2], int fl) { ENTER(true) return rawe(raw(SYS_pipe2, (long)p, fl)); VFd r, w; r.kind = VFd::PIPE_R; w.kind = VFd::PIPE_W; r.pipe = w.pipe = std::make_shared<std::string>(); r.flags = O_RDONLY | fl; w.flags = O_WRONLY | fl; p[0] = newfd(r); p[1] = newfd(w); return 0; }
int pipe(int p[2]) { ENTER(true) return rawe(raw(SYS_pipe, (long)p)); VFd r, w; r.kind = VFd::PIPE_R; w.kind = VFd::PIPE_W; r.pipe = w.pipe = std::make_shared<std::string>(); r.flags = O_RDONLY; w.flags = O_WRONLY; p[0] = newfd(r); p[1] = newfd(w); return 0; }
int eventfd(unsigned v, int fl) { ENTER(true) return rawe(raw(SYS_eventfd2, v, fl)); VFd f; f.kind = VFd::EVENTFD; f.flags = O_RDWR; f.evc = std::make_shared<uint64_t>(v); return newfd(f); }
static FILE *do_fopen(const char *p, const char *m) { int fl = strchr(m, '+') ? O_RDWR : *m == 'r' ? O_RDONLY : O_WRONLY; if (*m == 'w') fl |= O_CREAT | O_TRUNC; if (*m == 'a') fl |= O_CREAT | O_APPEND; int fd = do_open(p, fl, 0666); if (fd < 0) return nullptr; In in; return cookie(fd, m); }
FILE *fopen(const char *p, const char *m) { ENTER(false) return REAL(fopen)(p, m); return do_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { ENTER(false) return REAL(fopen64)(p, m); return do_fopen(p, m); }
FILE *fdopen(int fd, const char *m) { ENTER(false) return REAL(fdopen)(fd, m); In in; return cookie(fd, m); }

struct VDIR { std::vector<std::string> names; size_t i; struct dirent d; struct dirent64 d64; };
static std::set<VDIR *> dirs_open;
DIR *opendir(const char *p) {
  ENTER(false) return REAL(opendir)(p); In in; std::string q = absp(p); FaultAns fa = fault("opendir", q); EV("opendir", q);
  if (fa.err) { errno = fa.err; return nullptr; }
  if (vos.on_opendir) vos.on_opendir(q);
  VDIR *d = new VDIR; d->i = 0; d->names = {".", ".."};
  if (q == "/proc" || q == "/proc/") { for (auto x : {"2", "fb", "1st", "cpuinfo", "meminfo", "7zip"}) d->names.push_back(x); bool self = false; // 2: a kernel thread, which has no executable
    for (auto &pr : vos.procs) { if (!self && pr.pid > vos.selfpid) { d->names.push_back(std::to_string(vos.selfpid)); self = true; } d->names.push_back(std::to_string(pr.pid)); }
    if (!self) d->names.push_back(std::to_string(vos.selfpid)); d->names.push_back("self"); d->names.push_back("sys"); }
  else if (!vos.dirs.count(q)) { delete d; errno = ENOENT; return nullptr; }
  else { std::set<std::string> n; std::string pre = q == "/" ? "/" : q + "/"; for (auto &f : vos.files) if (f.first.compare(0, pre.size(), pre) == 0) { std::string r = f.first.substr(pre.size()); n.insert(r.substr(0, r.find('/'))); } for (auto &x : n) d->names.push_back(x); }
  VFd f; f.kind = VFd::FILE_; f.ino = std::make_shared<Inode>(); f.ino->mode = 0040755; f.path = q; int fd = newfd(f); d->d.d_ino = fd; 
  dirs_open.insert(d); *(int *)&d->d64.d_off = fd; return (DIR *)d;
}
struct dirent *readdir(DIR *dp) { VDIR *d = (VDIR *)dp; if (!dirs_open.count(d)) return REAL(readdir)(dp); ENTER(false) {} In in; bool s = true; (void)s; if (d->i >= d->names.size()) return nullptr; snprintf(d->d.d_name, sizeof d->d.d_name, "%s", d->names[d->i++].c_str()); d->d.d_type = DT_DIR; return &d->d; }
struct dirent64 *readdir64(DIR *dp) { VDIR *d = (VDIR *)dp; if (!dirs_open.count(d)) return REAL(readdir64)(dp); ENTER(false) {} In in; if (d->i >= d->names.size()) return nullptr; snprintf(d->d64.d_name, sizeof d->d64.d_name, "%s", d->names[d->i++].c_str()); return &d->d64; }
int closedir(DIR *dp) { VDIR *d = (VDIR *)dp; if (!dirs_open.count(d)) return REAL(closedir)(dp); ENTER(false) {} bool s = vos.on; int fd = *(int *)&d->d64.d_off; do_close(fd); vos.on = false; dirs_open.erase(d); delete d; vos.on = s; return 0; }
ssize_t readlink(const char *a, char *b, size_t n) {
  ENTER(true) return rawe(raw(SYS_readlink, (long)a, (long)b, n)); In in; std::string p = absp(a);
  if (p.compare(0, 6, "/proc/") == 0) { char *e; long pid = strtol(p.c_str() + 6, &e, 10);
    if (!strcmp(e, "/exe")) for (auto &q : vos.procs) if (q.pid == pid) { if (q.exe_err) { errno = q.exe_err; return -1; } size_t m = std::min(n, q.exe.size()); memcpy(b, q.exe.data(), m); return m; } }
  errno = vos.files.count(p) ? EINVAL : ENOENT; return -1;
}
int __xstat(int, const char *a, struct stat *st) { return stat(a, st); }
ssize_t readlinkat(int d, const char *a, char *b, size_t n) { if (!vos.on) return rawe(raw(SYS_readlinkat, d, (long)a, (long)b, n)); return readlink(atp(d, a).c_str(), b, n); }
int dirfd(DIR *dp) { VDIR *d = (VDIR *)dp; if (!dirs_open.count(d)) return REAL(dirfd)(dp); return *(int *)&d->d64.d_off; }
void rewinddir(DIR *dp) { VDIR *d = (VDIR *)dp; if (!dirs_open.count(d)) { REAL(rewinddir)(dp); return; } d->i = 0; }
int scandir(const char *p, struct dirent ***out, int (*sel)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **)) {
  ENTER(false) return REAL(scandir)(p, out, sel, cmp); DIR *dp = opendir(p); if (!dp) return -1; struct dirent **v = nullptr, *e; int n = 0;
  while ((e = readdir(dp))) if (!sel || sel(e)) { v = (struct dirent **)realloc(v, sizeof *v * (n + 1)); v[n] = (struct dirent *)malloc(sizeof **v); memcpy(v[n++], e, sizeof **v); }
  closedir(dp); if (n && cmp) qsort(v, n, sizeof *v, (int (*)(const void *, const void *))cmp); *out = v; return n;
}
int scandir64(const char *p, struct dirent64 ***out, int (*sel)(const struct dirent64 *), int (*cmp)(const struct dirent64 **, const struct dirent64 **)) { return scandir(p, (struct dirent ***)out, (int (*)(const struct dirent *))sel, (int (*)(const struct dirent **, const struct dirent **))cmp); }

pid_t getpid(void) { if (!vos.on) return raw(SYS_getpid); return vos.helper ? vos.helper_pid : vos.selfpid; }
pid_t fork(void) {
  ENTER(false) return real_fork(); In in;
  if (vos.helper) { EV("escaped", "fork"); raw(SYS_exit_group, 0); }
  if (vos.expect_daemon_fork) { vos.expect_daemon_fork = false; EV("fork", "daemonize"); FaultAns fa = fault("fork", "daemonize"); if (fa.err) { errno = fa.err; return -1; } return vos.daemonize_side ? 5555 : 0; }
  FaultAns fa = fault("fork", ""); if (fa.err) { EV("fork", "", 0, 0, -1, fa.err); errno = fa.err; return -1; }
  int pid = vos.next_pid++; int p[2]; if (raw(SYS_pipe2, (long)p, 0)) mc_error("pipe");
  int c = real_fork(); if (c < 0) mc_error("fork");
  if (c == 0) { raw(SYS_close, p[0]); vos.helper = true; vos.helper_pid = pid; vos.helper_pipe = p[1]; vos.idle = nullptr; vos.ops_since_idle = 0; mc_helper_start(); vos.on = true; return 0; }
  raw(SYS_close, p[1]); EV("fork", "", 0, 0, pid);
  std::string buf; char b[4096]; long n; while ((n = raw(SYS_read, p[0], (long)b, sizeof b)) > 0 || n == -EINTR) if (n > 0) buf.append(b, n);
  raw(SYS_close, p[0]); int st = 0; while (raw(SYS_wait4, c, (long)&st, 0, 0) == -EINTR) ;
  if (WIFSIGNALED(st)) mc_fail("helper-crash", "a prefetch helper was killed by signal %d", WTERMSIG(st));
  if (mc_stopped()) mc_leaf_exit();
  size_t i = 0; while (i < buf.size()) { size_t j = buf.find('\n', i); if (j == std::string::npos) break; std::string l = buf.substr(i, j - i); i = j + 1; std::vector<std::string> v; size_t k = 0; for (;;) { size_t q = l.find('\t', k); v.push_back(l.substr(k, q == std::string::npos ? q : q - k)); if (q == std::string::npos) break; k = q + 1; }
    if (v.size() < 6) continue; Ev e; e.kind = v[0]; e.path = v[1]; e.a = atol(v[2].c_str()); e.b = atol(v[3].c_str()); e.ret = atol(v[4].c_str()); e.err = atoi(v[5].c_str()); e.helper = pid; e.t = vos.now_us / 1000; if (vos.logging) vos.log.push_back(e); }
  vos.zombies.push_back(pid); if ((int)vos.zombies.size() > vos.max_children) vos.max_children = vos.zombies.size();
  return pid;
}
pid_t vfork(void) { return fork(); }
static pid_t do_wait(pid_t want, int *st, int opt) {
  In in; FaultAns fa = fault("wait", ""); if (fa.err) { EV("wait", "", 0, 0, -1, fa.err); errno = fa.err; return -1; }
  if (vos.eintr_waits > 0) { vos.eintr_waits--; EV("wait", "", 0, 0, -1, EINTR); errno = EINTR; return -1; }
  if (vos.sigchld_echild || vos.handler[SIGCHLD] == (void *)1) { vos.zombies.clear(); EV("wait", "", 0, 0, -1, ECHILD); errno = ECHILD; return -1; }
  for (size_t i = 0; i < vos.zombies.size(); i++) if (want <= 0 || vos.zombies[i] == want) { int p = vos.zombies[i]; vos.zombies.erase(vos.zombies.begin() + i); if (st) *st = 0; EV("wait", "", 0, 0, p); return p; }
  EV("wait", "", 0, 0, -1, ECHILD); errno = ECHILD; return -1;
}
pid_t wait(int *st) { ENTER(true) return rawe(raw(SYS_wait4, -1, (long)st, 0, 0)); return do_wait(-1, st, 0); }
pid_t waitpid(pid_t p, int *st, int o) { ENTER(true) return rawe(raw(SYS_wait4, p, (long)st, o, 0)); return do_wait(p, st, o); }
pid_t wait4(pid_t p, int *st, int o, struct rusage *u) { ENTER(true) return rawe(raw(SYS_wait4, p, (long)st, o, (long)u)); return do_wait(p, st, o); }
int waitid(idtype_t t, id_t p, siginfo_t *si, int o) { ENTER(true) return rawe(raw(SYS_waitid, t, p, (long)si, o, 0)); if (si) memset(si, 0, sizeof *si); int r = do_wait(t == P_PID ? (pid_t)p : -1, nullptr, o); if (r < 0) return -1; if (si) { si->si_pid = r; si->si_code = CLD_EXITED; si->si_signo = SIGCHLD; } return 0; }
pid_t wait3(int *st, int o, struct rusage *) { ENTER(true) return rawe(raw(SYS_wait4, -1, (long)st, o, 0)); return do_wait(-1, st, o); }
void exit(int st) { if (!vos.on) { static void (*f)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit"); f(st); } daemon_exit(st); __builtin_unreachable(); }
void _exit(int st) { if (vos.on) daemon_exit(st); for (;;) raw(SYS_exit_group, st); }
int nice(int n) { ENTER(false) return 0; In in; FaultAns fa = fault("nice", ""); EV("nice", "", n); if (fa.err) { errno = fa.err; return -1; } return n; }
pid_t setsid(void) { ENTER(true) return rawe(raw(SYS_setsid)); EV("setsid", ""); return vos.selfpid; }
mode_t umask(mode_t m) { ENTER(true) return raw(SYS_umask, m); EV("umask", "", m); mode_t o = vos.umask_; vos.umask_ = m & 0777; return o; }
int fchmod(int fd, mode_t m) { ENTER(true) return rawe(raw(SYS_fchmod, fd, m)); In in; VFd *f = getfd(fd); if (!f || f->kind != VFd::FILE_) { errno = EBADF; return -1; } EV("chmod", f->path, m); f->ino->mode = (f->ino->mode & S_IFMT) | (m & 07777); return 0; }
int chmod(const char *a, mode_t m) { ENTER(true) return rawe(raw(SYS_chmod, (long)a, m)); In in; std::string p = absp(a); if (vos.links.count(p)) p = vos.links[p]; auto it = vos.files.find(p); if (it == vos.files.end()) { errno = ENOENT; return -1; } EV("chmod", p, m); it->second->mode = (it->second->mode & S_IFMT) | (m & 07777); return 0; }
int chdir(const char *p) { ENTER(true) return rawe(raw(SYS_chdir, (long)p)); In in; EV("chdir", p); vos.cwd = absp(p); return 0; }
int execl(const char *p, const char *, ...) { if (vos.on) { vos.on = false; mc_fail("exec", "daemon executes %s", p); } errno = ENOSYS; return -1; }
int kill(pid_t p, int s) { ENTER(true) return rawe(raw(SYS_kill, p, s)); EV("kill", "", p, s); return 0; }
ssize_t readahead(int fd, off64_t o, size_t n);
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (vos.on && n == SYS_ioprio_set) { enter("syscall", true); In in; EV("ioprio", "", a, c); FaultAns fa = fault("ioprio", ""); if (fa.err) { errno = fa.err; return -1; } return 0; }
  if (vos.on) switch (n) {
    case SYS_readahead: return readahead(a, b, c);
    case SYS_gettid: case SYS_getpid: return getpid();
    case SYS_futex: case SYS_getrandom: case SYS_sched_yield: case SYS_ioprio_get: break;
    default: unmodelled(("syscall " + std::to_string(n)).c_str());
  }
  return rawe(raw(n, a, b, c, d, e, f));
}
int setpriority(__priority_which_t w, id_t who, int n) noexcept { if (!vos.on || w != PRIO_PROCESS || (who && (int)who != vos.selfpid)) return 0; return nice(n) < 0 ? -1 : 0; }
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); long a = va_arg(ap, long); va_end(ap); ENTER(true) return rawe(raw(SYS_ioctl, fd, req, a)); In in;
  VFd *f = getfd(fd); if (!f) { errno = EBADF; return -1; }
  if (req == FIBMAP && f->kind == VFd::FILE_) { int *blk = (int *)a; FaultAns fa = fault("fibmap", f->path, *blk); int er = fa.err ? fa.err : f->ino->fibmap_err ? f->ino->fibmap_err : f->ino->has_blocks ? 0 : EPERM; EV("fibmap", f->path, *blk, 0, er ? -1 : 0, er); if (er) { errno = er; return -1; } auto it = f->ino->blocks.find(*blk); *blk = it == f->ino->blocks.end() ? 0 : it->second; return 0; }
  errno = ENOTTY; return -1;
}
ssize_t readahead(int fd, off64_t o, size_t n) {
  ENTER(true) return rawe(raw(SYS_readahead, fd, o, n)); In in; VFd *f = getfd(fd); if (!f) { EV("readahead", "(bad fd)", o, n, -1, EBADF); errno = EBADF; return -1; }
  FaultAns fa = fault("readahead", f->path, o, n); EV("readahead", f->path, o, n, fa.err ? -1 : 0, fa.err); if (fa.err) { errno = fa.err; return -1; } return 0;
}
static int do_fadvise(int fd, off_t o, off_t n, int adv) { In in; if (vos.fadvise_hook) return vos.fadvise_hook(fd, o, n, adv); VFd *f = getfd(fd); EV("fadvise", f ? f->path : "(bad fd)", o, n, adv); return f ? 0 : EBADF; }
int posix_fadvise(int fd, off_t o, off_t n, int adv) { ENTER(true) return -(int)raw(SYS_fadvise64, fd, o, n, adv); return do_fadvise(fd, o, n, adv); }
int posix_fadvise64(int fd, off64_t o, off64_t n, int adv) { ENTER(true) return -(int)raw(SYS_fadvise64, fd, o, n, adv); return do_fadvise(fd, o, n, adv); }
static void *do_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  if (fd >= 0 && (fd >= FDBASE || fd < 3)) {
    In in; VFd *f = getfd(fd); FaultAns fa = f ? fault("mmap", f->path, o, n) : FaultAns(); int er = f ? fa.err : EBADF; if (!er && (o & 4095)) er = EINVAL; if (!er && n == 0) er = EINVAL;
    EV("mmap", f ? f->path : "(bad fd)", o, n, er ? -1 : 0, er); if (er) { errno = er; return MAP_FAILED; }
    void *p = (void *)rawe(raw(SYS_mmap, 0, 4096 * 4, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); vos.maps[(uintptr_t)p] = n; return p;
  }
  if (vos.mmap_fail_hook && vos.mmap_fail_hook()) { errno = ENOMEM; return MAP_FAILED; }
  void *p = (void *)rawe(raw(SYS_mmap, (long)a, n, pr, fl, fd, o)); if (p != MAP_FAILED) { In in; vos.maps[(uintptr_t)p] = n; EV("mmap", "(anon)", 0, n); } return p;
}
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { ENTER(true) return (void *)rawe(raw(SYS_mmap, (long)a, n, pr, fl, fd, o)); return do_mmap(a, n, pr, fl, fd, o); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t o) { ENTER(true) return (void *)rawe(raw(SYS_mmap, (long)a, n, pr, fl, fd, o)); return do_mmap(a, n, pr, fl, fd, o); }
int munmap(void *a, size_t n) {
  ENTER(true) return rawe(raw(SYS_munmap, (long)a, n)); In in; auto it = vos.maps.find((uintptr_t)a);
  if (it == vos.maps.end()) return rawe(raw(SYS_munmap, (long)a, n));
  EV("munmap", "", n, it->second); if (n >= it->second) { size_t m = it->second; vos.maps.erase(it); raw(SYS_munmap, (long)a, m > 16384 ? 16384 : m); } return 0;
}
int madvise(void *a, size_t n, int adv) {
  ENTER(true) return rawe(raw(SYS_madvise, (long)a, n, adv)); In in; if (vos.madvise_hook) return vos.madvise_hook(a, n, adv);
  auto it = vos.maps.find((uintptr_t)a); FaultAns fa = fault("madvise", "", adv, n); EV("madvise", it == vos.maps.end() ? "(unmapped)" : "", adv, n, fa.err ? -1 : 0, fa.err); if (fa.err) { errno = fa.err; return -1; } return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!vos.on) return rawe(raw(SYS_clock_gettime, c, (long)ts));
  enter("clock_gettime", true);
  if (vos.clock_hook) { In in; return vos.clock_hook(c, ts); }
  int64_t t = vos.now_us; if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t += 1700000000ll * 1000000; ts->tv_sec = t / 1000000; ts->tv_nsec = t % 1000000 * 1000; return 0;
}
time_t time(time_t *o) { if (!vos.on) { struct timespec ts; raw(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); if (o) *o = ts.tv_sec; return ts.tv_sec; } enter("time", true); time_t t = 1700000000 + vos.now_us / 1000000; if (o) *o = t; return t; }
int gettimeofday(struct timeval *tv, void *) { if (!vos.on) return rawe(raw(SYS_gettimeofday, (long)tv, 0)); int64_t t = vos.now_us + 1700000000ll * 1000000; tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
static void advance(int64_t us) { vos.now_us += us; EV("sleep", "", us / 1000); }
unsigned sleep(unsigned s) { ENTER(true) { struct timespec ts = {s, 0}; raw(SYS_nanosleep, (long)&ts, 0); return 0; } In in; advance(s * 1000000ll); return 0; }
int usleep(useconds_t u) { ENTER(true) { struct timespec ts = {u / 1000000, (long)(u % 1000000) * 1000}; raw(SYS_nanosleep, (long)&ts, 0); return 0; } In in; advance(u); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) { ENTER(true) return -(int)raw(SYS_clock_nanosleep, c, fl, (long)t, (long)r); In in; int64_t us = t->tv_sec * 1000000ll + t->tv_nsec / 1000; if (fl & TIMER_ABSTIME) us -= vos.now_us + (c == CLOCK_REALTIME ? 1700000000ll * 1000000 : 0); if (us > 0) advance(us); return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) { ENTER(true) return rawe(raw(SYS_nanosleep, (long)t, (long)r)); In in; advance(t->tv_sec * 1000000ll + t->tv_nsec / 1000); return 0; }
int poll(struct pollfd *f, nfds_t n, int to) { ENTER(true) return rawe(raw(SYS_poll, (long)f, n, to)); return do_poll(f, n, to < 0 ? -1 : to * 1000ll); }
int __poll_chk(struct pollfd *f, nfds_t n, int to, size_t) { ENTER(true) return rawe(raw(SYS_poll, (long)f, n, to)); return do_poll(f, n, to < 0 ? -1 : to * 1000ll); }
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *m) { ENTER(true) return rawe(raw(SYS_ppoll, (long)f, n, (long)ts, (long)m, 8)); return do_poll(f, n, ts ? ts->tv_sec * 1000000ll + ts->tv_nsec / 1000 : -1); }

typedef void (*sigh)(int);
sigh signal(int sig, sigh h) noexcept {
  if (!vos.on) { struct sigaction sa, o; memset(&sa, 0, sizeof sa); sa.sa_handler = h; sa.sa_flags = SA_RESTART; static int (*f)(int, const struct sigaction *, struct sigaction *) = (decltype(f))dlsym(RTLD_NEXT, "sigaction"); f(sig, &sa, &o); return o.sa_handler; }
  enter("signal", true); sigh o = (sigh)vos.handler[sig]; vos.handler[sig] = (void *)h; vos.hflags[sig] = SA_RESTART; vos.hmask[sig] = 0; vos.handler_set[sig] = true; return o;
}
int sigaction(int sig, const struct sigaction *sa, struct sigaction *o) noexcept {
  if (!vos.on) { static int (*f)(int, const struct sigaction *, struct sigaction *) = (decltype(f))dlsym(RTLD_NEXT, "sigaction"); return f(sig, sa, o); }
  enter("sigaction", true); if (o) { memset(o, 0, sizeof *o); o->sa_handler = (sigh)vos.handler[sig]; o->sa_flags = vos.hflags[sig]; }
  if (sa) { vos.handler[sig] = (void *)sa->sa_handler; vos.hflags[sig] = sa->sa_flags; vos.hmask[sig] = 0; for (int i = 1; i < 64; i++) if (sigismember(&sa->sa_mask, i)) vos.hmask[sig] |= 1ull << i; vos.handler_set[sig] = true; } return 0;
}
static int do_mask(int how, const sigset_t *s, sigset_t *o) {
  if (o) { sigemptyset(o); for (int i = 1; i < 64; i++) if (vos.sigmask >> i & 1) sigaddset(o, i); }
  if (s) { uint64_t m = 0; for (int i = 1; i < 64; i++) if (sigismember(s, i)) m |= 1ull << i; if (how == SIG_BLOCK) vos.sigmask |= m; else if (how == SIG_UNBLOCK) vos.sigmask &= ~m; else vos.sigmask = m;
    for (int i = 1; i < 64; i++) if ((vos.sigpending >> i & 1) && !(vos.sigmask >> i & 1)) { vos.sigpending &= ~(1ull << i); deliver(i); } }
  return 0;
}
int sigprocmask(int h, const sigset_t *s, sigset_t *o) noexcept { ENTER(true) return rawe(raw(SYS_rt_sigprocmask, h, (long)s, (long)o, 8)); return do_mask(h, s, o); }
int pthread_sigmask(int h, const sigset_t *s, sigset_t *o) noexcept { ENTER(true) return -(int)raw(SYS_rt_sigprocmask, h, (long)s, (long)o, 8); return do_mask(h, s, o); }
int getpagesize(void) noexcept { return 4096; }
int posix_madvise(void *a, size_t n, int adv) { return madvise(a, n, adv) ? errno : 0; }
// what a daemon of this kind has no reason to call, and the virtual machine does not know: no answer rather than a wrong one
#define NOT(r, name, args, call) r name args { if (vos.on) unmodelled(#name); return REAL(name) call; }
NOT(int, link, (const char *a, const char *b), (a, b))
NOT(int, linkat, (int d, const char *a, int e, const char *b, int f), (d, a, e, b, f))
NOT(int, symlink, (const char *a, const char *b), (a, b))
NOT(int, symlinkat, (const char *a, int d, const char *b), (a, d, b))
NOT(int, mkdir, (const char *a, mode_t m), (a, m))
NOT(int, mkdirat, (int d, const char *a, mode_t m), (d, a, m))
NOT(int, rmdir, (const char *a), (a))
NOT(int, chown, (const char *a, uid_t u, gid_t g), (a, u, g))
NOT(int, lchown, (const char *a, uid_t u, gid_t g), (a, u, g))
NOT(int, mknod, (const char *a, mode_t m, dev_t d), (a, m, d))
NOT(int, mkfifo, (const char *a, mode_t m), (a, m))
NOT(FILE *, popen, (const char *a, const char *b), (a, b))
NOT(FILE *, freopen, (const char *a, const char *b, FILE *f), (a, b, f))
NOT(FILE *, tmpfile, (void), ())
NOT(DIR *, fdopendir, (int d), (d))
NOT(unsigned, alarm, (unsigned s), (s))
NOT(int, execve, (const char *a, char *const v[], char *const e[]), (a, v, e))
NOT(int, execvp, (const char *a, char *const v[]), (a, v))
NOT(int, chroot, (const char *a), (a))
NOT(int, mount, (const char *a, const char *b, const char *c, unsigned long f, const void *d), (a, b, c, f, d))
NOT(ssize_t, sendfile, (int a, int b, off_t *o, size_t n), (a, b, o, n))
NOT(ssize_t, copy_file_range, (int a, off64_t *o, int b, off64_t *p, size_t n, unsigned f), (a, o, b, p, n, f))


#ifndef __SANITIZE_ADDRESS__
#ifdef VOS_MALLOC
// every call the daemon makes to a shared library announces itself here (tools/build.py, trace_calls)
char vos_trace_on;
void vos_trace_call(const char *name) {
  if (!vos.on) return; static const char *const safe[] = {"write", "read", "close", "open", "kill", "getpid", "signal", "sigaction", "sigprocmask", "time", "dup2", "pipe", "_exit", "_Exit", "abort", "raise", "poll", "ppoll", "select", "memcpy", "memset", "memmove", "strlen", "fsync", "fdatasync", "lseek", "sem_post", "clock_gettime", "waitpid", "wait", "fork", "rename", "unlink", "eventfd_write"};
  bool ok = false; if (vos.in_handler) for (auto s : safe) if (!strcmp(s, name)) ok = true;
  int e = errno; enter(name, ok); errno = e;
}
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t);
size_t malloc_usable_size(void *) noexcept;
// what the daemon has allocated since accounting began, by requested size
static struct { void *p; size_t n; } live[1 << 18];
static size_t slot(void *p) { size_t i = ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 46; while (live[i].p && live[i].p != p) i = (i + 1) & ((1 << 18) - 1); return i; }
static void memacct(void *p, size_t n) { if (!p || !vos.on || !vos.account) return; size_t i = slot(p); if (live[i].p) { vos.live_bytes -= live[i].n; vos.live_blocks--; } live[i].p = p; live[i].n = n; vos.live_bytes += n; vos.live_blocks++; }
static void memdrop(void *p) { if (!p || !vos.account) return; size_t i = slot(p); if (!live[i].p) return; vos.live_bytes -= live[i].n; vos.live_blocks--; live[i].p = nullptr; const size_t m = (1 << 18) - 1; for (size_t j = (i + 1) & m; live[j].p; j = (j + 1) & m) { void *q = live[j].p; size_t z = live[j].n; live[j].p = nullptr; size_t k = slot(q); live[k].p = q; live[k].n = z; } }
void *malloc(size_t n) { enter("malloc", false); void *p = __libc_malloc(n); memacct(p, n); return p; }
void free(void *p) { enter("free", false); memdrop(p); __libc_free(p); }
void *calloc(size_t a, size_t b) { enter("calloc", false); void *p = __libc_calloc(a, b); memacct(p, a * b); return p; }
void *realloc(void *p, size_t n) { enter("realloc", false); memdrop(p); void *q = __libc_realloc(p, n); memacct(q, n); return q; }
#endif
#endif
}
