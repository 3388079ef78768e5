// Virtual OS: every libc call through which the daemon (or GLib on its behalf) reaches the outside
// world is answered from this in-memory world while `vos.on` is set.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sys/types.h>
#include <csetjmp>

struct Inode {
  std::string data;
  unsigned long ino = 0;
  mode_t mode = 0100644; bool owned = false; // created by the daemon
  long blksize = 4096;
  long mtime = 1;
  std::map<int, int> blocks;   // FIBMAP answers: logical block -> physical block
  int fibmap_err = 0;          // errno of FIBMAP (default: unsupported below)
  bool has_blocks = false;
};
typedef std::shared_ptr<Inode> InodeP;

struct VProc {
  int pid;
  std::string exe;             // target of /proc/PID/exe
  std::string maps;            // contents of /proc/PID/maps
  int exe_err = 0, maps_err = 0;
};

struct Ev {                    // one logged system call
  std::string kind, path;
  long a = 0, b = 0, ret = 0;
  int64_t t = 0;               // virtual time in ms
  int helper = 0;              // >0: executed by the helper with this pid
  int err = 0;
  std::string data;
  std::string str() const;
};

struct VFd {
  enum Kind { FREE, FILE_, PIPE_R, PIPE_W, EVENTFD, NULLDEV } kind = FREE;
  InodeP ino; std::string path; size_t pos = 0; int flags = 0;
  std::shared_ptr<std::string> pipe;
  std::shared_ptr<uint64_t> evc;
};

struct FaultReq {              // handed to the fault hook before an operation takes effect
  const char *op; std::string path; long a, b;  // a: byte count for read/write, flags for open
};
struct FaultAns { int err = 0; long shortn = -1; };

struct Vos {
  bool on = false;             // answering for the daemon
  bool helper = false;         // this process is a prefetch helper
  int helper_pid = 0, helper_pipe = -1;
  // world
  std::map<std::string, InodeP> files;
  std::set<std::string> dirs;
  std::map<std::string, std::string> links; // symbolic links that open, rename, unlink and stat know
  mode_t umask_ = 022;
  std::map<std::string, int> stat_err;   // path -> errno for stat()
  std::map<std::string, int> open_err;   // path -> errno for open()
  std::vector<VProc> procs;
  std::string meminfo, vmstat, procstat;
  std::string cwd = "/";
  unsigned long next_ino = 100;
  int selfpid = 4242;
  int64_t now_us = 0;
  // descriptors
  std::vector<VFd> fds;                   // index + FDBASE
  int std_to[3] = {-1, -1, -1};           // what 0,1,2 were dup2'ed to (index into stdfiles) or -1
  VFd stdf[3];
  std::string out, err;                   // captured stdout / stderr (when not redirected to a file)
  // signals
  void *handler[65] = {};                 // nullptr default, 1 ignore, else function
  int hflags[65] = {}; uint64_t hmask[65] = {};
  bool handler_set[65] = {};
  std::set<std::string> symlinks; // what lstat shows as symbolic links (stat follows to the entry of that name)
  uint64_t sigmask = 0, sigpending = 0;
  int in_handler = 0;
  // processes
  int next_pid = 5000;
  std::vector<int> zombies;               // finished helpers not yet waited for
  int max_children = 0;
  bool sigchld_echild = false;            // wait() reports ECHILD without reaping (SIGCHLD ignored)
  int eintr_waits = 0;                    // next k waits answer EINTR
  bool expect_daemon_fork = false;        // next fork is the daemonizing one
  int daemonize_side = 0;                 // 0: continue as child, 1: continue as parent
  // log
  std::vector<Ev> log;
  bool logging = true;
  long ops_since_idle = 0, ops_limit = 400000;
  // hooks
  std::function<void()> idle;             // the daemon is about to sleep until idle_deadline_us
  std::function<FaultAns(const FaultReq &)> fault;
  std::function<void(const char *)> point; // called at every intercepted call (delivery points)
  std::function<void(const char *)> forbidden; // call inside a signal handler
  std::function<void(const std::string &)> on_opendir;
  std::function<void(int)> on_daemon_exit;
  bool in_point = false;
  int64_t idle_deadline_us = 0;
  bool woken = false;                     // a signal was delivered during idle -> EINTR
  // exit
  jmp_buf *exit_jmp = nullptr; int exit_status = 0;
  // memory accounting of the daemon's allocations
  long live_bytes = 0, live_blocks = 0; bool account = false;
  // mappings made by the daemon
  std::map<uintptr_t, size_t> maps;
  // white-box hooks for helper modules
  std::function<int(int, struct timespec *)> clock_hook;
  std::function<int(void *, size_t, int)> madvise_hook;
  std::function<int(int, long, long, int)> fadvise_hook;
  std::function<bool(void)> mmap_fail_hook;

  // world helpers
  InodeP put(const std::string &path, const std::string &data = "", mode_t mode = 0100644);
  bool has(const std::string &p) const { return files.count(p); }
  std::string get(const std::string &p) const { auto i = files.find(p); return i == files.end() ? "" : i->second->data; }
  void rm(const std::string &p) { files.erase(p); }
  void mkdirs(const std::string &p);
  int open_fds() const;
  std::string fd_desc() const;
  void set_mem(long total, long free_, long avail, long buffers, long cached);
  void ev(const Ev &e);
  int signal(int sig);         // deliver; 1 handler ran, 0 ignored, -1 default action would kill, 2 blocked
  void reset_process();        // forget descriptors, handlers, children: a new process image
};
extern Vos vos;

struct VosOff { bool s; VosOff() : s(vos.on) { vos.on = false; } ~VosOff() { vos.on = s; } };

long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
int real_fork();
