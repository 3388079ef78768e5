// Driver: runs the real daemon (its main, renamed) inside the virtual OS; parses what it lets one observe.
#pragma once
#include "mc.h"
#include "vos.h"
#include <array>
#include <cstring>
#include <tuple>
#include <map>
#include <set>
#include <string>
#include <vector>

extern "C" int preload_daemon_main(int argc, char **argv);

static const char *const STATE = "/var/lib/preload/preload.state";
static const char *const CONF = "/etc/preload.conf";

void world_init();                                   // standard virtual machine: dirs, memory report, clock
struct ConfB {                                       // a configuration file
  std::map<std::string, std::string> model, system; std::string text() const;
};
void set_conf(const ConfB &c);
// runs the daemon until it exits; returns exit status. Hooks in vos (idle etc.) must be set before.
int run_daemon(const std::vector<std::string> &args);
std::vector<std::string> std_args(int verbosity = 4); // -f -l '' -c CONF -s STATE -V n
void restart_process();                              // make the next run_daemon start from a fresh process image
void deliver(int sig);                               // signal to the daemon at its event loop

// ---- processes
std::string map_line(unsigned long start, unsigned long len, unsigned long off, const std::string &path, const char *perm = "r-xp");
struct Region { std::string path; unsigned long off, len; bool operator<(const Region &o) const { return std::tie(path, off, len) < std::tie(o.path, o.off, o.len); } bool operator==(const Region &o) const { return path == o.path && off == o.off && len == o.len; } };
std::string maps_text(const std::vector<Region> &r);
void proc_start(int pid, const std::string &exe, const std::vector<Region> &r);
void proc_stop(int pid);
bool proc_alive(int pid);

// ---- state file
struct SMap { long long seq; long long update; unsigned long off, len; std::string path; };
struct SExe { long long seq, update, time; std::string path; std::multiset<Region> regions; };
struct SMarkov { std::string a, b; long long time; double ttl[4]; int w[4][4]; };
struct SNode { long long id, parent; std::string exe; long count; };
struct SState {
  bool ok = false; std::string err; std::string version; long long time = -1;
  std::map<std::string, SExe> exes; std::vector<SMap> maps; std::vector<SMarkov> markovs; std::vector<SNode> nodes; std::vector<std::string> bad;
  std::map<std::vector<std::string>, long> tree() const;  // path of programs -> count
  std::set<Region> regions() const;
  const SMarkov *pair(const std::string &x, const std::string &y, bool &swapped) const;
  std::string canon(bool with_update = false) const;      // independent of numbering and order
};
SState parse_state(const std::string &text);
std::string uri(const std::string &path);
std::string unuri(const std::string &u, bool &ok);

// ---- writing state files for a chosen model
struct StateW {
  long long time = 0; std::string version = "0.6.4";
  std::vector<SMap> maps; std::vector<SExe> exes; std::vector<std::pair<int, int>> exemaps; // (exe seq, map seq)
  struct MK { int a, b; long long time; double ttl[4]; int w[4][4]; }; std::vector<MK> mks; struct ND { int id, exe, count, parent; }; std::vector<ND> nodes;
  int map(const std::string &path, unsigned long off, unsigned long len) { for (auto &m : maps) if (m.path == path && m.off == off && m.len == len) return m.seq; maps.push_back({(long long)maps.size() + 1, 0, off, len, path}); return maps.size(); }
  int exe(const std::string &path, long long t = 0) { SExe e; e.seq = exes.size() + 1; e.update = 0; e.time = t; e.path = path; exes.push_back(e); return e.seq; }
  void use(int e, int m) { exemaps.push_back({e, m}); }
  MK &mk(int a, int b) { MK k; memset(&k, 0, sizeof k); k.a = a; k.b = b; mks.push_back(k); return mks.back(); }
  std::string text() const;
};

// ---- debug dump (SIGUSR1)
struct Dump { bool ok = false; long time = -1, exes = -1, bad = -1, maps = -1, running = -1; std::map<std::string, std::string> conf; };
Dump parse_dump(const std::string &err_text);
// Observations at the event loop. When they return true the caller is the observing copy and must
// return to the daemon at once; false: the observation is in the argument, nothing was disturbed.
bool probe_dump(Dump &d);                            // what SIGUSR1 would print now
bool probe_state(SState &s, std::string *text = nullptr); // what SIGTERM would save now
bool probe_both(Dump &d, SState &s, std::string *text = nullptr); // both, in one copy
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
bool contains(const std::string &h, const std::string &n);
int count_of(const std::string &h, const std::string &n);
struct Req { std::string path; long off, len; int helper; int64_t t; };
std::vector<Req> prefetches(size_t from = 0);        // readahead requests in the log
// drive the event loop: callback is called at each idle period; return false = deliver SIGTERM
extern std::vector<std::string> daemon_criticals;    // "preload" log lines at critical level or GLib assertion failures

// unions of byte ranges per file
struct Cover {
  std::map<std::string, std::map<long, long>> m;     // path -> disjoint [start, end)
  void add(const std::string &p, long off, long len) { if (len <= 0) return; auto &r = m[p]; long s = off, e = off + len; for (auto i = r.begin(); i != r.end();) if (i->first <= e && i->second >= s) { s = std::min(s, i->first); e = std::max(e, i->second); i = r.erase(i); } else ++i; r[s] = e; }
  bool has(const std::string &p, long off, long len) const { auto f = m.find(p); if (f == m.end()) return len <= 0; for (auto &x : f->second) if (x.first <= off && x.second >= off + len) return true; return len <= 0; }
  bool operator==(const Cover &o) const { return m == o.m; }
  std::string str() const { std::string s; for (auto &f : m) for (auto &r : f.second) s += fmt(" %s[%ld,%ld)", f.first.c_str(), r.first, r.second); return s; }
};
