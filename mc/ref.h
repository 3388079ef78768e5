// Reference model of what the daemon must know: a plain re-statement of the properties over maps and
// vectors. Where the properties leave an order open, a set of candidate states is kept.
#pragma once
#include "dm.h"
#include <memory>

struct WProc { int pid; std::string exe; std::vector<Region> regs; };  // the real processes
enum FStat { F_OK, F_GONE, F_UNKNOWN };
struct World {
  std::vector<WProc> procs;
  std::function<bool(const std::string &)> accept_exe, accept_map;     // the configured filters
  std::string norm_exe(const std::string &e) const;                    // the path it counts as, "" if ignored
  std::string norm_map(const std::string &p) const;
  std::map<std::string, std::set<int>> running() const;
  const WProc *proc(int pid) const;
  FStat fstat(const std::string &path) const;                          // from the virtual file system
  void sync() const;                                                   // publish to the virtual /proc
};

struct RExe { std::multiset<Region> regs; long time = 0; bool run = false; long chg = -1; };
struct RPair { int st = 0; long chg = 0, time = 0; double ttl[4] = {0, 0, 0, 0}; int w[4][4] = {}; };
typedef std::pair<std::string, std::string> PK;
typedef std::vector<std::string> Seq;
struct RModel { long time = 0; std::map<std::string, RExe> ex; std::map<PK, RPair> pr; std::map<Seq, long> tree; bool tree_init = false; };
struct RCfg { int cycle = 20; long minsize = 1000; bool vomm = false, doscan = true, dopredict = true; };

struct Ref {
  RModel m; RCfg cfg; long acct = 0;
  std::set<std::string> bad, changed; std::map<std::string, std::set<int>> newp; bool model_dirty = false, dirty = false;
  Seq hist, ctx; std::shared_ptr<RModel> saved;                        // what the state file holds (null: no file)
  bool hist_gap = false;                                               // a program was removed from the history: no claim about the next direct transition
  void start(const World &w);                                          // a new daemon process reads `saved`
  std::vector<Ref> scan(const World &w) const;
  std::vector<Ref> update(const World &w) const;
  void init_algorithm();
  void save(const World &w);                                           // writes if dirty, then forgets the vanished
  void launch(const std::string &x);
  void pair_change(RPair &p, int ns);
  int running() const { int n = 0; for (auto &e : m.ex) n += e.second.run; return n; }
  std::set<Region> regions() const;
  std::string key() const;
};
enum { M_TIME = 1, M_EXE = 2, M_MAP = 4, M_ACC = 8, M_PAIR = 16, M_SEQ = 32, M_ALL = 63 };
std::string diff_model(const RModel &r, const SState &s, int mask);   // empty: they agree
std::string show(const RModel &r);
