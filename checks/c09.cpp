#include "progs.h"
#include "need.h"
static const ProgDef P[3] = {{"/usr/bin/a", {{"/usr/bin/a", 0, 4096}, {"/usr/lib/ab.so", 0, 4096}, {"/usr/lib/ac.so", 0, 4096}, {"/usr/lib/abc.so", 0, 4096}}}, {"/usr/bin/b", {{"/usr/bin/b", 0, 4096}, {"/usr/lib/ab.so", 0, 4096}, {"/usr/lib/bc.so", 0, 4096}, {"/usr/lib/abc.so", 0, 4096}}}, {"/usr/bin/c", {{"/usr/bin/c", 0, 4096}, {"/usr/lib/bc.so", 0, 4096}, {"/usr/lib/ac.so", 0, 4096}, {"/usr/lib/abc.so", 0, 4096}}}};
struct Row { double ttl; int n, to[3]; };                                       // mean stay, departures, to the other combinations in cyclic order
static const Row rows[] = {{30, 4, {1, 2, 1}}, {0, 0, {0, 0, 0}}, {1, 3, {1, 1, 1}}, {1.5, 5, {4, 0, 1}}, {300, 2, {0, 2, 0}}, {30, 6, {0, 0, 6}}, {NAN, 3, {1, 2, 0}}, {40000, 1, {1, 0, 0}}, {30, 4, {2, 0, 2}}, {12, 7, {0, 7, 0}}, {20, 3, {3, 0, 0}}};
static void set_pair(RPair &p, int s, int k) { // row s as chosen, the others differ from it
  for (int x = 0; x < 4; x++) { const Row &r = rows[(k + (x == s ? 0 : 3 + 2 * x)) % 11]; p.ttl[x] = r.ttl; p.w[x][x] = r.n; for (int j = 0; j < 3; j++) p.w[x][(x + 1 + j) % 4] = r.to[j]; }
}
static RModel m; static int cyc; static bool uc;
static void files() { for (auto &p : P) prog_file(p); vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); }
static void part_file() { // statistics from a state file, the first prediction
  files(); m.time = 1000; int run = mc_choose(8, "running:none|A|B|AB|C|AC|BC|ABC"); static const int cy[] = {20, 3, 90}; int c = mc_choose(mc_param("cycles", 2, 3), "cycle:20|3|90"); cyc = cy[c];
  int t = mc_choose(7, "times:correlation ignored|positive and negative|zero and partial|limits|never ran|pair times too large|decades"); uc = t > 0; long sc = 1; if (t == 6) { t = 1; sc = 1000000; m.time *= sc; }
  static const long et[6][3] = {{500, 500, 500}, {600, 400, 300}, {500, 400, 100}, {1000, 300, 700}, {0, 500, 500}, {300, 400, 200}}, pt[6][3] = {{0, 0, 0}, {300, 50, 290}, {200, 50, 90}, {300, 700, 100}, {0, 0, 500}, {900, 5, 1000}};
  for (int i = 0; i < 3; i++) { RExe e; e.regs.insert(P[i].regs.begin(), P[i].regs.end()); e.time = et[t][i] * sc; e.run = run >> i & 1; m.ex[P[i].path] = e; if (e.run) proc_start(10 + i, P[i].path, P[i].regs); }
  int q = 0, nr = mc_param("rows", 8, 11); for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) { RPair p; p.time = pt[t][q++] * sc; p.st = (run >> i & 1) | (run >> j & 1) * 2; set_pair(p, p.st, mc_choose(nr, "statistics of pair %d", q)); m.pr[PK(P[i].path, P[j].path)] = p; }
  ConfB b; b.model["cycle"] = std::to_string(cyc); b.model["usecorrelation"] = uc ? "true" : "false"; b.system["prediction_algorithm"] = "Markov"; b.system["sortstrategy"] = "0"; b.system["maxprocs"] = "0"; set_conf(b);
  vos.put(STATE, file_of(m, mc_choose(mc_param("flips", 2, 2), "pairs listed:in order|reversed") ? 5 : 0).text());
  vos.idle = []() { auto q = prefetches(); mc_eval(); auto n = region_needs(m, markov_bids(m, cyc, uc)); std::string d = diff_ranked(n, q), o; for (auto &r : q) o += r.path + " ";
    if (mc_replaying() || !d.empty()) for (auto &x : n) mc_note("expected %s: %.6g", x.first.path.c_str(), x.second);
    if (!d.empty()) mc_fail("ranking", "%s; requests: %s", d.c_str(), o.c_str()); mc_outcome(o); mc_leaf(); };
  run_daemon(std_args());
}
static void part_history() { // statistics the daemon has learned itself
  files(); eng.compare = false; eng.interior = false; eng.conf.system["sortstrategy"] = "0"; eng.conf.system["maxprocs"] = "0"; uc = mc_choose(2, "correlation:ignored|used"); eng.conf.model["usecorrelation"] = uc ? "true" : "false"; eng.cycle = mc_choose(2, "cycle:20|6") ? 6 : 20;
  static const char *nm[] = {"A", "B", "C"}; for (int i = 0; i < mc_param("progs", 3, 3); i++) ev_toggle(P[i], 10 + i, nm[i]); ev_restart("restart"); eng.max_restarts = 1; bool rl = mc_choose(2, "settings:kept|reloaded"); if (rl) ev_reload("correlation", [](ConfB &c, RCfg &) { uc = !uc; c.model["usecorrelation"] = uc ? "true" : "false"; }); if (rl) ev_reload("cycle", [](ConfB &, RCfg &c) { c.cycle = c.cycle == 20 ? 6 : 20; });
  eng.gate = []() { return eng.next_step == 0; }; eng.perslot = 2; eng.depth = mc_param("depth", 11, 13); eng.total = rl ? mc_param("events2", 4, 5) : mc_param("events", 6, 7); if (rl) eng.max_restarts = 0; eng.settle = 4;
  eng.at_tick = [](const std::vector<Req> &q) { std::vector<Ref> ok; std::string d, o; for (auto &r : q) o += r.path + " "; for (auto &c : eng.cand) { auto n = region_needs(c.m, markov_bids(c.m, eng.cfg.cycle, uc)); std::string e = diff_ranked(n, q); mc_eval(); if (mc_replaying()) for (auto &x : n) mc_note("expected %s: %.6g", x.first.path.c_str(), x.second); if (e.empty()) ok.push_back(c); else d = e; } if (ok.empty()) mc_fail("ranking", "%s; requests: %s", d.c_str(), o.c_str()); eng.cand = ok; mc_state(o); };
  eng.go();
}
static void run() { world_init(); if (mc_choose(2, "statistics:from a state file|learned") == 0) part_file(); else part_history(); }
CheckDef check = {"C09", run,
  "three programs with own, pairwise and common regions: all 8 running sets x 8 kinds of statistics for each of the three pairs x 7 sets of running times (correlation ignored, positive, negative, zero, degenerate, inconsistent, decades long) x 2 cycles x both orientations; every history of up to 6 starts, stops and restarts, and up to 4 starts, stops and reloads switching the correlation or the cycle, over 6 cycles with correlation used or ignored and two cycles, every prediction compared",
  "11 kinds of statistics, 3 cycles; histories of 7 events over 7 cycles"};
