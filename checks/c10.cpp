#include "progs.h"
static void bound(const SState &s) {
  mc_eval(); for (auto &t : s.tree()) { if (t.first.size() > 5) mc_fail("context-too-deep", "a launch context of %zu launches is kept", t.first.size()); if (t.second < 0) mc_fail("negative-count", "negative count"); for (auto &x : t.first) if (x[0] == '(') mc_fail("tree-broken", "the saved tree is inconsistent: %s", x.c_str()); }
}
static void run() {
  world_init(); all_files(); eng.mask = M_SEQ | M_EXE; eng.cfg.vomm = true; eng.at_saved = [](const std::string &t) { if (!t.empty()) bound(parse_state(t)); };
  int part = mc_choose(6, "part:one program at a time|any starts and stops|loaded deep tree|restart and removal|a pattern of launches repeated|others are forgotten");
  if (part == 0) { // before each scan the running program is replaced: one launch per cycle, long sequences
    static const ProgDef *P[] = {&PA, &PB, &PC}; static const char *n[] = {"A", "B", "C"};
    for (int i = 0; i < mc_param("progs", 3, 3); i++) ev_do(n[i], nullptr, [i]() { eng.w.procs.clear(); eng.w.procs.push_back({10 + i, P[i]->path, P[i]->regs}); });
    eng.gate = []() { return eng.next_step == 0; }; eng.depth = mc_param("depth", 13, 19); eng.interior = false;
  } else if (part == 4) { // a pattern of launches over and over: deep contexts that are known already
    static const ProgDef *P[] = {&PA, &PB, &PC, &PD}; static std::vector<int> pat; static int at, period; pat.clear(); at = 0; period = mc_choose(2, "a launch every:cycle|second cycle") + 1; int n = mc_param("pattern", 5, 7); for (int i = 0; i < n; i++) { int k = mc_choose(4 + (i > 0), "launch:A|B|C|D|end"); if (k == 4) break; pat.push_back(k); }
    eng.script = []() { if (eng.next_step == 0 && at++ % period == 0) { int k = pat[(at - 1) / period % pat.size()]; eng.w.procs.clear(); eng.w.procs.push_back({10 + k, P[k]->path, P[k]->regs}); } return 0; }; eng.depth = mc_param("depth4", 15, 18) * 2 * period; eng.interior = false;
  } else if (part == 5) { // the first save forgets a program that was never launched
    vos.rm(PD.path); load_model({&PA, &PB, &PC, &PD}, 0, 1000, true); ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B"); ev_toggle(PC, 12, "C"); ev_sig(SIGUSR2, "save"); eng.depth = mc_param("depth5", 6, 8); eng.total = mc_param("events5", 5, 6);
  } else if (part == 1) { ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B"); ev_toggle(PC, 12, "C"); ev_toggle(PA, 20, "A'"); eng.depth = mc_param("depth1", 5, 6); eng.perslot = 2; eng.total = mc_param("events1", 5, 6); }
  else if (part == 2) { // a full-depth chain from the state file, then more launches and restarts
    StateW w; w.time = 100; Ref r; auto m = std::make_shared<RModel>(); m->time = 100; int id[3]; const ProgDef *P[] = {&PA, &PB, &PC};
    for (int i = 0; i < 3; i++) { id[i] = w.exe(P[i]->path); RExe e; for (auto &x : P[i]->regs) { w.use(id[i], w.map(x.path, x.off, x.len)); e.regs.insert(x); } m->ex[P[i]->path] = e; } for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) { w.mk(id[i], id[j]); m->pr[PK(P[i]->path, P[j]->path)]; }
    int n = mc_choose(5, "chain length") + 1; Seq q; int big = n % 2 ? 10 : 2000000000; for (int i = 0; i < n; i++) { w.nodes.push_back({i + 1, id[i % 3], big - i, i}); q.push_back(P[i % 3]->path); m->tree[q] = big - i; } w.nodes.push_back({9, id[1], 3, 0}); m->tree[{PB.path}] = 3; vos.put(STATE, w.text()); r.saved = m; eng.cand = {r};
    ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B"); ev_restart("restart"); eng.max_restarts = 1; eng.downtime = true; eng.depth = mc_param("depth2", 6, 8); eng.total = mc_param("events2", 4, 5);
  } else { ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B"); ev_delete(PB, "delete-B"); ev_sig(SIGUSR2, "save"); ev_reload("reload", [](ConfB &, RCfg &) {}); ev_restart("restart"); eng.max_restarts = mc_param("restarts3", 2, 2); eng.depth = mc_param("depth3", 6, 7); eng.perslot = mc_param("perslot3", 1, 2); eng.total = mc_param("events3", 5, 5); }
  eng.go();
}
CheckDef check = {"C10", run,
  "every sequence of single launches of 3 programs over 7 cycles (contexts of depth 5 and the restart behind them); every history of up to 5 starts/stops of 3 programs with a second process, two per half-cycle, every order of simultaneous launches accepted; trees loaded with chains of 1 to 5; 5 events with deletion, save, reload and restart, or where a save forgets a program that was not launched; every pattern of up to 5 launches of 4 programs repeated until 15 launches",
  "10 cycles of single launches; 6 events; 5 events on loaded chains over 8 half-cycles; two events per half-cycle"};
