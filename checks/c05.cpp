#include "progs.h"
static void run() {
  world_init(); all_files(); vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); eng.conf.system["maxprocs"] = "0"; eng.cfg.vomm = mc_choose(2, "algorithm:Markov|VOMM"); int part = mc_choose(4, "part:all events|switching the algorithm|timers and signals|loaded models");
  ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B"); ev_delete(PA, "delete-A");
  if (part == 0) { ev_delete(PB, "delete-B"); ev_replace(PA, "replace-A"); ev_exec(10, PA, PB, "A-execs-B"); ev_sig(SIGUSR2, "save"); ev_sig(SIGUSR1, "dump"); ev_reload("reload", [](ConfB &, RCfg &) {}); ev_restart("restart"); eng.max_restarts = 1; eng.depth = mc_param("depth", 5, 6); eng.perslot = mc_param("perslot", 2, 2); eng.total = mc_param("events", 3, 4); }
  else if (part == 1) { // no model to compare with: what launches count while the other algorithm runs is not specified
    ev_reload("switch", [](ConfB &, RCfg &c) { c.vomm = !c.vomm; }); ev_reload("scanning-on-off", [](ConfB &, RCfg &c) { c.doscan = !c.doscan; }); ev_sig(SIGUSR2, "save"); eng.mask = M_EXE | M_MAP | M_ACC; ev_restart("restart"); eng.max_restarts = 1; eng.depth = mc_param("depth1", 4, 6); eng.perslot = mc_param("perslot1", 2, 2); eng.total = mc_param("events1", 3, 4); eng.interior = false; }
  else if (part == 3) { // three programs known from the state file, in every order, then forgotten, started and saved
    int ord = mc_choose(6, "order of the file"), t = mc_choose(2, "model:new|with history"); load_model({&PA, &PB, &PC}, ord, t ? 100 : 0, t); eng.events.clear();
    auto forget = [](const ProgDef &p, const char *n) { Ev1 e; e.name = n; e.sig = SIGUSR2; e.enabled = [&p]() { return vos.has(p.path); }; e.act = [&p]() { vos.rm(p.path); for (auto &q : eng.w.procs) if (q.exe == p.path) q.exe += " (deleted)"; }; eng.events.push_back(e); };
    forget(PA, "forget-A"); forget(PB, "forget-B"); forget(PC, "forget-C"); ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B"); ev_toggle(PD, 13, "D"); ev_sig(SIGUSR1, "dump"); ev_reload("switch", [](ConfB &, RCfg &c) { c.vomm = !c.vomm; }); ev_restart("restart"); eng.max_restarts = 1; eng.mask = M_EXE | M_MAP | M_ACC | M_PAIR; eng.depth = mc_param("depth3", 4, 6); eng.total = mc_param("events3", 3, 4); eng.interior = false; }
  else { eng.autosave = mc_choose(2, "autosave:5|15") ? 15 : 5; ev_sig(SIGUSR2, "save"); ev_sig(SIGUSR1, "dump"); ev_toggle(PC, 12, "C"); eng.depth = mc_param("depth2", 4, 8); eng.total = mc_param("events2", 2, 3); eng.interior = false; }
  eng.go();
}
CheckDef check = {"C05", run,
  "AddressSanitizer; every history of up to 3 events out of 10 (starts, stops, deletion, replacement, exec, save, dump, reload, restart) in 5 half-cycles; 3 events with switches of algorithm and scanning in 4 half-cycles; autosave every 5 or 15 s with 2 events in 4 slots; models of 3 programs loaded in every order, new and with history, then 3 events (programs forgotten, started, dump, switch, restart) in 4 half-cycles; both algorithms",
  "4 events in 6 half-cycles; 4 events in 6; autosave with 3 events in 8 slots; 4 events in 6 half-cycles on loaded models"};
