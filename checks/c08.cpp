#include "progs.h"
static void run() {
  world_init(); all_files(); eng.mask = M_PAIR | M_EXE; int part = mc_choose(3, "part:three programs|two programs, long|restarts and deletions");
  ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B");
  if (part == 0) { ev_toggle(PC, 12, "C"); eng.depth = mc_param("depth", 6, 8); eng.perslot = 3; eng.total = mc_param("events", 5, 7); }
  else if (part == 1) { // events only before scans: every sequence of running sets of two programs over many cycles
    eng.gate = []() { return eng.next_step == 0; }; eng.perslot = 2; eng.depth = mc_param("depth1", 13, 17); eng.cycle = mc_choose(2, "cycle:20|3") ? 3 : 20; eng.cfg.vomm = false; eng.interior = false; }
  else { ev_toggle(PC, 12, "C"); ev_delete(PB, "delete-B"); ev_sig(SIGUSR2, "save"); ev_restart("restart"); eng.downtime = true; eng.max_restarts = mc_param("restarts", 1, 2); eng.depth = mc_param("depth2", 5, 6); eng.perslot = mc_param("perslot2", 1, 2); eng.total = mc_param("events2", 5, 5); }
  eng.go();
}
CheckDef check = {"C08", run,
  "every history of up to 5 starts/stops of 3 programs in 6 half-cycles (up to 3 at once); every sequence of running sets of two programs over 7 scans, two cycle lengths; 5 events incl. deletion, save, restart and changes during downtime in 5 half-cycles",
  "7 events in 8 half-cycles; 9 scans; 5 events two per half-cycle with 2 restarts"};
