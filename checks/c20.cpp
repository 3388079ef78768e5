#include "progs.h"
static void run() {
  world_init(); all_files(); eng.mask = M_ALL; eng.cfg.vomm = mc_choose(2, "algorithm:Markov|VOMM"); static const int as[] = {100000, 5, 15, 25, 20}; int a = mc_choose(5, "autosave:never|5|15|25|20"); eng.autosave = as[a];
  ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B"); ev_sig(SIGUSR2, "save"); ev_reload("reload", [](ConfB &, RCfg &) {}); ev_restart("restart"); eng.max_restarts = 2;
  static bool bat; bat = false; eng.battery = []() { return bat; }; if (a < 2) ev_do("battery", nullptr, []() { bat = !bat; vos.put("/sys/class/power_supply/BAT0/status", bat ? "Discharging\n" : "Charging\n"); });
  if (a == 0) { eng.depth = mc_param("depth", 6, 7); eng.perslot = mc_param("perslot", 2, 2); eng.total = mc_param("events", 4, 5); }
  else { eng.depth = mc_param("depth1", 8, 10); eng.total = mc_param("events1", 3, 4); }
  eng.go();
}
CheckDef check = {"C20", run,
  "every history of up to 4 events (start, stop, save, reload, battery, shutdown and restart) in 6 half-cycles, two per half-cycle, both algorithms, and up to 3 events with autosave every 5, 15, 20 or 25 s; what a shutdown would save is compared at every moment between events",
  "5 events in 7 half-cycles; 4 events with autosave"};
