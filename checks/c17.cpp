#include "progs.h"
// which battery, what the other batteries and the mains supply say
static int bat, others; static bool discharging; static std::string said;
static void power() {
  for (int i = 0; i < 10; i++) vos.rm(fmt("/sys/class/power_supply/BAT%d/status", i)); vos.open_err.clear();
  auto put = [](int i, const std::string &t) { vos.put(fmt("/sys/class/power_supply/BAT%d/status", i), t); };
  if (others) for (int i = 0; i < 10; i++) if (others == 1 ? i != bat : i == (bat + 1) % 10) put(i, i % 2 ? "Charging\n" : "Full\n");
  vos.put("/sys/class/power_supply/AC/status", "Discharging\n"); if (others == 2) { put((bat + 5) % 10, "Discharging\n"); vos.open_err[fmt("/sys/class/power_supply/BAT%d/status", (bat + 5) % 10)] = EACCES; } // cannot be read: not known to discharge
  if (said != "absent") put(bat, said);
}
static void at_step(int kind, size_t from) {
  int scans = 0, predicts = 0, saves = 0; for (size_t i = from; i < vos.log.size(); i++) { auto &e = vos.log[i]; if (e.kind == "opendir" && (e.path == "/proc" || e.path == "/proc/")) scans++; if (e.kind == "meminfo") predicts++; if (e.kind == "rename" && e.data == STATE && !e.ret) saves++; }
  auto rq = prefetches(from); mc_eval(); bool tick = kind == 0 || kind == 10, b = tick && discharging; const char *w = kind >= 10 ? "at a step and a save" : kind == 0 ? b ? "in a cycle on battery" : "at the start of a cycle" : kind == 1 ? "at an update" : "at a save";
  int ws = tick && !b && eng.cfg.doscan, wp = tick && !b && eng.cfg.dopredict; mc_note("@%.0f %s: %d scans, %d predictions, %zu requests", (vos.now_us - 1000000000) / 1e6, w, scans, predicts, rq.size());
  if (kind % 10 == 0 && eng.t_step == eng.t_start) { if (scans == ws + 1) scans--; if (predicts == wp + 1) predicts--; } // the load looks at the machine once as well
  if (scans != ws) mc_fail(fmt("scans:%d-for-%d", scans > 1 ? 2 : scans, ws).c_str(), "%s: %d scans of the processes instead of %d (scanning %s)", w, scans, ws, eng.cfg.doscan ? "on" : "off");
  if ((predicts > 0) != wp || (!wp && !rq.empty())) mc_fail(fmt("predictions:%d-for-%d", predicts > 0, wp).c_str(), "%s: %d predictions and %zu requests instead of %d (predicting %s)", w, predicts, rq.size(), wp, eng.cfg.dopredict ? "on" : "off");
  if (predicts > 1) mc_fail("predictions:2", "%s: %d predictions in one cycle", w, predicts);
  if (kind == 0 || kind == 1) { if (saves) mc_fail("save:unasked", "%s: the state is saved though no save is due", w); } else if (saves > 1) mc_fail("save:twice", "%s: the state is saved %d times", w, saves);
  if (wp && eng.cfg.vomm) for (auto &c : eng.cand) { bool need = false; for (auto &e : c.m.ex) if (!e.second.run && c.m.tree.count(Seq{e.first})) need = true; if (!need) return; }
  if (wp && eng.cfg.vomm && !eng.cand.empty() && eng.cand[0].m.tree.size() > 4 && rq.empty()) { bool need = true; for (auto &c : eng.cand) { bool n = false; for (auto &t : c.m.tree) if (t.first.size() == 2 && !c.m.ex.at(t.first.back()).run) n = true; need = need && n; } if (need && scans == 0) mc_fail("predictions:empty", "%s: programs that follow others often are not running, and nothing is prefetched", w); }
}
static void run() {
  world_init(); all_files(); vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); eng.mask = M_TIME | M_EXE | M_ACC; eng.cfg.vomm = mc_choose(2, "algorithm:Markov|VOMM"); eng.at_step = at_step; eng.battery = []() { return discharging; };
  static const int cy[] = {20, 3, 7, 90}; eng.cycle = eng.cfg.cycle = cy[mc_choose(mc_param("cycles", 3, 4), "cycle:20|3|7|90")]; int part = mc_choose(3, "part:saves|settings|batteries");
  static const char *dis[] = {"Discharging\n", "Discharging", " Discharging \n\n"}, *not_[] = {"Charging\n", "absent", "Full\n", "Not charging\n", "Unknown\n", "", "discharging\n", "Discharging slowly\n", "Not Discharging\n"};
  bat = 0; others = 0; static int md, mn; md = 0; mn = 0;
  if (part == 2) { static const int bi[] = {0, 1, 9, 4, 5}; bat = bi[mc_choose(mc_param("batteries", 3, 5), "battery:0|1|9|4|5")]; others = mc_choose(3, "other batteries:none|all charging or full|one charging, one unreadable"); int x = mc_choose(mc_thorough ? 27 : 11, "texts"); if (mc_thorough) { md = x % 3; mn = x / 3; } else if (x < 9) mn = x; else md = x - 8; }
  discharging = mc_choose(2, "start:mains|battery"); said = discharging ? dis[md] : not_[mn]; power();
  ev_do("power", nullptr, []() { discharging = !discharging; said = discharging ? dis[md] : not_[mn]; power(); }); ev_toggle(PA, 10, "A"); eng.interior = true;
  if (part == 0) { ev_toggle(PB, 11, "B"); static const int as[] = {100000, 5, 15, 50}; eng.autosave = as[mc_choose(4, "autosave:never|5|15|50")]; ev_restart("restart"); eng.max_restarts = 1; ev_reload("autosave", [](ConfB &c, RCfg &) { eng.autosave = eng.autosave == 15 ? 35 : 15; c.system["autosave"] = std::to_string(eng.autosave); }); eng.depth = mc_param("depth", 5, 8); eng.total = mc_param("events", 3, 5); }
  else if (part == 1) { ev_reload("scanning", [](ConfB &, RCfg &c) { c.doscan = !c.doscan; }); ev_reload("predicting", [](ConfB &, RCfg &c) { c.dopredict = !c.dopredict; }); ev_reload("cycle", [](ConfB &, RCfg &c) { c.cycle = c.cycle == 5 ? 12 : 5; }); eng.depth = mc_param("depth1", 6, 8); eng.total = mc_param("events1", 4, 5); }
  else { eng.depth = mc_param("depth2", 5, 7); eng.total = mc_param("events2", 2, 4); }
  eng.go();
}
CheckDef check = {"C17", run,
  "every history of up to 3 or 4 events (mains to battery and back, starts, stops, restart, switching scanning or prediction on or off, changing the cycle or the autosave period) in 6 half-cycles, cycles of 20, 3 and 7 s, autosave never or every 5, 15 or 50 s, batteries 0, 1 and 9 with every status text, alone or beside others; scans, predictions, saves and the model clock are compared at every step",
  "up to 5 events in 8 half-cycles, cycle of 90 s as well, five battery numbers"};
