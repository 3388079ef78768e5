#include "progs.h"
#include "need.h"
typedef struct _preload_markov_t preload_markov_t;
extern "C" { __attribute__((weak)) double preload_markov_correlation(preload_markov_t *); __attribute__((weak)) void preload_markov_foreach(void (*)(void *, void *), void *); }
// the correlation the daemon derives from the times of each pair, against the one defined by the expected times
static void correlations() {
  if (mc_in_probe() || !preload_markov_correlation || !preload_markov_foreach) return;
  std::vector<double> got; preload_markov_foreach([](void *m, void *v) { ((std::vector<double> *)v)->push_back(preload_markov_correlation((preload_markov_t *)m)); }, &got);
  for (double c : got) if (!std::isfinite(c) || c < -1 || c > 1) mc_fail("correlation-range", "a pair of programs has correlation %.17g", c);
  std::sort(got.begin(), got.end()); mc_eval(); std::string why;
  for (auto &r : eng.cand) { std::vector<double> want; for (auto &p : r.m.pr) want.push_back(corr_of(r.m, p.first, p.second)); std::sort(want.begin(), want.end()); std::string d;
    if (want.size() != got.size()) d = fmt("%zu pairs have a correlation, expected %zu", got.size(), want.size());
    else for (size_t i = 0; i < got.size() && d.empty(); i++) if (fabs(got[i] - want[i]) > 1e-9) d = fmt("a pair has correlation %.9g, expected %.9g from its times", got[i], want[i]);
    if (d.empty()) return; why = d; }
  mc_fail("correlation", "%s", why.c_str());
}
// times never exceed each other: stated separately from the model
static void invariants(const SState &s) {
  for (auto &e : s.exes) if (e.second.time < 0 || e.second.time > s.time) mc_fail("time-exceeds-total", "%s ran %lld of %lld", e.first.c_str(), e.second.time, s.time);
  for (auto &m : s.markovs) if (m.time < 0 || m.time > s.exes.at(m.a).time || m.time > s.exes.at(m.b).time) mc_fail("common-time-exceeds", "%s and %s ran together %lld, alone %lld and %lld", m.a.c_str(), m.b.c_str(), m.time, s.exes.at(m.a).time, s.exes.at(m.b).time);
}
static void run() {
  world_init(); all_files(); int part = mc_choose(3, "part:start and stop|with saves, reloads and other cycle lengths|loaded times");
  eng.mask = M_ACC | M_TIME | M_EXE; eng.at_observe = correlations; eng.at_saved = [](const std::string &t) { if (!t.empty()) { mc_eval(); invariants(parse_state(t)); } };
  ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B");
  if (part == 0) { ev_toggle(PC, 12, "C"); ev_restart("restart"); eng.cfg.vomm = mc_choose(2, "algorithm:Markov|VOMM"); eng.depth = mc_param("depth", 4, 6); eng.perslot = 2; eng.total = mc_param("events", 4, 6); eng.max_restarts = mc_param("restarts", 1, 2); }
  else if (part == 1) {
    static const int cyc[] = {2, 3, 5, 20}; eng.cycle = cyc[mc_choose(4, "cycle:2|3|5|20")]; 
    ev_sig(SIGUSR2, "save"); ev_reload("reload", [](ConfB &, RCfg &) {}); ev_reload("cycle-7", [](ConfB &, RCfg &c) { c.cycle = 7; }); ev_reload("noscan", [](ConfB &, RCfg &c) { c.doscan = !c.doscan; }); ev_delete(PA, "delete-A"); ev_restart("restart"); eng.max_restarts = 1;
    eng.depth = mc_param("depth2", 6, 7); eng.perslot = mc_param("perslot2", 1, 2); eng.total = mc_param("events2", 4, 5);
  } else {
    // times from a state file go on being counted; a program running at start-up is credited from then on
    int how = mc_choose(3, "A ran:some of the time|always|for years"); long sc = how == 2 ? 200000 : 1, ta = how == 1 ? 5000 : 2000 * sc, tab = how == 1 ? 3000 : 1500 * sc;
    StateW w; w.time = 5000 * sc; int a = w.exe(PA.path, ta), b = w.exe(PB.path, 3000 * sc), c = w.exe(PC.path, 0); for (auto *p : {&PA, &PB, &PC}) for (auto &r : p->regs) w.use(p == &PA ? a : p == &PB ? b : c, w.map(r.path, r.off, r.len));
    w.mk(a, b).time = tab; w.mk(a, c); w.mk(c, b); vos.put(STATE, w.text());
    Ref r; auto m = std::make_shared<RModel>(); m->time = 5000 * sc; for (auto *p : {&PA, &PB, &PC}) { RExe e; e.regs.insert(p->regs.begin(), p->regs.end()); e.time = p == &PA ? ta : p == &PB ? 3000 * sc : 0; m->ex[p->path] = e; } 
    m->pr[PK(PA.path, PB.path)].time = tab; m->pr[PK(PA.path, PC.path)]; m->pr[PK(PB.path, PC.path)]; r.saved = m; eng.cand = {r};
    ev_toggle(PC, 12, "C"); ev_restart("restart"); eng.max_restarts = 2; int run = mc_choose(8, "running at start"); if (run & 1) eng.w.procs.push_back({10, PA.path, PA.regs}); if (run & 2) eng.w.procs.push_back({11, PB.path, PB.regs}); if (run & 4) eng.w.procs.push_back({12, PC.path, PC.regs});
    eng.downtime = true; eng.depth = mc_param("depth3", 3, 4); eng.total = mc_param("events3", 3, 5);
  }
  eng.go();
}
CheckDef check = {"C07", run,
  "every history of up to 4 starts/stops of 3 programs and a restart in 4 half-cycles, two per half-cycle, both algorithms; 4 cycle lengths with saves, reloads changing cycle and scanning, deletion, restart (4 events in 6 half-cycles); loaded times with every running set and 2 restarts with changes during downtime",
  "6 events in 6 half-cycles and 2 restarts; 5 events in 7 half-cycles, two per half-cycle; 5 events with downtime"};
