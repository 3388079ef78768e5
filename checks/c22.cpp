#include "progs.h"
#include "need.h"
#define L_ "/usr/lib/a directory/whose name is longer/than buffers usually are/and the names of whose files/differ only at the very end/so that comparing the first sixty four/or two hundred characters/of them is not sufficient to tell them apart/indeed/not/at/all/"
// programs sharing regions in every way: same file and range, same range of another file, same offset, same length
static ProgDef A{"/usr/bin/a", {{L_ "xb", 0, 8192}, {"/usr/bin/a", 0, 4096}}}, B{"/usr/bin/b", {{L_ "xb", 0, 8192}, {L_ "xb", 8192, 4096}, {L_ "yA", 0, 8192}}}, C{"/usr/bin/c", {{L_ "xb", 0, 4096}, {L_ "xb", 8192, 4096}, {L_ "xb", 0, 8192}, {L_ "xb", 0, 8192 + (1ul << 32)}}}, D{"/usr/bin/d", {{L_ "xb", 0, 8192}, {L_ "xb", 0, 8192}, {L_ "xb", 4096, 8192}}};
static void ranking(const std::vector<Req> &q) { // what is prefetched comes from the regions known, and all that is wanted is in the list
  Cover got; for (auto &r : q) got.add(r.path, r.off, r.len); std::vector<Ref> ok; std::string why; mc_eval();
  for (auto &c : eng.cand) {
    std::set<std::string> bid; if (eng.cfg.vomm) for (auto &t : c.m.tree) if (t.first.size() == 2 && t.second > 0) bid.insert(t.first[1]);
    if (!eng.cfg.vomm) for (auto &b : markov_bids(c.m, eng.cfg.cycle, false)) if (b.second < -1e-6) bid.insert(b.first); Cover may, must; for (auto &e : c.m.ex) for (auto &r : e.second.regs) { if (!e.second.run) may.add(r.path, r.off, r.len); bool run = false; for (auto &f : c.m.ex) if (f.second.run && f.second.regs.count(r)) run = true; if (!run && !e.second.run && bid.count(e.first) && vos.has(r.path)) must.add(r.path, r.off, r.len); }
    std::string m; for (auto &f : got.m) for (auto &r : f.second) if (!may.has(f.first, r.first, r.second - r.first)) m = fmt("prefetched range %s[%ld,%ld) is no known region of a program that is not running", f.first.c_str(), r.first, r.second);
    for (auto &f : must.m) for (auto &r : f.second) if (!got.has(f.first, r.first, r.second - r.first)) m = fmt("region %s[%ld,%ld) of a predicted program is missing from the ranking", f.first.c_str(), r.first, r.second);
    if (m.empty()) ok.push_back(c); else if (why.empty()) why = m;
  }
  if (ok.empty()) mc_fail("ranking-list", "%s", why.c_str()); eng.cand.swap(ok);
}
static void run() {
  world_init(); vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); for (auto *p : {&A, &B, &C, &D}) prog_file(*p); eng.mask = M_MAP | M_EXE; eng.cfg.vomm = mc_choose(2, "algorithm:Markov|VOMM"); eng.conf.system["maxprocs"] = "0"; eng.at_tick = ranking; eng.conf.model["usecorrelation"] = "false";
  ev_toggle(A, 10, "A"); ev_toggle(B, 11, "B"); ev_toggle(C, 12, "C"); int part = mc_choose(4, "part:add and remove|with restarts|rejected programs|many programs"); if (eng.cfg.vomm != (part & 1)) eng.conf.system["mapprefix"] = "/usr/;/lib/;!/";
  ev_delete(A, "delete-A"); ev_delete(B, "delete-B"); 
  if (part == 0) { ev_toggle(D, 13, "D"); ev_sig(SIGUSR2, "save"); eng.depth = mc_param("depth", 5, 7); eng.total = mc_param("events", 4, 6); }
  else if (part == 2) { // the file of a program too small to be tracked is a region of others
    eng.events.clear(); static ProgDef S{"/usr/bin/s", {{"/usr/bin/s", 0, 900}}}, E{"/usr/bin/e", {{"/usr/bin/s", 0, 900}, {"/usr/bin/e", 0, 4096}}}, G{"/usr/bin/g", {{"/usr/bin/s", 0, 900}, {"/usr/bin/e", 0, 4096}, {L_ "xb", 0, 100}}}; for (auto *p : {&S, &E, &G}) prog_file(*p);
    ev_toggle(S, 10, "S"); ev_toggle(E, 11, "E"); ev_toggle(G, 12, "G"); ev_delete(E, "delete-E"); ev_delete(S, "delete-S"); ev_sig(SIGUSR2, "save"); ev_restart("restart"); eng.max_restarts = 1; eng.depth = mc_param("depth2", 5, 7); eng.total = mc_param("events2", 4, 5); eng.perslot = mc_param("perslot2", 1, 2); }
  else if (part == 3) { // many programs that share regions with their neighbours; several of them are forgotten at once
    eng.events.clear(); static std::vector<ProgDef> P; int n = mc_choose(2, "programs:17|60") ? 60 : 17; for (int i = 0; i < n; i++) { P.push_back({fmt("/usr/bin/p%02d", i), {}}); for (int k = 0; k < 4; k++) P.back().regs.push_back({k < 2 ? fmt(L_ "%d", (i + k) % n) : P.back().path, (unsigned long)((k < 2 ? (i + k) % n % 3 : k) * 4096), 4096}); std::sort(P.back().regs.begin(), P.back().regs.end()); P.back().regs.erase(std::unique(P.back().regs.begin(), P.back().regs.end()), P.back().regs.end()); prog_file(P.back()); }
    std::vector<const ProgDef *> Q; for (auto &p : P) Q.push_back(&p); load_model(Q, 0, 1000, true);
    auto group = [&](const char *name, int mod, int rem) { ev_do(name, nullptr, [=]() { for (int i = 0; i < n; i++) if (i % mod == rem) { auto &p = P[i]; if (!vos.has(p.path)) vos.put(p.path, "elf", 0100755); else { vos.rm(p.path); for (auto &q : eng.w.procs) if (q.exe == p.path) q.exe += " (deleted)"; } } }); };
    auto start = [&](const char *name, int mod, int rem) { ev_do(name, nullptr, [=]() { static int pid = 100; std::vector<WProc> v; bool was = false; for (auto &q : eng.w.procs) { bool in = false; for (int i = 0; i < 8; i++) if (i % mod == rem && q.exe.compare(0, P[i].path.size(), P[i].path) == 0) in = true; if (in) was = true; else v.push_back(q); } if (!was) for (int i = 0; i < 8; i++) if (i % mod == rem && vos.has(P[i].path)) v.push_back({pid++, P[i].path, P[i].regs}); eng.w.procs = v; }); };
    group("delete-third", 3, 1); group("delete-half", 2, 0); start("start-two", 5, 2); start("start-others", 7, 0); ev_sig(SIGUSR2, "save"); ev_restart("restart"); eng.max_restarts = 1; eng.interior = false; eng.depth = mc_param("depth3", 3, 4); eng.total = mc_param("events3", 3, 4); eng.perslot = 2; }
  else { // all tracked already, in either order of the file, then forgotten one after another
    StateW w; w.time = 100; Ref r; auto m = std::make_shared<RModel>(); m->time = 100; int ord = mc_choose(6, "order"); const ProgDef *P[] = {&A, &B, &C}; static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int i = 0; i < 3; i++) { const ProgDef *p = P[perm[ord][i]]; int id = w.exe(p->path); RExe e; for (auto &x : p->regs) { w.use(id, w.map(x.path, x.off, x.len)); e.regs.insert(x); } m->ex[p->path] = e; }
    for (auto &x : m->ex) for (auto &y : m->ex) if (x.first < y.first) { m->pr[PK(x.first, y.first)]; int ix = 0, iy = 0; for (auto &e : w.exes) { if (e.path == x.first) ix = e.seq; if (e.path == y.first) iy = e.seq; } w.mk(ix, iy); }
    vos.put(STATE, w.text()); r.saved = m; eng.cand = {r}; ev_delete(C, "delete-C"); ev_sig(SIGUSR2, "save"); ev_restart("restart"); eng.max_restarts = mc_param("restarts", 2, 3); eng.depth = mc_param("depth1", 4, 5); eng.perslot = 2; eng.total = mc_param("events1", 3, 5); }
  eng.go();
}
CheckDef check = {"C22", run,
  "every history of up to 4 events (start and stop 4 programs with regions shared in every way, delete, save) in 5 half-cycles; 17 and 60 programs loaded, of which a third or half is forgotten at once, 3 events; 3 programs loaded in every order, then up to 3 deletions, starts, saves and restarts; 4 events with a program too small to be tracked whose file others map; known regions and what the prediction ranks are compared throughout, both algorithms",
  "6 events in 7 half-cycles; 5 events with 3 restarts"};
