#include "progs.h"
#include "need.h"
static ProgDef P(const char *n) { return ProgDef{std::string("/usr/bin/") + n, {{std::string("/usr/bin/") + n, 0, 4096}}}; }
static const ProgDef A = P("a"), B = P("b"), C = P("c"), D = P("d"), E = P("e");
typedef std::map<std::string, long> Kids;
static Kids kids(const RModel &m, const Seq &s) { Kids k; for (auto &t : m.tree) if (t.first.size() == s.size() + 1 && t.second > 0 && std::equal(s.begin(), s.end(), t.first.begin())) k[t.first.back()] = t.second; return k; }
static std::map<std::string, int> ranks(const std::vector<Req> &q) { std::map<std::string, int> r; int n = 0; for (auto &x : q) r[x.path] = n++; return r; }
// what the property says about one prediction, given what was learned
static std::string judge(const Ref &r, const std::vector<Req> &q) {
  auto rk = ranks(q); auto &m = r.m; std::vector<Kids> ctx; for (auto &h : r.hist) ctx.push_back(kids(m, {h})); if (!r.ctx.empty()) ctx.push_back(kids(m, r.ctx)); mc_eval();
  for (auto &k : ctx) for (auto &x : k) if (m.ex.count(x.first) && !m.ex.at(x.first).run && !rk.count(x.first)) return x.first + " follows the recent launches but is not predicted";
  for (auto &e : m.ex) { bool seen = false; for (auto &t : m.tree) if (t.first.back() == e.first) seen = true; if (rk.count(e.first)) { if (e.second.run) return e.first + " is running and is predicted"; if (!seen) return e.first + " was never observed in a sequence and is predicted"; } }
  // dominance: in every context the one was observed at least as often as the other
  std::set<std::string> cs; for (auto &t : m.tree) if (t.first.size() == 2) cs.insert(t.first[0]); for (auto &c : cs) ctx.push_back(kids(m, {c}));
  for (auto &y : m.ex) for (auto &z : m.ex) { if (y.first == z.first || y.second.run || z.second.run) continue; bool dom = true; for (auto &k : ctx) { long a = k.count(y.first) ? k[y.first] : 0, b = k.count(z.first) ? k[z.first] : 0; if (a < b) dom = false; } if (!dom) continue;
    bool strict = false; for (auto &k : ctx) if ((k.count(y.first) ? k[y.first] : 0) > (k.count(z.first) ? k[z.first] : 0)) strict = true; if (!strict) continue;
    if (rk.count(z.first) && !rk.count(y.first)) return z.first + " is predicted but not " + y.first + ", which was observed at least as often in every context";
    if (rk.count(z.first) && rk[y.first] > rk[z.first]) { // equal needs may come in any order
      auto b = vomm_bids(r); if (fabs(b[y.first] - b[z.first]) > 1e-9 || true) return z.first + " is ranked before " + y.first + ", which was observed more often in every context"; } }
  return "";
}
static void conf(int cycle = 20) { ConfB b; b.model["cycle"] = std::to_string(cycle); b.system["prediction_algorithm"] = "VOMM"; b.system["sortstrategy"] = "0"; b.system["maxprocs"] = "0"; b.system["autosave"] = "100000"; set_conf(b); vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); }
// one life of the daemon: loaded model, one launch per cycle; returns the last prediction
static std::vector<Req> last; static int step, steps; static World w; static std::vector<int> seq; static std::vector<Ref> cand; static bool crun; static std::string bad;
static void place(int i) { w.procs.clear(); if (crun) w.procs.push_back({30, C.path, C.regs}); if (i < (int)seq.size() && seq[i]) { auto &p = seq[i] == 1 ? A : B; w.procs.push_back({40 + i, p.path, p.regs}); } w.sync(); }
static std::vector<Req> life(const RModel &m, bool judge_it) {
  vos.log.clear(); vos.put(STATE, file_of(m).text()); Ref r; r.cfg.vomm = true; r.saved = std::make_shared<RModel>(m); w.procs.clear(); seq.insert(seq.begin(), 0); place(0); r.start(w); cand = {r}; step = 0; static size_t from; from = 0; static bool J; J = judge_it; bad.clear();
  vos.idle = []() { int i = step++; if (i % 2 == 0) { std::vector<Ref> n; for (auto &c : cand) for (auto &x : c.scan(w)) n.push_back(x); cand = n; last = prefetches(from); from = vos.log.size(); if (J) { std::string d; bool ok = false; for (auto &c : cand) { std::string e = judge(c, last); if (e.empty()) ok = true; else d = e; } if (!ok && bad.empty()) bad = d; } if (i / 2 + 1 >= (int)seq.size()) deliver(SIGTERM); else { place(i / 2 + 1); } }
    else { for (auto &c : cand) { Ref k = c; w = w; auto u = k.update(w); c = u[0]; } for (auto &c : cand) c.m.time += 10; } };
  run_daemon(std_args()); seq.erase(seq.begin()); if (!bad.empty()) { std::string o; for (auto &q : last) o += q.path + " "; mc_fail("prediction", "%s; last requests: %s", bad.c_str(), o.c_str()); } return last;
}
static RModel base(int np) { RModel m; m.time = 1000; const ProgDef *p[] = {&A, &B, &C, &D, &E}; for (int i = 0; i < np; i++) { RExe e; e.regs.insert(p[i]->regs.begin(), p[i]->regs.end()); e.time = 100 * (i + 1); m.ex[p[i]->path] = e; prog_file(*p[i]); } return m; }
static void part_file() {
  conf(); RModel m = base(5); int mx = mc_param("maxcount", 3, 4); auto node = [&](const Seq &s, const char *n) { int c = mc_choose(mx, "count of %s", n); if (c) { for (size_t l = 1; l < s.size(); l++) m.tree[Seq(s.begin(), s.begin() + l)] += 0; m.tree[s] += c == 3 ? 7 : c; } };
  node({A.path, C.path}, "A>C"); node({A.path, D.path}, "A>D"); node({B.path, C.path}, "B>C"); node({B.path, D.path}, "B>D"); node({A.path, B.path, C.path}, "A>B>C"); node({A.path, B.path, D.path}, "A>B>D");
  static const std::vector<int> S[] = {{}, {1}, {1, 2}, {2, 1}, {1, 0, 1}, {2, 2, 1}, {1, 2, 0}}; seq = S[mc_choose(mc_param("seqs", 6, 7), "launches:none|A|AB|BA|A-A|BBA|AB-")]; crun = mc_choose(2, "C running:no|yes");
  auto q1 = life(m, true); std::string o; for (auto &x : q1) o += x.path + " ";
  // one more observation of C after each context: C is needed at least as much as before
  if (!crun) { static const Seq more[] = {{A.path, C.path}, {B.path, C.path}, {A.path, B.path, C.path}}; int k = mc_choose(3, "one more:A>C|B>C|A>B>C"); RModel n = m; for (size_t l = 1; l < more[k].size(); l++) n.tree[Seq(more[k].begin(), more[k].begin() + l)] += 0; n.tree[more[k]]++; auto q2 = life(n, true); auto r1 = ranks(q1), r2 = ranks(q2); mc_eval();
    // only regions that lose nothing by it may be compared: all shares of the others fall or stay
    if (r1.count(C.path) && !r2.count(C.path)) mc_fail("less-needed", "with one more observation C is no longer predicted"); if (r1.count(C.path) && k < 2) for (auto &x : r1) if (x.first != C.path && x.second > r1[C.path] && r2.count(x.first) && r2[x.first] < r2[C.path]) mc_fail("less-needed", "with one more observation of C, %s is ranked before it", x.first.c_str()); for (auto &x : q2) o += x.path + " "; }
  mc_outcome(o); mc_leaf();
}
static void part_cap() { // certain in k contexts, a region shared with n running programs; and shared with other certain ones
  conf(); RModel m = base(4); int k = mc_choose(3, "contexts") + 1, big = mc_choose(2, "count:1|1000000") ? 1000000 : 1, users = mc_choose(3, "running users:0|1|200"); if (users == 2) users = 200; Region lib{"/usr/lib/shared.so", 0, 4096}, own{"/usr/bin/u", 0, 4096}; vos.put(lib.path); vos.put("/usr/bin/u"); m.ex[C.path].regs.insert(lib);
  if (k >= 1) m.tree[{A.path, C.path}] = big; if (k >= 2) m.tree[{B.path, C.path}] = big; if (k >= 3) m.tree[{A.path, B.path, C.path}] = big; m.tree[{A.path}] = 1; if (k >= 2) m.tree[{B.path}] = 1; if (k >= 3) m.tree[{A.path, B.path}] = 1;
  std::vector<WProc> us; for (int i = 0; i < users; i++) { std::string n = fmt("/usr/bin/u%03d", i); vos.put(n, "elf", 0100755); RExe e; e.regs.insert({n, 0, 4096}); e.regs.insert(lib); m.ex[n] = e; us.push_back({1000 + i, n, {{n, 0, 4096}, lib}}); }
  vos.put(STATE, file_of(m).text()); int s = mc_choose(2, "launched:A|B then A"); static int st; st = 0; w.procs = us; if (s == 0) {} w.sync(); static std::vector<WProc> base_; base_ = us; static int S, K, U; S = s; K = k; U = users; static size_t from; from = 0;
  vos.idle = []() { int i = st++; int fin = S ? 4 : 2; if (i < fin) { if (i % 2 == 0) { w.procs = base_; bool b = S && i == 0; w.procs.push_back({40 + i, b ? B.path : A.path, b ? B.regs : A.regs}); w.sync(); from = vos.log.size(); } return; }
    if (i > fin) { return; } auto q = prefetches(from); auto rk = ranks(q); mc_eval(); bool follows = true; /* A>C is always known and A was launched last */
    if (follows && !rk.count(C.path)) mc_fail("certain-not-predicted", "a program certain to follow is not predicted"); if (U < 2 && !rk.count("/usr/lib/shared.so")) mc_fail("certain-lost", "a region of a program certain to follow with %d running users is not prefetched", U); if (U >= 200 && rk.count("/usr/lib/shared.so")) mc_fail("infinite-score", "a region 200 running programs use is prefetched: certainty outweighs everything");
    for (auto &r : q) if (r.path.compare(0, 10, "/usr/bin/u") == 0) mc_fail("running-predicted", "%s is running and is predicted", r.path.c_str()); mc_outcome(fmt("%zu", q.size())); mc_leaf(); };
  run_daemon(std_args());
}
static void part_history() {
  vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); for (auto *p : {&A, &B, &C, &D}) prog_file(*p); eng.compare = false; eng.interior = false; eng.cfg.vomm = true; eng.conf.system["sortstrategy"] = "0"; eng.conf.system["maxprocs"] = "0"; 
  static const ProgDef *ps[] = {&A, &B, &C}; static const char *nm[] = {"A", "B", "C"}; int way = mc_choose(2, "programs:one at a time|any");
  if (way == 0) for (int i = 0; i < 3; i++) ev_do(nm[i], nullptr, [i]() { if (!vos.has(ps[i]->path)) prog_file(*ps[i]); eng.w.procs.clear(); eng.w.procs.push_back({10 + i, ps[i]->path, ps[i]->regs}); }); else for (int i = 0; i < 3; i++) ev_toggle(*ps[i], 10 + i, nm[i]);
  if (way == 0) { Ev1 e; e.name = "forget-C"; e.sig = SIGUSR2; e.enabled = []() { bool run = false; for (auto &p : eng.w.procs) if (p.exe == C.path) run = true; return !run && vos.has(C.path); }; e.act = []() { vos.rm(C.path); }; eng.events.push_back(e); }
  if (way == 1) { ev_restart("restart"); eng.max_restarts = 1; eng.perslot = 2; } eng.gate = []() { return eng.next_step == 0; }; eng.depth = way ? mc_param("depth1", 9, 11) : mc_param("depth", 15, 17); eng.total = way ? mc_param("events", 6, 7) : 100; eng.settle = 4; eng.cfg.minsize = eng.cfg.minsize; 
  eng.at_tick = [](const std::vector<Req> &q) { std::vector<Ref> ok; std::string d, o; for (auto &r : q) o += r.path + " "; for (auto &c : eng.cand) { std::string e = judge(c, q); if (e.empty()) ok.push_back(c); else d = e; } if (ok.empty()) mc_fail("prediction", "%s; requests: %s", d.c_str(), o.c_str()); eng.cand = ok; mc_state(o); };
  eng.go();
}
static void run() { world_init(); switch (mc_choose(3, "part:statistics from a state file|certainty|learned")) { case 0: part_file(); break; case 1: part_cap(); break; default: part_history(); } }
CheckDef check = {"C11", run,
  "counts 0..2 of each of six follow-up contexts of two candidates x 6 launch sequences x candidate running or not, with one more observation added after each context; certainty in 1..3 contexts with counts 1 and 1000000 and 0, 1 and 200 running users; every sequence of single launches of 3 programs over 8 cycles, one of them forgotten at any moment, and every history of up to 6 starts, stops and restarts over 5 cycles, every prediction judged",
  "counts 0, 1, 2, 7; 7 launch sequences; 9 cycles; 7 events over 6 cycles"};
