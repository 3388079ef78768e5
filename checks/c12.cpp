#include "progs.h"
#include "need.h"
struct Mem { long total, free_, avail, buf, cached; };
static const Mem mems[] = {{1000, 300, 500, 100, 400}, {8000, 2000, 4000, 500, 1000}, {400000000, 1000000, 2000000, 100000, 3000000}, {8000, 3000, 1000, 1200, 1600}, {4000, 700, -1, 400, 500}, {1000, 100, 200, 0, 0}, {100000000, 40000000, 90000000, 10000000, 80000000}};
static const int Pt[] = {0, -150, -10, 60, 130, -100, 100}, Pf[] = {50, 0, -100, 170, 100, -7}, Pc[] = {0, -20, 150, 33}, Pb[] = {50, -150, 0, 101};
static const long sizes[][5] = {{100 << 10, 100 << 10, 100 << 10, 100 << 10, 4 << 10}, {600 << 10, 4 << 10, 4 << 10, 4 << 10, 4 << 10}, {4 << 10, 4 << 10, 1024 << 10, 4 << 10, 4 << 10}, {102401, 4 << 10, 148 << 10, 200 << 10, 48 << 10}, {5l << 30, 4 << 10, 4 << 10, 4 << 10, 4 << 10}, {200 << 10, 5l << 30, 4 << 10, 4 << 10, 4 << 10}, {3l << 40, 4 << 10, 4 << 10, 4 << 10, 4 << 10}, {400 << 10, 50 << 10, 300 << 10, 100 << 10, 4 << 10}, {4 << 10, 20l << 30, 30l << 30, 40l << 30, 4 << 10}, {250 << 10, 250 << 10, 1, 4 << 10, 4 << 10}, {450 << 10, 800 << 10, 1500 << 10, 2400 << 10, 8 << 10}};
static bool vomm; static RModel m; static int pt, pf, pc, pb; static const long *sz; static Mem cur; static int rounds; static std::string outc;
static void mem(const Mem &x) { cur = x; vos.set_mem(x.total, x.free_, x.avail, x.buf, x.cached); }
static int cl(int v) { return v > 100 ? 100 : v < -100 ? -100 : v; }
static long budget() { // kB; every figure is a multiple of 100
  double b = (double)cur.total * cl(pt) / 100 + (double)(cur.avail >= 0 ? cur.avail : cur.free_ + cur.cached * 8 / 10 + cur.buf * 3 / 4) * cl(pf) / 100; if (b < 0) b = 0; b += (double)cur.cached * cl(pc) / 100 + (double)cur.buf * cl(pb) / 100; return (long)floor(b + .001);
}
static void conf() { ConfB b; b.model["cycle"] = "20"; b.model["usecorrelation"] = "false"; b.model["memtotal"] = std::to_string(pt); b.model["memfree"] = std::to_string(pf); b.model["memcached"] = std::to_string(pc); b.model["membuffers"] = std::to_string(pb); b.system["prediction_algorithm"] = vomm ? "VOMM" : "Markov"; b.system["sortstrategy"] = "0"; b.system["maxprocs"] = "0"; set_conf(b); }
static std::vector<std::string> order; // file of each rank
static void judge(const std::vector<Req> &q) {
  mc_eval(); long b = budget(); long bytes = 0; std::string o = fmt("%ld:", b); for (auto &r : q) { bytes += r.len; o += fmt(" %s+%ld", r.path.c_str(), r.len); } outc += o + "\n";
  if (bytes > (b < 0 ? 0 : b) * 1024) mc_fail("over-budget", "%ld bytes are prefetched, the budget is %ld kB;%s", bytes, b, o.c_str());
  long left = b; size_t n = 0; for (int i = 0; i < 5; i++) { long k = (sz[i] + 1023) / 1024; if (k > left) break; left -= k; n++; }
  if (q.size() != n) mc_fail("not-longest-prefix", "%zu regions are prefetched, %zu of the most needed ones fit in %ld kB:%s", q.size(), n, b, o.c_str());
  for (size_t i = 0; i < n; i++) if (q[i].path != order[i]) mc_fail("not-neediest", "request %zu is for %s, the region of that rank is %s (budget %ld kB)", i, q[i].path.c_str(), order[i].c_str(), b);
}
// very many regions of one size: what is counted per region must add up
static void many() {
  static const struct { long total, avail, size; } cs[] = {{4000000, 3000000, (1l << 20) - 4096}, {4000000, 1500000, 1l << 20}, {4000000, 3000000, 1023}, {4000000, 3000000, 1025}, {2000000000, 1900000000, 1l << 30}, {40000000, 33000000, (16l << 20) + 1}, {8000000, 5000000, (4l << 20) - 1}, {1000, 900, 1}};
  int k = mc_choose(8, "regions:just below 1 MiB|1 MiB|1023|1025|1 GiB|just over 16 MiB|just below 4 MiB|1 byte"); cur = {cs[k].total, 100, cs[k].avail, 0, 0}; mem(cur); pt = 0; pf = mc_choose(2, "memfree:50|100") ? 100 : 50; pc = pb = 0; const int N = 1000;
  m.time = 1000; RExe h; h.regs.insert({"/usr/bin/hub", 0, 4096}); m.ex["/usr/bin/hub"] = h; vos.put("/usr/bin/hub");
  for (int i = 0; i < 3; i++) { std::string n = fmt("/usr/bin/x%d", i); vos.put(n); RExe e; for (int j = 0; j < N; j++) e.regs.insert({n, (unsigned long)j * (2l << 30), (unsigned long)cs[k].size}); m.ex[n] = e; RPair p; p.ttl[0] = 25; p.w[0][0] = 20; p.w[0][2] = 18 - 3 * i; m.pr[PK("/usr/bin/hub", n)] = p; if (vomm) { m.tree[{"/usr/bin/hub"}] = 1; m.tree[{"/usr/bin/hub", n}] = 18 - 3 * i; } }
  conf(); vos.put(STATE, file_of(m).text());
  static int kk; kk = k; vos.idle = []() { auto q = prefetches(0); mc_eval(); long b = budget(), sz = cs[kk].size, per = (sz + 1023) / 1024, n = std::min(b / per, 3000l); if ((long)q.size() != n) mc_fail("many-regions", "%zu regions of %ld bytes are prefetched, %ld fit in %ld kB", q.size(), sz, n, b);
    for (long i = 0; i < n; i++) { if (q[i].len != sz || q[i].path != fmt("/usr/bin/x%ld", i / 1000)) mc_fail("many-order", "request %ld is for %s+%ld:%ld", i, q[i].path.c_str(), q[i].off, q[i].len); } mc_outcome(fmt("%ld", n)); mc_leaf(); };
  run_daemon(std_args());
}
static void run() {
  if (mc_choose(2, "part:five regions|thousands of regions")) { world_init(); vomm = mc_choose(2, "algorithm:Markov|VOMM"); vos.ops_limit = 4000000; many(); }
  world_init(); vomm = mc_choose(2, "algorithm:Markov|VOMM"); static int nm, np; nm = mc_param("mems", 5, 7); np = mc_param("percents", 5, 7); pt = Pt[mc_choose(np, "memtotal")]; pf = Pf[mc_choose(std::min(np - 1, 6), "memfree")]; pc = Pc[mc_choose(mc_param("pc", 3, 4), "memcached")]; pb = Pb[mc_choose(mc_param("pb", 3, 4), "membuffers")];
  mem(mems[mc_choose(nm, "memory")]); sz = sizes[mc_choose(mc_param("sizes", 10, 11), "sizes")];
  // five programs, each needed for its own region with a different probability, and a hub that is not; names and records not in that order
  m.time = 1000; RExe h; h.regs.insert({"/usr/bin/hub", 0, 4096}); m.ex["/usr/bin/hub"] = h; vos.put("/usr/bin/hub"); static const int num[] = {7, 2, 9, 1, 8};
  for (int i = 0; i < 5; i++) { std::string n = fmt("/usr/bin/x%d", num[i]); vos.put(n); order.push_back(n); RExe e; e.regs.insert({n, 0, (unsigned long)sz[i]}); m.ex[n] = e; RPair p; p.ttl[0] = 25; p.w[0][0] = 20; p.w[0][2] = 18 - 3 * i; p.w[0][1] = 0; m.pr[PK("/usr/bin/hub", n)] = p; if (vomm) { m.tree[{"/usr/bin/hub"}] = 1; m.tree[{"/usr/bin/hub", n}] = 18 - 3 * i; } }
  conf(); vos.put(STATE, file_of(m, 21).text()); rounds = 0; static size_t from; from = 0;
  vos.idle = []() { int r = rounds++; if (r == 0) { judge(prefetches(from)); int k = mc_choose(pc == Pc[0] && pb == Pb[0] ? 3 : mc_param("second", 2, 3), "then:end|other memory|other percentages"); if (k == 0) { mc_outcome(outc); mc_leaf(); } if (k == 1) mem(mems[(mc_choose(nm - 1, "memory"))]); if (k == 2) { pt = 10; pf = Pf[mc_choose(3, "memfree")]; conf(); from = vos.log.size(); deliver(SIGHUP); rounds = 1; return; } from = vos.log.size(); }
    else { auto q = prefetches(from); bool pred = false; for (size_t i = from; i < vos.log.size(); i++) if (vos.log[i].kind == "meminfo") pred = true; if (r > 4) mc_fail("no-prediction", "no prediction in the following cycle"); if (!pred && q.empty()) return; judge(q); mc_outcome(outc); mc_leaf(); } };
  run_daemon(std_args());
}
CheckDef check = {"C12", run,
  "both algorithms, five ranked regions: 10 sets of sizes (4 kB to 3 TB, one byte too big, exactly fitting) x 5 memory reports (with and without MemAvailable) x 5 memtotal x 4 memfree x 3 memcached x 3 membuffers percentages inside and outside -100..100, followed by a cycle with another memory report or reloaded percentages; 3000 regions of one size (1 byte to 1 GiB) against budgets of up to 1.9 TB",
  "11 sets of sizes, 7 memory reports, 7 x 6 x 4 x 4 percentages, each followed by another memory report or reloaded percentages"};
