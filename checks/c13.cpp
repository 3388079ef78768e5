#include "progs.h"
#include "need.h"
#define DIR_ "/usr/lib/a directory with a name far longer than any that would fit into a fixed buffer of sixty-four or one hundred and twenty-eight characters, so that names in it differ only at the end/and one more to be sure/"
static const char *const F[] = {DIR_ "a", DIR_ "B", DIR_ "A"};
static std::string sh(const std::string &p) { return p.compare(0, sizeof DIR_ - 1, DIR_) ? p : p.substr(sizeof DIR_ - 1); }
static const long PG = 4096;
static std::vector<Region> sel; static RModel m; static int strat, lay, procs_; static std::string outc; static size_t from; static int rounds;
static const char *const lays[] = {"inodes as paths", "inodes against paths", "inodes above 2^31", "hard links", "inode numbers 2^32 apart"};
static long ino_of(const std::string &p) { return vos.files[p]->ino; }
static long key_of(const Region &r) { auto &f = *vos.files[r.path]; if (strat == 3 && f.has_blocks && !f.fibmap_err) { auto b = f.blocks.find(r.off / f.blksize); if (b != f.blocks.end() && b->second) return b->second; } return f.ino; }
static void layout() {
  for (int i = 0; i < 3; i++) { auto f = vos.put(F[i], "x"); static const long in[][3] = {{201, 202, 203}, {203, 202, 201}, {2147483700, 50, 4294967400}, {201, 201, 150}, {4294967301, 10, 8589934600}}; f->ino = in[lay][i]; }
}
static void blocks(int k) { // where the files lie on the disk
  auto &a = *vos.files[F[0]], &b = *vos.files[F[1]], &c = *vos.files[F[2]]; a.has_blocks = b.has_blocks = c.has_blocks = k < 4; c.has_blocks = k == 3;
  a.blksize = b.blksize = c.blksize = 4096; if (k == 3) { a.blksize = 1024; b.blksize = 8192; }
  for (int i = 0; i < 256; i++) switch (k) { case 0: a.blocks[i] = 1000 + i; b.blocks[i] = 500 + i; break; case 1: a.blocks[i] = 1000 - i; b.blocks[i] = 990 + 2 * i; break; case 2: a.blocks[i] = i == 1 ? 0 : 100 + i * 10; b.fibmap_err = EINVAL; break; case 3: a.blocks[i] = 7000 + (i * 37) % 64; b.blocks[i] = 7003 + (i * 11) % 64; c.blocks[i] = 5 + i; break; }
}
static void judge() {
  auto q = prefetches(from); mc_eval(); Cover want, got; std::string o, s; for (auto &r : sel) { want.add(r.path, r.off, r.len); s += fmt(" %s+%lu:%lu", sh(r.path).c_str(), r.off / PG, r.len / PG); } for (auto &r : q) { got.add(r.path, r.off, r.len); o += fmt(" %s+%ld:%ld", sh(r.path).c_str(), r.off / PG, r.len / PG); } outc += o + ";";
  std::string d = "; selected by need:" + s + "; requested:" + o;
  if (!(got == want)) mc_fail("union", "the requests cover%s instead of%s%s", got.str().c_str(), want.str().c_str(), d.c_str());
  auto mergeable = [](const Req &x, const Req &y) { return x.path == y.path && x.off <= y.off && y.off <= x.off + x.len; };
  for (size_t i = 0; i + 1 < q.size(); i++) if (mergeable(q[i], q[i + 1])) mc_fail("not-merged", "requests %zu and %zu touch and are not merged%s", i, i + 1, d.c_str());
  if (strat == 0) { // as ranked: every region is part of the request of its turn
    std::vector<Req> e; for (auto &r : sel) { Req x{r.path, (long)r.off, (long)r.len, 0, 0}; if (!e.empty() && mergeable(e.back(), x)) e.back().len = std::max(e.back().off + e.back().len, x.off + x.len) - e.back().off; else e.push_back(x); }
    size_t i = 0; bool same = e.size() == q.size(); for (; same && i < e.size(); i++) same = e[i].path == q[i].path && e[i].off == q[i].off && e[i].len == q[i].len; if (!same) { std::string w; for (auto &r : e) w += fmt(" %s+%ld:%ld", sh(r.path).c_str(), r.off / PG, r.len / PG); mc_fail("rank-order", "expected in ranked order%s%s", w.c_str(), d.c_str()); } return; }
  for (size_t i = 0; i + 1 < q.size(); i++) { Region x{q[i].path, (unsigned long)q[i].off, 0}, y{q[i + 1].path, (unsigned long)q[i + 1].off, 0}; if (strat == 1 && !(std::make_pair(x.path, x.off) < std::make_pair(y.path, y.off))) mc_fail("path-order", "requests are not ordered by path and offset%s", d.c_str());
    if (strat >= 2 && key_of(x) > key_of(y)) mc_fail(strat == 2 ? "inode-order" : "block-order", "requests are not ordered by %s (%ld before %ld)%s", strat == 2 ? "inode" : "block", key_of(x), key_of(y), d.c_str()); }
  // every region starts a request or lies in the request of the regions before it in that order
  if (strat >= 1) { std::vector<Region> v = sel; std::stable_sort(v.begin(), v.end(), [](const Region &a, const Region &b) { long ka = strat == 1 ? 0 : key_of(a), kb = strat == 1 ? 0 : key_of(b); return std::tie(ka, a.path, a.off) < std::tie(kb, b.path, b.off); }); size_t n = 0; Req cur{"", 0, 0, 0, 0}; for (auto &r : v) { Req x{r.path, (long)r.off, (long)r.len, 0, 0}; if (n && mergeable(cur, x)) cur.len = std::max(cur.off + cur.len, x.off + x.len) - cur.off; else { n++; cur = x; } } if (q.size() > n) mc_fail("too-many-requests", "%zu requests where %zu suffice in that order%s", q.size(), n, d.c_str()); }
}
static void conf() { ConfB b; b.model["cycle"] = "20"; b.model["usecorrelation"] = "false"; b.system["prediction_algorithm"] = "Markov"; b.system["sortstrategy"] = std::to_string(strat); b.system["maxprocs"] = std::to_string(procs_); set_conf(b); }
// many files with two regions each, the smaller one listed first
static void many() {
  static const int N[] = {9, 40, 300}; int n = N[mc_choose(3, "files:9|40|300")]; strat = mc_choose(3, "strategy:path|inode|block") + 1; int k = mc_choose(3, "inodes:scattered|all the same|pairwise the same"), odd = mc_choose(2, "blocks known:for all|for every other file"); procs_ = mc_choose(2, "helpers:none|30") ? 30 : 0; layout(); m.time = 1000; RExe h; h.regs.insert({"/usr/bin/hub", 0, 4096}); m.ex["/usr/bin/hub"] = h; vos.put("/usr/bin/hub"); RExe g; g.regs.insert({"/usr/bin/gub", 0, 4096}); m.ex["/usr/bin/gub"] = g; vos.put("/usr/bin/gub"); static std::vector<Region> all; size_t two = 0; // a third of them is needed once another program runs
  for (int x = 0; x < 3; x++) { RExe e; for (int i = x; i < n; i += 3) { std::string p = fmt("/usr/lib/%s%03d", i % 5 ? "m" : "M", (i * 7) % n); if (vos.has(p)) continue; auto f = vos.put(p, "x"); f->ino = k == 0 ? 500 + (i * 77) % 1009 : k == 1 ? 77 : 500 + i / 2; f->has_blocks = !odd || i % 2; for (int b = 0; b < 16; b++) f->blocks[b] = 10 + ((i * 131 + b * 17) % 997) * 3; for (long o : {8, 0}) { Region r{p, (unsigned long)(o * PG), (unsigned long)(2 * PG)}; e.regs.insert(r); sel.push_back(r); } }
    std::string nm = fmt("/usr/bin/x%d", x); m.ex[nm] = e; RPair p; if (x == 2) { p.ttl[1] = 25; p.w[1][1] = 20; p.w[1][3] = 12; m.pr[PK("/usr/bin/gub", nm)] = p; all = sel; sel.resize(two); } else { p.ttl[0] = 25; p.w[0][0] = 20; p.w[0][2] = 18 - 3 * x; m.pr[PK("/usr/bin/hub", nm)] = p; two = sel.size(); } }
  conf(); vos.put(STATE, file_of(m).text()); from = 0; vos.ops_limit = 4000000; vos.idle = []() { static size_t seen; bool p = false; size_t first = seen; for (; seen < vos.log.size(); seen++) if (vos.log[seen].kind == "meminfo") p = true; if (!p) return; int np = ++rounds; from = first; if (np == 2) return; judge(); if (np == 3) { mc_outcome(outc); mc_leaf(); } sel = all; proc_start(50, "/usr/bin/gub", {{"/usr/bin/gub", 0, 4096}}); }; rounds = 0; run_daemon(std_args()); mc_fail("exits", "the daemon exits");
}
static void run() {
  world_init(); if (mc_choose(2, "regions:few|of many files")) { vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); many(); } vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); int part = mc_choose(4, "part:three regions of two files|four regions of one file|three files|far apart"); std::vector<Region> uni;
  if (part == 0) { static const int nol = 9; static const int ol[][2] = {{0, 1}, {0, 2}, {0, 4}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {5, 1}}; int n0 = mc_param("uni0", 6, 9); for (int i = 0; i < n0; i++) uni.push_back({F[0], (unsigned long)(ol[i][0] * PG), (unsigned long)(ol[i][1] * PG)}); for (int i = 0; i < n0; i += 2) uni.push_back({F[1], (unsigned long)(ol[i][0] * PG), (unsigned long)(ol[i][1] * PG)}); (void)nol; }
  else if (part == 1) { for (int o = 0; o < 4; o++) for (int l : {1, 2, 4}) if (mc_thorough || l != 2 || o % 2 == 0) uni.push_back({F[0], (unsigned long)(o * PG), (unsigned long)(l * PG)}); }
  else if (part == 3) { static const long of[][2] = {{0, 1l << 31}, {4096, 4096}, {1l << 31, 4096}, {(1l << 31) + 4096, 1l << 32}, {1l << 32, 4096}, {(1l << 32) + 4096, 8192}, {3l << 31, 4096}, {1l << 40, 4096}, {(1l << 40) + (1l << 31), 3l << 31}}; for (auto &o : of) uni.push_back({F[0], (unsigned long)o[0], (unsigned long)o[1]}); uni.push_back({F[1], 1ul << 32, 4096}); uni.push_back({F[1], 4096, 4096}); }
  else for (int f = 0; f < 3; f++) for (int o = 0; o < 3; o++) uni.push_back({F[f], (unsigned long)(o * 2 * PG), (unsigned long)(o == 1 ? 4 * PG : 2 * PG)});
  strat = mc_choose(4, "strategy:none|path|inode|block"); lay = strat >= 2 && part != 1 ? mc_choose(5, "inodes:as paths|against paths|above 2^31|hard links|2^32 apart") : 0; int blk = strat == 3 || strat == 2 ? mc_choose(strat == 2 ? 1 : 5, "blocks:consecutive|backwards|hole and no FIBMAP|scattered|unsupported") : 4;
  if (part == 3) vos.set_mem(80000000, 60000000, 70000000, 1000000, 10000000);
  procs_ = 0; layout(); blocks(blk); int k = part == 1 ? 4 : 3; std::vector<int> idx; bool ordered = strat == 0 || mc_param("ordered", 0, 1);
  int lo = 0; for (int i = 0; i < k; i++) { int n = (int)uni.size() - lo; if (n <= 0) break; int c = mc_choose(n + (i > 0), "region %d", i); if (i > 0 && c == n) break; c += lo; bool dup = false; for (int x : idx) if (x == c) dup = true; if (dup) mc_leaf(); idx.push_back(c); if (!ordered) lo = c + 1; }
  if (!ordered && mc_choose(2, "need:ascending|descending")) std::reverse(idx.begin(), idx.end());
  m.time = 1000; RExe h; h.regs.insert({"/usr/bin/hub", 0, 4096}); h.regs.insert({F[0], 0, 40 * 4096}); m.ex["/usr/bin/hub"] = h; vos.put("/usr/bin/hub");
  for (size_t i = 0; i < idx.size(); i++) { sel.push_back(uni[idx[i]]); std::string n = fmt("/usr/bin/x%d", (int)(i * 3 + 1) % 7); RExe e; e.regs.insert(uni[idx[i]]); m.ex[n] = e; RPair p; p.ttl[0] = 25; p.w[0][0] = 20; p.w[0][2] = 18 - 3 * i; m.pr[PK("/usr/bin/hub", n)] = p; }
  conf(); vos.put(STATE, file_of(m).text()); rounds = 0; from = 0;
  vos.idle = []() { int r = rounds++; if (r == 0) { judge(); if (mc_param("reload", 1, 1) && (strat == 2 || strat == 3) && (lay < 2 || mc_thorough)) { int c = mc_choose(3, "then:end|other strategy|same again"); if (c == 0) { mc_outcome(outc); mc_leaf(); } if (c == 1) { int s = mc_choose(mc_param("strats", 2, 3), "strategy"); strat = s == 0 ? 5 - strat : s == 1 ? 1 : 0; conf(); deliver(SIGHUP); } from = vos.log.size(); return; } mc_outcome(outc); mc_leaf(); }
    bool pred = false; for (size_t i = from; i < vos.log.size(); i++) if (vos.log[i].kind == "meminfo") pred = true; if (!pred && r < 6) return; judge(); mc_outcome(outc); mc_leaf(); };
  run_daemon(std_args());
}
CheckDef check = {"C13", run,
  "sets of up to 3 regions of two files from 9 overlapping, nested, touching and separated ones, up to 4 of one file from 10, up to 3 of three files from 9, up to 3 from 11 that lie gigabytes to terabytes apart, two each of 9, 40 and 300 files, a third of which is wanted later than the others; in every order of need for the ranked strategy, in two for the others; all strategies x 5 inode layouts (hard links, numbers beyond 32 bits) x 5 disk layouts (holes, backwards, other block sizes, FIBMAP unsupported), followed by a reload to another strategy and a second round",
  "sets from 14, 12 and 9 regions in every order of need for all strategies, reloads to any strategy"};
