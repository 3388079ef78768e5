#include "progs.h"
#include "need.h"
#include <cerrno>
#include <sys/mman.h>
// fates of a request
enum { OK, OPEN_FAILS, RA_EIO, RA_EINVAL, RA_ENOSYS_MADV, RA_EOPN_MMAP, FORK_FAILS, RA_EBADF, RA_EOPN, NF };
static std::vector<Region> sel; static RModel m; static int maxprocs, strat, nreq; static std::vector<int> fate; static bool faulty; static int forks, waits, budget_; static size_t from; static int rounds; static std::string outc, cur_map;
static int fate_of(const std::string &p) { for (int i = 0; i < nreq; i++) if (sel[i].path == p) return fate[i]; return OK; }
static FaultAns hook(const FaultReq &r) {
  FaultAns a; if (!faulty) return a; std::string op = r.op;
  if (op == "fork") { if (r.path.empty()) { int i = forks++; if (i < nreq && fate[i] == FORK_FAILS) a.err = i % 2 ? ENOMEM : EAGAIN; } return a; }
  if (op == "open") { int f = fate_of(r.path); if (f == OPEN_FAILS) a.err = EACCES; return a; }
  if (op == "readahead") { switch (fate_of(r.path)) { case RA_EIO: a.err = EIO; break; case RA_EINVAL: a.err = EINVAL; break; case RA_ENOSYS_MADV: a.err = ENOSYS; break; case RA_EOPN_MMAP: case RA_EOPN: a.err = EOPNOTSUPP; break; case RA_EBADF: a.err = EBADF; break; } return a; }
  if (op == "mmap") { cur_map = r.path; if (fate_of(r.path) == RA_EOPN_MMAP) a.err = ENODEV; return a; }
  if (op == "madvise") { if (fate_of(cur_map) == RA_ENOSYS_MADV) a.err = EIO; return a; }
  if (op == "wait" && budget_ > 0 && !vos.helper) { int k = mc_choose(3, "wait:normal|EINTR|children already reaped"); if (k) budget_--; if (k == 1) a.err = EINTR; if (k == 2) { vos.zombies.clear(); a.err = ECHILD; } return a; }
  if (op == "ioprio" && nreq && fate[0] == RA_EIO) { a.err = EPERM; return a; }
  if (op == "fstat" || op == "fibmap") { if (fate_of(r.path) == RA_EIO || fate_of(r.path) == RA_EBADF) a.err = EIO; return a; }
  return a;
}
static void judge() {
  mc_eval(); std::string log; for (size_t i = from; i < vos.log.size(); i++) { auto &e = vos.log[i]; if (e.kind == "readahead" || e.kind == "mmap" || e.kind == "madvise" || e.kind == "munmap" || e.kind == "fork" || e.kind == "wait" || e.kind == "exit" || e.kind == "escaped") log += "\n  " + e.str(); } const char *L = log.c_str();
  std::map<std::string, std::vector<Req>> ra; for (auto &r : prefetches(from)) ra[r.path].push_back(r);
  int nfork = 0, nhelp = 0; for (size_t i = from; i < vos.log.size(); i++) { auto &e = vos.log[i]; if (e.kind == "escaped") mc_fail("helper-escapes", "a helper goes on with the daemon's work (%s)%s", e.path.c_str(), L); if (e.kind == "fork") { nfork++; if (e.ret > 0) nhelp++; } if (e.helper && e.kind == "exit") nhelp--; }
  if (nhelp) mc_fail("helper-lost", "not every helper ended by exiting%s", L); if (maxprocs <= 0 && nfork) mc_fail("fork", "forks though no helper process is allowed%s", L);
  if (maxprocs > 0 && vos.max_children > maxprocs) mc_fail("too-many-helpers", "%d helpers at a time, %d allowed%s", vos.max_children, maxprocs, L);
  if (!vos.zombies.empty()) mc_fail("helper-left", "%zu helpers are left after the round%s", vos.zombies.size(), L); if (vos.open_fds()) mc_fail("fd-left", "descriptors left after the round: %s%s", vos.fd_desc().c_str(), L); if (!vos.maps.empty()) mc_fail("mapping-left", "%zu mappings left after the round%s", vos.maps.size(), L);
  for (int i = 0; i < nreq; i++) {
    auto &r = sel[i]; int f = faulty ? fate[i] : OK; if (f == FORK_FAILS && maxprocs <= 0) f = OK; auto &v = ra[r.path]; bool expect = f != OPEN_FAILS && f != FORK_FAILS;
    if (f == FORK_FAILS && v.size() == 1) { outc += "F"; } else
    if ((v.size() != 0) != expect || v.size() > 1) mc_fail("requests", "%s is requested %zu times (fate %d)%s", r.path.c_str(), v.size(), f, L);
    if (v.size() && (v[0].off != (long)r.off || v[0].len != (long)r.len)) mc_fail("request-range", "%s: %ld+%ld requested instead of %lu+%lu%s", r.path.c_str(), v[0].off, v[0].len, r.off, r.len, L);
    if (v.size() && maxprocs > 0 && !v[0].helper) mc_fail("not-in-helper", "the request for %s is made by the daemon itself%s", r.path.c_str(), L);
    // fallback
    bool fb = f == RA_EINVAL || f == RA_ENOSYS_MADV || f == RA_EOPN_MMAP || f == RA_EOPN; int maps = 0, adv = 0; int helper = v.size() ? v[0].helper : 0; bool mine = false;
    for (size_t j = from; j < vos.log.size(); j++) { auto &e = vos.log[j]; if (e.kind == "readahead") mine = e.path == r.path; if (!mine || e.helper != helper) continue;
      if (e.kind == "mmap") { maps++; if (e.a & 4095) mc_fail("mapping-unaligned", "mapping at offset %ld%s", e.a, L); if (e.a > (long)r.off || e.a + e.b < (long)(r.off + r.len)) mc_fail("mapping-short", "%s: mapping %ld+%ld does not cover %lu+%lu%s", r.path.c_str(), e.a, e.b, r.off, r.len, L); if (e.path != r.path) mc_fail("mapping-file", "wrong file%s", L); }
      if (e.kind == "madvise") { adv++; if (e.a != MADV_WILLNEED) mc_fail("advice", "advice %ld%s", e.a, L); if (e.path == "(unmapped)") mc_fail("advice-unmapped", "advice for memory that is not mapped%s", L); long off = 0, len = 0; for (size_t q = from; q < j; q++) if (vos.log[q].kind == "mmap" && vos.log[q].path == r.path && vos.log[q].ret == 0) off = vos.log[q].a, len = vos.log[q].b; if (off + e.b < (long)(r.off + r.len)) mc_fail("advice-short", "the advice does not cover the request%s", L); } }
    if (fb && !maps) mc_fail("no-fallback", "readahead is unsupported for %s and no mapping is made%s", r.path.c_str(), L); if (fb && f != RA_EOPN_MMAP && !adv) mc_fail("no-fallback", "readahead is unsupported for %s and it is not advised%s", r.path.c_str(), L);
  }
  outc += fmt("%d forks %d max;", nfork, vos.max_children) + log;
}
static void conf() { ConfB b; b.model["cycle"] = "20"; b.model["usecorrelation"] = "false"; b.system["prediction_algorithm"] = "Markov"; b.system["sortstrategy"] = std::to_string(strat); b.system["maxprocs"] = std::to_string(maxprocs); set_conf(b); }
static bool budget_used() { return budget_ != mc_param("waits", 2, 3); }
static void judge();
static void run() {
  world_init(); vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); static const int mp[] = {0, 1, 2, 30, 3, -1}; maxprocs = mp[mc_choose(mc_param("maxprocs", 4, 6), "maxprocs:0|1|2|30|3|-1")]; { int mx = mc_param("requests", 3, 4); int k = mc_choose(mx + 1, "requests: %d and fewer", mx); nreq = mx - k; } strat = mc_choose(2, "strategy:path|block") ? 3 : 1;
  int al = mc_choose(mc_param("aligns", 2, 3), "offsets:aligned|unaligned|large"); static const unsigned long of[][4] = {{0, 4096, 12288, 0}, {100, (5ul << 32) + 8191, 4095, 4097}, {5ul << 32, 4096, 100, (3ul << 32) + 1}}, ln[][4] = {{4096, 8192, 4096, 4096}, {4096, 1, 4098, 12287}, {4096, 5ul << 30, 8092, 4096}};
  for (int i = 0; i < nreq; i++) { fate.push_back(mc_choose(strat == 3 ? 6 : maxprocs > 0 ? mc_param("fates", 7, NF) : 6, "request %d:ok|open fails|EIO|EINVAL|ENOSYS, madvise fails|EOPNOTSUPP, mmap fails|fork fails|EBADF|EOPNOTSUPP", i)); sel.push_back({fmt("/lib/f%d", i), of[al][i], ln[al][i]}); vos.put(sel.back().path, "x"); }
  m.time = 1000; RExe h; h.regs.insert({"/usr/bin/hub", 0, 4096}); m.ex["/usr/bin/hub"] = h; vos.put("/usr/bin/hub");
  for (int i = 0; i < nreq; i++) { std::string n = fmt("/usr/bin/x%d", i); RExe e; e.regs.insert(sel[i]); m.ex[n] = e; RPair p; p.ttl[0] = 25; p.w[0][0] = 20; p.w[0][2] = 18 - 3 * i; m.pr[PK("/usr/bin/hub", n)] = p; }
  conf();
  vos.put(STATE, file_of(m).text()); vos.fault = hook; faulty = true; forks = 0; budget_ = mc_param("waits", 2, 3); rounds = 0; from = 0; outc.clear();
  vos.idle = []() { int r = rounds++; if (r == 0) { judge(); bool ok = true; for (int f : fate) ok = ok && f == OK; if (ok && nreq && !budget_used()) { static const int mp2[] = {-2, 0, 1, 2, 30}; int k = mc_choose(5, "then:same limit|reload to 0|1|2|30"); if (k) { maxprocs = mp2[k]; conf(); deliver(SIGHUP); } } faulty = false; from = vos.log.size(); vos.max_children = 0; return; } bool pred = false; for (size_t i = from; i < vos.log.size(); i++) if (vos.log[i].kind == "meminfo") pred = true; if (!pred) { if (r > 4) mc_fail("no-prediction", "no further prediction after a failing round"); return; } judge(); mc_outcome(outc); mc_leaf(); };
  run_daemon(std_args()); mc_fail("exits", "the daemon exits");
}
CheckDef check = {"C14", run,
  "no to three requests, each with one of 7 fates (success, fork, open, readahead failing, fallback to a mapping that works, cannot be advised or cannot be made) x at most 0, 1, 2 or 30 helpers x up to two waits interrupted or without children x aligned and unaligned ranges, one beyond 4 GB, x ordering by path and by block (whose look-ups fail too), each followed by a second round without failures, with the same limit or another one reloaded",
  "up to four requests with 9 fates, 6 limits, three abnormal waits, ranges beyond 4 GB"};
