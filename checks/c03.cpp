#include "progs.h"
// A script of waits, events and signals around saves; every operation of the faulted saves may fail.
struct Script { std::vector<std::function<void()>> step; size_t i = 0; };
static Script sc; static bool faulting; static int opn, n1, n2, e1, e2, persist; static long shortn; static bool hit_hard, hit_any; static std::vector<std::string> ops;
static const int errs[] = {ENOSPC, EINTR, EACCES, EIO, EMFILE, EINVAL, EROFS, EDQUOT, EFBIG, EPERM, ENOENT, EXDEV, EBUSY, ENOMEM, ENOSYS, EOPNOTSUPP, EBADF, ENFILE, ENOTDIR, EISDIR, ELOOP, ENAMETOOLONG, ENODEV, ESTALE, ETIMEDOUT, EPIPE, EMLINK};
static bool ours(const std::string &p) { return p.compare(0, 17, "/var/lib/preload/") == 0; }
static FaultAns hook(const FaultReq &r) {
  if (!faulting || !ours(r.path)) return {}; std::string op = r.op; if (op == "close" || op == "stat" || op == "fstat" || op == "read" || op == "open") return {};
  int k = opn++; ops.push_back(op + " " + r.path); FaultAns a; bool f1 = k == n1 || (persist && n1 >= 0 && k >= n1 && !(e1 == EINTR && k > n1 + 3)), f2 = k == n2; if (!f1 && !f2) return a;
  if (f1 && shortn >= 0 && op == "write" && !persist) { a.shortn = shortn == 0 ? 1 : std::max(1l, r.a / 2); hit_any = true; mc_note("short write of %ld of %ld", a.shortn, r.a); return a; }
  int e = f2 ? e2 : e1; if (e == EINTR && op != "write" && op != "fsync" && op != "create") e = EIO; a.err = e; hit_any = true; if (e != EINTR && op != "unlink") hit_hard = true; mc_note("%s fails with errno %d", ops.back().c_str(), e); return a;
}
static std::string before; static size_t errlen; static std::string tmpkind;
static void begin_fault() { faulting = true; opn = 0; ops.clear(); hit_hard = hit_any = false; before = vos.get(STATE); errlen = vos.err.size(); }
static void check_fault(bool stale_blocks) {
  faulting = false; mc_eval(); std::string now = vos.get(STATE), said = vos.err.substr(std::min(errlen, vos.err.size())); bool kept = now == before, failed = hit_hard || stale_blocks;
  for (auto &o : ops) mc_note("  %s", o.c_str());
  if (failed && !kept) mc_fail("old-file-not-kept", "a save with a failed step replaced the previous state file (%zu bytes) by %zu bytes", before.size(), now.size());
  if (failed && said.find_first_not_of(" \n") == std::string::npos) mc_fail("failure-not-reported", "a save failed silently");
  if (!kept) { SState s = parse_state(now); if (!s.ok) mc_fail("incomplete-file", "the state file is incomplete: %s", s.err.c_str()); }
  if (vos.open_fds()) mc_fail("fd-leak", "descriptors left open: %s", vos.fd_desc().c_str());
  mc_outcome(fmt("%d %d %d %d %zu", failed, kept, hit_any, (int)!said.empty(), ops.size()));
}
static void W(int n) { while (n--) sc.step.push_back(nullptr); }
static void DO(std::function<void()> f) { sc.step.push_back(f); }
static void idle() { while (sc.i < sc.step.size()) { auto &f = sc.step[sc.i++]; if (!f) return; f(); if (vos.woken) return; } }
static World w; static bool vomm; static int big, finalk, mid; static bool first; 
static void S(int s) { DO([s]() { deliver(s); }); DO([]() {}); }
static ProgDef big_prog(int i) { ProgDef p{fmt("/opt/some/rather/long/directory/name/program-number-%d", i), {}}; for (int k = 0; k < 4; k++) p.regs.push_back({fmt("/opt/some/rather/long/directory/name/library-number-%d-%d.so", i, k), (unsigned long)k * 4096, 8192}); return p; }
static std::string plan(bool faults, int two, std::string stale) {
  vos.files.clear(); vos.dirs.erase(std::string(STATE) + ".tmp"); vos.now_us = 1000000000; w.procs.clear(); all_files(); std::string tmp = std::string(STATE) + ".tmp"; sc = Script(); static bool blocks; blocks = false;
  ConfB c; c.system["prediction_algorithm"] = vomm ? "VOMM" : "Markov"; c.model["minsize"] = "0"; c.system["autosave"] = "100000"; set_conf(c);
  w.procs.push_back({10, PA.path, PA.regs}); for (int i = 0; i < big; i++) { ProgDef p = big_prog(i); prog_file(p); w.procs.push_back({30 + i, p.path, p.regs}); } w.sync();
  W(2); if (!first) S(SIGUSR2); DO([]() { w.procs.push_back({11, PB.path, PB.regs}); w.sync(); }); W(2);
  bool term_fault = finalk == 3;
  DO([=]() { if (stale == "file" || stale == "file, unlink fails") { std::string t; while (t.size() < 300000) t += "BADEXE\t0\t-1\tfile:///stale\n"; vos.put(tmp, t); } else if (stale == "directory") vos.mkdirs(tmp); if (faults) { begin_fault(); blocks = stale == "directory" || stale == "file, unlink fails"; if (stale == "file, unlink fails") { n1 = 1; e1 = EPERM; } } });
  if (!term_fault) {
    S(SIGUSR2); DO([=]() { if (faults) check_fault(blocks); if (!two) { if (stale == "directory") vos.dirs.erase(tmp); } });
    if (mid) { DO([]() { w.procs.erase(w.procs.begin()); w.sync(); }); W(2); }
    if (two) { DO([=]() { if (faults) { int k = n1; bool b = blocks; begin_fault(); blocks = b && stale == "directory"; n1 = n2 >= 0 ? n2 : k; n2 = -1; } }); S(SIGUSR2); DO([=]() { if (faults) check_fault(blocks); if (stale == "directory") vos.dirs.erase(tmp); }); }
    if (finalk == 1) { DO([]() { vos.signal(SIGUSR1); }); S(SIGUSR2); }
    if (finalk == 2) { S(SIGUSR2); DO([]() { if (mc_replaying()) mc_note("explicit save done"); }); W(2); }
  }
  DO([]() { deliver(SIGTERM); }); vos.idle = idle; vos.fault = hook; faulting = false;
  int st = run_daemon(std_args(2)); if (faulting) { check_fault(blocks); } else if (st) mc_fail("exit-status", "exit status %d", st); if (vos.open_fds()) mc_fail("fd-leak", "descriptors left open at exit: %s", vos.fd_desc().c_str());
  vos.dirs.erase(tmp); return vos.get(STATE);
}
static void run() {
  world_init(); bool all = mc_choose(2, "errors:few|all"); vomm = mc_choose(2, "algorithm:Markov|VOMM"); big = mc_choose(2, "model:small|several buffers") ? mc_param("programs", 6, 12) : 0; first = mc_choose(2, "state file before:yes|no"); finalk = all ? mc_choose(2, "then:shutdown|the failing save is the shutdown") * 3 : mc_choose(4, "then:shutdown|dump, save, shutdown|save, a cycle, shutdown|the failing save is the shutdown"); mid = finalk == 3 || all ? 0 : mc_choose(2, "learning between:no|yes");
  n1 = n2 = -1; shortn = -1; persist = 0; std::string good = plan(false, 0, "none"); SState g = parse_state(good); if (!g.ok) mc_fail("state-file-malformed", "%s", g.err.c_str());
  // count the operations of a save
  begin_fault(); n1 = -1; plan(true, 0, "none"); int N = ops.size(); if (N < 3) mc_error("a save makes only %d operations", N);
  static const char *st[] = {"none", "file", "directory", "file, unlink fails"}; if (all) { const int E = sizeof errs / sizeof *errs; n1 = mc_choose(N + 2, "failing operation"); e1 = errs[mc_choose(E, "errno")]; }
  int stale = all ? mc_choose(2, "stale temporary file:none|file") : mc_choose(4, "stale temporary file:none|file|directory|file that cannot be removed"); int two = finalk == 3 || all ? 0 : mc_choose(2, "failing saves:one|two");
  if (!all && (stale == 0 || stale == 1)) { n1 = mc_choose(N + (stale ? 2 : 0) + 1, "failing operation") - 1; e1 = errs[mc_choose(mc_param("errors", 3, 5), "error:ENOSPC|EINTR|EACCES|EIO|EMFILE")]; int m = mc_choose(mc_thorough || !big ? 4 : 3, "mode:once|short write of one byte|half written|from there on"); if (m == 1 || m == 2) shortn = m - 1; persist = m == 3; int pairs = mc_choose(2, "second failing operation:none|some"); if (pairs) { n2 = n1 + 1 + mc_choose(mc_param("second", 3, 8), "second"); e2 = mc_choose(mc_param("errors2", 1, 2), "error:ENOSPC|EIO") ? EIO : ENOSPC; } }
  std::string got = plan(true, two, st[stale]);
  if (finalk == 3) { if (hit_any || stale >= 2) mc_leaf(); }
  SState s = parse_state(got); mc_eval(); if (!s.ok) mc_fail("state-file-malformed", "%s", s.err.c_str()); mc_state(s.canon()); if (s.canon() != g.canon()) { mc_note("without fault:\n%s\nwith:\n%s", g.canon().c_str(), s.canon().c_str()); mc_fail("learning-lost", "after a failed save the next successful one does not hold everything learned"); }
  if (vos.has(std::string(STATE) + ".tmp") && stale != 2) mc_fail("temporary-left", "a temporary file is left after a successful save");
  mc_leaf();
}
CheckDef check = {"C03", run,
  "each operation on the state directory of a save failing with each of 27 errors, and of one or two saves failing (3 errors; short writes; failing from there on), each followed by a second failing operation, with 4 kinds of stale temporary file, with and without a previous file, small model and one of several write buffers, both algorithms, 4 ways to end",
  "as quick with 5 errors, larger model and second failures further apart"};
