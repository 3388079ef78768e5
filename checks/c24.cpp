#include "dm.h"
#include <cerrno>
#include <signal.h>
enum { CO, SO, LO, FG, NI, VE, DBG, HELP, VERS, BAD, POS, STOP };
struct O { std::vector<std::string> a; int k; const char *v; int n; };
static const std::vector<O> opts = {
  {{"-c", "/etc/c1"}, CO, "/etc/c1"}, {{"--conffile=/etc/c2"}, CO, "/etc/c2"}, {{"-c", ""}, CO, ""}, {{"--conf", "/etc/c2"}, CO, "/etc/c2"}, {{"-c/etc/none"}, CO, "/etc/none"}, {{"--conffile=/etc/bad"}, CO, "/etc/bad"},
  {{"-s/work/s1"}, SO, "/work/s1"}, {{"--statefile", "/work/s2"}, SO, "/work/s2"}, {{"-s", ""}, SO, ""}, {{"--statefile="}, SO, ""},
  {{"-l", "/work/l1"}, LO, "/work/l1"}, {{"--logfile=/work/l2"}, LO, "/work/l2"}, {{"-l", ""}, LO, ""},
  {{"-f"}, FG}, {{"--foreground"}, FG}, {{"-n", "7"}, NI, "", 7}, {{"--nice=-5"}, NI, "", -5}, {{"-n0"}, NI, "", 0}, {{"--nice", "19"}, NI, "", 19},
  {{"-V", "2"}, VE, "", 2}, {{"--verbose", "6"}, VE, "", 6}, {{"-V0"}, VE, "", 0}, {{"--verbose=10"}, VE, "", 10}, {{"-V", "9"}, VE, "", 9}, {{"-V", "3"}, VE, "", 3}, {{"-V", "5"}, VE, "", 5},
  {{"-d"}, DBG}, {{"--debug"}, DBG}, {{"-h"}, HELP}, {{"--help"}, HELP}, {{"-v"}, VERS}, {{"--version"}, VERS}, {{"-x"}, BAD}, {{"--bogus"}, BAD}, {{"--ver"}, BAD}, {{"--help=1"}, BAD}, {{"operand"}, POS}, {{"--"}, STOP},
};
static const char *const bundles[] = {"none", "-fV2", "-dn3", "-fdl/work/l1", "-fh", "-n5x", "-c (no argument)", "--nice (no argument)"};
static std::string defval(const std::string &help, const std::string &opt) { size_t p = help.find("--" + opt), q = help.find("(default is ", p); if (p == std::string::npos || q == std::string::npos) mc_fail("help", "the help text gives no default of %s:\n%s", opt.c_str(), help.c_str()); q += 12; return help.substr(q, help.find(')', q) - q); }
#define OLD "what was logged before\n"
static int ph; static std::string dumped;
static std::string conf(int n) { return fmt("[system]\nmaxprocs = 0\nautosave = %d\n", n); }
static void run() {
  world_init(); std::string help; { std::string r; if (mc_probe_begin(r)) { int st = run_daemon({"-h"}); if (st || vos.out.empty()) mc_fail("help", "-h exits with %d", st); mc_probe_end(vos.out); } help = r; }
  std::string dc = defval(help, "conffile"), ds = defval(help, "statefile"), dl = defval(help, "logfile"); int dn = atoi(defval(help, "nice").c_str()), dv = atoi(defval(help, "verbose").c_str());
  if (dc != "/etc/preload.conf" || ds != "/var/lib/preload/preload.state" || dl != "/var/log/preload.log" || dn != 15 || dv != 4) mc_fail("defaults", "documented defaults changed: %s %s %s %d %d", dc.c_str(), ds.c_str(), dl.c_str(), dn, dv);
  struct { std::string c, s, l; bool fg; int n, v; } w{dc, ds, dl, false, dn, dv}; int end = -1; bool stop = false; std::vector<std::string> args;
  auto apply = [&](int k, const std::string &v, int n) { if (end >= 0 || stop) return; switch (k) { case CO: w.c = v; break; case SO: w.s = v; break; case LO: w.l = v; break; case FG: w.fg = true; break; case NI: w.n = n; break; case VE: w.v = n; break; case DBG: w.l = ""; w.fg = true; w.v = 9; break; case HELP: case VERS: case BAD: end = k; break; case STOP: stop = true; break; } };
  std::string l = "option:"; for (auto &o : opts) { l += (l.back() == ':' ? "" : "|"); for (auto &a : o.a) l += a + (a.empty() ? "''" : "") + (&a == &o.a.back() ? "" : " "); } l += "|end";
  int n = mc_param("options", 3, 4); for (int i = 0; i < n; i++) { int k = mc_choose(opts.size() + 1, "%s", l.substr(0, 390).c_str()); if (k == (int)opts.size()) break; for (auto &a : opts[k].a) args.push_back(a); mc_note("%s", opts[k].a[0].c_str()); apply(opts[k].k, opts[k].v ? opts[k].v : "", opts[k].n); }
  int b = (int)args.size() <= 2 ? mc_choose(8, "last:%s|%s|%s|%s|%s|%s|%s|%s", bundles[0], bundles[1], bundles[2], bundles[3], bundles[4], bundles[5], bundles[6], bundles[7]) : 0;
  if (b && b < 6) args.push_back(bundles[b]); if (b == 1) { apply(FG, "", 0); apply(VE, "", 2); } if (b == 2) { apply(DBG, "", 0); apply(NI, "", 3); } if (b == 3) { apply(FG, "", 0); apply(DBG, "", 0); apply(LO, "/work/l1", 0); } if (b == 4) { apply(FG, "", 0); apply(HELP, "", 0); } if (b == 5) apply(NI, "", 5); if (b == 6) { args.push_back("-c"); apply(BAD, "", 0); } if (b == 7) { args.push_back("--nice"); apply(BAD, "", 0); }
  int side = end >= 0 || w.fg || w.c == "/etc/none" || w.c == "/etc/bad" ? 0 : mc_choose(3, "after the fork:child|parent|fork fails"); std::string show; for (auto &a : args) show += " '" + a + "'";
  const std::string confs[] = {dc, "/etc/c1", "/etc/c2"}, states[] = {ds, "/work/s1", "/work/s2"}, logs[] = {dl, "/work/l1", "/work/l2"};
  for (int i = 0; i < 3; i++) { vos.put(confs[i], conf(3611 + i)); StateW s; s.time = 100 * (i + 1); s.use(s.exe("/usr/bin/a", 5), s.map("/usr/bin/a", 0, 4096)); s.use(s.exe("/usr/bin/b", 5), s.map("/usr/bin/b", 0, 4096)); { auto &k = s.mk(1, 2); k.time = 1; k.ttl[0] = 25; k.w[0][0] = 20; k.w[0][1] = 10; k.w[0][2] = 10; s.nodes.push_back({1, 1, 2, 0}); s.nodes.push_back({2, 2, 2, 1}); vos.put("/usr/bin/b", "x"); } vos.put(states[i], s.text()); vos.put(logs[i], OLD); } vos.put("/etc/bad", "[system]\nmaxprocs = many\n");
  proc_start(10, "/usr/bin/n", {{"/usr/bin/n", 0, 80000000}}); vos.put("/usr/bin/n", "x"); vos.put("/usr/bin/a", "x"); auto before = vos.files;
  vos.expect_daemon_fork = !w.fg; vos.daemonize_side = side == 1; vos.fault = [=](const FaultReq &r) { FaultAns a; if (!strcmp(r.op, "nice")) a.err = EPERM; if (!strcmp(r.op, "fork") && side == 2) a.err = EAGAIN; return a; };
  vos.idle = []() { if (ph == 0) { ph = 1; deliver(SIGUSR1); } else if (ph == 1) { ph = 2; deliver(SIGTERM); } else mc_fail("term-ignored", "the daemon does not exit on SIGTERM"); };
  std::string canon; bool full = end < 0 && side == 0 && w.c != "/etc/none" && w.c != "/etc/bad" && w.v >= 9; // at the highest levels: what is logged is what the equivalent explicit options log
  if (full) { std::string r; if (mc_probe_begin(r)) { vos.expect_daemon_fork = false; run_daemon({"-f", "-l", "", "-c", w.c, "-s", w.s, "-n", std::to_string(w.n), "-V", std::to_string(w.v)}); mc_probe_end(vos.err); } canon = r; }
  int st = run_daemon(args); mc_eval(); std::set<std::string> opened; for (auto &e : vos.log) if (e.kind == "open" || e.kind == "create") opened.insert(e.path); const char *A = show.c_str();
  auto untouched = [&]() { for (auto &e : vos.log) if (e.kind == "create" || e.kind == "fork" || (e.kind == "open" && (e.path.compare(0, 5, "/etc/") == 0 || e.path.compare(0, 6, "/work/") == 0 || e.path == ds))) mc_fail("touches", "%s: %s %s", A, e.kind.c_str(), e.path.c_str()); if (vos.files.size() != before.size()) mc_fail("touches", "%s: files are created", A); };
  if (end == HELP || end == VERS) { if (st) mc_fail("help-status", "%s: exit status %d", A, st); if (vos.out.empty() || !vos.err.empty()) mc_fail("help-output", "%s: stdout '%s', stderr '%s'", A, vos.out.substr(0, 60).c_str(), vos.err.substr(0, 60).c_str()); if (end == HELP) for (auto o : {"help", "version", "conffile", "statefile", "logfile", "foreground", "nice", "verbose", "debug"}) if (!contains(vos.out, std::string("--") + o)) mc_fail("help-text", "%s: --%s is not mentioned", A, o); untouched(); mc_outcome(vos.out); mc_leaf(); }
  if (end == BAD) { if (!st) mc_fail("error-status", "%s: an invalid option exits successfully", A); if (vos.err.empty() || !vos.out.empty()) mc_fail("error-output", "%s: stdout '%s', stderr '%s'", A, vos.out.substr(0, 60).c_str(), vos.err.substr(0, 60).c_str()); untouched(); mc_outcome("error"); mc_leaf(); }
  for (auto &x : logs) if (vos.get(x).compare(0, strlen(OLD), OLD)) mc_fail("log-lost", "%s: what %s held is lost", A, x.c_str());
  if (w.c == "/etc/none" || w.c == "/etc/bad") { // reported where messages go, and nothing is done
    std::string o = w.l.empty() ? vos.err : vos.get(w.l).substr(strlen(OLD)); if (!st) mc_fail("configuration-status", "%s: exits successfully", A); if (w.v > 0 && !contains(o, w.c) && !(w.c == "/etc/bad" && contains(o, "maxprocs"))) mc_fail("configuration-report", "%s: the failure is not reported in %s: '%s', stderr '%s'", A, w.l.empty() ? "stderr" : w.l.c_str(), o.substr(0, 200).c_str(), vos.err.substr(0, 200).c_str()); for (auto &s : states) if (opened.count(s)) mc_fail("touches", "%s: %s is read", A, s.c_str()); for (auto &e : vos.log) if (e.kind == "nice" || e.kind == "fork") mc_fail("touches", "%s: %s", A, e.kind.c_str()); mc_outcome("configuration " + w.c); mc_leaf(); }
  int forks = 0; for (auto &e : vos.log) forks += e.kind == "fork" && e.path == "daemonize"; 
  if (side == 2) { if (!st) mc_fail("fork-status", "%s: the fork fails and the daemon exits successfully", A); mc_outcome("fork"); mc_leaf(); }
  if (st) mc_fail("status", "%s: exit status %d: %s", A, st, vos.err.c_str()); if (forks != !w.fg) mc_fail("foreground", "%s: %d forks", A, forks);
  for (auto &c : confs) if (opened.count(c) != (c == w.c)) mc_fail("conffile", "%s: %s is %sread", A, c.c_str(), c == w.c ? "not " : "");
  for (auto &x : logs) if (opened.count(x) != (x == w.l)) mc_fail("logfile", "%s: %s is %sopened", A, x.c_str(), x == w.l ? "not " : "");
  if (side == 1) { for (auto &s : states) if (opened.count(s)) mc_fail("parent", "%s: the parent reads %s", A, s.c_str()); mc_outcome("parent"); mc_leaf(); }
  for (auto &s : states) { if (opened.count(s) != (s == w.s)) mc_fail("statefile", "%s: %s is %sread", A, s.c_str(), s == w.s ? "not " : ""); bool ch = vos.get(s) != before[s]->data || vos.files[s] != before[s]; if (ch != (s == w.s)) mc_fail("statefile-saved", "%s: %s is %ssaved", A, s.c_str(), s == w.s ? "not " : ""); }
  int nice = 0, nn = 0; for (auto &e : vos.log) if (e.kind == "nice") { nn++; nice += e.a; } if (nn != 1 || nice != w.n) mc_fail("nice", "%s: nice level %d (%d calls) instead of %d", A, nice, nn, w.n);
  std::string out = w.l.empty() ? vos.err : vos.get(w.l).substr(strlen(OLD)), other = w.l.empty() ? "" : vos.err + vos.out; if (!other.empty()) mc_fail("log-elsewhere", "%s: output beside the log file: %s", A, other.substr(0, 200).c_str());
  auto tok = [&](const char *t, int lv) { if (contains(out, t) != (w.v >= lv)) mc_fail(fmt("verbosity:%d", lv).c_str(), "%s: messages of level %d ('%s') are %sshown at verbosity %d", A, lv, t, w.v >= lv ? "not " : "", w.v); };
  if (full) { auto lines = [](const std::string &s) { std::multiset<std::string> r; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); std::string l = s.substr(i, j - i); if (l.find("logfile") == std::string::npos) r.insert(l); i = j + 1; } return r; }; auto a = lines(out), b = lines(canon); if (a != b) { std::string d; for (auto &x : a) if (a.count(x) != b.count(x)) { d = "more: " + x; break; } for (auto &x : b) if (d.empty() && !a.count(x)) { d = "missing: " + x; break; } mc_fail("full-log", "%s: the log differs from that of the same options given explicitly: %s", A, d.c_str()); } }
  tok("Operation not permitted", 2); tok("exit requested", 3); tok("starting up", 5); Dump d = parse_dump(out); if (!d.ok) mc_fail("dump", "%s: no dump in the log", A);
  std::string mp = w.c.empty() ? "3600" : fmt("%d", w.c == confs[0] ? 3611 : w.c == confs[1] ? 3612 : 3613); if (d.conf["system.autosave"] != mp) mc_fail("configuration", "%s: autosave is %s instead of %s", A, d.conf["system.autosave"].c_str(), mp.c_str());
  long t0 = w.s.empty() ? 0 : w.s == states[0] ? 100 : w.s == states[1] ? 200 : 300; if (d.time != t0 + 10 || d.exes != (w.s.empty() ? 0 : 2) + 0) { if (d.time != t0 + 10 || d.exes > 3) mc_fail("state", "%s: model time %ld, %ld programs", A, d.time, d.exes); }
  mc_outcome(fmt("%s %s %s %d %d %d", w.c.c_str(), w.s.c_str(), w.l.c_str(), w.fg, w.n, w.v)); mc_leaf();
}
CheckDef check = {"C24", run,
  "every sequence of up to 3 of 38 options (each short, long, joined, separate and abbreviated form, values empty and not, help, version, invalid options, operands, --), followed by 7 bundles or options without argument where there are at most two words; in the background as child, as parent, and with a failing fork; files opened and saved, log destination (which keeps its earlier content), configuration files that cannot be loaded, nice level, verbosity and configuration in force",
  "sequences of up to 4 options"};
