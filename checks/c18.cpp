#include "progs.h"
#include "need.h"
#include <cerrno>
extern "C" char vos_trace_on;
static const char *const LOG = "/var/log/preload.log", *const LOGOLD = "/var/log/preload.log.1";
static const int sigs[] = {SIGTERM, SIGINT, SIGQUIT, SIGUSR2, SIGUSR1, SIGHUP, SIGPIPE};
static bool isterm(int s) { return s == SIGTERM || s == SIGINT || s == SIGQUIT; }
static bool vomm, bg, apart, stay; static std::string kept; static int horizon, helpers;
static long npoint; static int nidle; static bool coarse, counting; static int target;
static int k[2] = {-1, -1}, sg[2], atidle[2] = {-1, -1}, nd; static long win0; static int stage;
static int64_t idle_t[64]; static std::vector<int> base_saves; static int nusr2, nsave_at; static std::vector<std::string> base; // what a shutdown at each sleep would save
static int fin, fin_at, fin_hup, off1 = -1; static size_t mark; static int saves_at, dumps_at; static bool hup, term, usr1, usr2; static int64_t t_del; static int idle_at; static bool done_check;
static const char *sname(int s) { return s == SIGTERM ? "SIGTERM" : s == SIGINT ? "SIGINT" : s == SIGQUIT ? "SIGQUIT" : s == SIGUSR2 ? "SIGUSR2" : s == SIGUSR1 ? "SIGUSR1" : s == SIGHUP ? "SIGHUP" : "SIGPIPE"; }
static bool ready() { for (int s : sigs) if (!vos.handler[s]) return false; return true; }
static int saves() { int n = 0; for (auto &e : vos.log) if (e.kind == "rename" && e.data == STATE && !e.ret) n++; return n; }
static std::string logs() { return vos.get(LOGOLD) + vos.get(LOG); }
static int dumps() { return count_of(logs(), "persistent state stats:"); }
static void send(int s, const char *where) {
  if (s == SIGHUP && !hup) { ConfB c = eng.conf; c.system["maxprocs"] = "7"; set_conf(c); if (stay) kept = vos.get(LOG); else { vos.put(LOGOLD, vos.get(LOG)); vos.files[LOGOLD] = vos.files[LOG]; vos.rm(LOG); } } else if (s == SIGHUP) kept = vos.get(LOG);
  if (saves_at < 0) { fin_at = fin; idle_at = nidle; saves_at = saves(); dumps_at = dumps(); } if (s == SIGHUP) { if (!hup) fin_hup = fin; hup = true; } if (isterm(s)) term = true; if (s == SIGUSR1) usr1 = true; if (s == SIGUSR2) { usr2 = true; nusr2++; }
  t_del = vos.now_us; mc_note("%s delivered %s", sname(s), where);
  int r = vos.signal(s); if (r == -1) mc_fail(fmt("default-action:%s", sname(s)).c_str(), "%s is not handled %s: the daemon dies", sname(s), where);
}
static void point(const char *name) {
  if (coarse && (!strcmp(name, "malloc") || !strcmp(name, "free") || !strcmp(name, "calloc") || !strcmp(name, "realloc"))) return;
  VosOff o; if (!vos.handler[SIGPIPE] || !ready()) return; long n = npoint++;
  if (counting) return;
  for (int i = 0; i < 2; i++) if (k[i] == n && atidle[i] < 0) { k[i] = -1; std::string w = fmt("%s %s (point %ld, after sleep %d)", vos.in_handler ? "inside the handler at" : "before", name, n, nidle); send(sg[i], w.c_str()); nd--; }
}
static std::string sofar() { return fmt("(%s%s%s%s)", hup ? "SIGHUP " : "", usr1 ? "SIGUSR1 " : "", usr2 ? "SIGUSR2 " : "", term ? "exit request" : ""); }
static void check_file(const char *where) { // what was learned up to the sleep before or the one after the delivery
  SState s = parse_state(vos.get(STATE)); mc_eval(); if (!s.ok) mc_fail("state-file", "%s: state file: %s", where, s.err.c_str()); std::string c = s.canon(); int j = nidle; // base[0]: before the first activity, base[i + 1]: at sleep i
  for (int i = std::max(0, j - 1); i <= j + 1 && i < (int)base.size(); i++) if (base[i] == c) return;
  mc_fail("state-content", "%s %s: the state file is neither what was learned before nor after the activity the signal arrived in:\n%s", where, sofar().c_str(), c.c_str());
}
static void effects() {
  done_check = true; mc_eval(); if (term) mc_fail("term-ignored", "the daemon sleeps again %.0f s after an exit request %s", (vos.now_us - t_del) / 1e6, sofar().c_str());
  if (usr2) { check_file("SIGUSR2"); }
  int d = dumps() - dumps_at; if (!fin && (d < (int)usr1 || (!usr1 && d))) mc_fail("dump", "%d dumps after %s", d, sofar().c_str());
  if (hup) { if (!vos.has(LOG)) mc_fail("log-not-reopened", "SIGHUP: the log file was not opened anew %s", sofar().c_str()); if (vos.get(LOG).compare(0, kept.size(), kept)) mc_fail("log-lost", "SIGHUP: what the log file held is lost %s", sofar().c_str()); }
}
static void idle() {
  if (nidle == 0 || idle_t[nidle - 1] != vos.now_us) idle_t[nidle++] = vos.now_us; int j = nidle - 1; bool again = false;
  static int lastj = -1; again = lastj == j; lastj = j;
  if (!again && !fin) { if (j == 2) { proc_start(11, PB.path, PB.regs); } if (j == 4) proc_stop(10); }
  if (j == 0 && !again) for (int s : sigs) if (s != SIGPIPE && !vos.handler[s]) mc_fail(fmt("default-action:%s", sname(s)).c_str(), "%s is not handled while the daemon runs", sname(s));
  if (!counting && !fin && !term && j < (int)base_saves.size() && nd == 0 && saves_at >= 0 && (done_check || again || vos.now_us != t_del)) { int b = base_saves[j], n = saves(); mc_eval(); if (n > b + nusr2 || (!nusr2 && n != b)) mc_fail("saves", "%d saves up to sleep %d %s, %d without signals", n, j, sofar().c_str(), b); }
  if (counting && j == target && !fin) { nsave_at = saves(); fin = 2; term = true; deliver(SIGTERM); return; }
  if (apart && nd == 1 && saves_at >= 0) { effects(); done_check = usr1 = usr2 = false; saves_at = dumps_at = -1; } // the first of two is judged before the second comes
  if (saves_at >= 0 && !done_check && nd == 0) effects();
  if (fin) { if (fin == 1) { fin = 2; Dump d = parse_dump(fin_at || fin_hup ? logs() : vos.get(LOG)); mc_eval(); if (!d.ok) mc_fail("final-dump", "SIGUSR1 later: no dump in the log %s", sofar().c_str()); if (!fin_at && !fin_hup && d.conf["system.maxprocs"] != (hup ? "7" : "0") && d.conf["system.maxprocs"] != (hup ? "7" : fmt("%d", helpers))) mc_fail("reload", "the configuration in force has maxprocs %s %s", d.conf["system.maxprocs"].c_str(), sofar().c_str()); term = true; deliver(SIGTERM); return; } mc_fail("term-ignored", "the daemon does not exit on a later SIGTERM %s", sofar().c_str()); }
  for (int i = 0; i < 2; i++) if (atidle[i] == j && k[i] == 0) { k[i] = -1; nd--; win0 = npoint; if (i == 0 && off1 >= 0) k[1] = npoint + off1; send(sg[i], fmt("while sleeping (sleep %d)", j).c_str()); return; }
  if (j >= horizon) { if (!hup && !usr1 && !usr2 && dumps()) mc_fail("dump", "a dump nobody asked for"); fin = 1; deliver(SIGUSR1); }
}
static std::vector<std::string> args;
// what a shutdown at sleep j saves, and (j < 0) how many points a run without signals has, in a copy of the process
static std::string baseline(int j) {
  std::string r; if (!mc_probe_begin(r)) return r;
  counting = true; target = j; vos.idle = idle; run_daemon(args); if (j < 0) mc_probe_end(std::to_string(npoint)); mc_probe_end(fmt("%d\n", nsave_at) + parse_state(vos.get(STATE)).canon());
}
static void run() {
  world_init(); all_files(); vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); vos_trace_on = 1; 
  int al = mc_choose(mc_thorough ? 4 : 2, "algorithm:Markov, no helpers|VOMM, two helpers|Markov, two helpers|VOMM, no helpers"); vomm = al == 1 || al == 3; helpers = al == 1 || al == 2 ? 2 : 0; int mode = mc_choose(4, "signals:one at any call|one while sleeping, one at any call until the next sleep|two at the same call|two while sleeping"); apart = mode == 3; bg = apart && mc_choose(2, "in the:foreground|background"); stay = apart && mc_choose(2, "log file:moved away before SIGHUP|left"); horizon = mc_param("sleeps", 6, 9);
  ConfB &c = eng.conf; c.model["cycle"] = "20"; c.model["minsize"] = "1000"; c.system["autosave"] = "35"; c.system["prediction_algorithm"] = vomm ? "VOMM" : "Markov"; c.system["maxprocs"] = std::to_string(helpers); set_conf(c);
  { RModel m; m.time = 1000; for (auto *p : {&PA, &PC, &PD}) { RExe e; e.time = 100; for (auto &r : p->regs) e.regs.insert(r); m.ex[p->path] = e; } if (vomm) { m.tree[{PA.path}] = 5; m.tree[{PA.path, PC.path}] = 3; m.tree[{PC.path}] = 3; m.tree[{PA.path, PD.path}] = 1; m.tree[{PD.path}] = 1; } const std::string nm[] = {PA.path, PC.path, PD.path}; for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) { RPair p; p.time = 50; for (int s = 0; s < 4; s++) { p.ttl[s] = 30; p.w[s][s] = 4; p.w[s][3 - s] = 4; if (s != 3 - s && (3 - s) != 3) { p.w[s][3 - s] = 2; p.w[s][3] = 2; } } p.st = 0; m.pr[{nm[i], nm[j]}] = p; } vos.put(STATE, file_of(m).text()); }
  proc_start(10, PA.path, PA.regs); args = {"-l", LOG, "-c", CONF, "-s", STATE, "-V", "4"}; if (!bg) args.push_back("-f"); vos.expect_daemon_fork = bg;
  vos.forbidden = [](const char *n) { mc_fail(fmt("unsafe-in-handler:%s", n).c_str(), "the signal handler calls %s, which is not safe at an arbitrary instruction", n); };
  coarse = mc_param("coarse", mode < 2 ? 0 : 1, 0); saves_at = dumps_at = -1; vos.point = point;
  if (mode == 1) horizon = mc_param("sleeps1", 4, 9);
  long N = atol(baseline(-1).c_str()); base.push_back(parse_state(vos.get(STATE)).canon()); for (int j = 0; j <= horizon; j++) { std::string b = baseline(j); base_saves.push_back(atoi(b.c_str())); base.push_back(b.substr(b.find('\n') + 1)); } if (N < 100) mc_error("only %ld points", N);
  // a point chosen in two digits, so that no decision is wider than a few hundred
  auto pick = [&](const char *n, long lo, long hi) { long w = hi - lo, hiw = (w + 127) / 128; long a = mc_choose(hiw, "%s, block", n), b = mc_choose(std::min(128l, w - a * 128), "%s", n); return lo + a * 128 + b; };
  if (mode == 0) { sg[0] = sigs[mc_choose(7, "signal:TERM|INT|QUIT|USR2|USR1|HUP|PIPE")]; k[0] = pick("call", 0, N); nd = 1; }
  else if (mode == 1) { static const int S5[] = {SIGTERM, SIGUSR2, SIGUSR1, SIGHUP}; atidle[0] = mc_choose(horizon, "sleep"); k[0] = 0; sg[0] = S5[mc_choose(4, "first:TERM|USR2|USR1|HUP")]; sg[1] = S5[mc_choose(4, "second:TERM|USR2|USR1|HUP")]; nd = 2; off1 = pick("call after it", 0, mc_param("window", 200, 1200)); }
  else if (mode == 3) { atidle[0] = mc_choose(horizon, "first sleep"); atidle[1] = atidle[0] + mc_choose(horizon - atidle[0], "second, sleeps later"); k[0] = k[1] = 0; sg[0] = sigs[mc_choose(6, "first:TERM|INT|QUIT|USR2|USR1|HUP")]; sg[1] = sigs[mc_choose(6, "second:TERM|INT|QUIT|USR2|USR1|HUP")]; nd = 2; }
  else { static const int S5[] = {SIGTERM, SIGUSR2, SIGUSR1, SIGHUP}; k[0] = k[1] = pick("call", 0, N); sg[0] = S5[mc_choose(4, "first:TERM|USR2|USR1|HUP")]; int o = mc_choose(mc_thorough ? 4 : 3, "second:the next|the one after|the third|the same"); sg[1] = S5[((sg[0] == SIGTERM ? 0 : sg[0] == SIGUSR2 ? 1 : sg[0] == SIGUSR1 ? 2 : 3) + 1 + o) % 4]; nd = 2; }
  vos.idle = idle; int st = run_daemon(args);
  if (!term) mc_fail("exits", "the daemon exits with status %d by itself %s", st, sofar().c_str());
  if (st) mc_fail("exit-status", "exit status %d %s", st, sofar().c_str()); check_file("exit"); 
  int left = vos.fd_desc().find(STATE) != std::string::npos; if (left) mc_fail("fd", "the state file is still open: %s", vos.fd_desc().c_str());
  mc_outcome(fmt("%d %d %d", nidle, saves(), dumps()) + parse_state(vos.get(STATE)).canon()); mc_leaf();
}
CheckDef check = {"C18", run,
  "a history of starts, stops, scans, updates, predictions and an automatic save over 50 s (both algorithms, with and without helpers): each of 7 signals before every single call the daemon makes (library calls, system calls and memory allocations) from the installation of the handlers to the end of main; two signals, one while sleeping and one at any of the next 200 calls (also inside the handler of the first); two signals at the same call (system and library calls); every two of six signals (equal ones too) at any two sleeps, in the foreground and in the background; a signal handler that calls anything unsafe is reported at once",
  "history of 80 s, all four combinations of algorithm and helpers, 1200 calls after the first signal, pairs at allocations as well, equal signals too"};
