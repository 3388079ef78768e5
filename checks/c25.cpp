#include "progs.h"
#include <sys/stat.h>
#include <fcntl.h>
// What the daemon creates is private, what it did not create it does not write through, and in the background it is detached before it works.
static const std::string TMP = std::string(STATE) + ".tmp", LOG = "/var/log/p.log", VIC = "/etc/victim", GONE = "/etc/nothing"; static InodeP vic; static std::string vicdata; static mode_t vicmode; static bool bg; static int left_, seen_; static int64_t last; static std::string hist; static size_t pos; static int lastsave; static InodeP own;
static const char *const plants[] = {"nothing", "a stale file", "a link to a file", "a link to nothing", "a hard link to a file", "a directory"};
static void plant(int k) { vos.rm(TMP); vos.links.erase(TMP); vos.dirs.erase(TMP); switch (k) { case 1: vos.put(TMP, "stale", 0100666); break; case 2: vos.links[TMP] = VIC; break; case 3: vos.links[TMP] = GONE; break; case 4: vos.files[TMP] = vic; break; case 5: vos.dirs.insert(TMP); break; } }
static void judge(const char *when) {
  mc_eval(); std::string h = hist + when; const char *H = h.c_str();
  if (vos.files[VIC] != vic || vic->data != vicdata || vic->mode != vicmode) mc_fail("foreign-file", "%s: a file the daemon did not create is changed: %zu bytes, mode %o", H, vic->data.size(), vic->mode); if (vos.has(GONE)) mc_fail("foreign-file", "%s: a file is created through a link", H);
  if (vos.files.count(STATE) && vos.files[STATE] == vic) mc_fail("foreign-file", "%s: a foreign file became the state file", H); if (vos.links.count(STATE)) mc_fail("foreign-file", "%s: the state file became a link", H);
  for (auto &f : vos.files) if (f.second->owned && (f.second->mode & 07)) mc_fail("readable-by-others", "%s: %s, created by the daemon, has mode %o", H, f.first.c_str(), f.second->mode & 07777);
  for (; pos < vos.log.size(); pos++) { auto &e = vos.log[pos]; if (e.kind == "create") { if (e.path.compare(0, 17, "/var/lib/preload/") && e.path != LOG) mc_fail("foreign-file", "%s: %s is created", H, e.path.c_str()); } if (e.kind == "chmod" && (e.a & 07)) mc_fail("readable-by-others", "%s: %s is made accessible (mode %lo)", H, e.path.c_str(), e.a); }
}
static void detached() { // before the state is read
  int fork = 0, sid = 0, wd = 0; for (auto &e : vos.log) { if (e.kind == "fork" && e.path == "daemonize") fork++; if (e.kind == "setsid") sid += fork ? 1 : 100; if (e.kind == "chdir") wd++; if ((e.kind == "open") && e.path == STATE) { if (bg && (!fork || sid != 1 || vos.cwd != "/")) mc_fail("not-detached", "%s: in the background, the state is read in the session (%d) and directory (%s) the daemon was started in", hist.c_str(), sid, vos.cwd.c_str()); if (!bg && (fork || sid || wd)) mc_fail("detached", "%s: in the foreground, it forks, leaves its session or directory", hist.c_str()); return; } }
  mc_fail("state-not-read", "%s: the state file is not read", hist.c_str());
}
static void run() {
  world_init(); all_files(); static const mode_t um[] = {022, 0, 027, 07}; int u = mc_choose(mc_param("umasks", 2, 4), "umask:022|0|027|07"); bg = mc_choose(2, "in the:foreground|background"); int st = mc_choose(3, "state file:none|readable by all|private"), lg = mc_choose(3, "log file:created|there|none"), pl = mc_choose(6, "left under the temporary name:nothing|a stale file|a link to a file|a link to nothing|a hard link to a file|a directory");
  vos.mkdirs("/home/u"); vos.mkdirs("/etc"); vos.cwd = "/home/u"; vos.umask_ = um[u]; vic = vos.put(VIC, "precious\n", 0100600); vicdata = vic->data; vicmode = vic->mode; hist = fmt("umask %o, %s, log %d, state %d, %s left: ", um[u], bg ? "background" : "foreground", lg, st, plants[pl]);
  if (st) { StateW s; s.time = 100; s.use(s.exe("/usr/bin/a", 5), s.map("/usr/bin/a", 0, 8192)); vos.put(STATE, s.text(), st == 1 ? 0100644 : 0100600); } if (lg == 1) vos.put(LOG, "old\n", 0100640); plant(pl);
  ConfB b; b.model["cycle"] = "20"; b.system["prediction_algorithm"] = (bg != (lg == 1)) ? "VOMM" : "Markov"; b.system["autosave"] = "45"; set_conf(b); proc_start(10, PA.path, PA.regs); left_ = mc_param("events", 3, 4); last = -1; pos = 0;
  vos.expect_daemon_fork = bg; std::vector<std::string> a = {"-l", lg == 2 ? "" : LOG, "-c", CONF, "-s", STATE, "-n", "0"}; if (!bg) a.push_back("-f");
  vos.idle = []() { static bool first = true; if (first) { first = false; detached(); } judge("then"); if (!left_) { if (vos.now_us != last) { last = vos.now_us; if (seen_++ < 1) return; deliver(SIGTERM); } return; } if (vos.now_us == last) return; last = vos.now_us; left_--;
    int k = mc_choose(6, "then:-|save|reload|log moved, reload|save over something|program starts"); static int pid = 20; switch (k) { case 1: hist += "save, "; deliver(SIGUSR2); break; case 2: hist += "reload, "; deliver(SIGHUP); break; case 3: hist += "log moved, "; vos.rm(LOG); deliver(SIGHUP); break; case 4: { int p = 1 + mc_choose(5, "planted:a stale file|a link to a file|a link to nothing|a hard link to a file|a directory"); hist += fmt("%s planted and saved, ", plants[p]); plant(p); deliver(SIGUSR2); break; } case 5: proc_start(pid++, PB.path, PB.regs); break; default: hist += "-, "; } };
  int status = run_daemon(a); if (status) mc_fail("exit-status", "%s: exit status %d: %s", hist.c_str(), status, vos.err.c_str()); judge("then shut down"); mc_outcome(fmt("%d %d %d %d ", bg, st, lg, vos.dirs.count(TMP) > 0) + (vos.has(STATE) ? fmt("%o %zu", vos.files[STATE]->mode, vos.get(STATE).size()) : "none")); mc_leaf();
}
CheckDef check = {"C25", run,
  "two umasks x foreground and background x state file absent, readable by all and private x log file created, present and none x 6 things left under the temporary name (nothing, stale file, links to something and nothing, hard link, directory), followed by every sequence of 3 of: save, reload, log rotation, save over one of 5 planted things, program start, none; then shutdown; modes of everything created, contents and mode of a foreign file, session and directory",
  "four umasks, sequences of 4"};
