#include "progs.h"
#include <cerrno>
// A pattern of activities, one per half cycle, is repeated; at the end of each repetition the daemon must hold no more than in the repetitions before.
static std::vector<int> pat; static int reps, pid_, done_, at; static int64_t last = -1; static RCfg cur; static bool battery;
struct Lv { long blocks, bytes; int fds, kids, maps, files; }; static std::vector<Lv> lv; static int failing, hfail;
static ProgDef PX{"/usr/bin/xx", {{"/usr/bin/xx", 0, 8192}, {"/usr/lib/libc.so", 0, 4096}, {"/usr/lib/libc.so", 0, 8192}, {"/usr/lib/libxx.so", 0, 4096}}};
struct Act { const char *name; std::function<void()> f; };
static void tog(const ProgDef &p) { for (size_t i = 0; i < vos.procs.size(); i++) if (vos.procs[i].exe.compare(0, p.path.size(), p.path) == 0) { vos.procs.erase(vos.procs.begin() + i); return; } if (!vos.has(p.path)) prog_file(p); proc_start(pid_++, p.path, p.regs); }
static void conf(bool vomm, const char *bad = nullptr) { ConfB c = eng.conf; c.system["prediction_algorithm"] = vomm ? "VOMM" : "Markov"; c.system["exeprefix"] = "/usr/bin/;!/sbin;"; vos.put(CONF, bad ? c.text() + bad : c.text()); deliver(SIGHUP); }
static std::vector<Act> acts = {
  {"-", []() {}}, {"A", []() { tog(PA); }}, {"B", []() { tog(PB); }},
  {"delete-A", []() { if (vos.has(PA.path)) { vos.rm(PA.path); for (auto &q : vos.procs) if (q.exe == PA.path) q.exe += " (deleted)"; } else prog_file(PA); }},
  {"save", []() { deliver(SIGUSR2); }}, {"cycle-X", []() { static int k; int i = k++ % 4; if (i == 0) { prog_file(PX); proc_start(pid_++, PX.path, PX.regs); } if (i == 1) { for (size_t q = 0; q < vos.procs.size(); q++) if (vos.procs[q].exe == PX.path) { vos.procs.erase(vos.procs.begin() + q); break; } vos.rm(PX.path); } if (i == 2) deliver(SIGUSR2); }}, {"dump", []() { deliver(SIGUSR1); }},
  {"reload", []() { conf(cur.vomm); }}, {"switch", []() { cur.vomm = !cur.vomm; conf(cur.vomm); }},
  {"reload-bad", []() { static const char *b[] = {"garbage\n", "sortstrategy = abc\n", "memfree = maybe\n[x]\nmapprefix = \\q;\n"}; conf(cur.vomm, b[hfail++ % 3]); }},
  {"reload-missing", []() { vos.rm(CONF); deliver(SIGHUP); }},
  {"save-fails", []() { failing = 1; deliver(SIGUSR2); }},
  {"prefetch-fails", []() { failing = failing == 2 ? 0 : 2; }},
  {"battery", []() { battery = !battery; vos.put("/sys/class/power_supply/BAT0/status", battery ? "Discharging\n" : "Full\n"); }},
  {"small-program", []() { tog(PS); }}, {"C-execs", []() { tog(PC); for (auto &q : vos.procs) if (q.exe == PC.path) { q.exe = PD.path; q.maps = maps_text(PD.regs); } }}, {"dying-process", []() { for (size_t i = 0; i < vos.procs.size(); i++) if (vos.procs[i].exe == "/usr/bin/f") { vos.procs.erase(vos.procs.begin() + i); return; } vos.put("/usr/bin/f", "x", 0100755); proc_start(pid_++, "/usr/bin/f", PB.regs); }}, {"log-moved", []() { vos.rm("/var/log/p.log"); deliver(SIGHUP); }}, {"replace-B", []() { for (auto &q : vos.procs) if (q.exe == PB.path) q.exe += " (deleted)"; vos.put(PB.path, "new", 0100755); }},
};
static void idle() {
  if (vos.now_us == last) return; last = vos.now_us; if (failing == 1) failing = 0; vos.log.clear(); vos.err.clear(); { auto i = vos.files.find("/var/log/p.log"); if (i != vos.files.end()) i->second->data.clear(); }
  if (!vos.account) vos.account = true;
  if (at == (int)pat.size()) { at = 0; if (done_++ & 1) { lv.push_back({vos.live_blocks, vos.live_bytes, vos.open_fds(), (int)vos.zombies.size(), (int)vos.maps.size(), (int)vos.files.size()}); mc_trans(); mc_note("after %d repetitions: %ld blocks, %ld bytes, %d descriptors", done_, vos.live_blocks, vos.live_bytes, vos.open_fds());
    if ((int)lv.size() == reps) { mc_eval(); auto mx = [](int from, int to, auto f) { long m = -1e18; for (int i = from; i < to; i++) m = std::max(m, (long)f(lv[i])); return m; }; int w = reps - 12, h = reps - 6; // the time to settle, then two windows
      auto cmp = [&](const char *what, auto f) { long a = mx(w, h, f), b = mx(h, reps, f); if (b > a) { std::string s; for (auto &l : lv) s += fmt(" %ld", (long)f(l)); mc_fail(fmt("growth:%s", what).c_str(), "%s grow with every repetition:%s", what, s.c_str()); } };
      cmp("descriptors", [](const Lv &l) { return l.fds; }); cmp("processes", [](const Lv &l) { return l.kids; }); cmp("mappings", [](const Lv &l) { return l.maps; }); cmp("files", [](const Lv &l) { return l.files; }); cmp("allocations", [](const Lv &l) { return l.blocks; }); cmp("bytes", [](const Lv &l) { return l.bytes; });
      mc_outcome(fmt("%ld %ld %d", lv.back().blocks, lv.back().bytes, lv.back().fds)); mc_state(fmt("%ld %ld", lv.back().blocks, lv.back().bytes)); mc_leaf(); } } }
  acts[pat[at++]].f();
}
static void run() {
  world_init(); all_files(); vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); vos.ops_limit = 4000000;
  int al = mc_choose(2, "algorithm:Markov, no helpers|VOMM, two helpers, block order"); cur.vomm = al; reps = mc_param("reps", 24, 28); eng.conf.model["cycle"] = "20"; eng.conf.model["minsize"] = "1000"; eng.conf.system["prediction_algorithm"] = al ? "VOMM" : "Markov"; eng.conf.system["maxprocs"] = al ? "2" : "0"; eng.conf.system["sortstrategy"] = al ? "3" : "0"; eng.conf.system["autosave"] = "100000"; set_conf(eng.conf);
  std::string l = "activity:"; for (auto &a : acts) l += (l.back() == ':' ? "" : "|") + std::string(a.name); int n = mc_param("length", 3, 4); for (int i = 0; i < n; i++) { int k = mc_choose(acts.size() + (i > 0), "%s|end", l.c_str()); if (k == (int)acts.size()) break; pat.push_back(k); }
  pid_ = 10; proc_start(pid_++, PD.path, PD.regs);
  vos.fault = [](const FaultReq &r) { FaultAns a; std::string o = r.op; static bool second; if (o == "open" && r.path.compare(0, 6, "/proc/") == 0 && contains(r.path, "/maps")) { int p = atoi(r.path.c_str() + 6); for (auto &q : vos.procs) if (q.pid == p && q.exe == "/usr/bin/f" && !(second = !second)) a.err = ESRCH; } if (failing == 1 && (o == "write" || o == "fsync") && contains(r.path, "preload.state")) a.err = ENOSPC; if (failing == 2 && (o == "readahead" || o == "fork")) a.err = o == "fork" ? EAGAIN : EIO; return a; };
  vos.idle = idle; run_daemon({"-f", "-l", "/var/log/p.log", "-c", CONF, "-s", STATE, "-V", "4"}); mc_fail("exits", "the daemon exits with %d", vos.exit_status);
}
CheckDef check = {"C21", run,
  "every pattern of up to 3 of 19 activities (start, stop, exec, delete, a program that comes, goes and is forgotten, replace, small program, a process that dies while its maps are read, save, failing save, failing prefetch, dump, reloads that succeed, fail, find no file or switch the algorithm, log rotation, battery), one per half-cycle, repeated 48 times with new process numbers, both algorithms; allocations, bytes, descriptors, mappings, children and files in the last twelve repetitions must not exceed those in the twelve before",
  "patterns of up to 4 activities repeated 56 times"};
