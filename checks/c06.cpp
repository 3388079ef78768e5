#include "progs.h"
static void histories() {
  all_files(); eng.mask = M_EXE | M_MAP; eng.cfg.vomm = mc_choose(2, "algorithm:Markov|VOMM");
  ev_toggle(PA, 10, "A"); ev_toggle(PA, 20, "A'"); ev_exec(10, PA, PB, "A-execs-B"); ev_toggle(PS, 30, "small");
  ev_do("small-grows", []() { auto *q = eng.w.proc(30); return q && q->regs.size() == 1; }, []() { for (auto &q : eng.w.procs) if (q.pid == 30) q.regs.push_back({"/usr/lib/libb.so", 4096, 12288}); });
  ev_delete(PA, "delete-A"); ev_replace(PA, "replace-A");
  ev_do("pid-reused-by-B", []() { return eng.w.proc(10) != nullptr; }, []() { for (auto &q : eng.w.procs) if (q.pid == 10) { q.exe = PB.path; q.regs = PB.regs; } });
  ev_sig(SIGUSR2, "save"); ev_restart("restart");
  eng.max_restarts = 1; eng.downtime = mc_thorough; eng.depth = mc_param("depth", 5, 6); eng.perslot = mc_param("perslot", 2, 2); eng.total = mc_param("events", 4, 5);
  eng.go();
}
// one population of processes, every subset of a menu of kinds, sizes around the minimum
static void population() {
  static const long mins[] = {0, 1, 4096, 2000000}; long min = mins[mc_choose(4, "minsize:0|1|4096|2000000")]; eng.cfg.minsize = min; eng.mask = M_EXE | M_MAP | M_ACC | M_TIME;
  auto prog = [&](const char *path, std::vector<Region> r, int pid) { prog_file({path, r}); eng.w.procs.push_back({pid, path, r}); };
  int which = mc_choose(3, "part:sizes|kinds|pids");
  if (which == 0) {
    unsigned long a = mc_choose(8, "size:min-1|min|min+1|half+half|half+half-1|4 GiB|2 GiB+2 GiB|1 TiB and some"), b = mc_choose(3, "second:none|same program|other program with the same region");
    unsigned long m = min; std::vector<Region> r; if (a == 0) r = {{"/usr/bin/x", 0, m ? m - 1 : 0}}; else if (a == 1) r = {{"/usr/bin/x", 0, m}}; else if (a == 2) r = {{"/usr/bin/x", 0, m + 1}}; else if (a == 5) r = {{"/usr/bin/x", 0, 1ul << 32}}; else if (a == 6) r = {{"/usr/bin/x", 0, 1ul << 31}, {"/usr/lib/y", 0, 1ul << 31}}; else if (a == 7) r = {{"/usr/bin/x", 1ul << 33, (1ul << 40) + 1}}; else if (a == 3) r = {{"/usr/bin/x", 0, m / 2}, {"/usr/lib/y", 0, m - m / 2}}; else r = {{"/usr/bin/x", 0, m / 2}, {"/usr/lib/y", 4096, m ? m - m / 2 - 1 : 0}};
    std::vector<Region> q; for (auto &x : r) if (x.len) q.push_back(x); prog("/usr/bin/x", q, 77); if (b == 1) prog("/usr/bin/x", q, 78); if (b == 2) prog("/usr/bin/y", q, 79);
    if (mc_choose(2, "rejected-mappings:no|yes")) for (auto &p : eng.w.procs) p.regs.push_back({"/usr/lib/gone.so (deleted)", 0, 1000000});
  } else if (which == 1) {
    int k = mc_choose(512, "kinds"); 
    if (k & 1) prog("/usr/bin/twice", {{"/usr/bin/twice", 0, 4096}, {"/usr/bin/twice", 0, 4096}, {"/usr/lib/z", 0, 2000000}}, 50);       // one region mapped at two addresses
    if (k & 2) prog("/usr/bin/anon", {}, 51);                                                                                        // maps nothing
    if (k & 4) { prog("/usr/bin/gone (deleted)", {{"/usr/bin/gone (deleted)", 0, 4000000}}, 52); }
    if (k & 8) { prog("/usr/sbin/preload", {{"/usr/sbin/preload", 0, 4000000}}, vos.selfpid); }                                           // the daemon itself
    if (k & 16) prog("/usr/bin/pre.#prelink#.XyZ (deleted)", {{"/usr/bin/pre.#prelink#.XyZ (deleted)", 0, 4000000}}, 53);
    if (k & 32) prog("/usr/bin/with space", {{"/usr/bin/with space", 0, 4000000}, {"/usr/lib/with  two spaces.so", 0, 4096}}, 54);
    if (k & 64) prog("relative", {{"/usr/lib/rel.so", 0, 4000000}}, 55);
    if (k & 256) { std::vector<Region> r; for (int i = 0; i < 300; i++) r.push_back({i % 3 ? fmt("/usr/lib/many/library-with-a-long-name-number-%d.so.1.2.3", i / 3) : "/usr/bin/many", (unsigned long)i * 8192, 8192}); prog("/usr/bin/many", r, 57); }
    if (k & 128) prog("/usr/bin/plain", {{"/usr/bin/plain", 0, 4000000}, {"/usr/bin/plain", 4000768, 4096}, {"/usr/bin/plain", 4004864, 8192}}, 56);
  } else {
    static const int pids[] = {1, 2, 9, 10, 99, 4241, 4243, 32768, 99999, 4194303}; int a = mc_choose(10, "pid"), b = mc_choose(10, "pid2"); 
    prog("/usr/bin/p", {{"/usr/bin/p", 0, 4000000}}, pids[a]); if (a != b) prog("/usr/bin/q", {{"/usr/bin/q", 0, 4000000}}, pids[b]);
  }
  eng.settle = 2; eng.depth = 2; eng.events.clear(); eng.go();
}
// a process vanishes, or can no longer be examined, at any call of the first scan and update
static void vanishing() {
  all_files(); static int how, nth, n; static bool gone; n = 0; gone = false;
  how = mc_choose(4, "process:vanishes|vanishes, number reused by B|exe unreadable|maps unreadable"); nth = mc_choose(40, "at call");
  eng.w.procs.push_back({10, PA.path, PA.regs}); eng.w.procs.push_back({11, PB.path, PB.regs});
  vos.point = [](const char *c) {
    static const char *const k[] = {"readlink", "fopen", "fopen64", "open", "open64", "openat", "readdir", "readdir64", "read", "close", "opendir"}; bool hit = false; for (auto x : k) hit |= !strcmp(c, x);
    if (gone || mc_in_probe() || !hit || n++ != nth) return; gone = true;
    for (size_t i = 0; i < vos.procs.size(); i++) if (vos.procs[i].pid == 10) { VProc &p = vos.procs[i]; if (how == 0) vos.procs.erase(vos.procs.begin() + i); else if (how == 1) { p.exe = PB.path; p.maps = maps_text(PB.regs); } else if (how == 2) p.exe_err = EACCES; else p.maps_err = EACCES; break; }
  };
  eng.compare = false; eng.interior = false; eng.depth = 1; eng.settle = 2;
  eng.at_observe = []() {
    SState s; if (probe_state(s)) return; Dump d; if (probe_dump(d)) return; mc_eval(2);
    if (!s.exes.count(PB.path)) mc_fail("other-process-lost", "a vanished process made another program be missed");
    for (auto &e : s.exes) { std::multiset<Region> want; for (auto &r : e.first == PA.path ? PA.regs : PB.regs) want.insert(r); if (e.second.regions != want) mc_fail("partial-program", "program %s was tracked with %zu regions instead of %zu when its process vanished", e.first.c_str(), e.second.regions.size(), want.size()); }
    for (auto &r : s.regions()) { bool used = false; for (auto &e : s.exes) if (e.second.regions.count(r)) used = true; if (!used) mc_fail("stray-region", "region of %s left behind by a vanished process", r.path.c_str()); }
    if (d.running != 1 + (s.exes.count(PA.path) && how == 3)) if (gone) mc_fail("running-count", "%ld programs counted as running", d.running);
    mc_outcome(s.canon()); };
  eng.go();
}
static void run() { world_init(); int p = mc_choose(3, "part:histories|population|vanishing"); if (p == 0) histories(); else if (p == 1) population(); else vanishing(); }
CheckDef check = {"C06", run,
  "every history of up to 4 events (start, stop, second process, exec, pid reuse, delete, replace, growth, save, restart) in 5 half-cycles, up to two per half-cycle, both algorithms; every population of 9 kinds of processes (up to 300 regions of up to 1 TiB), sizes around the minimum, process numbers; a process vanishing at each of 40 calls of the first scan and update",
  "every history of up to 5 events in 6 half-cycles, two per half-cycle, and during downtime; populations and vanishing points as in quick"};
