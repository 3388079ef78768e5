#include "progs.h"
static std::vector<std::string> split(const std::string &s) { std::vector<std::string> v; if (s.empty()) return v; size_t i = 0; while (i < s.size()) { size_t j = s.find(';', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
static bool accepts(const std::vector<std::string> &l, const std::string &p) { for (auto &e : l) { bool no = !e.empty() && e[0] == '!'; std::string x = no ? e.substr(1) : e; if (p.compare(0, x.size(), x) == 0) return !no; } return true; }
static std::string lng(const char *pre, size_t n) { std::string s = pre; while (s.size() < n) s += s.size() % 50 == 49 ? '/' : (char)('a' + s.size() % 26); return s; }
static std::vector<std::string> paths(const std::string &d, const std::string &o) { // files and what they count as
  return {d + "x", d + "x y", d + "x ", d + "xy", d + "x.#prelink#.AbC123", d + "x z.#prelink#.AbC123 (deleted)", d + "gone (deleted)", d + "has (deleted) inside", d + "ends(deleted)", d + "(deleted)", o + "x", o + "bin/x", "/x", "/", "relative/x", "(unreachable)/y", "/memfd:z (deleted)", "/dev/shm/q", "/SYSV00000000 (deleted)", lng(d.c_str(), 510), lng((d + "b/").c_str(), 511), lng((d + "c/").c_str(), 512), lng((d + "d/").c_str(), 513), lng((d + "e/").c_str(), 4000), d + "\xc3\xa9\xff%s\\012#", d + "tab\there", d + "x.#prelink#", "//usr/bin/x", d + "n.#prelink#.1/sub", "[vdso]", "anon_inode:[eventpoll]", d + "deep/er/x (deleted) (deleted)"}; }
static std::string norm(const std::string &e, const std::vector<std::string> &l) { if (e.size() > 511) return ""; if (e.empty() || e[0] != '/') return ""; std::string p = e; size_t k = p.find(".#prelink#."); const std::string del = " (deleted)"; if (k != std::string::npos) p.resize(k); else if (p.size() >= del.size() && p.compare(p.size() - del.size(), del.size(), del) == 0) return ""; return accepts(l, p) ? p : ""; }
static std::map<std::string, std::multiset<Region>> want; static int rounds;
static void judge() {
  SState s = parse_state(vos.get(STATE)); mc_eval(); if (!s.ok) mc_fail("state-file-malformed", "%s", s.err.c_str()); std::string o;
  for (auto &w : want) { auto i = s.exes.find(w.first); if (i == s.exes.end()) mc_fail("ignored", "%s runs and is acceptable, but it is not tracked", w.first.c_str()); if (i->second.regions != w.second) { std::string a, b; for (auto &r : i->second.regions) if (!w.second.count(r)) a += fmt(" %s+%lu:%lu", r.path.c_str(), r.off, r.len); for (auto &r : w.second) if (!i->second.regions.count(r)) b += fmt(" %s+%lu:%lu", r.path.c_str(), r.off, r.len); mc_fail("regions", "%s: unexpected:%s, missing:%s", w.first.c_str(), a.c_str(), b.c_str()); } o += fmt("%zu ", w.second.size()); }
  for (auto &e : s.exes) if (!want.count(e.first)) mc_fail("considered", "%s is tracked but is not to be considered", e.first.c_str()); for (auto &r : s.regions()) { bool u = false; for (auto &w : want) if (w.second.count(r)) u = true; if (!u) mc_fail("considered", "%s is known but is not to be considered", r.path.c_str()); }
  for (auto &e : s.exes) o += e.first + " "; mc_outcome(o); mc_leaf();
}
static const char *const ent[] = {"/usr/", "!/usr/", "/usr/bin/x", "!/usr/bin/x", "!/", "/", "!/usr/bin/x y", "!/opt/", "/usr/lib/x", "!/usr/lib/xy", "!", "!!/usr", "!/USR"};
static std::string list() { int n = mc_param("entries", 13, 13), k = mc_param("length", 3, 4); std::string s; for (int i = 0; i < k; i++) { int c = mc_choose(n + 1, "entry %d", i); if (c == n) break; s += std::string(ent[c]) + ";"; } return s; }
static void go(const std::string &xl, const std::string &ml) {
  ConfB b; b.model["cycle"] = "20"; b.model["minsize"] = "1"; b.system["prediction_algorithm"] = "Markov"; if (!xl.empty()) b.system["exeprefix"] = xl; if (!ml.empty()) b.system["mapprefix"] = ml; set_conf(b); rounds = 0; vos.idle = []() { if (rounds++ == 1) deliver(SIGTERM); }; int st = run_daemon(std_args()); if (st) mc_fail("exit-status", "exit status %d", st); judge();
}
static void run() {
  world_init(); vos.mkdirs("/usr/lib"); int part = mc_choose(4, "part:programs|mapped files|reload and prelink while running|long lists");
  if (part == 0) { // many programs at once, each mapping one acceptable file; which are considered?
    std::string l = list(); auto L = split(l); int pid = 10; Region lib{"/lib/l.so", 0, 4096}; for (auto &p : paths("/usr/bin/", "/opt/")) { proc_start(pid++, p, {lib}); std::string n = norm(p, L); if (!n.empty()) want[n] = {lib}; } go(l, ""); }
  if (part == 1) { std::string l = list(); auto L = split(l); std::string t; std::multiset<Region> w; int i = 0, f = mc_choose(mc_param("formats", 2, 4), "format:usual|large addresses|private and unmapped lines|odd devices"); unsigned long a = f == 1 ? 0x7fff00000000ul : 0x400000, off = 0;
    for (auto &p : paths("/usr/lib/", "/opt/")) { unsigned long len = 4096 * ++i; off = f == 1 ? i * 0x100000000ul + 4096 : i % 3 * 4096; static const char *pm[] = {"r-xp", "r--p", "rw-s", "---p"}; t += f == 3 ? fmt("%lx-%lx %s %lx 103:0a 18446744073709551615 ", a, a + len, pm[i % 4], off) + p + "\n" : map_line(a, len, off, p, pm[i % 4]); if (f == 2) t += fmt("%lx-%lx rw-p 00000000 00:00 0 \n", a + len, a + len + 4096) + map_line(a + len + 4096, 4096, 0, "[heap]"); a += len + 0x20000; std::string n = norm(p, L); if (!n.empty()) w.insert({n, off, len}); }
    proc_start(10, "/usr/bin/x", {}); vos.procs[0].maps = t; if (!w.empty()) want["/usr/bin/x"] = w; go("", l); }
  if (part == 3) { // an entry of interest, and two of them, in different places of a list of many others
    int n = mc_choose(4, "fillers:4|7|12|60"); static const int nf[] = {4, 7, 12, 60}; n = nf[n]; int a = mc_choose(4, "at:front|after one|middle|end"), e = mc_choose(13, "entry"), e2 = mc_choose(mc_param("second", 5, 14), "last entry:none|or one"); int at = a == 0 ? 0 : a == 1 ? 1 : a == 2 ? n / 2 : n; std::string l; bool sys = mc_choose(2, "list:programs|mapped files"); int fk = mc_choose(2, "fillers:accepted|rejected");
    for (int i = 0; i <= n; i++) { if (i == at) l += std::string(ent[e]) + ";"; if (i < n) l += fmt("%s/zz%d/", fk ? "!" : "", i) + ";"; } if (e2) l += std::string(ent[e2 - 1]) + ";"; auto L = split(l); int pid = 10; std::multiset<Region> w; std::string t; unsigned long addr = 0x400000; Region lib{"/lib/l.so", 0, 4096};
    for (auto &p : {"/usr/bin/x", "/usr/bin/x y", "/usr/bin/zz", "/usr/lib/x", "/usr/lib/xy", "/usr/lib/l", "/opt/x", "/opt/y", "/zz0/a", "/zz3/a", "/bin/x"}) { if (!sys) { proc_start(pid++, p, {lib}); if (accepts(L, p)) want[p] = {lib}; } else { t += map_line(addr, 4096, 0, p); addr += 0x20000; if (accepts(L, p)) w.insert({p, 0, 4096}); } }
    if (sys) { proc_start(10, "/home/p", {}); vos.procs[0].maps = t; if (!w.empty()) want["/home/p"] = w; go("", l); } else go(l, ""); }
  // the filters change and files are renamed while programs run
  all_files(); eng.mask = M_EXE | M_MAP; static int cur; cur = 0; ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B"); static const char *fx[] = {"", "!/usr/bin/a;", "/usr/bin/a;!/;"}, *fm[] = {"", "!/usr/lib/libc;", "/usr/lib/;!/usr/bin/b;"};
  for (int i = 0; i < 3; i++) ev_reload(fmt("reload%d", i).c_str(), [i](ConfB &c, RCfg &) { c.system["exeprefix"] = fx[i]; c.system["mapprefix"] = fm[i]; auto xl = split(fx[i]), ml = split(fm[i]); eng.w.accept_exe = [xl](const std::string &p) { return accepts(xl, p); }; eng.w.accept_map = [ml](const std::string &p) { return accepts(ml, p); }; });
  auto ren = [](const char *name, const std::string &from, const std::string &to) { ev_do(name, [=]() { for (auto &q : eng.w.procs) if (q.exe == from) return true; return false; }, [=]() { for (auto &q : eng.w.procs) if (q.exe == from) q.exe = to; }); };
  ren("prelink-A", PA.path, PA.path + ".#prelink#.X1 (deleted)"); ren("replace-B", PB.path, PB.path + " (deleted)"); ev_sig(SIGUSR2, "save"); eng.depth = mc_param("depth", 6, 7); eng.total = mc_param("events", 5, 6); eng.cfg.vomm = false; eng.go();
}
CheckDef check = {"C15", run,
  "32 paths (spaces, deleted, prelinked, relative, special, 510 to 4000 characters) as programs and as mapped files against every list of up to 3 of 13 prefixes, two formats of the maps file; lists of 5 to 62 entries with each of the 13 in 4 places and 5 last ones; every history of up to 5 starts, stops, prelink renames, replacements, saves and reloads to 3 other filters in 6 half-cycles",
  "lists of up to 4 of 13 prefixes, four formats; long lists with 13 last ones; 6 events in 7 half-cycles"};
