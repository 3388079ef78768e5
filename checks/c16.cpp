#include "progs.h"
#include <cerrno>
#include <algorithm>
struct Key { const char *grp, *name, *def; std::vector<const char *> vals; int type; const char *alias; }; // type 0 integer, 1 boolean, 2 string, 3 list
static const std::vector<Key> K = {
 {"model", "cycle", "20", {"7", "600", "1"}, 0, nullptr}, {"model", "usecorrelation", "true", {"false"}, 1, nullptr}, {"model", "minsize", "2000000", {"5", "0", "2147483647"}, 0, nullptr}, {"model", "memtotal", "-10", {"11", "-300", "0"}, 0, nullptr}, {"model", "memfree", "50", {"-3", "100", "0"}, 0, nullptr}, {"model", "memcached", "0", {"44", "-1", "101"}, 0, nullptr}, {"model", "membuffers", "50", {"13", "0", "-50"}, 0, nullptr},
 {"system", "doscan", "true", {"false"}, 1, nullptr}, {"system", "dopredict", "true", {"false"}, 1, nullptr}, {"system", "autosave", "3600", {"9999", "100000", "3601"}, 0, nullptr}, {"system", "mapprefix", "", {"/usr/;!/", "!/", "/a;/b c;/d"}, 3, nullptr}, {"system", "exeprefix", "", {"!/sbin;/usr/", "/x", "!/a;!/b;/"}, 3, nullptr}, {"system", "prediction_algorithm", "VOMM", {"Markov", "VOMM"}, 2, nullptr}, {"system", "maxprocs", "30", {"4", "0", "1000"}, 0, "processes"}, {"system", "sortstrategy", "3", {"1", "0", "2"}, 0, nullptr}};
typedef std::map<std::string, std::string> Set;                               // "group.key" -> value
static Set defaults() { Set s; for (auto &k : K) s[std::string(k.grp) + "." + k.name] = k.def; return s; }
static std::string file(const std::vector<int> &choice, const std::vector<bool> &alias, int order, Set &want) { // choice: 0 absent, else value index + 1
  want = defaults(); std::string g[2]; for (size_t q = 0; q < K.size(); q++) { size_t i = order & 1 ? K.size() - 1 - q : q; if (!choice[i]) continue; auto &k = K[i]; const char *v = k.vals[(choice[i] - 1) % k.vals.size()]; want[std::string(k.grp) + "." + k.name] = v; g[k.grp[0] == 's'] += std::string(alias[i] && k.alias ? k.alias : k.name) + (order & 2 ? "=" : " = ") + v + "\n" + (order & 4 ? "# comment\n\n" : ""); }
  std::string a = g[0].empty() ? "" : "[model]\n" + g[0], b = g[1].empty() ? "" : "[system]\n" + g[1]; return order & 1 ? b + a : a + b;
}
static std::string differ(const Dump &d, const Set &w) { if (!d.ok) return "the dump is incomplete"; for (auto &x : w) { auto i = d.conf.find(x.first); if (i == d.conf.end()) return x.first + " is missing in the dump"; std::string v = i->second; if (v != x.second) return x.first + " is '" + v + "', expected '" + x.second + "'"; } return ""; }
static void expect(const Dump &d, const Set &w, const char *where) { mc_eval(); std::string e = differ(d, w); if (!e.empty()) mc_fail("configuration", "%s: %s", where, e.c_str()); }
static std::vector<std::string> bads(const Set &) { // unparsable or invalid files
  std::vector<std::string> v = {"garbage\n", "[model\ncycle=5\n", "cycle = 5\n[model]\n", "[model]\ncycle\n", "[model]\ncycle = 9\n[system]\n= 4\n", "[model]\ncycle = 9\n[system]\nmaxprocs = 5\nnonsense\n"};
  static const char *const bi[] = {"abc", "", "1.5", "99999999999", "12abc", "0x10", "-"}, *const bb[] = {"maybe", "", "2", "yes please"};
  for (auto &k : K) { std::string pre = std::string("[model]\nmemfree = 77\n[system]\nautosave = 777\n[") + k.grp + "]\n"; if (k.type == 0) for (auto x : bi) { v.push_back(pre + k.name + " = " + x + "\n"); if (k.alias) v.push_back(pre + k.alias + " = " + x + "\n"); } if (k.type == 1) for (auto x : bb) v.push_back(pre + k.name + " = " + x + "\n"); if (k.type >= 2) v.push_back(pre + k.name + " = \xff\xfe\n"); }
  return v; }
static int ph; static Set want, want2; static std::string file2; static bool isbad;
static void dump_then(std::function<void(const Dump &)> f) { static std::function<void(const Dump &)> g; g = f; ph = 0; vos.idle = []() { if (ph++ == 0) { vos.err.clear(); deliver(SIGUSR1); } else { Dump d = parse_dump(vos.err); vos.err.clear(); g(d); } }; }
static void run_ok() { int st = run_daemon(std_args()); mc_fail("exits", "the daemon exits with status %d: %s", st, vos.err.substr(0, 400).c_str()); }
static std::vector<int> one(int i, int v) { std::vector<int> c(K.size(), 0); if (i >= 0) c[i] = v; return c; }
static void run() {
  world_init(); proc_start(10, "/usr/bin/a", PA.regs); int n = K.size(); std::vector<bool> al(n, false);
  switch (mc_choose(6, "part:every subset of keys|values|start with a bad file|reloads|behaviour after reloads|helpers")) {
  case 0: { std::vector<int> c(n); int full = mc_param("subset", 12, 15); for (int i = 0; i < n; i++) { if (i >= full) { c[i] = c[i % full] ^ (i & 1); continue; } c[i] = mc_choose(2, "%s:absent|present", K[i].name); } al[13] = c[0] ^ c[9]; set_conf({}); vos.put(CONF, file(c, al, c[1] * 2 + c[2] * 4 + c[7], want)); dump_then([](const Dump &d) { expect(d, want, "at start"); mc_outcome(std::to_string(mc_hash(fmt("%d", (int)want.size()) + want["model.cycle"] + want["system.maxprocs"]))); mc_leaf(); }); run_ok(); }
  case 1: { int i = mc_choose(n, "key"), v = mc_choose(K[i].vals.size(), "value") + 1; al[13] = mc_choose(2, "name:maxprocs|processes"); int j = mc_choose(n + 1, "other key"); auto c = one(i, v); if (j < n && j != i) c[j] = mc_choose(std::min<size_t>(K[j].vals.size(), mc_param("values", 3, 3)), "other value") + 1; vos.put(CONF, file(c, al, mc_choose(8, "layout"), want)); dump_then([](const Dump &d) { expect(d, want, "at start"); std::string o; for (auto &x : want) o += x.second + ","; mc_outcome(o); mc_leaf(); }); run_ok(); }
  case 2: { // nothing is started with an invalid file; without one the defaults apply only if none is asked for
    auto B = bads({}); int k = mc_choose(B.size() + 4, "file"); std::string st0 = "PRELOAD\t0.6.4\t77\n"; vos.put(STATE, st0); if (k < (int)B.size()) vos.put(CONF, B[k]); else if (k == (int)B.size()) vos.rm(CONF); else if (k == (int)B.size() + 1) { vos.rm(CONF); vos.mkdirs(CONF); } else if (k == (int)B.size() + 2) { vos.put(CONF, "[model]\n"); vos.open_err[CONF] = EACCES; } else { auto a = std_args(); a[4] = ""; want = defaults(); dump_then([](const Dump &d) { expect(d, want, "without a file"); mc_leaf(); }); run_daemon(a); mc_fail("exits", "the daemon exits"); }
    static int went; went = 0; vos.idle = []() { mc_fail("starts-with-bad-file", "the daemon starts with an invalid configuration file"); }; int st = run_daemon(std_args(mc_choose(2, "verbosity:4|1") ? 1 : 4)); mc_eval(); if (st == 0) mc_fail("bad-file-success", "the daemon ends with success on an invalid configuration file"); if (vos.err.find_first_not_of(" \n") == std::string::npos) mc_fail("bad-file-silent", "no error is reported for an invalid configuration file"); if (vos.get(STATE) != st0) mc_fail("bad-file-state", "the state file is changed"); mc_outcome("refused " + std::to_string(k)); mc_leaf(); }
  case 3: { // sequences of reloads: after each the configuration in force is the last valid file
    auto c0 = one(mc_choose(n, "first key"), 1); vos.put(CONF, file(c0, al, 0, want)); static std::vector<std::string> B; B = bads({}); static int left; left = mc_param("reloads", 2, 3); static int nbad; nbad = mc_param("badfiles", 12, (int)B.size()); static std::string err;
    vos.idle = []() { // dump, compare, next file
      static int st = 0; int s = st++ % 3; if (s == 0) { vos.err.clear(); deliver(SIGUSR1); return; } if (s == 1) { expect(parse_dump(vos.err), want, "after a reload"); if (left-- == 0) { std::string o; for (auto &x : want) o += x.second + ","; mc_outcome(o); mc_leaf(); }
        int n = K.size(); int k = mc_choose(n + 1 + nbad + 3, "new file"); std::vector<bool> al(n, false); isbad = k > n; vos.open_err.clear(); if (k <= n) { vos.put(CONF, file(one(k < n ? k : -1, 2), al, 1, want)); } else if (k <= n + nbad) vos.put(CONF, B[(k - n - 1) * (int)B.size() / nbad]); else if (k == n + nbad + 1) vos.rm(CONF); else { vos.put(CONF, "[model]\ncycle = 3\n"); vos.open_err[CONF] = EIO; }
        vos.err.clear(); deliver(SIGHUP); return; }
      bool rep = contains(vos.err, "failed loading conf"); std::string rest = vos.err; if (isbad && !(rest.find("ail") != std::string::npos || rest.find("rror") != std::string::npos || rest.find("nvalid") != std::string::npos || rest.find("annot") != std::string::npos)) mc_fail("reload-silent", "a failed reload is not reported: %s", rest.substr(0, 300).c_str()); (void)rep; vos.err.clear(); st++; deliver(SIGUSR1); };
    run_ok(); }
  case 4: { // what the daemon does afterwards follows the configuration in force
    all_files(); vos.procs.clear(); eng.mask = M_ALL; eng.cfg.vomm = mc_choose(2, "algorithm:Markov|VOMM"); ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B"); ev_reload("markov", [](ConfB &, RCfg &c) { c.vomm = false; }); ev_reload("vomm", [](ConfB &, RCfg &c) { c.vomm = true; }); ev_reload("minsize", [](ConfB &, RCfg &c) { c.minsize = c.minsize == 1000 ? 20000 : 1000; }); ev_reload("cycle", [](ConfB &, RCfg &c) { c.cycle = c.cycle == 20 ? 7 : 20; }); ev_reload("doscan", [](ConfB &, RCfg &c) { c.doscan = !c.doscan; });
    Ev1 e; e.name = "bad-reload"; e.sig = SIGHUP; e.world = false; e.act = []() { ConfB c = eng.conf; c.model["cycle"] = "3"; c.system["prediction_algorithm"] = "Markov"; c.system["sortstrategy"] = "x"; set_conf(c); eng.pend_conf = nullptr; }; eng.events.push_back(e);
    eng.depth = mc_param("depth", 6, 7); eng.total = mc_param("events", 4, 5); eng.go(); break; }
  default: { // the number of helpers follows either name of the key
    vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); StateW w; w.time = 1000; int h = w.exe("/usr/bin/hub"); vos.put("/usr/bin/hub"); for (int i = 0; i < 6; i++) { std::string f = fmt("/usr/bin/x%d", i); vos.put(f); int e = w.exe(f); w.use(e, w.map(f, 0, 4096)); auto &k = w.mk(h, e); k.ttl[0] = 25; k.w[0][0] = 20; k.w[0][2] = 10 + i; }
    static const char *vals[] = {"0", "1", "2", "5", "6", "30"}; int v = mc_choose(7, "value:0|1|2|5|6|30|absent"); bool a = mc_choose(2, "name:maxprocs|processes"); ConfB b; b.model["usecorrelation"] = "false"; b.system["prediction_algorithm"] = "Markov"; b.system["sortstrategy"] = "1"; if (v < 6) b.system[a ? "processes" : "maxprocs"] = vals[v]; set_conf(b); vos.put(STATE, w.text()); static int M; M = v < 6 ? atoi(vals[v]) : 30;
    vos.idle = []() { auto q = prefetches(); int f = 0; for (auto &e : vos.log) f += e.kind == "fork"; mc_eval(); if (q.size() != 6) mc_fail("requests", "%zu requests", q.size()); if (f != (M ? 6 : 0)) mc_fail("processes", "%d helpers were started with a limit of %d", f, M); if (M && vos.max_children > M) mc_fail("processes", "%d helpers at a time with a limit of %d", vos.max_children, M); mc_outcome(fmt("%d %d", f, vos.max_children)); mc_leaf(); }; run_ok(); } }
}
CheckDef check = {"C16", run,
  "every subset of 12 keys (the other three tied to them) in two orders and notations, every value of every key with every other key, both names of maxprocs; 110 invalid files at start; every sequence of two reloads among 15 single-key files, an empty one, 12 invalid ones, a missing and an unreadable one; every history of 4 starts, stops and reloads (algorithm, cycle, minimum size, scanning, invalid) in 6 half-cycles against the reference model; helper limits",
  "every subset of all 15 keys; three reloads with all invalid files; 5 events in 7 half-cycles"};
