#include "progs.h"
// a program with the given path and one library runs, is learned, saved, loaded and saved again
static void one(const std::string &exe, const std::string &map, const std::string &lib) {
  vos.put(exe, "elf", 0100755); eng.w.procs.push_back({10, exe, {{map, 0, 8192}, {lib, 4096, 4096}}}); eng.w.procs.push_back({11, PB.path, PB.regs}); prog_file(PB);
  ev_toggle(PB, 11, "B"); ev_restart("restart"); eng.max_restarts = 2; eng.depth = 4; eng.perslot = 1; eng.total = 2; eng.gate = []() { return eng.slots == 2 || eng.slots == 3; }; eng.interior = false;
  eng.go();
}
static std::string rep(int n, char c) { return std::string(n > 0 ? n : 0, c); }
static void bytes() {
  int b = mc_choose(254, "byte") + 1; int pos = mc_choose(4, "position:first|middle|last|twice, with an escape sequence"); if (b >= '/') b++; std::string n = pos == 0 ? std::string(1, (char)b) + "x" : pos == 1 ? std::string("x") + (char)b + "y" : pos == 2 ? std::string("x") + (char)b : std::string("%41") + (char)b + (char)b;
  std::string m = n; if (b == '\n') { m = ""; for (char c : n) m += c == '\n' ? std::string("\\012") : std::string(1, c); }    // the kernel escapes newlines in maps only
  one("/usr/bin/" + n, "/usr/bin/" + m, "/usr/lib/dir" + m + "/lib" + m + ".so");
}
static void lengths() {
  static const int len[] = {2, 3, 100, 170, 255, 256, 300, 400, 500, 507, 508, 509, 510, 511, 512, 513, 600, 1000, 4000}; int L = len[mc_choose(19, "length")], which = mc_choose(2, "long:program|library"); static const char ch[] = {'a', (char)0xe9, '%', ' '}; char c = ch[mc_choose(4, "characters:plain|escaped|percent|space")];
  std::string p; if (L < 4) p = "/" + rep(L - 1, c); else { p = "/"; while ((int)p.size() < L) p += (p.size() % 100 == 99) ? '/' : c; if (p.back() == '/' || p.back() == ' ') p.back() = 'z'; }
  if (which == 0) one(p, "/usr/lib/own.so", "/usr/lib/libx.so"); else one("/usr/bin/x", "/usr/bin/x", p);
}
// every field of the state file, at the ends of its range: loaded, kept over two more daemons
static void fields() {
  StateW w; w.time = 1000; int a = w.exe(PA.path, 700), b = w.exe(PB.path, 500), c = w.exe(PC.path, 0); int ma = w.map(PA.path, 0, 8192), ml = w.map("/usr/lib/libc.so", 0, 4096), mb = w.map(PB.path, 0, 4096); w.use(a, ma); w.use(a, ml); w.use(b, ml); w.use(b, mb); w.use(c, ml); all_files();
  w.mk(a, b); w.mk(a, c); w.mk(c, b); w.nodes = {{1, a, 3, 0}, {2, b, 3, 1}, {3, c, 3, 2}, {4, a, 3, 3}, {5, b, 3, 4}};
  static const double tv[] = {0, 1, 0.1, 12.3456, 123456, 1e-7, 2.5e9, 1.0 / 3}; static const int wv[] = {0, 1, 7, 65536, 2147483647}; static const long long lv[] = {0, 1, 65535, 1000001, 2000000000};
  int f = mc_choose(10, "field:region range|program time|pair time|residence|count|launches|model time|numbering|pair order|large model");
  if (f == 0) { static const unsigned long ov[] = {0, 4096, 1ul << 31, 1ul << 32, (1ul << 40) + 4096, 1ul << 62}; w.maps[1].off = ov[mc_choose(6, "offset")]; static const unsigned long nv[] = {1, 4095, 4096, 1ul << 31, (1ul << 32) + 1, 1ul << 40}; w.maps[1].len = nv[mc_choose(6, "length")]; }
  if (f == 1) { w.exes[mc_choose(3, "program")].time = lv[mc_choose(5, "time")]; w.time = 2000000000; }
  if (f == 2) { w.time = 2000000000; for (auto &e : w.exes) e.time = 2000000000; w.mks[mc_choose(3, "pair")].time = lv[mc_choose(5, "time")]; }
  if (f == 3) { int p = mc_choose(3, "pair"); for (int i = 0; i < 4; i++) w.mks[p].w[i][(i + 1) % 4] = w.mks[p].w[i][i] = 1; w.mks[p].ttl[mc_choose(4, "combination")] = tv[mc_choose(8, "mean")]; }
  if (f == 4) { int p = mc_choose(3, "pair"), i = mc_choose(4, "from"), j = mc_choose(4, "to"); w.mks[p].w[i][j] = wv[mc_choose(5, "count")]; w.mks[p].ttl[i] = 5; }
  if (f == 5) { int n = mc_choose(5, "node"); w.nodes[n].count = wv[mc_choose(5, "count")]; }
  if (f == 6) w.time = lv[mc_choose(5, "time")], w.exes[0].time = w.exes[1].time = 0;
  if (f == 7) { long long base = std::vector<long long>{2, 1000, 2147483646, 3000000000ll, 1ll << 60}[mc_choose(5, "base")]; int rev = mc_choose(2, "order"); for (auto &m : w.maps) m.seq = rev ? base * 2 - m.seq : base + m.seq; for (auto &e : w.exes) e.seq = rev ? base * 2 - e.seq : base + e.seq; }
  if (f == 8) { int k = mc_choose(8, "order"); for (int i = 0; i < 3; i++) { w.mks[i].w[1][0] = 3; w.mks[i].w[2][3] = 4; w.mks[i].w[0][2] = 5; w.mks[i].ttl[1] = 9; w.mks[i].ttl[2] = 2; if (k >> i & 1) std::swap(w.mks[i].a, w.mks[i].b); } }
  if (f == 9) { // many records of each kind, references all over
    static const int np[] = {3, 40, 300}, nr[] = {10, 300, 1200}, nn[] = {5, 300, 1200}; int P = np[mc_choose(3, "programs:3|40|300")], R = nr[mc_choose(3, "regions:10|300|1200")], N = nn[mc_choose(3, "contexts:5|300|1200")]; w = StateW(); w.time = 1001;
    for (int i = 0; i < P; i++) { std::string p = fmt("/opt/p%d", i); vos.put(p, "elf", 0100755); w.exe(p, i + 1); } for (int i = 0; i < R; i++) w.map(fmt("/opt/l%d.so", i), i * 4096ul, 4096 + i); for (int i = 0; i < P; i++) w.use(i + 1, i * 7 % R + 1); for (int i = 0; i < R; i++) w.use(i * 13 % P + 1, i + 1);
    for (int i = 0; i < P; i++) for (int j = i + 1; j < P; j++) if (P <= 40 || (i * 31 + j) % 40 == 0) { auto &m = w.mk(i + 1, j + 1); m.w[1][0] = i + 1; m.w[1][1] = i + j; m.w[3][2] = j; m.ttl[1] = i + 2.5; }
    // contexts: a complete tree in breadth-first order, every context followed by up to min(P, 5) programs
    std::vector<std::pair<int, int>> q = {{0, 0}}; int id = 0, F = std::min(P, 40); for (size_t i = 0; i < q.size() && id < N; i++) if (q[i].second < 5) for (int c = 0; c < F && id < N; c++) { w.nodes.push_back({++id, (c + (int)i) % P + 1, c + id % 7, q[i].first}); q.push_back({id, q[i].second + 1}); }
  }
  std::string t = w.text();
  if (f == 7) { // references follow the numbers
    std::string s = fmt("PRELOAD\t0.6.4\t%lld\n", w.time); for (auto &m : w.maps) s += fmt("MAP\t%lld\t0\t%lu\t%lu\t-1\t", m.seq, m.off, m.len) + uri(m.path) + "\n"; for (auto &e : w.exes) s += fmt("EXE\t%lld\t0\t%lld\t-1\t", e.seq, e.time) + uri(e.path) + "\n"; for (auto &x : w.exemaps) s += fmt("EXEMAP\t%lld\t%lld\t1\n", w.exes[x.first - 1].seq, w.maps[x.second - 1].seq); for (auto &m : w.mks) s += fmt("MARKOV\t%lld\t%lld\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\n", w.exes[m.a - 1].seq, w.exes[m.b - 1].seq); for (auto &n : w.nodes) s += fmt("VOMMNODE\t%d\t%lld\t%d\t%d\n", n.id, w.exes[n.exe - 1].seq, n.count, n.parent); t = s; }
  vos.put(STATE, t); set_conf(ConfB{{{"cycle", "20"}}, {{"prediction_algorithm", mc_choose(2, "algorithm:Markov|VOMM") ? "VOMM" : "Markov"}}});
  SState s0 = parse_state(t); if (!s0.ok) mc_error("own state file: %s", s0.err.c_str()); s0.time = 0; std::string want = s0.canon(); long long t0 = w.time; static int cyc; static bool usr2; usr2 = mc_choose(2, "saved by:shutdown|SIGUSR2");
  for (int life = 0; life < 3; life++) {
    cyc = 0; static int sent; sent = 0; vos.idle = []() { if (cyc++ < 2) return; if (usr2 && sent == 0) { sent = 1; deliver(SIGUSR2); return; } if (sent < 2) { sent = 2; deliver(SIGTERM); } }; int st = run_daemon(std_args()); if (st) mc_fail("exit-status", "exit status %d", st); 
    std::string x = vos.get(STATE); SState s = parse_state(x); mc_eval(); if (!s.ok) mc_fail("state-file-malformed", "%s", s.err.c_str()); if (x == t) mc_fail("not-saved", "the state was not saved"); 
    long long tt = s.time; s.time = 0; if (s.canon() != want) { mc_note("before:\n%s\nafter:\n%s", want.c_str(), s.canon().c_str()); mc_fail("restart-changes-model", "restart %d changed the loaded model", life + 1); } if (tt != t0 + 30) mc_fail("model-time", "model time went from %lld to %lld though 30 seconds were modelled", t0, tt); t0 = tt; t = x;
    // a line of any record must not have been dropped: counted
    mc_state(s.canon()); vos.now_us += 5000000000ll; }
  mc_outcome(want);
  mc_leaf();
}
static void histories() {
  all_files(); eng.cfg.vomm = mc_choose(2, "algorithm:Markov|VOMM"); ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B"); ev_toggle(PC, 12, "C"); ev_toggle(PS, 13, "small"); ev_delete(PB, "delete-B"); ev_sig(SIGUSR2, "save"); ev_restart("restart"); ev_reload("switch", [](ConfB &, RCfg &c) { c.vomm = !c.vomm; });
  eng.events.pop_back(); eng.max_restarts = mc_param("restarts", 2, 3); eng.downtime = true; eng.depth = mc_param("depth", 5, 6); eng.perslot = 1; eng.total = mc_param("events", 4, 6); eng.interior = mc_thorough; eng.go();
}
// the sequence model survives a period under the other algorithm and any number of restarts
static void other_algorithm() {
  all_files(); StateW w; w.time = 100; int a = w.exe(PA.path), b = w.exe(PB.path); for (auto &r : PA.regs) w.use(a, w.map(r.path, r.off, r.len)); for (auto &r : PB.regs) w.use(b, w.map(r.path, r.off, r.len)); w.mk(a, b); 
  int shape = mc_choose(64, "tree"); int id = 0; int parent[2] = {0, 0}; for (int i = 0; i < 2; i++) if (shape >> i & 1) { w.nodes.push_back({++id, i ? b : a, 2 + i, 0}); parent[i] = id; } int l2[4] = {}; for (int i = 0; i < 4; i++) if ((shape >> (2 + i) & 1) && parent[i / 2]) { w.nodes.push_back({++id, i % 2 ? b : a, 5 + i, parent[i / 2]}); l2[i] = id; }
  for (int i = 0; i < 4; i++) if (l2[i]) w.nodes.push_back({++id, i % 2 ? a : b, 9 + i, l2[i]});
  vos.put(STATE, w.text()); auto want = parse_state(w.text()).tree(); int alg = 0; bool empty = want.empty();
  for (int life = 0; life < 3; life++) { alg = mc_choose(2, "algorithm:Markov|VOMM"); set_conf(ConfB{{}, {{"prediction_algorithm", alg ? "VOMM" : "Markov"}}}); static int cyc; cyc = 0; vos.idle = []() { if (cyc++ >= 2) deliver(SIGTERM); }; if (run_daemon(std_args())) mc_fail("exit-status", "failure exit"); SState s = parse_state(vos.get(STATE)); mc_eval(); if (!s.ok) mc_fail("state-file-malformed", "%s", s.err.c_str());
    auto got = s.tree(); if (empty) for (auto i = got.begin(); i != got.end();) { if (i->second == 0 || i->first.size() == 1) i = got.erase(i); else ++i; } // started from the pair statistics: not specified here
    if (got != want) mc_fail("sequences-changed", "restart %d changed the learned launch sequences: %zu contexts instead of %zu", life + 1, got.size(), want.size()); mc_outcome(s.canon()); }
  mc_leaf();
}
static void run() { world_init(); switch (mc_choose(5, "part:bytes|lengths|fields|histories|algorithms")) { case 0: bytes(); break; case 1: lengths(); break; case 2: fields(); break; case 3: histories(); break; default: other_algorithm(); } }
CheckDef check = {"C01", run,
  "paths with every byte value in 4 positions and 19 lengths up to 4000 in 4 character classes, for programs and libraries, learned, saved, loaded, saved; every field of every record at the ends of its range, and models of up to 300 programs, 1200 regions and 1200 contexts, over three daemons; every 3-level sequence tree of two programs over 3 restarts under either algorithm; histories of 4 events in 5 half-cycles with up to 2 restarts",
  "as quick with 6 events, 3 restarts"};
