#include "progs.h"
static std::vector<std::string> lines(const std::string &t) { std::vector<std::string> v; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == std::string::npos) j = t.size(); v.push_back(t.substr(i, j - i)); i = j + 1; } return v; }
static std::string join(const std::vector<std::string> &v, const char *sep = "\n") { std::string s; for (auto &l : v) s += l + sep; return s; }
static std::vector<std::string> fields(const std::string &l) { std::vector<std::string> f; size_t k = 0; for (;;) { size_t q = l.find('\t', k); f.push_back(l.substr(k, q == std::string::npos ? q : q - k)); if (q == std::string::npos) return f; k = q + 1; } }
static std::string unfields(const std::vector<std::string> &f) { std::string s; for (size_t i = 0; i < f.size(); i++) s += (i ? "\t" : "") + f[i]; return s; }
static World w; static int ph; static bool vomm; static bool must_refuse; static std::string first;
// records by kind: what was loaded is in the first save, whole (launch nodes excepted: those without a parent are skipped with a warning)
static std::map<std::string, int> kinds(const std::string &t) { std::map<std::string, int> m; size_t i = 0; while (i < t.size()) { size_t j = t.find_first_of(std::string("\n\r\0", 3), i); if (j == std::string::npos) j = t.size(); std::string l = t.substr(i, j - i); i = j + 1; size_t a = l.find_first_not_of(" \t\v\f"); if (a == std::string::npos) continue; size_t b = l.find_first_of(" \t\v\f", a); m[l.substr(a, b == std::string::npos ? b : b - a)]++; } return m; }
static void complete(const std::string &text) { mc_eval(); if (contains(vos.err, "ignoring")) return; auto was = kinds(text), is = kinds(first); for (const char *k : {"EXE", "EXEMAP", "MARKOV"}) if (is[k] < was[k]) mc_fail("partly-loaded", "the daemon loads the file, but of %d %s records only %d are in what it saves next", was[k], k, is[k]); }
static void idle() { // scan | update | scan | update | save | scan | update | save
  switch (ph++) { case 1: w.procs.push_back({11, PB.path, PB.regs}); w.procs.erase(w.procs.begin()); w.sync(); return; case 4: w.procs.clear(); w.procs.push_back({12, PC.path, PC.regs}); w.procs.push_back({13, PA.path, PA.regs}); w.sync(); deliver(SIGUSR2); return; case 5: first = vos.get(STATE); vos.rm(PB.path); return; case 7: deliver(SIGUSR2); return; case 8: deliver(SIGHUP); return; case 9: deliver(SIGUSR1); return; case 11: deliver(SIGTERM); return; default: return; }
}
static int life(const std::string &text, bool &refused, int deep = 4) { ph = 0; all_files(); w.procs.clear(); w.procs.push_back({10, PA.path, PA.regs}); w.sync(); vos.err.clear(); vos.idle = idle; int st = run_daemon(std_args(deep)); refused = ph == 0; return st; }
static void accept_or_refuse(const std::string &text) {
  vos.put(STATE, text); bool refused; int st = life(text, refused); mc_eval(); if (mc_replaying()) mc_note("file:\n%s", text.substr(0, 3000).c_str());
  vos.fault = nullptr; if (must_refuse && !refused) mc_fail("read-error-ignored", "the state file could not be read to its end, and the daemon starts with what it got");
  if (refused) { if (st == 0) mc_fail("refused-successfully", "the daemon ends at once with a success status"); if (vos.err.find_first_not_of(" \n") == std::string::npos) mc_fail("refused-silently", "refused without a message"); if (vos.get(STATE) != text) mc_fail("refused-file-changed", "the refused state file was changed"); mc_outcome("refused " + vos.err.substr(vos.err.rfind("line ") == std::string::npos ? 0 : vos.err.rfind("line "))); mc_leaf(); }
  if (st) mc_fail("fails-after-load", "the daemon loads the file and later ends with status %d: %s", st, vos.err.substr(vos.err.size() > 500 ? vos.err.size() - 500 : 0).c_str());
  if (contains(vos.err, "failed saving")) mc_fail("cannot-save-after-load", "the daemon loads the file and cannot save: %s", vos.err.substr(0, 500).c_str());
  std::string t2 = vos.get(STATE); if (t2 == text || t2.empty()) mc_fail("not-saved", "nothing was saved after a successful load"); complete(text); mc_outcome("loaded " + std::to_string(mc_hash(t2)));
  st = life(t2, refused); mc_eval(); if (refused || st) { if (mc_replaying()) mc_note("saved:\n%s", t2.substr(0, 3000).c_str()); mc_fail("own-save-refused", "what the daemon saved after loading the file it cannot load itself: %s", vos.err.substr(vos.err.size() > 500 ? vos.err.size() - 500 : 0).c_str()); }
  if (contains(vos.err, "failed saving")) mc_fail("cannot-save-after-load", "the second daemon cannot save: %s", vos.err.substr(0, 500).c_str());
  mc_leaf();
}
static StateW base() {
  StateW s; s.time = 1000; int a = s.exe(PA.path, 700), b = s.exe(PB.path, 500), c = s.exe(PC.path, 0); for (auto &r : PA.regs) s.use(a, s.map(r.path, r.off, r.len)); s.use(b, s.map("/usr/lib/libc.so", 0, 4096)); s.use(b, s.map(PB.path, 0, 8192)); s.use(c, s.map(PC.path, 0, 4096));
  auto &m = s.mk(a, b); m.time = 400; for (int i = 0; i < 4; i++) { m.ttl[i] = 10 + i; m.w[i][i] = 2; m.w[i][(i + 1) % 4] = 1; m.w[i][(i + 2) % 4] = 1; } s.mk(a, c); auto &k = s.mk(c, b); k.ttl[2] = 30; k.w[2][2] = 3; k.w[2][3] = 3;
  s.nodes = {{1, a, 3, 0}, {2, b, 2, 1}, {3, c, 2, 2}, {4, b, 4, 0}, {5, a, 1, 4}}; return s;
}
static const char *const vals[] = {"", "-1", "0", "2", "2147483647", "2147483648", "-2147483648", "9223372036854775807", "99999999999999999999", "abc", "1e308", "-1e308", "nan", "inf", "1e-320", "-5", "1.5", "file://", "file:///", "file:///%zz", "file://host/x", "/plain", "file:///a%00b", "file:///usr/bin/a", "PRELOAD", "%s%n"};
static void run() {
  world_init(); vos.set_mem(80000000, 20000000, 40000000, 1000000, 10000000); vomm = mc_choose(2, "algorithm:Markov|VOMM"); ConfB c; c.system["prediction_algorithm"] = vomm ? "VOMM" : "Markov"; c.system["maxprocs"] = "0"; set_conf(c);
  std::string t = base().text(); t += "BADEXE\t1000\t-1\tfile:///usr/bin/s\n# comment\n"; auto L = lines(t); int n = L.size();
  must_refuse = false; switch (mc_choose(12, "change:cut|line removed|line repeated|lines swapped|junk line|field replaced|field removed or added|byte replaced|tree shape|pair of fields|read fault|extreme")) {
  case 0: { int k = mc_choose(t.size(), "at byte"); int e = mc_choose(3, "end:as is|newline|zeros"); std::string x = t.substr(0, k); if (e == 1) x += "\n"; if (e == 2) x += std::string(mc_choose(2, "zeros:1|1000") ? 1000 : 1, '\0'); accept_or_refuse(x); }
  case 1: { int k = mc_choose(n, "line"); auto v = L; v.erase(v.begin() + k); int k2 = mc_choose(n, "second"); if (k2 > 0) v.erase(v.begin() + k2 - 1); accept_or_refuse(join(v)); }
  case 2: { int k = mc_choose(n, "line"), to = mc_choose(n + 1, "to"); auto v = L; v.insert(v.begin() + to, L[k]); accept_or_refuse(join(v)); }
  case 3: { int a = mc_choose(n, "line"), b = mc_choose(n, "line"); auto v = L; if (mc_choose(2, "swap or move:swap|move")) { auto x = v[a]; v.erase(v.begin() + a); v.insert(v.begin() + b, x); } else std::swap(v[a], v[b]); accept_or_refuse(join(v)); }
  case 4: { static const std::string junk[] = {"", " ", "\t", "#", "# " + std::string(5000, 'x'), "FOO", std::string(5000, 'A'), std::string(100, '\t'), std::string("a\0b", 3), "\xff\xfe", "MAP", "EXE\t", "EXEMAP\t1", "MARKOV\t1\t2\t3", "VOMMNODE\t1", "PRELOAD\t0.6.4\t5", "MAP\t50\t0\t0\t10\t-1\tfile:///" + std::string(3000, 'y'), "EXE\t50\t0\t0\t-1\tfile:///" + std::string(3000, 'y'), "MARKOV\t1\t1\t0" + std::string(40, '\t'), "\r"}; int k = mc_choose(20, "junk"), at = mc_choose(n + 1, "at"); auto v = L; v.insert(v.begin() + at, junk[k]); accept_or_refuse(join(v, mc_choose(2, "line ends:LF|CRLF") ? "\r\n" : "\n")); }
  case 5: { int k = mc_choose(n, "line"); auto f = fields(L[k]); int i = mc_choose(f.size(), "field"), x = mc_choose(26, "value"); f[i] = vals[x]; L[k] = unfields(f); accept_or_refuse(join(L)); }
  case 6: { int k = mc_choose(n, "line"); auto f = fields(L[k]); int i = mc_choose(f.size(), "field"), x = mc_choose(3, "how:removed|doubled|space instead of tab"); if (x == 0) f.erase(f.begin() + i); else if (x == 1) f.insert(f.begin() + i, f[i]); L[k] = unfields(f); if (x == 2) { size_t p = 0; for (int j = 0; j < i; j++) p = L[k].find('\t', p) + 1; if (p) L[k][p - 1] = ' '; } accept_or_refuse(join(L)); }
  case 7: { static const char b[] = {0, '\t', '\n', ' ', (char)0xff, '9', '-', '%'}; int k = mc_choose(t.size(), "byte"), x = mc_choose(mc_param("bytes", 4, 8), "value"); t[k] = b[x]; accept_or_refuse(t); }
  case 8: { // every tree of up to 3 (4) records: programs, parents before, at or after the record or nowhere, repeated numbers
    StateW s = base(); s.nodes.clear(); int m = mc_param("nodes", 3, 4); static const int par[] = {0, 1, 2, 3, 9, -1}; int cnt = mc_choose(mc_param("counts", 1, 3), "counts:1|0|-3"); for (int i = 0; i < m; i++) { int p = par[mc_choose(6, "parent:0|1|2|3|9|-1")], e = mc_choose(2, "program:A|B") + 1; int id = i == 1 ? mc_choose(3, "number:2|1|0") : 0; static const int idv[] = {2, 1, 0}; s.nodes.push_back({i == 1 ? idv[id] : i + 1, e, cnt == 0 ? 1 : cnt == 1 ? 0 : -3, p}); } accept_or_refuse(s.text()); }
  case 9: { // two replaced fields of one pair line, or of the header and a program
    static const char *const v2[] = {"-1", "0", "2147483647", "-2147483648", "1e308", "nan", "1e-320", "99999999999999999999"}; int which = mc_choose(2, "line:pair|model time and program time"); int a = mc_choose(8, "value"), b = mc_choose(8, "value");
    if (which == 0) { int mk = -1; for (int i = 0; i < n; i++) if (L[i].compare(0, 6, "MARKOV") == 0 && mk < 0) mk = i; auto f = fields(L[mk]); int i = 3 + mc_choose(mc_param("first", 3, 21), "field"), j = 3 + mc_choose(21, "other field"); f[i] = v2[a]; f[j] = v2[b]; L[mk] = unfields(f); } else { auto f = fields(L[0]); f[2] = v2[a]; L[0] = unfields(f); int e = mc_choose(3, "program"), q = 0; for (auto &l : L) if (l.compare(0, 4, "EXE\t") == 0 && q++ == e) { auto g = fields(l); g[3] = v2[b]; l = unfields(g); } } accept_or_refuse(join(L)); }
  case 10: { // the file itself is good, reading it is interrupted, comes in pieces, or fails
    static int k, how, seen; how = mc_choose(7, "read:fails (EIO)|fails (ESTALE)|interrupted|would block|1 byte at a time|7 bytes|1023 bytes"); k = how < 4 ? mc_choose(8, "read number") : 0; seen = 0; bool big = mc_choose(2, "file:small|of many blocks"); StateW s = base(); if (big) for (int i = 0; i < 60; i++) { int e = s.exe(fmt("/usr/bin/p%d", i), 1); s.use(e, s.map(fmt("/usr/bin/p%d", i), 0, 4096)); }
    vos.fault = [](const FaultReq &q) { FaultAns a; if (strcmp(q.op, "read") || q.path != STATE) return a; static const long pc[] = {1, 7, 1023}; if (how >= 4) { a.shortn = pc[how - 4]; return a; } if (seen++ == k) { static const int er[] = {EIO, ESTALE, EINTR, EAGAIN}; a.err = er[how]; if (how < 2) must_refuse = true; } return a; }; accept_or_refuse(s.text()); }
  default: { StateW s = base(); int k = mc_choose(9, "extreme:empty|newlines|chain of 1000|chain of 100000|wide tree|many programs|one program|only pairs|region without program"); if (k == 0) accept_or_refuse(""); if (k == 1) accept_or_refuse("\n\n\n\n");
    if (k == 2 || k == 3) { s.nodes.clear(); int d = k == 2 ? 1000 : 100000; for (int i = 1; i <= d; i++) s.nodes.push_back({i, 1 + i % 3, 1, i - 1}); std::string x = s.text(); if (mc_choose(2, "order:parents first|children first")) { auto v = lines(x); std::vector<std::string> h, q; for (auto &l : v) (l.compare(0, 4, "VOMM") ? h : q).push_back(l); for (size_t i = q.size(); i-- > 0;) h.push_back(q[i]); x = join(h); } accept_or_refuse(x); }
    if (k == 4) { s.nodes.clear(); for (int i = 1; i <= 3000; i++) s.nodes.push_back({i, 1 + i % 3, 1, i % 2 ? 0 : 1}); accept_or_refuse(s.text()); }
    if (k == 5) { for (int i = 0; i < 60; i++) { int e = s.exe(fmt("/usr/bin/p%d", i), 1); s.use(e, s.map(fmt("/usr/bin/p%d", i), 0, 4096)); } accept_or_refuse(s.text()); }
    if (k == 6) { StateW q; q.time = 5; q.exe(PA.path, 3); accept_or_refuse(q.text()); } if (k == 7) { StateW q; q.time = 5; q.mk(1, 2); accept_or_refuse(q.text()); }
    StateW q; q.time = 5; q.map("/usr/lib/none", 0, 4096); accept_or_refuse(q.text()); } }
}
CheckDef check = {"C04", run,
  "AddressSanitizer; one state file with every record kind: cut at every byte, up to two lines removed, each line repeated or moved to every place, 20 junk lines at every place, every field set to 26 values, removed or doubled, every byte set to 4 values, every sequence tree of 3 records with bad parents and repeated numbers, pairs of fields of one pair record, deep and wide trees; the reads of a good file failing, interrupted or coming in pieces; what is loaded is in the next save, whole; both algorithms; then scans, predictions, saves, reload, dump, and a second daemon on what was saved",
  "every byte set to 8 values, trees of 4 records, all pairs of fields of a pair record"};
