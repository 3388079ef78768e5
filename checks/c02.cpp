#include "progs.h"
// What a filesystem may hold after a crash: directory operations are applied in order (any prefix of those made since
// the directory was last known to be durable), data not synced is present in any combination of 512-byte pieces.
struct FNode { std::string durable; std::vector<Ev> pend; };
struct FSim {
  std::vector<FNode> nodes; std::map<std::string, int> dir; std::map<std::string, int> openat; // path used at open -> node
  std::vector<std::map<std::string, int>> hist;                                              // directory after each directory operation not yet durable
  void load(const std::string &p, const std::string &d) { nodes.push_back({d, {}}); dir[p] = nodes.size() - 1; }
  void settle() { hist.clear(); hist.push_back(dir); for (auto &n : nodes) { n.durable = full(n); n.pend.clear(); } }   // everything has reached the disk
  static void put(std::string &d, size_t off, const std::string &x) { if (d.size() < off + x.size()) d.resize(off + x.size(), 0); memcpy(&d[off], x.data(), x.size()); }
  static std::string full(const FNode &n) { std::string d = n.durable; for (auto &e : n.pend) if (e.kind == "truncate") d.resize(e.a, 0); else put(d, e.b, e.data); return d; }
  void apply(const Ev &e) {
    if (e.ret < 0) return;
    if (e.kind == "create") { nodes.push_back({}); dir[e.path] = openat[e.path] = nodes.size() - 1; hist.push_back(dir); }
    else if (e.kind == "open") { auto i = dir.find(e.path); if (i == dir.end()) return; openat[e.path] = i->second; if (e.b) { Ev t = e; t.kind = "truncate"; t.a = 0; nodes[i->second].pend.push_back(t); } }
    else if (e.kind == "truncate") { if (openat.count(e.path)) nodes[openat[e.path]].pend.push_back(e); }
    else if (e.kind == "write") { if (!openat.count(e.path)) return; for (size_t o = 0; o < e.data.size();) { size_t k = std::min(e.data.size() - o, 512 - (e.b + o) % 512); Ev c; c.kind = "write"; c.b = e.b + o; c.data = e.data.substr(o, k); nodes[openat[e.path]].pend.push_back(c); o += k; } }
    else if (e.kind == "fsync") { if (!openat.count(e.path)) return; FNode &n = nodes[openat[e.path]]; n.durable = full(n); n.pend.clear(); }
    else if (e.kind == "rename") { auto i = dir.find(e.path); if (i == dir.end()) return; int k = i->second; dir.erase(i); dir[e.data] = k; hist.push_back(dir); }
    else if (e.kind == "unlink") { dir.erase(e.path); hist.push_back(dir); }
  }
  // every content the node may have after a crash now; also lengths in between (the size may be written before the data)
  void contents(int node, std::function<void(const std::string &)> f, size_t all = 12) const {
    const FNode &n = nodes[node]; size_t k = n.pend.size(); 
    auto make = [&](const std::vector<bool> &in, bool zeros) { std::string d = n.durable; size_t len = d.size(); for (size_t i = 0; i < k; i++) { if (n.pend[i].kind == "truncate") { if (in[i]) { d.resize(n.pend[i].a); len = d.size(); } continue; } if (in[i]) put(d, n.pend[i].b, n.pend[i].data); len = std::max(len, n.pend[i].b + n.pend[i].data.size()); } if (zeros && d.size() < len) d.resize(len, 0); f(d); };
    if (k <= all) { for (size_t m = 0; m < (1u << k); m++) { std::vector<bool> in(k); for (size_t i = 0; i < k; i++) in[i] = m >> i & 1; make(in, false); make(in, true); } }
    else for (size_t i = 0; i <= k; i++) { std::vector<bool> in(k), ex(k, true); for (size_t j = 0; j < i; j++) in[j] = true; if (i < k) ex[i] = false; make(in, false); make(in, true); make(ex, false); if (all >= 12) for (size_t j = 0; j < k; j++) { ex[j] = false; make(ex, false); if (j != i) ex[j] = true; } }
  }
};
static const std::string TMP = std::string(STATE) + ".tmp";
static bool ours(const std::string &p) { return p.compare(0, 17, "/var/lib/preload/") == 0; }
static int fop, fn, opn; static size_t mark; static std::vector<std::pair<size_t, size_t>> segs; static int phase, big; static World w; static bool vomm, autosv, emptied;
static ProgDef big_prog(int i) { ProgDef p{fmt("/opt/directory/program-number-%d", i), {}}; for (int k = 0; k < 4; k++) p.regs.push_back({fmt("/opt/directory/library-number-%d-%d.so", i, k), (unsigned long)k * 4096, 8192}); return p; }
static void idle() { // scan 0 | update 10 | scan 20 | ...
  size_t now = vos.log.size(); bool wrote = false; for (size_t i = mark; i < now; i++) if (ours(vos.log[i].path) && (vos.log[i].kind == "write" || vos.log[i].kind == "create" || vos.log[i].kind == "rename" || vos.log[i].kind == "truncate" || vos.log[i].kind == "unlink")) wrote = true; if (wrote) segs.push_back({mark, now}); mark = now; phase++;
  if (phase == 1) return; if (phase == 2) { if (!autosv) deliver(SIGUSR2); return; }
  if (emptied) { if (phase == 3) { w.procs.clear(); w.sync(); vos.rm(PA.path); vos.rm(PC.path); } if (phase == 7 && !autosv) deliver(SIGUSR2); if (phase == 11 || phase == 12) deliver(SIGTERM); return; }
  if (phase == 3) { w.procs.push_back({11, PB.path, PB.regs}); w.sync(); return; } if (phase < 7) return; 
  if (phase == 7 && !autosv) { deliver(SIGUSR2); return; } if (phase < 9) { if (phase == 8) { w.procs.erase(w.procs.begin()); w.sync(); } return; } if (phase < 11) return;
  if (phase == 11 || phase == 12) { deliver(SIGTERM); }
}
static void run() {
  world_init(); all_files(); vomm = mc_choose(2, "algorithm:Markov|VOMM"); autosv = mc_choose(2, "saves:requested|automatic"); int mod = mc_choose(3, "model:small|several buffers|emptied"); big = mod == 1 ? mc_param("programs", 7, 14) : 0; emptied = mod == 2; bool old = mc_choose(2, "state file at first:none|some"); int stale = mc_choose(2, "stale temporary file:no|yes");
  ConfB c; c.system["prediction_algorithm"] = vomm ? "VOMM" : "Markov"; c.model["minsize"] = "0"; c.system["autosave"] = autosv ? "25" : "100000"; set_conf(c); if (old) { StateW s; s.time = 7; int e = s.exe(PC.path, 5); s.use(e, s.map(PC.path, 0, 4096)); vos.put(STATE, s.text()); } if (stale) vos.put(TMP, "PRELOAD\t0.6.4\t9\nEXE\t");
  w.procs.push_back({10, PA.path, PA.regs}); for (int i = 0; i < big; i++) { ProgDef p = big_prog(i); prog_file(p); w.procs.push_back({30 + i, p.path, p.regs}); } w.sync();
  FSim fs; bool had = vos.has(STATE); if (had) fs.load(STATE, vos.get(STATE)); if (stale) fs.load(TMP, vos.get(TMP)); fs.settle();
  fn = mc_choose(mc_param("faults", 14, 30), "fault at operation") - 1; opn = 0; static int err; err = fn < 0 ? 0 : mc_choose(2, "error:ENOSPC|short write") ? -1 : ENOSPC; vos.fault = [](const FaultReq &r) { FaultAns a; std::string op = r.op; if (!ours(r.path) || (op != "write" && op != "fsync" && op != "rename" && op != "create")) return a; if (opn++ == fn) { if (err > 0) a.err = err; else if (op == "write") a.shortn = std::max(1l, r.a / 3); } return a; };
  phase = 0; mark = 0; segs.clear(); vos.idle = idle; if (run_daemon(std_args(2))) mc_fail("exit-status", "failure exit"); vos.fault = nullptr; { size_t now = vos.log.size(); for (size_t i = mark; i < now; i++) if (ours(vos.log[i].path) && vos.log[i].kind != "open") { segs.push_back({mark, now}); break; } }
  if (segs.empty() && fn < 0) mc_error("no save seen"); if (fn >= 0 && opn <= fn) mc_leaf(); // the fault position does not exist
  std::vector<Ev> log = vos.log; 
  // crash in which save, after how many of its operations
  if (segs.empty()) mc_leaf(); int sg = mc_choose(segs.size(), "crash in save"); std::string before, after; bool hb = had, ha;
  {
    for (size_t i = 0; i < segs[sg].first; i++) if (ours(log[i].path)) fs.apply(log[i]); fs.settle(); hb = fs.dir.count(STATE); before = hb ? fs.nodes[fs.dir[STATE]].durable : "";
    FSim end = fs; std::vector<size_t> ops; for (size_t i = segs[sg].first; i < segs[sg].second; i++) if (ours(log[i].path)) { ops.push_back(i); end.apply(log[i]); } ha = end.dir.count(STATE); after = ha ? FSim::full(end.nodes[end.dir[STATE]]) : "";
    if (ha) { SState s = parse_state(after); if (!s.ok) mc_fail("saved-file-malformed", "a completed save left %s", s.err.c_str()); }
    int k = mc_choose(ops.size() + 1, "after operation"); for (int i = 0; i < k; i++) fs.apply(log[ops[i]]); if (k) mc_note("crash after %s", log[ops[k - 1]].str().c_str()); }
  int h = fs.hist.size() > 1 ? mc_choose(fs.hist.size(), "directory operations on disk") : 0; auto d = fs.hist[h]; std::set<std::string> st, tm; 
  if (d.count(STATE)) fs.contents(d[STATE], [&](const std::string &x) { st.insert(x); }); if (d.count(TMP)) fs.contents(d[TMP], [&](const std::string &x) { tm.insert(x); }, 4);
  mc_eval(st.size() + tm.size()); if (!d.count(STATE) && hb && ha) mc_fail("state-file-gone", "after the crash there is no state file, though one had been saved");
  for (auto &x : st) { if (!(hb && x == before) && !(ha && x == after)) { SState s = parse_state(x); mc_fail("torn-state-file", "after the crash the state file holds %zu bytes that are neither the previous nor the complete new state (%s)", x.size(), s.ok ? "parsable" : s.err.c_str()); } }
  // recovery by the real daemon; what the temporary file holds: every distinct content when few, else the extremes
  std::vector<std::string> tv(tm.begin(), tm.end()); if ((int)tv.size() > mc_param("tmps", 4, 24)) { std::vector<std::string> v; int n = mc_param("tmps", 4, 24); for (int i = 0; i < n; i++) v.push_back(tv[(size_t)i * (tv.size() - 1) / (n - 1)]); tv = v; }
  int ti = tv.empty() ? -1 : mc_choose(tv.size(), "temporary file"); std::vector<std::string> sv(st.begin(), st.end()); int si = sv.empty() ? -1 : mc_choose(sv.size(), "state file"); vos.rm(STATE); vos.rm(TMP); if (si >= 0) vos.put(STATE, sv[si]); if (ti >= 0) vos.put(TMP, tv[ti]);
  std::string img = fmt("%d%d%d|", vomm, big, emptied) + (si >= 0 ? sv[si] : "(none)") + "|" + (ti >= 0 ? tv[ti] : "(none)"); mc_outcome(img); if (!mc_first(img)) mc_leaf(); // an equal image has been recovered from
  vos.now_us = 9000000000ll; w.procs.clear(); w.procs.push_back({40, PD.path, PD.regs}); w.sync(); phase = 0; static int n; n = 0; vos.idle = []() { if (n++ >= 2) deliver(SIGTERM); }; vos.err.clear(); int rc = run_daemon(std_args(2)); if (rc) mc_fail("recovery-fails", "after the crash the daemon exits with status %d: %s", rc, vos.err.c_str());
  SState s = parse_state(vos.get(STATE)); mc_eval(); if (!s.ok) mc_fail("save-after-recovery", "the next save after the crash left: %s", s.err.c_str()); if (!s.exes.count(PD.path)) mc_fail("save-after-recovery", "the next save after the crash did not succeed: %s", vos.err.c_str());
  if (si >= 0) { SState o = parse_state(sv[si]); for (auto &e : o.exes) if (!s.exes.count(e.first) || s.exes[e.first].time != e.second.time || s.exes[e.first].regions != e.second.regions) mc_fail("recovery-loses", "%s was saved before the crash and is lost", e.first.c_str()); if (s.time < o.time) mc_fail("recovery-loses", "the model time went back"); }
  if (contains(vos.err, "failed saving")) mc_fail("save-after-recovery", "%s", vos.err.c_str());
  mc_state(s.canon()); mc_leaf();
}
CheckDef check = {"C02", run,
  "crash after every operation of each of 3 saves (requested, automatic, at shutdown), every prefix of its directory operations on disk, every combination of its unsynced 512-byte pieces, with a failing or short operation at each of 13 positions, with and without previous and stale temporary file, one or several write buffers or a model that lost its programs, both algorithms; recovery by the real daemon and a further save from each image",
  "as quick with fault positions up to 29, larger model, all temporary-file contents"};
