#include "eng.h"
#include <algorithm>

Eng eng;
static std::string first_words(const std::string &d) { // stable key of a mismatch: the words without names and numbers
  std::string k; size_t i = 0; while (i < d.size() && k.size() < 60) { size_t j = d.find(' ', i); if (j == std::string::npos) j = d.size(); std::string t = d.substr(i, j - i); if (t.find_first_of("/0123456789") == std::string::npos) k += (k.empty() ? "" : "-") + t; i = j + 1; }
  std::string o; for (char c : k) if (isalnum((unsigned char)c) || c == '-') o += c; return o;
}
void Eng::mismatch(const std::string &d, const char *where) { mc_fail(("model:" + first_words(d)).c_str(), "%s: %s", where, d.c_str()); }
void Eng::branch(std::function<std::vector<Ref>(const Ref &)> f) {
  std::vector<Ref> n; std::set<std::string> seen; for (auto &c : cand) for (auto &x : f(c)) if (seen.insert(x.key()).second) n.push_back(x);
  cand.swap(n); if (cand.empty()) mc_error("no candidate left");
}
void Eng::apply(std::function<void(Ref &)> f) { branch([&](const Ref &r) { Ref c = r; f(c); return std::vector<Ref>{c}; }); }

// the daemon's steps that virtual time has made due
void Eng::due() {
  for (;;) {
    bool a = t_step <= vos.now_us, b = t_auto <= vos.now_us, tied = false; if (!a && !b) return;
    auto step = [&]() {
      if (at_step && !tied) { at_step(next_step, steppos); steppos = vos.log.size(); }
      if (next_step == 0 && battery && battery()) { apply([&](Ref &r) { r.m.time += r.cfg.cycle * 2; }); t_step += cfg.cycle * 2 * 1000000ll; next_step = 1; }
      else if (next_step == 0) { if (cfg.doscan) branch([&](const Ref &r) { return r.scan(w); }); if (at_tick) at_tick(prefetches(logpos)); logpos = vos.log.size(); apply([&](Ref &r) { r.m.time += r.cfg.cycle / 2; }); t_step += cfg.cycle / 2 * 1000000ll; next_step = 1; }
      else { branch([&](const Ref &r) { return r.model_dirty ? r.update(w) : std::vector<Ref>{r}; }); apply([&](Ref &r) { r.m.time += (r.cfg.cycle + 1) / 2; }); t_step += (cfg.cycle + 1) / 2 * 1000000ll; next_step = 0; }
      fresh = true; mc_trans();
    };
    auto save = [&](bool tie = false) { if (at_step && !tie) { at_step(2, steppos); steppos = vos.log.size(); } if (!tie && compare) check_file(vos.get(STATE), "after an automatic save"); apply([&](Ref &r) { r.save(w); }); t_auto += autosave * 1000000ll; fresh = true; mc_trans(); };
    if (a && b && t_step == t_auto) { // no order is documented: both are possible
      tied = true; if (at_step) { at_step(next_step + 10, steppos); steppos = vos.log.size(); }
      std::vector<Ref> c0 = cand; int64_t s0 = t_step, a0 = t_auto; int n0 = next_step; step(); save(true); std::vector<Ref> c1 = cand;
      cand = c0; t_step = s0; t_auto = a0; next_step = n0; save(true); step(); for (auto &x : c1) cand.push_back(x); branch([](const Ref &r) { return std::vector<Ref>{r}; });
    } else if (a && (!b || t_step < t_auto)) step(); else save();
  }
}
void Eng::check_file(const std::string &text, const char *where) {
  // the candidates the file agrees with are those that go on
  std::vector<Ref> ok; std::string d1; if (text.empty()) { for (auto &c : cand) if (!c.dirty && !c.saved) ok.push_back(c); else d1 = "nothing was saved though there is unsaved learning"; }
  else { SState s = parse_state(text); mc_eval(); if (!s.ok) mc_fail("state-file-malformed", "%s: the saved state is malformed: %s", where, s.err.c_str());
    for (auto &c : cand) { std::string d = diff_model(c.m, s, mask); if (d.empty()) { ok.push_back(c); continue; } 
      if (!c.dirty && c.saved) { std::string e = diff_model(*c.saved, s, mask); if (e.empty()) { ok.push_back(c); continue; } } 
      if (d1.empty()) d1 = d; }
    mc_state(s.canon()); }
  if (ok.empty()) { mc_note("state file %s:\n%s", where, text.empty() ? "(none)" : parse_state(text).canon().c_str()); mc_note("expected%s:\n%s", cand.size() > 1 ? " (one of several)" : "", show(cand[0].m).c_str()); mismatch(d1.empty() ? "no state file" : d1, where); }
  cand.swap(ok);
}
void Eng::check_dump(const Dump &d, const char *where) {
  mc_eval(); if (!d.ok) mc_fail("dump-incomplete", "the state dump is incomplete"); std::vector<Ref> ok; std::string why;
  for (auto &c : cand) { std::string m;
    if ((mask & M_TIME) && d.time != c.m.time) m = fmt("model time is %ld, expected %ld", d.time, c.m.time);
    else if ((mask & M_EXE) && d.exes != (long)c.m.ex.size()) m = fmt("number of tracked programs is %ld, expected %zu", d.exes, c.m.ex.size());
    else if ((mask & M_EXE) && d.bad != (long)c.bad.size()) m = fmt("number of rejected programs is %ld, expected %zu", d.bad, c.bad.size());
    else if ((mask & M_EXE) && d.running != c.running()) m = fmt("number of running programs is %ld, expected %d", d.running, c.running());
    else if ((mask & M_MAP) && d.maps != (long)c.regions().size()) m = fmt("number of known regions is %ld, expected %zu", d.maps, c.regions().size());
    if (m.empty()) ok.push_back(c); else if (why.empty()) why = m; }
  if (ok.empty()) { mc_note("expected:\n%s", show(cand[0].m).c_str()); mismatch(why, where); }
  cand.swap(ok);
}
void Eng::observe(const char *where) {
  if (compare) { Dump d; SState s; std::string text; if (use_dump ? probe_both(d, s, &text) : probe_state(s, &text)) return; if (use_dump) check_dump(d, where); check_file(text, where); }
  if (at_observe) at_observe();
}
void Eng::sig(int s) { pend = s; mc_note("@%.0f signal %d", (vos.now_us - 1000000000) / 1e6, s); deliver(s); }
void Eng::idle() {
  if (vos.now_us != last_t) { if (last_t >= 0 && !ending) { slots++; } last_t = vos.now_us; inslot = 0; lastev = -1; if (ending) settle_left--; }
  due();
  if (pend) { int p = pend; pend = 0; fresh = true; if (p == SIGUSR2) { if (compare) check_file(vos.get(STATE), "after a requested save"); apply([&](Ref &r) { r.save(w); }); if (at_saved) at_saved(vos.get(STATE)); } else if (p == SIGHUP && pend_conf) { auto f = pend_conf; pend_conf = nullptr; apply([&](Ref &r) { f(r); }); cfg = cand[0].cfg; cycle = cfg.cycle; } else if (p == SIGTERM || p == SIGINT || p == SIGQUIT) mc_fail("term-ignored", "the daemon does not exit on signal %d", p); }
  if (final == 1) { final = 2; final_err = vos.err; restarting = true; deliver(SIGTERM); return; }
  if (final == 2) mc_fail("term-ignored", "the daemon does not exit on SIGTERM");
  if (!ending && (slots >= depth || used >= total)) { ending = true; settle_left = settle; }
  if (ending) { if (settle_left > 0) return; if (at_observe) { at_observe(); if (mc_in_probe()) return; } if (!compare) { leaf(); } final = 1; vos.err.clear(); deliver(SIGUSR1); return; }
  if (fresh && interior) { observe("while running"); if (mc_in_probe()) return; fresh = false; }
  events_now();
}
void Eng::leaf() { if (at_end) at_end(); for (auto &c : cand) mc_outcome(show(c.m)); mc_leaf(); }
void Eng::events_now() {
  if (script) { if (inslot < perslot) { inslot = perslot; int s = script(); w.sync(); if (s) sig(s); } return; }
  while (inslot < perslot && used < total) {
    if (gate && !gate()) return;
    std::vector<int> en; for (size_t i = 0; i < events.size(); i++) { if ((int)i <= lastev && !events[i].sig && events[lastev].sig == 0) continue; if ((int)i == lastev) continue; if (!events[i].enabled || events[i].enabled()) en.push_back(i); }
    if (en.empty()) return;
    std::string l = "ev:-"; for (int i : en) l += "|" + events[i].name;
    int k = mc_choose(en.size() + 1, "%s", l.c_str()); if (k == 0) { inslot = perslot; return; }
    int e = en[k - 1]; inslot++; used++; lastev = e; mc_note("@%.0f %s", (vos.now_us - 1000000000) / 1e6, events[e].name.c_str());
    events[e].act(); w.sync(); if (events[e].sig) { sig(events[e].sig); return; }
  }
}
void Eng::go() {
  cfg.cycle = cycle; conf.model["cycle"] = std::to_string(cycle); conf.system["autosave"] = std::to_string(autosave); conf.model["minsize"] = std::to_string(cfg.minsize); if (!conf.system.count("prediction_algorithm") && !conf.system.count("preload.algorithm")) conf.system["prediction_algorithm"] = cfg.vomm ? "VOMM" : "Markov"; set_conf(conf);
  if (args.empty()) args = std_args(); w.sync(); if (cand.empty()) { Ref r; cand.push_back(r); }
  for (;;) {
    apply([&](Ref &r) { r.cfg = cfg; r.start(w); }); t_step = t_start = vos.now_us; t_auto = vos.now_us + autosave * 1000000ll; next_step = 0; fresh = true; pend = 0; last_t = vos.now_us; restarting = false; steppos = vos.log.size(); 
    vos.idle = []() { eng.idle(); };
    int st = run_daemon(args); if (mc_in_probe()) mc_fail("exit", "unexpected exit");
    if (!restarting) mc_fail("exits", "the daemon exits with status %d by itself; last output: %s", st, vos.err.substr(vos.err.size() > 600 ? vos.err.size() - 600 : 0).c_str());
    if (st) mc_fail("exit-status", "clean shutdown ends with status %d", st);
    if (vos.open_fds()) mc_fail("fd-at-exit", "descriptors still open after shutdown: %s", vos.fd_desc().c_str());
    if (final) check_dump(parse_dump(final_err), "at the end");
    std::string t = vos.get(STATE); if (compare) check_file(t, "after shutdown"); apply([&](Ref &r) { r.save(w); }); if (at_saved) at_saved(t);
    if (final) leaf();
    restarts++; vos.now_us += 1000 * 1000000ll; inslot = 0; lastev = -1;
    if (downtime) { auto ev = events; std::vector<Ev1> k; for (auto &e : events) if (e.sig == 0 && e.world) k.push_back(e); events = k; events_now(); events = ev; inslot = 0; lastev = -1; }
  }
}

// ---------------------------------------------------------------- events
void prog_file(const ProgDef &p) { vos.put(p.path, "elf", 0100755); for (auto &r : p.regs) if (!vos.has(r.path)) vos.put(r.path, "elf"); }
static bool has_pid(int pid) { return eng.w.proc(pid); }
void ev_toggle(const ProgDef &p, int pid, const char *name) {
  Ev1 e; e.name = name; e.enabled = [=]() { return has_pid(pid) || vos.has(p.path); };
  e.act = [=]() { auto &v = eng.w.procs; for (size_t i = 0; i < v.size(); i++) if (v[i].pid == pid) { v.erase(v.begin() + i); return; } v.push_back({pid, p.path, p.regs}); };
  eng.events.push_back(e);
}
void ev_delete(const ProgDef &p, const char *name) {
  Ev1 e; e.name = name; e.act = [=]() { if (!vos.has(p.path)) { vos.put(p.path, "elf", 0100755); return; } vos.rm(p.path); for (auto &q : eng.w.procs) if (q.exe == p.path) q.exe += " (deleted)"; };
  eng.events.push_back(e);
}
void ev_replace(const ProgDef &p, const char *name) {
  Ev1 e; e.name = name; e.enabled = [=]() { return vos.has(p.path); }; e.act = [=]() { vos.put(p.path, "new elf", 0100755); for (auto &q : eng.w.procs) if (q.exe == p.path) q.exe += " (deleted)"; };
  eng.events.push_back(e);
}
void ev_exec(int pid, const ProgDef &from, const ProgDef &to, const char *name) {
  Ev1 e; e.name = name; e.enabled = [=]() { auto *q = eng.w.proc(pid); return q && q->exe == from.path && vos.has(to.path); };
  e.act = [=]() { for (auto &q : eng.w.procs) if (q.pid == pid) { q.exe = to.path; q.regs = to.regs; } }; eng.events.push_back(e);
}
void ev_sig(int s, const char *name) { Ev1 e; e.name = name; e.sig = s; e.act = []() {}; e.world = false; eng.events.push_back(e); }
void ev_reload(const char *name, std::function<void(ConfB &, RCfg &)> f) {
  Ev1 e; e.name = name; e.sig = SIGHUP; e.world = false;
  e.act = [=]() { RCfg c = eng.cfg; f(eng.conf, c); eng.conf.model["cycle"] = std::to_string(c.cycle); eng.conf.model["minsize"] = std::to_string(c.minsize); eng.conf.system["prediction_algorithm"] = c.vomm ? "VOMM" : "Markov"; eng.conf.system["doscan"] = c.doscan ? "true" : "false"; eng.conf.system["dopredict"] = c.dopredict ? "true" : "false"; set_conf(eng.conf);
    eng.pend_conf = [c](Ref &r) { r.cfg = c; r.init_algorithm(); }; };
  eng.events.push_back(e);
}
void ev_do(const char *name, std::function<bool()> en, std::function<void()> act) { Ev1 e; e.name = name; e.enabled = en; e.act = act; eng.events.push_back(e); }
void ev_restart(const char *name) { Ev1 e; e.name = name; e.sig = SIGTERM; e.world = false; e.enabled = []() { return eng.restarts < eng.max_restarts; }; e.act = []() { eng.restarting = true; }; eng.events.push_back(e); }
void ev_multi(const char *name, std::vector<std::string> parts) {
  std::vector<Ev1> sel; for (auto &p : parts) { bool f = false; for (auto &e : eng.events) if (e.name == p) { sel.push_back(e); f = true; } if (!f) mc_error("no event %s", p.c_str()); }
  Ev1 e; e.name = name; e.enabled = [=]() { for (auto &s : sel) if (s.enabled && !s.enabled()) return false; return true; }; e.act = [=]() { for (auto &s : sel) s.act(); }; eng.events.push_back(e);
}
void ev_staterr(const ProgDef &p, int err, const char *name) { Ev1 e; e.name = name; e.act = [=]() { if (vos.stat_err.count(p.path)) vos.stat_err.erase(p.path); else vos.stat_err[p.path] = err; }; eng.events.push_back(e); }
