#include "ref.h"
#include <algorithm>
#include <cmath>
#include <cerrno>
#include <sys/stat.h>

// the path a file is considered under, or "" when it is not considered
static std::string norm_path(const std::string &e, const std::function<bool(const std::string &)> &accept) {
  static const std::string del = " (deleted)"; if (e.empty() || e[0] != '/') return "";
  std::string p = e; size_t k = p.find(".#prelink#."); if (k != std::string::npos) p.resize(k);
  else if (p.size() >= del.size() && p.compare(p.size() - del.size(), del.size(), del) == 0) return "";
  return !accept || accept(p) ? p : "";
}
std::string World::norm_exe(const std::string &e) const { return e.size() > 511 ? "" : norm_path(e, accept_exe); }
std::string World::norm_map(const std::string &e) const { return e.size() > 511 ? "" : norm_path(e, accept_map); }
std::map<std::string, std::set<int>> World::running() const { std::map<std::string, std::set<int>> r; for (auto &p : procs) { std::string e = p.pid == vos.selfpid ? "" : norm_exe(p.exe); if (!e.empty()) r[e].insert(p.pid); } return r; }
const WProc *World::proc(int pid) const { for (auto &p : procs) if (p.pid == pid) return &p; return nullptr; }
FStat World::fstat(const std::string &p) const {
  auto e = vos.stat_err.find(p); if (e != vos.stat_err.end() && e->second) return e->second == ENOENT || e->second == ENOTDIR ? F_GONE : F_UNKNOWN;
  auto f = vos.files.find(p); if (f != vos.files.end()) return S_ISREG(f->second->mode) ? F_OK : F_GONE;
  return F_GONE;
}
void World::sync() const { vos.procs.clear(); for (auto &p : procs) { VProc v; v.pid = p.pid; v.exe = p.exe; v.maps = maps_text(p.regs); vos.procs.push_back(v); } }

static PK pk(const std::string &a, const std::string &b) { return a < b ? PK(a, b) : PK(b, a); }
static int combo(const RModel &m, const PK &k) { return (m.ex.at(k.first).run ? 1 : 0) + (m.ex.at(k.second).run ? 2 : 0); }

void Ref::launch(const std::string &x) {
  hist.push_back(x); if (hist.size() > 5) hist.erase(hist.begin());
  if (ctx.size() >= 5) ctx.clear();
  ctx.push_back(x); m.tree[ctx]++;
  if (hist.size() >= 2) { const std::string &p = hist[hist.size() - 2]; m.tree[{p}] += 0; m.tree[{p, x}]++; }
}
void Ref::init_algorithm() {
  if (!cfg.vomm || m.tree_init) return;
  m.tree_init = true;
  for (auto &p : m.pr) {                              // seed from the pair statistics: y started while x ran
    const std::string &a = p.first.first, &b = p.first.second;
    if (p.second.w[1][3] > 0) { m.tree[{a}] += 0; m.tree[{a, b}] += p.second.w[1][3]; }
    if (p.second.w[2][3] > 0) { m.tree[{b}] += 0; m.tree[{b, a}] += p.second.w[2][3]; }
  }
}
void Ref::start(const World &w) {
  m = saved ? *saved : RModel(); m.tree_init = !m.tree.empty(); acct = m.time; bad.clear(); changed.clear(); newp.clear(); hist.clear(); ctx.clear(); model_dirty = dirty = false; hist_gap = false;
  auto r = w.running(); for (auto &e : m.ex) { e.second.run = r.count(e.first); e.second.chg = -1; }
  for (auto &p : m.pr) { p.second.st = combo(m, p.first); p.second.chg = m.time; for (double &d : p.second.ttl) { char b[64]; snprintf(b, sizeof b, "%lg", d); d = atof(b); } }
  init_algorithm();
}
static void permute(const std::vector<std::string> &l, std::function<void(const std::vector<std::string> &)> f) { std::vector<std::string> v = l; std::sort(v.begin(), v.end()); do f(v); while (std::next_permutation(v.begin(), v.end())); }

std::vector<Ref> Ref::scan(const World &w) const {
  Ref n = *this; n.changed.clear(); n.newp.clear(); std::vector<std::string> launched; auto r = w.running();
  for (auto &e : n.m.ex) { bool now = r.count(e.first); if (now && !e.second.run) launched.push_back(e.first); if (now != e.second.run) n.changed.insert(e.first); e.second.run = now; }
  for (auto &p : r) if (!n.m.ex.count(p.first) && !n.bad.count(p.first)) n.newp[p.first] = p.second;
  n.dirty = n.model_dirty = true;
  std::vector<Ref> out; if (!cfg.vomm || launched.empty()) { out.push_back(n); return out; }
  permute(launched, [&](const std::vector<std::string> &o) { Ref c = n; for (auto &x : o) c.launch(x); out.push_back(c); }); return out;
}
void Ref::pair_change(RPair &p, int ns) {
  int o = p.st; if (o == ns) return;
  p.w[o][o]++; p.ttl[o] += ((double)(m.time - p.chg) - p.ttl[o]) / p.w[o][o]; p.w[o][ns]++; p.st = ns; p.chg = m.time;
}
std::vector<Ref> Ref::update(const World &w) const {
  Ref n = *this; long now = n.m.time;
  for (auto &x : n.changed) if (n.m.ex.count(x)) n.m.ex[x].chg = now;
  for (auto &p : n.m.pr) if (n.changed.count(p.first.first) || n.changed.count(p.first.second)) n.pair_change(p.second, combo(n.m, p.first));
  n.changed.clear();
  std::vector<std::string> sure, maybe; auto regs_of = [&](const WProc &q) { std::multiset<Region> s; for (auto &r : q.regs) { Region n = r; n.path = w.norm_map(r.path); if (!n.path.empty()) s.insert(n); } return s; };
  std::map<std::string, std::multiset<Region>> regs;
  for (auto &p : n.newp) {
    int ok = 0; for (int pid : p.second) { const WProc *q = w.proc(pid); if (q && w.norm_exe(q->exe) == p.first) { ok++; regs[p.first] = regs_of(*q); } }
    if (ok && !n.m.ex.count(p.first)) (ok == (int)p.second.size() ? sure : maybe).push_back(p.first);
  }
  n.newp.clear(); std::vector<Ref> out;
  for (int mask = 0; mask < (1 << maybe.size()); mask++) {
    std::vector<std::string> l = sure; for (size_t i = 0; i < maybe.size(); i++) if (mask >> i & 1) l.push_back(maybe[i]);
    Ref c0 = n; std::vector<std::string> add;
    for (auto &x : l) { unsigned long sz = 0; for (auto &r : regs[x]) sz += r.len; if (!sz) continue; if ((long)sz < cfg.minsize) c0.bad.insert(x); else add.push_back(x); }
    auto reg = [&](Ref &c, const std::string &x) {
      RExe e; e.regs = regs[x]; e.run = true; e.chg = now;
      std::vector<std::string> others; for (auto &o : c.m.ex) others.push_back(o.first);
      c.m.ex[x] = e;
      for (auto &o : others) {
        PK k = pk(o, x); RPair p; p.st = combo(c.m, k); p.chg = now; long oc = c.m.ex[o].chg;
        if (oc > 0 && oc < now) { p.chg = oc; int s = p.st ^ (k.first == x ? 1 : 2); p.st = s; c.pair_change(p, combo(c.m, k)); }
        c.m.pr[k] = p;
      }
      if (cfg.vomm) c.launch(x);
    };
    auto fin = [&](Ref &c) {
      long d = now - c.acct; for (auto &e : c.m.ex) if (e.second.run) e.second.time += d; for (auto &p : c.m.pr) if (p.second.st == 3) p.second.time += d; c.acct = now; c.model_dirty = false; c.dirty = true; out.push_back(c);
    };
    if (!cfg.vomm || add.size() < 2) { Ref c = c0; for (auto &x : add) reg(c, x); fin(c); }
    else permute(add, [&](const std::vector<std::string> &o) { Ref c = c0; for (auto &x : o) reg(c, x); fin(c); });
  }
  return out;
}
void Ref::save(const World &w) {
  if (dirty) { saved = std::make_shared<RModel>(m); dirty = false; }
  std::set<std::string> gone; for (auto &e : m.ex) if (!e.second.run && w.fstat(e.first) == F_GONE) gone.insert(e.first);
  for (auto &g : gone) {
    m.ex.erase(g); changed.erase(g);
    for (auto i = m.pr.begin(); i != m.pr.end();) if (i->first.first == g || i->first.second == g) i = m.pr.erase(i); else ++i;
    for (auto i = m.tree.begin(); i != m.tree.end();) if (std::find(i->first.begin(), i->first.end(), g) != i->first.end()) i = m.tree.erase(i); else ++i;
    for (size_t i = 0; i < hist.size();) if (hist[i] == g) { hist.erase(hist.begin() + i); hist_gap = true; } else i++;
    if (std::find(ctx.begin(), ctx.end(), g) != ctx.end()) ctx.clear();
  }
  bad.clear();
}
std::set<Region> Ref::regions() const { std::set<Region> r; for (auto &e : m.ex) for (auto &x : e.second.regs) r.insert(x); return r; }

static std::string seqs(const Seq &s) { std::string r; for (auto &x : s) r += (r.empty() ? "" : " > ") + x; return r; }
std::string show(const RModel &r) {
  std::string s = fmt("time %ld\n", r.time);
  for (auto &e : r.ex) { s += "exe " + e.first + fmt(" t=%ld run=%d", e.second.time, e.second.run); for (auto &x : e.second.regs) s += fmt(" [%s %lu %lu]", x.path.c_str(), x.off, x.len); s += "\n"; }
  for (auto &p : r.pr) { s += "pair " + p.first.first + " " + p.first.second + fmt(" t=%ld ttl %g %g %g %g w", p.second.time, p.second.ttl[0], p.second.ttl[1], p.second.ttl[2], p.second.ttl[3]); for (int i = 0; i < 16; i++) s += fmt(" %d", p.second.w[i / 4][i % 4]); s += "\n"; }
  for (auto &t : r.tree) if (t.second) s += "seq " + seqs(t.first) + fmt(" = %ld\n", t.second);
  return s;
}
std::string Ref::key() const {
  std::string s = show(m) + fmt("init %d acct %ld md %d d %d gap %d\n", m.tree_init, acct, model_dirty, dirty, hist_gap);
  for (auto &e : m.ex) s += fmt("chg %ld ", e.second.chg); for (auto &p : m.pr) s += fmt("pst %d %ld ", p.second.st, p.second.chg);
  for (auto &x : bad) s += "bad " + x; for (auto &x : changed) s += "changed " + x; for (auto &x : newp) s += "new " + x.first; s += "hist " + seqs(hist) + "ctx " + seqs(ctx);
  if (saved) s += "saved\n" + show(*saved); return s;
}
static bool near(double a, double b) { return fabs(a - b) <= 2e-5 * std::max(1.0, std::max(fabs(a), fabs(b))); }
std::string diff_model(const RModel &r, const SState &s, int mask) {
  if ((mask & M_TIME) && s.time != r.time) return fmt("model time is %lld, expected %ld", s.time, r.time);
  if (mask & M_EXE) {
    for (auto &e : r.ex) { auto i = s.exes.find(e.first); if (i == s.exes.end()) return "program " + e.first + " is not known"; 
      if (i->second.regions != e.second.regs) { std::string a, b; for (auto &x : i->second.regions) a += fmt(" %s+%lu:%lu", x.path.c_str(), x.off, x.len); for (auto &x : e.second.regs) b += fmt(" %s+%lu:%lu", x.path.c_str(), x.off, x.len); return "program " + e.first + " has regions" + a + ", expected" + b; } }
    for (auto &e : s.exes) if (!r.ex.count(e.first)) return "program " + e.first + " is known but should not be";
  }
  if (mask & M_MAP) { std::set<Region> a, b = s.regions(); for (auto &e : r.ex) for (auto &x : e.second.regs) a.insert(x);
    for (auto &x : a) if (!b.count(x)) return fmt("region %s+%lu:%lu is missing", x.path.c_str(), x.off, x.len); for (auto &x : b) if (!a.count(x)) return fmt("region %s+%lu:%lu is known though no program uses it", x.path.c_str(), x.off, x.len); }
  if (mask & M_ACC) {
    for (auto &e : r.ex) { auto i = s.exes.find(e.first); if (i != s.exes.end() && i->second.time != e.second.time) return "running time of " + e.first + fmt(" is %lld, expected %ld", i->second.time, e.second.time); }
    for (auto &p : r.pr) { bool sw; const SMarkov *k = s.pair(p.first.first, p.first.second, sw); if (k && k->time != p.second.time) return "common running time of " + p.first.first + " and " + p.first.second + fmt(" is %lld, expected %ld", k->time, p.second.time); }
  }
  if (mask & M_PAIR) {
    for (auto &p : r.pr) {
      bool sw; const SMarkov *k = s.pair(p.first.first, p.first.second, sw); std::string n = p.first.first + " and " + p.first.second;
      // a pair never seen together may be absent only if it has no statistics at all
      if (!k) return "pair " + n + " is missing"; auto ix = [&](int i) { return sw ? (i == 1 ? 2 : i == 2 ? 1 : i) : i; };
      for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (k->w[ix(i)][ix(j)] != p.second.w[i][j]) return "pair " + n + fmt(": count of %s %d%s%d is %d, expected %d", i == j ? "leaving" : "transition", i, i == j ? " = " : "->", j, k->w[ix(i)][ix(j)], p.second.w[i][j]);
      for (int i = 0; i < 4; i++) if (!near(k->ttl[ix(i)], p.second.ttl[i])) return "pair " + n + fmt(": mean residence in combination %d is %g, expected %g", i, k->ttl[ix(i)], p.second.ttl[i]);
    }
    for (auto &k : s.markovs) if (!r.pr.count(pk(k.a, k.b))) return "pair " + k.a + " and " + k.b + " is known but should not be";
  }
  if (mask & M_SEQ) {
    auto t = s.tree(); for (auto &x : r.tree) if (x.second) { auto i = t.find(x.first); long c = i == t.end() ? 0 : i->second; if (c != x.second) return "launch sequence " + seqs(x.first) + fmt(" is counted %ld times, expected %ld", c, x.second); }
    for (auto &x : t) if (x.second) { auto i = r.tree.find(x.first); if (i == r.tree.end() || !i->second) return "launch sequence " + seqs(x.first) + fmt(" is counted %ld times, expected 0", x.second); }
  }
  return "";
}
