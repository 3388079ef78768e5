// What the prediction must ask for: need of every region, computed from the reference model.
#pragma once
#include "eng.h"
#include <cmath>
#include <algorithm>
// log of the probability that the program is NOT needed, per program
static inline double corr_of(const RModel &m, const PK &k, const RPair &p) {
  double t = m.time, a = m.ex.at(k.first).time, b = m.ex.at(k.second).time, ab = p.time; if (a <= 0 || b <= 0 || a >= t || b >= t) return 0;
  double ea = a / t, eb = b / t, c = (ab / t - ea * eb) / sqrt(ea * (1 - ea) * eb * (1 - eb)); if (fabs((double)t * ab - a * b) < .5) c = 0; return c > 1 ? 1 : c < -1 ? -1 : c;
}
static inline std::map<std::string, double> markov_bids(const RModel &m, int cycle, bool usecorr) {
  std::map<std::string, double> l; for (auto &e : m.ex) l[e.first] = 0;
  for (auto &q : m.pr) { const RPair &p = q.second; int s = p.st; if (p.w[s][s] <= 0 || !(p.ttl[s] > 1)) continue;
    double c = usecorr ? fabs(corr_of(m, q.first, p)) : 1, leave = 1 - exp(-1.5 * cycle / p.ttl[s]);
    for (int y = 1; y <= 2; y++) if (!(s & y)) { double share = (p.w[s][y] + p.w[s][3]) / (p.w[s][s] + 0.01); l[y == 1 ? q.first.first : q.first.second] += log(1 - c * leave * share); } }
  return l;
}
// bids by the launch sequences: history, current context and overall frequency
static inline std::map<std::string, double> vomm_bids(const Ref &r) {
  const RModel &m = r.m; std::map<std::string, double> l; for (auto &e : m.ex) l[e.first] = 0; typedef std::map<std::string, long> Kids;
  auto kids = [&](const Seq &s) { Kids k; for (auto &t : m.tree) if (t.first.size() == s.size() + 1 && std::equal(s.begin(), s.end(), t.first.begin())) k[t.first.back()] = t.second; return k; };
  auto bid = [&](const std::string &x, double p) { if (m.ex.count(x) && !m.ex.at(x).run) l[x] += log(1 - p); };
  auto ppm = [&](const Kids &k) { long tot = 0; for (auto &x : k) tot += x.second; if (tot) for (auto &x : k) bid(x.first, std::max(1e-9, std::min(1 - 1e-9, (double)x.second / tot))); };
  for (auto &h : r.hist) ppm(kids({h}));
  if (!r.ctx.empty()) { Kids k = kids(r.ctx); ppm(k); for (auto &x : k) if (x.second > 0) bid(x.first, .1); }
  long tot = 0; for (auto &t : m.tree) if (t.first.size() == 2) tot += t.second;
  if (tot) for (auto &t : m.tree) if (t.first.size() == 2 && t.second > 0) bid(t.first.back(), std::min(.5, .1 + .4 * t.second / tot));
  return l;
}
static inline std::map<Region, double> region_needs(const RModel &m, const std::map<std::string, double> &bids) {
  std::map<Region, double> n; for (auto &e : m.ex) for (auto &r : e.second.regs) n[r] += e.second.run ? 1 : bids.at(e.first); return n;
}
// requests (one per region, in rank order) against needs; "" if they agree
static inline std::string diff_ranked(const std::map<Region, double> &n, const std::vector<Req> &q) {
  std::set<Region> got; double last = -1e300; std::string lastn;
  for (auto &r : q) { Region x{r.path, (unsigned long)r.off, (unsigned long)r.len}; auto i = n.find(x); std::string nm = fmt("%s+%ld:%ld", r.path.c_str(), r.off, r.len); if (i == n.end()) return "request for " + nm + " which is no known region"; if (!got.insert(x).second) return "region " + nm + " is requested twice";
    if (i->second > -1e-9 && !(i->second < 0 && i->second > -1e-9)) return "region " + nm + fmt(" is prefetched without need (log of not being needed %.9g)", i->second);
    if (i->second < last - 1e-7 * std::max(1.0, fabs(last))) return "region " + nm + fmt(" (log of not being needed %.9g) is ranked after %s (%.9g)", i->second, lastn.c_str(), last); last = i->second; lastn = nm; }
  for (auto &x : n) if (x.second < -1e-9 && !got.count(x.first)) return "region " + x.first.path + fmt(" is needed (log of not being needed %.9g) and there is memory, but it is not prefetched", x.second);
  return "";
}
// the state file holding a model
static inline StateW file_of(const RModel &m, int flip = 0) {
  StateW s; s.time = m.time; std::map<std::string, int> id; for (auto &e : m.ex) { id[e.first] = s.exe(e.first, e.second.time); for (auto &r : e.second.regs) s.use(id[e.first], s.map(r.path, r.off, r.len)); }
  int i = 0; for (auto &p : m.pr) { bool f = flip >> i++ & 1; auto &k = f ? s.mk(id[p.first.second], id[p.first.first]) : s.mk(id[p.first.first], id[p.first.second]); k.time = p.second.time; auto ix = [&](int x) { return f && (x == 1 || x == 2) ? 3 - x : x; }; for (int a = 0; a < 4; a++) { k.ttl[ix(a)] = p.second.ttl[a]; for (int b = 0; b < 4; b++) k.w[ix(a)][ix(b)] = p.second.w[a][b]; } }
  std::map<Seq, int> nid; int n = 0; for (auto &t : m.tree) { Seq par(t.first.begin(), t.first.end() - 1); nid[t.first] = ++n; s.nodes.push_back({n, id[t.first.back()], (int)t.second, par.empty() ? 0 : nid[par]}); }
  return s;
}
