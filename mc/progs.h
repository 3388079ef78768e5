// Programs used by several checks.
#pragma once
#include "eng.h"
#include <algorithm>
static ProgDef PA{"/usr/bin/a", {{"/usr/bin/a", 0, 8192}, {"/usr/lib/libc.so", 0, 4096}}};
static ProgDef PB{"/usr/bin/b", {{"/usr/bin/b", 0, 8192}, {"/usr/lib/libc.so", 0, 4096}, {"/usr/lib/libb.so", 4096, 12288}}};
static ProgDef PC{"/usr/bin/c", {{"/usr/bin/c", 0, 4096}, {"/usr/lib/libc.so", 8192, 4096}}};
static ProgDef PD{"/usr/bin/d", {{"/usr/bin/d", 0, 4096}, {"/usr/lib/libc.so", 0, 8192}}};
static ProgDef PS{"/usr/bin/s", {{"/usr/bin/s", 0, 999}}};
// the state file (and what the daemon must know after loading it) of some programs, listed in the order of the n-th permutation; with: their pairs have a past
static inline void load_model(std::vector<const ProgDef *> P, int n, long time, bool with) {
  std::vector<int> ix; for (size_t i = 0; i < P.size(); i++) ix.push_back(i); while (n-- > 0) std::next_permutation(ix.begin(), ix.end());
  StateW w; w.time = time; Ref r; auto m = std::make_shared<RModel>(); m->time = time; std::map<std::string, int> id;
  for (int i : ix) { id[P[i]->path] = w.exe(P[i]->path, with ? time / 2 : 0); RExe e; e.time = with ? time / 2 : 0; for (auto &x : P[i]->regs) { w.use(id[P[i]->path], w.map(x.path, x.off, x.len)); e.regs.insert(x); } m->ex[P[i]->path] = e; }
  for (auto &x : id) for (auto &y : id) if (x.first < y.first) { RPair p; if (with) { p.time = time / 4; p.ttl[0] = 25; p.ttl[1] = 10; p.w[0][0] = 20; p.w[0][1] = 8; p.w[0][2] = 12; p.w[1][1] = 8; p.w[1][3] = 8; }
    bool f = x.second > y.second; auto &k = f ? w.mk(y.second, x.second) : w.mk(x.second, y.second); k.time = p.time; auto sx = [&](int v) { return f && (v == 1 || v == 2) ? 3 - v : v; }; for (int a = 0; a < 4; a++) { k.ttl[sx(a)] = p.ttl[a]; for (int b = 0; b < 4; b++) k.w[sx(a)][sx(b)] = p.w[a][b]; } m->pr[PK(x.first, y.first)] = p; }
  vos.put(STATE, w.text()); r.saved = m; eng.cand = {r};
}
static inline void all_files() { for (auto *p : {&PA, &PB, &PC, &PD, &PS}) prog_file(*p); }
