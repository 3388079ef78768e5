#include "progs.h"
#include "need.h"
#include <cerrno>
#include <sys/stat.h>
static void run() {
  world_init(); all_files(); eng.mask = M_EXE | M_MAP | M_PAIR | M_SEQ | M_ACC; eng.cfg.vomm = mc_choose(2, "algorithm:Markov|VOMM"); int part = mc_choose(3, "part:histories|file conditions|loaded sequences");
  if (part == 0) {
    ev_toggle(PA, 10, "A"); ev_toggle(PB, 11, "B"); ev_delete(PA, "delete-A"); ev_delete(PB, "delete-B"); ev_staterr(PA, EACCES, "A-unreadable"); ev_sig(SIGUSR2, "save"); ev_restart("restart"); eng.max_restarts = 1; 
    if (mc_choose(2, "autosave:never|35 s")) eng.autosave = 35;
    eng.depth = mc_param("depth", 4, 6); eng.perslot = mc_param("perslot", 2, 2); eng.total = mc_param("events", 4, 5);
  } else if (part == 2) { // sequences from the state file, which the running algorithm may not be using
    load_model({&PA, &PB, &PC}, 0, 1000, true); auto m = std::make_shared<RModel>(*eng.cand[0].saved); m->tree[{PA.path}] = 4; m->tree[{PA.path, PB.path}] = 2; m->tree[{PA.path, PB.path, PC.path}] = 1; m->tree[{PB.path}] = 3; m->tree[{PC.path}] = 1; m->tree[{PC.path, PA.path}] = 5; eng.cand[0].saved = m; vos.put(STATE, file_of(*m).text());
    ev_toggle(PA, 10, "A"); ev_delete(PA, "delete-A"); ev_delete(PB, "delete-B"); ev_delete(PC, "delete-C"); ev_sig(SIGUSR2, "save"); ev_restart("restart"); eng.max_restarts = 2; eng.depth = mc_param("depth2", 4, 5); eng.perslot = 3; eng.total = mc_param("events2", 4, 6);
  } else { // two programs, each running or not, with every condition of their files, when a save comes
    static const int err[] = {0, ENOENT, ENOTDIR, EACCES, EIO, ELOOP, ENAMETOOLONG, ESTALE, ENOMEM, EOVERFLOW, ETIMEDOUT}; static const mode_t mode[] = {0, S_IFDIR, S_IFIFO, S_IFCHR, S_IFBLK, S_IFSOCK, S_IFREG | 0755, S_IFREG | 0644, S_IFREG | 0755, S_IFDIR, 0};
    static int ca, cb; static bool ra, rb; auto pick = [](const char *n) { return mc_choose(mc_param("conditions", 21, 21), "%s:fine|ENOENT|ENOTDIR|EACCES|EIO|ELOOP|ENAMETOOLONG|ESTALE|ENOMEM|EOVERFLOW|ETIMEDOUT|directory|fifo|character device|block device|socket|empty|not executable|link to a file|link to a directory|link to nothing", n); };
    ca = pick("file of A"); cb = pick("file of B"); ra = mc_choose(2, "A:stopped|running"); rb = mc_choose(2, "B:stopped|running"); int how = mc_choose(3, "save:requested|automatic|requested before the model update");
    for (auto *p : {&PA, &PB, &PC}) eng.w.procs.push_back({p == &PA ? 10 : p == &PB ? 11 : 12, p->path, p->regs});
    auto set = [](const ProgDef &p, int c, bool run, int pid) { if (c > 10) vos.put(p.path, c == 16 ? "" : "x", mode[c - 10]); if (c > 17) vos.symlinks.insert(p.path); if (c == 20) vos.rm(p.path); if (c > 10) ; else if (err[c]) vos.stat_err[p.path] = err[c]; if (!run) for (size_t i = 0; i < eng.w.procs.size(); i++) if (eng.w.procs[i].pid == pid) { eng.w.procs.erase(eng.w.procs.begin() + i); break; } };
    static int step; step = 0; static int save_at; save_at = how == 2 ? 2 : 3; if (how == 1) eng.autosave = 35;
    ev_do("change", []() { return step == 1; }, [set]() { set(PA, ca, ra, 10); set(PB, cb, rb, 11); }); ev_sig(SIGUSR2, "save"); eng.events.back().enabled = []() { return step == save_at && eng.autosave != 35; };
    eng.gate = []() { if (eng.inslot == 0) step++; return false; }; 
    // fixed script: slot 0 nothing (tracked at the first update), slot 1 the change, slot 2 scanned, slot 3 updated
    eng.gate = []() { step = eng.slots; if (eng.inslot) return false; for (size_t i = 0; i < eng.events.size(); i++) if (eng.events[i].enabled()) { eng.inslot++; eng.events[i].act(); eng.w.sync(); if (eng.events[i].sig) eng.sig(eng.events[i].sig); return false; } return false; };
    eng.depth = 5;
  }
  eng.go();
}
CheckDef check = {"C19", run,
  "every history of up to 4 events in 4 half-cycles (start, stop, delete and restore two programs, unreadable file, save, restart), with and without autosave, both algorithms; every combination of 21 conditions of the files of two programs, running or not, at three save moments; every history of up to 4 events on loaded launch sequences under either algorithm",
  "5 events in 6 half-cycles"};
