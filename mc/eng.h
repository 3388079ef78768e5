// Exploration of event histories of the real daemon, step by step against the reference model.
#pragma once
#include "ref.h"
#include <signal.h>

struct Ev1 { std::string name; std::function<bool()> enabled; std::function<void()> act; int sig = 0; bool world = true; };
struct Eng {
  // configuration of the exploration
  std::vector<Ev1> events; int depth = 4;          // slots (half cycles) in which events may happen
  int perslot = 1;                                 // events per slot
  int total = 1000;                                // events in a whole history
  int settle = 2;                                  // half cycles run after the last event
  int mask = M_ALL; bool use_dump = true; bool compare = true; bool interior = true;
  int max_restarts = 2; bool downtime = false;     // events while the daemon is not running
  int cycle = 20, autosave = 100000; ConfB conf; std::vector<std::string> args;
  std::function<int()> script;                     // instead of the choice of events: called once per slot, may return a signal to deliver
  std::function<bool()> gate;                      // false: no events in this slot
  std::function<void()> at_observe, at_end;        // further checks of a check
  std::function<void(const std::string &)> at_saved;
  std::function<void(const std::vector<Req> &)> at_tick; size_t logpos = 0; // requests made by the prediction of a tick
  std::function<bool()> battery;                   // running on battery now
  std::function<void(int kind, size_t from)> at_step; size_t steppos = 0; // 0 tick, 1 update, 2 automatic save; the log of system calls since the previous step

  // state
  World w; std::vector<Ref> cand; RCfg cfg;
  int64_t t_step = 0, t_auto = 0, t_start = 0; int next_step = 0; int slots = 0, used = 0, inslot = 0, lastev = -1, restarts = 0; bool fresh = false; int pend = 0; bool ending = false; int settle_left = 0; bool restarting = false;
  int64_t last_t = -1; long autosave_n = 0;
  std::string desc;
  void go();
  void idle();
  void due();
  void observe(const char *where);
  int final = 0; std::string final_err; void leaf(); void check_dump(const Dump &d, const char *where);
  void check_file(const std::string &text, const char *where);
  void apply(std::function<void(Ref &)> f); void branch(std::function<std::vector<Ref>(const Ref &)> f);
  void mismatch(const std::string &d, const char *where);
  void sig(int s); void events_now();
  void reconfigure(std::function<void(Ref &)> f);  // called by an event that changed the configuration file and sends SIGHUP
  std::function<void(Ref &)> pend_conf;
};
extern Eng eng;
// common pieces of the world
struct ProgDef { std::string path; std::vector<Region> regs; };
void prog_file(const ProgDef &p);
void ev_toggle(const ProgDef &p, int pid, const char *name);               // process pid of program p starts / stops
void ev_delete(const ProgDef &p, const char *name);                        // its file is deleted / restored (running processes keep the deleted one)
void ev_replace(const ProgDef &p, const char *name);                       // its file is replaced by a new one while it may run
void ev_exec(int pid, const ProgDef &from, const ProgDef &to, const char *name); // process pid executes the other program
void ev_sig(int s, const char *name);
void ev_reload(const char *name, std::function<void(ConfB &, RCfg &)> f);  // the configuration file changes and SIGHUP is sent
void ev_do(const char *name, std::function<bool()> en, std::function<void()> act);
void ev_restart(const char *name);
void ev_multi(const char *name, std::vector<std::string> parts);           // several events at once
void ev_staterr(const ProgDef &p, int err, const char *name);              // stat of its file starts / stops failing
