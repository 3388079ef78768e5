// Explorer: stateless exhaustive search over the decisions of an execution. Every decision with n
// alternatives forks one copy of the process per alternative; every copy runs to the end.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>

int  mc_choose(int n, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void mc_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void mc_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // harness problem, not a violation
[[noreturn]] void mc_leaf();                        // this execution is complete
[[noreturn]] void mc_leaf_exit();
bool mc_stopped();
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // describe the step (shown in traces)
void mc_state(const std::string &canonical);        // an observed state (counted once per distinct value)
void mc_state_h(uint64_t h);
bool mc_first(const std::string &s);                  // no other execution has asked with this value yet (always true in a replay): to follow equal states once
void mc_outcome(const std::string &s);              // observable outcome of this execution
void mc_eval(long n = 1);                           // a comparison with the oracle was made
void mc_trans(long n = 1);                          // transitions executed without a decision
void mc_helper_start();                             // this process is a forked helper of the program under test
bool mc_replaying();
uint64_t mc_hash(const std::string &s);
std::string mc_path_string();
// Observation without disturbance: fork a copy. Returns true in the copy, which goes on running the
// daemon and ends with mc_probe_end(text); returns false in the original, with that text in `result`.
bool mc_probe_begin(std::string &result);
[[noreturn]] void mc_probe_end(const std::string &text);
bool mc_in_probe();

struct CheckDef {
  const char *id;
  void (*run)();                                    // one execution (takes decisions, ends in mc_leaf)
  const char *bounds_quick, *bounds_thorough;       // what is enumerated, for the evidence file
};
extern CheckDef check;                              // defined by each check
extern bool mc_thorough;
int mc_param(const char *name, int quick, int thorough);
