#include "mc.h"
#include "vos.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

static const int HB = 23;                            // hash set: 8M slots
static const int MAXV = 64;
struct Viol { std::atomic<int> ready; char key[128]; char msg[6000]; char path[2000]; char labels[8000]; long count; };
struct Shm {
  std::atomic<int> tokens, stop, err, nviol, timeup;
  std::atomic<long> execs, forks, choices, alts, evals, trans, states, outcomes, maxlen, nsamples, probes;
  char errmsg[2000];
  Viol v[MAXV];
  char samples[16][4096]; char spath[16][2000]; std::atomic<uint64_t> south[16];
  struct Where { std::atomic<int> pid; bool own; char path[600], labels[3000]; } at[1 << 16]; // what each process is exploring (by process number)
  std::atomic<uint64_t> st[1 << HB]; std::atomic<uint64_t> oc[1 << 20];
};
static Shm *S; static FILE *OUT;
static bool own_token = true, replay = false, all_mode = false, is_helper = false, in_probe = false;
static std::vector<int> replay_path; static size_t replay_i = 0;
struct Ch { int n, pick; std::string label; };
static std::vector<Ch> path; static std::string notes; static uint64_t outh = 1469598103934665603ull;
static std::vector<std::string> known; static int probe_fd = -1;
bool mc_thorough = false; static std::map<std::string, int> params;
static double cpu_limit = 60;

int mc_param(const char *name, int q, int t) { auto i = params.find(name); if (i != params.end()) return i->second; return mc_thorough ? t : q; }
bool mc_replaying() { return replay; }
bool mc_stopped() { return S->stop.load(); }
uint64_t mc_hash(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h ? h : 1; }
static bool hs_add(std::atomic<uint64_t> *t, size_t n, uint64_t h) {
  for (size_t i = h & (n - 1), k = 0; k < 4096; i = (i + 1) & (n - 1), k++) { uint64_t v = t[i].load(std::memory_order_relaxed); if (v == h) return false; if (v == 0) { uint64_t z = 0; if (t[i].compare_exchange_strong(z, h)) return true; if (z == h) return false; } } return false;
}
void mc_state_h(uint64_t h) { if (hs_add(S->st, 1 << HB, h ? h : 1)) S->states++; }
void mc_state(const std::string &c) { mc_state_h(mc_hash(c)); }
bool mc_first(const std::string &s) { bool r = hs_add(S->st, 1 << HB, mc_hash(s)); return r || replay; }
void mc_outcome(const std::string &s) { uint64_t h = mc_hash(s); outh = (outh ^ h) * 1099511628211ull; if (hs_add(S->oc, 1 << 20, h)) S->outcomes++; }
void mc_eval(long n) { S->evals += n; }
void mc_trans(long n) { S->trans += n; }
std::string mc_path_string() { std::string s; for (auto &c : path) s += (s.empty() ? "" : ",") + std::to_string(c.pick); return s.empty() ? "-" : s; }
static std::string labels() { std::string s; for (auto &c : path) if (c.n > 1 || !c.label.empty()) s += (s.empty() ? "" : " ; ") + c.label; return s; }
void mc_note(const char *fmt, ...) { char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); notes += b; notes += '\n'; if (notes.size() > 60000) notes.erase(0, 20000); }
void mc_helper_start() { is_helper = true; own_token = false; }

static void arm() { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)cpu_limit; setitimer(ITIMER_PROF, &it, nullptr); }
[[noreturn]] static void die(int c) { for (;;) raw(SYS_exit_group, c); }
void mc_leaf_exit() { vos.on = false; if (own_token && !is_helper && !in_probe) S->tokens++; die(0); }

void mc_error(const char *fmt, ...) {
  vos.on = false; char b[1800]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  int z = 0; if (S->err.compare_exchange_strong(z, 1)) snprintf(S->errmsg, sizeof S->errmsg, "%s [path %s]", b, mc_path_string().c_str());
  S->stop = 1; mc_leaf_exit();
}
static bool is_known(const char *key, const char *lab) { for (auto &k : known) if (k == key) return true; return false; }
static void record(const char *key, const char *b, const char *pth, const char *lab) { // find or create the record of this key
  for (;;) {
    int n = S->nviol.load(); bool found = false;
    for (int i = 0; i < n && i < MAXV; i++) if (S->v[i].ready && !strcmp(S->v[i].key, key)) { S->v[i].count++; found = true; break; }
    if (found || n >= MAXV) break;
    if (S->nviol.compare_exchange_strong(n, n + 1)) {
      Viol &v = S->v[n]; snprintf(v.key, sizeof v.key, "%s", key); snprintf(v.msg, sizeof v.msg, "%s", b); snprintf(v.path, sizeof v.path, "%s", pth); snprintf(v.labels, sizeof v.labels, "%s", lab); v.count = 1; v.ready = 1; break;
    }
  }
  if (!all_mode && !is_known(key, b)) S->stop = 1;
  S->execs++;
}
static void here() { Shm::Where &w = S->at[raw(SYS_getpid) & 0xffff]; if (is_helper || in_probe) return; w.pid = raw(SYS_getpid); w.own = own_token; snprintf(w.path, sizeof w.path, "%s", mc_path_string().c_str()); snprintf(w.labels, sizeof w.labels, "%s", labels().c_str()); }
// an explored process died without reporting: the daemon's code destroyed so much that even the crash handler failed
static void died(int pid, int st) {
  int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0, code = WIFEXITED(st) ? WEXITSTATUS(st) : 0; if (!sig && (code == 0 || code == 77)) return;
  bool crash = sig == SIGSEGV || sig == SIGBUS || sig == SIGABRT || sig == SIGILL || sig == SIGFPE || sig == SIGTRAP || sig == SIGSYS || code == 99; Shm::Where &w = S->at[pid & 0xffff];
  char b[200]; if (sig) snprintf(b, sizeof b, "explored process killed by signal %d", sig); else snprintf(b, sizeof b, "explored process exited with %d", code);
  if (crash && w.pid == pid) { if (w.own) S->tokens++; if (replay) { fprintf(OUT, "FAILED crash:memory: %s\nsteps: %s\n", b, w.labels); fflush(OUT); } record("crash:memory", b, w.path, w.labels); return; }
  if (!S->err) { S->err = 1; snprintf(S->errmsg, sizeof S->errmsg, "%s", b); } S->stop = 1;
}
void mc_fail(const char *key, const char *fmt, ...) {
  vos.on = false; static char b[6000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (replay) { fprintf(OUT, "FAILED %s: %s\n", key, b); fprintf(OUT, "steps: %s\n%s", labels().c_str(), notes.c_str()); for (auto &e : vos.log) if (e.kind != "meminfo") fprintf(OUT, "  %s\n", e.str().c_str()); fprintf(OUT, "stderr of the daemon:\n%s\n", vos.err.c_str()); fflush(OUT); }
  record(key, b, mc_path_string().c_str(), labels().c_str());
  if (probe_fd >= 0) die(77);
  mc_leaf_exit();
}
static void take_sample() {
  long n = S->execs.load(); bool take = false; // 1st, 2nd, 4th, 8th ... completed executions
  if ((n & (n - 1)) == 0) take = true;
  if (!take) return; long i = S->nsamples++; if (i >= 16) { S->nsamples--; return; }
  snprintf(S->samples[i], sizeof S->samples[i], "%s", labels().c_str()); snprintf(S->spath[i], sizeof S->spath[i], "%s", mc_path_string().c_str()); S->south[i] = outh;
}
void mc_leaf() {
  vos.on = false; S->execs++; long l = path.size(), m = S->maxlen.load(); while (l > m && !S->maxlen.compare_exchange_weak(m, l)) ;
  if (replay) { fprintf(OUT, "COMPLETED outcome=%016llx\nsteps: %s\n%s", (unsigned long long)outh, labels().c_str(), notes.c_str()); fflush(OUT); if (replay_i != replay_path.size()) mc_error("replay did not consume its path"); S->south[0] = outh; }
  else take_sample();
  mc_leaf_exit();
}

int mc_choose(int n, const char *fmt, ...) {
  char lb[400]; va_list ap; va_start(ap, fmt); vsnprintf(lb, sizeof lb, fmt, ap); va_end(ap);
  if (is_helper || in_probe) mc_error("decision in a helper or probe");
  if (n <= 0) mc_error("empty decision %s", lb);
  bool s = vos.on; vos.on = false; int pick = 0;
  auto lab = [&](int i) { // "name:a|b|c" labels its alternatives
    std::string l = lb; size_t c = l.find(':'); if (c == std::string::npos) return l + "=" + std::to_string(i);
    std::string rest = l.substr(c + 1); int k = 0; size_t p = 0; while (k < i) { size_t q = rest.find('|', p); if (q == std::string::npos) return l.substr(0, c) + "=" + std::to_string(i); p = q + 1; k++; }
    return l.substr(0, c) + "=" + rest.substr(p, rest.find('|', p) == std::string::npos ? std::string::npos : rest.find('|', p) - p); };
  if (replay) {
    if (replay_i >= replay_path.size()) mc_error("replay path too short at %s", lb); pick = replay_path[replay_i++];
    if (pick < 0 || pick >= n) mc_error("replay divergence at %s: %d of %d", lb, pick, n);
    path.push_back({n, pick, lab(pick)}); vos.on = s; return pick;
  }
  if (n > 1) { S->choices++; S->alts += n; }
  for (int i = 0; i < n - 1; i++) {
    if (S->stop.load()) mc_leaf_exit();
    bool async = S->tokens.fetch_sub(1) > 0; if (!async) S->tokens++;
    int c = real_fork(); S->forks++;
    if (c < 0) mc_error("fork failed: %s", strerror(errno));
    if (c == 0) { own_token = async; path.push_back({n, i, lab(i)}); here(); arm(); vos.on = s; return i; }
    if (!async) { int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ; died(c, st); }
    else { int st; long q; while ((q = raw(SYS_wait4, -1, (long)&st, WNOHANG, 0)) > 0) died(q, st); }
  }
  if (S->stop.load()) mc_leaf_exit();
  path.push_back({n, n - 1, lab(n - 1)}); here(); arm(); vos.on = s; return n - 1;
}

bool mc_in_probe() { return in_probe; }
bool mc_probe_begin(std::string &r) {
  bool s = vos.on; vos.on = false; int p[2]; if (in_probe) mc_error("probe in probe"); if (raw(SYS_pipe2, (long)p, 0)) mc_error("pipe"); S->probes++;
  int c = real_fork(); if (c < 0) mc_error("fork");
  if (c == 0) { raw(SYS_close, p[0]); in_probe = true; probe_fd = p[1]; arm(); vos.on = s; return true; }
  raw(SYS_close, p[1]); r.clear(); char b[65536]; long k; while ((k = raw(SYS_read, p[0], (long)b, sizeof b)) > 0 || k == -EINTR) if (k > 0) r.append(b, k);
  raw(SYS_close, p[0]); int st = 0; while (raw(SYS_wait4, c, (long)&st, 0, 0) == -EINTR) ;
  if (WIFSIGNALED(st) || WEXITSTATUS(st) == 99) { int g = WIFSIGNALED(st) ? WTERMSIG(st) : 0; if (g == SIGKILL || g == SIGTERM) mc_error("probe killed by signal %d", g); mc_fail("crash:memory", "the daemon dies with %s %d", g ? "signal" : "status", g ? g : 99); }
  if (WEXITSTATUS(st) == 77 || S->stop.load()) mc_leaf_exit();
  if (r.empty()) mc_error("probe gave no answer"); r.erase(0, 1);
  vos.on = s; return false;
}
void mc_probe_end(const std::string &r0) {
  vos.on = false; if (!in_probe) mc_error("probe end outside probe"); std::string r = "=" + r0;
  size_t o = 0; while (o < r.size()) { long k = raw(SYS_write, probe_fd, (long)r.data() + o, r.size() - o); if (k <= 0) break; o += k; } die(0);
}

// ---------------------------------------------------------------- crash capture
extern "C" __attribute__((weak)) const char *__asan_get_report_description();
extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)());
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=8:quarantine_size_mb=8:thread_local_quarantine_size_kb=64"; }
static void asan_death() { const char *d = __asan_get_report_description ? __asan_get_report_description() : "error"; static char k[100]; snprintf(k, sizeof k, "memory-error:%s", d ? d : "?"); mc_fail(k, "AddressSanitizer: %s", d ? d : "?"); }
static void on_crash(int sig, siginfo_t *si, void *) {
  static int depth; if (depth++) die(99); // the report itself crashed: the parent reports
  if (sig == SIGPROF) mc_fail("hang", "no progress: %g seconds of CPU time without reaching the next event", cpu_limit);
  static char tail[1500]; size_t n = vos.err.size(); snprintf(tail, sizeof tail, "%s", vos.err.c_str() + (n > 1400 ? n - 1400 : 0));
  mc_fail(sig == SIGABRT ? "crash:abort" : "crash:signal", "killed by signal %d (%s)%s%s", sig, strsignal(sig), tail[0] ? "; last output: " : "", tail);
}
static void install() {
  static char stk[65536]; stack_t ss; ss.ss_sp = stk; ss.ss_size = sizeof stk; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
  if (!__sanitizer_set_death_callback) for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr); else { __sanitizer_set_death_callback(asan_death); for (int s : {SIGFPE, SIGILL}) sigaction(s, &sa, nullptr); }
}
static std::string esc(const char *s) { std::string r; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

int main(int argc, char **argv) {
  OUT = stdout;
  if (!getenv("MC_NORAND")) { // identical address layout on every run, where the sandbox allows it
    setenv("MC_NORAND", "1", 1); int p = personality(0xffffffff); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  unsetenv("HOSTNAME"); unsetenv("DBUS_SESSION_BUS_ADDRESS"); setenv("TZ", "UTC", 1); unsetenv("G_MESSAGES_DEBUG"); unsetenv("G_DEBUG"); setenv("LC_ALL", "C", 1); unsetenv("G_FILENAME_ENCODING"); unsetenv("G_BROKEN_FILENAMES"); unsetenv("POSIXLY_CORRECT"); unsetenv("LANGUAGE");
  int jobs = 8; double tlimit = 1e9; const char *outf = nullptr;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
    if (a == "--thorough") mc_thorough = true; else if (a == "--all") all_mode = true; else if (a == "--jobs") jobs = atoi(val()); else if (a == "--time") tlimit = atof(val());
    else if (a == "--out") outf = val(); else if (a == "--known") known.push_back(val()); else if (a == "--cpu") cpu_limit = atof(val());
    else if (a == "--param") { std::string k = val(); size_t e = k.find('='); params[k.substr(0, e)] = atoi(k.c_str() + e + 1); }
    else if (a == "--replay") { replay = true; std::string p = val(); if (p != "-") { const char *q = p.c_str(); while (*q) { char *e; replay_path.push_back(strtol(q, &e, 10)); q = *e ? e + 1 : e; } } }
    else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
  }
  S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 2; }
  S->tokens = jobs - 1; prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
  struct timespec t0; raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t0);
  fflush(OUT); int root = real_fork();
  if (root == 0) {
    if (!replay) { int n = raw(SYS_open, (long)"/dev/null", O_RDWR, 0); raw(SYS_dup2, n, 0); raw(SYS_dup2, n, 2); if (n > 2) raw(SYS_close, n); }
    install(); here(); arm(); check.run(); mc_leaf();
  }
  struct timespec t1; bool killed = false;
  for (;;) {
    int st; int r = raw(SYS_wait4, -1, (long)&st, WNOHANG, 0);
    if (r == -ECHILD) break;
    if (r > 0) { died(r, st); continue; }
    struct timespec ts = {0, 2000000}; raw(SYS_nanosleep, (long)&ts, 0);
    raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t1); double el = t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) / 1e9;
    if (el > tlimit && !S->stop) { S->timeup = 1; S->stop = 1; }
    (void)killed;
  }
  raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t1); double el = t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) / 1e9;
  std::string j = "{"; auto num = [&](const char *k, long v) { j += std::string(j.size() > 1 ? "," : "") + "\"" + k + "\":" + std::to_string(v); };
  num("execs", S->execs); num("forks", S->forks); num("decisions", S->choices); num("alternatives", S->alts); num("evals", S->evals); num("transitions", S->alts + S->trans); num("states", S->states); num("outcomes", S->outcomes); num("maxlen", S->maxlen); num("probes", S->probes); num("timeup", S->timeup); num("error", S->err);
  char f[64]; snprintf(f, sizeof f, ",\"wall\":%.2f", el); j += f; j += ",\"errmsg\":\"" + esc(S->errmsg) + "\",\"bounds\":\"" + esc(mc_thorough ? check.bounds_thorough : check.bounds_quick) + "\"";
  j += ",\"violations\":["; int nv = std::min(S->nviol.load(), MAXV); for (int i = 0; i < nv; i++) { Viol &v = S->v[i]; j += std::string(i ? "," : "") + "{\"key\":\"" + esc(v.key) + "\",\"msg\":\"" + esc(v.msg) + "\",\"path\":\"" + v.path + "\",\"labels\":\"" + esc(v.labels) + "\",\"count\":" + std::to_string(v.count) + "}"; }
  j += "],\"samples\":["; int ns = std::min(S->nsamples.load(), 16l); for (int i = 0; i < ns; i++) { char o[40]; snprintf(o, sizeof o, "%016llx", (unsigned long long)S->south[i].load()); j += std::string(i ? "," : "") + "{\"path\":\"" + S->spath[i] + "\",\"steps\":\"" + esc(S->samples[i]) + "\",\"outcome\":\"" + o + "\"}"; }
  j += "]}\n";
  if (outf) { FILE *o = fopen(outf, "w"); if (o) { fputs(j.c_str(), o); fclose(o); } } else if (!replay) fputs(j.c_str(), stdout);
  if (S->err) { fprintf(stderr, "ERROR %s\n", S->errmsg); return 2; }
  return S->nviol ? 1 : 0;
}
