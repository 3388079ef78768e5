#include "dm.h"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <getopt.h>
#include <glib.h>
#include <signal.h>
#include <unistd.h>

FILE *vos_stdio(int fd);
extern char __start_dmn_data[] __attribute__((weak)), __stop_dmn_data[] __attribute__((weak));
extern char __start_dmn_bss[] __attribute__((weak)), __stop_dmn_bss[] __attribute__((weak));
static std::string snap_data; static bool snapped = false; static FILE *so, *se;

static void rawcpy(char *d, const char *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static void rawzero(char *d, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory"); }

std::string fmt(const char *f, ...) { char b[4000]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); if (n >= (int)sizeof b) { std::string s(n + 1, 0); va_start(ap, f); vsnprintf(&s[0], n + 1, f, ap); va_end(ap); s.resize(n); return s; } return b; }
bool contains(const std::string &h, const std::string &n) { return h.find(n) != std::string::npos; }
int count_of(const std::string &h, const std::string &n) { int c = 0; for (size_t p = h.find(n); p != std::string::npos; p = h.find(n, p + n.size())) c++; return c; }

void world_init() {
  vos.mkdirs("/var/lib/preload"); vos.mkdirs("/etc"); vos.mkdirs("/var/log"); vos.mkdirs("/proc"); vos.mkdirs("/sys/class/power_supply"); vos.mkdirs("/usr/bin"); vos.mkdirs("/work");
  vos.set_mem(8000000, 2000000, 4000000, 100000, 1000000);
  vos.vmstat = "nr_free_pages 1\npgpgin 1000\npgpgout 2000\npswpin 0\n"; vos.procstat = "cpu 1 2 3\npage 5 6\n";
  vos.now_us = 1000000000; vos.cwd = "/work";
}
std::string ConfB::text() const { std::string s = "[model]\n"; for (auto &k : model) s += k.first + " = " + k.second + "\n"; s += "\n[system]\n"; for (auto &k : system) s += k.first + " = " + k.second + "\n"; return s; }
void set_conf(const ConfB &c) { vos.put(CONF, c.text()); }
std::vector<std::string> std_args(int v) { return {"-f", "-l", "", "-c", CONF, "-s", STATE, "-V", std::to_string(v)}; }

void restart_process() {
  if (!snapped) {
    snapped = true; size_t n = __stop_dmn_data - __start_dmn_data; snap_data.resize(n); rawcpy(&snap_data[0], __start_dmn_data, n);
    if (__start_dmn_data == nullptr || __start_dmn_bss == nullptr) mc_error("daemon data sections not found");
    so = vos_stdio(1); se = vos_stdio(2);
  } else {
    rawcpy(__start_dmn_data, snap_data.data(), snap_data.size()); rawzero(__start_dmn_bss, __stop_dmn_bss - __start_dmn_bss);
    guint id = g_idle_add([](gpointer) -> gboolean { return FALSE; }, nullptr); // ids are handed out in sequence
    for (guint i = 1; i <= id; i++) if (GSource *s = g_main_context_find_source_by_id(nullptr, i)) g_source_destroy(s);
    g_log_set_default_handler(g_log_default_handler, nullptr);
  }
  optind = 0; opterr = 1; optarg = nullptr; vos.reset_process();
}

int run_daemon(const std::vector<std::string> &args) {
  restart_process();
  static std::vector<std::string> keep; keep = args; keep.insert(keep.begin(), "preload"); static std::vector<char *> av; av.clear(); for (auto &a : keep) av.push_back(&a[0]); int ac = av.size(); av.push_back(nullptr);
  FILE *o1 = stdout, *o2 = stderr; stdout = so; stderr = se;
  jmp_buf jb; vos.exit_jmp = &jb; volatile int st;
  if (setjmp(jb) == 0) { vos.on = true; st = preload_daemon_main(ac, av.data()); vos.on = false; if (vos.helper) { vos.ev(Ev{"escaped", "main"}); raw(231, 0); } }
  else st = vos.exit_status;
  vos.on = false; if (vos.on_daemon_exit && mc_in_probe()) vos.on_daemon_exit(st); vos.exit_jmp = nullptr; fflush(so); fflush(se); stdout = o1; stderr = o2;
  if (contains(vos.err, "GLib-CRITICAL") || contains(vos.err, "assertion '")) { size_t p = vos.err.find("CRITICAL"); if (p == std::string::npos) p = vos.err.find("assertion '"); mc_fail("glib-critical", "internal assertion reported: %s", vos.err.substr(p > 60 ? p - 60 : 0, 300).c_str()); }
  return st;
}
void deliver(int sig) {
  int r = vos.signal(sig);
  if (r == -1) mc_fail("unhandled-signal", "signal %d is not handled: the daemon dies without saving", sig);
}

std::string map_line(unsigned long start, unsigned long len, unsigned long off, const std::string &path, const char *perm) {
  return fmt("%lx-%lx %s %08lx 08:01 131077", start, start + len, perm, off) + std::string(path.empty() ? 0 : 21, ' ') + path + "\n";
}
std::string maps_text(const std::vector<Region> &r) {
  // every kind of access, device and inode number the kernel may print; anonymous and special areas in between
  static const char *const perm[] = {"r-xp", "r--p", "rw-p", "r--s", "---p", "rwxp", "rw-s", "-w-p"}; static const char *const dev[] = {"08:01 131077", "fd:00 7", "00:1f 18446744073709551615", "103:05 1", "00:00 0"};
  static const char *const odd[] = {"00:00 0 \n", "00:00 0                                  [heap]\n", "00:00 0                                  [anon:scudo primary]\n", "00:01 2049                               /dev/zero (deleted)\n", "00:0e 1041                               anon_inode:[eventpoll]\n", "00:01 65538                              /memfd:pulse audio (deleted)\n", "00:01 98304                              /SYSV00000000 (deleted)\n"};
  std::string s; unsigned long a = 0x400000; int k = 0; for (auto &x : r) { s += fmt("%08lx-%08lx %s %08lx %s", a, a + x.len, perm[k % 8], x.off, dev[k % 5]) + std::string(k % 3 * 7 + 1, ' ') + x.path + "\n"; a += x.len + 0x10000; s += fmt("%lx-%lx rw-p 00000000 ", a, a + 0x1000) + odd[k % 7]; a += 0x11000; k++; }
  s += map_line(0x7ffd0000, 0x21000, 0, "[stack]", "rw-p"); s += "ffffffffff600000-ffffffffff601000 --xp 00000000 00:00 0                  [vsyscall]\n"; s += "7f0000000000-7f0000001000 rw-p 00000000 00:00 0 \n"; return s;
}
void proc_start(int pid, const std::string &exe, const std::vector<Region> &r) { VProc p; p.pid = pid; p.exe = exe; p.maps = maps_text(r); vos.procs.push_back(p); }
void proc_stop(int pid) { for (size_t i = 0; i < vos.procs.size(); i++) if (vos.procs[i].pid == pid) { vos.procs.erase(vos.procs.begin() + i); return; } }
bool proc_alive(int pid) { for (auto &p : vos.procs) if (p.pid == pid) return true; return false; }

std::string uri(const std::string &p) { // as RFC 2396 file URIs: what the daemon may write is parsed, this is only for input files
  std::string s = "file://"; for (unsigned char c : p) if (isalnum(c) || strchr("/-_.!~*'()$&+,:=@", c)) s += c; else s += fmt("%%%02X", c); return s;
}
std::string unuri(const std::string &u, bool &ok) {
  ok = false; if (u.compare(0, 7, "file://")) return ""; std::string r; for (size_t i = 7; i < u.size(); i++) { if (u[i] == '%') { if (i + 2 >= u.size() || !isxdigit((unsigned char)u[i + 1]) || !isxdigit((unsigned char)u[i + 2])) return ""; r += (char)strtol(u.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += u[i]; }
  ok = !r.empty() && r[0] == '/'; return r;
}
SState parse_state(const std::string &t) {
  SState s; std::map<long long, SMap> ms; std::map<long long, std::string> es; size_t i = 0; int ln = 0;
  auto bad = [&](const std::string &m) { s.err = fmt("line %d: %s", ln, m.c_str()); return s; };
  if (!t.empty() && t.back() != '\n') { s.err = "last line incomplete"; return s; }
  while (i < t.size()) {
    size_t j = t.find('\n', i); std::string l = t.substr(i, j - i); i = j + 1; ln++; std::vector<std::string> f; size_t k = 0;
    for (;;) { size_t q = l.find('\t', k); f.push_back(l.substr(k, q == std::string::npos ? q : q - k)); if (q == std::string::npos) break; k = q + 1; }
    auto N = [&](int x) { return atoll(f[x].c_str()); }; bool ok;
    if (f[0] == "PRELOAD") { if (ln != 1 || f.size() != 3) return bad("header"); s.version = f[1]; s.time = N(2); }
    else if (ln == 1) return bad("no header");
    else if (f[0] == "MAP") { if (f.size() != 7) return bad("MAP fields"); SMap m{N(1), N(2), strtoul(f[3].c_str(), 0, 10), strtoul(f[4].c_str(), 0, 10), unuri(f[6], ok)}; if (!ok) return bad("uri"); if (ms.count(m.seq)) return bad("duplicate map number"); for (auto &x : s.maps) if (x.path == m.path && x.off == m.off && x.len == m.len) return bad("region listed twice"); ms[m.seq] = m; s.maps.push_back(m); }
    else if (f[0] == "BADEXE") { if (f.size() != 4) return bad("BADEXE fields"); s.bad.push_back(unuri(f[3], ok)); if (!ok) return bad("uri"); }
    else if (f[0] == "EXE") { if (f.size() != 6) return bad("EXE fields"); SExe e; e.seq = N(1); e.update = N(2); e.time = N(3); e.path = unuri(f[5], ok); if (!ok) return bad("uri"); if (es.count(e.seq) || s.exes.count(e.path)) return bad("duplicate program"); es[e.seq] = e.path; s.exes[e.path] = e; }
    else if (f[0] == "EXEMAP") { if (f.size() != 4) return bad("EXEMAP fields"); if (!es.count(N(1)) || !ms.count(N(2))) return bad("EXEMAP index"); SMap &m = ms[N(2)]; s.exes[es[N(1)]].regions.insert({m.path, m.off, m.len}); if (atof(f[3].c_str()) != 1) return bad("EXEMAP probability"); }
    else if (f[0] == "MARKOV") { if (f.size() != 24) return bad("MARKOV fields"); if (!es.count(N(1)) || !es.count(N(2))) return bad("MARKOV index"); SMarkov m; m.a = es[N(1)]; m.b = es[N(2)]; m.time = N(3); for (int a = 0; a < 4; a++) m.ttl[a] = atof(f[4 + a].c_str()); for (int a = 0; a < 16; a++) m.w[a / 4][a % 4] = atoi(f[8 + a].c_str()); for (auto &x : s.markovs) if ((x.a == m.a && x.b == m.b) || (x.a == m.b && x.b == m.a)) return bad("pair listed twice"); if (m.a == m.b) return bad("pair of one program"); s.markovs.push_back(m); }
    else if (f[0] == "VOMMNODE") { if (f.size() != 5) return bad("VOMMNODE fields"); if (!es.count(N(2))) return bad("VOMMNODE index"); s.nodes.push_back({N(1), N(4), es[N(2)], (long)N(3)}); }
    else if (f[0].empty() || f[0][0] == '#') {}
    else return bad("unknown record " + f[0]);
  }
  if (ln == 0) { s.err = "empty"; return s; }
  s.ok = true; return s;
}
std::map<std::vector<std::string>, long> SState::tree() const {
  std::map<long long, std::vector<std::string>> at; at[0] = {}; std::map<std::vector<std::string>, long> r; 
  for (auto &n : nodes) { auto p = at.find(n.parent); std::vector<std::string> v; if (p == at.end()) v.push_back("(orphan)"); else v = p->second; v.push_back(n.exe); if (r.count(v)) v.push_back("(dup)"); at[n.id] = v; r[v] = n.count; }
  return r;
}
std::set<Region> SState::regions() const { std::set<Region> r; for (auto &m : maps) r.insert({m.path, m.off, m.len}); return r; }
const SMarkov *SState::pair(const std::string &x, const std::string &y, bool &sw) const { for (auto &m : markovs) { if (m.a == x && m.b == y) { sw = false; return &m; } if (m.a == y && m.b == x) { sw = true; return &m; } } return nullptr; }
std::string SState::canon(bool upd) const {
  std::string s = fmt("time %lld\n", time); std::set<std::string> l;
  for (auto &m : maps) l.insert("map " + m.path + fmt(" %lu %lu", m.off, m.len) + (upd ? fmt(" %lld", m.update) : ""));
  for (auto &e : exes) { std::string x = "exe " + e.first + fmt(" t=%lld", e.second.time) + (upd ? fmt(" u=%lld", e.second.update) : ""); for (auto &r : e.second.regions) x += " [" + r.path + fmt(" %lu %lu]", r.off, r.len); l.insert(x); }
  for (auto m : markovs) { if (m.b < m.a) { std::swap(m.a, m.b); std::swap(m.ttl[1], m.ttl[2]); for (int i = 0; i < 4; i++) std::swap(m.w[i][1], m.w[i][2]); for (int i = 0; i < 4; i++) std::swap(m.w[1][i], m.w[2][i]); }
    std::string x = "pair " + m.a + " " + m.b + fmt(" t=%lld ttl %g %g %g %g w", m.time, m.ttl[0], m.ttl[1], m.ttl[2], m.ttl[3]); for (int i = 0; i < 16; i++) x += fmt(" %d", m.w[i / 4][i % 4]); l.insert(x); }
  for (auto &n : tree()) { std::string x = "seq"; for (auto &p : n.first) x += " > " + p; l.insert(x + fmt(" = %ld", n.second)); }
  for (auto &x : l) s += x + "\n"; return s;
}
std::string StateW::text() const {
  std::string s = fmt("PRELOAD\t%s\t%lld\n", version.c_str(), time);
  for (auto &m : maps) s += fmt("MAP\t%lld\t%lld\t%lu\t%lu\t-1\t", m.seq, m.update, m.off, m.len) + uri(m.path) + "\n";
  for (auto &e : exes) s += fmt("EXE\t%lld\t%lld\t%lld\t-1\t", e.seq, e.update, e.time) + uri(e.path) + "\n";
  for (auto &e : exemaps) s += fmt("EXEMAP\t%d\t%d\t1\n", e.first, e.second);
  for (auto &m : mks) { s += fmt("MARKOV\t%d\t%d\t%lld", m.a, m.b, m.time); for (double d : m.ttl) s += fmt("\t%lg", d); for (int i = 0; i < 16; i++) s += fmt("\t%d", m.w[i / 4][i % 4]); s += "\n"; }
  for (auto &n : nodes) s += fmt("VOMMNODE\t%d\t%d\t%d\t%d\n", n.id, n.exe, n.count, n.parent);
  return s;
}
Dump parse_dump(const std::string &t) {
  Dump d; auto num = [&](const char *k, long &v) { size_t p = t.rfind(k); if (p != std::string::npos) v = atol(t.c_str() + p + strlen(k)); };
  num("preload time = ", d.time); num("num exes = ", d.exes); num("num bad exes = ", d.bad); num("num maps = ", d.maps); num("num running exes = ", d.running);
  size_t p = t.rfind("# loaded configuration at"), q = t.rfind("# loaded configuration - end");
  if (p != std::string::npos && q != std::string::npos && q > p) { size_t i = t.find('\n', p) + 1; std::string grp; while (i < q) { size_t j = t.find('\n', i); std::string l = t.substr(i, j - i); i = j + 1; if (l[0] == '[') grp = l.substr(1, l.size() - 2); else { size_t e = l.find(" = "); if (e != std::string::npos) d.conf[grp + "." + l.substr(0, e)] = l.substr(e + 3); } } d.ok = d.time >= 0 && d.running >= 0; }
  return d;
}
bool probe_dump(Dump &d) {
  std::string r; if (mc_probe_begin(r)) { vos.err.clear(); vos.on_daemon_exit = [](int st) { mc_fail("dump-exits", "the daemon exits (status %d) after SIGUSR1", st); }; vos.idle = []() { mc_probe_end(vos.err); }; deliver(SIGUSR1); return true; }
  d = parse_dump(r); return false;
}
bool probe_both(Dump &d, SState &s, std::string *text) {
  std::string r; if (mc_probe_begin(r)) {
    vos.err.clear(); vos.on_daemon_exit = [](int st) { mc_fail("dump-exits", "the daemon exits (status %d) after SIGUSR1", st); };
    vos.idle = []() { static bool again = false; if (again) mc_fail("term-ignored", "the daemon does not exit on SIGTERM"); again = true; static std::string e; e = vos.err; vos.on_daemon_exit = [](int st) { mc_probe_end(fmt("%d %zu\n", st, e.size()) + e + vos.get(STATE)); }; deliver(SIGTERM); };
    deliver(SIGUSR1); return true; }
  size_t k = r.find('\n'); int st = 0; size_t n = 0; sscanf(r.c_str(), "%d %zu", &st, &n); d = parse_dump(r.substr(k + 1, n)); r = r.substr(k + 1 + n); if (text) *text = r;
  if (st) mc_fail("exit-status", "SIGTERM: exit status %d", st);
  s = parse_state(r); return false;
}
bool probe_state(SState &s, std::string *text) {
  std::string r; if (mc_probe_begin(r)) { vos.on_daemon_exit = [](int st) { mc_probe_end(fmt("%d\n", st) + vos.get(STATE)); }; vos.idle = []() { mc_fail("term-ignored", "the daemon does not exit on SIGTERM"); }; deliver(SIGTERM); return true; }
  size_t k = r.find('\n'); int st = atoi(r.c_str()); r = r.substr(k + 1); if (text) *text = r;
  if (st) mc_fail("exit-status", "SIGTERM: exit status %d", st);
  s = parse_state(r); return false;
}
std::vector<Req> prefetches(size_t from) { std::vector<Req> r; for (size_t i = from; i < vos.log.size(); i++) { auto &e = vos.log[i]; if (e.kind == "readahead") r.push_back({e.path, e.a, e.b, e.helper, e.t}); } return r; }
