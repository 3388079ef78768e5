#include "dm.h"
#include <cerrno>
#include <glib.h>
#include <fcntl.h>
#include <sys/mman.h>
extern "C" {
#include "time_utils.h"
#include "madvise_utils.h"
#include "log.h"
}
// the kernel: which clocks and advices exist, what each call answers
static bool has_boot, has_free, mmap_ok; static int clock_err, adv_err, fadv_err; static int64_t bs, bn, ms_, mn;
struct Adv { void *a; size_t n; int adv; }; static std::vector<Adv> advs; static void *own; struct Fa { int fd; long o, n; int adv; }; static std::vector<Fa> fas; static std::string hist;
static std::string show(int op) { static const char *n[] = {"seconds", "milliseconds", "support?", "release lazily", "release now", "lazy support?", "release file pages"}; return n[op]; }
static void run() {
  world_init(); static const int64_t sec[] = {0, 1, 1234567, 2147483647ll, 2147483648ll, 4294967296ll, 9007199254740ll}; static const long ns[] = {0, 1, 999999, 1000000, 500000000, 999999999};
  int part = mc_choose(2, "part:clocks|pages"); int lv = mc_choose(2, "log level:4|9") ? 9 : 4; preload_log_level = lv; vos.on = true; preload_log_init(nullptr); vos.on = false;
  vos.clock_hook = [](int c, struct timespec *t) { bool boot = c == CLOCK_BOOTTIME, mono = c == CLOCK_MONOTONIC; if (!boot && !mono) { t->tv_sec = 1700000000; t->tv_nsec = 0; return 0; } if (boot && !has_boot) { errno = EINVAL; return -1; } if (clock_err) { errno = clock_err; return -1; } t->tv_sec = boot ? bs : ms_; t->tv_nsec = boot ? bn : mn; return 0; };
  vos.madvise_hook = [](void *a, size_t n, int adv) { if (a == own) advs.push_back({a, n, adv}); else if (adv != MADV_FREE) mc_fail("foreign-range", "advice %d for a range nobody asked about", adv); if (adv == MADV_FREE && !has_free) { errno = EINVAL; return -1; } if (a == own && adv_err) { errno = adv_err; return -1; } return 0; };
  vos.fadvise_hook = [](int fd, long o, long n, int adv) { fas.push_back({fd, o, n, adv}); return fadv_err; }; vos.mmap_fail_hook = []() { return !mmap_ok; };
  has_boot = has_free = mmap_ok = true; int steps, sup = -1; own = (void *)0x7f0000010000ul;
  if (part == 0) { has_boot = mc_choose(2, "suspend-aware clock:yes|no") == 0; steps = mc_param("steps", 3, 4); }
  else { int f = mc_choose(3, "lazy release:supported|unsupported|no page for the test"); has_free = f == 0 || f == 2; mmap_ok = f != 2; steps = mc_param("steps2", 3, 5); }
  bs = 5; bn = 0; ms_ = 3; mn = 0;
  for (int i = 0; i < steps; i++) {
    int op = part == 0 ? mc_choose(3, "call:seconds|milliseconds|support?") : 3 + mc_choose(4, "call:release lazily|release now|lazy support?|release file pages"); VosOff off; long long r; int e = 0;
    if (part == 0) {
      bool full = i == steps - 1; int s = full ? mc_choose(7, "clock seconds") : mc_choose(2, "clock:5 s|2^31 s") * 4, n = full ? mc_choose(6, "nanoseconds") : s + 1; int64_t B = sec[s], N = ns[n]; bs = B; bn = N; ms_ = B > 10 ? B - 7 : B + 90; mn = 1000000000 - 1 - N; clock_err = i == 0 && op != 2 ? 0 : mc_choose(2, "clock:works|fails") ? EFAULT : 0; if (op == 2 && sup < 0) clock_err = 0;
      vos.on = true; r = op == 0 ? preload_get_boottime() : op == 1 ? preload_get_boottime_ms() : preload_check_boottime_support(); vos.on = false; mc_eval(); int64_t S = has_boot ? bs : ms_, X = has_boot ? bn : mn; long long want = op == 2 ? has_boot : clock_err ? -1 : op == 0 ? S : S * 1000 + X / 1000000; if (sup < 0) sup = has_boot;
      if (r != want) mc_fail(fmt("clock:%s", show(op).c_str()).c_str(), "call %d (%s): %lld instead of %lld; clock %s%ld.%09ld, other clock %ld.%09ld%s", i, show(op).c_str(), r, want, has_boot ? "with suspend " : "monotonic ", (long)S, (long)X, (long)(has_boot ? ms_ : bs), (long)(has_boot ? mn : bn), clock_err ? ", failing" : "");
      if (op != 2) { long long o, w2 = clock_err ? -1 : op == 1 ? S : S * 1000 + X / 1000000; vos.on = true; o = op == 1 ? preload_get_boottime() : preload_get_boottime_ms(); vos.on = false; if (o != w2) mc_fail("clock:units", "seconds and milliseconds disagree: %lld and %lld", r, o); }
    } else {
      static void *const ad[] = {(void *)0x7f0000010000ul, (void *)0x1000, (void *)0x7ffffffff000ul, nullptr}; static const size_t ln[] = {4096, 0, 1, 1ul << 40, 12345}; bool full = i == steps - 1; advs.clear(); fas.clear(); long fo = 0, fn = 0; size_t L = 0; int fd = 0;
      if (op == 3 || op == 4) { own = ad[full ? mc_choose(4, "address") : 0]; L = ln[full ? mc_choose(5, "length") : 0]; static const int er[] = {0, EINVAL, ENOMEM, EAGAIN}; adv_err = er[mc_choose(full ? 4 : 2, "kernel:0|EINVAL|ENOMEM|EAGAIN")]; }
      if (op == 6) { static const long fv[][2] = {{0, 0}, {4096, 8192}, {1, (1l << 40) + 3}}; int f = full ? mc_choose(3, "file range") : 1; fo = fv[f][0]; fn = fv[f][1]; fd = full && mc_choose(2, "descriptor") ? -1 : 7; static const int er[] = {0, EBADF, ESPIPE, EINVAL}; fadv_err = er[mc_choose(full ? 4 : 2, "kernel:0|EBADF|ESPIPE|EINVAL")]; }
      errno = 0; vos.on = true; r = op == 3 || op == 4 ? preload_evacuate_pages(own, L, op == 3) : op == 5 ? preload_check_madv_free_support() : preload_evacuate_file_pages(fd, fo, fn); e = errno; vos.on = false; mc_eval(); bool s = has_free && mmap_ok;
      if (op == 5 && r != s) mc_fail("lazy-support", "lazy release reported as %ssupported", r ? "" : "un");
      if (op == 3 || op == 4) { int want = op == 3 && s ? MADV_FREE : MADV_DONTNEED; if (advs.size() != 1 || advs[0].adv != want || advs[0].n != L) mc_fail("advice", "%s: %zu requests, first advice %d length %zu instead of %d, %zu", show(op).c_str(), advs.size(), advs.empty() ? -1 : advs[0].adv, advs.empty() ? 0 : advs[0].n, want, L); if (r != (adv_err ? -1 : 0)) mc_fail("verdict", "%s: returns %lld, the kernel answered %d", show(op).c_str(), r, adv_err); if (adv_err && e != adv_err) mc_fail("verdict-errno", "%s: errno %d, the kernel answered %d", show(op).c_str(), e, adv_err); }
      else if (!advs.empty()) mc_fail("advice-unasked", "%s gives advice about a range", show(op).c_str());
      if (op == 6) { if (fas.size() != 1 || fas[0].fd != fd || fas[0].o != fo || fas[0].n != fn || fas[0].adv != POSIX_FADV_DONTNEED) mc_fail("file-advice", "file pages: wrong request"); if (r != fadv_err) mc_fail("file-verdict", "file pages: returns %lld, the kernel answered %d", r, fadv_err); }
      else if (!fas.empty()) mc_fail("file-advice-unasked", "%s gives advice about a file", show(op).c_str());
      if (!vos.maps.empty()) mc_fail("mapping-left", "%s leaves %zu mappings behind", show(op).c_str(), vos.maps.size());
    }
    hist += fmt("%s=%lld;", show(op).c_str(), r);
  }
  mc_outcome(hist); mc_leaf();
}
CheckDef check = {"C23", run,
  "every sequence of 3 clock calls, the last with every one of 42 clock readings (beyond 2^31 and 2^32 s, every rounding of nanoseconds) and failure of each; every sequence of 3 page-release calls, the last over 4 addresses, 5 lengths, 3 file ranges and every verdict; with and without the suspend-aware clock, lazy release, and a page for the test; two log levels",
  "4 clock calls; 5 page-release calls"};
