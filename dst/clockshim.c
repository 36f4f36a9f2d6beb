/* LD_PRELOAD seam for the host's wall clock: real-time clocks are offset by sim_offset_ns, and while
   sim_frozen is set they stand at sim_base_ns + sim_offset_ns. Off (0,0) by default. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <sys/time.h>
#include <time.h>

volatile int64_t sim_offset_ns = 0;
volatile int64_t sim_frozen = 0;
volatile int64_t sim_base_ns = 0;
volatile int64_t sim_reads = 0;

static int (*real_cg)(clockid_t, struct timespec *);

static int64_t now_ns(void) {
  struct timespec ts;
  if (!real_cg) real_cg = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
  sim_reads++;
  if (sim_frozen) return sim_base_ns + sim_offset_ns;
  real_cg(CLOCK_REALTIME, &ts);
  return ts.tv_sec * 1000000000LL + ts.tv_nsec + sim_offset_ns;
}

int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!real_cg) real_cg = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
  if ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) && (sim_frozen || sim_offset_ns)) {
    int64_t n = now_ns();
    ts->tv_sec = n / 1000000000LL;
    ts->tv_nsec = n % 1000000000LL;
    if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000LL; ts->tv_sec--; }
    return 0;
  }
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) sim_reads++;
  return real_cg(c, ts);
}

time_t time(time_t *t) {
  time_t v = (time_t)(now_ns() / 1000000000LL);
  if (t) *t = v;
  return v;
}

int gettimeofday(struct timeval *tv, void *tz) {
  int64_t n = now_ns();
  (void)tz;
  tv->tv_sec = n / 1000000000LL;
  tv->tv_usec = (n % 1000000000LL) / 1000;
  return 0;
}
