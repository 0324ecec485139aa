/* Loaded before the C library: every reading of a clock is VMON_CLOCK_STEP nanoseconds after the last one. */
#include <stdlib.h>
#include <time.h>
static unsigned long long now = 999000000ULL * 7, step = 0;
unsigned long long vmon_reads = 0;
int clock_gettime(clockid_t id, struct timespec* t) {
  (void)id;
  if (!step) { const char* s = getenv("VMON_CLOCK_STEP"); step = s ? strtoull(s, 0, 10) : 1000; }
  now += step; ++vmon_reads;
  t->tv_sec = now / 1000000000ULL; t->tv_nsec = now % 1000000000ULL;
  return 0;
}
