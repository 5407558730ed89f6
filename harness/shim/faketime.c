/* LD_PRELOAD: the current time is $FAKE_NOW (seconds since the epoch). */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static time_t now(void) { const char *s = getenv("FAKE_NOW"); return s ? (time_t) atoll(s) : 0; }
time_t time(time_t *t) { time_t n = now(); if (t) *t = n; return n; }
int gettimeofday(struct timeval *tv, void *tz) { (void) tz; tv->tv_sec = now(); tv->tv_usec = 0; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { (void) c; ts->tv_sec = now(); ts->tv_nsec = 0; return 0; }
