/* The monotonic clock, which jumps ahead by 5200 seconds once. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <time.h>
static int64_t base;
int clock_gettime(clockid_t c, struct timespec *t) {
	static int (*f)(clockid_t, struct timespec *);
	if (!f) f = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
	int r = f(c, t);
	if (c == CLOCK_MONOTONIC) {
		int64_t n = t->tv_sec * 1000000000ll + t->tv_nsec;
		if (!base) base = n;
		if (n > base + 200000000) n += 5200000000000ll;
		t->tv_sec = n / 1000000000ll; t->tv_nsec = n % 1000000000ll;
	}
	return r;
}
