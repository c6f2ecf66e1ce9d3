/* LD_PRELOAD shim: records the file operations of one process in execution
 * order, injects one fault or kill, and delays threads.
 *
 * VSHIM_LOG=file     append records to this (existing or new) file
 * VSHIM_ROOT=dir     only files below this directory are recorded and faulted
 * VSHIM_DATA=1       record written data
 * VSHIM_READS=1      record reads (without data)
 * VSHIM_FAULT=classes:nth:action:sticky   e.g. w:12:28:0, action errno, "short", "kill", "midkill"
 * VSHIM_CLOCK=k      the monotonic clock, sleeps and waits run k times as fast (the delays below do not)
 * VSHIM_DELAY=seed:step%:stepus:out%:outus:io%:ious:wake%:wakeus   random sleeps
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
/* The program's own use of the clock is interposed; the shim's is not. */
static long rawsys(long n, long a, long b, long c, long d, long e, long f) {
	long r;
	register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
static long clock_k = 1;
static int64_t clock_base;
static int64_t real_now(void) { struct timespec t; rawsys(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t, 0, 0, 0, 0); return t.tv_sec * 1000000000ll + t.tv_nsec; }
static int64_t ns_of(const struct timespec *t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
static struct timespec ts_of(int64_t n) { if (n < 0) n = 0; struct timespec t = { n / 1000000000ll, n % 1000000000ll }; return t; }
static int64_t real_of(int64_t fake) { return clock_base + (fake - clock_base) / clock_k; }
int clock_gettime(clockid_t c, struct timespec *t) {
	if (clock_k > 1 && (c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW)) { *t = ts_of(clock_base + (real_now() - clock_base) * clock_k); return 0; }
	long r = rawsys(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
	if (r < 0) { errno = -r; return -1; }
	return 0;
}
long syscall(long n, ...) {
	long a[6];
	va_list v;
	va_start(v, n);
	for (int i = 0; i < 6; i++) a[i] = va_arg(v, long);
	va_end(v);
	struct timespec t;
	if (n == SYS_futex && clock_k > 1 && (a[1] & 0x7f) == 9 && a[3]) { t = ts_of(real_of(ns_of((struct timespec *)a[3]))); a[3] = (long)&t; }
	long r = rawsys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
	if (r < 0 && r > -4096) { errno = -r; return -1; }
	return r;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *w, struct timespec *rem) {
	struct timespec t = *w;
	if (clock_k > 1) t = ts_of(flags & TIMER_ABSTIME ? real_of(ns_of(w)) : ns_of(w) / clock_k);
	return -rawsys(SYS_clock_nanosleep, c, flags, (long)&t, (long)rem, 0, 0);
}
int nanosleep(const struct timespec *w, struct timespec *rem) { int r = clock_nanosleep(CLOCK_MONOTONIC, 0, w, rem); if (r) { errno = r; return -1; } return 0; }
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int logfd = -1, want_data, want_reads, ready;
static char root[4096];
static size_t rootlen;
static unsigned char tracked[MAXFD];
static char f_classes[32], f_action[16];
static long f_nth = -1, f_sticky, f_count, f_fired;
static unsigned d_seed;
static int d_p[4];
static long d_us[4];
static int delays;
static pid_t main_tid;

struct rec { uint32_t magic; uint8_t op, worker, fault, pad; int32_t fd, flags; int64_t off, res; int32_t err; uint32_t dlen; };

static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static int (*r_close)(int);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static int (*r_ftruncate)(int, off_t);
static int (*r_fdatasync)(int);
static int (*r_fsync)(int);
static int (*r_unlink)(const char *);
static int (*r_rename)(const char *, const char *);
static int (*r_fcntl)(int, int, ...);
static int (*r_step)(void *);
static int (*r_exec)(void *, const char *, void *, void *, void *);

static void raw_write(int fd, const void *p, size_t n) {
	const char *c = p;
	while (n) { ssize_t k = syscall(SYS_write, fd, c, n); if (k <= 0) return; c += k; n -= k; }
}

static void init(void) {
	if (ready) return;
	r_open = dlsym(RTLD_NEXT, "open64");
	r_openat = dlsym(RTLD_NEXT, "openat64");
	r_close = dlsym(RTLD_NEXT, "close");
	r_read = dlsym(RTLD_NEXT, "read");
	r_pread = dlsym(RTLD_NEXT, "pread64");
	r_write = dlsym(RTLD_NEXT, "write");
	r_pwrite = dlsym(RTLD_NEXT, "pwrite64");
	r_writev = dlsym(RTLD_NEXT, "writev");
	r_ftruncate = dlsym(RTLD_NEXT, "ftruncate64");
	r_fdatasync = dlsym(RTLD_NEXT, "fdatasync");
	r_fsync = dlsym(RTLD_NEXT, "fsync");
	r_unlink = dlsym(RTLD_NEXT, "unlink");
	r_rename = dlsym(RTLD_NEXT, "rename");
	r_fcntl = dlsym(RTLD_NEXT, "fcntl64");
	r_step = dlsym(RTLD_NEXT, "sqlite3_step");
	r_exec = dlsym(RTLD_NEXT, "sqlite3_exec");
	const char *s;
	main_tid = getpid();
	if ((s = getenv("VSHIM_ROOT"))) { strncpy(root, s, sizeof root - 1); rootlen = strlen(root); }
	want_data = getenv("VSHIM_DATA") != NULL;
	want_reads = getenv("VSHIM_READS") != NULL;
	if ((s = getenv("VSHIM_LOG"))) {
		int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
		if (fd >= 0) { logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, fd); }
	}
	if ((s = getenv("VSHIM_FAULT"))) {
		if (sscanf(s, "%31[^:]:%ld:%15[^:]:%ld", f_classes, &f_nth, f_action, &f_sticky) != 4) f_nth = -1;
	}
	if ((s = getenv("VSHIM_DELAY"))) {
		delays = sscanf(s, "%u:%d:%ld:%d:%ld:%d:%ld:%d:%ld", &d_seed, &d_p[0], &d_us[0], &d_p[1], &d_us[1], &d_p[2], &d_us[2], &d_p[3], &d_us[3]) == 9;
	}
	if ((s = getenv("VSHIM_CLOCK")) && atol(s) > 1) { clock_base = real_now(); clock_k = atol(s); }
	ready = 1;
}
__attribute__((constructor)) static void ctor(void) { init(); }

static int is_worker(void) { return syscall(SYS_gettid) != main_tid; }

static void rec(int op, int fd, int flags, int64_t off, int64_t res, int err, int fault, const void *d, size_t n) {
	if (logfd < 0) return;
	struct rec r = { 0x56534849, op, is_worker(), fault, 0, fd, flags, off, res, err, n };
	struct iovec v[2] = { { &r, sizeof r }, { (void *)d, n } };
	if (n < 65536) {
		char buf[sizeof r + 65536];
		memcpy(buf, &r, sizeof r); if (n) memcpy(buf + sizeof r, d, n);
		raw_write(logfd, buf, sizeof r + n);
	} else { raw_write(logfd, v[0].iov_base, sizeof r); raw_write(logfd, d, n); }
}

static void nap(int kind) {
	static __thread unsigned st;
	if (!delays || d_p[kind] <= 0) return;
	if (!st) st = d_seed * 2654435761u + (is_worker() ? 77 : 13) + 1;
	st = st * 1664525u + 1013904223u;
	if ((int)((st >> 16) % 1000) < d_p[kind]) {
		st = st * 1664525u + 1013904223u;
		long us = 1 + (st >> 8) % (d_us[kind] > 0 ? d_us[kind] : 1);
		struct timespec t = { us / 1000000, us % 1000000 * 1000 };
		syscall(SYS_nanosleep, &t, NULL);
	}
}

/* Called with mu held. 0: go on; otherwise the fault applies. */
static int faulted(char c) {
	if (f_nth < 0 || !strchr(f_classes, c)) return 0;
	f_count++;
	if (f_count == f_nth || (f_sticky && f_count > f_nth)) { f_fired++; return 1; }
	return 0;
}
static void die(void) { rec('K', -1, 0, 0, 0, 0, 1, NULL, 0); for (;;) syscall(SYS_kill, getpid(), SIGKILL); }
static int act_errno(void) { return atoi(f_action); }
static int act_kill(void) { return !strcmp(f_action, "kill"); }
static int act_mid(void) { return !strcmp(f_action, "midkill"); }
static int act_short(void) { return !strcmp(f_action, "short"); }

static int in_root(const char *path, char *full) {
	if (!path || !rootlen) return 0;
	if (path[0] == '/') { strncpy(full, path, 4095); full[4095] = 0; }
	else {
		if (!getcwd(full, 2048)) return 0;
		size_t n = strlen(full);
		snprintf(full + n, 4096 - n, "/%s", path);
	}
	return !strncmp(full, root, rootlen);
}
static int fd_tracked(int fd) { return fd >= 0 && fd < MAXFD && tracked[fd]; }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
	char full[4096] = "";
	init();
	int tr = (dirfd == AT_FDCWD || (path && path[0] == '/')) && in_root(path, full);
	if (!tr) return dirfd == AT_FDCWD ? r_open(path, flags, mode) : r_openat(dirfd, path, flags, mode);
	pthread_mutex_lock(&mu);
	int fd, e = 0, f = faulted('o');
	if (f && (act_kill() || act_mid())) die();
	if (f) { fd = -1; e = act_errno() ? act_errno() : EIO; }
	else {
		fd = r_open(path, flags, mode);
		e = fd < 0 ? errno : 0;
		if (fd >= 0 && fd < MAXFD) tracked[fd] = 1;
	}
	rec('O', fd, flags, 0, fd, e, f, full, strlen(full));
	pthread_mutex_unlock(&mu);
	errno = e;
	return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags | O_LARGEFILE, mode); }

int close(int fd) {
	init();
	if (fd == logfd) return 0;
	if (!fd_tracked(fd)) return r_close(fd);
	pthread_mutex_lock(&mu);
	int r = r_close(fd);
	int e = errno;
	tracked[fd] = 0;
	rec('C', fd, 0, 0, r, r ? e : 0, 0, NULL, 0);
	pthread_mutex_unlock(&mu);
	errno = e;
	return r;
}

ssize_t read(int fd, void *b, size_t n) {
	init();
	if (fd == 0) {
		ssize_t r = r_read(fd, b, n);
		int e = errno;
		pthread_mutex_lock(&mu);
		rec('I', fd, 0, 0, r, r < 0 ? e : 0, 0, b, r > 0 ? r : 0);
		pthread_mutex_unlock(&mu);
		nap(3);
		errno = e;
		return r;
	}
	if (!fd_tracked(fd)) return r_read(fd, b, n);
	nap(2);
	pthread_mutex_lock(&mu);
	int f = faulted('r');
	if (f && (act_kill() || act_mid())) die();
	ssize_t r; int e;
	if (f) { r = -1; e = act_errno() ? act_errno() : EIO; } else { r = r_read(fd, b, n); e = errno; }
	pthread_mutex_unlock(&mu);
	errno = e;
	return r;
}
static ssize_t do_pread(int fd, void *b, size_t n, off_t o) {
	init();
	if (!fd_tracked(fd)) return r_pread(fd, b, n, o);
	nap(2);
	pthread_mutex_lock(&mu);
	int f = faulted('r');
	if (f && (act_kill() || act_mid())) die();
	ssize_t r; int e;
	if (f) { r = -1; e = act_errno() ? act_errno() : EIO; rec('P', fd, 0, o, r, e, f, NULL, 0); }
	else { r = r_pread(fd, b, n, o); e = errno; if (want_reads) rec('P', fd, 0, o, r, r < 0 ? e : 0, 0, NULL, 0); }
	pthread_mutex_unlock(&mu);
	errno = e;
	return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }

static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o, int positioned) {
	nap(2);
	pthread_mutex_lock(&mu);
	int f = faulted('w');
	if (f && act_kill()) die();
	size_t m = n;
	ssize_t r = 0; int e = 0;
	if (!positioned) o = lseek(fd, 0, SEEK_CUR);
	if (f && act_errno()) { r = -1; e = act_errno(); m = 0; }
	else {
		if (f && (act_mid() || act_short())) m = n / 2;
		if (m) { r = positioned ? r_pwrite(fd, b, m, o) : r_write(fd, b, m); e = errno; }
		/* A short write without an error code: report what was written. */
	}
	rec('W', fd, 0, o, r, r < 0 ? e : 0, f, b, want_data && r > 0 ? r : 0);
	if (f && act_mid()) die();
	pthread_mutex_unlock(&mu);
	errno = e;
	return r;
}
static ssize_t do_out(int fd, const void *b, size_t n) {
	nap(1);
	pthread_mutex_lock(&mu);
	/* Recorded before it becomes visible. */
	/* With the time on the clock that the program sees. */
	rec(fd == 1 ? '1' : '2', fd, 0, clock_k > 1 ? clock_base + (real_now() - clock_base) * clock_k : real_now(), n, 0, 0, b, n);
	pthread_mutex_unlock(&mu);
	ssize_t r = r_write(fd, b, n);
	int e = errno;
	nap(1);
	errno = e;
	return r;
}
ssize_t write(int fd, const void *b, size_t n) {
	init();
	if (fd == 1 || fd == 2) return do_out(fd, b, n);
	if (!fd_tracked(fd)) return r_write(fd, b, n);
	return do_pwrite(fd, b, n, 0, 0);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
	init();
	if ((fd == 1 || fd == 2) && k > 0) {
		int i = 0;
		while (i < k - 1 && !v[i].iov_len) i++;
		return do_out(fd, v[i].iov_base, v[i].iov_len);
	}
	return r_writev(fd, v, k);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { init(); return fd_tracked(fd) ? do_pwrite(fd, b, n, o, 1) : r_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }

static int do_trunc(int fd, off_t n) {
	init();
	if (!fd_tracked(fd)) return r_ftruncate(fd, n);
	pthread_mutex_lock(&mu);
	int f = faulted('t'), r, e;
	if (f && (act_kill() || act_mid())) die();
	if (f) { r = -1; e = act_errno() ? act_errno() : EIO; } else { r = r_ftruncate(fd, n); e = errno; }
	rec('T', fd, 0, n, r, r ? e : 0, f, NULL, 0);
	pthread_mutex_unlock(&mu);
	errno = e;
	return r;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_trunc(fd, n); }

static int do_sync(int fd, int (*g)(int)) {
	if (!fd_tracked(fd)) return g(fd);
	nap(2);
	pthread_mutex_lock(&mu);
	int f = faulted('s'), r = 0, e = 0;
	if (f && (act_kill() || act_mid())) die();
	/* Durability is judged from the record; the real sync is skipped. */
	if (f) { r = -1; e = act_errno() ? act_errno() : EIO; }
	rec('S', fd, 0, 0, r, e, f, NULL, 0);
	pthread_mutex_unlock(&mu);
	errno = e;
	return r;
}
int fsync(int fd) { init(); return do_sync(fd, r_fsync); }
int fdatasync(int fd) { init(); return do_sync(fd, r_fdatasync); }

int unlink(const char *path) {
	char full[4096];
	init();
	if (!in_root(path, full)) return r_unlink(path);
	pthread_mutex_lock(&mu);
	int f = faulted('u'), r, e;
	if (f && (act_kill() || act_mid())) die();
	if (f) { r = -1; e = act_errno() ? act_errno() : EIO; } else { r = r_unlink(path); e = errno; }
	rec('U', -1, 0, 0, r, r ? e : 0, f, full, strlen(full));
	pthread_mutex_unlock(&mu);
	errno = e;
	return r;
}
int rename(const char *a, const char *b) {
	char full[4096], fb[4096];
	init();
	if (!in_root(a, full)) return r_rename(a, b);
	pthread_mutex_lock(&mu);
	in_root(b, fb);
	char both[8200];
	int r = r_rename(a, b), e = errno;
	int n = snprintf(both, sizeof both, "%s\n%s", full, fb);
	rec('R', -1, 0, 0, r, r ? e : 0, 0, both, n);
	pthread_mutex_unlock(&mu);
	errno = e;
	return r;
}

static int do_fcntl(int fd, int cmd, void *arg) {
	init();
	if (!fd_tracked(fd) || (cmd != F_SETLK && cmd != F_SETLKW)) return r_fcntl(fd, cmd, arg);
	short ty = ((struct flock *)arg)->l_type;
	if (ty == F_UNLCK) return r_fcntl(fd, cmd, arg);
	nap(2);
	pthread_mutex_lock(&mu);
	int f = faulted('l'), r, e;
	if (f && (act_kill() || act_mid())) die();
	if (f) { r = -1; e = act_errno() ? act_errno() : EAGAIN; rec('L', fd, ty, 0, r, e, f, NULL, 0); } else { r = r_fcntl(fd, cmd, arg); e = errno; rec('L', fd, ty, 0, r, r ? e : 0, f, NULL, 0); }
	pthread_mutex_unlock(&mu);
	errno = e;
	return r;
}
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, p); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, p); }

/* Only delays: the database library's own behaviour is untouched. */
int sqlite3_step(void *st) { init(); nap(0); int r = r_step(st); nap(0); return r; }
int sqlite3_exec(void *db, const char *q, void *cb, void *x, void *e) { init(); nap(0); int r = r_exec(db, q, cb, x, e); nap(0); return r; }

__attribute__((destructor)) static void fini(void) {
	if (ready) rec('Z', -1, 0, f_fired, f_count, 0, 0, NULL, 0);
}
