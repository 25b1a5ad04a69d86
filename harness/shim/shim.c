/* LD_PRELOAD shim: watches the file operations below VH_DIR, and logs them,
 * kills the process at a chosen one, or makes chosen ones fail. Can also delay
 * them, make the clock run faster, report the memory used, and list the names
 * of all files that are created. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <linux/futex.h>
#include <time.h>
#include <unistd.h>

enum { C_WRITE = 1, C_TRUNC = 2, C_SYNC = 4, C_UNLINK = 8, C_CREATE = 16,
	C_READ = 32, C_LOCK = 64, C_STDIN = 128 };
#define MAXFD 1024

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static char *fdpath[MAXFD];
static int ready, mode; /* 0 off, 1 log, 2 kill, 3 fail, 4 wait */
static int logfd = -1, mask, err, sticky, part;
static long at = -1, count;
static char dir[PATH_MAX];
static size_t dirlen;

/* Clock factor; delays: how many in a thousand operations, for how long. */
static long warp = 1, slow_pm, slow_us, slow_stdin;
static unsigned long slow_seed, slow_n, slow_total;
static struct timespec base[2];
/* Times and file operations so far, at each output. */
static int stampfd = -1;
static long nops;

static long raw(long n, long a, long b, long c, long d, long e, long f)
{
	long r;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c),
		"r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if (r < 0 && r > -4096) { errno = -r; return -1; }
	return r;
}

/* Dawdle now and then. */
static void dawdle(void)
{
	if (!slow_pm) return;
	unsigned long x = slow_seed + 0x9E3779B97F4A7C15ul
		* __atomic_add_fetch(&slow_n, 1, __ATOMIC_RELAXED);
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ul;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBul;
	x ^= x >> 31;
	if ((long)(x % 1000) >= slow_pm) return;
	long us = (x >> 20) % (slow_us + 1);
	/* Not forever. */
	if (__atomic_add_fetch(&slow_total, us + 60, __ATOMIC_RELAXED) > 6000000) return;
	struct timespec t = { us / 1000000, us % 1000000 * 1000 };
	int e = errno;
	raw(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0);
	errno = e;
}

static long long ns(const struct timespec *t)
{ return t->tv_sec * 1000000000ll + t->tv_nsec; }

int clock_gettime(clockid_t c, struct timespec *t)
{
	int r = raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
	if (r || warp == 1 || c > 1) return r;
	long long b = ns(&base[c]), v = b + (ns(t) - b) * warp;
	t->tv_sec = v / 1000000000;
	t->tv_nsec = v % 1000000000;
	return 0;
}

long syscall(long n, ...)
{
	va_list l;
	long a[6];
	va_start(l, n);
	for (int i = 0; i < 6; i++) a[i] = va_arg(l, long);
	va_end(l);
	if (n == SYS_futex && (warp != 1 || slow_pm)) {
		dawdle();
		const struct timespec *t = (void *)a[3];
		int c = a[1] & FUTEX_CLOCK_REALTIME ? 0 : 1;
		if (t && warp != 1
			&& (a[1] & FUTEX_CMD_MASK) == FUTEX_WAIT_BITSET)
		{
			long long b = ns(&base[c]), v = b + (ns(t) - b) / warp;
			struct timespec u = { v / 1000000000, v % 1000000000 };
			return raw(n, a[0], a[1], a[2], (long)&u, a[4], a[5]);
		}
	}
	return raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

static void stamp(long n)
{
	struct timespec t;
	char b[99];
	if (stampfd < 0) return;
	clock_gettime(1, &t);
	int e = errno, l = snprintf(b, sizeof b, "%ld %lld %ld\n", n, ns(&t),
		__atomic_load_n(&nops, __ATOMIC_RELAXED));
	syscall(SYS_write, stampfd, b, l);
	errno = e;
}

static void init(void)
{
	if (ready) return;
	ready = 1;
	const char *x;
	if ((x = getenv("VH_DELAY")))
		sscanf(x, "%ld:%ld:%lu", &slow_pm, &slow_us, &slow_seed);
	if ((x = getenv("VH_SLOW_STDIN"))) slow_stdin = atol(x);
	if ((x = getenv("VH_WARP"))) {
		clock_gettime(0, &base[0]);
		clock_gettime(1, &base[1]);
		warp = atol(x);
	}
	if ((x = getenv("VH_STAMP"))) {
		stampfd = syscall(SYS_openat, AT_FDCWD, x,
			O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
		stamp(0);
	}
	const char *d = getenv("VH_DIR"), *m = getenv("VH_MODE");
	if (!d || !m) return;
	strncpy(dir, d, sizeof dir - 1);
	dirlen = strlen(dir);
	mode = atoi(m);
	if ((d = getenv("VH_MASK"))) mask = atoi(d);
	if ((d = getenv("VH_ERR"))) err = atoi(d);
	if ((d = getenv("VH_STICKY"))) sticky = atoi(d);
	if ((d = getenv("VH_PART"))) part = atoi(d);
	if ((d = getenv("VH_AT"))) at = atol(d);
	if ((d = getenv("VH_LOG")))
		logfd = syscall(SYS_openat, AT_FDCWD, d,
			O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}

__attribute__((constructor)) static void ctor(void) { init(); }

static const char *rel(const char *p)
{
	static __thread char buf[PATH_MAX];
	init();
	if (!mode || !p) return NULL;
	if (p[0] != '/') {
		char cwd[PATH_MAX];
		if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return NULL;
		snprintf(buf, sizeof buf, "%s/%s", cwd, p);
	} else {
		snprintf(buf, sizeof buf, "%s", p);
	}
	if (strncmp(buf, dir, dirlen)) return NULL;
	if (buf[dirlen] == 0) return ".";
	return buf[dirlen] == '/' ? buf + dirlen + 1 : NULL;
}

static void put(const void *p, size_t n)
{
	const char *c = p;
	while (n) {
		ssize_t r = syscall(SYS_write, logfd, c, n);
		if (r <= 0) return;
		c += r;
		n -= r;
	}
}

/* kind, path length, path, offset, length, data */
static void rec(char kind, const char *path, uint64_t off, uint64_t len,
	const void *data)
{
	if (logfd < 0) return;
	uint32_t pl = strlen(path);
	put(&kind, 1);
	put(&pl, 4);
	put(path, pl);
	put(&off, 8);
	put(&len, 8);
	if (data) put(data, len);
}

/* Tell the harness, and wait for it. */
static void wait_here(void)
{
	char p[PATH_MAX + 8];
	const char *base = getenv("VH_SYNC");
	struct stat st;
	if (!base) return;
	snprintf(p, sizeof p, "%s.paused", base);
	int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT, 0600);
	if (fd >= 0) syscall(SYS_close, fd);
	snprintf(p, sizeof p, "%s.go", base);
	for (int i = 0; i < 60000; i++) {
		if (!syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0)) return;
		usleep(500);
	}
}

/* 0: go ahead; otherwise an errno; -1: die here. */
static int gate(int cls)
{
	if (!mode || !(cls & mask)) return 0;
	long n = count++;
	if (mode == 2 && n == at) return -1;
	if (mode == 4 && n == at) wait_here();
	if (mode == 3 && (n == at || (sticky && n > at && at >= 0))) return err;
	return 0;
}

static void die(void)
{
	syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
	for (;;) pause();
}

static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int pos)
{
	return pos ? syscall(SYS_pwrite64, fd, b, n, off)
		: syscall(SYS_write, fd, b, n);
}

static long fix(long r)
{
	return r; /* syscall() already sets errno */
}

static ssize_t wr(int fd, const void *b, size_t n, off_t off, int pos)
{
	if (fd == 1) stamp(n);
	if (fd >= 0 && fd < MAXFD && fdpath[fd])
		__atomic_add_fetch(&nops, 1, __ATOMIC_RELAXED);
	if (fd >= 0 && fd < MAXFD && (fd < 3 || fdpath[fd])) dawdle();
	if (fd < 0 || fd >= MAXFD || !fdpath[fd])
		return do_write(fd, b, n, off, pos);
	pthread_mutex_lock(&lock);
	int g = gate(C_WRITE);
	if (g == -1) {
		if (part) do_write(fd, b, n * part / 1000, off, pos);
		die();
	}
	if (g > 0) {
		/* Disk full in the middle of a write: a short write. */
		pthread_mutex_unlock(&lock);
		errno = g;
		return -1;
	}
	if (!pos) off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
	ssize_t r = do_write(fd, b, n, off, pos);
	int e = errno;
	if (r > 0) rec('W', fdpath[fd], off, r, b);
	pthread_mutex_unlock(&lock);
	errno = e;
	return r;
}

ssize_t write(int fd, const void *b, size_t n) { return wr(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{ return wr(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{ return wr(fd, b, n, o, 1); }

static ssize_t rd(int fd, void *b, size_t n, off_t off, int pos)
{
	if (fd == 0 || (fd > 0 && fd < MAXFD && fdpath[fd])) {
		if (fd) __atomic_add_fetch(&nops, 1, __ATOMIC_RELAXED);
		dawdle();
		if (fd == 0 && slow_stdin) usleep(slow_stdin);
		pthread_mutex_lock(&lock);
		int g = gate(fd == 0 ? C_STDIN : C_READ);
		pthread_mutex_unlock(&lock);
		if (g == -1) die();
		if (g > 0) { errno = g; return -1; }
	}
	return pos ? syscall(SYS_pread64, fd, b, n, off)
		: syscall(SYS_read, fd, b, n);
}

ssize_t read(int fd, void *b, size_t n) { return rd(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return rd(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{ return rd(fd, b, n, o, 1); }

static int simple(int cls, int fd, long nr, char kind, uint64_t len)
{
	if (fd < 0 || fd >= MAXFD || !fdpath[fd])
		return syscall(nr, fd, len);
	dawdle();
	pthread_mutex_lock(&lock);
	int g = gate(cls);
	if (g == -1) die();
	if (g > 0) { pthread_mutex_unlock(&lock); errno = g; return -1; }
	int r = syscall(nr, fd, len);
	int e = errno;
	if (r == 0) rec(kind, fdpath[fd], len, 0, NULL);
	pthread_mutex_unlock(&lock);
	errno = e;
	return r;
}

int fsync(int fd) { return simple(C_SYNC, fd, SYS_fsync, 'S', 0); }
int fdatasync(int fd) { return simple(C_SYNC, fd, SYS_fdatasync, 'S', 0); }
int ftruncate(int fd, off_t l)
{ return simple(C_TRUNC, fd, SYS_ftruncate, 'T', l); }
int ftruncate64(int fd, off64_t l)
{ return simple(C_TRUNC, fd, SYS_ftruncate, 'T', l); }

static int lk(int fd, int cmd, void *arg)
{
	if (fd >= 0 && fd < MAXFD && fdpath[fd] && cmd == F_SETLK
		&& ((struct flock *)arg)->l_type != F_UNLCK)
	{
		dawdle();
		pthread_mutex_lock(&lock);
		int g = gate(C_LOCK);
		pthread_mutex_unlock(&lock);
		if (g == -1) die();
		if (g > 0) { errno = g; return -1; }
	}
	return syscall(SYS_fcntl, fd, cmd, arg);
}

int fcntl(int fd, int cmd, ...)
{ va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a);
	return lk(fd, cmd, p); }
int fcntl64(int fd, int cmd, ...)
{ va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a);
	return lk(fd, cmd, p); }

static int do_unlink(int at_fd, const char *p, int flags)
{
	const char *r = at_fd == AT_FDCWD || p[0] == '/' ? rel(p) : NULL;
	if (!r || (flags & AT_REMOVEDIR)) return syscall(SYS_unlinkat, at_fd, p, flags);
	pthread_mutex_lock(&lock);
	int g = gate(C_UNLINK);
	if (g == -1) die();
	if (g > 0) { pthread_mutex_unlock(&lock); errno = g; return -1; }
	int ret = syscall(SYS_unlinkat, at_fd, p, flags);
	int e = errno;
	if (ret == 0) rec('U', r, 0, 0, NULL);
	pthread_mutex_unlock(&lock);
	errno = e;
	return ret;
}

int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }

static void touch(int, const char *);

int rename(const char *a, const char *b)
{
	touch(AT_FDCWD, b);
	const char *r = rel(a);
	if (r) { pthread_mutex_lock(&lock); rec('X', r, 0, 0, NULL);
		pthread_mutex_unlock(&lock); }
	return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
}

/* Notes the name of a file that is about to be created or replaced. */
static void touch(int at_fd, const char *p)
{
	const char *t = getenv("VH_TOUCH");
	char b[2 * PATH_MAX];
	size_t n = 0;
	if (!t || !p) return;
	if (p[0] != '/') {
		if (at_fd != AT_FDCWD) return;
		if (syscall(SYS_getcwd, b, PATH_MAX) < 0) return;
		n = strlen(b);
		b[n++] = '/';
	}
	n += snprintf(b + n, PATH_MAX - 2, "%s", p);
	b[n++] = '\n';
	int e = errno, fd = syscall(SYS_openat, AT_FDCWD, t,
		O_WRONLY | O_CREAT | O_APPEND, 0600);
	if (fd >= 0) { syscall(SYS_write, fd, b, n); syscall(SYS_close, fd); }
	errno = e;
}

int renameat(int a, const char *p, int b, const char *q)
{ touch(b, q); return syscall(SYS_renameat2, a, p, b, q, 0); }
int mkdir(const char *p, mode_t m)
{ touch(AT_FDCWD, p); return syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int symlink(const char *a, const char *p)
{ touch(AT_FDCWD, p); return syscall(SYS_symlinkat, a, AT_FDCWD, p); }
int link(const char *a, const char *p)
{ touch(AT_FDCWD, p); return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, p, 0); }
int linkat(int a, const char *p, int b, const char *q, int f)
{ touch(b, q); return syscall(SYS_linkat, a, p, b, q, f); }

static int op(int at_fd, const char *p, int flags, mode_t m)
{
	if (flags & O_CREAT) touch(at_fd, p);
	const char *r = at_fd == AT_FDCWD || (p && p[0] == '/') ? rel(p) : NULL;
	if (!r) return syscall(SYS_openat, at_fd, p, flags, m);
	dawdle();
	pthread_mutex_lock(&lock);
	struct stat st;
	int creates = (flags & O_CREAT) && syscall(SYS_newfstatat, at_fd, p, &st, 0);
	if (creates) {
		int g = gate(C_CREATE);
		if (g == -1) die();
		if (g > 0) { pthread_mutex_unlock(&lock); errno = g; return -1; }
	}
	int fd = syscall(SYS_openat, at_fd, p, flags, m);
	int e = errno;
	if (fd >= 0 && fd < MAXFD) {
		free(fdpath[fd]);
		fdpath[fd] = strdup(r);
		if (creates) rec('C', r, 0, 0, NULL);
		else if (flags & O_TRUNC) rec('T', r, 0, 0, NULL);
	}
	pthread_mutex_unlock(&lock);
	errno = e;
	return fd;
}

#define MODE mode_t m = 0; if (f & (O_CREAT | __O_TMPFILE)) { va_list a; \
	va_start(a, f); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int f, ...) { MODE return op(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE return op(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE return op(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return op(d, p, f, m); }

int close(int fd)
{
	if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
		pthread_mutex_lock(&lock);
		free(fdpath[fd]);
		fdpath[fd] = NULL;
		pthread_mutex_unlock(&lock);
	}
	return fix(syscall(SYS_close, fd));
}

/* Total number of gated operations, for planning. */
__attribute__((destructor)) static void fini(void)
{
	if (logfd >= 0) rec('N', "", count, 0, NULL);
	/* The most memory used at any time. */
	const char *h = getenv("VH_HWM");
	char b[8192];
	if (!h) return;
	int fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/status", O_RDONLY, 0);
	long n = fd < 0 ? -1 : syscall(SYS_read, fd, b, sizeof b - 1);
	if (n <= 0) return;
	b[n] = 0;
	char *l = strstr(b, "VmHWM:");
	if (!l) return;
	syscall(SYS_close, fd);
	fd = syscall(SYS_openat, AT_FDCWD, h, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	l += 6;
	if (fd >= 0) syscall(SYS_write, fd, l, strcspn(l, "\n"));
}
