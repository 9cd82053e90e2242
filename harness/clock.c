/*
 * Preloaded: the wall clock shows CSVPP_VERIF_CLOCK ("seconds nanoseconds") and the disk is full for
 * all files in whose name CSVPP_VERIF_FULL occurs, once CSVPP_VERIF_ROOM bytes were written to them.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <limits.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int fake(struct timespec *ts)
{
	const char *e = getenv("CSVPP_VERIF_CLOCK");
	char *end;
	if (!e || !ts)
		return 0;
	ts->tv_sec = strtoll(e, &end, 10);
	ts->tv_nsec = strtol(end, 0, 10);
	return 1;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
	if ((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) && fake(ts))
		return 0;
	return syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *tv, void *tz)
{
	struct timespec ts;
	(void)tz;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}

time_t time(time_t *t)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t)
		*t = ts.tv_sec;
	return ts.tv_sec;
}

static long room = -1;

/* how many of n bytes can be written to the file?  -1 if none of them */
static ssize_t left(int fd, size_t n)
{
	const char *full = getenv("CSVPP_VERIF_FULL"), *r = getenv("CSVPP_VERIF_ROOM");
	char link[64], path[PATH_MAX], *base;
	ssize_t len;
	if (!full || fd <= 2)
		return n;
	snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
	len = readlink(link, path, sizeof path - 1);
	if (len < 0)
		return n;
	path[len] = 0;
	base = strrchr(path, '/');
	if (!base || !strstr(base, full))
		return n;
	if (room < 0)
		room = r ? atol(r) : 0;
	if (room == 0 && n) {
		errno = ENOSPC;
		return -1;
	}
	if ((long)n > room)
		n = room;
	room -= n;
	return n;
}

ssize_t write(int fd, const void *b, size_t n)
{
	ssize_t m = left(fd, n);
	return m < 0 ? -1 : syscall(SYS_write, fd, b, m);
}

ssize_t writev(int fd, const struct iovec *v, int k)
{
	int i;
	for (i = 0; i < k; i++)
		if (v[i].iov_len)
			return write(fd, v[i].iov_base, v[i].iov_len);
	return 0;
}

ssize_t copy_file_range(int in, off64_t *pi, int out, off64_t *po, size_t n, unsigned f)
{
	ssize_t m = left(out, n > 1 << 20 ? 1 << 20 : n);
	return m < 0 ? -1 : syscall(SYS_copy_file_range, in, pi, out, po, m, f);
}

ssize_t sendfile64(int out, int in, off64_t *p, size_t n)
{
	ssize_t m = left(out, n > 1 << 20 ? 1 << 20 : n);
	return m < 0 ? -1 : syscall(SYS_sendfile, out, in, p, m);
}
