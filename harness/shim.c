/*
 * Preloaded into runs of the command line tool: seeded random delays around
 * synchronisation and allocation calls, and failing thread creation.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static _Atomic uint64_t ctr;
static uint64_t seed;
static unsigned prob, maxus;
static long failthread = -1;
static _Atomic long nthreads;
static _Atomic int ready;

static unsigned
env(const char *n, unsigned d)
{
	const char *v = getenv(n);
	return v != NULL ? (unsigned)strtoul(v, NULL, 10) : d;
}

__attribute__((constructor)) static void
init(void)
{
	seed = env("SHIM_SEED", 1);
	prob = env("SHIM_P", 0);
	maxus = env("SHIM_US", 100);
	failthread = (int)env("SHIM_FAILTHREAD", (unsigned)-1);
	ready = 1;
}

static void
delay(void)
{
	if (!ready || prob == 0) {
		return;
	}
	uint64_t x = seed * 0x9e3779b97f4a7c15ULL + ctr++ * 0xbf58476d1ce4e5b9ULL;
	x ^= x >> 31;
	x *= 0x94d049bb133111ebULL;
	x ^= x >> 29;
	if (x % 1000 < prob) {
		struct timespec ts = {0, (long)((x >> 20) % (maxus * 1000 + 1))};
		nanosleep(&ts, NULL);
	}
}

#define REAL(name) \
	static __typeof__(&name) real; \
	if (real == NULL) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

int
pthread_mutex_lock(pthread_mutex_t *m)
{
	REAL(pthread_mutex_lock);
	delay();
	return real(m);
}

int
pthread_mutex_unlock(pthread_mutex_t *m)
{
	REAL(pthread_mutex_unlock);
	int ret = real(m);
	delay();
	return ret;
}

int
pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
	REAL(pthread_create);
	long k = nthreads++;
	if (k == failthread) {
		return EAGAIN;
	}
	delay();
	int ret = real(t, a, f, arg);
	delay();
	return ret;
}

void *
realloc(void *p, size_t n)
{
	REAL(realloc);
	if (n > 60000) {
		delay();
	}
	void *q = real(p, n);
	if (n > 60000) {
		delay();
	}
	return q;
}

/* calls on descriptors */
int
close(int fd)
{
	REAL(close);
	delay();
	return real(fd);
}

off_t
lseek(int fd, off_t o, int w)
{
	REAL(lseek);
	delay();
	return real(fd, o, w);
}

ssize_t
readv(int fd, const struct iovec *v, int n)
{
	REAL(readv);
	delay();
	return real(fd, v, n);
}

ssize_t
writev(int fd, const struct iovec *v, int n)
{
	REAL(writev);
	delay();
	return real(fd, v, n);
}
