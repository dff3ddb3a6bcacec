/*
 * Stand-in for the operating system services behind secure memory and the
 * counting thread.  Mappings are real, their release is recorded and turns them
 * inaccessible, locks and threads are recorded only.  While vos_faults is set,
 * every service may be refused (mc_env).
 *
 * wrap: mmap munmap mprotect madvise mlock munlock pthread_create pthread_join
 *       pthread_attr_init jent_get_nstime_internal
 */
#ifndef VOS_H
#define VOS_H
#include <errno.h>
#include <pthread.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "mc.h"

void *__real_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off);
int __real_munmap(void *a, size_t n);
int __real_mprotect(void *a, size_t n, int prot);
int __real_madvise(void *a, size_t n, int adv);
int __real_mlock(const void *a, size_t n);

#define VPAGE 4096
#define VMAX 64
struct vmap {
	uint8_t *base;
	size_t n;
	uint8_t *rw;		/* per page: accessible */
	uint8_t *lk;		/* per page: locked */
	uint8_t *nodump;	/* per page: exclusion from core dumps was asked for */
	int refused;		/* a lock was refused */
};
static struct vmap vmaps[VMAX];
static int vos_on, vos_faults, vos_nfaults, vos_maps_made;
static int vos_demand;		/* locking was demanded by the caller */
static int vos_live;
static const char *vos_last = "";

static void vos_fault(const char *w)
{
	vos_nfaults++;
	vos_last = w;
	mc_note("refused: %s", w);
}

/* called for every mapping about to be given back */
static void (*vos_release)(const struct vmap *m);

static struct vmap *vos_find(const void *a)
{
	int i;
	for (i = 0; i < VMAX; i++)
		if (vmaps[i].base && (uint8_t *)a >= vmaps[i].base && (uint8_t *)a < vmaps[i].base + vmaps[i].n)
			return &vmaps[i];
	return NULL;
}

void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off);
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off)
{
	int i;
	uint8_t *p;

	if (!vos_on)
		return __real_mmap(a, n, prot, fl, fd, off);
	if (vos_faults && mc_env(2, "mmap")) {
		vos_fault("mmap");
		errno = ENOMEM;
		return MAP_FAILED;
	}
	p = __real_mmap(NULL, n, prot, fl | MAP_NORESERVE, fd, off);
	if (p == MAP_FAILED)
		mc_fail("harness: mmap of %zu", n);
	n = (n + VPAGE - 1) & ~(size_t)(VPAGE - 1);
	for (i = 0; i < VMAX && vmaps[i].base; i++)
		;
	if (i == VMAX)
		mc_fail("harness: too many mappings");
	vmaps[i].base = p;
	vmaps[i].n = n;
	vmaps[i].rw = malloc(n / VPAGE);
	vmaps[i].lk = calloc(1, n / VPAGE);
	memset(vmaps[i].rw, prot != PROT_NONE, n / VPAGE);
	vmaps[i].nodump = calloc(1, n / VPAGE);
	vmaps[i].refused = 0;
	vos_live++;
	vos_maps_made++;
	return p;
}

static void vos_pages(struct vmap *m, const void *a, size_t n, uint8_t *what, int val)
{
	size_t f = ((uint8_t *)a - m->base) / VPAGE, l = ((uint8_t *)a + n - 1 - m->base) / VPAGE;
	for (; n && f <= l && f < m->n / VPAGE; f++)
		what[f] = val;
}

int __wrap_mprotect(void *a, size_t n, int prot);
int __wrap_mprotect(void *a, size_t n, int prot)
{
	struct vmap *m = vos_on ? vos_find(a) : NULL;
	if (!m)
		return __real_mprotect(a, n, prot);
	if (vos_faults && mc_env(2, "mprotect")) {
		vos_fault("mprotect");
		errno = ENOMEM;
		return -1;
	}
	vos_pages(m, a, n, m->rw, prot != PROT_NONE);
	return __real_mprotect(a, n, prot);
}

int __wrap_madvise(void *a, size_t n, int adv);
int __wrap_madvise(void *a, size_t n, int adv)
{
	struct vmap *m = vos_on ? vos_find(a) : NULL;
	if (!m)
		return __real_madvise(a, n, adv);
	if (adv == MADV_DONTDUMP)
		vos_pages(m, a, n, m->nodump, 1);
	/* hardening only: a refusal is no reason to fail */
	if (vos_faults && mc_env(2, "madvise")) {
		errno = EINVAL;
		return -1;
	}
	return 0;
}

int __wrap_mlock(const void *a, size_t n);
int __wrap_mlock(const void *a, size_t n)
{
	static const int err[] = { 0, EPERM, ENOMEM, EAGAIN, EINVAL };
	struct vmap *m = vos_on ? vos_find(a) : NULL;
	int e;
	if (!m)
		return __real_mlock(a, n);
	e = vos_faults ? mc_env(5, "mlock") : 0;
	if (e) {
		vos_fault("mlock");
		/* tolerated when nobody insists */
		if (!vos_demand && err[e] != EINVAL)
			vos_nfaults--;
		m->refused = err[e];
		errno = err[e];
		return -1;
	}
	vos_pages(m, a, n, m->lk, 1);
	return 0;
}

int __wrap_munlock(const void *a, size_t n);
int __wrap_munlock(const void *a, size_t n)
{
	struct vmap *m = vos_on ? vos_find(a) : NULL;
	if (m)
		vos_pages(m, a, n, m->lk, 0);
	return 0;
}

int __wrap_munmap(void *a, size_t n);
int __wrap_munmap(void *a, size_t n)
{
	struct vmap *m = vos_on ? vos_find(a) : NULL;
	if (!m)
		return __real_munmap(a, n);
	n = (n + VPAGE - 1) & ~(size_t)(VPAGE - 1);
	if (m->base != a || m->n != n)
		mc_fail("release of %zu bytes at offset %td of a mapping of %zu bytes", n, (uint8_t *)a - m->base, m->n);
	if (vos_release)
		vos_release(m);
	/* from here on any access faults */
	madvise(a, n, MADV_DONTNEED);
	__real_mprotect(a, n, PROT_NONE);
	m->base = NULL;
	free(m->rw);
	free(m->lk);
	free(m->nodump);
	vos_live--;
	return 0;
}

/* --- threads --- */
struct vthr { void *arg; pthread_t id; };
static struct vthr vthr[16];
static int vthreads, vthr_serial;
static void (*vos_thread_start)(void *arg, int ok);
static void (*vos_thread_stop)(void *arg);
static void *(*vos_thread_fn)(void *);	/* routine of the last thread created */
int __wrap_pthread_attr_init(pthread_attr_t *a);
int __wrap_pthread_attr_init(pthread_attr_t *a)
{
	if (vos_faults && mc_env(2, "pthread_attr_init")) {
		vos_fault("pthread_attr_init");
		if (vos_thread_start)
			vos_thread_start(NULL, 0);
		return ENOMEM;
	}
	memset(a, 0, sizeof(*a));
	return 0;
}
int __wrap_pthread_attr_destroy(pthread_attr_t *a);
int __wrap_pthread_attr_destroy(pthread_attr_t *a) { (void)a; return 0; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	int i;
	(void)a;
	vos_thread_fn = fn;
	if (vos_faults && mc_env(2, "pthread_create")) {
		vos_fault("pthread_create");
		if (vos_thread_start)
			vos_thread_start(arg, 0);
		return EAGAIN;
	}
	if (vos_thread_start)
		vos_thread_start(arg, 1);
	for (i = 0; i < 16 && vthr[i].arg; i++)
		;
	if (i == 16)
		mc_fail("16 counting threads at once");
	vthr[i].arg = arg;
	vthr[i].id = 0x1000 + ++vthr_serial;
	*t = vthr[i].id;
	vthreads++;
	return 0;
}
int __wrap_pthread_join(pthread_t t, void **r);
int __wrap_pthread_join(pthread_t t, void **r)
{
	int i;
	(void)r;
	for (i = 0; i < 16; i++)
		if (vthr[i].arg && vthr[i].id == t) {
			if (vos_thread_stop)
				vos_thread_stop(vthr[i].arg);
			vthr[i].arg = NULL;
			vthreads--;
			return 0;
		}
	mc_fail("join of a thread that does not run");
}
static int vos_thread_of(const void *ec)
{
	int i, k = 0;
	for (i = 0; i < 16; i++)
		k += vthr[i].arg == ec;
	return k;
}
#endif
