/*
 * Stand-ins for the file system calls the library makes: every open(), read()
 * and close() of a path the harness claims is answered by it.
 */
#ifndef VFILE_H
#define VFILE_H
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>

#define VF_FD 20000
#define VF_MAX 8
struct vfd { int open; char path[256]; int id; size_t pos; };
static struct vfd vfds[VF_MAX];
static long vf_opened, vf_closed;
static int vf_zero;	/* standard input is closed: the first descriptor is 0 */
static int vf_slot(int fd)
{
	if (vf_zero && fd == 0)
		return 0;
	return fd >= VF_FD && fd < VF_FD + VF_MAX ? fd - VF_FD : -1;
}

/* supplied by the harness: >= 0 an id, < 0 a negative errno, VF_PASS not ours */
#define VF_PASS (-100000)
static int vf_open(const char *path);
/* supplied by the harness: bytes delivered or negative errno */
static ssize_t vf_read(struct vfd *f, void *buf, size_t n);

int __real_open(const char *p, int fl, ...);
int __real_close(int fd);
ssize_t __real_read(int fd, void *b, size_t n);
int __wrap_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...)
{
	va_list ap;
	int m, r = vf_open(p), i;
	va_start(ap, fl);
	m = va_arg(ap, int);
	va_end(ap);
	if (r == VF_PASS)
		return __real_open(p, fl, m);
	if (r < 0) {
		errno = -r;
		return -1;
	}
	for (i = 0; i < VF_MAX; i++)
		if (!vfds[i].open) {
			vfds[i].open = 1;
			vfds[i].id = r;
			vfds[i].pos = 0;
			snprintf(vfds[i].path, sizeof(vfds[i].path), "%s", p);
			vf_opened++;
			return vf_zero && !i ? 0 : VF_FD + i;
		}
	mc_fail("descriptors pile up");
}
ssize_t __wrap_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	ssize_t r;
	int s = vf_slot(fd);
	if (s < 0)
		return __real_read(fd, b, n);
	MC_ASSERT(vfds[s].open, "read of a closed descriptor");
	r = vf_read(&vfds[s], b, n);
	if (r < 0) {
		errno = (int)-r;
		return -1;
	}
	vfds[s].pos += (size_t)r;
	return r;
}
int __wrap_close(int fd);
int __wrap_close(int fd)
{
	int s = vf_slot(fd);
	if (s < 0)
		return __real_close(fd);
	MC_ASSERT(vfds[s].open, "descriptor closed twice");
	vfds[s].open = 0;
	vf_closed++;
	errno = EBADF;	/* a close may clobber errno */
	return 0;
}
static void vf_check(void)
{
	MC_ASSERT(vf_opened == vf_closed, "%ld descriptors opened, %ld closed", vf_opened, vf_closed);
}
#endif
