/*
 * Stand-in for the kernel around linux_kernel/ and for the library below it.
 * Whatever can fail in the kernel asks the explorer (kfault), and misuse of a
 * kernel facility is a violation: unbalanced locks, double frees, use of freed
 * memory (freed pages become inaccessible), work or proc files that outlive
 * their owner, user memory touched outside the caller's buffers.
 *
 * With KENV_SCHED the module runs under the controlled scheduler of ilv.h.
 */
#ifndef KENV_H
#define KENV_H

#ifdef KENV_SCHED
#include "ilv.h"
#endif
#include <stdlib.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/mman.h>
#include "mc.h"
#include "kstub.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy_uapi.h"

#ifdef KENV_SCHED
static int kact(void) { return scur < 0 ? SCHED_MAXT : scur; }
static void kpoint(void) { if (scur >= 0) spoint(); }
static void kwait(const char *why)
{
	static unsigned long n;
	if (scur < 0 || ++n > 20000)
		mc_fail("deadlock: %s", why);
	syield();
}
#else
static int kactor_id;
static int kact(void) { return kactor_id; }
static void kpoint(void) { }
static void kwait(const char *why) { mc_fail("deadlock: %s", why); }
#endif
#define KACTORS 8

/* which kinds of events the environment may make fail */
enum { KF_ALLOC = 1, KF_LOCK = 2, KF_COPY = 4, KF_SIGNAL = 8, KF_GEN = 16, KF_REG = 32, KF_PROC = 64,
       KF_LIBALLOC = 128, KF_SELFTEST = 256, KF_STATUS = 512, KF_NONBLOCK = 1024, KF_EARLY = 2048, KF_UUID = 4096 };
static unsigned kinj;
static int kfault(unsigned kind, int n, const char *what)
{
	return (kinj & kind) ? mc_env(n, what) : 0;
}

/* --- what happened during an operation, for the oracles --- */
static struct kev {
	int gens, copies, signals_asked, logs;
	long done;		/* bytes generated and copied completely before the first problem */
	int problem;		/* 0: none yet, else the error it stands for */
	int permanent;		/* a permanent failure was reported by the library */
	int selftests;
	int gen_since_poll;	/* generator calls since signals were last looked at */
	long copied;		/* bytes that reached the user, partial copies included */
} kev;
static void kev_reset(void) { memset(&kev, 0, sizeof(kev)); }
static void kproblem(int err) { if (!kev.problem) kev.problem = err; }

static int kfatal;	/* first error that must make setting up fail */
static void kfatal_is(int e) { if (!kfatal) kfatal = e; }

/* --- generated data --- */
#define KGENMAX (1 << 19)
static unsigned char kgood[KGENMAX];	/* all successfully generated bytes, in order */
static size_t kngood;
static unsigned char kgb(uint64_t k)
{
	uint64_t x = (k + 1) * 0x9E3779B97F4A7C15ull;
	x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
	return (unsigned char)(0x80 | (x % 0x7e));
}
/* does [p,p+n) contain eight consecutive generated bytes? */
static int kleaks(const unsigned char *p, size_t n)
{
	size_t i, k;
	if (kngood < 8 || n < 8)
		return 0;
	for (i = 0; i + 8 <= n; i++) {
		if ((p[i] & p[i + 7]) < 0x80)
			continue;
		for (k = 0; k + 8 <= kngood; k++)
			if (p[i] == kgood[k] && !memcmp(p + i, kgood + k, 8))
				return 1;
	}
	return 0;
}

/* --- memory --- */
static struct kblk { char *map, *p; size_t maplen, n; int live, kv, actor; unsigned char *gen; } kblk[256];
static int nkblk;
static struct kblk *kfind(const void *p)
{
	int i;
	for (i = nkblk - 1; i >= 0; i--)
		if ((const char *)p >= kblk[i].p && (const char *)p < kblk[i].p + (kblk[i].n ? kblk[i].n : 1))
			return &kblk[i];
	return NULL;
}
static void *kget(size_t n, int zero, int kv)
{
	struct kblk *b;
	size_t in = (n + 15) & ~(size_t)15, pg = (in + 4095) & ~(size_t)4095;
	if (nkblk == 256)
		mc_fail("harness: blocks");
	b = &kblk[nkblk++];
#ifdef KENV_SCHED
	(void)pg;
	b->map = NULL;
	b->p = salloc(in + 64);
#else
	b->maplen = pg + 4096;
	b->map = mmap(NULL, b->maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (b->map == MAP_FAILED)
		mc_fail("harness: mmap");
	mprotect(b->map + pg, 4096, PROT_NONE);
	b->p = b->map + pg - in;
#endif
	b->n = n;
	b->live = 1;
	b->kv = kv;
	b->gen = NULL;
	memset(b->p, zero ? 0 : 0x5c, n);
	memset(b->p + n, 0x3a, in - n);
	return b->p;
}
static void kcheck_block_free(struct kblk *b);
#ifdef KENV_SCHED
static void kaccess_inst(const void *p);
static void kaccess(const void *p, size_t n, int wr)
{
	struct kblk *b = kfind(p);
	(void)n;
	(void)wr;
	MC_ASSERT(!b || b->live, "freed memory is used");
	if (b)
		kaccess_inst(p);
}
#endif
static void kput(const void *p, const char *fn)
{
	struct kblk *b;
	size_t i;
	if (!p)
		return;
	b = kfind(p);
	MC_ASSERT(b && b->p == p, "%s of memory that was never allocated", fn);
	MC_ASSERT(b->live, "%s of memory that is already free", fn);
	for (i = b->n; i < ((b->n + 15) & ~(size_t)15); i++)
		MC_ASSERT(b->p[i] == 0x3a, "memory written past the end of an allocation of %zu bytes", b->n);
	if (b->gen)
		for (i = 0; i < b->n; i++)
			MC_ASSERT(!b->gen[i] || (unsigned char)b->p[i] != b->gen[i], "random data is left in kernel memory that is freed");
	MC_ASSERT(!kleaks((unsigned char *)b->p, b->n), "random data is left in kernel memory that is freed");
	kcheck_block_free(b);
#ifdef KENV_SCHED
	saccess(b->p, b->n, 1);
	MC_ASSERT(b->live, "%s of memory that is already free", fn);
#endif
	b->live = 0;
	if (b->map)
		mprotect(b->map, b->maplen, PROT_NONE);
	else
		memset(b->p, 0x6b, b->n);
}
static void *kalloc(size_t n, int zero, int kv)
{
	if (kfault(KF_ALLOC, 2, "allocation fails")) {
		kproblem(-ENOMEM);
		kfatal_is(-ENOMEM);
		return NULL;
	}
	return kget(n, zero, kv);
}
void *kvmalloc(size_t n, gfp_t f) { return kalloc(n, !!(f & __GFP_ZERO), 1); }
void *kvzalloc(size_t n, gfp_t f) { (void)f; return kalloc(n, 1, 1); }
void *kmalloc(size_t n, gfp_t f) { return kalloc(n, !!(f & __GFP_ZERO), 0); }
void *kzalloc(size_t n, gfp_t f) { (void)f; return kalloc(n, 1, 0); }
void kvfree(const void *p) { kput(p, "kvfree"); }
void kfree(const void *p)
{
	struct kblk *b = p ? kfind(p) : NULL;
	MC_ASSERT(!b || !b->kv, "kfree of memory from kvmalloc");
	kput(p, "kfree");
}
void kvfree_sensitive(const void *p, size_t n)
{
	struct kblk *b = p ? kfind(p) : NULL;
	if (b && b->live) {
		MC_ASSERT(n <= b->n, "kvfree_sensitive clears more than was allocated");
		memset((void *)p, 0, n);
	}
	kput(p, "kvfree_sensitive");
}
void kfree_sensitive(const void *p)
{
	struct kblk *b = p ? kfind(p) : NULL;
	if (b && b->live)
		memset((void *)p, 0, b->n);
	kput(p, "kfree_sensitive");
}
static int klive(void)
{
	int i, n = 0;
	for (i = 0; i < nkblk; i++)
		n += kblk[i].live;
	return n;
}

/* --- locks --- */
static struct mutex *kheld[KACTORS][8];
static int knheld[KACTORS];
static int kmay_sleep_on_lock[KACTORS] = { [0 ... KACTORS - 1] = 1 };	/* 0: the caller asked not to block */
static struct klockset { struct mutex *m[8]; int n; } *krec[KACTORS];	/* locks taken by a callback */
void kenv_mutex_init(struct mutex *m) { m->init = 0x600d; m->held = 0; m->owner = -1; }
void mutex_destroy(struct mutex *m)
{
	MC_ASSERT(!m->held, "a lock is destroyed while held");
	m->init = 0xdead;
}
static void kgot(struct mutex *m)
{
	int a = kact(), i;
	m->held = 1;
	m->owner = a;
	if (knheld[a] == 8)
		mc_fail("harness: locks");
	kheld[a][knheld[a]++] = m;
	if (krec[a]) {
		for (i = 0; i < krec[a]->n && krec[a]->m[i] != m; i++)
			;
		if (i == krec[a]->n && i < 8)
			krec[a]->m[krec[a]->n++] = m;
	}
}
static void kmutex_ok(struct mutex *m)
{
	MC_ASSERT(m->init == 0x600d || m->init == 1, "a lock is used that is not initialized (or already destroyed)");
}
static int klock(struct mutex *m, int intr)
{
	int k;
	kmutex_ok(m);
	kpoint();
	if (m->held && m->owner == kact())
		mc_fail("deadlock: a lock is taken twice");
	k = kfault(KF_LOCK, intr ? 3 : 2, "lock: free, contended, interrupted");
	if (k) {
		MC_ASSERT(kmay_sleep_on_lock[kact()], "a caller that must not block waits for a lock");
		if (k == 2) {
			kproblem(-ERESTARTSYS);
			kfatal_is(-ERESTARTSYS);
			return -EINTR;
		}
	}
	while (m->held) {
		MC_ASSERT(kmay_sleep_on_lock[kact()], "a caller that must not block waits for a lock");
		kwait("a lock is never released");
	}
	kgot(m);
	return 0;
}
void mutex_lock(struct mutex *m) { klock(m, 0); }
int mutex_lock_interruptible(struct mutex *m) { return klock(m, 1); }
int mutex_lock_killable(struct mutex *m) { return klock(m, 1); }
int mutex_trylock(struct mutex *m)
{
	kmutex_ok(m);
	kpoint();
	if (m->held || kfault(KF_LOCK, 2, "trylock: free, contended")) {
		kproblem(-EAGAIN);
		return 0;
	}
	kgot(m);
	return 1;
}
void mutex_unlock(struct mutex *m)
{
	int a = kact(), i;
	kmutex_ok(m);
	MC_ASSERT(m->held, "a lock is released that is not held");
	MC_ASSERT(m->owner == a, "a lock is released by someone who does not hold it");
	m->held = 0;
	for (i = 0; i < knheld[a]; i++)
		if (kheld[a][i] == m)
			break;
	kheld[a][i] = kheld[a][--knheld[a]];
	kpoint();
}
bool mutex_is_locked(struct mutex *m) { return m->held; }
static void kno_lock_of(struct klockset *s, const char *what)
{
	int a = kact(), i, j;
	for (i = 0; i < s->n; i++)
		for (j = 0; j < knheld[a]; j++)
			MC_ASSERT(kheld[a][j] != s->m[i], "deadlock: %s is awaited while holding the lock it takes", what);
}

/* --- work --- */
struct workqueue_struct { int x; };
static struct workqueue_struct kwqs[4];
struct workqueue_struct *system_power_efficient_wq = &kwqs[0], *system_wq = &kwqs[1], *system_long_wq = &kwqs[2], *system_unbound_wq = &kwqs[3];
static struct kwork { struct delayed_work *w; int pending, running, cancel; unsigned long delay; struct klockset locks; } kwork[32];
static int nkwork;
static struct kwork *kwfind(struct delayed_work *w)
{
	int i;
	for (i = nkwork - 1; i >= 0; i--)
		if (kwork[i].w == w)
			return &kwork[i];
	return NULL;
}
void kenv_init_work(struct delayed_work *w, work_func_t f)
{
	struct kwork *k = kwfind(w);
	MC_ASSERT(!k || (!k->pending && !k->running), "work is initialized while pending or running");
	if (!k) {
		if (nkwork == 32)
			mc_fail("harness: works");
		k = &kwork[nkwork++];
	}
	memset(k, 0, sizeof(*k));
	k->w = w;
	w->work.func = f;
	w->init = 0x700d;
}
bool queue_delayed_work(struct workqueue_struct *q, struct delayed_work *w, unsigned long delay)
{
	struct kwork *k = kwfind(w);
	(void)q;
	MC_ASSERT(k && w->init == 0x700d, "work is queued that is not initialized");
	if (k->cancel || k->pending)
		return false;
	k->pending = 1;
	k->delay = delay;
	kpoint();
	return true;
}
bool mod_delayed_work(struct workqueue_struct *q, struct delayed_work *w, unsigned long delay)
{
	struct kwork *k = kwfind(w);
	bool r = k && k->pending;
	if (k)
		k->pending = 0;
	queue_delayed_work(q, w, delay);
	return r;
}
static int kwork_fire(struct kwork *k)
{
	struct klockset *save;
	int a = kact();
	if (!k->pending)
		return 0;
	k->pending = 0;
	k->running++;
	MC_ASSERT(kfind(k->w) == NULL || kfind(k->w)->live, "work runs on freed memory");
	save = krec[a];
	krec[a] = &k->locks;
	k->w->work.func(&k->w->work);
	krec[a] = save;
	k->running--;
	return 1;
}
bool cancel_delayed_work(struct delayed_work *w)
{
	struct kwork *k = kwfind(w);
	bool r;
	MC_ASSERT(k && w->init == 0x700d, "work is cancelled that is not initialized");
	kpoint();
	r = k->pending;
	k->pending = 0;
	return r;
}
bool cancel_delayed_work_sync(struct delayed_work *w)
{
	struct kwork *k = kwfind(w);
	bool r = cancel_delayed_work(w);
	kno_lock_of(&k->locks, "work");
	k->cancel++;
	while (k->running)
		kwait("work waits for itself");
	k->pending = 0;
	k->cancel--;
	kpoint();
	return r;
}
static int kpending(void)
{
	int i, n = 0;
	for (i = 0; i < nkwork; i++)
		n += kwork[i].pending;
	return n;
}

/* --- registrations: undone strictly in reverse order --- */
static int kreg[16], nkreg;
enum { KR_PROC = 1, KR_CRYPTO, KR_HWRNG, KR_DEBUGFS, KR_MISC };
static const char *kregname[] = { "", "proc directory", "crypto algorithm", "hwrng", "debugfs directory", "character device" };
static int kin_init;	/* module init is running */
static void kreg_add(int what)
{
	kreg[nkreg++] = what;
}
static void kreg_del(int what)
{
	MC_ASSERT(nkreg && kreg[nkreg - 1] == what, "%s removed, but not in reverse order of registration", kregname[what]);
	nkreg--;
}
static int kregistered(int what)
{
	int i;
	for (i = 0; i < nkreg; i++)
		if (kreg[i] == what)
			return 1;
	return 0;
}

/* --- proc --- */
struct proc_dir_entry { char name[64]; struct proc_dir_entry *parent; kproc_show show; void *data; int live, dir, inuse; struct klockset locks; };
static struct proc_dir_entry kproc[64];
static int nkproc;
static struct proc_dir_entry *kproc_add(const char *n, struct proc_dir_entry *parent, kproc_show show, void *data, int dir)
{
	struct proc_dir_entry *e;
	int i;
	kpoint();
	MC_ASSERT(!parent || (parent->live && parent->dir), "proc entry %s created below a removed directory", n);
	if (kfault(KF_PROC, 2, "proc entry cannot be created")) {
		/* optional files: everything that is not part of the fixed tree */
		if (!(parent && (!strcmp(n, "hwrng_status") || !strcmp(n, "instances") || !strcmp(parent->name, "instances"))))
			kfatal_is(-ENOMEM);
		return NULL;
	}
	for (i = 0; i < nkproc; i++)
		MC_ASSERT(!kproc[i].live || kproc[i].parent != parent || strcmp(kproc[i].name, n), "two proc entries %s", n);
	if (nkproc == 64)
		mc_fail("harness: proc");
	e = &kproc[nkproc++];
	snprintf(e->name, sizeof(e->name), "%s", n);
	e->parent = parent;
	e->show = show;
	e->data = data;
	e->dir = dir;
	e->live = 1;
	if (!parent)
		kreg_add(KR_PROC);
	return e;
}
struct proc_dir_entry *proc_mkdir(const char *n, struct proc_dir_entry *parent) { return kproc_add(n, parent, NULL, NULL, 1); }
struct proc_dir_entry *proc_create_single_data(const char *n, umode_t m, struct proc_dir_entry *parent, kproc_show show, void *data)
{
	MC_ASSERT((m & 0222) == 0, "proc entry %s is writable", n);
	return kproc_add(n, parent, show, data, 0);
}
static char kseqbuf[16384];
static struct seq_file kseq;
static int kproc_read(struct proc_dir_entry *e)
{
	int r, a = kact();
	struct klockset *save = krec[a];
	MC_ASSERT(e->live && !e->dir, "harness: reading a removed proc entry");
	memset(&kseq, 0, sizeof(kseq));
	kseq.private = e->data;
	kseq.buf = kseqbuf;
	kseq.size = sizeof(kseqbuf);
	kseqbuf[0] = 0;
	e->inuse++;
	krec[a] = &e->locks;
	r = e->show(&kseq, NULL);
	krec[a] = save;
	e->inuse--;
	return r;
}
static void kproc_rm(struct proc_dir_entry *e)
{
	int i;
	for (i = 0; i < nkproc; i++)
		if (kproc[i].live && kproc[i].parent == e)
			kproc_rm(&kproc[i]);
	e->live = 0;
	kno_lock_of(&e->locks, "a reader of a proc file");
	while (e->inuse)
		kwait("proc file waits for its own reader");
}
void proc_remove(struct proc_dir_entry *e)
{
	if (!e)
		return;
	MC_ASSERT(e >= kproc && e < kproc + 64, "proc_remove of something else");
	MC_ASSERT(e->live, "proc entry %s is removed twice", e->name);
	if (!e->dir && kfault(KF_EARLY, 2, "proc file read right before its removal"))
		kproc_read(e);
	kpoint();
	kproc_rm(e);
	if (!e->parent)
		kreg_del(KR_PROC);
	kpoint();
}
static struct proc_dir_entry *kproc_get(const char *dir, const char *n)
{
	int i;
	for (i = 0; i < nkproc; i++)
		if (kproc[i].live && !strcmp(kproc[i].name, n) && ((!dir && !kproc[i].parent) || (dir && kproc[i].parent && !strcmp(kproc[i].parent->name, dir))))
			return &kproc[i];
	return NULL;
}
void remove_proc_entry(const char *n, struct proc_dir_entry *parent)
{
	int i;
	for (i = 0; i < nkproc; i++)
		if (kproc[i].live && kproc[i].parent == parent && !strcmp(kproc[i].name, n)) {
			proc_remove(&kproc[i]);
			return;
		}
	mc_fail("proc entry %s is removed that does not exist", n);
}
int remove_proc_subtree(const char *n, struct proc_dir_entry *parent) { remove_proc_entry(n, parent); return 0; }
void seq_puts(struct seq_file *m, const char *s) { seq_write(m, s, strlen(s)); }
void seq_putc(struct seq_file *m, char c) { seq_write(m, &c, 1); }
int seq_write(struct seq_file *m, const void *p, size_t n)
{
	if (m->count + n + 1 > m->size)
		mc_fail("harness: seq buffer");
	memcpy(m->buf + m->count, p, n);
	m->count += n;
	m->buf[m->count] = 0;
	return 0;
}
void seq_printf(struct seq_file *m, const char *fmt, ...)
{
	char b[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	seq_puts(m, b);
}

/* --- file interfaces --- */
static struct miscdevice *kmisc;
static struct file kearly_file;
static int kearly_open;	/* someone opened the device the moment it appeared */
int misc_register(struct miscdevice *m)
{
	if (kfault(KF_REG, 2, "misc_register fails")) {
		kfatal_is(-EBUSY);
		return -EBUSY;
	}
	MC_ASSERT(!kmisc, "character device registered twice");
	kmisc = m;
	kreg_add(KR_MISC);
	if (kfault(KF_EARLY, 2, "device opened as soon as it appears")) {
		struct inode ino;
		unsigned save = kinj;
		kinj = 0;
		MC_ASSERT(m->fops->open(&ino, &kearly_file) == 0, "device cannot be opened when it appears");
		kearly_open = 1;
		kinj = save;
	}
	return 0;
}
void misc_deregister(struct miscdevice *m)
{
	MC_ASSERT(kmisc == m, "character device deregistered that is not registered");
	MC_ASSERT(!kin_init, "the load fails after the character device was already visible");
	kreg_del(KR_MISC);
	kmisc = NULL;
}
long compat_ptr_ioctl(struct file *f, unsigned int c, unsigned long a) { return kmisc->fops->unlocked_ioctl(f, c, a); }
loff_t no_llseek(struct file *f, loff_t o, int w) { (void)f; (void)o; (void)w; return -29; }
loff_t noop_llseek(struct file *f, loff_t o, int w) { (void)o; (void)w; return f->f_pos; }

struct dentry { char name[64]; struct dentry *parent; const struct file_operations *fops; int live; umode_t mode; };
static struct dentry kdent[8];
static int nkdent;
static struct dentry *kdent_add(const char *n, umode_t m, struct dentry *parent, const struct file_operations *f)
{
	struct dentry *d;
	MC_ASSERT(!parent || (!IS_ERR(parent) && parent->live), "debugfs entry %s created below a removed directory", n);
	if (kfault(KF_REG, 2, "debugfs entry cannot be created")) {
		kfatal_is(-ENOMEM);
		return ERR_PTR(-ENOMEM);
	}
	if (nkdent == 8)
		mc_fail("harness: debugfs");
	d = &kdent[nkdent++];
	snprintf(d->name, sizeof(d->name), "%s", n);
	d->parent = parent;
	d->fops = f;
	d->mode = m;
	d->live = 1;
	if (!parent)
		kreg_add(KR_DEBUGFS);
	return d;
}
struct dentry *debugfs_create_dir(const char *n, struct dentry *parent) { return kdent_add(n, 0700, parent, NULL); }
struct dentry *debugfs_create_file(const char *n, umode_t m, struct dentry *parent, void *data, const struct file_operations *f)
{
	(void)data;
	MC_ASSERT(parent, "debugfs file outside the module's directory");
	MC_ASSERT((m & 0077) == 0, "raw noise is readable by everybody");
	return kdent_add(n, m, parent, f);
}
struct dentry *debugfs_create_file_unsafe(const char *n, umode_t m, struct dentry *parent, void *data, const struct file_operations *f)
{
	return debugfs_create_file(n, m, parent, data, f);
}
void debugfs_remove_recursive(struct dentry *d)
{
	int i;
	if (IS_ERR_OR_NULL(d))
		return;
	MC_ASSERT(d->live, "debugfs entry %s is removed twice", d->name);
	d->live = 0;
	for (i = 0; i < nkdent; i++)
		if (kdent[i].parent == d)
			kdent[i].live = 0;
	if (!d->parent)
		kreg_del(KR_DEBUGFS);
}
void debugfs_remove(struct dentry *d) { debugfs_remove_recursive(d); }
static const struct file_operations *kraw_fops(void)
{
	int i;
	for (i = 0; i < nkdent; i++)
		if (kdent[i].live && kdent[i].fops)
			return kdent[i].fops;
	return NULL;
}

/* --- hwrng, crypto --- */
static struct hwrng *khwrng;
static int kquality;	/* asked for at registration */
static void kearly_hwrng(struct hwrng *r, const char *what)
{
	static unsigned char b[16];
	if (kfault(KF_EARLY, 2, what)) {
		unsigned save = kinj;
		int k;
		kinj = 0;
		k = r->read(r, b, sizeof(b), true);
		MC_ASSERT(k == sizeof(b), "hwrng cannot be read while registered");
		kinj = save;
	}
}
int hwrng_register(struct hwrng *r)
{
	if (kfault(KF_REG, 2, "hwrng_register fails")) {
		kfatal_is(-EEXIST);
		return -EEXIST;
	}
	MC_ASSERT(!khwrng, "hwrng registered twice");
	MC_ASSERT(r->quality <= 1024, "hwrng quality out of range");
	kquality = r->quality;
	MC_ASSERT(r->read && r->name, "hwrng without a read function");
	if (!r->quality)
		r->quality = 1024;
	khwrng = r;
	kreg_add(KR_HWRNG);
	kearly_hwrng(r, "hwrng read as soon as registered");
	return 0;
}
void hwrng_unregister(struct hwrng *r)
{
	MC_ASSERT(khwrng == r, "hwrng unregistered that is not registered");
	kearly_hwrng(r, "hwrng read right before it is unregistered");
	kreg_del(KR_HWRNG);
	khwrng = NULL;
}
static struct rng_alg *kalg;
static int kntfm;
int crypto_register_rng(struct rng_alg *a)
{
	if (kfault(KF_REG, 2, "crypto_register_rng fails")) {
		kfatal_is(-EINVAL);
		return -EINVAL;
	}
	MC_ASSERT(!kalg, "algorithm registered twice");
	kalg = a;
	kreg_add(KR_CRYPTO);
	return 0;
}
void crypto_unregister_rng(struct rng_alg *a)
{
	MC_ASSERT(kalg == a, "algorithm unregistered that is not registered");
	kreg_del(KR_CRYPTO);
	kalg = NULL;
}
static int ktfm_new(struct crypto_rng *t)
{
	int r;
	t->base.ctx = kget(kalg->base.cra_ctxsize, 1, 0);
	r = kalg->base.cra_init(&t->base);
	if (r) {
		kfree_sensitive(t->base.ctx);
		t->base.ctx = NULL;
	} else
		kntfm++;
	return r;
}
static void ktfm_del(struct crypto_rng *t)
{
	kalg->base.cra_exit(&t->base);
	kfree_sensitive(t->base.ctx);
	t->base.ctx = NULL;
	kntfm--;
}

/* --- user memory --- */
static struct { char *p; size_t n; } kuser[4];
static int nkuser;
static char *kuser_new(size_t n)	/* ends at an inaccessible page */
{
	size_t pg = (n + 4095) & ~(size_t)4095;
	char *m = mmap(NULL, pg + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), *p;
	mprotect(m, 4096, PROT_NONE);
	mprotect(m + 4096 + pg, 4096, PROT_NONE);
	p = m + 4096 + pg - n;
	memset(p, 0x21, n);
	if (nkuser == 4)
		mc_fail("harness: user buffers");
	kuser[nkuser].p = p;
	kuser[nkuser++].n = n;
	return p;
}
static void kuser_reset(void)
{
	while (nkuser) {
		nkuser--;
		size_t pg = (kuser[nkuser].n + 4095) & ~(size_t)4095;
		char *p = kuser[nkuser].p + kuser[nkuser].n;
		munmap(p - pg - 4096, pg + 8192);
	}
}
static int kuser_has(const void *p, size_t n)
{
	int i;
	for (i = 0; i < nkuser; i++)
		if ((const char *)p >= kuser[i].p && (const char *)p + n <= kuser[i].p + kuser[i].n)
			return 1;
	return 0;
}
static struct file *kop_file;	/* whose O_NONBLOCK may be flipped by fcntl */
static int kcopy_unlocked;	/* the interface promises not to hold its lock while copying */
static void kvcopy(volatile unsigned char *d, const volatile unsigned char *s, size_t n) { while (n--) *d++ = *s++; }
unsigned long copy_to_user(void *to, const void *from, unsigned long n)
{
	int k;
	unsigned long ok = n;
	kpoint();
	MC_ASSERT(!kcopy_unlocked || !knheld[kact()], "the instance lock is held while copying to the user");
	MC_ASSERT(kuser_has(to, n), "written outside of the user's buffer");
	{
		struct kblk *b = kfind(from);
		MC_ASSERT(!b || (b->live && (const char *)from + n <= b->p + b->n), "copied to the user from outside the kernel buffer");
	}
	k = n ? kfault(KF_COPY, 4, "copy: complete, fault at start, in the middle, at the end") : 0;
	if (k == 1)
		ok = 0;
	else if (k == 2)
		ok = n / 2;
	else if (k == 3)
		ok = n - 1;
	if (ok == n)
		k = 0;
	kvcopy(to, from, ok);
	kev.copies++;
	kev.copied += (long)ok;
	if (k)
		kproblem(-EFAULT);
	else if (!kev.problem)
		kev.done += (long)n;
	if (kop_file && kfault(KF_NONBLOCK, 2, "O_NONBLOCK switched on meanwhile"))
		kop_file->f_flags |= O_NONBLOCK;
	kpoint();
	return n - ok;
}
unsigned long copy_from_user(void *to, const void *from, unsigned long n)
{
	kpoint();
	MC_ASSERT(kuser_has(from, n), "read outside of the user's buffer");
	if (kfault(KF_COPY, 2, "copy from user faults")) {
		kproblem(-EFAULT);
		return n;
	}
	memcpy(to, from, n);
	return 0;
}

/* --- the rest of the kernel --- */
int fips_enabled;
static int kpanicked;
static ucontext_t kmainctx, kopctx;
static int kin_op;
void panic(const char *fmt, ...)
{
	(void)fmt;
	kpanicked = 1;
	MC_ASSERT(fips_enabled, "panic without FIPS mode");
	MC_ASSERT(kev.permanent, "panic without a permanent failure");
	if (!kin_op)
		mc_fail("harness: panic outside of an operation");
	setcontext(&kmainctx);
	abort();
}
void kenv_log(const char *fmt, ...) 
{
	static char b[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	kev.logs++;
}
int __ratelimit(struct ratelimit_state *rs) { (void)rs; return 1; }
int signal_pending(void *t)
{
	(void)t;
	kpoint();
	kev.signals_asked++;
	kev.gen_since_poll = 0;
	if (kfault(KF_SIGNAL, 2, "signal pending")) {
		kproblem(-ERESTARTSYS);
		return 1;
	}
	return 0;
}
bool need_resched(void) { return true; }
int cond_resched(void) { kpoint(); return 1; }
void schedule(void) { kpoint(); }
static int kcap = 1, klockdown, kcap_asked;
bool capable(int cap) { MC_ASSERT(cap == CAP_SYS_ADMIN, "another privilege is demanded"); kcap_asked++; return kcap; }
int security_locked_down(int what) { (void)what; return klockdown ? -EPERM : 0; }
static struct { const char *name; void *p; size_t n; } kpar[24];
static int nkpar;
void kenv_param(const char *name, void *p, size_t n)
{
	kpar[nkpar].name = name;
	kpar[nkpar].p = p;
	kpar[nkpar++].n = n;
}
static void kset(const char *name, unsigned v)
{
	int i;
	for (i = 0; i < nkpar; i++)
		if (!strcmp(kpar[i].name, name)) {
			if (kpar[i].n == 1)
				*(bool *)kpar[i].p = v;
			else
				*(unsigned *)kpar[i].p = v;
			return;
		}
	mc_fail("harness: module parameter %s does not exist", name);
}
static unsigned kparam_get(const char *name)
{
	int i;
	for (i = 0; i < nkpar; i++)
		if (!strcmp(kpar[i].name, name))
			return kpar[i].n == 1 ? *(bool *)kpar[i].p : *(unsigned *)kpar[i].p;
	mc_fail("harness: module parameter %s does not exist", name);
}

/* --- the library --- */
static struct kinst {
	struct rand_data *ec;
	struct mutex *lock;
	struct rand_data **slot;
	unsigned osr, flags;
	int failed, failed_by, live, raw, busy, busy_by, id;
	unsigned reallocs;
	char uuid[40];
} kinst[16];
static int nkinst, klib_init;
static unsigned klib_osr, klib_flags;
static struct kinst *kinst_of(const struct rand_data *ec)
{
	int i;
	for (i = 0; i < nkinst; i++)
		if (kinst[i].ec == ec && ec)
			return &kinst[i];
	return NULL;
}
/* the instance's own lock, and no other, is held around the library */
static void kexcl(struct kinst *k, const char *fn)
{
	int a = kact();
	MC_ASSERT(k && k->live, "%s on a released instance", fn);
	MC_ASSERT(knheld[a] == 1, "%s with %d locks held", fn, knheld[a]);
	if (!k->lock)
		k->lock = kheld[a][0];
	MC_ASSERT(k->lock == kheld[a][0], "%s under another lock than before", fn);
	MC_ASSERT(!k->busy, "%s while the instance is in use", fn);
	k->busy = 1;
	k->busy_by = a;
	kpoint();
}
#ifdef KENV_SCHED
static void kaccess_inst(const void *p)
{
	int i;
	for (i = 0; i < nkinst; i++)
		if (kinst[i].live && kinst[i].busy && kinst[i].busy_by != kact())
			MC_ASSERT((const char *)p < (const char *)kinst[i].ec || (const char *)p >= (const char *)(kinst[i].ec + 1),
				  "an instance is looked at while the library works on it");
}
#endif
static void kidle(struct kinst *k) { kpoint(); k->busy = 0; }
static struct rand_data *kec_new(struct kinst *k)
{
	struct rand_data *ec = kget(sizeof(*ec), 1, 1);
	ec->osr = k->osr < JENT_MIN_OSR ? JENT_MIN_OSR : k->osr;
	ec->flags = k->flags;
	ec->reinit_count = k->reallocs;
	ec->health_failure = (unsigned)(0x10001u * (unsigned)(k->id + 1));
	ec->read_invocations = 1000u + (unsigned)k->id;
	ec->bytes_output = 0x123456789aull + (unsigned)k->id;
	return ec;
}
static struct rand_data *kcollector(unsigned o, unsigned f, int raw)
{
	struct kinst *k;
	MC_ASSERT(klib_init, "an instance is allocated before the library is initialized");
	if (kfault(KF_LIBALLOC, 2, "instance cannot be allocated")) {
		kproblem(-ENOMEM);
		kfatal_is(-ENOMEM);
		return NULL;
	}
	if (nkinst == 16)
		mc_fail("harness: instances");
	k = &kinst[nkinst];
	memset(k, 0, sizeof(*k));
	k->id = nkinst++;
	k->osr = o;
	k->flags = f;
	k->raw = raw;
	k->live = 1;
	if (!raw)
		snprintf(k->uuid, sizeof(k->uuid), "01234567-89ab-4cde-8f01-23456789ab%02x", k->id);
	k->ec = kec_new(k);
	return k->ec;
}
struct rand_data *jent_entropy_collector_alloc(unsigned int o, unsigned int f)
{
	MC_ASSERT(o == klib_osr && f == klib_flags, "instance with other parameters than the module's (rate %u flags %#x)", o, f);
	return kcollector(o, f, 0);
}
struct rand_data *jent_entropy_collector_alloc_raw(unsigned int o, unsigned int f) { return kcollector(o, f, 1); }
void jent_entropy_collector_free(struct rand_data *ec)
{
	struct kinst *k;
	if (!ec)
		return;
	kpoint();
	k = kinst_of(ec);
	MC_ASSERT(k && k->live, "an instance is released twice");
	MC_ASSERT(!k->busy, "an instance is released while in use");
	k->live = 0;
	kput(ec, "library");
}
static int kinit_result;
int jent_entropy_init_ex(unsigned int o, unsigned int f)
{
	klib_osr = o;
	klib_flags = f;
	if (kinit_result) {
		kev.permanent = 1;
		kfatal_is(-EFAULT);
		return kinit_result;
	}
	klib_init = 1;
	return 0;
}
int jent_entropy_init(void) { return jent_entropy_init_ex(0, 0); }
static const int kerrs[] = { 0, 0, JENT_ERR_RCT, JENT_ERR_RCT_PERMANENT, JENT_ERR_EINVAL, JENT_ERR_APT, JENT_ERR_NOTIME, JENT_ERR_LAG,
			     JENT_ERR_APT_PERMANENT, JENT_ERR_LAG_PERMANENT, JENT_ERR_RCT_MEM, JENT_ERR_RCT_MEM_PERMANENT, JENT_ERR_SELFTEST, -99, JENT_ERR_RCT, JENT_ERR_LAG_PERMANENT };
#define KGEN_REALLOC(k) ((k) == 1 || (k) >= 14)	/* with a new collector */
static int kgen_kinds = sizeof(kerrs) / sizeof(kerrs[0]);
static int krealloc_all;	/* every generation recovers with a new collector */
static int kmap(int e)	/* documented errno of a generator error */
{
	switch (e) {
	case JENT_ERR_RCT: case JENT_ERR_APT: case JENT_ERR_LAG: case JENT_ERR_RCT_MEM:
		return -EAGAIN;
	case JENT_ERR_EINVAL: case JENT_ERR_NOTIME:
		return -EINVAL;
	default:
		return -EFAULT;
	}
}
static int kperm(int e)
{
	return e == JENT_ERR_RCT_PERMANENT || e == JENT_ERR_APT_PERMANENT || e == JENT_ERR_LAG_PERMANENT ||
	       e == JENT_ERR_RCT_MEM_PERMANENT || e == JENT_ERR_SELFTEST;
}
static void kmark(const void *p, size_t n)	/* generated bytes in kernel memory */
{
	struct kblk *b = kfind(p);
	size_t i, o;
	if (!b)
		return;
	if (!b->gen)
		b->gen = calloc(1, b->n + 1);
	o = (size_t)((const char *)p - b->p);
	for (i = 0; i < n && o + i < b->n; i++)
		b->gen[o + i] = ((const unsigned char *)p)[i];
}
ssize_t jent_read_entropy_safe(struct rand_data **slot, char *data, size_t len)
{
	struct kinst *k = kinst_of(*slot);
	volatile unsigned char *d = (volatile unsigned char *)data;
	struct kblk *b;
	int e, kind;
	size_t i;
	kexcl(k, "generator");
	if (!k->slot)
		k->slot = slot;
	MC_ASSERT(k->slot == slot, "generator called for another place than before");
	b = kfind(data);
	MC_ASSERT(!b || (b->live && data + len <= b->p + b->n), "generator writes outside of the buffer");
	kev.gens++;
	kev.gen_since_poll++;
	kind = krealloc_all ? 1 : kfault(KF_GEN, kgen_kinds, "generator result");
	e = k->failed ? JENT_ERR_SELFTEST : kerrs[kind];
	if (!k->failed && KGEN_REALLOC(kind)) {
		struct rand_data *old = k->ec;
		k->reallocs++;
		k->ec = kec_new(k);
#ifdef KENV_SCHED
		saccess(slot, sizeof(*slot), 1);
#endif
		*slot = k->ec;
		kput(old, "library");
	}
	if (e) {	/* some bytes of earlier blocks are left behind */
		for (i = 0; i < len / 2 + 1 && i < len; i++)
			d[i] = 0x7f;
		kproblem(kmap(e));
		if (kperm(e))
			kev.permanent = 1;
		kidle(k);
		return e;
	}
	if (kngood + len > KGENMAX)
		mc_fail("harness: generated data");
	for (i = 0; i < len; i++)
		d[i] = kgood[kngood + i] = kgb(kngood + i);
	kngood += len;
	kmark(data, len);
	kidle(k);
	return (ssize_t)len;
}
ssize_t jent_read_entropy(struct rand_data *ec, char *data, size_t len)
{
	(void)ec; (void)data; (void)len;
	mc_fail("read without recovery");
}
static int kverdict;	/* of the next self tests */
static int (*kverdict_fn)(void);
int jent_selftest(struct rand_data *ec)
{
	struct kinst *k = NULL;
	int v;
	if (ec) {
		k = kinst_of(ec);
		kexcl(k, "self test");
		MC_ASSERT(!k->failed, "self test repeated on a failed instance");
	} else
		kpoint();
	v = kverdict_fn ? kverdict_fn() : kverdict ? kverdict : kfault(KF_SELFTEST, 2, "self test verdict") ? 17 : 0;
	kev.selftests++;
	if (v)
		kev.permanent = 1;
	if (k) {
		if (v) {
			k->failed = 1;
			k->failed_by = kact();
		}
		kidle(k);
	}
	return v;
}
static size_t kstatus_len = 300;
int jent_status(const struct rand_data *ec, char *buf, size_t n)
{
	struct kinst *k = kinst_of((struct rand_data *)ec);
	struct kblk *b = kfind(buf);
	size_t i;
	MC_ASSERT(!b || (b->live && buf + n <= b->p + b->n), "status written outside of the buffer");
	kexcl(k, "status");
	if (kfault(KF_STATUS, 2, "status fails")) {
		kproblem(-EIO);
		kidle(k);
		return -1;
	}
	if (kstatus_len + 1 > n) {
		kidle(k);
		return -1;
	}
	for (i = 0; i < kstatus_len; i++)
		buf[i] = (char)(i % 40 == 39 ? '\n' : 'a' + (int)((i + (unsigned)k->id * 3u) % 26));
	buf[kstatus_len] = 0;
	kidle(k);
	return 0;
}
static int kstatus_is(const char *b, int id)
{
	size_t i;
	for (i = 0; i < kstatus_len; i++)
		if (b[i] != (char)(i % 40 == 39 ? '\n' : 'a' + (int)((i + (unsigned)id * 3u) % 26)))
			return 0;
	return b[kstatus_len] == 0;
}
int jent_uuid(const struct rand_data *ec, char *buf, size_t n)
{
	struct kinst *k = kinst_of((struct rand_data *)ec);
	MC_ASSERT(k && k->live, "UUID of a released instance");
	if (n < JENT_UUID_STRLEN || kfault(KF_UUID, 2, "UUID unavailable")) {
		kproblem(-EIO);
		return -1;
	}
	snprintf(buf, n, "%s", k->uuid);
	return 0;
}
unsigned int jent_version(void) { return 3070100; }
int jent_fips_enabled(void) { return fips_enabled; }
/* raw measurements */
static struct { int fn; uint64_t loop; uint64_t delta; int recorded, round; const struct rand_data *ec; } kmeas[8192];
static int nkmeas;
static unsigned int kmeasure(int fn, struct rand_data *ec, uint64_t loop, uint64_t *out)
{
	struct kinst *k = kinst_of(ec);
	kexcl(k, "measurement");
	MC_ASSERT(k->raw, "measurement on an instance that delivers random numbers");
	if (nkmeas < 8192) {
		kmeas[nkmeas].fn = fn;
		kmeas[nkmeas].loop = loop;
		kmeas[nkmeas].recorded = out != NULL;
		kmeas[nkmeas].ec = ec;
		kmeas[nkmeas].round = kev.copies;
		kmeas[nkmeas].delta = 0;
	}
	if (out) {
		uint64_t v = 0;
		int i;
		struct kblk *b = kfind(out);
		MC_ASSERT(!b || (b->live && (char *)(out + 1) <= b->p + b->n), "sample written outside of the buffer");
		if (kngood + 8 > KGENMAX)
			mc_fail("harness: generated data");
		for (i = 0; i < 8; i++) {
			kgood[kngood] = kgb(kngood);
			v = v << 8 | kgood[kngood];
			kngood++;
		}
		*(volatile uint64_t *)out = v;
		if (nkmeas < 8192)
			kmeas[nkmeas].delta = v;
		kmark(out, 8);
	}
	nkmeas++;
	kidle(k);
	return 0;
}
unsigned int jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *o) { return kmeasure(0, ec, l, o); }
unsigned int jent_measure_jitter_ntg1_sha3(struct rand_data *ec, uint64_t l, uint64_t *o) { return kmeasure(1, ec, l, o); }
unsigned int jent_measure_jitter_ntg1_memaccess(struct rand_data *ec, uint64_t l, uint64_t *o) { return kmeasure(2, ec, l, o); }

/* nothing may still refer to memory that goes away */
static void kcheck_block_free(struct kblk *b)
{
	int i;
	char *e = b->p + b->n;
	for (i = 0; i < nkwork; i++)
		if ((char *)kwork[i].w >= b->p && (char *)kwork[i].w < e)
			MC_ASSERT(!kwork[i].pending && !kwork[i].running, "memory is freed while its self test is %s", kwork[i].pending ? "scheduled" : "running");
	for (i = 0; i < nkproc; i++)
		if ((char *)kproc[i].data >= b->p && (char *)kproc[i].data < e)
			MC_ASSERT(!kproc[i].live && !kproc[i].inuse, "memory is freed while proc file %s refers to it", kproc[i].name);
	for (i = 0; i < KACTORS; i++) {
		int j;
		for (j = 0; j < knheld[i]; j++)
			MC_ASSERT((char *)kheld[i][j] < b->p || (char *)kheld[i][j] >= e, "memory is freed that holds a lock in use");
	}
}

/* --- operations on a stack of their own, looked through afterwards --- */
#define KSTACK (96 * 1024)
static unsigned char *kstack;
static void (*kop_fn)(void *);
static void *kop_arg;
static void kop_entry(void)
{
	kop_fn(kop_arg);
	setcontext(&kmainctx);
}
static void kop(void (*fn)(void *), void *arg)
{
	volatile int again = 0;
	int a = kact();
	if (!kstack)
		kstack = mmap(NULL, KSTACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	memset(kstack + KSTACK - 24 * 1024, 0x55, 24 * 1024);
	kop_fn = fn;
	kop_arg = arg;
	kpanicked = 0;
	getcontext(&kopctx);
	kopctx.uc_stack.ss_sp = kstack;
	kopctx.uc_stack.ss_size = KSTACK;
	kopctx.uc_link = NULL;
	makecontext(&kopctx, kop_entry, 0);
	kin_op = 1;
	getcontext(&kmainctx);
	if (!again) {
		again = 1;
		setcontext(&kopctx);
	}
	kin_op = 0;
	if (!kpanicked)
		MC_ASSERT(knheld[a] == 0, "a lock is still held after the operation");
	else
		knheld[a] = 0;
	MC_ASSERT(kpanicked || !kleaks(kstack + KSTACK - 24 * 1024, 24 * 1024), "random data is left on the kernel stack");
}

static void kcheck_nothing_left(const char *when)
{
	int i;
	MC_ASSERT(nkreg == 0, "%s: %s still registered", when, kregname[kreg[nkreg - 1]]);
	for (i = 0; i < nkproc; i++)
		MC_ASSERT(!kproc[i].live, "%s: proc entry %s still exists", when, kproc[i].name);
	for (i = 0; i < nkdent; i++)
		MC_ASSERT(!kdent[i].live, "%s: debugfs entry %s still exists", when, kdent[i].name);
	for (i = 0; i < nkinst; i++)
		MC_ASSERT(!kinst[i].live, "%s: an instance is not released", when);
	MC_ASSERT(kpending() == 0, "%s: a self test is still scheduled", when);
	MC_ASSERT(klive() == 0, "%s: %d allocations are not freed", when, klive());
}
#endif
