/*
 * The part of the Linux kernel's interface that the module uses, for building
 * linux_kernel/ as an ordinary program.  Every <linux/...> and <crypto/...>
 * header resolves to this file (see vc.py); what it declares is implemented by
 * harness/kenv.h, where the checks inject faults and observe.
 */
#ifndef KSTUB_H
#define KSTUB_H

#include <asm-generic/errno.h>
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdarg.h>
#include <limits.h>
#include <string.h>
#include <stdio.h>
#include <sys/types.h>

#ifndef ERESTARTSYS
#define ERESTARTSYS 512
#endif
#define ENOTSUPP 524

/* --- types and language --- */
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;
typedef uint8_t __u8; typedef uint16_t __u16; typedef uint32_t __u32; typedef unsigned long long __u64;
typedef int32_t __s32; typedef long long __s64;
#define __aligned_u64 __u64 __attribute__((aligned(8)))
typedef unsigned short umode_t;
typedef unsigned int gfp_t;
#define __user
#define __init
#define __exit
#define __force
#define __must_check
#define __maybe_unused __attribute__((unused))
#undef __always_inline
#define __always_inline inline
#define likely(x) (x)
#define unlikely(x) (x)
#define fallthrough __attribute__((fallthrough))
#define READ_ONCE(x) (*(volatile __typeof__(x) *)&(x))
#define WRITE_ONCE(x, v) (*(volatile __typeof__(x) *)&(x) = (v))
#define ARRAY_SIZE(a) (sizeof(a) / sizeof((a)[0]))
#define BUILD_BUG_ON(c) _Static_assert(!(c), "BUILD_BUG_ON")
#define container_of(p, t, m) ((t *)((char *)(p) - offsetof(t, m)))
#define min_t(t, a, b) ({ t _a = (a), _b = (b); _a < _b ? _a : _b; })
#define max_t(t, a, b) ({ t _a = (a), _b = (b); _a > _b ? _a : _b; })
#define min(a, b) ({ __typeof__(a) _a = (a); __typeof__(b) _b = (b); _a < _b ? _a : _b; })
#define max(a, b) ({ __typeof__(a) _a = (a); __typeof__(b) _b = (b); _a > _b ? _a : _b; })
#define clamp_t(t, v, l, h) min_t(t, max_t(t, v, l), h)
#define IS_ERR_VALUE(x) ((unsigned long)(void *)(x) >= (unsigned long)-4095)
static inline void *ERR_PTR(long e) { return (void *)e; }
static inline long PTR_ERR(const void *p) { return (long)p; }
static inline bool IS_ERR(const void *p) { return IS_ERR_VALUE(p); }
static inline bool IS_ERR_OR_NULL(const void *p) { return !p || IS_ERR_VALUE(p); }
static inline int PTR_ERR_OR_ZERO(const void *p) { return IS_ERR(p) ? (int)PTR_ERR(p) : 0; }
#define U64_MAX UINT64_MAX
#define U32_MAX UINT32_MAX
#define SIZE_MAX_ SIZE_MAX

#define __ARG_PLACEHOLDER_1 0,
#define __take_second_arg(i, v, ...) v
#define __is_defined(x) ___is_defined(x)
#define ___is_defined(v) ____is_defined(__ARG_PLACEHOLDER_##v)
#define ____is_defined(a) __take_second_arg(a 1, 0)
#define IS_ENABLED(o) __is_defined(o)

#define KERNEL_VERSION(a, b, c) (((a) << 16) + ((b) << 8) + (c))
#ifndef LINUX_VERSION_CODE
#define LINUX_VERSION_CODE KERNEL_VERSION(6, 8, 0)
#endif
#define HZ 1000

#ifndef offsetofend
#define offsetofend(t, m) (offsetof(t, m) + sizeof(((t *)0)->m))
#define sizeof_field(t, m) sizeof(((t *)0)->m)
#endif
#define BIT(n) (1UL << (n))
#define BIT_ULL(n) (1ULL << (n))
#define DIV_ROUND_UP(n, d) (((n) + (d) - 1) / (d))
#define umin(a, b) min_t(size_t, a, b)
#define umax(a, b) max_t(size_t, a, b)
#define min3(a, b, c) min(min(a, b), c)
#define max3(a, b, c) max(max(a, b), c)
#define clamp(v, l, h) min(max(v, l), h)
#define swap(a, b) do { __typeof__(a) _t = (a); (a) = (b); (b) = _t; } while (0)
#ifndef static_assert
#define static_assert _Static_assert
#endif
#define barrier() __asm__ volatile("" : : : "memory")
#define smp_mb() __atomic_thread_fence(5)
#define smp_rmb() __atomic_thread_fence(5)
#define smp_wmb() __atomic_thread_fence(5)
#define smp_load_acquire(p) __atomic_load_n(p, 2)
#define smp_store_release(p, v) __atomic_store_n(p, v, 3)
#define xchg(p, v) __atomic_exchange_n(p, v, 5)
#define noinline __attribute__((noinline))
#define __cold
#define __ro_after_init
#define __read_mostly
#define __packed __attribute__((packed))
#define U8_MAX UINT8_MAX
#define U16_MAX UINT16_MAX
#define SSIZE_MAX_ LONG_MAX
#define ERR_CAST(p) ((void *)(p))
static inline int scnprintf(char *b, size_t n, const char *fmt, ...)
{
	va_list ap;
	int r;
	va_start(ap, fmt);
	r = vsnprintf(b, n, fmt, ap);
	va_end(ap);
	return n && r >= (int)n ? (int)n - 1 : r;
}
static inline ssize_t strscpy(char *d, const char *s, size_t n)
{
	size_t l = strlen(s);
	if (!n)
		return -E2BIG;
	memcpy(d, s, l < n ? l + 1 : n);
	d[n - 1] = 0;
	return l < n ? (ssize_t)l : -E2BIG;
}
#define secs_to_jiffies(s) ((unsigned long)(s) * HZ)
#define msecs_to_jiffies(m) ((unsigned long)(m) * HZ / 1000)

static inline u64 div64_u64(u64 a, u64 b) { return a / b; }
static inline u64 div64_u64_rem(u64 a, u64 b, u64 *r) { *r = a % b; return a / b; }

/* --- ioctl numbers --- */
#define _IOC(d, t, n, s) (((unsigned)(d) << 30) | ((unsigned)(t) << 8) | (n) | ((unsigned)(s) << 16))
#define _IO(t, n) _IOC(0, t, n, 0)
#define _IOR(t, n, x) _IOC(2, t, n, sizeof(x))
#define _IOW(t, n, x) _IOC(1, t, n, sizeof(x))
#define _IOWR(t, n, x) _IOC(3, t, n, sizeof(x))
#define _IOC_SIZE(c) (((c) >> 16) & 0x3fff)
#define _IOC_NR(c) ((c) & 0xff)
#define _IOC_TYPE(c) (((c) >> 8) & 0xff)

/* --- module --- */
struct module;
#define THIS_MODULE ((struct module *)0)
#define KBUILD_MODNAME "jitter_rng"
#define S_IRUSR 0400
#define S_IWUSR 0200
#define S_IRGRP 0040
#define S_IROTH 0004
void kenv_param(const char *name, void *p, size_t n);
#define module_param(n, t, p) \
	static void __attribute__((constructor)) kparam_##n(void) { kenv_param(#n, &n, sizeof(n)); }
#define module_param_named(n, v, t, p) \
	static void __attribute__((constructor)) kparam_##n(void) { kenv_param(#n, &v, sizeof(v)); }
#define MODULE_PARM_DESC(n, d) struct kstub_nothing_##n
#define MODULE_LICENSE(x) struct kstub_nothing
#define MODULE_AUTHOR(x) struct kstub_nothing
#define MODULE_DESCRIPTION(x) struct kstub_nothing
#define MODULE_ALIAS(x) struct kstub_nothing
#define MODULE_ALIAS_CRYPTO(x) struct kstub_nothing
#define MODULE_VERSION(x) struct kstub_nothing
int kmod_init(void);
void kmod_exit(void);
#define module_init(f) int kmod_init(void) { return f(); }
#define module_exit(f) void kmod_exit(void) { f(); }

/* --- log, panic, FIPS --- */
extern int fips_enabled;
void kenv_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void panic(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#define printk(...) kenv_log(__VA_ARGS__)
#define pr_err(...) kenv_log(__VA_ARGS__)
#define pr_warn(...) kenv_log(__VA_ARGS__)
#define pr_notice(...) kenv_log(__VA_ARGS__)
#define pr_info(...) kenv_log(__VA_ARGS__)
#define pr_debug(...) kenv_log(__VA_ARGS__)
#define pr_err_ratelimited(...) kenv_log(__VA_ARGS__)
#define pr_warn_ratelimited(...) kenv_log(__VA_ARGS__)
#define pr_info_ratelimited(...) kenv_log(__VA_ARGS__)
#define pr_err_once(...) kenv_log(__VA_ARGS__)
#define pr_warn_once(...) kenv_log(__VA_ARGS__)
#define pr_notice_ratelimited(...) kenv_log(__VA_ARGS__)
#define pr_notice_once(...) kenv_log(__VA_ARGS__)
#define pr_info_once(...) kenv_log(__VA_ARGS__)
#define pr_crit(...) kenv_log(__VA_ARGS__)
#define pr_alert(...) kenv_log(__VA_ARGS__)
#define pr_emerg(...) kenv_log(__VA_ARGS__)
#define WARN(c, ...) (!!(c))
#define WARN_ONCE(c, ...) (!!(c))
#define WARN_ON(c) (!!(c))
#define WARN_ON_ONCE(c) (!!(c))
struct ratelimit_state { int x; };
#define DEFAULT_RATELIMIT_INTERVAL 5
#define DEFAULT_RATELIMIT_BURST 10
#define DEFINE_RATELIMIT_STATE(n, i, b) struct ratelimit_state n = { 0 }
int __ratelimit(struct ratelimit_state *rs);

/* --- memory --- */
#define GFP_KERNEL 0u
#define __GFP_ZERO 1u
void *kvmalloc(size_t n, gfp_t f);
void *kvzalloc(size_t n, gfp_t f);
void *kmalloc(size_t n, gfp_t f);
void *kzalloc(size_t n, gfp_t f);
static inline void *kvcalloc(size_t a, size_t b, gfp_t f) { return kvzalloc(a * b, f); }
static inline void *kcalloc(size_t a, size_t b, gfp_t f) { return kzalloc(a * b, f); }
static inline void *kvmalloc_array(size_t a, size_t b, gfp_t f) { return kvmalloc(a * b, f); }
static inline void *kmalloc_array(size_t a, size_t b, gfp_t f) { return kmalloc(a * b, f); }
void kvfree(const void *p);
void kfree(const void *p);
void kvfree_sensitive(const void *p, size_t n);
void kfree_sensitive(const void *p);
static inline void *kmemdup(const void *p, size_t n, gfp_t f) { void *r = kmalloc(n, f); if (r) memcpy(r, p, n); return r; }
static inline char *kstrdup(const char *p, gfp_t f) { return (char *)kmemdup(p, strlen(p) + 1, f); }
#define kzfree kfree_sensitive
static inline void memzero_explicit(void *p, size_t n) { memset(p, 0, n); __asm__ volatile("" : : "r"(p) : "memory"); }

/* --- locks and atomics --- */
struct mutex { int init, held, owner; };
void kenv_mutex_init(struct mutex *m);
#define mutex_init(m) kenv_mutex_init(m)
#define DEFINE_MUTEX(n) struct mutex n = { 1, 0, -1 }
void mutex_destroy(struct mutex *m);
void mutex_lock(struct mutex *m);
int mutex_lock_interruptible(struct mutex *m);
int mutex_lock_killable(struct mutex *m);
int mutex_trylock(struct mutex *m);
void mutex_unlock(struct mutex *m);
bool mutex_is_locked(struct mutex *m);
#define lockdep_assert_held(m) do { } while (0)

typedef struct { int v; } atomic_t;
typedef struct { s64 v; } atomic64_t;
#define ATOMIC_INIT(x) { x }
#define ATOMIC64_INIT(x) { x }
#define KATOMIC(p, T) \
static inline T p##_read(const p##_t *a) { return __atomic_load_n(&a->v, 5); } \
static inline void p##_set(p##_t *a, T v) { __atomic_store_n(&a->v, v, 5); } \
static inline void p##_inc(p##_t *a) { __atomic_fetch_add(&a->v, 1, 5); } \
static inline void p##_dec(p##_t *a) { __atomic_fetch_sub(&a->v, 1, 5); } \
static inline void p##_add(T i, p##_t *a) { __atomic_fetch_add(&a->v, i, 5); } \
static inline void p##_sub(T i, p##_t *a) { __atomic_fetch_sub(&a->v, i, 5); } \
static inline T p##_inc_return(p##_t *a) { return __atomic_fetch_add(&a->v, 1, 5) + 1; } \
static inline T p##_dec_return(p##_t *a) { return __atomic_fetch_sub(&a->v, 1, 5) - 1; }
#define KATOMIC2(p, T) \
static inline T p##_add_return(T i, p##_t *a) { return __atomic_fetch_add(&a->v, i, 5) + i; } \
static inline T p##_sub_return(T i, p##_t *a) { return __atomic_fetch_sub(&a->v, i, 5) - i; } \
static inline T p##_fetch_add(T i, p##_t *a) { return __atomic_fetch_add(&a->v, i, 5); } \
static inline T p##_fetch_inc(p##_t *a) { return __atomic_fetch_add(&a->v, 1, 5); } \
static inline T p##_xchg(p##_t *a, T v) { return __atomic_exchange_n(&a->v, v, 5); } \
static inline T p##_cmpxchg(p##_t *a, T o, T v) { __atomic_compare_exchange_n(&a->v, &o, v, 0, 5, 5); return o; }
KATOMIC(atomic, int)
KATOMIC2(atomic, int)
KATOMIC2(atomic64, s64)
KATOMIC(atomic64, s64)
static inline bool atomic_dec_and_test(atomic_t *a) { return atomic_dec_return(a) == 0; }

/* --- work queues --- */
struct work_struct;
typedef void (*work_func_t)(struct work_struct *);
struct work_struct { work_func_t func; };
struct delayed_work { struct work_struct work; int init; };
struct workqueue_struct;
extern struct workqueue_struct *system_power_efficient_wq, *system_wq, *system_long_wq, *system_unbound_wq;
void kenv_init_work(struct delayed_work *w, work_func_t f);
#define INIT_DELAYED_WORK(w, f) kenv_init_work(w, f)
#define INIT_DEFERRABLE_WORK(w, f) kenv_init_work(w, f)
bool queue_delayed_work(struct workqueue_struct *q, struct delayed_work *w, unsigned long delay);
static inline bool schedule_delayed_work(struct delayed_work *w, unsigned long d) { return queue_delayed_work(system_wq, w, d); }
bool mod_delayed_work(struct workqueue_struct *q, struct delayed_work *w, unsigned long delay);
bool cancel_delayed_work(struct delayed_work *w);
bool cancel_delayed_work_sync(struct delayed_work *w);
static inline struct delayed_work *to_delayed_work(struct work_struct *w) { return container_of(w, struct delayed_work, work); }

/* --- scheduling --- */
#define current ((void *)0)
int signal_pending(void *t);
#define fatal_signal_pending(t) signal_pending(t)
bool need_resched(void);
int cond_resched(void);
void schedule(void);
unsigned long long ktime_get_ns(void);
unsigned long long ktime_get_raw_ns(void);
#define CAP_SYS_ADMIN 21
bool capable(int cap);
#define LOCKDOWN_DEBUGFS 12
int security_locked_down(int what);

/* --- user memory --- */
unsigned long copy_to_user(void *to, const void *from, unsigned long n);
unsigned long copy_from_user(void *to, const void *from, unsigned long n);
#define u64_to_user_ptr(x) ((void *)(uintptr_t)(x))
#define put_user(v, p) ({ __typeof__(*(p)) _v = (v); copy_to_user(p, &_v, sizeof(_v)) ? -EFAULT : 0; })
#define get_user(v, p) ({ __typeof__(*(p)) _v; int _r = copy_from_user(&_v, p, sizeof(_v)) ? -EFAULT : 0; if (!_r) (v) = _v; _r; })

/* --- files --- */
#ifndef O_NONBLOCK
#define O_NONBLOCK 04000
#endif
struct inode { int x; };
struct file { void *private_data; unsigned int f_flags; loff_t f_pos; };
struct file_operations {
	struct module *owner;
	int (*open)(struct inode *, struct file *);
	int (*release)(struct inode *, struct file *);
	ssize_t (*read)(struct file *, char *, size_t, loff_t *);
	ssize_t (*write)(struct file *, const char *, size_t, loff_t *);
	long (*unlocked_ioctl)(struct file *, unsigned int, unsigned long);
	long (*compat_ioctl)(struct file *, unsigned int, unsigned long);
	loff_t (*llseek)(struct file *, loff_t, int);
};
long compat_ptr_ioctl(struct file *f, unsigned int c, unsigned long a);
loff_t no_llseek(struct file *, loff_t, int);
loff_t noop_llseek(struct file *, loff_t, int);

loff_t noop_llseek(struct file *, loff_t, int);
static inline int nonseekable_open(struct inode *i, struct file *f) { (void)i; (void)f; return 0; }
static inline int stream_open(struct inode *i, struct file *f) { (void)i; (void)f; return 0; }
#define MISC_DYNAMIC_MINOR 255
struct miscdevice { int minor; const char *name; const struct file_operations *fops; umode_t mode; };
int misc_register(struct miscdevice *m);
void misc_deregister(struct miscdevice *m);

struct dentry;
struct dentry *debugfs_create_dir(const char *n, struct dentry *parent);
struct dentry *debugfs_create_file(const char *n, umode_t m, struct dentry *parent, void *data, const struct file_operations *f);
struct dentry *debugfs_create_file_unsafe(const char *n, umode_t m, struct dentry *parent, void *data, const struct file_operations *f);
void debugfs_remove_recursive(struct dentry *d);
void debugfs_remove(struct dentry *d);

struct seq_file { void *private; char *buf; size_t count, size; };
void seq_puts(struct seq_file *m, const char *s);
void seq_putc(struct seq_file *m, char c);
void seq_printf(struct seq_file *m, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
int seq_write(struct seq_file *m, const void *p, size_t n);

struct proc_dir_entry;
typedef int (*kproc_show)(struct seq_file *, void *);
struct proc_dir_entry *proc_mkdir(const char *n, struct proc_dir_entry *parent);
struct proc_dir_entry *proc_create_single_data(const char *n, umode_t m, struct proc_dir_entry *parent, kproc_show show, void *data);
#define proc_create_single(n, m, p, s) proc_create_single_data(n, m, p, s, NULL)
void proc_remove(struct proc_dir_entry *e);
void remove_proc_entry(const char *n, struct proc_dir_entry *parent);
int remove_proc_subtree(const char *n, struct proc_dir_entry *parent);

/* --- hw_random --- */
struct hwrng {
	const char *name;
	int (*init)(struct hwrng *);
	void (*cleanup)(struct hwrng *);
	int (*read)(struct hwrng *, void *, size_t, bool);
	unsigned long priv;
	unsigned short quality;
};
int hwrng_register(struct hwrng *r);
void hwrng_unregister(struct hwrng *r);

/* --- crypto --- */
struct crypto_tfm { void *ctx; };
struct crypto_rng { struct crypto_tfm base; };
struct crypto_alg {
	char cra_name[128], cra_driver_name[128];
	int cra_priority;
	unsigned int cra_ctxsize, cra_flags;
	struct module *cra_module;
	int (*cra_init)(struct crypto_tfm *);
	void (*cra_exit)(struct crypto_tfm *);
};
struct rng_alg {
	int (*generate)(struct crypto_rng *, const u8 *, unsigned int, u8 *, unsigned int);
	int (*seed)(struct crypto_rng *, const u8 *, unsigned int);
	void (*set_ent)(struct crypto_rng *, const u8 *, unsigned int);
	unsigned int seedsize;
	struct crypto_alg base;
};
int crypto_register_rng(struct rng_alg *a);
void crypto_unregister_rng(struct rng_alg *a);
static inline void *crypto_tfm_ctx(struct crypto_tfm *t) { return t->ctx; }
static inline void *crypto_rng_ctx(struct crypto_rng *t) { return t->base.ctx; }
static inline struct crypto_tfm *crypto_rng_tfm(struct crypto_rng *t) { return &t->base; }
/* --- processors (cache discovery) --- */
struct kcpuinfo { int cpuid_level; u32 extended_cpuid_level; u8 x86_vendor, x86, x86_model; };
extern struct kcpuinfo boot_cpu_data;
#define X86_VENDOR_INTEL 0
#define X86_VENDOR_AMD 2
#define X86_VENDOR_HYGON 9
void cpuid_count(unsigned int op, int count, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d);
static inline void cpuid(unsigned int op, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d) { cpuid_count(op, 0, a, b, c, d); }
static inline u32 cpuid_eax(unsigned int op) { unsigned int a, b, c, d; cpuid_count(op, 0, &a, &b, &c, &d); return a; }
void cpus_read_lock(void);
void cpus_read_unlock(void);
int knext_online_cpu(int cpu);
int num_online_cpus_(void);
#define nr_cpu_ids 64
#define for_each_online_cpu(cpu) for ((cpu) = knext_online_cpu(-1); (cpu) < nr_cpu_ids; (cpu) = knext_online_cpu(cpu))
bool cpu_online(int cpu);
#define cpumask_next(c, m) knext_online_cpu(c)
#define cpumask_first(m) knext_online_cpu(-1)
#define num_online_cpus() num_online_cpus_()
#define for_each_possible_cpu(cpu) for ((cpu) = 0; (cpu) < nr_cpu_ids; (cpu)++)
int smp_call_function_single(int cpu, void (*fn)(void *), void *info, int wait);
u64 kread_sysreg(const char *n);
void kwrite_sysreg(u64 v, const char *n);
#define read_sysreg(r) kread_sysreg(#r)
#define read_sysreg_s(r) kread_sysreg(#r)
#define write_sysreg(v, r) kwrite_sysreg(v, #r)
void kisb(void);
#define isb() kisb()
#define get_cpu() 0
#define put_cpu() do { } while (0)

#endif
