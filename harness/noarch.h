/* compiled before everything else: a processor without a known counter */
#ifdef LINUX_KERNEL
#include "kstub.h"
#undef random_get_entropy
unsigned long long verif_random_get_entropy(void);
#define random_get_entropy verif_random_get_entropy
#else
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#endif
#undef __x86_64__
#undef __i386__
