/* compiled before everything else: a C library that is not glibc */
#include <features.h>
#undef __GLIBC__
