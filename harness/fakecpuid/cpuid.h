int __get_cpuid_count(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d);
unsigned int __get_cpuid_max(unsigned int ext, unsigned int *sig);
