"""Registry: library variants, harnesses and bounds per property."""
import os

# The library refuses to be compiled with __OPTIMIZE__ set (its timing noise
# depends on it); the checks judge its logic, so they optimize for speed and
# undefine the macro.
LIB_CFLAGS = ["-std=gnu11", "-g", "-O2", "-U__OPTIMIZE__", "-U_FORTIFY_SOURCE", "-fwrapv", "-w",
              "-fno-strict-aliasing"]

_mock = ["-DJENT_CONF_ENABLE_MOCK_TIMER", "-DJENT_CONF_ENABLE_INTERNAL_TIMER"]

VARIANTS = {
    # controlled clock, internal timer compiled in, one memory access per loop
    "mock": dict(cflags=_mock + ["-DJENT_MEM_ACC_LOOP_DEFAULT=1"],
                 defs=_mock + ["-DJENT_MEM_ACC_LOOP_DEFAULT=1"]),
    "mockasan": dict(cflags=_mock + ["-DJENT_MEM_ACC_LOOP_DEFAULT=1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
                     defs=_mock + ["-DJENT_MEM_ACC_LOOP_DEFAULT=1"],
                     hcflags=["-fsanitize=address"], ldflags=["-fsanitize=address,undefined"]),
}

# the internal timer not compiled in
VARIANTS["notimer"] = dict(cflags=[_mock[0], "-DJENT_MEM_ACC_LOOP_DEFAULT=1"], defs=[_mock[0], "-DJENT_MEM_ACC_LOOP_DEFAULT=1"])

VARIANTS["mock0"] = dict(cflags=VARIANTS["mock"]["cflags"] + ["-O0"], defs=VARIANTS["mock"]["defs"])

VARIANTS["sched"] = dict(cc="clang", cflags=VARIANTS["mock"]["cflags"] + ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1"],
                         defs=VARIANTS["mock"]["defs"])

# the library as configured by default, every memory access visible
VARIANTS["trace"] = dict(cc="clang", cflags=_mock + ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1"], defs=_mock)

_kcfg = ["-DCONFIG_EXTERNAL_JITTERENTROPY_" + x for x in ("TESTINTERFACE=1", "KCAPI=1", "CHARDEV=1", "HWRNG=1")]
_kflags = ["-DLINUX_KERNEL", "-DCONFIG_DEBUG_FS=1", "-DCONFIG_64BIT=1"]
# the kernel module against a stand-in for the kernel
VARIANTS["kmod"] = dict(kernel=True, inc=["linux_kernel", "", "src"], cflags=_kflags + _kcfg + ["-DCONFIG_PROC_FS=1"],
                        defs=_kflags + _kcfg + ["-DCONFIG_PROC_FS=1"])
def _kvariant(ifs, proc=True):
    d = _kflags + ["-DCONFIG_EXTERNAL_JITTERENTROPY_%s=1" % i for i in ifs] + (["-DCONFIG_PROC_FS=1"] if proc else [])
    files = {"TESTINTERFACE": "testing", "KCAPI": "kcapi", "CHARDEV": "chardev", "HWRNG": "hwrng"}
    return dict(kernel=True, inc=["linux_kernel", "", "src"], cflags=d, defs=d + ([] if proc else ["-DKHAVE_PROC=0"]),
                without=["jitterentropy_%s.c" % f for i, f in files.items() if i not in ifs])
VARIANTS["kmodnoproc"] = _kvariant(["TESTINTERFACE", "KCAPI", "CHARDEV", "HWRNG"], False)
VARIANTS["kmodchar"] = _kvariant(["CHARDEV"])
VARIANTS["kmodhw"] = _kvariant(["HWRNG", "TESTINTERFACE"])
VARIANTS["kmodkcapi"] = _kvariant(["KCAPI"])
VARIANTS["kmodsched"] = dict(VARIANTS["kmod"], cc="clang", cflags=VARIANTS["kmod"]["cflags"] + ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1"],
                             defs=VARIANTS["kmod"]["defs"] + ["-DKENV_SCHED"])

_hw = ["arch/jitterentropy-arch-cache.c", "arch/jitterentropy-arch-atomic.c"]
VARIANTS["hwx86"] = dict(kernel=True, sources=_hw, cflags=_kflags + ["-DCONFIG_X86=1"], defs=_kflags + ["-DCONFIG_X86=1"])
VARIANTS["hwarm64"] = dict(kernel=True, sources=_hw, cflags=_kflags + ["-DCONFIG_ARM64=1"], defs=_kflags + ["-DCONFIG_ARM64=1"])
VARIANTS["hwcpuid"] = dict(sources=_hw, cflags=["-DJENT_BAREMETAL", "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/fakecpuid")], defs=["-DJENT_BAREMETAL"])

_here = os.path.dirname(os.path.abspath(__file__))
_fc = "-I" + os.path.join(_here, "harness/fakecrypto")
for _n, _d in (("gcrypt", "LIBGCRYPT"), ("openssl", "OPENSSL"), ("awslc", "AWSLC"), ("bare", "JENT_BAREMETAL")):
    VARIANTS["mem" + _n] = dict(cflags=["-D" + _d, "-DJENT_MEM_ACC_LOOP_DEFAULT=1", _fc], defs=["-D" + _d, "-DJENT_MEM_ACC_LOOP_DEFAULT=1", _fc])
VARIANTS["memkernel"] = dict(kernel=True, sources="core", cflags=_kflags + ["-DJENT_MEM_ACC_LOOP_DEFAULT=1"], defs=_kflags + ["-DJENT_MEM_ACC_LOOP_DEFAULT=1"])

# operating system services of other builds
VARIANTS["musl"] = dict(cflags=["-D_GNU_SOURCE", "-include", os.path.join(_here, "harness/noglibc.h")], defs=[])
VARIANTS["clock"] = dict(cflags=["-D_GNU_SOURCE", "-include", os.path.join(_here, "harness/noarch.h")], defs=[])
VARIANTS["kclock"] = dict(kernel=True, sources=["arch/jitterentropy-arch-timer.c"], cflags=_kflags + ["-include", os.path.join(_here, "harness/noarch.h")], defs=_kflags)
VARIANTS["device"] = dict(cflags=VARIANTS["mock"]["cflags"] + ["-D__ANDROID__", "-D__ANDROID_API__=21"], defs=VARIANTS["mock"]["defs"])
for _n, _d in (("gcrypt", "LIBGCRYPT"), ("openssl", "OPENSSL"), ("awslc", "AWSLC"), ("bare", "JENT_BAREMETAL")):
    VARIANTS["fips" + _n] = dict(sources=["arch/jitterentropy-arch-fips.c"], cflags=["-D" + _d, _fc], defs=[])
VARIANTS["fipskernel"] = dict(kernel=True, sources=["arch/jitterentropy-arch-fips.c"], cflags=_kflags, defs=_kflags)

CHECKS = {
 "P01": dict(
    technique="explicit-state lockstep exploration of the real health tests against a reference model",
    bounds="complete (position,count) graphs of the proportion window for all 40 rate/profile pairs; repetition counts and prediction runs up to the permanent cutoffs; block windows at all rates; pairs of predictor windows of different periods with repetitions, ramps and runs across the seam; all sequences over 5 four-letter alphabets to depth 7 (9 thorough) with scaled cutoffs from 5 start states; window totals within 2 of each global cutoff; recovery with 6 inner behaviours; instances allocated through the API at rates 0..20 in 3 modes, with 8 kinds of bad deltas from 5 points of both startup stages and of generation, every sample compared and reads continued up to the permanent failure",
    assumptions=["deltas outside the alphabets behave like the representatives (the tests only compare for equality and to zero)"],
    harnesses=[dict(name="p01", src=["harness/p01_health.c"], variant="mock", wrap=["jent_random_data"],
                    what="stuck, RCT, APT, lag, RCT-mem vs reference",
                    quick=dict(mem_osr=20, depth=7, sdepth=6, timeout=40), thorough=dict(mem_osr=20, depth=9, sdepth=8, timeout=600)),
               dict(name="p01live", src=["harness/p01_live.c"], variant="mock",
                    wrap=["jent_stuck", "jent_random_data", "jent_sha3_update", "jent_sha3_final", "jent_sha3_256_init", "jent_fips_enabled"],
                    what="instances obtained through the API, all stages", quick=dict(timeout=40))]),
 "P06": dict(
    technique="exhaustive enumeration of message lengths, splits and DRBG operation histories on the real code against a reference, plus exhaustive single-bit fault injection into the self test",
    bounds="SHA3-256/SHAKE256: all lengths to 410 (640 thorough) with every two-way split, all lengths to 280 (410) with every three-way split, 4 contents; SHAKE output 0..136; all single bits and close bit pairs of a 200-byte message; sizes around 2^16, 2^20, 2^32; XDRBG: all histories of 4 (5) operations from 19; self test: every bit of round constants and expected results",
    assumptions=["message contents beyond the enumerated patterns behave alike: the sponge has no data-dependent control flow"],
    harnesses=[dict(name="p06", src=["harness/p06_sha3.c"], variant="mock", what="SHA3/SHAKE/XDRBG vs reference",
                    quick=dict(two=410, three=280, drbg_depth=4, timeout=100), thorough=dict(two=640, three=410, drbg_depth=5, timeout=900)),
               dict(name="p06kat", src=["harness/p06_kat.c"], variant="mock0", what="known answer test fault injection", quick=dict(timeout=60))]),
 "P04": dict(
    technique="exhaustive exploration of stuck-measurement patterns on the real collection loop with a monitor on every absorbed measurement",
    bounds="5 modes x rates 1..20 x 9 stuck patterns x 6 request sequences; at rate 3 additionally every placement of one (thorough: two, sampled none) further stuck measurement of 3 kinds at every measurement of allocation and reads",
    assumptions=["the hash is stubbed out: its result does not influence control flow"],
    harnesses=[dict(name="p04", src=["harness/p04_blocks.c"], variant="mock",
                    wrap=["jent_stuck", "jent_random_data", "jent_sha3_update", "jent_sha3_final", "jent_sha3_256_init", "jent_drbg_generate_block", "jent_fips_enabled"],
                    what="good measurements per block", quick=dict(bound=1, timeout=60, patterns=1), thorough=dict(bound=1, patterns=5, budget=1500))]),
 "P05": dict(
    technique="exhaustive replay of enumerated clock behaviours through the real generator and a bit-exact reference generator",
    bounds="4 modes x 4 delta patterns (stuck kinds, wide, backwards, memory-test recovery) x 3 clock resolutions x 4 hash loop counts x 3 rates x 1-2 instances x both read calls; plus every request length 0..66 and 200 in one history, all hash loop counts, rates 3 and 20, and recoveries from 4 kinds of failures at 12 onsets followed by further reads; plus every placement of one special delta (6 kinds, thorough: all kinds at every position) over allocation and a two-block read",
    assumptions=["the memory source reads 16 time stamps to pick addresses, as documented"],
    harnesses=[dict(name="p05", src=["harness/p05_ref.c"], variant="mock", wrap=["jent_stuck", "jent_fips_enabled", "jent_sha3_tester", "jent_zalloc"],
                    what="output vs reference generator", quick=dict(bound=1, timeout=60), thorough=dict(place_patterns=3, budget=2400))]),
 "P02": dict(
    technique="exhaustive enumeration of failure combinations, block positions and request lengths on the real read path, and of fault onsets on the real collection loop against the reference health model",
    bounds="all 256 failure combinations x blocks 0..4 x lengths 0..163 x FIPS/NTG.1, each followed by every (or every 17th) further combination; NULL/zero-length arguments; 21 (thorough: 24) long lengths up to 2^32+70 with each failure in the first, second, middle, last but one and last block; 70000 reads in a row before and after a failure; 8 clock faults starting at every second (thorough: every) measurement of four blocks followed by six reads; all of it for builds with and without the internal timer",
    assumptions=["block generation itself is stubbed in this harness (P05 covers it)"],
    harnesses=[dict(name=n, src=["harness/p02_read.c"], variant=v,
                    wrap=["jent_stuck", "jent_random_data", "jent_sha3_update", "jent_sha3_final", "jent_sha3_256_init", "jent_drbg_generate_block", "jent_fips_enabled"],
                    what=w, quick=dict(step=2, timeout=60), thorough=dict(step=1, all=1, budget=1500))
               for n, v, w in [("p02", "mock", "read results under failures"), ("p02notimer", "notimer", "the same without the internal timer compiled in")]]),
 "P03": dict(
    technique="deviation-bounded exhaustive exploration of health, initialization and allocation verdicts on the real recovery code, each event trace replayed on a model of the recovery ladder",
    bounds="5 default behaviours (all well, startup fails, reads fail, both, initialization fails) x FIPS/NTG.1 x initial rates 3,17,19,20 x 4 memory and 3 hash loop settings x 1-2 calls x 3 lengths x 9 first failures; one verdict (two on a reduced grid; thorough two and three) deviating from the default; continuation of the health tests probed with repeated and periodic deltas and at the end of the proportion window",
    assumptions=["measurements are stubbed; verdicts are injected where the real tests deliver them"],
    harnesses=[dict(name=n, src=["harness/p03_ladder.c"], variant="mock",
                    wrap=["jent_zalloc", "jent_zfree", "jent_sha3_tester", "jent_measure_jitter", "jent_gcd_analyze", "jent_cache_size_roundup",
                          "jent_fips_enabled", "jent_os_random_bytes", "jent_random_data", "jent_drbg_generate_block"],
                    what=w, quick=q, thorough=t)
               for n, w, q, t in [("p03", "recovery ladder, one deviation everywhere", dict(bound=1, timeout=30), dict(bound=2, budget=2000)),
                                  ("p03deep", "recovery ladder, several deviations", dict(bound=2, deep=1, timeout=30), dict(bound=3, budget=1500))]]),
 "P09": dict(
    technique="exhaustive enumeration of configurations and prior calls on the real allocation and initialization code against an acceptance model",
    bounds="all 256 combinations of the 8 flag bits x system FIPS x 11 rates (0..22 and wrap-around values) x 14 prior calls x usable or unusable platform clock, each as allocation and as initialization; all pairs of prior calls at rate 3; all 32 memory fields x 8 hash loop settings x 10 cache sizes for every flag combination after 3 prior calls; all of it for builds with and without the internal timer",
    assumptions=["measurements, memory and threads succeed (P08, P10, P13 cover their failure)"],
    harnesses=[dict(name=n, src=["harness/p09_config.c"], variant=v,
                    wrap=["jent_zalloc", "jent_zfree", "jent_sha3_tester", "jent_measure_jitter", "jent_gcd_analyze", "jent_cache_size_roundup",
                          "jent_fips_enabled", "jent_os_random_bytes", "jent_random_data", "jent_ncpu", "jent_notime_settick", "jent_notime_unsettick"],
                    what=w, quick=dict(timeout=60))
               for n, v, w in [("p09", "mock", "configuration acceptance and application"), ("p09notimer", "notimer", "the same without the internal timer compiled in")]]),
 "P10": dict(
    technique="exhaustive enumeration of clock behaviours around every limit on the real power-up test against a verdict model",
    bounds="one anomaly of 9 kinds at every one of the 1125 measurements x 4 modes x 2 rates; two anomalies at 11 boundary positions; 0..8 steps backwards around the warm-up boundary; variation, divisor, stuck count and repetition/period lengths within +-2..10 of every limit; all 64 combinations of simultaneous reasons with 3 prior divisors; all of it for builds with and without the internal timer",
    assumptions=["the hash is stubbed: its result does not influence the verdict"],
    harnesses=[dict(name=n, src=["harness/p10_init.c"], variant=v,
                    wrap=["jent_stuck", "jent_sha3_update", "jent_sha3_final", "jent_sha3_tester", "jent_fips_enabled"],
                    what=w, quick=dict(timeout=60))
               for n, v, w in [("p10", "mock", "power-up test verdicts"), ("p10notimer", "notimer", "the same without the internal timer compiled in")]]),
 "P11": dict(
    technique="exhaustive enumeration of delta histories, and preemption-bounded exploration of all schedules of the real publication code under a controlled scheduler",
    bounds="all histories up to 3 deltas over 19 values and 4-5 (thorough 6) over 7 values, 12-element histories with one deviating delta, histories of 1023..1025 deltas with one special delta at 10 places or the variation within 2 of its limit from a single step at any of them, 4 rates, each followed by 3 further histories; schedules of 5 scenarios with 2-3 threads (two publishers, publishers and reader, publisher and allocation, initialization and allocation, two initializations and reader) with at most 3 (thorough 4) preemptions at every access to conflicting memory",
    assumptions=["sequentially consistent memory; scheduling points are the accesses to addresses that two threads touch and one writes, determined by profiling all schedules with one preemption"],
    harnesses=[dict(name="p11", src=["harness/p11_gcd.c"], variant="mock", what="divisor and verdict of all histories", quick=dict(timeout=60)),
               dict(name="p11sched", src=["harness/p11_sched.c"], variant="sched", what="publication under all schedules",
                    wrap=["jent_zalloc", "jent_zfree", "jent_measure_jitter", "jent_random_data", "jent_sha3_tester", "jent_fips_enabled", "jent_os_random_bytes", "sched_yield"],
                    quick=dict(bound=3, timeout=60), thorough=dict(bound=4, budget=2000))]),
 "P12": dict(
    technique="exhaustive exploration of operation histories with controlled self-test verdicts on the real code against a model, and preemption-bounded exploration of all schedules of a failing self test against reads and status queries",
    bounds="3 modes x first initialization passing or failing x all histories of 5 (thorough 6) operations from 17 (verdict toggles, bound and unbound self tests, initializations, allocations, plain and self-healing reads with the verdict or a health failure falling at either block or during the recovery), closed by reads of both instances; 8 faults in each remainder operation of the divisor self test; schedules with at most 2 (thorough 4) preemptions of a failing self test against each of 4 activities on the instance, and of a failing initialization against another one or an allocation",
    assumptions=["measurements are stubbed in the history harness", "sequentially consistent memory in the schedule harness"],
    harnesses=[dict(name="p12", src=["harness/p12_selftest.c"], variant="mock",
                    wrap=["jent_zalloc", "jent_zfree", "jent_sha3_tester", "jent_gcd_selftest", "jent_measure_jitter", "jent_gcd_analyze", "jent_cache_size_roundup",
                          "jent_fips_enabled", "jent_os_random_bytes", "jent_random_data", "jent_drbg_generate_block"],
                    what="self-test verdict histories", quick=dict(depth=4, timeout=60), thorough=dict(depth=5)),
               dict(name="p12gcd", src=["harness/p12_gcd.c"], variant="mock", what="self test of the divisor analysis under faults", quick=dict(timeout=20)),
              ] + [
               dict(name=n, src=["harness/p12_sched.c"], variant="sched", what="failing self test against reads and status",
                    wrap=["jent_zalloc", "jent_zfree", "jent_stuck", "jent_sha3_tester", "jent_fips_enabled", "sched_yield"],
                    quick=q, thorough=t) for n, q, t in [("p12sched1", dict(bound=1, timeout=60, budget=120), dict()), ("p12sched", dict(bound=4, timeout=60, budget=120), dict(bound=6, budget=1500))]]),
 "P17": dict(
    technique="exhaustive enumeration of described topologies and file outcomes on the real discovery against an oracle, and preemption-bounded exploration of all schedules of concurrent first questions",
    bounds="every combination of 8 types, 11 levels and 29 size texts; all sequences of 3 (thorough 4) caches from 13; 3 CPUs of 6 kinds x 8 CPU counts; all fallback values; sizes within 1 of every power of two up to 2^35 with 6x6 others; up to 2 failing or interrupted opens or reads; index 0..15, CPU numbers to 3000; 3 scenarios of 2-3 threads with at most 4 preemptions (thorough 6); kernel builds (CPUID, arm64 registers) and bare CPUID build: all lists of up to 4 (thorough 5) caches from 9, all geometries over boundary values of every field, 4 CPUs of 5 kinds each online, offline or unreachable, sums within one line of every power of two",
    assumptions=["an attribute file is read whole by the first read, as sysfs delivers it", "sequentially consistent memory in the schedule harness"],
    harnesses=[dict(name="p17", src=["harness/p17_cache.c"], variant="mock", wrap=["open", "read", "close", "sysconf"],
                    what="derived size of all topologies", quick=dict(bound=2, timeout=60), thorough=dict(bound=3)),
               dict(name="p17sched", src=["harness/p17_sched.c"], variant="sched", wrap=["open", "read", "close", "sysconf", "sched_yield"],
                    what="concurrent first questions", quick=dict(bound=4, timeout=60, budget=120), thorough=dict(bound=6, budget=1500))] + [
               dict(name=n, src=["harness/p17_hw.c"], variant=v, cflags=["-DHW=%d" % k], what=w, quick=dict(timeout=60), thorough=dict(caches=5))
               for n, v, k, w in [("p17x86", "hwx86", 1, "kernel build, CPUID"), ("p17arm64", "hwarm64", 2, "kernel build, arm64 cache registers"), ("p17cpuid", "hwcpuid", 3, "CPUID without an operating system")]]),
 "P16": dict(
    technique="deviation-bounded exhaustive exploration of the operating system's answers to the real code",
    bounds="random source: 7 lengths x getrandom available or not x every sequence of answers (full, one byte, all but one, interrupted, 4 errors, end of file, failing open) with at most 7 (thorough 9) abnormal ones; flag file: 15 contents x open and read outcomes; both also with descriptor 0 free; CPU mask: 8 kernel mask sizes x 4 errors x 6 populations, dense or with gaps, x 4 places x 5 fallback counts; binding to each of 8200 CPUs and 10 far ones x 5 answers x memory or none; builds for another C library (all lists of up to 3 ranges over 13 numbers, 150 list lengths, 17 malformed lists, every open and read outcome), without the random system call, over the system or kernel clock (boundary values of every field), over 3 crypto libraries, the kernel and no system",
    assumptions=["getrandom does not return 0 for a non-empty request (the kernel never does)"],
    harnesses=[dict(name="p16", src=["harness/p16_os.c"], variant="mock", wrap=["open", "read", "close", "sysconf", "getrandom", "sched_getaffinity"],
                    what="answers of the operating system", quick=dict(bound=7, timeout=60), thorough=dict(bound=9)),
               dict(name="p16device", src=["harness/p16_os.c"], variant="device", cflags=["-DONLY_DEVICE"], wrap=["open", "read", "close", "sysconf", "getrandom", "sched_getaffinity"],
                    what="the same without the random system call", quick=dict(bound=7, timeout=60), thorough=dict(bound=9)),
               dict(name="p16pin", src=["harness/p16_pin.c"], variant="mock", wrap=["sched_setaffinity", "pthread_setaffinity_np", "__sched_cpualloc", "__sched_cpufree"],
                    what="binding to a CPU", quick=dict(timeout=60)),
               dict(name="p16list", src=["harness/p16_list.c"], variant="musl", wrap=["open", "read", "close", "sysconf", "sched_getaffinity"],
                    what="list of CPUs of another C library", quick=dict(bound=2, timeout=60), thorough=dict(bound=3)),
               dict(name="p16clock", src=["harness/p16_time.c"], variant="clock", wrap=["clock_gettime"], what="time stamps from the system clock", quick=dict(timeout=60)),
               dict(name="p16kclock", src=["harness/p16_time.c"], variant="kclock", cflags=["-DKERNEL_CLOCK"], what="time stamps from the kernel clock", quick=dict(timeout=60))] + [
               dict(name="p16fips" + n, src=["harness/p16_lib.c"], variant="fips" + n, cflags=["-DBK=%d" % b], what="FIPS state of " + w, quick=dict(timeout=60))
               for n, b, w in [("gcrypt", 1, "libgcrypt"), ("openssl", 2, "OpenSSL"), ("awslc", 3, "AWS-LC"), ("bare", 4, "no system"), ("kernel", 5, "the kernel")]]),
 "P15": dict(
    technique="exhaustive enumeration of instance states and buffer lengths on the real report functions, each report parsed strictly and compared with the instance",
    bounds="all 128 flag combinations x all 256 values of the size and loop fields; all 256 failure masks x modes; 12x12x7 counter values; rates 0..20, CPU counts, cache sizes; 6 reports (longest, shortest, without instance) in every buffer length from 0 to 20 beyond the full text, flush with an inaccessible page; UUID call with every length 0..45; UUIDs from all values of every single random byte over two backgrounds and from a failing source",
    assumptions=["an exactly fitting buffer may be answered either way (the unit tests leave it open)"],
    harnesses=[dict(name="p15", src=["harness/p15_status.c"], variant="mock", wrap=["jent_ncpu", "jent_cache_size_roundup", "jent_os_random_bytes"],
                    what="status and UUID reports", quick=dict(timeout=60))]),
 **{pid: dict(
    technique="exhaustive fault injection: every refusal of an operating system service along initialization, allocation, reads, recovery and release of the real code, in all pairs",
    bounds="11 modes x 8 scenarios (initialization, allocation with and without prior initialization, allocation with an alarm during startup, recovery, all sequences of 3 reads of 7 lengths with both calls, legacy initialization, allocation and release with every memory size from 1 kB to 512 MB, refusals up to 8 MB) x every single refusal and every pair of refusals of mmap, mprotect, mlock (4 error codes), pthread_attr_init, pthread_create; the same for builds over libgcrypt, OpenSSL, AWS-LC, plain allocation and the kernel allocator (stand-ins that refuse or hand out ordinary memory): 6 modes x 5 scenarios x pool or none x one (thorough two) refusals, 11 block lengths",
    assumptions=["the counting thread and the memory lock are stand-ins that record; mappings are real and inaccessible after release"],
    harnesses=[dict(name=pid.lower(), src=["harness/p0708_mem.c"], variant="mock", cflags=["-DPROP=%d" % k],
                    wrap=["jent_zalloc", "mmap", "munmap", "mprotect", "madvise", "mlock", "munlock", "pthread_create", "pthread_join", "pthread_attr_init", "pthread_attr_destroy",
                          "jent_get_nstime_internal", "jent_stuck", "jent_fips_enabled", "jent_ncpu", "jent_cpu_highest", "jent_cache_size_roundup",
                          "jent_os_random_bytes", "jent_sha3_tester", "jent_drbg_generate_block"],
                    what="refused resources", quick=dict(bound=1, reads=2, timeout=60, budget=200), thorough=dict(bound=2, reads=3, budget=2400))] + [
               dict(name=pid.lower() + n, src=["harness/p0708_alt.c"], variant="mem" + n, cflags=["-DPROP=%d" % k, "-DBK=%d" % b],
                    wrap=["jent_zalloc", "jent_get_nstime", "jent_cache_size_roundup", "jent_sha3_tester", "jent_ncpu", "jent_os_random_bytes"] + (["malloc", "calloc", "free"] if n == "bare" else []),
                    what="memory from " + w, quick=dict(bound=1, timeout=60), thorough=dict(bound=2, budget=600))
               for n, b, w in [("gcrypt", 1, "libgcrypt"), ("openssl", 2, "OpenSSL"), ("awslc", 3, "AWS-LC"), ("bare", 4, "a system without memory locking"), ("kernel", 5, "the kernel")]])
    for pid, k in (("P07", 7), ("P08", 8))},
 "P13": dict(
    technique="exhaustive exploration of call histories with injected thread, memory and health outcomes on the real timer code",
    bounds="built-in and custom handler x usable or unusable platform clock x all sequences of 4 (thorough 5) operations from 14 (initialization, allocation in 4 modes, two instances, plain, self-healing and empty reads, failing self test, release) x one (thorough two) deviations among refused memory, refused context, refused thread, intermittent and permanent health verdicts",
    assumptions=["measurements are stubbed where the time is read (the second harness runs the real time stamps)"],
    harnesses=[dict(name=n, src=["harness/p13_timer.c"], variant="mock",
                    wrap=["jent_zalloc", "jent_zfree", "mmap", "munmap", "mprotect", "madvise", "mlock", "munlock", "pthread_create", "pthread_join", "pthread_attr_init", "pthread_attr_destroy",
                          "jent_measure_jitter", "jent_gcd_analyze", "jent_random_data", "jent_drbg_generate_block", "jent_fips_enabled", "jent_ncpu", "jent_cpu_highest",
                          "jent_cache_size_roundup", "jent_os_random_bytes", "jent_sha3_tester"],
                    what=w, quick=q, thorough=t)
               for n, w, q, t in [("p13", "life of the counting thread, one deviation", dict(bound=1, depth=4, timeout=30, budget=150), dict(bound=1, depth=5, budget=2000)),
                                  ("p13deep", "life of the counting thread, several deviations", dict(bound=2, depth=3, timeout=30, budget=150), dict(bound=2, depth=4, budget=2000))]] + [
               dict(name="p13sched", src=["harness/p13_sched.c"], variant="sched",
                    wrap=["jent_zalloc", "jent_zfree", "pthread_create", "pthread_join", "pthread_attr_init", "pthread_attr_destroy", "sched_setaffinity", "sched_yield",
                          "jent_measure_jitter", "jent_gcd_analyze", "jent_gcd_selftest", "jent_random_data", "jent_drbg_generate_block", "jent_fips_enabled", "jent_ncpu", "jent_cpu_highest",
                          "jent_cache_size_roundup", "jent_os_random_bytes", "jent_sha3_tester"],
                    what="interleavings of the counting thread with its user", quick=dict(bound=2, timeout=30, budget=120), thorough=dict(bound=3, budget=1500))]),
 "P14": dict(
    technique="exhaustive exploration of all operation sequences on the real configuration, initialization and read code against a latch model",
    bounds="all sequences of 4 (thorough 5) operations from 24: 3 callback, 7 handler (5 invalid) and 2 CPU settings, 5 initializations (plain, with alarm, failing self test, forced timer, contradictory), 5 allocations (with alarm, forced timer, refused at once), 2 reads (the last one with every of the 255 failure combinations); the handler, CPU and callback actually used are compared with the setting in force",
    assumptions=["measurements are stubbed, alarms are injected where the real tests deliver them"],
    harnesses=[dict(name="p14", src=["harness/p14_latch.c"], variant="mock",
                    wrap=["jent_zalloc", "jent_zfree", "mmap", "munmap", "mprotect", "madvise", "mlock", "munlock", "pthread_create", "pthread_join", "pthread_attr_init", "pthread_attr_destroy",
                          "sched_setaffinity", "jent_measure_jitter", "jent_gcd_analyze", "jent_random_data", "jent_drbg_generate_block", "jent_fips_enabled", "jent_ncpu", "jent_cpu_highest",
                          "jent_cache_size_roundup", "jent_os_random_bytes", "jent_sha3_tester"],
                    what="latches over call orders", quick=dict(depth=4, timeout=30), thorough=dict(depth=5, budget=2400))]),
 "P20": dict(
    technique="stateless exploration of all thread interleavings of the real code within a preemption bound under a controlled scheduler",
    bounds="10 scenarios of two threads (concurrent first initialization, allocation, reads, recovery, self test, status, release); with the measurements stubbed up to 4 (thorough 7) preemptions, with everything real 2 (thorough 4); scheduling points at every access to memory both threads touch",
    assumptions=["sequentially consistent memory: accesses are interleaved, not reordered", "both threads see clocks without a common divisor (P11 covers its publication)"],
    harnesses=[dict(name=n, src=["harness/p20_own.c"], variant="sched",
                    wrap=["jent_zalloc", "jent_zfree", "sched_yield", "jent_stuck", "jent_measure_jitter", "jent_random_data", "jent_fips_enabled", "jent_ncpu",
                          "jent_cache_size_roundup", "jent_os_random_bytes"],
                    what=w, quick=q, thorough=t)
               for n, w, q, t in [("p20real", "own instances, everything real", {"bound": 2, "from": 0, "to": 5, "timeout": 60, "budget": 120}, {"bound": 4, "from": 0, "to": 5, "timeout": 60, "budget": 1500}),
                                  ("p20light", "own instances, measurements stubbed", {"bound": 4, "from": 5, "to": 10, "timeout": 60, "budget": 120}, {"bound": 7, "from": 5, "to": 10, "timeout": 60, "budget": 1500})]]),
 "P21": dict(
    technique="exhaustive enumeration of region sizes, walk lengths and time stamp patterns on the real noise source with every memory access recorded, the region enclosed in inaccessible memory",
    bounds="all 20 sizes (1 kB to 512 MB): startup walk over two full passes in measurements of 12 lengths for sizes to 16 MB (thorough all), the startup stages themselves for all sizes, random walk with every value of every one of the 16 time stamps over 3 backgrounds plus 2^20 further steps, all bytes reached up to 128 kB and all 1024 parts and offsets beyond; accesses counted in every measurement of initialization, allocation, reads and recoveries in 6 modes x 4 sizes x 2 rates with alarms at 4 (thorough 40) places",
    assumptions=["the hash is stubbed: its result does not influence the memory source"],
    harnesses=[dict(name="p21", src=["harness/p21_walk.c"], variant="trace",
                    wrap=["jent_zalloc", "jent_zfree", "jent_stuck", "jent_random_data", "jent_fips_enabled", "jent_cache_size_roundup",
                          "jent_sha3_256_init", "jent_sha3_final", "jent_sha3_update", "jent_sha3_tester", "sched_yield"],
                    what="accesses of the memory source", quick=dict(timeout=60), thorough=dict(sizes=20, alarms=40, timeout=300, budget=2000))]),
 "P18": dict(
    technique="deviation-bounded exhaustive fault injection into the real kernel interfaces against a kernel stand-in, with an oracle over the observed events",
    bounds="character device: 13 (thorough 18) request sizes 0..257 x blocking or not x FIPS mode x one or two reads, every combination of at most 2 (thorough 3) deviations among 16 generator results (7 intermittent and permanent health errors, recoveries with a new collector, invalid codes), copy faults at start, middle and end, signals, lock contention, allocation failures and O_NONBLOCK switched on in between; hwrng: 12 sizes x waiting or not, two reads; crypto API: 8 sizes, verbose or not, two requests; requests of 40 chunks and of 11 sizes up to 200001 bytes",
    assumptions=["the kernel and the library are replaced by stand-ins with the documented behaviour (harness/kenv.h)", "bytes are told apart by value: generated data is a known sequence"],
    harnesses=[dict(name="p18", src=["harness/p18_read.c"], variant="kmod", what="delivery paths",
                    quick=dict(bound=2, timeout=60), thorough=dict(bound=3, sizes=18, budget=2500))]),
 "P19": dict(
    technique="exhaustive fault injection at every step of loading, opening, closing and unloading the real module against a kernel stand-in that tracks every resource",
    bounds="failure of every step of loading, opening and closing, at most 2 (thorough 3) at once, with files, generators and proc readers that use an interface as soon as it is visible, for 8 combinations of shortcut parameters x flags x lockdown x FIPS mode x self-test interval; all histories of 4 (thorough 5) operations over three device files, the test interface and crypto generators; five builds of the module with different interfaces",
    assumptions=["the kernel and the library are replaced by stand-ins with the documented behaviour (harness/kenv.h)", "user processes are modelled by calls into the file operations"],
    harnesses=[dict(name=n, src=["harness/p19_life.c"], variant=v, what=w, quick=dict(bound=2, depth=4, timeout=60), thorough=dict(bound=3, depth=5, budget=1200))
               for n, v, w in [("p19", "kmod", "all interfaces"), ("p19noproc", "kmodnoproc", "kernel without proc"), ("p19char", "kmodchar", "character device only"),
                               ("p19hw", "kmodhw", "hwrng and test interface only"), ("p19kcapi", "kmodkcapi", "crypto API only")]]),
 "P22": dict(
    technique="exhaustive exploration of operation histories and control requests with fault injection on the real module against a model, and preemption-bounded exploration of all schedules of self tests, reads, status files and closes",
    bounds="all histories of 4 (thorough 5) operations from 17 (self tests due, requested, failing, reads, status files, recoveries, opens, closes) x 6 intervals with at most 2 (thorough 3) deviations; every status length x buffer length x fault; every field request with every fault and with every bit of the field; 7168 unknown requests on either interface; 19 scenarios of concurrent self tests, reads, status files, field requests and closes with at most 3 (thorough 4) preemptions",
    assumptions=["the kernel and the library are replaced by stand-ins with the documented behaviour (harness/kenv.h)", "sequentially consistent memory in the schedule harness"],
    harnesses=[dict(name="p22", src=["harness/p22_hist.c"], variant="kmod", what="histories and control requests",
                    quick=dict(bound=2, depth=4, timeout=60), thorough=dict(bound=3, depth=5, budget=2000)),
               dict(name="p22sched", src=["harness/p22_sched.c"], variant="kmodsched", wrap=["sched_yield"], what="self tests, reads, status and closes at the same time",
                    quick=dict(bound=3, timeout=60), thorough=dict(bound=4, budget=2000))]),
 "P23": dict(
    technique="deviation-bounded exhaustive fault injection and history exploration on the real test interface against a kernel stand-in, and preemption-bounded exploration of all schedules of concurrent sessions",
    bounds="20 request sizes (0..24000 bytes, around the sample size and the 1000-sample round) x 4 noise sources x loop count set or not with at most 2 (thorough 3) faults among copy faults (start, middle, end), signals, contention and refused memory; opens with 6 rates x 8 flag values x verbose x lockdown with every fault; 12x12 loop counts; all histories of 5 (thorough 6) operations over two files; 9 concurrent scenarios with at most 3 (thorough 5) preemptions",
    assumptions=["the kernel and the library are replaced by stand-ins with the documented behaviour (harness/kenv.h)", "sequentially consistent memory in the schedule harness"],
    harnesses=[dict(name="p23", src=["harness/p23_raw.c"], variant="kmod", what="recording sessions",
                    quick=dict(bound=2, depth=5, timeout=60), thorough=dict(bound=3, depth=6, budget=2000)),
               dict(name="p23sched", src=["harness/p23_sched.c"], variant="kmodsched", wrap=["sched_yield"], what="concurrent sessions",
                    quick=dict(bound=3, timeout=60), thorough=dict(bound=5, budget=1500))]),
 "P24": dict(
    technique="exhaustive enumeration of module parameters on the real module code, each report compared with the configuration the library and the kernel were given",
    bounds="all 64 flag combinations x all 256 values of the size and loop fields x 8 shortcut combinations x FIPS mode, 9 rates in turn; every other bit alone and together; 300 rates; 12 self-test intervals x 15 hwrng qualities with 0..6 open files; four builds of the module with different interfaces",
    assumptions=["the kernel and the library are replaced by stand-ins with the documented behaviour (harness/kenv.h)"],
    harnesses=[dict(name=n, src=["harness/p24_proc.c"], variant=v, what=w, quick=dict(timeout=40))
               for n, v, w in [("p24", "kmod", "all interfaces"), ("p24char", "kmodchar", "character device only"),
                               ("p24hw", "kmodhw", "hwrng and test interface only"), ("p24kcapi", "kmodkcapi", "crypto API only")]]),
}
NOT_CLAIMED = {}
