#!/usr/bin/env python3
"""Single source of properties.jsonl (run it after editing; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "Health tests raise alarms at exactly the documented cutoffs",
  "For every sequence of time deltas, every oversampling rate from 1 to 20 and both the common and the NTG.1 profile, a delta counts as stuck exactly if it, its first difference or its second difference is zero (deltas before the first one, and those before a restart of the predictor window, count as zero), and the repetition count, adaptive proportion, lag predictor and repetition-count-with-memory tests each raise their intermittent and their permanent failure at exactly the sample on which the documented counter reaches the documented cutoff: never earlier, never later, never not at all. A raised failure is never withdrawn by later samples. Counters restart exactly where the test definition says so (non-stuck sample, end of a 512-sample proportion window, wrong prediction, end of a 131072-sample predictor window, start of an output block).",
  ["inputs", "histories", "configurations"],
  "all sequences of time deltas x oversampling rates 1..20 x {common, NTG.1}",
  "The tests replay a few recorded sequences; an off-by-one in a cutoff, a window boundary or a tie-break only shows on the one sequence that sits on that boundary for one oversampling rate.",
  ["src/jitterentropy-health.c", "src/jitterentropy-health.h"],
  [("stuck test and dispatch to all tests", "src/jitterentropy-health.c:jent_stuck"),
   ("RCT / APT / lag / RCT-with-memory insertion", "src/jitterentropy-health.c:jent_rct_insert, jent_apt_insert, jent_lag_insert, jent_rct_mem_insert"),
   ("cutoff selection per oversampling rate", "src/jitterentropy-health.c:jent_health_init")],
  ["return value of the stuck test, health failure bit mask"])

p("P02", "Reads fail closed: no output past a failure, most severe error reported",
  "In an instance that enforces health tests, for every request length, every block at which a failure appears and every combination of failures, a read returns the documented negative code of the most severe failure (any permanent one before any intermittent one; permanent order RCT, APT, lag, RCT-mem; intermittent order RCT, APT, RCT-mem, lag), writes no byte of the failing block or beyond it, and every later plain read of that instance fails too without writing anything. A read that succeeds returns exactly the requested length, having written exactly those bytes, and only successful reads are counted in the instance's read and byte counters. NULL arguments return the invalid-argument error, and a request of length zero succeeds.",
  ["inputs", "histories", "fault_sequences"],
  "all request lengths up to several blocks x all blocks at which failures appear x all non-empty subsets of the eight failure kinds x follow-up reads",
  "Tests induce a handful of failures at the first block; 255 failure combinations at each block of each length, plus what follows, cannot be sampled meaningfully.",
  ["src/jitterentropy-base.c", "src/jitterentropy-health.c"],
  [("block loop and error mapping", "src/jitterentropy-base.c:jent_read_entropy"),
   ("health verdict gate", "src/jitterentropy-health.c:jent_health_failure")],
  ["return value and buffer contents of jent_read_entropy"])

p("P03", "Recovery from intermittent failures escalates, terminates, keeps identity",
  "For every sequence of health verdicts, initialization verdicts and allocation outcomes, the self-healing read either delivers the full request from an instance without health failure or returns an error after finitely many reinitializations, each of which strictly raises the oversampling rate (never above 20), raises the hash loop count up to its maximum, and enlarges the noise memory by one step only if the caller did not cap it and never above 512 MB. Permanent, self-test, timer and argument errors are returned at once without reinitialization; when recovery is impossible the original intermittent error is returned and the caller's handle remains the valid old instance, still failing. After a recovery the instance keeps its UUID, its read and byte counters, its memory cap and its flags, its reinitialization count grows by one, the health tests continue from the alarm (a persisting fault escalates to permanent), and the replaced instance has been released exactly once.",
  ["fault_sequences", "histories", "configurations"],
  "all sequences of per-block health verdicts, per-attempt initialization verdicts and allocation results along the recovery ladder, from every starting oversampling rate, memory and hash loop setting",
  "The ladder has dozens of rungs with three independent outcomes each; tests walk one or two paths with a friendly environment.",
  ["src/jitterentropy-base.c", "src/jitterentropy-health.c"],
  [("recovery ladder", "src/jitterentropy-base.c:jent_health_failure_reset"),
   ("retry loop", "src/jitterentropy-base.c:jent_read_entropy_safe"),
   ("carry-over of health state", "src/jitterentropy-health.c:jent_apt_duplicate, jent_rct_duplicate, jent_lag_duplicate")],
  ["return value, handle, status report of the instance, allocation log"])

p("P04", "Every output block is backed by the required number of good measurements",
  "For every pattern of stuck measurements, oversampling rate and mode, each 32-byte block is released only after at least 256 times the oversampling rate (321 times in FIPS and NTG.1 mode) non-stuck measurements were taken since the previous block; stuck measurements, and the measurement that only primes the time reference, never count towards this. In FIPS and NTG.1 mode the allocation additionally collects that many non-stuck measurements from the memory access source alone and then that many from the hash loop source alone before any output; in the other modes one block's worth of measurements is collected at allocation. Partial or small requests never get data from a block that was already drawn from.",
  ["inputs", "configurations", "histories"],
  "all stuck patterns (bounded by pattern period and placement) x oversampling rates x modes x request histories",
  "Output with too little entropy looks exactly as random as correct output, so no statistical or functional test notices a shortened collection loop.",
  ["src/jitterentropy-noise.c", "src/jitterentropy-base.c"],
  [("collection loop", "src/jitterentropy-noise.c:jent_random_data_one"),
   ("startup stages", "src/jitterentropy-noise.c:jent_random_data"),
   ("initial fill at allocation", "src/jitterentropy-base.c:_jent_entropy_collector_alloc")],
  ["time stamps consumed per block, noise sources exercised"])

p("P05", "Output equals the specified conditioning of every single measurement",
  "For every sequence of time stamps, the bytes returned by a read are exactly those of the specified generator: every measured delta, stuck or not, is divided by the common divisor and absorbed in order, together with its source's domain separator and the hash-loop digest, into the XDRBG-256 state that evolves across blocks and reads. Changing any single delta changes all later output, and no measurement of one instance influences another instance.",
  ["inputs", "histories", "configurations"],
  "all time stamp sequences of a bounded family x modes x oversampling rates x request histories, bit for bit",
  "There is no known answer for timing noise: tests cannot tell an output that ignores half of the measurements or reuses state from a correct one.",
  ["src/jitterentropy-noise.c", "src/jitterentropy-sha3.c", "src/jitterentropy-base.c"],
  [("absorbing a measurement", "src/jitterentropy-noise.c:jent_hash_insert"),
   ("noise sources", "src/jitterentropy-noise.c:jent_measure_jitter*"),
   ("output generation", "src/jitterentropy-noise.c:jent_read_random_block")],
  ["bytes returned by jent_read_entropy under a controlled clock"])

p("P06", "Conditioning functions conform to FIPS 202 and XDRBG for every input",
  "For every message length and every way of splitting the message into updates, SHA3-256 and SHAKE256 produce the FIPS 202 result, for every supported SHAKE output length (multiples of 8 bytes up to 136). For every history of seeding inputs and output requests of 0 to 32 bytes (longer requests are limited to 32), XDRBG-256 produces the specified state and output, and the known answer self test passes exactly if the primitives are correct.",
  ["inputs", "histories"],
  "all message lengths across several rate blocks x all two-way and bounded multi-way splits x output lengths; all XDRBG histories up to a depth",
  "Known answer tests use a few lengths; buffering errors at one residue of the rate or one split pattern escape them.",
  ["src/jitterentropy-sha3.c", "src/jitterentropy-sha3.h"],
  [("sponge buffering", "src/jitterentropy-sha3.c:jent_sha3_update, jent_sha3_final"),
   ("XDRBG operations", "src/jitterentropy-sha3.c:jent_xdrbg*, jent_drbg_generate_block"),
   ("known answer tests", "src/jitterentropy-sha3.c:jent_sha3_tester")],
  ["digest and output bytes"])

p("P07", "Secrets are wiped on every path and past output is unrecoverable",
  "Whenever the library gives memory back - freeing a collector, a failed allocation, initialization or recovery, any fault injected on the way - the whole block (collector, conditioning state, noise memory, timer history) is zero at the moment it is handed back to the operating system, crypto library or kernel allocator it came from, and nothing is accessed afterwards. After a read returns, neither the returned bytes nor the conditioning state they were derived from are present in the collector or conditioning memory.",
  ["fault_sequences", "histories", "configurations"],
  "all release paths reached by enumerating allocation, timer-thread and health faults x configurations x histories of reads",
  "A skipped wipe has no functional effect, and tests look at one path only.",
  ["arch/jitterentropy-arch-memory.c", "src/jitterentropy-base.c", "src/jitterentropy-sha3.c", "src/jitterentropy-gcd.c"],
  [("wipe and release", "arch/jitterentropy-arch-memory.c:jent_zfree"),
   ("collector release", "src/jitterentropy-base.c:jent_entropy_collector_free"),
   ("state ratchet", "src/jitterentropy-sha3.c:jent_drbg_generate_block")],
  ["contents of mappings when they are released, collector memory after a read"])

p("P08", "Resource failures leave nothing behind and secure memory is never faked",
  "For every sequence of refusals by the operating system (mapping, protecting, locking memory; creating threads) during initialization, allocation or recovery, the call either succeeds or reports failure cleanly - no crash, no leak of mappings or threads, no half-built collector - and the same call succeeds once the resources are available. When secure memory is demanded (by its own, the FIPS or the NTG.1 flag) no call succeeds with memory that the operating system refused to lock or that the crypto library did not take from its secure pool; without the demand a lock refused for lack of privilege or quota is tolerated. Every block mapped from the operating system lies between inaccessible pages, and its exclusion from core dumps is asked for, without failing when that is refused. The status report never calls memory secure of which a part is not, and never denies the secure memory that was demanded and given.",
  ["fault_sequences", "configurations"],
  "all single and pairwise faults at every system call of init, alloc, free and recovery x error codes x modes",
  "Failing the n-th of dozens of system calls with each error code, and pairs of them, is beyond hand-written tests, which fail one chosen call.",
  ["arch/jitterentropy-arch-memory.c", "src/jitterentropy-base.c", "src/jitterentropy-timer.c", "arch/jitterentropy-arch-thread.c"],
  [("secure allocation", "arch/jitterentropy-arch-memory.c:jent_zalloc"),
   ("unwinding", "src/jitterentropy-base.c:jent_entropy_collector_alloc_internal, jent_time_entropy_init")],
  ["return values, live mappings and threads, the status report"])

p("P09", "Flags and oversampling rate are accepted, rejected and applied as documented",
  "For every combination of flags, memory size, hash loop setting, oversampling rate and system FIPS state, allocation is refused exactly for contradictory or out-of-range requests (internal timer both forced and disabled, NTG.1 with a forced internal timer, memory access disabled in FIPS or NTG.1 mode, oversampling rate above 20, NTG.1 or disabled internal timer once the internal timer is in force), and otherwise the instance has the requested configuration: rate raised to at least 3, memory size as requested but at most 512 MB (or derived from the cache size), hash loop count as requested, health tests enforced exactly if FIPS flag, NTG.1 flag or system FIPS mode is set. The initialization call agrees with the allocation on contradictory timer requests, and none of these verdicts depends on which calls came before, apart from the internal timer having been put in force.",
  ["configurations", "inputs"],
  "the full cross product of the flag bits, boundary memory sizes, hash loops, oversampling rates 0..22 and system FIPS state",
  "Hundreds of thousands of combinations; tests check a few of them individually and none of the interactions.",
  ["src/jitterentropy-base.c", "jitterentropy.h"],
  [("configuration", "src/jitterentropy-base.c:jent_entropy_collector_alloc_internal, _jent_entropy_collector_alloc"),
   ("memory sizing", "src/jitterentropy-base.c:jent_update_memsize, jent_memsize"),
   ("init agreement", "src/jitterentropy-base.c:jent_entropy_init_ex")],
  ["NULL or instance, configuration shown by the status report"])

p("P10", "Initialization accepts exactly the usable clocks and classifies the others",
  "For every clock behaviour during the power-up test, initialization succeeds exactly if no time stamp is zero, no delta is zero, the clock went backwards at most 3 times, no health test failed, the deltas vary enough for the oversampling rate, their common divisor is not absurdly large and at most 90 percent of the measurements are stuck. Otherwise it returns the documented code of the first applicable reason in that order, measured over the 1024 evaluated samples after the warm-up (zero stamps and deltas also during the warm-up).",
  ["inputs", "configurations"],
  "clock sequences with one or two anomalies of every kind at every sample index, threshold counts at, below and above each limit, for each oversampling rate",
  "Anomalies at one specific sample, or counts exactly at a limit, are never produced by the real clocks tests run on.",
  ["src/jitterentropy-base.c", "src/jitterentropy-gcd.c"],
  [("power-up test", "src/jitterentropy-base.c:jent_time_entropy_init"),
   ("variation analysis", "src/jitterentropy-gcd.c:jent_gcd_analyze")],
  ["return value of jent_entropy_init_ex"])

p("P11", "The common timer divisor is correct and established once",
  "For every delta history the analysis computes the true greatest common divisor of all nonzero deltas and accepts or rejects exactly by the documented limits. In every schedule of concurrent initializations and allocations the divisor is published at most once, a reader sees either none or the complete published value, and it never changes afterwards; allocations before that use a divisor of one.",
  ["inputs", "schedules", "histories"],
  "all delta histories over small alphabets up to a length, boundary sums; all interleavings of 2-3 threads publishing and reading within a preemption bound",
  "The race window is a few instructions, and wrong divisors only reduce entropy silently.",
  ["src/jitterentropy-gcd.c", "arch/jitterentropy-arch-atomic.c"],
  [("analysis", "src/jitterentropy-gcd.c:jent_gcd_analyze"),
   ("publication", "src/jitterentropy-gcd.c:jent_gcd_get and the claimed/set flags")],
  ["divisor obtained from jent_gcd_get"])

p("P12", "A failed conditioning self test stops the instance for good, in every mode",
  "Once a self test bound to an instance has failed, that instance never starts another block: every plain or self-healing read of at least one byte returns the self-test error in every mode (a block already being generated while the verdict falls may be the last one released), later successful self tests do not revive it, a recovery does not revive it, and under every interleaving of the self test with a read or status query on another thread the verdict is not lost. Initialization runs the self tests before anything else and reports their failure, and no allocation succeeds in a process whose most recent initialization failed its self tests unless they are run again and pass.",
  ["schedules", "histories", "fault_sequences"],
  "all operation sequences of self test (pass, fail), read, safe read, recovery, init, alloc up to a depth; all interleavings of one self test with one read within a preemption bound",
  "The verdict can be lost in a two-instruction window or by one particular order of calls; the self test never fails on a healthy machine.",
  ["src/jitterentropy-base.c", "src/jitterentropy-internal.h"],
  [("verdict", "src/jitterentropy-base.c:jent_selftest, struct rand_data.selftest_failed"),
   ("per-block gate", "src/jitterentropy-base.c:jent_read_entropy"),
   ("init gating", "src/jitterentropy-base.c:jent_entropy_init_common_pre/post")],
  ["return values of reads, init and alloc"])

p("P13", "The internal timer thread runs exactly while needed and is always stopped",
  "For every history of allocations, reads, recoveries, failures and frees with the internal timer in use, and every refusal to create the thread, the counting thread is started before measurements that depend on it, started at most once at a time per instance, stopped before the call returns, and never touches an instance after it was freed. Thread creation failure is reported as timer error by reads and as failed allocation or initialization, never as a hang; every context a custom thread handler created is finalized exactly once, after its thread was stopped, the thread is never started twice without a stop in between, and the handler is never called with a foreign or an already finalized context (repeated stops, and a final call without context when the internal timer is not in use, are possible).",
  ["histories", "fault_sequences", "schedules"],
  "all operation sequences up to a depth with each thread operation failing or not, custom and built-in handler",
  "A leaked or missing thread shows up only after a rare failure path, and then as a hang or use-after-free that depends on timing.",
  ["src/jitterentropy-timer.c", "arch/jitterentropy-arch-thread.c", "src/jitterentropy-base.c"],
  [("lifecycle", "src/jitterentropy-timer.c:jent_notime_enable, jent_notime_settick, jent_notime_unsettick, jent_notime_disable"),
   ("built-in handler", "arch/jitterentropy-arch-thread.c")],
  ["start/stop/init/fini calls, return values"])

p("P14", "Process-wide settings latch at first initialization",
  "For every sequence of the configuration calls (failure callback, thread handler, timer CPU) and of initializations and allocations, configuration is accepted exactly until the first initialization and refused with the documented error afterwards; the setting in force is the last accepted one, and refused or invalid calls change nothing. Once the internal timer has been forced it stays forced. In FIPS mode the registered callback is invoked with the instance and its failure mask whenever a failure is reported, and never otherwise.",
  ["histories"],
  "all sequences of configuration, initialization, allocation and failing or succeeding reads up to a depth",
  "Order-dependent process-wide latches cannot be re-tested within one process, so tests cover a few orders.",
  ["src/jitterentropy-timer.c", "src/jitterentropy-health.c", "src/jitterentropy-base.c"],
  [("handler switch", "src/jitterentropy-timer.c:jent_notime_switch, jent_notime_block_switch, jent_notime_set_cpu"),
   ("callback", "src/jitterentropy-health.c:jent_set_fips_failure_callback_internal")],
  ["return values, handler and callback actually used"])

p("P15", "Status and UUID reports stay in bounds and tell the truth",
  "For every instance state and every buffer length, the status and UUID calls never write outside the buffer, status always NUL-terminates a non-empty buffer, and both succeed exactly if the report fits (a status buffer that is filled to the last byte may be answered either way); a successful status is valid JSON whose values agree with the instance (version, UUID, flags, rate, memory size, hash loops, health state, counters). A status without an instance reports the version only; a missing buffer is refused. UUIDs are well-formed version 4 UUIDs, or the nil UUID if no randomness is available.",
  ["inputs", "histories", "configurations"],
  "all buffer lengths from 0 to beyond the report x instance configurations and counter extremes",
  "Off-by-one truncation at one buffer length or one extreme counter value.",
  ["src/jitterentropy-status.c", "src/jitterentropy-uuid.c"],
  [("status", "src/jitterentropy-status.c:jent_status"), ("uuid", "src/jitterentropy-uuid.c:jent_uuid, jent_uuid_generate")],
  ["buffer contents and return value"])

p("P16", "OS services are used correctly whatever they answer",
  "For every sequence of answers of the operating system's random source (full, short, interrupted, error, end of file) the helper either fills the whole buffer with bytes delivered by a source that reported success, or reports failure; it never returns success with bytes missing, never loops forever on a persistent error, and leaks no descriptor. The system FIPS state is reported as enabled exactly if the system flag file reads as a set flag, for every content and every read outcome (or, in builds over a crypto library or the kernel, if that reports it), and the number of CPUs is the number in the affinity mask or the system's count as a fallback, or an error if neither is known; never zero. Binding the counting thread to a CPU names exactly that CPU, for every CPU number, and reports failure if it was not done. A time stamp taken from an operating system clock is the full value of a clock that is never set back, and zero if the clock fails.",
  ["fault_sequences"],
  "all answer sequences up to a depth for getrandom/open/read/close, FIPS file contents, affinity and sysconf answers",
  "Short reads and interrupted calls practically never happen in a test environment.",
  ["arch/jitterentropy-arch-random.c", "arch/jitterentropy-arch-fips.c", "arch/jitterentropy-arch-ncpu.c", "arch/jitterentropy-arch-thread.c", "arch/jitterentropy-arch-timer.c"],
  [("random bytes", "arch/jitterentropy-arch-random.c:jent_os_random_bytes"),
   ("FIPS flag", "arch/jitterentropy-arch-fips.c:jent_fips_enabled"), ("CPU count", "arch/jitterentropy-arch-ncpu.c:jent_ncpu"), ("binding", "arch/jitterentropy-arch-thread.c:jent_thread_pin_to_cpu"), ("time stamp", "arch/jitterentropy-arch-timer.c:jent_get_nstime")],
  ["buffer contents, return values, open descriptors"])

p("P17", "Cache discovery yields the right working-set size for every topology",
  "For every CPU and cache topology the system describes (files, CPUID leaves or cache identification registers) - any mix of data, unified and instruction caches, levels, sizes with or without suffix, hybrid cores, offline CPUs, unreadable, truncated or malformed attributes - the derived size is the smallest power of two strictly greater than the largest level-1 data cache (or, on request, than the sum of the largest caches of all levels), at most 2 GB, and zero if nothing is known. A CPU's list of caches ends at the first index whose type cannot be read. The answer is computed once and identical for all callers and schedules afterwards.",
  ["inputs", "fault_sequences", "schedules"],
  "all topologies of up to 3 CPUs with up to 4 cache indices over alphabets of attribute contents and read faults, sysconf answers, and two concurrent first callers",
  "A machine has one topology; malformed or hybrid ones never occur on the test machines.",
  ["arch/jitterentropy-arch-cache.c"],
  [("sysfs walk and parsers", "arch/jitterentropy-arch-cache.c:jent_get_cachesize_sysfs_dir, jent_parse_cache_size"),
   ("round-up and memo", "arch/jitterentropy-arch-cache.c:jent_cache_size_roundup")],
  ["return value of jent_cache_size_roundup"])

p("P18", "Kernel interfaces deliver only good data with correct counts and errors",
  "For every request size, every sequence of generator results, copy faults, pending signals and lock contention, a read of the character device returns the number of bytes that were generated and copied completely before the first problem, or that problem's documented error if there were none; it never reports bytes it did not deliver and never leaves random data in kernel temporaries; a non-blocking read delivers at most 256 bytes and never waits. The hwrng and crypto API interfaces return data only from successful generation, map generator errors as documented (permanent failures panic in FIPS mode and otherwise give an I/O-type error, intermittent ones ask to retry), honour non-blocking requests, and hold the instance lock exactly while the generator runs.",
  ["fault_sequences", "inputs"],
  "all read sizes around chunk boundaries x generator result sequences x copy faults x signals x lock contention x blocking mode",
  "The kernel code is only compiled, never run, by the tests.",
  ["linux_kernel/jitterentropy_chardev.c", "linux_kernel/jitterentropy_hwrng.c", "linux_kernel/jitterentropy_kcapi.c", "linux_kernel/jitterentropy_error.h"],
  [("device read", "linux_kernel/jitterentropy_chardev.c read path"), ("hwrng read", "linux_kernel/jitterentropy_hwrng.c"), ("crypto API", "linux_kernel/jitterentropy_kcapi.c"), ("error mapping", "linux_kernel/jitterentropy_error.h")],
  ["return value, user buffer, lock and kernel memory log"])

p("P19", "Kernel module setup and teardown unwind completely",
  "For every failing step while the module loads, an interface registers or a device is opened, everything that was set up before is undone exactly once in reverse order and the error is returned; after unload or close nothing remains registered, allocated, scheduled or counted. A successful load registers the enabled interfaces, and a device open provides a private instance that is released with the last close. The character device becomes visible only when nothing can fail any more.",
  ["fault_sequences", "histories"],
  "a failure at every registration, allocation and initialization step, and all open/close histories up to a depth",
  "Registration failures do not happen on a healthy kernel, and the tests never load the module.",
  ["linux_kernel/jitterentropy_mod.c", "linux_kernel/jitterentropy_chardev.c", "linux_kernel/jitterentropy_hwrng.c", "linux_kernel/jitterentropy_kcapi.c", "linux_kernel/jitterentropy_proc.c"],
  [("module init/exit", "linux_kernel/jitterentropy_mod.c"), ("device open/release", "linux_kernel/jitterentropy_chardev.c")],
  ["live registrations and allocations"])

p("P20", "Concurrent use of separate instances is safe and equals sequential use",
  "For every interleaving of threads that each use only their own instance - allocating, reading, querying and freeing - and of concurrent first-time initializations, every call returns what it returns when the threads run one after the other: no shared scratch state, no lost or torn process-wide state, no deadlock.",
  ["schedules"],
  "all interleavings of 2 threads within a preemption bound, scheduling at every access to memory touched by both threads",
  "Interleavings of unsynchronized accesses cannot be forced by a test; the thread sanitizer only judges the schedules that happened.",
  ["src/jitterentropy-base.c", "src/jitterentropy-sha3.c", "src/jitterentropy-gcd.c", "src/jitterentropy-timer.c", "arch/jitterentropy-arch-cache.c", "arch/jitterentropy-arch-atomic.c"],
  [("process-wide state", "static variables reached through arch/jitterentropy-arch-atomic.c")],
  ["return values and output of each thread"])

p("P21", "Noise memory accesses stay in bounds and cover the whole region",
  "For every memory size, every time stamp value and every number of measurements, the memory noise source reads and writes only inside its own region and performs the configured number of accesses per measurement (three times as many in the startup stage of the memory source). The startup walk visits every byte position of the region before repeating one, and the random walk can reach every part of the region.",
  ["inputs", "configurations"],
  "all region sizes x time stamp values feeding the address generator x walk lengths up to a full cycle",
  "Out-of-range addresses occur for one in millions of time stamps; a walk that cycles in a small part of the region is invisible in the output.",
  ["src/jitterentropy-noise.c"],
  [("random walk", "src/jitterentropy-noise.c:jent_memaccess_pseudorandom"), ("startup walk", "src/jitterentropy-noise.c:jent_memaccess_deterministic")],
  ["addresses touched in the region between guard pages"])

p("P22", "Kernel self-test scheduling and control interface behave for every history",
  "For every history of opens, scheduled and on-demand self tests (passing or failing), status and field queries with any user buffer, and closes, a failed self test is recorded for its instance, reported to the user and not scheduled again, no test runs on a released instance, and every control request returns the documented value or error without writing outside the user's buffer. Status truncation reports the needed length, unknown requests are refused.",
  ["histories", "fault_sequences"],
  "all histories up to a depth of open, work execution, control requests with argument and copy-fault alphabets, close",
  "The kernel code is only compiled by the tests, and self tests never fail on healthy hardware.",
  ["linux_kernel/jitterentropy_selftest.c", "linux_kernel/jitterentropy_ioctl.c", "linux_kernel/jitterentropy_chardev.c"],
  [("self-test work", "linux_kernel/jitterentropy_selftest.c"), ("control requests", "linux_kernel/jitterentropy_ioctl.c, jitterentropy_chardev.c ioctl")],
  ["return values, user buffer, scheduled work"])

p("P23", "The kernel raw noise interface records exactly what was asked for",
  "For every request size, fault and history, a read of the kernel's raw noise test file delivers the time deltas of consecutive measurements on the file's own instance, in order and unchanged: with the rate, flags and noise source that were set when the file was opened and the loop count set for this file, the common measurement primed before the first sample of every round. It returns the number of bytes delivered before the first problem or that problem's error, refuses sizes that are not whole samples without measuring, and leaves no sample in kernel memory. Sessions exclude each other, and parameter or loop count changes never take effect within one. The file cannot be opened on a locked-down kernel.",
  ["fault_sequences", "histories", "schedules"],
  "all request sizes around sample and round boundaries x faults x histories over two files x interleavings within a preemption bound",
  "The kernel code is only compiled by the tests; a stale or foreign sample looks like any other number.",
  ["linux_kernel/jitterentropy_testing.c"],
  [("recording session", "linux_kernel/jitterentropy_testing.c:jent_testing_extract_user"), ("open", "linux_kernel/jitterentropy_testing.c:jent_testing_open"), ("loop count", "linux_kernel/jitterentropy_testing.c:jent_testing_ioctl_loopcnt")],
  ["user buffer, return value and the log of measurements"])

p("P24", "Kernel status files and parameters tell what is really in effect",
  "For every combination of module parameters, the files below /proc/jitterentropy report the configuration the library was really given: effective flags with every documented bit and the decoded memory size and hash loop count, the effective oversampling rate, NTG.1 and FIPS mode, version, compiled-in interfaces and, as well-formed JSON, the instance counts and the effective self-test interval. The shortcut parameters equal their flag bits, and the entropy quality declared for the hwrng is the requested one limited to 1024.",
  ["configurations", "inputs"],
  "all flag bits x size and loop field values x shortcut parameters x FIPS mode x rates x intervals x qualities x builds of the module",
  "The kernel code is only compiled by the tests.",
  ["linux_kernel/jitterentropy_proc.c", "linux_kernel/jitterentropy_mod.c", "linux_kernel/jitterentropy_hwrng.c"],
  [("reports", "linux_kernel/jitterentropy_proc.c"), ("parameters", "linux_kernel/jitterentropy_mod.c:jent_mod_init"), ("quality", "linux_kernel/jitterentropy_hwrng.c:jent_hwrng_init")],
  ["text of the proc files, parameters given to the library and the kernel"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
