#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=observe or [], hook_needed=hook)))

p("C01", "Integer, boolean and pointer operations compute exactly the documented values",
  "For every atomic integer width and signedness, AtomicBool and AtomicPtr, every operation of the public API stores exactly the value its documentation defines (wrapping arithmetic, bitwise, nand, signed/unsigned min/max, negation, single-bit set/clear/toggle, pointer offsets in units of T or bytes) and returns exactly the documented result (previous value, previous bit, or Ok/Err of a compare-exchange). "
  "This holds for every current value, every argument, every valid ordering and every sequence of operations on the same variable, with a strong compare-exchange failing only when the value differs and a weak one never succeeding when it differs. "
  "Operations that return nothing (add, sub, and, or, xor, not, neg) leave the same stored value as their fetching counterparts.",
  ["inputs", "histories", "configurations"],
  "All values (8 to 128 bits), arguments, valid ordering combinations and operation sequences, on every backend the configuration can select (native, double-width native, run-time detected, lock-based; x86_64, i686, aarch64 with and without LSE/LSE2, debug and release).",
  "The tests use a handful of fixed constants per operation from a fresh variable; carries across the two halves of a double-width value, sign boundaries, out-of-range bit numbers, non-fetching variants after arbitrary histories and ordering-specific code paths with interesting values are not reached.",
  ["src/lib.rs", "src/imp/core_atomic.rs", "src/imp/x86.rs", "src/imp/atomic128/", "src/imp/atomic64/", "src/imp/fallback/mod.rs", "src/utils.rs"],
  [("inline-asm RMW loops", "src/imp/atomic128/*.rs"), ("asm for not/neg and bit operations", "src/imp/x86.rs"), ("CAS-loop emulation of min/max/neg on sub-word and missing ops", "src/imp/core_atomic.rs"), ("plain read-modify-write under the lock", "src/imp/fallback/mod.rs"), ("default no-fetch and bit operations", "src/utils.rs")],
  observe=["return value of the call", "value read back by load, as_ptr, get_mut and into_inner"])

p("C02", "Atomic floats are bit-exact and compute the documented float functions",
  "For every atomic float type, load, store, swap, the raw-bits view and the raw pointer preserve every bit pattern exactly (signed zeros, subnormals, infinities and NaN payloads), and compare-exchange compares and reports bit patterns, not float equality. "
  "fetch_add and fetch_sub store the sum or difference the plain float operators give, fetch_max and fetch_min the value the plain max/min give (a NaN loses against a number), fetch_neg flips exactly the sign bit and fetch_abs clears exactly the sign bit. "
  "Every one of them returns the previous value bit-exactly.",
  ["inputs", "histories", "configurations"],
  "All bit patterns of f32 and f64 (and f16/f128 where the compiler has them) as current value and as argument, all valid orderings, all operation sequences.",
  "The tests use a few ordinary numbers and compare with ==, which cannot tell -0.0 from 0.0 or see NaN payloads.",
  ["src/imp/float/int.rs", "src/imp/float/aarch64.rs", "src/imp/float/mod.rs", "src/lib.rs"],
  [("bit casts onto the integer atomic, sign-bit masks, CAS loops", "src/imp/float/int.rs")],
  observe=["to_bits of results and of the stored value"])

p("C03", "Double-width and lock-based atomics are indivisible and linearizable",
  "Concurrent operations on one 128-bit atomic (and one 64-bit atomic on a 32-bit target), whichever implementation was selected at compile time or at run time, always behave as if each took effect in one indivisible step between its call and its return. "
  "No load or failed compare-exchange ever returns a mixture of two values, no update is lost or applied twice, and no value appears that no thread stored.",
  ["schedules", "histories", "configurations"],
  "All interleavings, at the granularity of single machine instructions, of all small multi-thread programs over the operations of AtomicU128/AtomicI128 (and lock-based 64-bit atomics), for each implementation.",
  "The existing stress test runs a few random threads natively; the windows (between the two halves, between a stamp check and the data reads) are a few instructions wide and are almost never hit.",
  ["src/imp/fallback/mod.rs", "src/imp/fallback/seq_lock.rs", "src/imp/fallback/seq_lock_wide.rs", "src/imp/fallback/outline_atomics.rs", "src/imp/atomic128/", "src/imp/atomic64/"],
  [("sequence lock: optimistic read validated by the stamp, exclusive write", "src/imp/fallback/mod.rs"), ("cmpxchg16b / ldxp-stxp / casp / vector load", "src/imp/atomic128/")],
  state=[dict(name="lock table", meaning="a fixed number of global sequence locks chosen by address", where="src/imp/fallback/mod.rs lock()")],
  observe=["results of all operations", "final value"])

p("C04", "Concurrent read-modify-writes of every width never lose an update",
  "When any number of threads apply read-modify-write operations of any kind (returning or not) to the same atomic variable of any width or type, the final value and all returned previous values are those of some one-at-a-time execution of exactly these operations. "
  "In particular increments, toggled bits, exchanged tokens and running maxima/minima are never lost or duplicated, and operations on neighbouring variables in the same word never disturb each other.",
  ["schedules", "histories", "configurations"],
  "All concurrent executions of all operation kinds on bool, pointer, all integer widths and floats, alone or side by side in memory, on x86_64, i686, aarch64 and the emulated targets.",
  "The unit tests of native widths are single-threaded; a missing lock prefix, a plain read-modify-write in a specialised path, or a retry loop that ignores a failed conditional store is invisible without real contention.",
  ["src/imp/x86.rs", "src/imp/core_atomic.rs", "src/imp/float/int.rs", "src/imp/atomic128/", "src/lib.rs", "src/utils.rs"],
  [("lock-prefixed asm", "src/imp/x86.rs"), ("CAS retry loops", "src/imp/core_atomic.rs, src/imp/float/int.rs"), ("LL/SC retry loops", "src/imp/atomic128/aarch64.rs")],
  observe=["returned previous values", "final value", "neighbouring values"])

p("C05", "Lock-based operations survive preemption anywhere and always release",
  "A lock-based atomic operation may be suspended between any two machine instructions while other threads operate on the same variable or on another variable that shares its internal lock, and every operation still returns its correct result. "
  "Every operation, including a failed compare-exchange and one whose closure panics, leaves all variables usable: once the suspended thread runs again, all pending operations finish within a bounded number of their own steps, and no sequence of operations leaves a lock held or makes later reads accept inconsistent data.",
  ["schedules", "histories"],
  "All preemption points and switch sequences of small programs over one or several lock-based variables, including variables that collide on one internal lock and long histories that overflow narrow internal counters.",
  "Tests cannot place a context switch at a chosen instruction and never make two variables collide on one lock on purpose.",
  ["src/imp/fallback/mod.rs", "src/imp/fallback/seq_lock.rs", "src/imp/fallback/seq_lock_wide.rs", "src/imp/fallback/seq_lock_common.rs", "src/imp/fallback/utils.rs"],
  [("write guard restores or advances the stamp on drop", "src/imp/fallback/seq_lock_common.rs"), ("abort of an unchanged write", "src/imp/fallback/mod.rs compare_exchange")],
  observe=["return of every operation within a step bound", "results"])

p("C06", "Requested memory orderings are honoured on every backend",
  "An Acquire (or AcqRel, SeqCst) operation keeps every later memory access after the read that supplied its value; a Release (or AcqRel, SeqCst) operation keeps every earlier memory access before its write; SeqCst operations of the same thread are never reordered with each other, also when they are on different variables or of different widths. "
  "A failed compare-exchange gives at least its failure ordering and a successful one at least its success ordering, also when the failure ordering is the stronger one. "
  "This holds for every type, operation, ordering argument and implementation, lock-based ones included.",
  ["programs", "inputs", "configurations"],
  "All operations with all valid orderings in all small programs around them, on strongly and weakly ordered architectures, on native, double-width and lock-based implementations.",
  "Ordering bugs cannot fail a test on the strongly ordered host: the reorderings happen only on weak hardware (or in an emulated weak memory), and tests assert values only.",
  ["src/imp/atomic128/", "src/imp/core_atomic.rs", "src/imp/x86.rs", "src/imp/fallback/", "src/imp/float/int.rs", "src/imp/riscv.rs", "src/utils.rs"],
  [("per-ordering instruction selection", "src/imp/atomic128/aarch64.rs, riscv64.rs, powerpc64.rs, s390x.rs, x86_64.rs"), ("sequential-consistency fences around the lock", "src/imp/fallback/mod.rs"), ("success ordering upgraded to cover the failure ordering", "src/utils.rs upgrade_success_ordering")],
  observe=["values read by other threads under a weak memory model", "executed memory accesses and barriers"])

p("C07", "Invalid orderings always panic before any effect; valid ones never do",
  "load with Release or AcqRel, store with Acquire or AcqRel, and compare_exchange, compare_exchange_weak or fetch_update with a Release or AcqRel failure/fetch ordering panic for every type, width and implementation, in debug and release builds, and leave the stored value unchanged and usable. "
  "Every other combination of orderings is accepted by every operation without panicking, including every pair of success and failure orderings where the failure ordering is stronger.",
  ["inputs", "configurations"],
  "All (type, operation, ordering, ordering) combinations with arbitrary values, on all implementations.",
  "The tests check these panics on the host backends for a few types; specialised backends (assembly ones, interrupt-based ones) have their own load/store paths that nothing runs.",
  ["src/utils.rs", "src/imp/core_atomic.rs", "src/imp/atomic128/macros.rs", "src/imp/interrupt/", "src/imp/riscv.rs", "src/lib.rs"],
  [("ordering assertions at the head of each operation", "src/utils.rs assert_*_ordering"), ("bool compare-exchange special case", "src/lib.rs")],
  observe=["panic or return", "value afterwards"])

p("C08", "Atomics have the layout of their value and touch nothing but their own bytes",
  "Each atomic type has the size of its value and an alignment equal to its size, and the value seen through from_ptr, as_ptr, get_mut, into_inner, as_bits and new is always one and the same object representation (a bool is always the byte 0 or 1). "
  "No operation on an atomic reads as its value, or changes, any byte outside it, whatever its address and whatever lies next to it, and no operation changes registers, flags or stack data the caller keeps live.",
  ["inputs", "histories", "configurations"],
  "All types, all placements (every aligned position inside arrays and structures, adjacent atomics of different types, read through raw pointers between operations), all operation sequences.",
  "Tests operate on isolated variables and never look at the neighbouring bytes or at what the assembly leaves in registers.",
  ["src/lib.rs", "src/imp/riscv.rs", "src/imp/core_atomic.rs", "src/imp/atomic128/", "src/imp/x86.rs", "src/utils.rs"],
  [("repr(C, align) with static layout assertions", "src/lib.rs static_assert_layout"), ("sub-word masks", "src/utils.rs create_sub_word_mask_values"), ("saving of the reserved base register", "src/imp/atomic128/x86_64.rs")],
  observe=["bytes around the variable", "raw views"])

p("C09", "Lock-freedom reports are constant, consistent and true",
  "is_lock_free always returns the same result for a type within one process, on every thread and at every time, is true whenever is_always_lock_free is true, and is the same for the signed, unsigned and float types of one width. "
  "When it is true, a thread suspended forever at any point inside an operation never prevents another thread's operation from finishing, and concurrent hardware atomic accesses to the same memory through as_ptr or from_ptr compose atomically with the type's own operations. Operations may wait for each other only when it is false.",
  ["schedules", "configurations", "histories"],
  "All types, all suspension points inside all operations, all CPU feature configurations that run-time detection distinguishes.",
  "Tests print or sample the value; nothing suspends an operation half-way or mixes the atomic with raw accesses, and only one CPU configuration is run.",
  ["src/lib.rs", "src/imp/atomic128/x86_64.rs", "src/imp/atomic128/aarch64.rs", "src/imp/fallback/outline_atomics.rs", "src/imp/detect/common.rs", "src/imp/core_atomic.rs"],
  [("cached detection result shared by all operations", "src/imp/detect/common.rs"), ("function-pointer dispatch per operation", "src/utils.rs ifunc!")],
  observe=["is_lock_free / is_always_lock_free", "completion of operations while another is suspended", "values after mixing with raw atomics"])

p("C10", "On targets without CAS, operations are atomic with respect to interrupts",
  "On single-core targets where atomicity comes from disabling interrupts or from a user-supplied critical section, every read-modify-write reads and writes the variable inside one uninterrupted section, so an interrupt handler that uses the same variable at any moment neither loses updates nor sees partial values. "
  "Each operation restores exactly the interrupt state it found (enabled stays enabled, disabled stays disabled, other status bits untouched), acquires and releases the critical section exactly once in matching pairs, and computes the same values as on other targets.",
  ["schedules", "inputs", "configurations"],
  "All operations on all types, all initial interrupt states, interrupts delivered at every instruction boundary where they are enabled, for the interrupt-disabling and critical-section implementations.",
  "No existing test that runs here compiles these targets at all.",
  ["src/imp/interrupt/mod.rs", "src/imp/interrupt/riscv.rs", "src/imp/interrupt/armv4t.rs", "src/imp/interrupt/armv6m.rs", "src/imp/riscv.rs", "src/imp/arm_linux.rs"],
  [("guard that disables on creation and restores on drop", "src/imp/interrupt/mod.rs guard"), ("status register access", "src/imp/interrupt/{riscv,armv4t,armv6m}.rs")],
  observe=["interrupt-enable state", "critical_section acquire/release calls", "values"])

p("C11", "fetch_update applies its closure to the current value and survives panics",
  "fetch_update calls its closure with the value the variable currently holds, stores the closure's result only if the variable still holds that value, calls the closure again with the newer value otherwise, and returns Ok(previous) exactly when one result was stored and Err(current) when the closure gave None. "
  "The closure may itself use the same variable, any other variable, or panic: no operation is blocked while it runs, a panic leaves the value as the last completed operation left it, and everything keeps working afterwards.",
  ["histories", "inputs", "schedules"],
  "All scripts of closure behaviour (None, Some, interfering writes to the same or a lock-sharing variable, nested fetch_update, panic) for all types and orderings on all implementations.",
  "Tests pass only pure closures without interference.",
  ["src/lib.rs", "src/imp/fallback/mod.rs", "src/imp/core_atomic.rs", "src/imp/atomic128/"],
  [("load + compare_exchange_weak loop", "src/lib.rs fetch_update")],
  observe=["arguments of each closure call", "result", "value"])

p("C12", "All supported architectures compute the same results",
  "A program that uses only the public API gets the same results on every supported architecture and byte order, whichever instructions, CPU extensions, kernel helpers or locks implement the operation there. "
  "This includes double-width operations built from architecture-specific instructions, 8- and 16-bit operations built from wider ones, and values whose halves or bytes all differ.",
  ["programs", "configurations", "inputs"],
  "All single-thread operation sequences on all types, on riscv64, riscv32, arm (v4T, v5TE, v7), powerpc64 big and little endian, s390x, mips, loongarch and others that emulation can run, compared with the reference semantics.",
  "The test machine only compiles and runs x86_64, i686 and aarch64; the other back ends are never even compiled.",
  ["src/imp/atomic128/riscv64.rs", "src/imp/atomic128/powerpc64.rs", "src/imp/atomic128/s390x.rs", "src/imp/atomic64/riscv32.rs", "src/imp/atomic64/arm_linux.rs", "src/imp/arm_linux.rs", "src/imp/riscv.rs", "src/imp/fallback/"],
  [("per-architecture inline assembly, register-pair order", "src/imp/atomic128/*.rs, src/utils.rs U128/Pair"), ("kernel-assisted 64-bit compare-exchange", "src/imp/atomic64/arm_linux.rs")],
  observe=["results of the same generated programs on every architecture"])

p("C13", "Formatting, serialization, conversion and defaults agree with the plain value",
  "Debug (and Pointer for pointers) output of an atomic under any formatting options equals that of the plain value it currently holds, Default equals the plain default (null for pointers), and From, new and into_inner round-trip every value. "
  "Serializing an atomic gives exactly what serializing the plain value gives, deserializing accepts and rejects exactly what the plain value's deserialization does, and a round trip returns the same bits.",
  ["inputs", "configurations"],
  "All types, values and formatting options; all serialized inputs, valid or not.",
  "Tests format and serialize one or two fixed values per type.",
  ["src/utils.rs", "src/lib.rs"],
  [("delegating Debug/Serialize/Deserialize", "src/utils.rs impl_debug_and_serde")],
  observe=["formatted text", "serializer calls", "deserialization results"])

p("C14", "The safe API never causes undefined behaviour or loses pointer provenance",
  "No use of the safe API, and no use of the unsafe constructors within their documented contract, causes a data race, an out-of-bounds, misaligned or uninitialized access, an invalid value or an aliasing violation. "
  "A pointer stored in an AtomicPtr and read back, also after byte offsets, tag-bit operations, failed and successful compare-exchanges and closures, is still valid for exactly the memory the original pointer was valid for.",
  ["histories", "schedules", "programs"],
  "All operation sequences and interleavings of threads communicating through the API, on native, double-width and lock-based implementations.",
  "Undefined behaviour need not change any tested value; provenance is invisible to ordinary execution.",
  ["src/lib.rs", "src/imp/core_atomic.rs", "src/imp/fallback/", "src/imp/atomic128/intrinsics.rs", "src/utils.rs"],
  [("volatile/atomic chunked reads under the sequence lock", "src/imp/fallback/mod.rs"), ("pointer operations via with_addr/map_addr or atomic pointer ops", "src/imp/core_atomic.rs")],
  observe=["Miri diagnostics"])

p("C15", "Run-time CPU detection picks only supported and sufficiently atomic instructions",
  "On every CPU model and operating-system feature report, a program using double-width atomics never executes an instruction the CPU does not support, never relies on a wide load or store the CPU does not guarantee to be atomic, and reports lock-freedom exactly when the needed instructions are available and detected. "
  "All operations of one process use the same mutually compatible implementation from the first call on, whichever operation or thread calls first, and compute the same results on every model.",
  ["configurations", "schedules", "inputs"],
  "All CPU models (vendor, CMPXCHG16B, AVX and OS state support, LSE, LSE2, POWER7/8) and all orders of first calls.",
  "Tests run on the one CPU of the test machine.",
  ["src/imp/detect/", "src/imp/atomic128/x86_64.rs", "src/imp/atomic128/aarch64.rs", "src/imp/atomic128/powerpc64.rs", "src/imp/atomic128/riscv64.rs", "src/utils.rs"],
  [("CPUID / XGETBV / vendor checks", "src/imp/detect/x86_64.rs"), ("hwcap based detection", "src/imp/detect/auxv.rs"), ("resolve once, then cached", "src/imp/detect/common.rs, src/utils.rs ifunc!")],
  observe=["illegal-instruction signals", "instructions executed", "is_lock_free", "values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
