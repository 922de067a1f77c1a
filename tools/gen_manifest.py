#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "random operation sequences against an executable reference model, shrunk to a minimal sequence"
CLAIMS = {
    "C01": (SEQ, "Sampled, not exhaustive: millions of generated sequences per run over all types, operations and orderings on 11 builds (x86_64 dev/release/detection off/no outline/cmpxchg16b/debug assertions, i686, aarch64 LL-SC/LSE/LSE2 with run-time and compile-time selection). Trusts qemu for aarch64."),
    "C02": (SEQ + " on float bit patterns", "Sampled over bit patterns of f32/f64 (f16/f128 on nightly) incl. NaN payloads and subnormals on 13 builds. Sum/difference oracle is the plain operator of the same compiler; everything else is computed from bits."),
    "C12": (SEQ + ", the same programs on 20 emulated architectures", "Sampled. riscv64/32, loongarch64, mips (3), arm v4T/v5TE/v6/v7/thumb, powerpc 32/64 both endians, POWER7/10, s390x (3), aarch64_be under qemu-user; RISC-V without A, with Zabha/Zacas, ARMv6-M, bare ARMv4T/v5TE, AVR, MSP430 in own emulators. Trusts these emulators."),
    "C03": ("generated programs under generated instruction-level schedules (trap-flag stepping) and parallel stress, judged by linearizability search against the model", "x86_64 (cmpxchg16b, AVX, lock fallback, first-call detection) and i686 at every instruction boundary; parallel threads also on aarch64 LL-SC/LSE/LSE2 under qemu. Stepping sees sequentially consistent interleavings only."),
    "C04": ("generated parallel mixes with a known outcome plus generated instruction-level schedules, all widths", "Parallel part depends on what the machine interleaves; stepped part is deterministic. x86_64, i686, aarch64 (qemu)."),
    "C05": ("generated instruction-level schedules on lock-based types incl. lock sharing and a full wrap of the lock's 32-bit stamp", "x86_64 with the fallback forced, i686 128-bit. Preemption at any instruction, bounded total progress. A wrap of the 64-bit stamp is out of reach."),
    "C09": ("generated schedules that suspend a thread for good inside an operation, interop with raw hardware atomics, generated query sequences from fresh processes", "Suspension at any x86 instruction; reports on 33 builds/CPUs."),
    "C06": ("generated pairs of operations executed on every architecture; the accesses and fences each execution performs are checked against the orders its arguments ask for, under that architecture's memory model", "28 builds and CPUs (x86, Arm v4T..v8, RISC-V, Power, z, MIPS, LoongArch). Every type x operation x orderings x outcome of the deep configurations is reached. The oracle is the encoded preserved program order, so it decides more than the runs can show; compiler-level reordering is seen only as it ends up in the code generated for the harness. Litmus shapes and message passing under Miri judge the lock-based types by the language's model."),
    "C07": ("generated operations with generated orderings, judged by the table of accepted orderings and by the object's bytes before and after", "Every type x operation x pair of orderings is reached many times on 38 builds incl. all emulated architectures; debug and release. Bare-metal single-core, critical-section and Zacas backends on 29 emulated firmware images."),
    "C11": ("generated closure scripts (operations on the same and other variables, nesting, None, panics) run against a sequential model, shrunk by leaving actions out", "38 builds; panics on the hosted ones. Concurrent fetch_update is part of C03/C04."),
    "C10": ("generated operations interrupted at generated instruction boundaries by handlers that use the same variable, on emulated single-core machines, judged by linearizability, exact restoration of the interrupt state and a critical-section log; shrunk", "25 firmware images: RISC-V (M/S mode, with and without AMOs), ARMv4T/v5TE/Thumb (IRQ, FIQ), ARMv6-M, AVR, XMEGA, MSP430, critical-section on five of them, RISC-V seq-locks held with interrupts off. Every boundary of short operations, those next to accesses first otherwise. Trusts the emulators in h/emu."),
    "C13": ("generated values, formatting options, failing sinks, serde tokens and JSON texts; every outcome compared with the plain value's", "1008 combinations of formatting options, recording serializer/deserializer that see every call; six builds."),
    "C14": ("generated programs (one thread, threads with non-atomic data, pointers with provenance, ownership transfer) interpreted by Miri under many scheduler seeds, results judged by the model and by order search", "Miri's rules are the oracle for undefined behaviour; inline assembly is outside it (lock fallback, core atomics and intrinsics implementations run), on 8 builds for 6 architectures."),
    "C08": ("generated operation sequences on packed atomics at page edges with every neighbouring byte checked; generated programs with inlined operations compiled twice, on the atomics and on plain memory, and compared; executed accesses of generated operations checked against the variable's bytes", "43 builds and emulated architectures plus 29 firmware images. What an operation does to live registers and flags shows only where the compiler keeps something live there, so programs are generated to keep much live; some flags (MSP430, carry after x86 bts) are hardly ever kept by LLVM."),
    "C15": ("generated CPU models and feature reports (CPUID emulated call by call, qemu CPU models with generated auxiliary vectors, hwprobe answers, kernel helper versions) with generated programs and first-call schedules on them; results against the model, lock-freedom against the model's features, executed instructions against the CPU", "x86_64: every CPUID/XGETBV is answered by a generated model, unlike ones per thread included. aarch64, powerpc64, arm, riscv under emulators, with the newest instructions (LRCPC3, LSE128, Zacas) emulated here. Operating systems other than Linux are represented by their feature words only."),
}
NA = {}
checks = []
for pid, (tech, note) in CLAIMS.items():
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 run.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
have = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "check under construction")} for p in have if p not in CLAIMS]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "run.py <id> runs a check, run.py replay <file> replays a failure; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
