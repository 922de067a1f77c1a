from . import par as parl
from . import detl, fmtl, ful, gpl, isrl, mir, ordl, rep, seq, tf, trl, xint
from .base import *
from .cfgs import BARE, FMT, HOST

BINS = {"host": ["seq", "tf", "wrap", "rep", "par", "ord", "fu", "det"], "cross": ["xseq", "xrep", "xint", "xord", "xfu", "xtr"], "fmt": ["fmt"]}


def bins(names):
    """Those of BINS."""
    w = names.split()
    return {k: [b for b in v if b in w] for k, v in BINS.items()}


def scale(q, t):
    return t if THOROUGH else q


def c01(ck):
    ck.rule(seq.RULE)
    H, B = HOST, BARE
    plan = [
        (H["x64"], seq.INT, scale(800_000, 40_000_000), 8, 1),
        (H["x64-dev"], seq.INT, scale(60_000, 2_000_000), 4, 2),
        (H["x64-detfalse"], seq.INT, scale(300_000, 8_000_000), 4, 3),
        (H["x64-noout"], seq.INT, scale(200_000, 8_000_000), 4, 4),
        (H["x64-cx16"], seq.INT, scale(300_000, 8_000_000), 4, 5),
        (H["x64-da"], seq.INT, scale(200_000, 8_000_000), 4, 6),
        (B["i686"], seq.INT, scale(200_000, 8_000_000), 4, 7),
        (B["a64"], seq.INT, scale(60_000, 1_000_000), 4, 8),
        (B["a64-hwlse"], seq.INT, scale(40_000, 1_000_000), 4, 9),
        (B["a64-hwlse2"], seq.INT, scale(40_000, 1_000_000), 4, 10),
        (B["a64-noout"], seq.INT, scale(40_000, 1_000_000), 4, 11),
        (B["a64-lse"], seq.INT, scale(40_000, 1_000_000), 4, 12),
        (B["a64-lse2"], seq.INT, scale(40_000, 1_000_000), 4, 13),
    ]
    plan += [(B[n], seq.INT if n.startswith("a64-hw") else "I128,U128", scale(30_000, 600_000), 2, 14) for n in ("a64-lse2-rcpc3", "a64-lse2-128", "a64-hwlse2-rcpc3", "a64-hwlse2-128", "a64-hwlse2-128b")]
    ok = ck.build([p[0] for p in plan], bins("seq xseq"))
    seq.run_seq(ck, [p for p in plan if p[0] in ok])


def c02(ck):
    ck.rule(seq.RULE + "; values are bit patterns: zeros of both signs, subnormals, infinities, quiet and signalling NaNs, neighbours, random bits")
    ck.assume.append("sum and difference are compared with the same compiler's plain operators (only the NaN payload is left open); max/min are computed from the bits independently")
    H, B = HOST, BARE
    plan = [
        (H["x64"], "F32,F64", scale(500_000, 30_000_000), 8, 21),
        (H["x64-dev"], "F32,F64", scale(60_000, 2_000_000), 4, 22),
        (H["x64-f16"], seq.FLT, scale(300_000, 10_000_000), 8, 23),
        (H["x64-f16-detfalse"], seq.FLT, scale(200_000, 6_000_000), 8, 24),
        (B["i686"], "F32,F64", scale(100_000, 4_000_000), 4, 26),
        (B["a64"], "F32,F64", scale(60_000, 1_000_000), 4, 27),
        (B["a64-lse"], "F32,F64", scale(60_000, 1_000_000), 4, 28),
        (B["a64-lse2"], "F32,F64", scale(60_000, 1_000_000), 4, 29),
        (B["rv64"], "F32,F64", scale(40_000, 1_000_000), 4, 30),
        (B["rv32"], "F32,F64", scale(40_000, 1_000_000), 2, 31),
        (B["armv5te"], "F32,F64", scale(40_000, 1_000_000), 2, 32),
        (B["s390x"], "F32,F64", scale(40_000, 1_000_000), 2, 33),
        (B["ppc64le"], "F32,F64", scale(40_000, 1_000_000), 2, 34),
    ]
    ok = ck.build([p[0] for p in plan], bins("seq xseq"))
    seq.run_seq(ck, [p for p in plan if p[0] in ok])


FOREIGN = ["rv64", "rv32", "la64", "mips", "mipsel", "mips64", "armv4t", "armv5te", "armv6", "armv7", "thumbv7", "ppc", "ppc64", "ppc64-p7", "ppc64le", "ppc64le-pwr10", "s390x", "s390x-z13", "s390x-z15", "a64be"]
# RISC-V with Zacas runs in our own emulator, which has no debugger's interface
RVZ = ["rv64-hwzacas", "rv32-hwzacas", "rv64-zacas", "rv32-zacas"]


SC = [n for n, f in isrl.FW.items() if f.features.startswith(("sc", "cs"))]
PRIV = [n for n, f in isrl.FW.items() if f.features == "priv"]
ZACAS = [n for n, f in isrl.FW.items() if f.features == "plain"]


def build_fw(ck, names):
    """The firmware images that build; the emulators."""
    res = par([isrl.build_emu] + [isrl.FW[n].build for n in names])
    for r in res:
        if isinstance(r, Exception):
            ck.error(r)
    if isinstance(res[0], Exception):
        return []
    return [n for n, r in zip(names, res[1:]) if not isinstance(r, Exception)]


def slow(n):
    return n.startswith(("avr", "msp430"))


def c10(ck):
    ck.rule(isrl.RULE_ISR)
    ck.assume.append("the emulators of RISC-V, ARMv4T/v5TE/v6-M, AVR and MSP430 in /verif/h/emu execute the instructions these images use as the manuals define them, and take interrupts where the manuals let them (AVR: one instruction after sei, four after a write to SPL on XMEGA; MSP430: GIE changes count one instruction late)")
    t0 = time.time()
    ok = build_fw(ck, SC + PRIV)
    log(f"built {len(ok)} firmware images in {time.time() - t0:.1f}s")
    plan = [(isrl.FW[n], None, "isr", scale(2600 if slow(n) else 7000, 200_000), scale(2 if slow(n) else 1, 4), 1000, scale(60, 1500)) for n in ok]
    plan += [(isrl.FW[n], None, "seq", scale(800 if slow(n) else 2500, 60_000), 1, 1001, scale(30, 900)) for n in ok]
    isrl.run_isr(ck, plan, scale(300, 1800))


def c11(ck):
    ck.rule(ful.RULE_FU)
    H, B = HOST, BARE
    plan = [(H[n], seq.ALL, scale(60_000, 3_000_000), 2, 900) for n in ("x64", "x64-dev", "x64-da", "x64-detfalse", "x64-noout", "x64-cx16", "x64-noavx", "x64-f16", "x64-f16-detfalse", "i686", "i686-dev")]
    plan += [(H[n], seq.ALL, scale(6_000, 300_000), 1, 901) for n in ("a64", "a64-lse", "a64-lse2")]
    plan += [(c, t, n, k, st) for c, t, n, k, st, _ in xplan(list(B), seq.ALL, scale(1600, 60_000), 2, 902, 0)]
    ok = ck.build([p[0] for p in plan], bins("fu xfu"))
    ful.run_fu(ck, [p for p in plan if p[0] in ok])


def c12(ck):
    ck.rule(seq.RULE + "; the same seeds run on every architecture, so every architecture runs the same programs")
    ck.assume.append("qemu's user-mode emulation executes the instructions as the architectures define them")
    plan = [(BARE[n], seq.ALL, scale(60_000, 2_000_000), 3, 40) for n in FOREIGN + RVZ]
    ok = ck.build([p[0] for p in plan], bins("xseq"))
    seq.run_seq(ck, [p for p in plan if p[0] in ok])
    ck.rule("machines without an operating system: " + isrl.RULE_ISR.split("; checked")[0] + " (here without interrupts)")
    fw = build_fw(ck, list(isrl.FW))
    isrl.run_isr(ck, [(isrl.FW[n], None, "seq", scale(1200 if slow(n) else 4000, 100_000), 1, 41, scale(30, 900)) for n in fw])




def xplan(names, tys, n, chunks, stream, secs):
    """The toolchain's own 8- and 16-bit runtime of pre-v6 ARM writes neighbours, so only 32 bits and up there."""
    out = []
    for k in names:
        c = BARE[k]
        t = tys
        if c.name.startswith(("b-armv4t", "b-armv5te")):
            t = ",".join(x for x in t.split(",") if re.sub(r"\D", "", x) not in ("8", "16") and x != "Bool")
        if t:
            out.append((c, t, n, chunks, stream, secs))
    return out


XALL = FOREIGN + ["a64", "a64-noout", "a64-lse", "a64-lse2", "a64-hwlse", "a64-hwlse2"]
TF_ASSUME = "single stepping explores sequentially consistent interleavings of instructions; reorderings by the memory system are C06's and C14's subject"


def c03(ck):
    ck.rule(tf.RULE_TF)
    ck.assume.append(TF_ASSUME)
    H = HOST
    W = "U128,I128"
    m = scale(1, 20)
    sec = scale(40, 1500)
    plan = [
        (H["x64-detfalse"], W, "lin", 24_000 * m, 6, 101, sec),
        (H["x64"], W, "lin", 12_000 * m, 3, 102, sec),
        (H["x64"], W, "mix", 8_000 * m, 2, 103, sec),
        (H["x64-noavx"], W, "lin", 8_000 * m, 2, 104, sec),
        (H["x64-cx16"], W, "lin", 8_000 * m, 2, 105, sec),
        (H["x64-noout"], W, "lin", 4_000 * m, 1, 106, sec),
        (H["i686"], W, "lin", 12_000 * m, 4, 107, sec),
        (H["i686"], "U64,I64", "mix", 8_000 * m, 2, 108, sec),
        (H["x64"], W, "first", 4_000 * m, 2, 109, sec),
    ]
    ck.rule(parl.RULE_PAR)
    k = scale(1, 40)
    big = 10**9
    pplan = [
        (H["x64"], W, 4, 3 * k, big, 110), (H["x64-detfalse"], W, 4, 4 * k, big, 111), (H["x64-noavx"], W, 4, 3 * k, big, 112), (H["x64-cx16"], W, 4, 3 * k, big, 113),
        (H["i686"], "U64,I64,U128,F64", 4, 4 * k, big, 114), (H["a64"], W, 4, 4 * k, big, 115), (H["a64-lse"], W, 4, 4 * k, big, 116), (H["a64-lse2"], W, 4, 4 * k, big, 117),
        (H["x64-f16"], "F128,U128", 4, 3 * k, big, 118),
    ]
    ck.rule(xint.RULE_XINT)
    xp = xplan([n for n in XALL if n.startswith(("a64", "ppc64", "s390x"))], W, scale(1200, 60_000), 2, 120, scale(25, 900)) + xplan(["armv4t", "armv5te", "armv6", "armv7", "thumbv7"], "I64,U64,F64", scale(800, 40_000), 1, 121, scale(25, 900))
    ck.rule(trl.RULE_TR)
    ck.assume.append(trl.ASSUME_ONE)
    tr = [p for n in BARE for p in xplan([n], "I128,U128" if trl.bits(BARE[n]) == 64 else "I64,U64,U128,F64", scale(260 if trl.bits(BARE[n]) == 64 else 520, 6000), 2, 130, "single,lock")]
    ok = ck.build([p[0] for p in plan + pplan + xp + tr], bins("tf par xint xtr"))
    tf.run_tf(ck, [p for p in plan if p[0] in ok])
    xint.run_xint(ck, [p for p in xp if p[0] in ok])
    parl.run_par(ck, [p for p in pplan if p[0] in ok], 2)
    trl.run_trace(ck, [p for p in tr if p[0] in ok])
    m = [("m-x64", "coh", W, 60, 8 * k, 140), ("m-i686", "coh", W, 50, 3 * k, 141), ("m-ppc", "coh", "I64,U64,F64,U128", 50, 3 * k, 142), ("m-x64-c16", "coh", W, 60, 2 * k, 143)]
    mok = mir.build(ck, ["m-x64", "m-x64-c16", "m-i686", "m-ppc"])
    mir.run_mir(ck, [p for p in m if p[0] in mok])


NARROW = "Bool,Ptr0,Ptr1,Ptr24,I8,U8,I16,U16,I32,U32,I64,U64,Isize,Usize,F32,F64"


def c04(ck):
    ck.rule(parl.RULE_PAR)
    ck.rule(tf.RULE_TF)
    ck.assume.append("the parallel part samples the interleavings that this machine (and qemu's threads, for aarch64) happen to produce; the stepped part samples instruction interleavings deliberately")
    H = HOST
    k = scale(1, 40)
    alls = seq.INT + ",F32,F64"
    big = 10**9
    plan = [
        (H["x64"], alls, 8, 5 * k, big, 401), (H["x64"], alls, 3, 5 * k, big, 402),
        (H["x64-detfalse"], alls, 4, 4 * k, big, 403), (H["x64-cx16"], alls, 4, 3 * k, big, 404),
        (H["i686"], alls, 4, 5 * k, big, 405), (H["x64-dev"], alls, 4, 3 * k, big, 406),
        (H["a64"], alls, 3, 8 * k, big, 407), (H["a64-lse"], alls, 3, 6 * k, big, 408), (H["a64-lse2"], alls, 3, 6 * k, big, 409),
        (H["x64-f16"], seq.FLT, 4, 3 * k, big, 410), (H["x64-noavx"], "U128,I128,U8,U16", 4, 3 * k, big, 411),
    ]
    m = scale(1, 25)
    sec = scale(30, 1200)
    tplan = [
        (H["x64"], NARROW, "lin", 16_000 * m, 4, 420, sec),
        (H["i686"], NARROW, "lin", 12_000 * m, 4, 421, sec),
        (H["x64-dev"], NARROW, "lin", 2_000 * m, 2, 422, sec),
    ]
    ck.rule(xint.RULE_XINT)
    xp = xplan(XALL, NARROW, scale(1000, 50_000), 1, 430, scale(25, 900))
    ck.rule(trl.RULE_TR)
    ck.assume.append(trl.ASSUME_ONE)
    tr = [p for n in BARE for p in xplan([n], NARROW, scale(1400 if n in DEEP else 400, 12_000), 2, 431, "single,lock")]
    ok = ck.build([p[0] for p in plan + tplan + xp + tr], bins("tf par xint xtr"))
    tf.run_tf(ck, [p for p in tplan if p[0] in ok])
    xint.run_xint(ck, [p for p in xp if p[0] in ok])
    parl.run_par(ck, [p for p in plan if p[0] in ok], 2)
    trl.run_trace(ck, [p for p in tr if p[0] in ok])


def c05(ck):
    ck.rule(tf.RULE_TF + "; only lock-based types; a program that has not finished after 200,000 instructions in all counts as stuck")
    ck.rule("a wrap case is one load suspended at one instruction (or at two, some stores apart) while 2^31 stores bring the low half of the lock's counter back to what the load saw; non-trivial: the load had not returned")
    ck.assume.append(TF_ASSUME)
    ck.assume.append("a full wrap of the 64-bit counter is out of reach and excluded by the implementation's own documentation")
    H = HOST
    W = "U128,I128"
    m = scale(1, 25)
    sec = scale(35, 1500)
    plan = [
        (H["x64-detfalse"], W, "lock", 30_000 * m, 4, 201, sec),
        (H["x64-noout"], W, "lock", 12_000 * m, 2, 202, sec),
        (H["i686"], W, "lock", 20_000 * m, 3, 203, sec),
        (H["i686-dev"], W, "lock", 4_000 * m, 2, 204, sec),
    ]
    ok = ck.build([p[0] for p in plan] + [H["i686"]], bins("tf wrap"))
    jobs = [(H["i686"], {"writes": 1 << 31, "split": sp}) for sp in ([0, 10 * SEED + 1, 10 * SEED + 2] if not THOROUGH else [0] + [SEED * 1000 + i for i in range(24)])]

    def wrap(cfg, args):
        r = cfg.run("wrap", args, timeout=400)
        st = r.stat()
        if st:
            ck.add(st["cases"], st["distinct"], stores_during_wrap_cases=st["stores"])
            ck.per("i686 wrap", cases=st["cases"])
        f = r.lines("FAIL")
        if f:
            case, desc = fail_parts(f[0])
            ck.violation(f"[{cfg.name}] {desc}", {"engine": "wrap", "cfg": cfg.name, "bin": "wrap", "case": case, "args": args})
        elif r.rc != 0 or not st:
            ck.error(f"{cfg.name}: wrap gave rc {r.rc} (timed out {r.timed}): {r.out[-300:]} {r.err[-300:]}")
    th = []
    if H["i686"] in ok:
        th = [threading.Thread(target=wrap, args=j) for j in jobs[:3]]
        # the low half of the counter wraps while the programs run
        th.append(threading.Thread(target=tf.run_tf, args=(ck, [(H["i686"], W, "lock", 400 * m, 1 if not THOROUGH else 6, 205, sec)]), kwargs={"warm": (1 << 31) - 8}))
    for t in th:
        t.start()
    tf.run_tf(ck, [p for p in plan if p[0] in ok], n=5)
    for t in th:
        t.join()
    par([lambda j=j: wrap(*j) for j in jobs[3:]])


DEEP = ("x64", "a64", "rv64", "i686", "armv7", "s390x", "ppc64le")


def c06(ck):
    ck.rule(trl.RULE_TR)
    ck.assume.append(trl.ASSUME_TR)
    ck.assume.append("a failed SeqCst compare-exchange of native width on PowerPC has no barrier before it because the compiler puts none there; that pair is left out")
    A = NARROW + ",I128,U128"
    k = scale(1, 12)
    plan = []
    for n in BARE:
        deep = n in DEEP
        b64 = trl.bits(BARE[n]) == 64
        plan += xplan([n], "I128,U128" if b64 else "I64,U64,U128,F64", (260 if b64 else 520) * k, 2, 600, "order,lock")
        plan += xplan([n], A, (1560 if deep else 560) * k, 4 if deep else 2, 601, "order,lock")
    ok = ck.build([p[0] for p in plan], bins("xtr"))
    trl.run_trace(ck, [p for p in plan if p[0] in ok])
    X, P = "I128,U128,U64,U8", "I64,U64,F64,U128,U32"
    m = [("m-x64", "lit", X, 100, 10 * k, 610), ("m-x64", "pass", X, 60, 8 * k, 611), ("m-x64", "sc", X, 60, 3 * k, 612), ("m-x64-c16", "lit,pass", X, 60, 3 * k, 613), ("m-i686", "lit", X, 70, 5 * k, 614),
         ("m-i686", "pass", "U128,I128", 50, 3 * k, 615), ("m-ppc", "lit", P, 70, 4 * k, 616), ("m-ppc", "pass", P, 50, 4 * k, 617)]
    mok = mir.build(ck, ["m-x64", "m-x64-c16", "m-i686", "m-ppc"])
    mir.run_mir(ck, [p for p in m if p[0] in mok])


def c14(ck):
    k = scale(1, 30)
    W = "I128,U128"
    plan = [
        ("m-x64", "seq", None, 400, 4 * k, 1400), ("m-x64", "ptr", None, 120, 4 * k, 1401), ("m-x64", "own", None, 60, 6 * k, 1402), ("m-x64", "pass", None, 60, 7 * k, 1403),
        ("m-x64", "coh", W, 60, 6 * k, 1404), ("m-x64", "pass", W, 60, 7 * k, 1405), ("m-x64", "sc,lit", None, 60, 3 * k, 1406), ("m-x64", "coh", None, 60, 4 * k, 1407),
        ("m-x64-c16", "seq", W, 300, 2 * k, 1410), ("m-x64-c16", "pass", W, 60, 3 * k, 1411), ("m-x64-c16", "coh", W, 60, 2 * k, 1412),
        ("m-x64-f16", "seq", "F16,F128,F32,F64", 300, 2 * k, 1415), ("m-x64-f16", "pass", "F16,F128", 60, 2 * k, 1416),
        ("m-i686", "seq", None, 300, 2 * k, 1420), ("m-i686", "ptr", None, 100, 2 * k, 1421), ("m-i686", "coh", W, 50, 4 * k, 1422), ("m-i686", "pass", W, 50, 4 * k, 1423),
        ("m-ppc", "seq", None, 300, 2 * k, 1430), ("m-ppc", "ptr", None, 80, 2 * k, 1431), ("m-ppc", "coh", "I64,U64,F64,U128", 50, 4 * k, 1432), ("m-ppc", "pass", "I64,U64,F64,U128", 50, 4 * k, 1433),
        ("m-a64", "seq", None, 200, 1 * k, 1440), ("m-a64", "pass,coh", W, 50, 2 * k, 1441), ("m-s390x", "seq", None, 200, 1 * k, 1442), ("m-s390x", "pass,coh", W, 50, 2 * k, 1443),
        ("m-rv64", "seq", None, 200, 1 * k, 1444), ("m-rv64", "pass,coh", W, 50, 2 * k, 1445), ("m-rv64", "pass,coh", "Bool,I8,U8,I16,U16", 50, 2 * k, 1446), ("m-s390x", "ptr", None, 60, 1 * k, 1447),
    ]
    ok = mir.build(ck, list(mir.MIR))
    mir.run_mir(ck, [p for p in plan if p[0] in ok])


def c07(ck):
    ck.rule(ordl.RULE_ORD)
    H, B = HOST, BARE
    plan = [(H[n], seq.ALL, scale(60_000, 3_000_000), 2, 700) for n in ("x64", "x64-dev", "x64-da", "x64-detfalse", "x64-noout", "x64-cx16", "x64-noavx", "x64-f16", "x64-f16-detfalse", "i686", "i686-dev")]
    plan += [(H[n], seq.ALL, scale(10_000, 500_000), 1, 701) for n in ("a64", "a64-lse", "a64-lse2")]
    plan += [(B[n], seq.ALL, scale(1600, 60_000), 2, 702) for n in B]
    ok = ck.build([p[0] for p in plan], bins("ord xord"))
    ordl.run_ord(ck, [p for p in plan if p[0] in ok])
    names = list(isrl.FW)
    fw = build_fw(ck, names)
    isrl.run_isr(ck, [(isrl.FW[n], None, "ord", scale(6000, 200_000), 1, 703, scale(30, 900)) for n in fw])


GP_DEEP = ("h-x64", "h-x64-cx16", "h-i686", "x64", "a64", "a64-lse2", "s390x", "ppc64", "rv64", "rv32", "armv7")


def gp_plan():
    """(configuration, short name, programs, inputs, batches) for everything that generated programs are built for."""
    n, b = scale(100, 400), scale(1, 25)
    plan = [(c, k, 48 if "h-" + k in GP_DEEP else 24, n, b) for k, c in HOST.items()]
    plan += [(c, k, 48 if k in GP_DEEP else 24, n, b) for k, c in BARE.items()]
    # little memory, slow emulators
    plan += [(f, k, 5 if slow(k) else 20, scale(30, 60), b) for k, f in isrl.FW.items()]
    return plan


def c08(ck):
    ck.rule("a sequence case is as in C01, the variable anywhere between guard bytes, in two of four cases at the first or last bytes of a page with inaccessible neighbours; failures are: another size or alignment, bytes outside the variable changed, an access that faults, "
            "and get_mut, into_inner or raw accesses showing another value than the operations (a bool that is not the byte 0 or 1); distinct and non-trivial as there: at least two operations changed the stored value")
    ck.rule(gpl.RULE_GP)
    ck.rule("a traced case is two generated operations on two small or wide variables; every access the executed instructions make within 64 bytes of either variable must be inside the operation's own variable, or read, or atomically replace, the aligned word around it; non-trivial: at least one such access was seen")
    ck.assume.append("the compiler's own code between the operations is right; a difference between the two builds of a program is put down to the operations")
    plan = [(HOST[n], seq.ALL, scale(60_000, 3_000_000), 2, 800) for n in HOST]
    plan += [(c, t, n, k, st) for c, t, n, k, st, _ in xplan(list(BARE), seq.ALL, scale(4000, 200_000), 2, 801, 0)]
    tr = [p for n in BARE for p in xplan([n], seq.INT + ",F32,F64", scale(200, 6000), 2, 810, "foot")]
    ok = ck.build([p[0] for p in plan + tr], bins("seq xseq xtr"))
    seq.run_seq(ck, [p for p in plan if p[0] in ok], "foot")
    trl.run_trace(ck, [p for p in tr if p[0] in ok])
    isrl.build_emu()
    log("generated programs")
    gpl.run_gp(ck, [p for p in gp_plan() if p[0] in ok or isinstance(p[0], isrl.Fw)])


def c09(ck):
    ck.rule(tf.RULE_TF + "; mode free: one thread is suspended for good at a generated instruction inside an operation of a type whose is_lock_free() is true, and all others must finish; mode mix: some operations are the harness's own lock-prefixed instructions on as_ptr()")
    ck.rule("a report case is a generated sequence of is_lock_free/is_always_lock_free queries and operations of generated types from a fresh process on 1..3 threads; non-trivial: at least two types were queried both before and after an operation")
    ck.assume.append(TF_ASSUME)
    H = HOST
    small = "I8,U8,Bool,I16,U16,I32,U32,F32,I64,U64,F64,Ptr1,Isize,Usize"
    al = small + ",I128,U128"
    m = scale(1, 25)
    sec = scale(35, 1500)
    plan = [
        (H["x64"], al, "free", 12_000 * m, 2, 301, sec),
        (H["x64"], "U128,I128", "free", 10_000 * m, 2, 302, sec),
        (H["x64-cx16"], al, "free", 6_000 * m, 1, 303, sec),
        (H["x64-noavx"], al, "free", 4_000 * m, 1, 304, sec),
        (H["i686"], small, "free", 10_000 * m, 2, 305, sec),
        (H["x64-detfalse"], small, "free", 6_000 * m, 1, 306, sec),
        (H["x64"], al, "mix", 12_000 * m, 2, 307, sec),
        (H["x64-cx16"], al, "mix", 6_000 * m, 1, 308, sec),
        (H["i686"], small, "mix", 8_000 * m, 2, 309, sec),
        (H["x64-f16"], "F16,F32,F64,F128", "free", 6_000 * m, 1, 310, sec),
    ]
    ck.rule(xint.RULE_XINT)
    xp = xplan(XALL, seq.ALL, scale(400, 30_000), 1, 330, scale(25, 900))
    hosts = [H[n] for n in ("x64", "x64-detfalse", "x64-cx16", "x64-noavx", "x64-noout", "x64-f16", "i686")]
    bares = [BARE[n] for n in BARE]
    ok = ck.build([p[0] for p in plan] + hosts + bares, bins("tf rep xint xrep"))
    tf.run_tf(ck, [p for p in plan if p[0] in ok])
    xint.run_xint(ck, [p for p in xp if p[0] in ok])
    rep.run_rep(ck, [(c, 400 * m, 320) for c in hosts if c in ok], [(c, scale(12, 300), 321) for c in bares if c in ok])


def c13(ck):
    ck.rule(fmtl.RULE_FMT)
    plan = [(c, seq.ALL, scale(100_000 if n == "a64" else 2_000_000, 60_000_000), 4, 1300) for n, c in FMT.items()]
    ok = ck.build([p[0] for p in plan], bins("fmt"))
    fmtl.run_fmt(ck, [p for p in plan if p[0] in ok])


def c15(ck):
    ck.rule(detl.RULE_DET)
    ck.rule(detl.RULE_MOD)
    ck.assume.append(TF_ASSUME)
    ck.assume.append(trl.ASSUME_ONE)
    ck.assume.append("a 16-byte AVX move is indivisible on every CPU that reports AVX (as the code documents for Intel, AMD and Zhaoxin); the machine running the check has AVX and cmpxchg16b; qemu refuses the instructions a CPU model lacks")
    H = HOST
    sec = scale(30, 1500)
    m = scale(1, 40)
    plan = [(H["x64"], 10_000 * m, 3, 1510, sec), (H["x64-dev"], 2_000 * m, 1, 1511, sec), (H["x64-noout"], 2_000 * m, 1, 1512, sec), (H["x64-detfalse"], 2_000 * m, 1, 1513, sec), (H["x64-cx16"], 3_000 * m, 1, 1514, sec),
            (H["x64-cx16avx"], 1_500 * m, 1, 1515, sec), (H["x64-f16"], 3_000 * m, 1, 1516, sec)]
    B = list(BARE)
    ok = ck.build([p[0] for p in plan] + [BARE[n] for n in B], bins("det xseq xrep xtr"))
    detl.run_det(ck, [p for p in plan if p[0] in ok])
    detl.run_models(ck, 0, scale(280, 12_000), 3, 30)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15}


def all_cfgs():
    return {c.name: c for c in list(HOST.values()) + list(FMT.values()) + list(BARE.values())}


def setup():
    """Builds everything once, so that the checks only rebuild what changed."""
    ck = Check("setup")
    xint.build_tools()
    ck.build(list(HOST.values()) + list(FMT.values()) + list(BARE.values()), BINS)
    build_fw(ck, list(isrl.FW))
    mir.build(ck, list(mir.MIR))
    gpl.prebuild(ck, gp_plan())
    return 2 if ck.errors else 0


def replay(d):
    if d["engine"] == "gp":
        isrl.build_emu()
        return gpl.replay(d, all_cfgs())
    if d["engine"] == "model":
        xint.build_tools()
        return detl.replay_model(d)
    if d["engine"] == "miri":
        return mir.replay(d)
    if d["engine"] == "isr":
        isrl.build_emu()
        fw = isrl.FW[d["cfg"][2:]]
        fw.build()
        r = fw.run({"replay": d["case"]})
        print(r.out, r.err, "exit", r.rc)
        return 0 if r.rc == 0 else 1
    cfg = all_cfgs()[d["cfg"]]
    cfg.build(BINS[cfg.crate])
    if d["engine"] == "xint":
        xint.build_tools()
        r = xint.drive(cfg, d["input"], d["index"], 1, 60, d["at"])
        print(r.out)
        e = xint.outcome(r)
        print("->", e)
        return 1 if e else 0
    if d["engine"] == "trace":
        xint.build_tools()
        r = trl.trace(cfg, d["input"], d["reqs"], show="1")
        print(r.out)
        return 1 if trl.outcome(r) else 0
    if d["engine"] in ("wrap", "rep", "fu") or d["engine"] == "fmt" and not d["case"]:
        r = cfg.run(d["bin"], d["args"])
        print(r.out, r.err, "exit", r.rc)
        return 0 if r.rc == 0 else 1
    if d["engine"] in ("ord", "fmt") and not cfg.bare and d["case"]:
        r = cfg.run(d["bin"], {"replay": d["case"]})
        print(r.out, r.err, "exit", r.rc)
        return 0 if r.rc == 0 else 1
    r = cfg.run(d["bin"], {"replay": 1} if cfg.bare else {}, body=d["case"], cpu=90)
    print(r.out, r.err, "exit", r.rc)
    return 0 if r.rc == 0 else 1
