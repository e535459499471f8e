"""One function per property: which code is built, in which configurations, and how many cases are drawn."""
import json, os, random, subprocess
import primes, vlib, c12
from vlib import *

QUICK, THOROUGH = "quick", "thorough"

def fields(check, quick_named, limbs_quick, both=(), edges=0):
    """Primes of a field check: named ones, and primes generated from the seed for the given limb counts: with a spare
    top bit (the code generator optimizes those) or without (limb counts in `both`: one of each), and `edges` primes
    whose top word lies at the border between the two."""
    rng = random.Random("fields-%s-%s-%s" % (check.pid, check.tier, SEED))
    if check.tier == QUICK:
        names, limbs = quick_named, [x for l in limbs_quick for x in ([(l, False), (l, True)] if l in both else [(l, rng.random() < 0.5)])]
    else:
        names, limbs, edges = list(primes.NAMED), [(l, c) for l in range(1, 13) for c in (False, True)], 2 * len(primes.EDGE_TOPS)
    out = [(n, primes.NAMED[n]) for n in names]
    for l, consensys in limbs:
        bits = 64 * l - rng.choice([2, 3, 5, 20, 40, 62] if l > 1 else [1]) if consensys else 64 * l - rng.choice([0, 0, 0, 1])
        if l == 1:
            bits = 63 if consensys else 64
        out.append(("p%dx64_%db" % (l, bits), primes.gen_prime(rng, bits)))
    for i in range(edges):
        top, low = primes.EDGE_TOPS[i % len(primes.EDGE_TOPS)], primes.EDGE_LOWS[i % len(primes.EDGE_LOWS)]
        l = rng.choice((2, 3, 4, 6, 7, 8, 10, 12))
        out.append(("p%dx64_top%x" % (l, top), primes.gen_top(rng, l, top)))
        l, spare = rng.choice((2, 3, 4, 6, 8, 9)), rng.random() < 0.5
        out.append(("p%dx64_low%x_%d" % (l, low, spare), primes.gen_low(rng, l, low, spare)))
    lim = int(os.environ.get("VERIF_LIMIT", "0"))          # mutation runs: a few fields first
    return out if not lim else out[:1] + out[2:3] + out[len(out) - lim + 2:]

CORE = ["bn128r", "secp256k1q", "goldilocks", "p384"]

def tagged(suite, quick_cases, thorough_cases, source="h_field.cpp"):
    def f(c):
        cfg = fields(c, CORE + ["mnt6753q"], [2, 3, 5, 7, 8, 9, 11], both=(2, 3, 7), edges=4)
        quick = c.tier == QUICK
        field_check(c, source, cfg, BACKENDS, suite, quick_cases if quick else thorough_cases, 12 if quick else 150)
    return f

FIELD_RULE = ("A case is one call with freshly drawn operands (value and representation); it is non-trivial when every operand's value is neither 0 nor 1 "
              "(so the result depends on the arithmetic and not on an identity), and distinct by the draws that produced it.")

CHECKS, RULES, NOTES = {}, {}, {}
def register(pid, rule):
    def deco(fn):
        CHECKS[pid] = fn
        RULES[pid] = rule
        return fn
    return deco

register("C01", FIELD_RULE)(tagged("C01/", 60000, 1500000))
register("C02", FIELD_RULE)(tagged("C02/", 30000, 500000))
register("C03", FIELD_RULE)(tagged("C03/", 80000, 1500000))
register("C04", FIELD_RULE)(tagged("C04/", 80000, 1500000))
register("C05", "A case is one conversion of a freshly drawn value (text to element, element to text, representation change, toInt, isTrue, array copy); non-trivial when the value is neither 0 nor 1 (array copies: at least two elements), and distinct by the draws that produced it.")(tagged("C05/", 60000, 1200000, "h_text.cpp"))
register("C06", "A case is one history: five slots with random values and representations and up to 24 random operations, each checked against integers; non-trivial when at least three operations had an operand other than 0 and 1, and distinct by its draws.")(tagged("C06/", 6000, 150000, "h_text.cpp"))

ALL = tuple(range(1, 13))

def rawcheck(suite, backends, quick_cases, thorough_cases, quick_fields, limbs, both=(), edges=0):
    def f(c):
        cfg = fields(c, quick_fields, limbs, both, edges)
        quick = c.tier == QUICK
        field_check(c, "h_raw.cpp", cfg, backends, suite, quick_cases if quick else thorough_cases, 12 if quick else 150)
    return f

RAW_RULE = "A case is one call on freshly drawn operands with a drawn aliasing of result and operands; non-trivial when no operand is 0 or 1, and distinct by the draws that produced it."
register("C07", RAW_RULE)(rawcheck("C07/", ("asm", "gen"), 100000, 2000000, CORE + ["mnt6753q"], ALL[1:], ALL, 6))
register("C08", "A case is one conversion (text in a drawn radix, integer, bytes), inversion, division or power on freshly drawn values; non-trivial when they are neither 0 nor 1, and distinct by the draws that produced it.")(rawcheck("C08/", BACKENDS, 20000, 400000, CORE + ["mnt6753q"], [2, 3, 5, 7, 9]))
register("C11", RAW_RULE)(rawcheck("C11/", ("arm",), 60000, 1000000, CORE + ["mnt6753q"], ALL, ALL, 6))

@register("C09", "A case is one call with each object against an unmapped page, operands read-only, callee-saved registers and a caller frame planted and compared afterwards, the other registers, the result and the stack below filled with junk; every case is non-trivial (the call is observed whatever its operands), and distinct by its draws.")
def c09(c):
    quick = c.tier == QUICK
    field_check(c, "h_abi.cpp", fields(c, CORE + ["mnt6753q"], ALL[1:], both=(2, 7, 8, 9, 12)), ("asm", "gen"), "C09/", 60000 if quick else 1000000, 12 if quick else 150)

@register("C10", "A case is one operation (or a history of up to 28, or every raw/class operation) run on the assembly and on the portable build of the same field in the same program with the same operands; non-trivial when no operand is 0 or 1 (a history: at least two operations), and distinct by its draws.")
def c10(c):
    quick = c.tier == QUICK
    cfg = fields(c, CORE + ["mnt6753q", "bls381q"], [1, 2, 3, 5, 7, 8, 9, 11], both=(3, 7), edges=4)
    with Scratch("C10") as tmp:
        def one(n, q):
            d = os.path.join(tmp, n)
            os.makedirs(d)
            return dict(binary=build_agree(d, q), config=n, only="C10/", cases=80000 if quick else 1500000, budget=12 if quick else 150, meta=dict(agree=True, prime=str(q)))
        jobs = []
        for (n, q), j in zip(cfg, parallel([lambda a=a: guarded(lambda: one(*a)) for a in cfg])):
            if isinstance(j, BuildError):
                build_failed(c, n, j, dict(agree=True, prime=str(q)))
            else:
                jobs.append(j)
        c.configs = [j["config"] for j in jobs]
        harness_jobs(c, jobs)

register("C12", "A case is two primes and two names with drawn ways of passing them and drawn output options; it generates both fields in one process (one of them repeatedly and concurrently), runs the command line, and for the deep cases builds, links and runs programs with both fields. Every case is non-trivial; distinct by primes and names.")(c12.check)

OMP = ["-fopenmp"]
TSAN = ["-fsanitize=thread", "-g"]
ASAN = ["-fsanitize=address", "-g"]
ASAN_ENV = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=67:allocator_may_return_null=1")
TSAN_ENV = dict(TSAN_OPTIONS="halt_on_error=1 exitcode=66")

def asan(x, cases, **kw):
    """The same configuration with every heap block and local array fenced."""
    return dict(x, **dict(dict(backend="gen", tag="asan" + kw.get("label", ""), extra=ASAN + kw.pop("more", []), env=dict(ASAN_ENV, **kw.pop("env", {})), probe=True, cases=cases), **kw))

EXT = ["bn128q", "secp256k1q", "goldilocks", "p384"]

def ext_fields(c, limbs, named=EXT, n=None):
    return [dict(name=n, q=q, backend=b) for n, q in fields(c, named, limbs) for b in ("asm", "gen")]

@register("C13", "A case is one operation of the quadratic extension for a drawn non-residue (-1, 0, 1, small or any), drawn operands and a drawn aliasing; non-trivial when no operand is 0 or 1, and distinct by its draws.")
def c13(c):
    quick = c.tier == QUICK
    ext_check(c, "h_f2.cpp", ext_fields(c, [2, 3, 5]), "C13/", 60000 if quick else 1500000, 12 if quick else 150)

@register("C14", "A case is one operation of the degree 6 or degree 12 extension on drawn elements (base field, sparse, subfield, dense) and a drawn aliasing; non-trivial when no operand is 0 or 1, and distinct by its draws.")
def c14(c):
    quick = c.tier == QUICK
    q = primes.NAMED["bn128q"]
    ext_check(c, "h_tower.cpp", [dict(name="bn128q", q=q, backend=b, tag=o, opt=o) for b in ("asm", "gen") for o in ("-O1", "-O2")], "C14/", 200000 if quick else 4000000, 20 if quick else 240)

def curve_check(suite, cases_q, cases_t):
    def f(c):
        quick = c.tier == QUICK
        cfg = ext_fields(c, [2, 3] if quick else [])
        for x in cfg:
            if x["name"] == "bn128q":
                x["defs"] = ['CURVE_ORDER="%x"' % primes.NAMED["bn128r"]]
        cfg.append(dict(cfg[0], backend="gen", tag="count", defs=cfg[0].get("defs", []) + ["COUNT_OPS"]))     # the build that counts operations
        cfg.append(asan(cfg[0], (cases_q if quick else cases_t) // 4))
        ext_check(c, "h_curve.cpp", cfg, suite, cases_q if quick else cases_t, 12 if quick else 150)
    return f

register("C15", "A case is one operation (or a history of up to 16) on a drawn curve (a = 0, 1, -1, small or any; prime field or quadratic extension) with drawn points and relations between them, projective scalings, overload and aliasing; non-trivial when no operand is the identity (a history: at least two results that are not), and distinct by its draws.")(curve_check("C15/", 40000, 800000))
register("C16", "A case is one scalar multiplication (drawn curve, point, base kind, scalar length and bit pattern) or one NAF recoding; non-trivial when the point is not the identity and the scalar is above 1, and distinct by its draws.")(curve_check("C16/", 12000, 250000))


@register("C17", "A case is one to three multi-exponentiations on one object: drawn curve, count, bases (with identities, equal and opposite points), scalars, scalar length, thread count and (columns) lengths; non-trivial when at least two terms are not the identity, and distinct by its draws.")
def c17(c):
    quick = c.tier == QUICK
    base = ext_fields(c, [2, 3] if quick else [])
    cfg = []
    for i, x in enumerate(base):
        omp = dict(x, tag="omp", defs=["USE_OPENMP"], extra=OMP)
        for n in ((1, 4) if quick and i % 2 else (2, 8) if quick else (1, 2, 3, 4, 8, 13)):
            cfg.append(dict(omp, env=dict(OMP_NUM_THREADS=str(n), OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false"), label=" %d threads" % n))
        if x["backend"] == "asm" or not quick:
            cfg.append(dict(x, tag="serial"))
    cfg.append(asan(base[0], 1500 if quick else 30000, env=dict(OMP_NUM_THREADS="2", OMP_WAIT_POLICY="passive"), more=OMP, defs=["USE_OPENMP"]))
    cfg.append(asan(base[0], 1500 if quick else 30000, tag="asanserial"))
    for b, n in (("asm", 3), ("gen", 8)):             # windows of every size need many points
        cfg.append(dict(base[0], backend=b, tag="large", defs=["USE_OPENMP", "LARGE=17"], extra=OMP, opt="-O2", env=dict(OMP_NUM_THREADS=str(n), OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false"), label=" many points, %d threads" % n, cases=60 if quick else 3000, budget=20 if quick else 200))
    ext_check(c, "h_msm.cpp", cfg, "C17/", 6000 if quick else 120000, 5 if quick else 60)

@register("C18", "A case is one to three MSMs on one object: drawn curve, count, bases (with identities, equal and opposite points), scalars and scalar length, under a pool of the configured size; non-trivial when at least two terms are not the identity, and distinct by its draws.")
def c18(c):
    quick = c.tier == QUICK
    base = ext_fields(c, [2, 3] if quick else [])
    cfg = []
    pools, ks = (1, 2, 3, 5, 8, 16), (2, 3, 4, 5, 7, 8, 11, 16)
    for i, x in enumerate(base):
        for n in (pools[i % 6], pools[(i + 3) % 6]) if quick else pools:
            cfg.append(dict(x, tag="auto", env=dict(PBT_NPROCS=str(n)), label=" pool of %d" % n, unstable=n > 1))
        for k in (ks[i % 8],) if quick else ks:
            cfg.append(dict(x, tag="k%d" % k, defs=["MSM_BITS_PER_CHUNK=%d" % k] + (["BIG=100"] if k > 8 else []), env=dict(PBT_NPROCS=str(pools[(i + k) % 6])), label=" pool of %d" % pools[(i + k) % 6]))
    cfg.append(asan(base[0], 1500 if quick else 30000, env=dict(PBT_NPROCS="3")))
    for b, p in (("asm", 3), ("gen", 8)):
        cfg.append(dict(base[0], backend=b, tag="large", defs=["LARGE=15"], opt="-O2", env=dict(PBT_NPROCS=str(p)), label=" many points, pool of %d" % p, cases=80 if quick else 3000, budget=20 if quick else 200))
    for p in (2, 5):
        cfg.append(dict(base[0], backend="gen", tag="tsan", extra=TSAN, env=dict(TSAN_ENV, PBT_NPROCS=str(p)), label=" pool of %d" % p, cases=300 if quick else 6000, unstable=True, probe=True, defs=["BIG=200"]))
    ext_check(c, "h_msm.cpp", cfg, "C18/", 6000 if quick else 120000, 5 if quick else 60)

@register("C19", "A case is the root table of one drawn domain, one limit, or one to three transforms of drawn sizes and contents with one FFT object; non-trivial when a transform has more than one element (a limit: always), and distinct by its draws.")
def c19(c):
    quick = c.tier == QUICK
    rng = random.Random("fft-%s-%s" % (c.tier, SEED))
    fs = [("bn128r", primes.NAMED["bn128r"]), ("goldilocks", primes.NAMED["goldilocks"]), ("secp256k1q", primes.NAMED["secp256k1q"])]
    shapes = [(127, 6), (192, 12)] if quick else [(64, 20), (63, 5), (127, 1), (128, 2), (190, 3), (256, 12), (320, 9), (384, 30), (753, 15)]
    fs += [("p%d_adic%d" % x, primes.gen_adic(rng, *x)) for x in shapes]
    if not quick:
        fs += [(n, primes.NAMED[n]) for n in ("bls381r", "mnt6753q", "ed25519", "m127", "p384")]
    pools = (1, 2, 3, 5, 7, 8, 16)
    cfg = []
    for i, (n, q) in enumerate(fs):
        for b in ("asm", "gen"):
            for p in (pools[i % 7], pools[(i + 3) % 7], pools[(i + 5) % 7]) if quick else pools:
                cfg.append(dict(name=n, q=q, backend=b, env=dict(PBT_NPROCS=str(p)), label=" pool of %d" % p, defs=[] if quick else ["MAXPOW=15"]))
    for n, q in fs[1:2] if quick else fs[:3]:
        for p in (2, 4, 7):
            cfg.append(dict(name=n, q=q, backend="gen", tag="tsan", extra=TSAN, env=dict(TSAN_ENV, PBT_NPROCS=str(p)), label=" pool of %d" % p, cases=300 if quick else 6000, unstable=True, probe=True, defs=["MAXPOW=9"]))
    for i, (n, q) in enumerate(fs[:2] if quick else fs):
        cfg.append(asan(dict(name=n, q=q), 1000 if quick else 20000, env=dict(PBT_NPROCS=str(pools[(i + 1) % 7]), ASAN_OPTIONS=ASAN_ENV["ASAN_OPTIONS"] + ":alloc_dealloc_mismatch=0"), defs=["MAXPOW=9"]))
    for (n, q), b, p in ((fs[0], "asm", 3), (fs[0], "gen", 8)) + (() if quick else ((fs[1], "asm", 5), (fs[2], "asm", 2))):
        cfg.append(dict(name=n, q=q, backend=b, tag="large", defs=["LARGE", "MAXPOW=%d" % (17 if quick else 19)], opt="-O2", env=dict(PBT_NPROCS=str(p)), label=" large domains, pool of %d" % p, cases=150 if quick else 5000, budget=20 if quick else 200))
    ext_check(c, "h_fft.cpp", cfg, "C19/", 3000 if quick else 60000, 5 if quick else 60)

@register("C20", "A case is up to three thread pools, each created, used for up to five calls and destroyed (or two at a time, or many calls on the default pool), with a drawn schedule of the synchronisation calls under the controlled scheduler; or one division of work or logarithm.  Non-trivial when a call runs on a pool of more than one thread (arithmetic: arguments above 1), and distinct by its draws, the schedule included.")
def c20(c):
    quick = c.tier == QUICK
    cfg = [dict(tag="controlled", label=" %d" % p, env=dict(PBT_NPROCS=str(p))) for p in ((1, 2, 3, 5) if quick else (1, 2, 3, 4, 5, 8))]
    cfg += [dict(tag="free", label=" %d" % p, defs=["FREE"], env=dict(PBT_NPROCS=str(p)), unstable=True) for p in ((0, 3, 8) if quick else (0, 1, 2, 3, 8, 16))]
    cfg += [dict(tag="tsan", label=" %d" % p, defs=["FREE"], extra=TSAN, env=dict(TSAN_ENV, PBT_NPROCS=str(p)), unstable=True, probe=True) for p in ((2, 6) if quick else (1, 2, 4, 16))]
    plain_check(c, "h_pool.cpp", ["misc.cpp"], cfg, "C20/", 25000 if quick else 800000, 14 if quick else 200)

BIN = ["binfile_utils.cpp", "zkey_utils.cpp", "wtns_utils.cpp"]
def bincheck(suite, q, t):
    def f(c):
        n = q if c.tier == QUICK else t
        asan = ["-fopenmp", "-fsanitize=address", "-g"]
        cfg = [dict(tag="plain%d" % k, label=" %d threads" % k, extra=["-fopenmp"], env=dict(OMP_NUM_THREADS=str(k)), cases=n) for k in (1, 4)]
        cfg += [dict(tag="asan%d" % k, label=" %d threads" % k, extra=asan, env=dict(ASAN_ENV, OMP_NUM_THREADS=str(k)), probe=True, cases=n // 2) for k in (1, 2, 6)]
        cfg.append(dict(tag="huge", defs=["HUGE_FILES"], extra=["-fopenmp"], env=dict(OMP_NUM_THREADS="4"), cases=2000 if c.tier == QUICK else 100000))
        plain_check(c, "h_bin.cpp", BIN, cfg, suite, n, 12 if c.tier == QUICK else 150, incs=["shims"])
    return f

register("C21", "A case is one generated file, well formed (with a reading session of up to 30 calls) or damaged (truncated, lengths, counts or bytes changed), opened from memory or from disk; non-trivial when something is read or the file is damaged or rejected, and distinct by its draws.")(bincheck("C21/", 40000, 1500000))
register("C22", "A case is one generated zkey or wtns file, well formed or with one fault, whose header is loaded; every case is non-trivial, and distinct by its draws.")(bincheck("C22/", 40000, 1500000))

@register("C23", "A case is one text, written from a drawn tree of components (or bracket by bracket, or from an extension element or a curve) with drawn white space and extra parentheses, split or read; non-trivial when it has a comma or a parenthesis (elements: when it is not zero), and distinct by its draws.")
def c23(c):
    quick = c.tier == QUICK
    plain_check(c, "h_split.cpp", ["splitparstr.cpp"], [dict(tag="plain"), dict(tag="asan", extra=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"], env=ASAN_ENV, probe=True)], "C23/", 150000 if quick else 4000000, 12 if quick else 200)
    q = primes.NAMED["bn128q"]
    ext_check(c, "h_text2.cpp", [dict(name="bn128q", q=q, backend=b) for b in ("asm", "gen")], "C23/", 40000 if quick else 800000, 10 if quick else 150)

@register("C24", "A case is two to six threads with lists of operations (the same short sequence on all of them, or mixed) over shared unchanging operands, repeated up to 400 times; non-trivial when at least two threads and two operations take part, and distinct by its draws.")
def c24(c):
    quick = c.tier == QUICK
    cfg = []
    more = ["-I" + os.path.join(CPP, "shims")] + [os.path.join(REPO, "c", x) for x in BIN] + ["-Wl,--no-as-needed", "-lgomp"]      # libgomp for binfile_utils.cpp only
    for n, q in fields(c, EXT, [2]):
        defs = ["TOWER"] if n == "bn128q" else []
        for b in ("asm", "gen"):
            cfg.append(dict(name=n, q=q, backend=b, defs=defs, extra=more, unstable=True, cases=20000 if quick else 400000))
        if not quick or n in ("bn128q", "goldilocks"):
            cfg.append(dict(name=n, q=q, backend="gen", tag="tsan", extra=TSAN + more, env=dict(TSAN_ENV), defs=defs + ["FEW=3"], unstable=True, probe=True, cases=20000 if quick else 400000))
    ext_check(c, "h_threads.cpp", cfg, "C24/", 0, 14 if quick else 150, jobs=3)

@register("C25", "A case is one use of an engine (the global one, the namespace's objects, one of its own, or one of several of which the others are destroyed): its constants and group order, the group over the scalar field, a polynomial commitment through every summation, or one operation of its degree 6 or 12 field; non-trivial when the scalars or operands are neither 0 nor 1, and distinct by its draws.")
def c25(c):
    quick = c.tier == QUICK
    cfg, pools = [], (1, 2, 3, 5, 8)
    for i, (b, o) in enumerate((b, o) for b in ("asm", "gen") for o in ("first", "last")):
        for p in (pools[i], pools[(i + 2) % 5]) if quick else pools:
            cfg.append(dict(backend=b, order=o, source="h_alt.cpp", only="C25/", cases=3000 if quick else 100000, env=dict(PBT_NPROCS=str(p)), label=", pool of %d" % p))
        cfg.append(dict(backend=b, order=o, source="h_tower.cpp", only="C25/", cases=20000 if quick else 500000, env=dict(PBT_GLOBALS="1") if o == "last" else {}, label=", towers" + (" of the namespace" if o == "last" else "")))
    alt_check(c, cfg, 8 if quick else 120)

@register("C26", "A case is one piece of work (field text or arithmetic, a curve operation, a multi-exponentiation, an MSM, a transform, a pool, an engine, opening a sound or damaged file and reading its header) with drawn sizes and inputs, done seven times; non-trivial when its numbers are above 1, it has more than one point, or it involves an object or a file, and distinct by its draws.")
def c26(c):
    quick = c.tier == QUICK
    cfg = []
    for i, p in enumerate((1, 4) if quick else (1, 2, 5, 8)):
        for b in ("asm", "gen"):
            cfg.append(dict(backend=b, order=("first", "last")[i & 1], source="h_leak.cpp", only="C26/", cases=6000 if quick else 150000, extra=["-fopenmp", "-DUSE_OPENMP"], more=BIN, env=dict(PBT_NPROCS=str(p), OMP_NUM_THREADS=str(p), OMP_WAIT_POLICY="passive"), label=", pool of %d" % p))
    alt_check(c, cfg, 15 if quick else 200)

def replay(r):
    """Rebuilds the configuration of a recorded failure from /repo and runs it again."""
    m = r.get("meta", {})
    if r.get("kind") == "harness" and "prime" in m and "backend" in m and not m.get("ext"):
        with Scratch("replay") as tmp:
            gen_field(int(m["prime"]), "Fr", tmp)
            src, df = field_sources(tmp, m["backend"])
            out = os.path.join(tmp, "h")
            cxx(out, [os.path.join(CPP, m["source"])] + src, incs=[CPP, tmp], defs=['QHEX="%x"' % int(m["prime"])] + df + ["BACKEND_" + m["backend"].upper()] + m.get("defs", []), opt=m.get("opt", "-O1"), extra=m.get("extra", []))
            return run_replay(out, r, tmp)
    if r.get("kind") == "harness" and m.get("agree"):
        with Scratch("replay") as tmp:
            return run_replay(build_agree(tmp, int(m["prime"])), r, tmp)
    if r.get("kind") == "harness" and m.get("ext"):
        with Scratch("replay") as tmp:
            gen_field(int(m["prime"]), "Fr", os.path.join(tmp, "f"))
            return run_replay(build_ext(tmp, "f", int(m["prime"]), m["backend"], m["source"], m["defs"], m["opt"], m["extra"]), r, tmp, m["env"])
    if r.get("kind") == "harness" and m.get("plain"):
        with Scratch("replay") as tmp:
            return run_replay(build_plain(os.path.join(tmp, "h"), m["source"], m["csrc"], m["defs"], m["opt"], m["extra"], incs=m["incs"]), r, tmp, dict(m["env"], PBT_TMP=tmp))
    if r.get("kind") == "harness" and m.get("alt"):
        with Scratch("replay") as tmp:
            return run_replay(build_alt(tmp, m["backend"], m["source"], m["order"], extra=m["extra"], more=m["more"]), r, tmp, dict(m["env"], PBT_TMP=tmp))
    if r.get("kind") == "c12":
        return c12.replay(r)
    print("this record is replayed by running the check again: " + r["property"])
    return 1

def run_replay(binary, r, tmp, env=None):
    f = os.path.join(tmp, "tape")
    with open(f, "w") as h:
        h.write(r["prop"] + "\n" + (r["range"] + "\n" if r.get("range") else "\n".join(r["tape"]) + "\n"))
    p = subprocess.run([binary, "--replay", f], stdout=subprocess.PIPE, env=dict(ENV, **(env or {})))
    print(p.stdout.decode())
    return p.returncode
