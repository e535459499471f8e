"""C12: the generator.  A case is (primes, names, how they are passed, output options); the oracle is exact integers for
constants and arithmetic, the toolchain for buildability, and the programming interface for the command line."""
import filecmp, json, os, random, string
import primes, vlib
from vlib import *

SUFFIX = {"asm": ".asm", "hpp": ".hpp", "cpp": ".cpp", "element": "_element.hpp", "generic": "_generic.cpp", "raw_generic": "_raw_generic.cpp", "arm": "_raw_arm64.s"}
RESERVED = {"near", "word", "byte", "wrt", "abs", "rel", "section", "global", "extern", "main", "int", "char", "long", "short", "float", "void", "for", "new", "and", "or", "not", "xor", "if", "do"}

class Bad(Exception):
    pass

def gen_name(rng):
    if rng.random() < 0.4:
        return rng.choice(["Fr", "Fq", "FR", "fr", "Fp2base", "BN254", "Scalar", "my_field", "F", "Z_q", "BLS12_381_Fr", "ed25519Field", "x1"])
    while True:
        n = rng.choice(string.ascii_letters) + "".join(rng.choice(string.ascii_letters + string.digits + "_") for _ in range(rng.randint(0, 14)))
        if len(n) > 1 and n.lower() not in RESERVED:
            return n

def gen_q(rng, small_ok=True):
    r = rng.random()
    if r < 0.25:
        return rng.choice(list(primes.NAMED.values()))
    if r < 0.5:
        return primes.gen_prime(rng, 64 * rng.randint(1, 12))
    if r < 0.75:
        return primes.gen_prime(rng, max(63, 64 * rng.randint(1, 12) - rng.choice([1, 2, 3, 17, 40, 62])))
    return primes.gen_prime(rng, rng.randint(63, 768))

def read(d, name):
    return {k: open(os.path.join(d, name.lower() + s), "rb").read() for k, s in SUFFIX.items()}

def expect(probe, q, pairs, asm):
    n = (q.bit_length() - 1) // 64 + 1
    R = 1 << (64 * n)
    h = lambda v: format(v, "0%dx" % (16 * n))
    want = ["n64=%d" % n, "bits=%d" % q.bit_length(), "bytes=%d" % (8 * n), "size=%d" % (8 * n + 8), "rawsize=%d" % (8 * n), "tags=0,40000000,80000000,c0000000,40000000",
            "q=" + h(q), "R3=" + h(pow(R, 3, q)), "qtype=80000000", "R3type=80000000", "zero=" + h(0), "one=" + h(R % q), "negone=" + h(-R % q)]
    if not asm:
        want.append("R2=" + h(R * R % q))
    want.append("readme=%d" % (12 % q))
    for a, b in pairs:
        want += ["mul=%d" % (a * b % q), "add=%d" % ((a + b) % q), "sub=%d" % ((a - b) % q), "rawmul=%d" % (a * b % q)]
    if probe != want:
        for g, w in zip(probe + ["(nothing)"] * len(want), want):
            if g != w:
                raise Bad("a program using the field prints %s, expected %s" % (g[:300], w[:300]))
        raise Bad("a program using the field prints more than expected: %s" % probe[len(want):][:2])

def backend_objs(d, name, backend, main, other=None, tag=""):
    """Compiles the probe for one field with one backend; returns what to link."""
    low = os.path.join(d, name.lower())
    defs = ["-DNAME=" + name, '-DHDR="%s.hpp"' % name.lower()] + (["-DMAIN"] if main else []) + (["-DOTHER=" + other] if other else [])
    if backend == "asm":
        run(["nasm", "-felf64", low + ".asm", "-o", low + tag + ".o"])
        defs += ["-DUSE_ASM", "-DARCH_X86_64"]
        srcs, objs = [low + ".cpp"], [low + tag + ".o"]
    else:
        srcs, objs = [low + ".cpp", low + "_generic.cpp", low + "_raw_generic.cpp"], []
    outs = []
    for s in srcs + [os.path.join(CPP, "probe.cpp")]:
        o = os.path.join(d, "%s_%s_%s%s.obj" % (os.path.basename(s)[:-4], name, backend, tag))
        run(["g++", "-w", "-std=c++11", "-O0", "-c", "-I" + d] + defs + [s, "-o", o])
        outs.append(o)
    return outs + objs

def link_run(d, out, objs, pairs):
    exe = os.path.join(d, out)
    run(["g++", "-pthread"] + objs + ["-o", exe, "-lgmp"])
    p = run([exe] + [str(x) for ab in pairs for x in ab], timeout=60)
    return p.stdout.decode().split("\n")[:-1]

def gen_pairs(rng, q):
    val = lambda: rng.choice([rng.randrange(q), q - 1 - rng.randrange(3), rng.randrange(5), (q - 1) // 2 + rng.randrange(2), rng.randrange(2**31 - 2, 2**31 + 2) % q])
    return [(val(), val()) for _ in range(6)]

def case(c, tmp, rng, idx, deep):
    """One generated case; raises Bad."""
    q, name = gen_q(rng), gen_name(rng)
    while True:
        q2, name2 = gen_q(rng), gen_name(rng)
        if name2.lower() != name.lower():
            break
    d = os.path.join(tmp, "c%d" % idx)
    desc = "prime 0x%x name %s, with prime 0x%x name %s" % (q, name, q2, name2)
    try:
        # several fields in one process, one of them again at the end and concurrently
        jobs = [dict(prime=str(q), name=name, dir=d + "/a", **{"as": rng.choice(["string", "big"])}), dict(prime=str(q2), name=name2, dir=d + "/a"),
                dict(prime=str(q), name=name, dir=d + "/again"), dict(prime=str(q), name=name, dir=d + "/conc1", concurrent=True), dict(prime=str(q2), name=name2, dir=d + "/conc2", concurrent=True)]
        os.makedirs(d)
        jf = os.path.join(d, "jobs.json")
        json.dump(jobs, open(jf, "w"))
        run(["node", "--max-old-space-size=1500", os.path.join(LIB, "js", "genmany.js"), REPO, jf])
        base, base2 = read(d + "/a", name), read(d + "/a", name2)
        for sub, n, b in (("again", name, base), ("conc1", name, base), ("conc2", name2, base2)):
            o = read(os.path.join(d, sub), n)
            for k in SUFFIX:
                if o[k] != b[k]:
                    raise Bad("the %s text of %s depends on what was generated before or concurrently" % (k, n))
        # the command line, in a directory of its own
        cli = d + "/cli"
        os.makedirs(cli)
        names = {k: name.lower() + s for k, s in SUFFIX.items()}
        args = rng.choice([["-q", str(q), "-n", name], ["--prime", str(q), "--name", name], ["--q=" + str(q), "--n=" + name]])
        for o, k, ext in (("oa", "asm", "asm"), ("oh", "hpp", "hpp"), ("oc", "cpp", "cpp")):
            if rng.random() < 0.5:
                names[k] = "out_%s.%s" % (o, ext)
                args += rng.choice([["--" + o, names[k]], ["--%s=%s" % (o, names[k])]])
        run(["node", "--max-old-space-size=1500", os.path.join(REPO, "src", "buildzqfield.js")] + args, cwd=cli)
        got = sorted(os.listdir(cli))
        if got != sorted(names.values()):
            raise Bad("the command line %s wrote the files %s, expected %s" % (args[2:], got, sorted(names.values())))
        for k, f in names.items():
            if open(os.path.join(cli, f), "rb").read() != base[k]:
                raise Bad("the command line %s wrote to %s something other than the %s text of the programming interface" % (args[2:], f, k))
        if not deep:
            return desc
        # builds and constants
        pairs = gen_pairs(rng, q)
        run(["clang", "--target=aarch64-linux-gnu", "-c", os.path.join(d, "a", name.lower() + "_raw_arm64.s"), "-o", os.path.join(d, "arm.o")])
        run(["nasm", "-fmacho64", "--prefix", "_", os.path.join(d, "a", name.lower() + ".asm"), "-o", os.path.join(d, "macho.o")])
        ad = d + "/a"
        b1, b2 = rng.choice([("asm", "asm"), ("asm", "generic"), ("generic", "asm"), ("generic", "generic")])
        out = link_run(ad, "both", backend_objs(ad, name, b1, True, name2) + backend_objs(ad, name2, b2, False), pairs)
        if "other" not in out:
            raise Bad("the program with two fields stopped early")
        i = out.index("other")
        expect(out[:i], q, pairs, b1 == "asm")
        expect(out[i + 1:], q2, pairs, b2 == "asm")
        other = "generic" if b1 == "asm" else "asm"
        expect(link_run(ad, "single", backend_objs(ad, name, other, True, tag="_s"), pairs), q, pairs, other == "asm")
        return desc
    except (Bad, BuildError) as e:
        raise Bad("%s: %s" % (desc, e))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check(c):
    quick = c.tier == "quick"
    ncase, ndeep = (40, 20) if quick else (500, 250)
    def one(i):
        rng = random.Random("C12-%s-%d" % (SEED, i))
        try:
            return ("ok", i, case(c, tmp, rng, i, i < ndeep))
        except Bad as e:
            return ("bad", i, str(e))
    with Scratch("C12") as tmp:
        res = parallel([lambda i=i: one(i) for i in range(ncase)])
    bad = [r for r in res if r[0] == "bad"]
    c.count(len(res), len(res), len(set(r[2] for r in res)), {"with builds and probes": ndeep, "texts, command line": ncase}, [r[2] for r in res if r[0] == "ok"][:8])
    for r in bad[:3]:
        c.violation(r[2], dict(kind="c12", case_index=r[1], seed=SEED, deep=r[1] < ndeep))

def replay(r):
    with Scratch("C12") as tmp:
        try:
            print(case(None, tmp, random.Random("C12-%s-%d" % (r["seed"], r["case_index"])), r["case_index"], r["deep"]))
            return 0
        except Bad as e:
            print(e)
            return 1
