"""Shared machinery of the checks: scratch directories, generating field sources with the repository's own
generator, compiling, running harness processes in parallel, collecting evidence, reporting violations."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
CPP = os.path.join(LIB, "cpp")
SHIMS = os.path.join(LIB, "js", "shims")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NPROC = os.cpu_count() or 4
SCALE = float(os.environ.get("VERIF_SCALE", "1") or "1")          # shortens the search (used when looking for weak spots)
ENV = dict(os.environ, NODE_PATH=SHIMS, LC_ALL="C", OMP_NUM_THREADS=os.environ.get("OMP_NUM_THREADS", "4"))
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + ENV.get("PATH", "")

class BuildError(Exception):
    pass

class Violation(Exception):
    pass

def run(cmd, cwd=None, timeout=600, check=True, env=None, input=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env or ENV, input=input)
    except subprocess.TimeoutExpired:
        if not check: raise
        raise BuildError("%s\nnot finished after %d s" % (" ".join(cmd)[:2000], timeout))
    if check and p.returncode != 0:
        raise BuildError("%s\nexit %d\n%s" % (" ".join(cmd), p.returncode, (p.stderr + p.stdout).decode("utf8", "replace")[-3000:]))
    return p

class Scratch:
    """A scratch directory removed at the end."""
    def __init__(self, name):
        self.path = tempfile.mkdtemp(prefix="vf_%s_" % name)
    def __enter__(self):
        return self.path
    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

def gen_field(q, name, outdir, script=None):
    """Writes the artefacts of the field generator into outdir through its JavaScript API."""
    os.makedirs(outdir, exist_ok=True)
    run(["node", "--max-old-space-size=1500", os.path.join(LIB, "js", "gen.js"), REPO, outdir, str(q), name], timeout=120)
    return outdir

def parallel(jobs, n=None):
    """jobs: callables; results in order; the first exception is raised."""
    with cf.ThreadPoolExecutor(n or NPROC) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]

CXX = ["g++", "-w", "-std=c++17", "-pthread"]

def cxx(out, sources, incs=(), defs=(), opt="-O1", libs=("-lgmpxx", "-lgmp"), extra=(), compiler=None, timeout=600, cwd=None):
    cmd = list(compiler or CXX) + [opt] + ["-I" + i for i in incs] + ["-D" + d for d in defs] + list(extra) + list(sources) + ["-o", out] + list(libs)
    run(cmd, timeout=timeout, cwd=cwd)
    return out

BACKENDS = ("asm", "gen", "arm")

def field_sources(d, backend, name="fr"):
    """(sources, defines) to link the field in directory d with the given backend."""
    f = lambda s: os.path.join(d, name + s)
    if backend == "asm":
        if not os.path.exists(f(".o")):
            run(["nasm", "-felf64", f(".asm"), "-o", f(".o")])
        return [f(".cpp"), f(".o")], ["USE_ASM", "ARCH_X86_64"]
    if backend == "gen":
        return [f(".cpp"), f("_generic.cpp"), f("_raw_generic.cpp")], []
    if backend == "arm":
        return [f(".cpp"), f("_generic.cpp"), f("_raw_generic.cpp"), os.path.join(CPP, "arm_emu.cpp")], ["USE_ASM", "ARCH_ARM64", 'ARM_SOURCE="%s"' % f("_raw_arm64.s")]
    raise ValueError(backend)

class Check:
    """Collects harness results of one property check and ends the process the way the contract wants."""
    def __init__(self, pid, tier, rule, technique="property-based testing"):
        self.pid, self.tier, self.rule = pid, tier, rule
        self.t0 = time.time()
        self.evals = self.nontriv = self.distinct = self.discards = 0
        self.labels = {}
        self.samples = []
        self.configs = []
        self.violations = []      # dicts: msg, replay
        self.notes = []
        self.known = load_known(pid)
        self.flaky = []
        self.known_seen = {}

    def add_result(self, r):
        self.evals += r["evals"]; self.nontriv += r["nontrivial"]; self.distinct += r["distinct"]; self.discards += r["discards"]
        for k, v in r["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v
        for s in r["samples"][:1]:
            if len(self.samples) < 40:
                self.samples.append("[%s] %s" % (r["config"], s[:300]))
        if r.get("flaky"):
            self.flaky.append("%s %s: %s" % (r["config"], r["prop"], r["flakyMsg"]))

    def count(self, evals, nontrivial, distinct, labels=None, samples=()):
        self.evals += evals; self.nontriv += nontrivial; self.distinct += distinct
        for k, v in (labels or {}).items():
            self.labels[k] = self.labels.get(k, 0) + v
        for s in samples:
            if len(self.samples) < 40:
                self.samples.append(str(s)[:300])

    def violation(self, msg, replay_data):
        for k in self.known:
            if k["re"].search(msg):
                self.known_seen[k["id"]] = msg
                return False
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256((msg + json.dumps(replay_data, sort_keys=True)).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s_%s.json" % (self.pid, h))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, message=msg, **replay_data), f, indent=1)
        self.violations.append(dict(msg=msg, replay=path))
        return True

    def finish(self):
        wall = time.time() - self.t0
        ev = {
            "property": self.pid, "tier": self.tier, "seed": SEED, "level": "exploration",
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": self.rule,
                "samples": self.samples[:20], "nontrivial": self.nontriv, "discarded": self.discards,
                "configurations": self.configs, "classes": dict(sorted(self.labels.items(), key=lambda kv: -kv[1])[:250]),
                "notes": self.notes, "not_reproducible": self.flaky,
            },
            "wall_s": round(wall, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            if k["id"] in self.known_seen or k.get("always"):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.flaky:
            print("note: %d case(s) failed once and passed on replay: %s" % (len(self.flaky), self.flaky[0][:300]))
        if self.violations:
            for v in self.violations[:8]:
                print("  " + v["msg"][:1500])
                print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
            if len(self.violations) > 8:
                print("(%d more: evidence/replays)" % (len(self.violations) - 8))
            sys.stdout.flush()
            sys.exit(1)
        print("%s %s: held on %d evaluations (%d distinct non-trivial) in %.1f s" % (self.pid, self.tier, self.evals, self.distinct, wall))
        sys.exit(0)

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.rstrip("\n")
        m = re.match(r"known: property=(\S+) id=(\S+) match=/(.*?)/ (.*)$", line)
        if m and m.group(1) == pid:
            out.append(dict(id=m.group(2), re=re.compile(m.group(3)), what=m.group(4)))
    return out

def run_harness(check, binary, config, only, cases, budget, seed=None, env=None, meta=None, retries=0, left=1e9):
    """Runs one harness process; returns its failures (already added to the check's counters)."""
    e = dict(ENV, **(env or {}))
    if retries:
        e["PBT_RETRIES"] = str(retries)
    cmd = [binary, "--seed", str(seed if seed is not None else SEED), "--cases", str(max(1, int(cases * SCALE))), "--budget", str(max(1, budget * SCALE)), "--config", config, "--only", only, "--shrink", str(max(1, 20 * SCALE))]
    late = False
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=min(left, budget * 3 + 300))
        out, code, err = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired as x:            # what it found until then counts
        out, code, err, late = x.stdout or b"", 0, b"", True
        check.notes.append("%s of %s ran out of time and was stopped" % (config, only))
    fails = []
    res = []
    for line in out.decode("utf8", "replace").splitlines():
        if not line.startswith("{") or not line.endswith("}"):
            continue
        r = json.loads(line)
        res.append(r)
        if "failure" in r:
            fails.append((r, r["failure"]))
    if code != 0 or not (res or late):
        raise BuildError("harness %s (%s) ended with status %s and %d results: %s" % (binary, config, code, len(res), err.decode("utf8", "replace")[-800:]))
    return res, fails

def harness_jobs(check, jobs, n=None):
    """jobs: list of dict(binary, config, only, cases, budget, meta).  Runs them and reports violations."""
    for j in jobs:                                    # more than one thread: a failure may depend on the schedule
        e = j.get("env") or {}
        j["unstable"] = j.get("unstable") or max(int(e.get("PBT_NPROCS", 1)), int(e.get("OMP_NUM_THREADS", 1))) > 1
    quick, found = check.tier == "quick", []
    def one(j):
        left = 720 - (time.time() - check.t0) if quick else 1e9      # the quick tier has to give an answer in time
        if left < 30 or (quick and found and left < 480):            # hangs take long; one violation is enough then
            check.notes.append("%s left out for lack of time" % j["config"])
            return j, ([], [])
        for last in (False, True):
            try:
                r = run_harness(check, j["binary"], j["config"], j["only"], j["cases"], j["budget"], env=j.get("env"), retries=12 if j.get("unstable") else 0, left=left)
                found.extend(r[1])
                return j, r
            except BuildError as e:
                if last:
                    found.append(e)
                    return j, e
    for j, out in parallel([lambda j=j: one(j) for j in jobs], n):
        if isinstance(out, BuildError):
            build_failed(check, j["config"], out, j.get("meta", {}))
            continue
        res, fails = out
        for r in res:
            check.add_result(r)
        for r, f in fails:
            data = dict(kind="harness", config=j["config"], prop=r["prop"], case=f["case"], tape=f["tape"], range=f["range"], meta=j.get("meta", {}), seed=SEED)
            msg = "[%s] %s: %s   case: %s" % (j["config"], r["prop"], f["msg"], f["case"])
            if f["stable"] or j.get("unstable"):
                check.violation(msg, data)
            else:
                check.flaky.append(msg)

def guarded(fn):
    """A BuildError of one configuration as a value instead of an exception."""
    try:
        return fn()
    except BuildError as e:
        return e

def build_failed(check, what, err, meta):
    """Code generated from /repo that does not build is a violation: the property cannot hold on it."""
    check.violation("[%s] the code under test does not build or start: %s" % (what, str(err)[-900:]), dict(kind="build", config=what, meta=meta, error=str(err)[-6000:]))

def build_agree(d, q):
    """Both backends of the field in one program (C10)."""
    for n in ("Fr", "Fa", "Fg"):
        gen_field(q, n, d)
    run(["nasm", "-felf64", os.path.join(d, "fa.asm"), "-o", os.path.join(d, "fa.o")])
    def obj(src, out, defs):
        run(CXX + ["-O1", "-c", "-I" + d, "-I" + CPP] + ["-D" + x for x in defs] + [src, "-o", os.path.join(d, out)])
        return os.path.join(d, out)
    asm = ["USE_ASM", "ARCH_X86_64"]
    objs = [obj(os.path.join(d, "fa.cpp"), "a1.o", asm), obj(os.path.join(CPP, "side.cpp"), "a2.o", asm + ["S=Fa", 'SH="fa.hpp"']),
            obj(os.path.join(d, "fg.cpp"), "g1.o", []), obj(os.path.join(d, "fg_generic.cpp"), "g2.o", []), obj(os.path.join(d, "fg_raw_generic.cpp"), "g3.o", []),
            obj(os.path.join(CPP, "side.cpp"), "g4.o", ["S=Fg", 'SH="fg.hpp"']), os.path.join(d, "fa.o")]
    return cxx(os.path.join(d, "h"), [os.path.join(CPP, "h_agree.cpp")] + objs, incs=[CPP, d], defs=['QHEX="%x"' % q])

def field_check(check, source, configs, backends, only, cases, budget, defs=(), opt="-O1", extra_sources=(), extra=(), timeout_case=None):
    """Generates every field of `configs` (name, prime), builds `source` against each backend, runs suite `only`."""
    with Scratch(check.pid) as tmp:
        gens = parallel([lambda n=n, q=q: guarded(lambda: gen_field(q, "Fr", os.path.join(tmp, n))) for n, q in configs])
        builds = []
        for (n, q), g in zip(configs, gens):
            if isinstance(g, BuildError):
                build_failed(check, n, g, dict(prime=str(q)))
                continue
            for b in backends:
                builds.append((n, q, b))
        def build(n, q, b):
            d = os.path.join(tmp, n)
            out = os.path.join(d, "h_" + b)
            src, df = field_sources(d, b)
            cxx(out, [os.path.join(CPP, source)] + list(extra_sources) + src, incs=[CPP, d], defs=['QHEX="%x"' % q] + df + ["BACKEND_" + b.upper()] + list(defs), opt=opt, extra=extra)
            return dict(binary=out, config="%s/%s" % (n, b), only=only, cases=cases // (4 if b == "arm" else 1), budget=budget, meta=dict(source=source, prime=str(q), backend=b, defs=list(defs), opt=opt, extra=list(extra)))
        jobs = []
        for (n, q, b), j in zip(builds, parallel([lambda a=a: guarded(lambda: build(*a)) for a in builds])):
            if isinstance(j, BuildError):
                build_failed(check, "%s/%s" % (n, b), j, dict(prime=str(q), backend=b, source=source))
            else:
                jobs.append(j)
        check.configs += [j["config"] for j in jobs]
        harness_jobs(check, jobs)

CSRC = ["naf.cpp", "misc.cpp", "splitparstr.cpp"]

def build_ext(tmp, name, q, backend, source, defs=(), opt="-O1", extra=(), libs=("-lgmpxx", "-lgmp"), csrc=CSRC, tag=""):
    """A harness over the library in /repo/c, instantiated with the generated field of q."""
    d = os.path.join(tmp, name)
    src, df = field_sources(d, backend)
    out = os.path.join(d, "h_%s%s" % (backend, tag))
    return cxx(out, [os.path.join(CPP, source)] + [os.path.join(REPO, "c", c) for c in csrc] + src, incs=[CPP, d, os.path.join(REPO, "c")],
               defs=['QHEX="%x"' % q] + df + list(defs), opt=opt, extra=extra, libs=libs)

def ext_check(check, source, configs, only, cases, budget, jobs=None):
    """configs: list of dict(name, q, backend, defs, extra, env, tag): one harness each."""
    with Scratch(check.pid) as tmp:
        qs = {}
        for c in configs:
            qs[c["name"]] = c["q"]
        ok = {}
        for (n, q), g in zip(qs.items(), parallel([lambda n=n, q=q: guarded(lambda: gen_field(q, "Fr", os.path.join(tmp, n))) for n, q in qs.items()])):
            ok[n] = not isinstance(g, BuildError)
            if not ok[n]:
                build_failed(check, n, g, dict(prime=str(q)))
        for n, q in qs.items():
            if ok[n] and any(c["name"] == n and c["backend"] == "asm" for c in configs):
                g = guarded(lambda: field_sources(os.path.join(tmp, n), "asm"))
                if isinstance(g, BuildError):
                    ok[n] = False
                    build_failed(check, n, g, dict(prime=str(q)))
        builds = {}
        for c in configs:
            if ok[c["name"]]:
                builds[(c["name"], c["backend"], c.get("tag", ""))] = c
        bins = {}
        def one(k, c):
            return guarded(lambda: build_ext(tmp, c["name"], c["q"], c["backend"], source, c.get("defs", ()), c.get("opt", "-O1"), c.get("extra", ()), tag=c.get("tag", "")))
        for (k, c), b in zip(builds.items(), parallel([lambda k=k, c=c: one(k, c) for k, c in builds.items()])):
            if isinstance(b, BuildError):
                build_failed(check, "%s/%s%s" % k, b, dict(prime=str(c["q"]), backend=c["backend"], source=source))
            elif c.get("probe") and subprocess.run([b, "--list"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
                check.notes.append("configuration %s/%s%s left out: the sanitizer does not start here" % k)
            else:
                bins[k] = b
        runs = []
        for c in configs:
            k = (c["name"], c["backend"], c.get("tag", ""))
            if k in bins:
                label = "/".join(k[:2]) + k[2] + c.get("label", "")
                runs.append(dict(binary=bins[k], config=label, only=only, cases=c.get("cases", cases), budget=c.get("budget", budget), env=c.get("env"), unstable=c.get("unstable"),
                                 meta=dict(ext=True, source=source, prime=str(c["q"]), backend=c["backend"], defs=list(c.get("defs", ())), opt=c.get("opt", "-O1"), extra=list(c.get("extra", ())), env=c.get("env") or {})))
        check.configs += [j["config"] for j in runs]
        harness_jobs(check, runs, jobs)

ALT_Q = 21888242871839275222246405745257275088696311157297823662689037894645226208583
ALT_R = 21888242871839275222246405745257275088548364400416034343698204186575808495617

def build_alt(d, backend, source, order, defs=(), opt="-O1", extra=(), tag="", more=()):
    """A harness over c/alt_bn128.cpp with the two fields it needs; order: the engine's object before or after the fields'."""
    for n, q in (("Fq", ALT_Q), ("Fr", ALT_R)):
        gen_field(q, n, d)
    s1, df = field_sources(d, backend, "fq")
    s2, _ = field_sources(d, backend, "fr")
    eng = [os.path.join(REPO, "c", "alt_bn128.cpp")]
    rest = [os.path.join(REPO, "c", c) for c in CSRC + list(more)]
    src = eng + rest + s1 + s2 if order == "first" else s2 + s1 + rest + eng
    return cxx(os.path.join(d, "h" + tag), ([os.path.join(CPP, source)] + src) if order == "first" else src + [os.path.join(CPP, source)], incs=[CPP, d, os.path.join(REPO, "c"), os.path.join(CPP, "shims")],
               defs=['QHEX="%x"' % ALT_Q, 'RHEX="%x"' % ALT_R, "ALT_BN128"] + df + list(defs), opt=opt, extra=extra)

def alt_check(check, configs, budget):
    """configs: list of dict(backend, order, source, only, cases, env, label)"""
    with Scratch(check.pid) as tmp:
        builds = {}
        for c in configs:
            builds[(c["backend"], c["order"], c["source"])] = c
        bins = {}
        def one(k):
            d = os.path.join(tmp, "_".join(k))
            os.makedirs(d)
            return guarded(lambda: build_alt(d, k[0], k[2], k[1], extra=builds[k].get("extra", ()), more=builds[k].get("more", ())))
        for k, b in zip(builds, parallel([lambda k=k: one(k) for k in builds])):
            if isinstance(b, BuildError):
                build_failed(check, "/".join(k), b, dict(alt=True, backend=k[0], source=k[2], order=k[1]))
            else:
                bins[k] = b
        jobs = []
        for c in configs:
            k = (c["backend"], c["order"], c["source"])
            if k in bins:
                jobs.append(dict(binary=bins[k], config="%s, engine linked %s%s" % (k[0], k[1], c.get("label", "")), only=c["only"], cases=c["cases"], budget=budget, env=dict(c.get("env") or {}, PBT_TMP=tmp), unstable=c.get("unstable"),
                                 meta=dict(alt=True, backend=k[0], source=k[2], order=k[1], env=c.get("env") or {}, extra=list(c.get("extra", ())), more=list(c.get("more", ())))))
        check.configs += [j["config"] for j in jobs]
        harness_jobs(check, jobs)

def build_plain(out, source, csrc, defs=(), opt="-O1", extra=(), libs=("-lgmpxx", "-lgmp", "-ldl"), incs=()):
    """A harness over parts of /repo/c that need no generated field."""
    return cxx(out, [os.path.join(CPP, source)] + [os.path.join(REPO, "c", c) for c in csrc], incs=[CPP, os.path.join(REPO, "c")] + [os.path.join(CPP, i) for i in incs], defs=defs, opt=opt, extra=extra, libs=libs)

def plain_check(check, source, csrc, configs, only, cases, budget, incs=()):
    """configs: list of dict(tag, defs, opt, extra, env, label, cases, probe, unstable)"""
    with Scratch(check.pid) as tmp:
        tags = {}
        for c in configs:
            tags[c["tag"]] = c
        def one(t, c):
            return guarded(lambda: build_plain(os.path.join(tmp, "h_" + t), source, csrc, c.get("defs", ()), c.get("opt", "-O1"), c.get("extra", ()), incs=incs))
        bins = {}
        for (t, c), b in zip(tags.items(), parallel([lambda t=t, c=c: one(t, c) for t, c in tags.items()])):
            if isinstance(b, BuildError):
                build_failed(check, t, b, dict(source=source, defs=list(c.get("defs", ()))))
            elif c.get("probe") and subprocess.run([b, "--list"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
                check.notes.append("configuration %s left out: the sanitizer does not start here" % t)
            else:
                bins[t] = b
        jobs = []
        for c in configs:
            if c["tag"] in bins:
                jobs.append(dict(binary=bins[c["tag"]], config=c["tag"] + c.get("label", ""), only=c.get("only", only), cases=c.get("cases", cases), budget=budget, env=dict(c.get("env") or {}, PBT_TMP=tmp), unstable=c.get("unstable"),
                                 meta=dict(plain=True, source=source, csrc=list(csrc), incs=list(incs), defs=list(c.get("defs", ())), opt=c.get("opt", "-O1"), extra=list(c.get("extra", ())), env=c.get("env") or {})))
        check.configs += [j["config"] for j in jobs]
        harness_jobs(check, jobs)
