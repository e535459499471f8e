"""plant.py ID: makes /verif/seeded/ID from tools/plants/ID.py and confirms it: the change applies, builds, passes the
stable tests, and the demonstration passes without it and fails with it.  plant.py --catch ID...: does the check see it?"""
import json, os, shutil, subprocess, sys, importlib.util
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(V, "tools", "seedkit")
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def load(i):
    ns = {}
    exec(open(os.path.join(V, "tools", "plants", i + ".py")).read(), ns)
    return ns
def plant(i):
    p = load(i)
    d = os.path.join(V, "seeded", i)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    try:
        for f, old, new in p["EDITS"]:
            path = os.path.join("/repo", f); s = open(path).read()
            if s.count(old) != 1: sys.exit("%s: %s: %d matches" % (i, f, s.count(old)))
            open(path, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
        for f in set(e[0] for e in p["EDITS"]):           # a planted bug changes lines of the original repository
            orig = set(sh("git -C /repo show %s:%s" % (base, f)).stdout.splitlines())
            for l in diff.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:] not in orig and not any(l[1:] in set(sh("git -C /repo show %s:%s" % (base, e[0])).stdout.splitlines()) for e in p["EDITS"]):
                    print(i, "changes a line that is not original:", l)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        sh("git -C /repo checkout -- .")
    json.dump(dict(property=p["PROPERTY"], needs=p["NEEDS"], what_it_breaks=p["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    need = p.get("KIT", True)
    if need:
        shutil.copytree(os.path.join(KIT, "shims"), os.path.join(d, "shims"))
        shutil.copy(os.path.join(KIT, "demo.h"), d)
    shutil.copy(os.path.join(KIT, "kit.sh"), d)
    for name, text in p["FILES"].items():
        open(os.path.join(d, name), "w").write(text)
    open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n# exit 0: the behaviour is right\n. \"$(dirname \"$0\")/kit.sh\"\n" + p["DEMO"])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    # confirm, in scratch copies
    import tempfile
    t = tempfile.mkdtemp(prefix="plant_")
    try:
        shutil.copytree(d, os.path.join(t, "demo"))
        for n in ("patch.diff", "meta.json"): os.remove(os.path.join(t, "demo", n))
        r = sh(os.path.join(t, "demo", "demo.sh"), cwd="/repo", timeout=300)
        if r.returncode != 0: print(i, "demo fails on the unchanged tree:\n", r.stdout[-1500:]); return False
        a = sh("git -C /repo apply " + os.path.join(d, "patch.diff"))
        if a.returncode: print(i, "does not apply", a.stdout); return False
        try:
            b = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/t.json" % t)
            if b.returncode: print(i, "build or tests end with", b.returncode, b.stdout[-800:]); return False
            res = json.load(open(t + "/t.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            lost = [x for x in base.get("passed", base.get("stable", [])) if x not in res.get("passed", [])]
            if lost: print(i, "stable tests fail:", lost[:3]); return False
            r = sh(os.path.join(t, "demo", "demo.sh"), cwd="/repo", timeout=300)
            if r.returncode in (0, 2): print(i, "demo exits %d with the change:\n" % r.returncode, r.stdout[-1500:]); return False
            print(i, "planted; demo says:", r.stdout.strip()[:160])
        finally:
            sh("git -C /repo checkout -- .")
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return True
def catch(i, pids=None, seed="1"):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    a = sh("git -C /repo apply " + os.path.join(V, "seeded", i, "patch.diff"))
    if a.returncode: print(i, "does not apply"); return
    try:
        for pid in pids or [m["property"]]:
            r = sh("python3 lib/py/run.py --property %s --tier quick" % pid, cwd=V, env=dict(os.environ, VERIF_SEED=seed))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, pid, "CAUGHT" if r.returncode == 1 and v else "MISSED (exit %d)" % r.returncode, "|", r.stdout.strip().splitlines()[0][:200] if r.stdout.strip() else "", flush=True)
    finally:
        sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    if sys.argv[1] == "--catch":
        for i in sys.argv[2:]: catch(i)
    else:
        for i in sys.argv[1:]: plant(i)
