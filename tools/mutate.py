"""Mutation run over the repository's sources: which small changes do the quick checks miss?
usage: mutate.py OUT.jsonl SEED COUNT FILE=C15,C16 [FILE=...]     (a scratch copy of /repo is mutated; /repo is left alone)
Not part of any check; its survivors are read by hand."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REL = {"<": ["<=", ">"], "<=": ["<", "=="], ">": [">=", "<"], ">=": [">", "=="], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "<<": [">>"], ">>": ["<<"], "++": ["--"], "&": ["|"], "|": ["&"], "+=": ["-="], "-=": ["+="], "%": ["/"], "/": ["%"]}
TOK = re.compile(r"(?<![\w.])(\d+)(?![\w.])|(\+\+|--|<<=|>>=|->|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|[<>+\-&|%/])|\b(if|while)\s*\(|\b(p1|p2|r|a|b|aux\w*|x|y|zz|zzz)\b")

ASM = {"jc": ["jnc"], "jnc": ["jc"], "jz": ["jnz"], "jnz": ["jz"], "je": ["jne"], "jne": ["je"], "jl": ["jle"], "jg": ["jge"], "jae": ["ja"], "ja": ["jae"], "js": ["jns"], "jns": ["js"],
       "adc": ["add"], "sbb": ["sub"], "add": ["adc"], "sub": ["sbb"], "shl": ["shr"], "shr": ["shl"], "btc": ["btr"], "rax": ["rcx", "rdx"], "rcx": ["rax", "rdx"], "rdx": ["rcx", "rsi"], "rsi": ["rdx"], "rdi": ["rsi"], "r8": ["r9"], "r9": ["r8"], "r10": ["r11"], "r11": ["r10"], "eax": ["ecx"], "ecx": ["eax"]}

def mutants(text, lang):
    lines = text.split("\n")
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("template") or s.startswith("*"):
            continue
        code = l.split("//")[0] if lang != "asm" else l.split(";")[0]
        if re.match(r"\s*[\w.\->\[\]]+(\(|\s*[-+*|&^]?=[^=]).*;\s*$", code) or (lang == "asm" and re.match(r"\s+(mov|add|sub|adc|sbb|cmp|and|or|xor|test|sh[lr]d?|j\w+|str|ldr|adds|adcs|subs|sbcs|cs\w+)\b", code)):
            yield i, "", "delete"
        if lang == "asm" and not re.match(r"\s*(pop|push)\b", code):
            for m in re.finditer(r"\b(jc|jnc|jz|jnz|jl|jg|jae|ja|jb|je|jne|js|jns|adc|sbb|add|sub|adds|adcs|cmovc|cmovnc|shl|shr|bt|btc|btr|rax|rcx|rdx|rsi|rdi|r8|r9|r10|r11|eax|ecx|edx)\b", code):
                a, b = m.span()
                for r in ASM.get(m.group(1), []):
                    yield i, code[:a] + r + code[b:], "asm"
        for m in TOK.finditer(code):
            a, b = m.span()
            if code[:a].count('"') % 2 or code[:a].count("'") % 2:
                continue
            if m.group(1):
                n = int(m.group(1))
                for r in (n + 1, n - 1):
                    if r >= 0: yield i, code[:a] + str(r) + code[b:], "const"
            elif m.group(2):
                t = m.group(2)
                if t in "<>" and re.search(r"(include|template|vector|unique_ptr|shared_ptr|function|map|Curve|Field|make_pair|lock\w*|atomic|static_cast)\s*<?[\w:<, *\[\]]*$", code[:a]):
                    continue
                if t in "&*" and not code[a-1:a].isspace(): continue
                if t == "-" and code[a:a+2] == "->": continue
                for r in REL.get(t, []):
                    yield i, code[:a] + r + code[b:], "op"
            elif m.group(3):
                depth, j = 0, b - 1
                while j < len(code):
                    depth += (code[j] == "(") - (code[j] == ")")
                    if depth == 0: break
                    j += 1
                if depth == 0:
                    yield i, code[:b] + "!(" + code[b:j] + ")" + code[j:], "negate"
            elif m.group(4) and "(" in code[:a]:
                for r in ("p1", "p2", "r", "x", "y", "zz", "zzz", "a", "b"):
                    if r != m.group(4) and re.search(r"(?<![\w.>])%s\b" % r, "\n".join(lines[max(0, i - 12):i + 6])) and ((r[0] == "p") == (m.group(4)[0] == "p")): yield i, code[:a] + r + code[b:], "name"

def main():
    out, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3])
    scale = os.environ.get("VERIF_SCALE", "0.3")
    base = "/tmp/mut_" + seed
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.check_call(["cp", "-a", "/repo", base + "/repo"])
    subprocess.check_call(["cp", "-a", V, base + "/verif"])
    env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_SCALE=scale, PYTHONDONTWRITEBYTECODE="1")
    for arg in sys.argv[4:]:
        f, cs = arg.split("=")
        path = os.path.join(base, "repo", f)
        text = open(path).read()
        lang = "asm" if f.endswith((".asm.ejs", ".s.ejs")) else "c"
        ms = list(mutants(text, lang))
        rng = random.Random(seed + f)
        rng.shuffle(ms)
        for i, new, kind in ms[:count]:
            lines = text.split("\n")
            old = lines[i]
            lines[i] = new
            if new == old: continue
            open(path, "w").write("\n".join(lines))
            t0 = time.time()
            res = "SURVIVED"
            for c, lim in [(c, "5") for c in cs.split(",")] + [(c, "0") for c in cs.split(",")]:
                env["VERIF_LIMIT"] = lim
                try:
                    p = subprocess.run([sys.executable, "lib/py/run.py", "--property", c, "--tier", "quick"], cwd=base + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                    o = p.stdout.decode("utf8", "replace")
                    if p.returncode == 1 and "VIOLATION" in o:
                        res = "nobuild" if "does not build" in o else "killed " + c
                        break
                    if p.returncode != 0:
                        res = "ERROR %s %d %s" % (c, p.returncode, o[-300:])
                        break
                except subprocess.TimeoutExpired:
                    res = "TIMEOUT " + c
                    break
            with open(out, "a") as h:
                h.write(json.dumps(dict(file=f, line=i + 1, kind=kind, old=old.strip(), new=new.strip(), result=res, s=round(time.time() - t0, 1))) + "\n")
            shutil.rmtree(base + "/verif/evidence", ignore_errors=True)
        open(path, "w").write(text)
    shutil.rmtree(base, ignore_errors=True)

main()
