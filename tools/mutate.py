#!/usr/bin/env python3
"""Mutation campaign (development tool, not run by any check): random small changes to a scratch copy of the library,
each one tried against the checks until one reports it.
  mutate.py SCRATCH_COPY OUT.jsonl COUNT SEED [FILE-REGEX [LINE-REGEX]]
VERIF_MUT_ALL=1: survivors of the likely checks are tried against all the others too."""
import json, os, random, re, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR, OUT, COUNT, SEED = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
PAT = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
LPAT = re.compile(sys.argv[6] if len(sys.argv) > 6 else ".")
R = random.Random(SEED)
SWAP = [("addpz2", "subpz2"), ("subpz2", "addpz2"), ("addpz", "subpz"), ("subpz", "addpz"), ("v8xpz2", "w8xpz2"), ("w8xpz2", "v8xpz2"), ("h1xpz2", "hfxpz2"),
        ("jxpz2", "mjxpz2"), ("scale_1", "scale_length"), ("scale_length", "scale_1"), ("scale_unitary", "scale_length"), ("cnjpz", "negpz"), ("fwd0", "fwd"),
        ("duppz2", "duppz3"), ("duppz3", "duppz2"), ("cos", "sin"), ("sin", "cos"), ("inv0", "invn"), ("fwdfft", "invfft"), ("static", "static nowait"),
        ("true", "false"), ("false", "true"), ("swap", ""), ("eo", "!eo"), ("mode", "scale_1"), ("haddpz", "addpz"), ("fwdu", "fwd0"), ("invu", "inv0")]


def mutants(line):
    s = line.rstrip("\r\n")
    out = []
    c = s.split("//")[0]
    if not c.strip() or c.strip().startswith(("*", "/*", "#include", "#if", "#end", "#else", "#def", "namespace", "template", "using")):
        return out
    for m in re.finditer(r" ([+\-]) ", c):
        out.append(c[:m.start(1)] + ("-" if m.group(1) == "+" else "+") + c[m.end(1):])
    for m in re.finditer(r"(?<=[\w\])])([+\-])(?=[\w(])", c):
        out.append(c[:m.start(1)] + ("-" if m.group(1) == "+" else "+") + c[m.end(1):])
    for m in re.finditer(r" (<=|>=|<|>|==|!=) ", c):
        out.append(c[:m.start(1)] + {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}[m.group(1)] + c[m.end(1):])
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", c):
        v = int(m.group(1))
        for w in (v + 1, v - 1):
            if w >= 0:
                out.append(c[:m.start(1)] + str(w) + c[m.end(1):])
    for a, b in SWAP:
        for m in re.finditer(r"\b%s\b" % a, c):
            out.append(c[:m.start()] + b + c[m.end():])
    for m in re.finditer(r"\b([a-z]+)(\d)([a-z]*)\b", c):
        if m.group(1) not in ("fwd", "inv", "log", "getpz", "setpz", "addpz", "subpz", "mulpz", "int"):
            out.append(c[:m.start(2)] + str((int(m.group(2)) + 1) % 8) + c[m.end(2):])
    for m in re.finditer(r"\b(\w+)\((\w[\w\[\]+*]*), (\w[\w\[\]+*]*)\)", c):
        out.append(c[:m.start(2)] + m.group(3) + ", " + m.group(2) + c[m.end(3):])
    if c.strip().endswith(";") and ("set" in c or "=" in c or "(" in c) and not re.match(r"\s*(const|return|int|double|[xy]mm|complex|auto|struct|class|static|inline)", c):
        out.append("")
    if "#pragma omp" in c:
        out += ["", c + " nowait"] if "for" in c or "single" in c else [""]
    return [x for x in out if x != c]


ORDER = [(r"otfft_complex", ["C17", "C01", "C05"]), (r"otfft\.cpp", ["C12", "C16", "C08", "C14", "C15", "C01", "C02", "C03", "C04", "C05", "C06"]),
         (r"otfft_types|otfft_misc|otfft_platform", ["C18", "C01", "C05", "C06", "C15", "C02", "C03", "C04"]),
         (r"otfft_algo\.cpp", ["C01", "C05", "C03", "C04", "C06", "C15", "C13", "C16", "C08", "C02", "C09", "C07", "C20", "C14"]), (r".", ["C01", "C02", "C13", "C03", "C06", "C15"])]
ALL = ["C%02d" % k for k in range(1, 21)]
SIB = {p: None for p in ALL}


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    files = [f for f in sh("git", "-C", SCR, "ls-files", "src", "inc").stdout.split() if f.endswith((".h", ".cpp")) and PAT.search(f) and "dit16" not in f]
    pool = {}
    for f in files:
        ls = open(os.path.join(SCR, f), encoding="latin-1", newline="").read().split("\n")
        c = [(i, m) for i, l in enumerate(ls) if LPAT.search(l) for m in mutants(l)]
        if c:
            pool[f] = (ls, c)
    fs = sorted(pool)
    for k in range(COUNT):
        f = R.choices(fs, [len(pool[x][1]) ** 0.5 for x in fs])[0]
        ls, c = pool[f]
        i, m = R.choice(c)
        nl = list(ls); nl[i] = m + ("\r" if ls[i].endswith("\r") else "")
        p = os.path.join(SCR, f)
        open(p, "w", encoding="latin-1", newline="").write("\n".join(nl))
        order = next(o for r, o in ORDER if re.search(r, f))
        if os.environ.get("VERIF_MUT_ALL"):
            order = order + [x for x in ALL if x not in order]
        t = time.time(); hit = None; log = []
        for pid in order:
            r = sh(sys.executable, os.path.join(HERE, "check.py"), pid, env=dict(os.environ, VERIF_REPO=SCR))
            log.append((pid, r.returncode))
            if r.returncode == 1:
                hit = pid
                why = [l for l in r.stdout.split("\n") if "violation:" in l][:1]
                break
            if r.returncode != 0:
                hit = "rc%d" % r.returncode; why = [r.stdout[-500:]]
                break
        open(p, "w", encoding="latin-1", newline="").write("\n".join(ls))
        with open(OUT, "a") as o:
            o.write(json.dumps(dict(k=k, file=f, line=i + 1, old=ls[i].strip(), new=m.strip(), hit=hit, tried=len(log), s=round(time.time() - t), why=why if hit else [])) + "\n")


main()
