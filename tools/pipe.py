#!/usr/bin/env python3
"""script -> (TLC: elaboration) -> behaviours -> (driver: real code) -> trace -> (TLC: validation)"""
import json, os, re, shutil, subprocess, sys, tempfile, time, random
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
JOBS = max(2, min(8, os.cpu_count() or 8))
OPS = ["fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"]
BECODE = {"SSE2": "S", "AVX": "V", "AVX2": "W", "AUTO": "A"}


class ToolError(Exception):
    pass


def tlc(spec, cfg, workdir, env=None, workers=1, extra=(), timeout=800, heap="3g", ok_codes=(0,)):
    """run TLC; returns (rc, output)"""
    meta = tempfile.mkdtemp(prefix="meta", dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -XX:TieredStopAtLevel=%d -Djava.io.tmpdir=%s" % (heap, 4, workdir)
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [spec]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timeout on %s" % spec)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode(errors="replace")


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states", out)
    if m:
        return int(m[-1][1].replace(",", "")), int(m[-1][0].replace(",", ""))
    return 0, 0


def cpu_record():
    fl = set()
    for line in open("/proc/cpuinfo"):
        if line.startswith("flags"):
            fl = set(line.split(":")[1].split())
            break
    avx = "avx" in fl
    return dict(leaf1=True, leaf7=True, sse2="sse2" in fl, xsave="xsave" in fl or avx, osxsave="xsave" in fl or avx,
                avx=avx, avx2="avx2" in fl, ymm=avx)


def backends():
    c = cpu_record()
    return [b for b, f in (("SSE2", "sse2"), ("AVX", "avx"), ("AVX2", "avx2")) if c[f]]


# ------------------------------------------------------------------ scripts
class Case:
    """a script: list of steps (dicts) + driver settings"""
    def __init__(self, fill=0, guard=0, thr=1, cost=1.0, label=""):
        self.steps, self.fill, self.guard, self.thr, self.cost, self.label = [], fill, guard, thr, cost, label
        self.grp = None                    # cases that are compared with each other (list shared by its members)
        self.n = {}

    def create(self, o, kind, n, req="AUTO", fail=0):
        self.n[o] = n
        self.steps.append(dict(e="create", o=o, kind=kind, n=n, req=req, fail=fail)); return self

    def raw(self, o, kind, n, be):
        """a transform without work arrays of its own (FFT0, DCT0), of a named back end"""
        self.n[o] = n
        self.steps.append(dict(e="raw", o=o, kind=kind, n=n, req=be)); return self

    def share(self, o, of):
        """slot o: a further user, with arrays of his own, of the object in slot `of'"""
        self.n[o] = self.n[of]
        self.steps.append(dict(e="share", o=o, of=of)); return self

    def drop(self, o):
        self.steps.append(dict(e="drop", o=o)); return self

    def setup(self, o, n, fail=0):
        self.n[o] = n
        self.steps.append(dict(e="setup", o=o, n=n, fail=fail)); return self

    def destroy(self, o):
        self.steps.append(dict(e="destroy", o=o)); return self

    def x(self, o, op, src, fl=0):
        if self.n.get(o) == 0:         # length 0: nothing to transform
            return self
        self.steps.append(dict(e="x", o=o, op=op, src=src, fl=fl)); return self

    def rep(self, count):
        """the setup or transform that follows is called `count' times"""
        self.steps.append(dict(e="rep", count=count)); return self

    def cmp(self, a, b):
        self.steps.append(dict(e="cmp", a=a, b=b)); return self

    def lin(self, o, a, b):
        self.steps.append(dict(e="lin", o=o, a=a, b=b)); return self

    def envs(self, fill, guard, thr):
        self.steps.append(dict(e="env", fill=fill, guard=guard, thr=thr)); return self

    def user(self, rc=0, ftz=0, thr=1, dyn=0, ml=1, par=0):
        """the caller's rounding mode, flush modes, thread settings; par > 0: calls come from inside a parallel region"""
        self.steps.append(dict(e="user", rc=rc, ftz=ftz, thr=thr, dyn=dyn, ml=ml, par=par)); return self

    def sched(self, T, mode=0, seed=1, perm=()):
        self.steps.append(dict(e="sched", T=T, mode=mode, seed=seed, perm=list(perm))); return self

    def par(self, seed, team=0):
        """what follows up to endpar runs concurrently, one user thread per job (team > 0: the members of an OpenMP team
        of the user's, with that many active levels)"""
        self.steps.append(dict(e="par", seed=seed, team=team)); return self

    def job(self, o):
        self.steps.append(dict(e="job", o=o)); return self

    def endpar(self):
        self.steps.append(dict(e="endpar")); return self

    def end(self):
        self.steps.append(dict(e="end")); return self


def sigtxt(s):
    return "%d %s" % (len(s), " ".join(" ".join(str(v) for v in t) for t in s))


def step_line(st, exp):
    e = st["e"]
    if e == "create":
        return "c %d %s %d %s %d" % (st["o"], st["kind"], st["n"], BECODE[st["req"]], st["fail"])
    if e == "raw":
        return "R %d %s %d %s" % (st["o"], st["kind"], st["n"], BECODE[st["req"]])
    if e == "share":
        return "h %d %d" % (st["o"], st["of"])
    if e == "drop":
        return "g %d" % st["o"]
    if e == "setup":
        return "s %d %d %d" % (st["o"], st["n"], st["fail"])
    if e == "destroy":
        return "d %d" % st["o"]
    if e == "cmp":
        return "m %d %d" % (st["a"], st["b"])
    if e == "lin":
        return "l %d %d %d" % (st["o"], st["a"], st["b"])
    if e == "env":
        return "v %d %d %d" % (st["fill"], st["guard"], st["thr"])
    if e == "rep":
        return "r %d" % st["count"]
    if e == "user":
        return "u %d %d %d %d %d %d" % (st["rc"], st["ftz"], st["thr"], st["dyn"], st["ml"], st["par"])
    if e == "sched":
        return "w %d %d %d %d %s" % (st["T"], st["mode"], st["seed"], len(st["perm"]), " ".join(map(str, st["perm"])))
    if e == "par":
        return "P %d %d" % (st["seed"], st.get("team", 0))
    if e == "job":
        return "J %d" % st["o"]
    if e == "endpar":
        return "Q"
    if e == "end":
        return "E"
    src = st["src"]
    t = "x %d %d %d %s" % (st["o"], OPS.index(st["op"]), st["fl"], src[0])
    if src[0] == "L":
        t += " " + sigtxt(src[1])
    elif src[0] in "RNS":
        t += " %d %d" % (src[1], src[2])
    t += (" E " + sigtxt(exp)) if exp else " -"
    return t


DEF_X = dict(rd=0, r=0, h="", herm=1, z=1, nnc=0, nn=[], can=1, hc=1, bf=0, na=0, fp=[], orph=0)


def balance(cases, parts):
    bins = [[0.0, []] for _ in range(parts)]
    units, seen = [], set()
    for c in cases:
        if c.grp is None:
            units.append([c])
        elif id(c.grp) not in seen:
            seen.add(id(c.grp)); units.append(c.grp)
    for u in sorted(units, key=lambda u: -sum(c.cost for c in u)):
        b = min(bins, key=lambda b: b[0])
        b[0] += sum(c.cost for c in u)
        b[1] += u
    return [b[1] for b in bins if b[1]]


class Pipe:
    def __init__(self, focus, workdir, exe=None, env=None):
        self.focus, self.wd, self.exe, self.env = focus, workdir, exe, env or {}
        self.cfg = os.path.join(workdir, "tcfg.json")
        json.dump(dict(focus=list(focus) or ["life"], cpu=cpu_record()), open(self.cfg, "w"))
        self.stats = dict(states=0, transitions=0, traces=0, steps=0, xforms=0, maxr=0)
        self.seq = 0

    # -- pass 1
    def elaborate(self, cases, tag):
        path = os.path.join(self.wd, "script-%s.ndjson" % tag)
        lines, where = [], []
        for ci, c in enumerate(cases):
            lines.append(dict(e="reset")); where.append(None)
            for si, s in enumerate(c.steps):
                lines.append({k: v for k, v in s.items() if k != "fl"}); where.append((ci, si))
        with open(path, "w") as f:
            for x in lines:
                f.write(json.dumps(x) + "\n")
        rc, out = tlc("Elab.tla", "Elab.cfg", self.wd, dict(SCRIPT=path, TCFG=self.cfg))
        if rc != 0:
            m = re.search(r'"STUCK", (\d+)', out)
            where_ = lines[int(m.group(1)) - 1] if m and int(m.group(1)) <= len(lines) else ""
            raise ToolError("elaboration failed (%s): %s\n%s" % (tag, where_, out[-1500:]))
        st, tr = tlc_stats(out)
        self.stats["states"] += st; self.stats["transitions"] += tr
        exp = [[None] * len(c.steps) for c in cases]
        for m in re.finditer(r'^"(\{.*\})"$', out, re.M):
            d = json.loads(json.loads('"' + m.group(1) + '"'))
            ci, si = where[d["l"] - 1]
            exp[ci][si] = d["x"]
        os.unlink(path)
        return exp

    # -- pass 2
    def drive(self, cases, exp, tag, limit=None):
        sp = os.path.join(self.wd, "drv-%s.txt" % tag)
        op = os.path.join(self.wd, "out-%s.ndjson" % tag)
        with open(sp, "w") as f:
            for ci, c in enumerate(cases):
                f.write("C %d %d %d %d\n" % (ci, c.fill, c.guard, c.thr))
                for si, s in enumerate(c.steps):
                    f.write(step_line(s, exp[ci][si] if exp else None) + "\n")
        e = dict(os.environ)
        e.update(self.env)
        e.setdefault("OMP_WAIT_POLICY", "passive")
        r = subprocess.run([self.exe, sp, op], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise ToolError("driver failed rc=%d: %s" % (r.returncode, r.stderr.decode()[-1000:]))
        obs = {}
        for n, line in enumerate(open(op)):
            d = json.loads(line)
            d["_n"] = n
            if "crash" in d:
                obs.setdefault((d["c"], d["s"]), {}).update(crash=d["crash"])
            else:
                obs[(d["c"], d["s"])] = d
        os.unlink(sp); os.unlink(op)
        return obs

    # -- trace
    def trace_lines(self, cases, exp, obs):
        lines, where = [], []

        def add(d, ci, si):
            lines.append(d); where.append((ci, si))

        def call(ci, si, s, o):
            for r in o.get("reg", []):
                add(dict(e="fork", T=r["T"]), ci, si)
                for ep in r["ep"]:
                    add(dict(e="epoch", arr=ep["arr"], kind=ep["kind"], pat=ep["pat"]), ci, si)
                self.stats["regions"] = self.stats.get("regions", 0) + 1
                self.stats["epochs"] = self.stats.get("epochs", 0) + len(r["ep"])
            d = {k: v for k, v in s.items() if k not in ("fl", "fail", "seed", "perm")}
            if s["e"] == "x":
                d.update(DEF_X); d["exp"] = (exp[ci][si] if exp else None) or []
                d["in"] = 1
                d["fin"] = 0 if s["src"][0] in "FINK" else 1
                self.stats["xforms"] += 1
            elif s["e"] in ("create", "setup", "destroy", "raw"):
                d["fp"] = []; d["orph"] = 0
            d.update({k: v for k, v in o.items() if k not in ("c", "s", "at", "us", "reg", "pre", "_n")})
            if s["e"] == "x" and 0 < d["r"] < 2000000000:
                self.stats["maxr"] = max(self.stats["maxr"], d["r"])
            self.stats["preemptions"] = self.stats.get("preemptions", 0) + o.get("pre", 0)
            add(d, ci, si)

        for ci, c in enumerate(cases):
            add(dict(e="reset"), ci, -1)
            si, n = 0, len(c.steps)
            while si < n:
                if c.steps[si]["e"] == "par":
                    z = si
                    while c.steps[z]["e"] != "endpar":
                        z += 1
                    got = [(obs[(ci, k)]["_n"], k) for k in range(si, z + 1) if (ci, k) in obs]
                    order = [k for _, k in sorted(got)]                # the order in which the calls returned
                else:
                    z = si
                    order = [si] if (ci, si) in obs else []
                crashed = [k for k in order if "crash" in obs[(ci, k)]]
                for k in order:
                    if k not in crashed:
                        call(ci, k, c.steps[k], obs[(ci, k)])
                if crashed:
                    add(dict(e="crash", what=obs[(ci, crashed[0])]["crash"]), ci, crashed[0]); break
                if len(order) < z + 1 - si:
                    break
                si = z + 1
        return lines, where

    # -- pass 3
    def validate(self, lines, tag):
        path = os.path.join(self.wd, "trace-%s.ndjson" % tag)
        with open(path, "w") as f:
            for x in lines:
                f.write(json.dumps(x) + "\n")
        rc, out = tlc("TraceOTFFT.tla", "TraceOTFFT.cfg", self.wd, dict(TRACE=path, TCFG=self.cfg))
        st, tr = tlc_stats(out)
        self.stats["states"] += st; self.stats["transitions"] += tr
        m = re.search(r'"REJECTED", (\d+)', out)
        os.unlink(path)
        if rc == 0:
            return None
        if m:
            return int(m.group(1)) - 1
        raise ToolError("trace validation failed to run: " + out[-2500:])

    def run_chunk(self, cases, tag):
        """returns list of (case, step index, trace line) that were rejected (first per chunk pass)"""
        need = any(s["e"] == "x" and s["src"][0] in ("L",) for c in cases for s in c.steps)
        exp = self.elaborate(cases, tag) if need else None
        obs = self.drive(cases, exp, tag)
        lines, where = self.trace_lines(cases, exp, obs)
        self.stats["traces"] += len(cases); self.stats["steps"] += len(lines)
        bad = self.validate(lines, tag)
        if bad is None:
            return None
        ci, si = where[bad]
        return cases[ci], si, lines[bad], cases[:ci + 1]

    def run(self, cases, parts=JOBS, jobs=JOBS):
        chunks = balance(cases, parts)
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda t: self.run_chunk(t[1], "%d" % t[0]), enumerate(chunks)))
        return [r for r in res if r]
