"""C18: simd_array owns its memory."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import build, pipe
from pipe import ToolError

# (name, compiler command, alignment the build's widest vectors need, cpu feature)
VARIANTS = [("g++ -O2 SSE2", ["g++", "-std=c++11", "-O2", "-msse2"], 16, "sse2"), ("g++ -O3 AVX", ["g++", "-std=c++11", "-O3", "-mavx"], 32, "avx"),
            ("g++ -O0 AVX2", ["g++", "-std=c++17", "-O0", "-mavx2"], 32, "avx2"), ("g++ -O2 AVX512F", ["g++", "-std=c++17", "-O2", "-mavx512f"], 64, "avx512f"),
            ("clang++ -O2 AVX2", ["clang++", "-std=c++17", "-O2", "-mavx2"], 32, "avx2")]
TYPES = [1, 2, 4, 8, 16, 24, 56]


def features():
    for l in open("/proc/cpuinfo"):
        if l.startswith("flags"):
            return set(l.split(":")[1].split())
    return set()


def gen(c, depth, slots, sizes, sim=0):
    extra = ["-simulate", "num=%d" % sim, "-depth", str(depth + 5), "-seed", str(c.seed)] if sim else []
    rc, out = pipe.tlc("GenSimd.tla", "GenSimd.cfg", c.wd, dict(DEPTH=str(depth), SLOTS=str(slots), SIZES=sizes), workers=1 if sim else 8, extra=extra)
    hs = [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"[')]
    if not hs or (rc and not sim):
        raise ToolError("history generation failed: " + out[-1500:])
    if not sim:
        st, tr = pipe.tlc_stats(out)
        c.cov["states"] += st; c.cov["transitions"] += tr
    return hs


def run_variant(c, t):
    i, (name, cmd, align, _), text, alloc = t
    d = os.path.join(build.VERIF, "driver")
    exe = os.path.join(c.wd, "simd%d" % i)
    cc = cmd + ["-w", "-I" + os.path.join(build.REPO, "inc")]
    r = subprocess.run(cc + [os.path.join(d, "simd", "simd.cpp"), alloc, "-o", exe, "-lpthread"] + build.WRAPFLAGS,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=build.ENV)
    if r.returncode:
        raise build.BuildError("%s: %s" % (name, r.stderr.decode()[-3000:]))
    sp, op = exe + ".in", exe + ".out"
    open(sp, "w").write(text)
    r = subprocess.run([exe, sp, op], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    lines = open(op).read().splitlines()
    if r.returncode:
        lines.append(json.dumps(dict(e="crash", what=r.returncode)))
    return lines


def main(c):
    T = c.thorough
    c.model("MCSimd.tla", "MCSimd.cfg", name="ownership of numbered blocks")
    rng = c.rng
    hists = []
    for h in gen(c, 6 if T else 5, 1, "small") + gen(c, 5 if T else 4, 3, "small"):
        hists.append(h)
    if T and len(hists) > 60000:
        hists = rng.sample(hists, 60000)
    elif not T and len(hists) > 9000:
        hists = hists[:3111] + rng.sample(hists[3111:], 5000)
    hists += gen(c, 40, 3, "many", 1500 if T else 300)
    c.log("%d histories" % len(hists))
    text = []
    for k, h in enumerate(hists):
        text.append("R %d %d\n" % (TYPES[k % 7], rng.choice([0, 0, 0, 1]) if len(h) < 10 else 0))
        for o in h:
            text.append("O %s %d %d %d %d\n" % tuple(o))
        # whatever is left is released
        st = {}
        for op, s, n, f, v in h:
            if op in ("ctor0", "setup", "destroy") or (op in ("ctor", "malloc") and not f):
                st[s] = 1
            elif op in ("dtor", "free"):
                st[s] = 0
        for s in st:
            if st[s]:
                text.append("O %s %d 0 0 0\n" % ("free" if s == 3 else "dtor", s))
    # requests beyond 2^31 bytes: what is asked for, and that the failure is reported
    for ty in TYPES:
        for n in (2147483647, 1 << 30, (1 << 31) // ty + 1, (1 << 32) // ty + 1, 268435456, 134217728 + 5):
            if n > 2147483647:
                continue
            text.append("R %d 0\n" % ty)
            text += ["B ctor 1 %d 1 0\n" % n, "O ctor 1 4 0 0\n", "O write 1 0 0 1\n", "B setup 1 %d 1 0\n" % n, "O setup 1 3 0 0\n", "O write 1 0 0 2\n", "O read 1 0 0 0\n",
                     "B malloc 3 %d 1 0\n" % n, "O dtor 1 0 0 0\n"]
    text = "".join(text)
    fl = features()
    alloc = build.driver_objects(["alloc.cpp"], ["-std=c++17", "-O2", "-fopenmp", "-w"], "drv")[0]
    vs = [v for v in VARIANTS if v[3] in fl]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: run_variant(c, t), [(i, v, text, alloc) for i, v in enumerate(vs)]))
    jobs = []
    for (name, _, align, _), lines in zip(vs, res):
        # cut at resets into pieces
        starts = [i for i, l in enumerate(lines) if l.startswith('{"e":"reset"')]
        n = max(1, len(starts) // 3 + 1)
        for a in range(0, len(starts), n):
            z = starts[a + n] if a + n < len(starts) else len(lines)
            jobs.append((name, align, lines[starts[a]:z]))
        c.cov["traces_validated_against_impl"] += len(starts)

    def val(t):
        i, (name, align, lines) = t
        p = os.path.join(c.wd, "strace%d.ndjson" % i)
        open(p, "w").write("\n".join(lines) + "\n")
        rc, out = pipe.tlc("TraceSimd.tla", "TraceSimd.cfg", c.wd, dict(TRACE=p, ALIGN=str(align)))
        st, tr = pipe.tlc_stats(out)
        c.cov["states"] += st; c.cov["transitions"] += tr
        os.unlink(p)
        if rc == 0:
            return None
        m = re.search(r'"REJECTED", (\d+)', out)
        if not m:
            raise ToolError("trace validation failed to run: " + out[-2000:])
        n = int(m.group(1)) - 1
        s = max(k for k in range(n + 1) if lines[k].startswith('{"e":"reset"'))
        return name, lines[s:n + 1]
    with ThreadPoolExecutor(8) as ex:
        rej = [r for r in ex.map(val, enumerate(jobs)) if r]
    c.cov["parts"].append(dict(part="histories", kind="conformance: histories enumerated by TLC, executed, recorded traces validated by TLC",
                               histories=len(hists), element_sizes=TYPES, variants=[v[0] for v in vs], trace_lines=sum(map(len, res))))
    c.cov["samples"].append(dict(history=hists[len(hists) // 2]))
    c.log("%d trace lines validated" % sum(map(len, res)))
    if rej:
        name, h = rej[0]
        c.violation("%s: the specification does not allow %s" % (name, h[-1]), dict(variant=name, history=h))
