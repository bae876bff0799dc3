"""C12: the factory honours the CPU's features and the requested optimization."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import build, pipe
from pipe import ToolError


def emulated_common(c):
    """the sources outside the back ends, with every cpuid and xgetbv replaced by the emulated machine"""
    objs, found = [], 0
    com, _ = build.sources()
    for i, s in enumerate(com):
        asm = os.path.join(c.wd, "common%d.s" % i)
        r = build.run(["g++"] + build.BASE + build.COMMON + ["-mno-red-zone", "-S"] + build.includes() + [os.path.join(build.REPO, s), "-o", asm])
        if r.returncode:
            raise build.BuildError("compiling %s failed:\n%s" % (s, r.stderr.decode()[-3000:]))
        t = open(asm).read()
        t, a = re.subn(r"(?m)(^|;|\t)\s*cpuid\b", r"\1\tcall emu_cpuid", t)
        t, b = re.subn(r"(?m)(^|;|\t)\s*xgetbv\b", r"\1\tcall emu_xgetbv", t)
        t = t.replace("__cpu_model", "emu_cpu_model").replace("__cpu_features2", "emu_cpu_features2").replace("__cpu_indicator_init", "emu_cpu_init")
        found += a + t.count("emu_cpu_model")
        open(asm, "w").write(t)
        o = asm[:-2] + ".o"
        r = build.run(["g++", "-c", asm, "-o", o])
        if r.returncode:
            raise build.BuildError("assembling %s failed:\n%s" % (s, r.stderr.decode()[-3000:]))
        objs.append(o)
    if not found:
        raise ToolError("no feature detection found that could be emulated")
    return objs


def driver(c):
    objs = emulated_common(c)
    lib = build.lib_objects(common=False)
    d = os.path.join(build.VERIF, "driver", "dispatch")
    emu = []
    for f, fl in (("emu.c", ["-O2", "-mgeneral-regs-only"]), ("emu.S", [])):
        o = os.path.join(c.wd, f + ".o")
        r = build.run(["gcc"] + fl + ["-c", os.path.join(d, f), "-o", o])
        if r.returncode:
            raise build.BuildError(r.stderr.decode())
        emu.append(o)
    drv = build.driver_objects(["dispatch/disp.cpp", "alloc.cpp"], ["-std=c++17", "-O2", "-fopenmp", "-w"], "ddrv")
    exe = build.link(objs + lib + drv + emu, os.path.join(c.wd, "disp"), ["-no-pie", "-fopenmp", "-lpthread"] + build.WRAPFLAGS + ["-Wl,--wrap=" + f for f in ("__cxa_throw", "sin", "cos", "sincos")])
    mine = set()
    for o in drv + emu:
        for l in build.run(["nm", "--defined-only", o]).stdout.decode().splitlines():
            mine.add(l.split()[-1])
    com = set()
    for o in objs:
        for l in build.run(["nm", "--defined-only", o]).stdout.decode().splitlines():
            com.add(l.split()[-1])
    n = [0] * 5
    with open(exe + ".map", "w") as f:
        for l in build.run(["nm", "-S", "--defined-only", exe]).stdout.decode().splitlines():
            w = l.split()
            if len(w) != 4 or w[2] not in "tTwWiI":
                continue
            nm = w[3]
            be = 3 if "10OTFFT_AVX2" in nm else 2 if "9OTFFT_AVX" in nm else 1 if "10OTFFT_SSE2" in nm else 0
            if not be and (nm in com or "5OTFFT" in nm) and not (nm in mine and nm not in com):
                be = 4
            if be:
                f.write("%s %s %d\n" % (w[0], w[1], be)); n[be] += 1
    if not all(n[1:]):
        raise ToolError("a back end's code was not found in the executable: %s" % n)
    c.log("driver on emulated machines built (%d/%d/%d/%d functions)" % tuple(n[1:]))
    return exe


def registers(m):
    """what the machine reports, as register values"""
    cpu, oth = m["cpu"], m["others"]
    M = 0xFFFFFFFF
    noise = {"none": 0, "all": M, "mixed": 0x5A5A5A5A}[oth]
    own1c = 1 << 26 | 1 << 27 | 1 << 28
    l1c = (noise & ~own1c) | cpu["xsave"] << 26 | cpu["osxsave"] << 27 | cpu["avx"] << 28
    l1d = (noise & ~(1 << 26)) | cpu["sse2"] << 26
    l7b = (noise & ~(1 << 5)) | cpu["avx2"] << 5
    ext = []
    if cpu["leaf1"]:
        if l1c & 1:
            ext.append("SSE3")
        if l1c & (1 << 9) and l1c & (1 << 19):
            ext.append("SSSE3")
        if l1c & (1 << 12) and cpu["avx"] and cpu["ymm"]:
            ext.append("FMA")
    return m["max"], l1c, l1d, l7b, m["xcr"], noise, ext


def main(c):
    T = c.thorough
    r = c.rng
    c.model("MCDispatch.tla", "MCDispatch.cfg", name="choice of the back end, all machines")
    out = c.model("GenDispatch.tla", "GenDispatch.cfg", name="machines")
    ms = [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"{')]
    ms.sort(key=json.dumps)
    exe = driver(c)
    combos = [(k, q) for k in "CRDB" for q in ("AUTO", "SSE2", "AVX", "AVX2")]
    scripts = []
    for rep in range(6 if T else 1):
        for i, m in enumerate(ms):
            *v, ext = registers(m)
            cpu = dict(m["cpu"], others=ext)
            lines = ["M %d %d %d %d %d %d %s" % (tuple(v) + (json.dumps(cpu, separators=(",", ":")),))]
            order = combos[:]
            r.shuffle(order)
            first = combos[(i + rep * 5) % 16]            # every call is the one that detects, on some machine
            order.remove(first); order.insert(0, first)
            live = []
            for o, (k, q) in enumerate(order, 1):
                n = r.choice([0, 0, 2, 4, 6, 8, 10, 16, 32, 64] if T or r.random() < 0.05 else [0, 0, 2, 4, 6, 8])
                lines.append("c %d %s %s %d" % (o, k, q, n))
                lines.append("u %d %d" % (o, n if n and r.random() < 0.7 else r.choice([2, 4, 6, 8])))
                live.append(o)
                while live and r.random() < 0.6:
                    lines.append("d %d" % live.pop(r.randrange(len(live))))
            lines += ["d %d" % o for o in live]
            scripts.append(lines)
    jobs = 8
    parts = [scripts[k::jobs * 2] for k in range(jobs * 2)]

    def go(t):
        i, part = t
        sp, op = os.path.join(c.wd, "d%d.txt" % i), os.path.join(c.wd, "d%d.ndjson" % i)
        open(sp, "w").write("".join("\n".join(p) + "\n" for p in part))
        p = subprocess.run([exe, sp, op, exe + ".map"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, OMP_NUM_THREADS="1"))
        if p.returncode:
            raise ToolError("driver failed: %d %s" % (p.returncode, p.stderr.decode()[-500:]))
        ev = open(op).read().splitlines()
        rc, out = pipe.tlc("TraceDispatch.tla", "TraceDispatch.cfg", c.wd, dict(TRACE=op))
        st, tr = pipe.tlc_stats(out)
        steps = sum(int(x) for x in re.findall(r'"steps":(\d+)', "\n".join(ev)))
        if rc == 0:
            return st, tr, len(part), len(ev), steps, None
        m = re.search(r'"REJECTED", (\d+)', out)
        if not m:
            raise ToolError("trace validation failed to run: " + out[-2000:])
        n = int(m.group(1)) - 1
        s = max(k for k in range(n + 1) if ev[k].startswith('{"e":"cpu"'))
        return st, tr, len(part), len(ev), steps, ev[s:n + 1]
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(go, enumerate(parts)))
    c.cov["states"] += sum(x[0] for x in res); c.cov["transitions"] += sum(x[1] for x in res)
    c.cov["traces_validated_against_impl"] += sum(x[2] for x in res)
    c.cov["parts"].append(dict(part="factory calls on emulated machines", kind="conformance: machines enumerated by TLC, executed instruction by instruction, recorded traces validated by TLC",
                               machines=len(ms), processes=sum(x[2] for x in res), trace_lines=sum(x[3] for x in res), instructions_observed=sum(x[4] for x in res)))
    c.cov["samples"].append(dict(machine=ms[len(ms) // 2], script=scripts[len(scripts) // 2][1:8]))
    c.log("%d machines, %d calls, %d instructions observed" % (sum(x[2] for x in res), sum(x[3] for x in res), sum(x[4] for x in res)))
    for x in res:
        if x[5]:
            c.violation("the specification does not allow %s on the machine %s" % (x[5][-1], x[5][0]), dict(history=x[5]))
