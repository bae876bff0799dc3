"""C17: complex_t obeys complex arithmetic, also when operands alias."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import build, pipe
from pipe import ToolError

VARIANTS = [("g++ -O0", ["g++", "-std=c++11", "-O0"]), ("g++ -O2", ["g++", "-std=c++17", "-O2"]),
            ("g++ -O3 avx2", ["g++", "-std=c++11", "-O3", "-mavx2", "-fopenmp"]), ("clang++ -O2", ["clang++", "-std=c++17", "-O2"])]
MORE = [("g++ -Os", ["g++", "-std=c++20", "-Os"]), ("clang++ -O3 avx", ["clang++", "-std=c++11", "-O3", "-mavx"]),
        ("clang++ -O0", ["clang++", "-std=c++20", "-O0"]), ("g++ -O3 lto-style unroll", ["g++", "-std=c++14", "-O3", "-funroll-loops", "-fno-strict-aliasing", "-mavx"])]


def degree(g):
    o = g["op"]
    if o in ("mul", "mul=", "rmulRe=", "rmulIm=", "smulRe", "norm"):
        return 2
    if o in ("div", "rdivz", "rdivRe=", "rdivIm=", "arg"):
        return 0
    return 1


def num(x, lit, scaled=False):
    t = "%d.0" % x if lit else "X[%d]" % (x + 32)
    return "std::ldexp(%s, SC)" % t if scaled else t


def stmt(g, names, lit=True, scaled=False):
    """the instruction as C++; `out` receives a real result"""
    D = names[g["d"] - 1] if g["d"] else "out"
    A = names[g["a"] - 1] if g["a"] else ""
    B = names[g["b"] - 1] if g["b"] else ""
    o = g["op"]
    x, y = num(g["x"], lit), num(g["y"], lit)
    if scaled and o in ("set", "setr", "asg", "addr", "subr", "rsub"):
        x, y = num(g["x"], lit, True), num(g["y"], lit, True)
    if scaled and o == "rdivz":
        x = num(g["x"], lit, True)
    t = {"set": "{D} = complex_t({x}, {y});", "setr": "{D} = complex_t({x});", "asg": "{D} = {x};", "def": "{D} = complex_t();",
         "copy": "{D} = {A};", "std": "{{ const std::complex<double> t = {A}; {D} = t; }}", "conj": "{D} = conj({A});", "neg": "{D} = neg({A});",
         "jx": "{D} = jx({A});", "mjx": "{D} = mjx({A});", "add=": "{D} += {A};", "sub=": "{D} -= {A};", "mul=": "{D} *= {A};",
         "rmul=": "{D} *= {x};", "rdiv=": "{D} /= {x};", "rmulRe=": "{D} *= {A}.Re;", "rmulIm=": "{D} *= {A}.Im;", "rdivRe=": "{D} /= {A}.Re;",
         "rdivIm=": "{D} /= {A}.Im;", "add": "{D} = {A} + {B};", "sub": "{D} = {A} - {B};", "mul": "{D} = {A} * {B};", "div": "{D} = {A} / {B};",
         "smul": "{D} = {x} * {A};", "smulRe": "{D} = {B}.Re * {A};", "sdiv": "{D} = {A} / {x};", "addr": "{D} = {A} + {x};", "subr": "{D} = {A} - {x};",
         "rsub": "{D} = {x} - {A};", "mulr": "{D} = {A} * {x};", "rdivz": "{D} = {x} / {A};", "norm": "out = norm({A});", "abs": "out = abs({A});",
         "Re": "out = Re({A});", "Im": "out = Im({A});", "arg": "out = octant(arg({A}));", "stdRe": "out = std::complex<double>({A}).real();",
         "stdIm": "out = std::complex<double>({A}).imag();"}[o]
    return t.format(D=D, A=A, B=B, x=x, y=y)


def gj(g):
    return json.dumps(g, separators=(",", ":"))


def cstr(s):
    return '"' + s.replace('"', '\\"') + '"'


def single_source(singles, progs, rng, scales, trials, seed):
    s = ['#include "cplx.h"\nusing namespace OTFFT;\n']
    ids = {}
    for g, _ in singles:
        k = gj(g)
        if k in ids:
            continue
        i = ids[k] = len(ids)
        deg = "DEG"
        # through pointers: whether operands coincide is decided by the call
        s.append("__attribute__((noinline)) static void p%d(complex_t* d, complex_t* a, complex_t* b, double& out)\n{ (void)d; (void)a; (void)b; (void)out; %s }\n"
                 % (i, stmt_ptr(g)))
        # on local variables
        s.append("__attribute__((noinline)) static void l%d(complex_t* q, double& out)\n{ (void)out; complex_t r1 = q[0], r2 = q[1], r3 = q[2]; %s q[0] = r1; q[1] = r2; q[2] = r3; }\n"
                 % (i, stmt(g, ["r1", "r2", "r3"], i % 2 == 0, True)))
    names = sorted(ids, key=ids.get)
    s.append("struct In { int i; signed char r[6]; };\nstatic const In ins[] = {\n%s};\n" %
             "".join("{%d,{%s}},\n" % (ids[gj(g)], ",".join(map(str, r))) for g, r in singles))
    s.append("struct G { const char* g; int d, a, b, deg; void (*p)(complex_t*, complex_t*, complex_t*, double&); void (*l)(complex_t*, double&); };\nstatic const G gs[] = {\n")
    for k in names:
        g = json.loads(k)
        s.append("{%s,%d,%d,%d,%d,p%d,l%d},\n" % (cstr(k), g["d"], g["a"], g["b"], degree(g), ids[k], ids[k]))
    s.append("};\n")
    for pi, prog in enumerate(progs):
        s.append("__attribute__((noinline)) static void P%d()\n{ complex_t r1, r2, r3; double out = 0; (void)out;\n" % pi)
        sparse = pi % 2 == 1
        for n, g in enumerate(prog):
            lit = (pi + n) % 3 != 0
            s.append(stmt(g, ["r1", "r2", "r3"], lit))
            div = g["op"] in ("div", "rdivz")
            if sparse and not div and g["d"] and n != len(prog) - 1:
                s.append(" run(%s);\n" % cstr(gj(g)))
            else:
                s.append(" rec(%s, %d, 1, r1.Re, r1.Im, r2.Re, r2.Im, r3.Re, r3.Im, out);" % (cstr(gj(g)), g["d"]))
                s.append(" r%d = snap(r%d);\n" % (g["d"], g["d"]) if div else "\n")
        s.append("}\n")
    s.append("static void (*const ps[])() = {%s};\n" % "".join("P%d," % i for i in range(len(progs))) if progs else "static void (*const ps[1])() = {0};\n")
    s.append("""
static void start(const signed char* r) { fprintf(F, "{\\"e\\":\\"start\\",\\"r\\":[%%d,%%d,%%d,%%d,%%d,%%d]}\\n", r[0], r[1], r[2], r[3], r[4], r[5]); }
static double in(int v, unsigned h) { double x = v; if (v == 0 && (h & 1)) x = -0.0; return std::ldexp(x, SC); }
int main(int, char** v)
{
    F = fopen(v[1], "w");
    for (int k = 0; k < 64; k++) X[k] = k - 32;
    static const int scs[] = {%s};
    for (int sc : scs) for (unsigned n = 0; n < sizeof ins / sizeof *ins; n++) {
        const In& t = ins[n]; const G& g = gs[t.i];
        SC = sc;
        for (int form = 0; form < 2; form++) {
            if (form == 0 && sc != 0 && (g.a == 0 || g.deg == 1)) { }
            complex_t q[3]; double out = 0;
            for (int k = 0; k < 3; k++) { q[k].Re = in(t.r[2*k], n * 7 + k + sc); q[k].Im = in(t.r[2*k+1], n * 13 + k / 2 + sc); }
            start(t.r);
            if (form) g.l(q, out); else g.p(g.d ? q + g.d - 1 : q, g.a ? q + g.a - 1 : q, g.b ? q + g.b - 1 : q, out);
            rec(g.g, g.d, g.deg, q[0].Re, q[0].Im, q[1].Re, q[1].Im, q[2].Re, q[2].Im, out);
        }
    }
    SC = 0;
    static const signed char z[6] = {0,0,0,0,0,0};
    for (int k = 0; k < %d; k++) { start(z); ps[k](); }
    approx(%dL, %d);
    fclose(F);
    return 0;
}
""" % (",".join(map(str, scales)), len(progs), trials, seed))
    return "".join(s)


def stmt_ptr(g):
    # names by role, so that the same variable reached through two pointers is not known to be the same
    h = dict(g)
    h["d"], h["a"], h["b"] = (1 if g["d"] else 0), (2 if g["a"] else 0), (3 if g["b"] else 0)
    return stmt(h, ["(*d)", "(*a)", "(*b)"], False, True)


def build_run(c, src, name, cmd, idx):
    p = os.path.join(c.wd, "cplx%d.cpp" % idx)
    open(p, "w").write(src)
    exe = p[:-4]
    r = subprocess.run(cmd + ["-w", "-I" + os.path.join(build.REPO, "inc"), "-I" + os.path.join(build.VERIF, "driver", "cplx"), p, "-o", exe],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=build.ENV)
    if r.returncode:
        raise build.BuildError("%s: %s" % (name, r.stderr.decode()[-3000:]))
    o = p[:-4] + ".out"
    r = subprocess.run([exe, o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if r.returncode:
        c.violation("%s: a program over complex_t ended with status %d" % (name, r.returncode), dict(compiler=cmd))
    blocks, cur = [], []
    for line in open(o):
        if line.startswith('{"e":"start"') and cur:
            blocks.append("".join(cur)); cur = []
        if line.startswith('{"e":"approx"') and cur and cur[0].startswith('{"e":"start"'):
            blocks.append("".join(cur)); cur = []
        cur.append(line)
    blocks.append("".join(cur))
    os.unlink(o); os.unlink(exe); os.unlink(p)
    return blocks


def programs(c, depth, num, seed):
    rc, out = pipe.tlc("GenCplx.tla", "GenCplx.cfg", c.wd, dict(DEPTH=str(depth)), workers=1, extra=["-simulate", "num=%d" % num, "-depth", str(3 * depth + 20), "-seed", str(seed)])
    ps = [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"[')]
    if len(ps) < num * 0.9:
        raise ToolError("program generation failed: " + out[-1500:])
    seen, res = set(), []
    for p in ps:
        k = json.dumps(p)
        if k not in seen:
            seen.add(k); res.append(p)
    return res


def validate(c, blocks, tag):
    """blocks: list of (text, variant name); returns the first rejected (variant, block, event) or None"""
    path = os.path.join(c.wd, "ctrace-%s.ndjson" % tag)
    where = []
    with open(path, "w") as f:
        for bi, (t, _) in enumerate(blocks):
            f.write(t)
            where += [bi] * t.count("\n")
    rc, out = pipe.tlc("TraceCplx.tla", "TraceCplx.cfg", c.wd, dict(TRACE=path))
    st, tr = pipe.tlc_stats(out)
    c.cov["states"] += st; c.cov["transitions"] += tr
    m = re.search(r'"REJECTED", (\d+)', out)
    if rc == 0:
        os.unlink(path); return None
    if not m:
        raise ToolError("trace validation failed to run: " + out[-2000:])
    n = int(m.group(1)) - 1
    line = open(path).read().splitlines()[n]
    return blocks[where[n]][1], blocks[where[n]][0], line


def main(c):
    T = c.thorough
    c.model("MCCplx.tla", "MCCplx.cfg", name="laws of the field on Gaussian integers")
    rc, out = pipe.tlc("GenCplx1.tla", "GenCplx1.cfg", c.wd, dict(BOUND="3" if T else "2"), workers=8, timeout=1500)
    singles = []
    for l in out.splitlines():
        if l.startswith('"{'):
            d = json.loads(json.loads(l)); singles.append((d["g"], d["r"]))
    if rc or len(singles) < 1000:
        raise ToolError("instruction enumeration failed: " + out[-1500:])
    st, tr = pipe.tlc_stats(out)
    c.cov["states"] += st; c.cov["transitions"] += tr
    c.log("%d single instructions with operands" % len(singles))
    singles.sort(key=json.dumps)
    progs = programs(c, 30, 600 if T else 120, c.seed)
    c.log("%d programs" % len(progs))
    scales = [0, 300, -300, 480, -480]
    variants = VARIANTS + (MORE if T else [])
    src = single_source(singles, progs, c.rng, scales, 400000 if T else 40000, c.seed)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: build_run(c, src, t[1][0], t[1][1], t[0]), enumerate(variants)))
    seen, todo, total = set(), [], 0
    for (name, _), blocks in zip(variants, res):
        total += len(blocks)
        for b in blocks:
            if b not in seen:
                seen.add(b); todo.append((b, name))
    c.log("%d recorded runs, %d different" % (total, len(todo)))
    parts = [todo[k::8] for k in range(8)]
    with ThreadPoolExecutor(8) as ex:
        rej = [r for r in ex.map(lambda t: validate(c, t[1], str(t[0])), enumerate(parts)) if r]
    c.cov["traces_validated_against_impl"] += total
    c.cov["parts"].append(dict(part="compiled programs over complex_t", kind="conformance: instructions and programs generated by TLC, compiled against the repository's header, recorded runs validated by TLC",
                               single_instructions=len(singles), programs=len(progs), scales=scales, variants=[v[0] for v in variants], runs=total, different_runs=len(todo)))
    c.cov["samples"].append(dict(program=progs[0][:8]))
    c.cov["samples"].append(dict(single=singles[len(singles) // 2]))
    if rej:
        name, block, line = rej[0]
        c.violation("%s: the specification does not allow %s" % (name, line), dict(variant=name, run=block.splitlines(), rejected=line))
