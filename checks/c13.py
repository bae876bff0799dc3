"""C13: results do not depend on the team size or on the schedule of the internal parallel regions."""
import json, re
import gens, pipe
from api import design, sub, pow2
from gens import ops_of, xcost
from pipe import Case, OPS, backends

FOC = ["race", "memo", "can"]


def orders(c, T, K):
    """all orders of T threads over K consecutive epochs, enumerated by TLC"""
    out = c.model("GenSched.tla", "GenSched.cfg", env=dict(T=str(T), K=str(K)), workers=1, name="orders of %d threads over %d epochs" % (T, K))
    return [[t for ep in json.loads(json.loads('"' + m.group(1) + '"')) for t in ep] for m in re.finditer(r'^"(\[.*\])"$', out, re.M)]


# lengths of the complex transform with parallel regions: DIF8omp, DIT8omp, six step, eight step, mixed radix
P2 = pow2(13, 17)
MIX = [32768 + 2 * 3, 98304, 49152, 40960, 36864, 59049, 33614, 32805, 100000, 65538, 78125, 46189, 51200, 114688, 39366, 65520]
MIX = [n for n in MIX if n * gens.lpf(n) < 3e8]


def parlens(kind, r, T):
    if kind == "C":
        base = P2 + [1 << 18] + MIX
    elif kind == "R":
        base = [n for n in pow2(14, 18)] + [2 * n for n in MIX] + [32768 + 2, 32770 + 30, 65536 - 2, 65538, 40960, 36000, 61440]
    elif kind == "D":
        base = [n for n in pow2(14, 18)] + [2 * n for n in MIX] + [32770, 32800, 65538, 40960, 36000]
    else:
        base = [8193, 16384, 10007, 32768, 32769, 40000, 65536, 65537, 4097, 70001]
    base = [n for n in base if n * gens.lpf(n) < 4e8] if kind != "B" else base
    return sorted(set(base))


def main(c):
    r = sub(c, "sched")
    T = c.thorough
    be = backends()
    c.model("MCOmp.tla", "MCOmp.cfg", name="race-free epochs have one outcome (2 threads, all programs of 2 accesses)")
    if T:
        c.model("MCOmp.tla", "MCOmp3.cfg", name="race-free epochs have one outcome (3 threads, all programs of 2 accesses)", timeout=3000)
    design(c, "twolevel")
    perms = {2: orders(c, 2, 4), 3: orders(c, 3, 2)}
    if T:
        perms[4] = orders(c, 4, 2)
        perms[3] = orders(c, 3, 3)

    def configs(k):
        """team sizes, orders and preemption seeds"""
        out = []
        pool = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64]
        for i in range(k):
            q = r.random()
            if q < 0.45:
                t = r.choice(sorted(perms)); out.append((t, 0, 1, r.choice(perms[t])))
            elif q < 0.75:
                out.append((r.choice(pool), 0, r.randrange(1, 10 ** 6), ()))
            else:
                out.append((r.choice([2, 2, 3, 4, 5, 7, 8]), 1, r.randrange(1, 10 ** 6), ()))
        return out

    cases = []
    for kind in "CRDB":
        lens = parlens(kind, r, T)
        for n in lens:
            for b in (be if T else [r.choice(be)]):
                o = ops_of(kind, OPS)
                sel = r.sample(o, len(o) if T and n <= 40000 else 2 if n <= 20000 or T else 1)
                if not T and kind == "C" and n in P2:
                    sel = [r.choice(OPS[:4]), r.choice(OPS[4:])]
                cs = Case(fill=0, thr=1, label="%s %d %s" % (kind, n, b))
                cs.sched(1).create(1, kind, n, b)
                for op in sel:
                    cs.x(1, op, ["R", 5, 0])
                k = 8 if T else 4 if n < 70000 else 3
                for t, mode, seed, perm in configs(k):
                    cs.sched(t, mode, seed, perm)
                    if r.random() < 0.5:
                        cs.create(2, kind, n, b)
                        if r.random() < 0.3:
                            cs.sched(*r.choice([(1, 0, 1, ()), (3, 0, 7, ()), (11, 0, 3, ())]))
                        for op in sel:
                            cs.x(2, op, ["R", 5, 0])
                        cs.destroy(2)
                    else:
                        for op in sel:
                            cs.x(1, op, ["R", 5, 0])
                cs.cost = xcost(kind, n) * len(sel) * (k + 1)
                cases.append(cs.destroy(1).end())
    # many team sizes on the cheapest lengths of each parallel kernel
    for kind, n in [("C", 8192), ("C", 16384), ("C", 32768), ("C", 65536), ("C", 32774), ("C", 36864), ("R", 32770), ("D", 32770), ("R", 65536), ("D", 65536), ("B", 33000)]:
        for b in (be if T else [r.choice(be)]):
            sizes = list(range(2, 65)) if T else r.sample(range(2, 65), 9)
            ops = r.sample(ops_of(kind, OPS), 4 if T else 2)
            cs = Case(fill=0, thr=1, label="teams %s %d %s" % (kind, n, b)).sched(1).create(1, kind, n, b)
            for op in ops:
                cs.x(1, op, ["R", 5, 0])
            for t in sizes:
                cs.sched(t, 0, r.randrange(1, 10 ** 6)).x(1, r.choice(ops), ["R", 5, 0])
            cs.cost = xcost(kind, n) * (len(sizes) + 2)
            cases.append(cs.end())
    # every enumerated order of two and three threads on the smallest length of each parallel kernel
    for kind, n in [("C", 8192), ("C", 16384)] + ([("C", 32768), ("C", 32774), ("C", 65536)] if T else []):
        for t in sorted(perms):
            ps = perms[t] if T else r.sample(perms[t], min(len(perms[t]), 16 if t == 2 else 12))
            for op in (r.sample(OPS[:4], 1) + r.sample(OPS[4:], 1)):
                cs = Case(fill=0, thr=1, label="orders %s %d %d" % (kind, n, t)).sched(1).create(1, kind, n, r.choice(be)).x(1, op, ["R", 9, 0])
                for p in ps:
                    cs.sched(t, 0, 1, p).x(1, op, ["R", 9, 0])
                cs.cost = xcost(kind, n) * len(ps)
                cases.append(cs.end())
    c.phase("instrumented runs: one epoch at a time, chosen orders and preemption", cases, FOC, sched=True)
    # the largest kernels
    cases = []
    for n in ([1 << 18, 1 << 19, 1 << 20, 1 << 21] if T else [1 << 18, 1 << 19]):
        for op in [r.choice(OPS[:4]), r.choice(OPS[4:])]:
            cs = Case(fill=0, thr=1, label="large %d" % n).sched(1).create(1, "C", n, r.choice(be)).x(1, op, ["R", 5, 0])
            for t, mode, seed, perm in configs(3 if T else 1) + [(r.choice([3, 7, 11]), 0, 5, ())]:
                cs.sched(t, mode, seed, perm).x(1, op, ["R", 5, 0])
            cs.cost = n * 100
            cases.append(cs.end())
    c.phase("instrumented runs of the largest kernels", cases, FOC, sched=True, jobs=4)
    # the real OpenMP runtime
    cases = []
    for kind in "CRDB":
        for n in parlens(kind, r, T):
            b = r.choice(be)
            sel = r.sample(ops_of(kind, OPS), 2)
            cs = Case(fill=1, thr=1, label="libgomp %s %d %s" % (kind, n, b)).create(1, kind, n, b)
            for op in sel:
                cs.x(1, op, ["R", 5, 0])
            for t in r.sample([2, 3, 4, 5, 6, 7, 8, 11, 16], 9 if T else 3):
                cs.envs(1, 0, t)
                if r.random() < 0.4:
                    cs.create(2, kind, n, b)
                    for op in sel:
                        cs.x(2, op, ["R", 5, 0])
                    cs.destroy(2)
                for op in sel:
                    cs.x(1, op, ["R", 5, 0])
            cs.cost = xcost(kind, n) * 10
            cases.append(cs.destroy(1).end())
    for n in pow2(18, 23 if T else 21):
        op = r.choice(OPS)
        cs = Case(fill=1, thr=1, label="libgomp C %d" % n).create(1, "C", n, r.choice(be)).x(1, op, ["R", 5, 0])
        for t in (3, 8, 5):
            cs.envs(1, 0, t).x(1, op, ["R", 5, 0])
        cs.cost = n * 60
        cases.append(cs.end())
    # every operation of every kind and parallel kernel with team sizes that do not divide the work
    odd = [3, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15]
    for kind, lens in (("C", [8192, 16384, 32768, 65536, 131072, 1 << 18, 1 << 19, 36864, 32774]), ("R", [32768, 65536, 32778, 61440]), ("D", [32768, 65536, 32778, 40960]), ("B", [16384, 32768, 40001])):
        for n in lens:
            for op in ops_of(kind, OPS):
                cs = Case(fill=1, thr=1, label="every operation %s %d" % (kind, n)).create(1, kind, n, r.choice(be)).x(1, op, ["R", 5, 0])
                for t in r.sample(odd, 8 if T else 3):
                    cs.envs(1, 0, t).x(1, op, ["R", 5, 0])
                cs.cost = xcost(kind, n) * 4
                cases.append(cs.destroy(1).end())
    c.phase("the real OpenMP runtime, several team sizes", cases, ["memo", "can"], jobs=4)
