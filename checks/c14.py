"""C14: separate objects are independent, also when used at the same time."""
import json, re
import pipe, sigs
from api import sub, pow2, class_lens, walks
from gens import FWD, ops_of, xcost
from pipe import Case, OPS, backends

SINGLE = ["foot", "memo", "can", "life", "acc"]


def mixes(c, M, cycle):
    out = c.model("GenMix.tla", "GenMix.cfg", env=dict(M=str(M), CYCLE=cycle), workers=1, name="interleavings of %d objects, %s cycles" % (M, cycle))
    return [json.loads(json.loads('"' + m.group(1) + '"')) for m in re.finditer(r'^"(\[.*\])"$', out, re.M)]


class Obj:
    """what one object does, independent of where its steps are placed"""
    def __init__(self, r, be, cap, steps=2, kinds="CRDB", same=None, sigs_=False):
        self.kind = r.choice(kinds)
        cl = class_lens(self.kind, r)
        pool = [n for v in cl.values() for n in v if 0 < n <= cap]
        self.ns = [r.choice(pool), r.choice(pool)]
        self.b = r.choice(be)
        if same:                       # same configuration as another object: a shared table or buffer would meet here
            self.kind, self.ns, self.b = same.kind, list(same.ns), same.b
        o = ops_of(self.kind, OPS)
        self.x = [(r.choice(o), ["R", r.randrange(1, 10 ** 6), 0]) for _ in range(steps)]
        # every other use has an input whose exact result is known to the specification
        self.sig = {}
        for k, n in enumerate(self.ns):
            for j, (op, _) in enumerate(self.x):
                if sigs_ and r.random() < 0.5:
                    self.sig[k, j] = sigs.source(r, self.kind, n, op in FWD)

    def steps(self, cs, o, cycle):
        k = 0
        for st in cycle:
            self.step(cs, o, st, k)
            k += st == "x"

    def step(self, cs, o, st, k, n2=False):
        if st == "create":
            cs.create(o, self.kind, self.ns[0], self.b)
        elif st == "setup":
            cs.setup(o, self.ns[1])
        elif st == "x":
            j = k % len(self.x)
            op, src = self.x[j]
            cs.x(o, op, self.sig.get((self.ns.index(cs.n[o]), j), src))
        else:
            cs.destroy(o)

    def cost(self):
        return 4 * sum(xcost(self.kind, n) for n in self.ns)


CYCLES = dict(long=["create", "x", "setup", "x", "destroy"], mid=["create", "setup", "x", "destroy"], short=["create", "x", "destroy"])


def interleaved(c, r, name, mix, cyc, M, cap, sched, focus, pick):
    cases = []
    be = backends()
    for h in pick:
        objs = [Obj(r, be, cap, sigs_=M == 2)]
        while len(objs) < M:
            objs.append(Obj(r, be, cap, same=r.choice([None, objs[0]]), sigs_=M == 2))
        cs = Case(fill=r.choice([0, 1]), thr=r.choice([1, 2, 3]), label="%s %s" % (cyc, [(o.kind, o.ns, o.b) for o in objs]))
        if sched:
            cs.sched(r.choice([1, 1, 2, 3]), 0, r.randrange(1, 9999))
        for o in objs:                                       # each alone first
            o.steps(cs, 4, CYCLES[cyc])
        cnt = [0] * M
        for o, st in h:
            objs[o - 1].step(cs, o, st, cnt[o - 1])
            cnt[o - 1] += st == "x"
        cs.cost = 100 + sum(o.cost() for o in objs) * (6 if sched else 1)
        cases.append(cs.end())
    c.phase(name, cases, focus, sched=sched, parts=16)


def concurrent(c, r, name, count, cap, sched, seeds, threads=(2, 3, 4), big=None, jobs=None, limit=None):
    be = backends()
    cases = []
    for i in range(count):
        M = r.choice(threads)
        objs = []
        for k in range(M):
            objs.append(Obj(r, be, cap, steps=3, same=objs[0] if objs and r.random() < 0.5 else None))
            if big and r.random() < 0.6:
                objs[-1].kind = r.choice("CRDB"); objs[-1].ns = [r.choice(big), r.choice(big)]
                o = ops_of(objs[-1].kind, OPS); objs[-1].x = [(r.choice(o), ["R", r.randrange(1, 999), 0]) for _ in range(3)]
        cs = Case(fill=r.choice([0, 1]), thr=r.choice([1, 2, 3]), label="concurrent %s" % [(o.kind, o.ns, o.b) for o in objs])
        plans = []
        for k, o in enumerate(objs):
            plans.append((r.random() < 0.4, ["x"] * r.choice([1, 2]) + (["setup", "x"] if r.random() < 0.5 else []), r.random() < 0.5))

        def alone():
            for k, o in enumerate(objs):
                pre, mid, post = plans[k]
                o.steps(cs, k + 1, ["create"] + mid + ["destroy"])

        first = r.random() < 0.5           # the concurrent run may be the first use of the library in its process
        if not first:
            alone()
        for s in seeds(r):
            for k, o in enumerate(objs):
                if plans[k][0]:
                    cs.create(k + 1, o.kind, o.ns[0], o.b)
            cs.par(s, 0 if sched else r.choice([0, 0, 1, 2]))
            for k, o in enumerate(objs):
                cs.job(k + 1)
                pre, mid, post = plans[k]
                o.steps(cs, k + 1, ([] if pre else ["create"]) + mid + (["destroy"] if post else []))
            cs.endpar()
            for k in range(M):
                if not plans[k][2]:
                    cs.destroy(k + 1)
        if first:
            alone()
        cs.cost = 100 + sum(o.cost() for o in objs) * (12 if sched else 4)
        cases.append(cs.end())
    c.phase(name, cases, ["foot", "race", "memo", "can", "life"] if sched else ["memo", "can", "life", "heap"], sched=sched, parts=24, jobs=jobs, limit=limit)


def teams(c, r, logs, extra):
    """calls by the members of an OpenMP team of the user's: every operation at every length with parallel regions of its own"""
    be = backends()
    cases = []
    for n, kinds, per in [(1 << k, "C", 8) for k in logs] + extra:
        for kind in kinds:
            ops = ops_of(kind, OPS)
            r.shuffle(ops)
            sel = ops[:per]
            b = r.choice(be)
            cs = Case(fill=0, thr=r.choice([1, 2, 3]), label="team %s %d %s" % (kind, n, b)).create(1, kind, n, b).create(2, kind, n, b)
            half = (len(sel) + 1) // 2
            plan = [(op, ["R", r.randrange(1, 99), 0]) for op in sel]
            # one member works alone while the others wait at the end of the region; then two at the same time
            if n <= 1 << 21:
                cs.par(1, 1).job(1).x(1, *plan[0]).endpar()
            cs.par(1, 1).job(1)
            for op, src in plan[:half]:
                cs.x(1, op, src)
            cs.job(2)
            for op, src in plan[half:]:
                cs.x(2, op, src)
            cs.endpar()
            for op, src in plan:                       # and the same calls with nobody else about
                cs.x(1, op, src)
            cs.cost = 100 + 4 * len(plan) * xcost(kind, n)
            cases.append(cs.destroy(1).destroy(2).end())
    c.phase("calls from the members of an OpenMP team, every parallel kernel", cases, ["memo", "can", "life"], jobs=4, limit=60)


def processes(c, r, count, cap):
    """what an object does as the first user of the library in its process, and what it does after or between others"""
    be = backends()
    cases = []
    for i in range(count):
        objs = [Obj(r, be, cap, steps=3)]
        while len(objs) < 3:
            x = Obj(r, be, cap, steps=3)
            if r.random() < 0.6:                         # same kind and back end and operation, other length
                x.kind, x.b = objs[0].kind, objs[0].b
                m = 2 if x.kind in "RD" else 1
                x.ns = [m * r.choice([1, 2, 4, 6, 8, 15, 16, 24, 60, 64, 100, 256, 1000, 1024]) for _ in range(2)]
                x.x = list(objs[0].x)
            objs.append(x)
        thr = r.choice([1, 2, 3])
        runs = [[k] for k in range(3)] + [list(p) for p in ((0, 1, 2), (2, 1, 0), (1, 0, 2))]
        cyc = CYCLES["long"]
        group = []
        for run in runs:
            cs = Case(fill=r.choice([0, 1]), thr=thr, label="in a process of its own %s: %s" % (run, [(o.kind, o.ns, o.b) for o in objs]))
            at = {k: 0 for k in run}
            xs = {k: 0 for k in run}
            while any(v < len(cyc) for v in at.values()):
                k = r.choice([k for k in run if at[k] < len(cyc)]) if r.random() < 0.5 else next(k for k in run if at[k] < len(cyc))
                objs[k].step(cs, k + 1, cyc[at[k]], xs[k])
                xs[k] += cyc[at[k]] == "x"
                at[k] += 1
            group.append(cs.end())
            cs.cost = 200 + sum(objs[k].cost() for k in run)
        for cs in group:
            cs.grp = group
        cases += group
    c.phase("alone in a process, and after or between others (a process each)", cases, ["memo", "keep", "can", "life"], env={"DRV_FRESH": "1"})


def main(c):
    r = sub(c, "indep")
    T = c.thorough
    c.model("MCOTFFT.tla", "MCOTFFT2.cfg" if T else "MCOTFFT2q.cfg", name="API machine, two objects")
    two = mixes(c, 2, "long")
    three = mixes(c, 3, "short")
    interleaved(c, r, "two objects, every interleaving of their life cycles (instrumented)", two, "long", 2, 3000, True, SINGLE, two)
    interleaved(c, r, "three objects, interleavings (instrumented)", three, "short", 3, 2000, True, SINGLE, three if T else r.sample(three, 120))
    interleaved(c, r, "two objects, large lengths (instrumented)", two, "long", 2, 140000, True, SINGLE, r.sample(two, 150 if T else 16))
    processes(c, sub(c, "proc"), 400 if T else 64, 3000)
    walks(c, "random walks of the API machine over four objects (instrumented)", 1000 if T else 80, ["foot", "memo", "can", "life", "acc"], cap=1500, fail=0, sched=True, per=20, parts=16)
    concurrent(c, r, "user threads with preemption between single accesses (instrumented)", 500 if T else 70, 2100, True,
               lambda r: [r.randrange(1, 10 ** 6) for _ in range(3)])
    concurrent(c, r, "user threads, parallel lengths (instrumented)", 60 if T else 8, 70000, True, lambda r: [r.randrange(1, 10 ** 6)], threads=(2, 3))
    concurrent(c, r, "user threads on real threads", 600 if T else 120, 9000, False, lambda r: range(6), jobs=2)
    concurrent(c, r, "user threads on real threads, parallel lengths", 100 if T else 16, 9000, False, lambda r: range(2), jobs=2,
               big=[32768, 65536, 98304, 36864, 40960, 131072], threads=(2, 3))
    teams(c, sub(c, "team"), range(13, 24 if not T else 26), [(n, "CRDB", 8 if T else 2) for n in ([32774, 36864, 65538, 98304] if not T else [32774, 36864, 65538, 98304, 59050, 131074, 100000])]
          + [(1 << k, "RDB", 8 if T else 1) for k in (range(15, 23) if T else (15, 17, 20))])
