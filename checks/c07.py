"""C07: one object that keeps nothing of a call serves any number of threads: RealFFT, and the transforms with the caller's work arrays."""
import pipe, sigs
from api import sub, pow2, class_lens
from gens import FWD, ops_of, xcost, mid_lens, lpf
from pipe import Case, OPS, backends

PAR = [16384, 32768, 65536, 98304, 40960, 36864, 65538, 131072]


def make(cs, o, kind, n, b):
    """kinds of shareable objects: R (RealFFT of the factory), c (FFT0), d (DCT0)"""
    return cs.create(o, "R", n, b) if kind == "R" else cs.raw(o, kind.upper(), n, b)


def lens(kind, r):
    return [n for v in class_lens("C" if kind == "c" else "R", r).values() for n in v if n > 0]


def single(c, r, name, want, focus, thr=True, ops=8, guard=True):
    """calls one at a time (instrumented): what each writes, what it yields, and with what teams of its own"""
    cases = []
    for kind, n, b in want:
        cs = Case(fill=r.choice([0, 1]), thr=1, label="%s %d %s" % (kind, n, b))
        cs.sched(r.choice([1, 2, 3, 4]) if thr else 1, 0, r.randrange(1, 9999))
        make(cs, 1, kind, n, b)
        cs.share(2, 1).share(3, 1)
        sel = ops_of(kind.upper(), OPS)
        r.shuffle(sel)
        for op in sel[:ops]:
            fl = r.choice([0, 0, 1, 2, 4]) if guard else 0
            L = sigs.source(r, kind.upper(), n, op in FWD)
            # every user alike: the first call of one, then of another, then of the first again
            for o in r.choice([(1, 2, 1), (2, 3, 2), (3, 1, 2)]):
                cs.x(o, op, L, fl)
            cs.x(r.choice([1, 2, 3]), op, ["R", r.randrange(1, 99), 0], fl)
        cs.drop(2).drop(3).destroy(1)
        cs.cost = 100 + ops * 8 * xcost(kind.upper(), n)
        cases.append(cs.end())
    c.phase(name, cases, focus, sched=True, parts=16)


def together(c, r, name, count, pool, sched, seeds, users=(2, 3, 4), teams=(0,), jobs=None, limit=None, calls=3, lin=False):
    """several users of one object at the same time, each with arrays of its own; and each call with nobody else about"""
    be = backends()
    cases = []
    for i in range(count):
        kind = r.choice("RRcd")
        n = r.choice(pool(kind))
        b = r.choice(be)
        M = r.choice(users)
        ops = ops_of(kind.upper(), OPS)
        some = [r.choice(ops) for _ in range(2)]
        plan = []
        for k in range(M):
            plan.append([(r.choice(some) if r.random() < 0.6 else r.choice(ops), ["R", r.randrange(1, 10 ** 6), 0]) for _ in range(r.randint(1, calls))])
        cs = Case(fill=r.choice([0, 1]), thr=r.choice([1, 2, 3]), label="%d users of one %s %d %s" % (M, kind, n, b))
        make(cs, 1, kind, n, b)
        first = r.random() < 0.5

        def alone():
            for k in range(M):
                for op, src in plan[k]:
                    cs.x(k + 1, op, src)

        for k in range(1, M):
            cs.share(k + 1, 1)
        if not first:
            alone()
        for s in seeds(r):
            cs.par(s, r.choice(teams))
            for k in range(M):
                cs.job(k + 1)
                for op, src in plan[k]:
                    cs.x(k + 1, op, src)
            cs.endpar()
        if first:
            alone()
        # the same calls on an object that nobody else has used
        make(cs, M + 1, kind, n, b)
        for k in range(M):
            op, src = plan[k][0]
            cs.x(M + 1, op, src)
        cs.destroy(M + 1)
        for k in range(1, M):
            cs.drop(k + 1)
        cs.destroy(1)
        cs.cost = 100 + M * calls * xcost(kind.upper(), n) * (12 if sched else 4)
        cases.append(cs.end())
    c.phase(name, cases, ["foot", "race", "memo", "can", "life"] if sched else ["memo", "can", "life", "heap"], sched=sched, parts=24, jobs=jobs, limit=limit)


def main(c):
    c.want_raw = True
    r = sub(c, "share")
    T = c.thorough
    be = backends()
    c.model("MCOTFFT.tla", "MCOTFFT2.cfg" if T else "MCOTFFT2q.cfg", name="API machine, two objects or two users of one")
    foc = ["share", "foot", "memo", "can", "acc", "life"]
    want = []
    for kind in "Rcd":
        m = 1 if kind == "c" else 2
        small = [m * k for k in list(range(1, 34)) + [36, 40, 45, 48, 49, 60, 63, 77, 96, 100, 121, 125, 128, 210, 243, 256, 343, 500, 512]]
        want += [(kind, n, r.choice(be)) for n in small] + [(kind, n, b) for n in lens(kind, r) if n <= 4096 for b in (be if T else [r.choice(be)])]
    single(c, r, "one call at a time by several users: writes, results", want, foc, ops=8)
    big = [(k, n, b) for k in "Rcd" for n in sorted(set([x for x in lens(k, r) if x > 4096] + pow2(13, 18) + PAR + mid_lens(r, 30 if T else 6, 140000)))
           if not n % 2 and n * lpf(n) < 10 ** 8 for b in (be if T else [r.choice(be)])]
    single(c, r, "one call at a time by several users, large lengths", big, foc, ops=8 if T else 2)
    together(c, r, "users of one object, preemption between single accesses (instrumented)", 500 if T else 80, lambda k: [n for n in lens(k, r) if n <= 2100], True,
             lambda r: [r.randrange(1, 10 ** 6) for _ in range(2)])
    together(c, r, "users of one object, parallel lengths (instrumented)", 60 if T else 8, lambda k: PAR[:6], True, lambda r: [r.randrange(1, 10 ** 6)], users=(2, 3), calls=1)
    together(c, r, "users of one object, real threads", 600 if T else 120, lambda k: [n for n in lens(k, r) if n <= 9000], False, lambda r: range(6), jobs=2, teams=(0, 0, 1, 2))
    together(c, r, "users of one object, real threads, parallel lengths", 100 if T else 24, lambda k: PAR, False, lambda r: range(2), jobs=2, users=(2, 3), teams=(0, 1, 2))
