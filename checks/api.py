"""Checks decided by replaying behaviours of spec/OTFFT.tla through the public API."""
import random
import pipe, sigs, gens
from gens import FWD, INV, CANCEL, ops_of, sweep, chains, thr, xcost
from pipe import Case, OPS, backends


def sub(c, tag):
    return random.Random("%s-%s-%d" % (c.pid, tag, c.seed))


def pow2(a, b):
    return [1 << k for k in range(a, b + 1)]


def semantics(c):
    """every transform rule of Signal.tla against the defining sums, in prime fields"""
    c.model("SignalSem.tla", "SignalSem16.cfg" if c.thorough else "SignalSem.cfg", name="signal algebra vs. definition of DFT/DCT")


def design(c, *what):
    """design level: the decompositions the library is built from give the transform, in every order and schedule"""
    T = c.thorough
    if "stockham" in what:
        c.model("Stockham.tla", "Stockham32.cfg" if T else "Stockham.cfg", name="design: self-sorting steps of any radices, in any order", timeout=3000)
    if "twolevel" in what:
        c.model("TwoLevel.tla", "TwoLevel3.cfg" if T else "TwoLevel.cfg", name="design: six/eight steps under every schedule of the rows", timeout=6000)
        c.model("TwoLevel.tla", "TwoLevelNB.cfg", name="design: without the barriers", refuted=True, workers=2)
        c.model("TwoLevel.tla", "TwoLevelNS.cfg", name="design: with a shared scratch row", refuted=True, workers=2)
    if "real" in what:
        c.model("RealPack.tla", "RealPack20.cfg" if T else "RealPack.cfg", name="design: real and cosine transforms through half the length; rules of conjugation", timeout=3000)
    if "conv" in what:
        c.model("ChirpConv.tla", "ChirpConv5.cfg" if T else "ChirpConv.cfg", name="design: any length through a padded convolution, all histories", timeout=6000)
        c.model("ChirpConv.tla", "ChirpConvNC.cfg", name="design: padding not cleared", refuted=True, workers=2)
        c.model("ChirpConv.tla", "ChirpConvNS.cfg", name="design: padded to 2N-3", refuted=True, workers=2)


def walks(c, name, count, focus, cap=3000, depth=60, fail=6, x=60, few=3, per=40, sched=False, thr=None, env=None, parts=None):
    """random walks of the API machine (spec/GenLife.tla, TLC's simulation mode), replayed"""
    import json, os, re
    r = sub(c, "walk" + name)
    cases = []
    runs = max(1, count // per)
    out = []

    def one(k):
        lens = {kd: sorted({n for v in class_lens(kd, r).values() for n in v if n <= cap} | {m * r.randrange(1, cap // m) for m in ([2] if kd in "RD" else [1]) for _ in range(12)})
                for kd in "CRDB"}
        p = os.path.join(c.wd, "lcfg%d.json" % k)
        json.dump(dict(cpu=pipe.cpu_record(), depth=depth, few=few, fail=fail, x=x, lens=lens), open(p, "w"))
        return k, p, r.randrange(1, 1 << 30)

    def go(a):
        k, p, seed = a
        return pipe.tlc("GenLife.tla", "GenLife.cfg", c.wd, dict(LCFG=p), workers=1, extra=["-simulate", "num=%d" % per, "-depth", str(4 * depth), "-seed", str(seed)])

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(go, [one(k) for k in range(runs)]))
    n = 0
    for rc, o in res:
        if rc != 0:
            raise pipe.ToolError("GenLife failed: " + o[-2000:])
        for m in re.finditer(r'^"(\[.*\])"$', o, re.M):
            steps = json.loads(json.loads('"' + m.group(1) + '"'))
            n += 1
            cs = Case(fill=r.choice([0, 1, 2]), thr=r.choice([1, 2, 3]), label="walk %d" % n)
            if sched:
                cs.sched(r.choice([1, 1, 2, 3, 4]), r.choice([0, 0, 1]), r.randrange(1, 9999))
            length, kind = {}, {}
            for st in steps:
                if st["e"] in ("create", "setup"):
                    length[st["o"]] = st["n"]
                    kind[st["o"]] = st.get("kind", kind.get(st["o"]))
                if st["e"] == "x":
                    cs.cost += xcost(kind[st["o"]], length[st["o"]])
                if sched and st["e"] == "env":
                    continue
                cs.steps.append(st)
            cases.append(cs.end())
    c.cov["parts"].append(dict(part=name, kind="behaviours of the API machine generated by TLC simulation", behaviours=n, steps=depth))
    c.phase(name, cases, focus, sched=sched, env=env, parts=parts)


# ------------------------------------------------------------------------------------------- C01, C02
def complex_sweep(c, kinds, ops, pair):
    T = c.thorough
    r = sub(c, "sweep")
    be = backends()
    foc = ["acc"]
    if T:
        small = list(range(1, 1400))
    else:
        small = list(range(1, 390)) + r.sample(range(390, 1500), 60)
    c.phase("all small lengths", sweep(r, kinds, small, ops, be, pair=pair), foc)
    p2 = pow2(10, 21)
    c.phase("powers of two 2^10..2^21", sweep(r, kinds, pow2(10, 18), ops, be, variety=False) + sweep(r, kinds, pow2(11, 18), ops, be, variety=True)
            + (sweep(r, kinds, pow2(19, 21), ops, be, variety=False) if T else []), foc)
    if not T:
        mids = gens.mid_lens(r, 48, 60000)
        edges = r.sample(gens.EDGES, 14)
        c.phase("other lengths", sweep(r, kinds, mids, ops, be, per=2) + sweep(r, kinds, edges, ops, [r.choice(be)], per=2, variety=False)
                + [x for n in r.sample(gens.mid_lens(r, 60, 400000), 20) for x in sweep(r, kinds, [n], ops, [r.choice(be)], per=1)], foc)
    else:
        for k in range(8):
            c.phase("other lengths, round %d" % k, sweep(r, kinds, gens.mid_lens(r, 150, 200000), ops, be, per=3) +
                    sweep(r, kinds, gens.EDGES, ops, [r.choice(be)], variety=False), foc)
        c.phase("smooth lengths to 20000", sweep(r, kinds, [n for n in gens.smooth(1400, 20000) if n & (n - 1)], ops, be, per=2), foc)


def big(c, kinds, ops, logs, per, extra=(), rot=None, every=0):
    """the largest lengths, one after the other, all threads"""
    r = sub(c, "big")
    cases = []
    be = backends()
    for i, n in enumerate([1 << k for k in logs] + list(extra)):
        for b in (be if c.thorough and n <= 1 << 24 else [be[(i + c.seed + (rot or 0)) % len(be)]]):
            for kind in kinds:
                if n % 2 and kind in "RD":
                    continue
                a = ops_of(kind, ops)
                # the six and eight step transforms are separate instances per length and operation
                o = r.sample(a, len(a) if every and n <= every else per)
                cs = Case(fill=r.choice([1, 2]), thr=r.choice([5, 8]), label="%s %d %s" % (kind, n, b)).create(1, kind, n, b)
                for op in o:
                    cs.x(1, op, sigs.source(r, kind, n, op in FWD, False))
                cs.destroy(1).end()
                cases.append(cs)
    c.phase("largest lengths", cases, ["acc"], jobs=1, env={"DRV_THREADS": "8"}, limit=200)


def plan_lens(c, r, lo, hi, rough):
    """lengths of the mixed-radix transform that together take every class of step (spec/Plan.tla lists the classes of each)"""
    import json, os, re
    cand = [n for n in gens.smooth(lo, hi, (2, 3, 5) + tuple(rough)) if n & (n - 1)]
    cand = r.sample(cand, min(len(cand), 2500))
    f = os.path.join(c.wd, "plan-%d.json" % lo)
    json.dump(cand, open(f, "w"))
    out = c.model("Plan.tla", "GenPlan.cfg", env=dict(LENS=f), workers=2, name="classes of steps of the lengths %d..%d" % (lo, hi))
    cls = {}
    for m in re.finditer(r'^"(\[.*\])"$', out, re.M):
        n, path = json.loads(json.loads('"' + m.group(1) + '"'))
        cls[n] = {tuple(x) for x in path}
    todo, sel = set().union(*cls.values()), []
    total = len(todo)
    while todo:
        n = max(cls, key=lambda n: (len(cls[n] & todo) / xcost("C", n) ** 0.5, n))
        sel.append(n); todo -= cls[n]
    c.log("plan %d..%d: %d classes of steps, %d lengths" % (lo, hi, total, len(sel)))
    c.cov["parts"].append(dict(part="plan %d..%d" % (lo, hi), kind="test selection by TLC", classes=total, lengths=sorted(sel)))
    return sel


def plan_cover(c, ops):
    """every class of step in the serial and in the parallel mixed-radix transform, every operation, every back end"""
    r = sub(c, "plan")
    n = plan_lens(c, r, 6, 6000, (7, 11, 13, 17)) + plan_lens(c, r, 32769, 200000 if c.thorough else 110000, (7, 11, 13, 17, 19))
    c.phase("every class of step of the mixed-radix plan", sweep(r, "C", n, ops, backends()), ["acc"])


def c01(c):
    semantics(c)
    design(c, "stockham", *(["twolevel"] if c.thorough else []))
    complex_sweep(c, "C", FWD, False)
    r = sub(c, "b")
    primes(c, FWD)
    plan_cover(c, FWD)
    big(c, "C", FWD, [19, 20, 21, 22, 23, 24, 25, 26] + ([27] if c.thorough else []), 1 if not c.thorough else 2, every=1 << 24)


def primes(c, ops):
    """prime lengths whose squares exceed 2^31 and 2^32"""
    r = sub(c, "b")
    be = backends()
    for n in [46349, 65539] + ([65537, 92683, 131101] if c.thorough else []):
        cs = sweep(r, "C", [n], ops, [r.choice(be)], per=1, variety=False)
        for x in cs:
            x.thr = pipe.JOBS
        c.phase("prime length %d" % n, cs, ["acc"])


def c02(c):
    complex_sweep(c, "C", INV, False)
    primes(c, INV)
    plan_cover(c, INV)
    r = sub(c, "pairs")
    be = backends()
    n = list(range(1, 200)) if c.thorough else list(range(1, 34)) + r.sample(range(34, 400), 24)
    c.phase("round trips", chains(r, "C", n, be) + chains(r, "C", pow2(9, 17), be, 6) + chains(r, "C", gens.mid_lens(r, 30, 20000), be, 4), ["acc"])
    big(c, "C", INV, [19, 20, 21, 22, 23, 24, 25, 27] + ([26] if c.thorough else []), 1 if not c.thorough else 2, rot=1, every=1 << 24)


# ------------------------------------------------------------------------------------------- C03, C04, C05, C06
def even(a, b):
    return list(range(a + a % 2, b, 2))


def real_sweep(c, kind, ops, foc, per_mid=2):
    T = c.thorough
    r = sub(c, "sweep")
    be = backends()
    c.phase("all small even lengths", sweep(r, kind, even(2, 3000 if T else 720), ops, be), foc)
    c.phase("powers of two", sweep(r, kind, pow2(10, 18), ops, be, variety=False) + sweep(r, kind, pow2(11, 17), ops, be)
            + sweep(r, kind, pow2(19, 22), ops, be if T else [r.choice(be)], variety=False), foc)
    ev = lambda l: [n for n in l if n % 2 == 0]
    if T:
        for k in range(8):
            c.phase("other lengths, round %d" % k, sweep(r, kind, ev(gens.mid_lens(r, 250, 300000)), ops, be, per=3)
                    + sweep(r, kind, ev(gens.EDGES) + [2 * n for n in gens.EDGES[:16]], ops, [r.choice(be)], variety=False), foc)
    else:
        c.phase("other lengths", sweep(r, kind, ev(gens.mid_lens(r, 90, 60000)), ops, be, per=per_mid)
                + sweep(r, kind, r.sample(ev(gens.EDGES), 14) + [2 * n for n in r.sample(gens.EDGES, 6)], ops, [r.choice(be)], per=2, variety=False), foc)


def c03(c):
    design(c, "real")
    real_sweep(c, "R", FWD, ["acc", "input", "herm"])
    big(c, "R", FWD, [23, 24, 25, 26] if not c.thorough else [23, 24, 25, 26, 27], 1)


def c04(c):
    real_sweep(c, "R", INV, ["acc"])
    r = sub(c, "half")
    be = backends()
    cases = []
    # the elements above N/2 have no influence: same bits with NaN in them
    for n in even(2, 600 if c.thorough else 200) + pow2(8, 18) + [x for x in gens.mid_lens(r, 60, 70000) if x % 2 == 0]:
        b = r.choice(be)
        cs = Case(fill=1, thr=thr(r), label="upper half %d %s" % (n, b)).create(1, "R", n, b)
        cs.cost = 60 + 2.5 * n
        for op in r.sample(INV, 4 if n < 600 else 2):
            s = sigs.source(r, "R", n, False)
            cs.x(1, op, s).x(1, op, s, fl=8)
        # round trip from the real side
        a = r.choice(FWD)
        cs.x(1, a, sigs.source(r, "R", n, True)).x(1, r.choice([q for p, q in CANCEL if p == a]), ["K"])
        cases.append(cs.destroy(1).end())
    c.phase("upper half of the spectrum, round trips", cases, ["acc", "memo"])
    c.phase("all pairs", chains(r, "R", even(2, 60) + pow2(6, 17) + [x for x in gens.mid_lens(r, 30, 20000) if x % 2 == 0], be, 6), ["acc"])
    big(c, "R", INV, [23, 24, 25, 26] if not c.thorough else [23, 24, 25, 26, 27], 1)


def c05(c):
    semantics(c)
    if c.thorough:
        design(c, "real")
    r = sub(c, "pairs")
    real_sweep(c, "D", OPS, ["acc"], per_mid=3)
    c.phase("round trips", chains(r, "D", even(2, 80) + pow2(6, 17) + [x for x in gens.mid_lens(r, 30, 20000) if x % 2 == 0], backends()), ["acc"])
    big(c, "D", FWD, [22, 24], 1)
    big(c, "D", INV, [23, 25], 1)


def c06(c):
    design(c, "conv")
    T = c.thorough
    r = sub(c, "sweep")
    be = backends()
    c.phase("all small lengths", sweep(r, "B", list(range(1, 1500 if T else 330)), OPS, be), ["acc"])
    edge = [(1 << k) + d for k in range(8, 16) for d in (-1, 0, 1, 2)]
    c.phase("lengths around powers of two", sweep(r, "B", edge, OPS, be, per=None if T else 3, variety=False), ["acc"])
    prim = [n for n in r.sample(range(400, 60000), 400) if gens.lpf(n) == n]
    c.phase("primes and any lengths", sweep(r, "B", prim[:200 if T else 24] + r.sample(range(400, 40000), 200 if T else 24), OPS, be, per=2), ["acc"])
    c.phase("large lengths", sweep(r, "B", [32749, 32768, 32771, 46337, 46349, 65521, 65535, 65536, 65537, 92681, 92683, 99991, 131071, 200003],
                                   OPS, be if T else [r.choice(be)], per=3 if T else 2, variety=False), ["acc"])
    c.phase("round trips", chains(r, "B", list(range(1, 40)) + r.sample(range(40, 3000), 20), be, 6), ["acc"])
    big(c, "B", OPS, [19, 20, 21], 4, extra=[999983, 2097143] + ([4194301, 8388593] if T else []))


# ------------------------------------------------------------------------------------------- C08
# representatives of every way an object can be configured; the classes are those of spec/GenHist.tla
def class_lens(kind, r):
    m = 2 if kind in "RD" else 1            # the inner complex length is half
    if kind == "B":
        cls = dict(zero=[0], one=[1], tiny=[2, 3], k4=[4, 5, 7], k8=[9, 16, 30, 31], k16=[33, 60, 64, 65], mid=[100, 127, 250, 500],
                   six=[33000, 32769], odd=[15, 21, 105], large=[1000, 1500, 2047])
    else:
        cls = dict(zero=[0], one=[1], tiny=[2, 4, 16, 1024], k4=[4, 16, 1024], k8=[8, 32, 64, 256, 512], k16=[128, 2048], mid=[3, 5, 6, 12, 30, 96, 100],
                   six=[4096, 16384, 65536], odd=[7, 11, 49, 63, 77, 121, 343], large=[8192, 32768, 600, 1000, 1536, 3000])
    return {k: [x * m for x in v] for k, v in cls.items()}


def histories(c, depth):
    """all configuration histories up to the depth, enumerated by TLC from spec/GenHist.tla"""
    import json, re
    out = c.model("GenHist.tla", "GenHist.cfg", env=dict(DEPTH=str(depth)), workers=1, name="configuration histories of length %d" % depth)
    return [json.loads(json.loads('"' + m.group(1) + '"')) for m in re.finditer(r'^"(\[.*\])"$', out, re.M)]


def c08(c):
    c.model("MCOTFFT.tla", "MCOTFFT16.cfg" if c.thorough else "MCOTFFT.cfg", name="API machine, one object of every kind, every failure and operation")
    r = sub(c, "hist")
    be = backends()
    cases = []
    hs = histories(c, 4 if c.thorough else 3)
    if not c.thorough:
        hs2 = [h for h in hs if len(h) == 2]
        hs3 = [h for h in hs if len(h) == 3]
        r.shuffle(hs3)
        pick = {k: hs2 + hs3[i * 170:(i + 1) * 170] for i, k in enumerate("CRDB")}
    else:
        pick = {k: [h for h in hs if len(h) < 4] + r.sample([h for h in hs if len(h) == 4], 1500) for k in "CRDB"}
    for kind in "CRDB":
        cl = class_lens(kind, r)
        for h in pick[kind]:
            ns = [r.choice(cl[x]) for x in h]
            b = r.choice(be)
            cs = Case(fill=r.choice([0, 1]), guard=0, thr=r.choice([1, 1, 2, 3]), label="%s %s %s" % (kind, ns, b))
            cs.create(1, kind, ns[0], b)
            seed = r.randrange(1, 10 ** 6)
            o = ops_of(kind, OPS)
            for n in ns[1:]:
                if r.random() < 0.7:
                    cs.x(1, r.choice(o), ["R", seed + 7, 0])
                cs.setup(1, n)
            cs.create(2, kind, ns[-1], b)
            sel = r.sample(o, 3)
            for op in sel:
                cs.x(1, op, ["R", seed, 0], fl=r.choice([0, 0, 1]))
            for op in reversed(sel):
                cs.x(2, op, ["R", seed, 0])
            if r.random() < 0.3 and ns[-1]:
                cs.x(1, sel[0], sigs.source(r, kind, ns[-1], sel[0] in FWD))
            cs.cost = 80 + sum(2 * xcost(kind, n) for n in ns) + 6 * xcost(kind, ns[-1])
            cs.destroy(r.choice([1, 2]))
            cases.append(cs.end())
    c.phase("setup histories against fresh objects", cases, ["memo", "acc", "can", "life"])
    # same length again, and a walk over many lengths on one object
    cases = []
    for kind in "CRDB":
        for b in be:
            cl = class_lens(kind, r)
            pool = sorted({x for v in cl.values() for x in v if x <= 8192})
            for rep in range(12 if c.thorough else 3):
                cs = Case(fill=r.choice([0, 1]), thr=1, label="walk %s %s" % (kind, b)).create(1, kind, 0, b)
                walk = [r.choice(pool) for _ in range(25)]
                for n in walk:
                    cs.setup(1, n)
                    op = r.choice(ops_of(kind, OPS))
                    cs.x(1, op, ["R", n, 0])
                    if r.random() < 0.3:
                        cs.setup(1, n).x(1, op, ["R", n, 0])
                    cs.create(2, kind, n, b).x(2, op, ["R", n, 0]).destroy(2)
                cs.cost = 3000 + sum(4 * xcost(kind, n) for n in walk)
                cases.append(cs.destroy(1).end())
    c.phase("long walks over lengths", cases, ["memo", "can", "life"])
    # large pow2 / parallel lengths, both directions of resize
    cases = []
    for kind in "CRD":
        for a, b2 in [(1 << 18, 1 << 13), (1 << 13, 1 << 18), (1 << 19, 1 << 20), (1 << 20, 98304), (98304, 1 << 16), (65536 * 2, 65538), (0, 1 << 17)]:
            b = r.choice(be)
            op = r.choice(ops_of(kind, OPS)); op2 = r.choice(ops_of(kind, OPS))
            cs = Case(fill=1, thr=4, label="%s %d->%d" % (kind, a, b2)).create(1, kind, a, b)
            if a:
                cs.x(1, op, ["R", 5, 0])
            cs.setup(1, b2).x(1, op2, ["R", 6, 0]).x(1, op, ["R", 7, 0]).create(2, kind, b2, b).x(2, op, ["R", 7, 0]).x(2, op2, ["R", 6, 0])
            cs.cost = 4 * (a + b2)
            cases.append(cs.end())
    c.phase("large lengths", cases, ["memo", "can", "life"])
    # every length after every other one: closed walks through all ordered pairs, on one object
    cases = []
    T = c.thorough
    for kind in "CRDB":
        u = 2 if kind in "RD" else 1
        groups = [list(range(0, 33 if T else 17)), [1 << k for k in range(0, 14)],
                  [48, 50, 60, 64, 72, 90, 96, 100, 120, 128, 144, 180, 192, 240, 256],
                  [1 << k for k in (range(13, 22) if T else range(14, 20))] + [3 << 14, 3 << 15, 3 << 16, 65538, 5 ** 7],
                  [1 << k for k in range(19, 25)] if T else []]
        for gi, g in enumerate(groups):
            g = [u * n for n in g if not (kind == "B" and n > (1 << 18))]
            if not g:
                continue
            w = gens.all_pairs(r, g)
            if gi == 3 and not T:
                w = [w] if kind == "C" else [w[k:k + 60] for k in range(0, len(w), 60)]
            else:
                w = [w[k:k + 200] for k in range(0, len(w), 200)]
            for k, part in enumerate(w):
                bb = be if T and gi < 3 else [r.choice(be)]
                for b in bb:
                    cs = Case(fill=r.choice([0, 1]), thr=4 if gi >= 3 else 1, label="pairs of lengths, group %d/%d %s %s" % (gi, k, kind, b))
                    cs.create(1, kind, part[0], b)
                    for n in part[1:]:
                        cs.setup(1, n)
                        cs.cost += 90 + 3 * xcost(kind, n)
                        if n:
                            op = r.choice(ops_of(kind, OPS))
                            cs.x(1, op, ["R", n, 0])
                            if gi < 3:
                                cs.x(1, r.choice(ops_of(kind, OPS)), ["R", n, 0])
                    # one new object per length, with all that was asked of it
                    done = {}
                    ln = 0
                    for st in cs.steps:
                        if st["e"] in ("create", "setup"):
                            ln = st["n"]
                        elif st["e"] == "x":
                            done.setdefault(ln, set()).add(st["op"])
                    cs.destroy(1)
                    for n in sorted(done):
                        cs.create(2, kind, n, b)
                        for op in sorted(done[n]):
                            cs.x(2, op, ["R", n, 0])
                            cs.cost += xcost(kind, n)
                        cs.destroy(2)
                    cases.append(cs.end())
    c.phase("every length after every other", cases, ["memo", "can", "life"])
    walks(c, "random walks of the API machine", 3000 if c.thorough else 320, ["memo", "acc", "can", "life", "input", "herm", "zero"])


# ------------------------------------------------------------------------------------------- C09
def c09(c):
    r = sub(c, "rep")
    be = backends()
    T = c.thorough
    lens = list(range(1, 260 if T else 90)) + pow2(6, 17) + gens.mid_lens(r, 400 if T else 40, 50000) + r.sample(gens.EDGES, 30 if T else 6)
    cases = []
    for n in lens:
        for kind in "CRDB":
            if kind in "RD":
                n2 = n + n % 2
            else:
                n2 = n
            for b in be if (T or n < 40) else [r.choice(be)]:
                o = ops_of(kind, OPS)
                sel = r.sample(o, len(o) if n < 64 else 3 if n < 9000 else 2)
                cs = Case(fill=1, guard=0, thr=r.choice([1, 2, 3]), label="%s %d %s" % (kind, n2, b)).create(1, kind, n2, b)
                t = cs.thr
                for op in sel:
                    cs.x(1, op, ["R", 11, 0])
                # other memory contents, other placement of the object
                cs.envs(r.choice([0, 2]), 0, t).create(2, kind, n2, b)
                for op in reversed(sel):
                    cs.x(2, op, ["R", 11, 0], fl=r.choice([1, 2, 4, 3, 5]))
                # poison through calls
                for _ in range(2 if n < 3000 else 1):
                    cs.x(1, r.choice(o), [r.choice(["F", "I"])] if r.random() < 0.7 else ["R", r.randrange(99), 700])
                r.shuffle(sel)
                for op in sel:
                    cs.x(1, op, ["R", 11, 0], fl=r.choice([0, 1, 2, 3, 4, 5]))
                    if r.random() < 0.4:
                        cs.x(1, r.choice(o), ["R", 77, r.choice([0, 500, -500])])
                cs.envs(r.choice([0, 1]), r.choice([1, 2]), t).create(3, kind, n2, b).x(3, r.choice(o), ["F"])
                for op in sel:
                    cs.x(3, op, ["R", 11, 0])
                cs.cost = 200 + (len(sel) * 4 + 4) * xcost(kind, n2)
                cases.append(cs.end())
    r.shuffle(cases)
    c.phase("repeated calls under changing history, memory contents and placement", cases, ["memo", "can"])
    # long random histories on one object
    cases = []
    for kind in "CRDB":
        for b in be:
            for n in r.sample([2, 4, 6, 8, 12, 16, 30, 60, 64, 100, 128, 256, 360, 512, 1024, 2048, 4096, 8192, 16384, 3000], 20 if T else 6):
                cs = Case(fill=0, thr=1, label="long %s %d %s" % (kind, n, b)).create(1, kind, n, b)
                o = ops_of(kind, OPS)
                for _ in range(60):
                    q = r.random()
                    cs.x(1, r.choice(o), ["R", r.randrange(3), 0] if q < 0.75 else ["F"] if q < 0.85 else ["I"] if q < 0.9 else ["R", 1, 600], fl=r.choice([0, 1, 2, 4]))
                cs.cost = 61 * xcost(kind, n)
                cases.append(cs.end())
    # very many calls: a counter that overflows, a state that is left after so many calls
    count = 300000 if T else 70000
    for kind in "CRDB":
        for b in be:
            for n in [8, r.choice([2, 4, 6, 10, 12, 14, 16])] + ([r.choice([22, 30, 64, 128])] if T else []):
                cs = Case(fill=0, thr=1, label="many %s %d %s" % (kind, n, b)).create(1, kind, n, b)
                for op in ops_of(kind, OPS):
                    cs.x(1, op, ["R", 5, 0]).rep(count).x(1, op, ["R", 5, 0])
                for op in ops_of(kind, OPS):
                    cs.x(1, op, ["R", 5, 0])
                cs.cost = count * 2
                cases.append(cs.end())
    c.phase("long histories on one object, very many calls", cases, ["memo", "can"])


# ------------------------------------------------------------------------------------------- C10
def c10(c):
    r = sub(c, "lin")
    be = backends()
    T = c.thorough
    lens = list(range(1, 300 if T else 100)) + pow2(7, 18) + gens.mid_lens(r, 300 if T else 40, 40000) + r.sample(gens.EDGES, 20 if T else 5)
    cases = []
    for n in lens:
        for kind in "CRDB":
            m = n + n % 2 if kind in "RD" else n
            for b in be if n < 48 or T else [r.choice(be)]:
                o = ops_of(kind, OPS)
                sel = o if m <= 24 else r.sample(o, 3 if m < 5000 else 2)
                cs = Case(fill=1, thr=thr(r), label="%s %d %s" % (kind, m, b)).create(1, kind, m, b)
                for op in sel:
                    # homogeneity: the key of R does not hold the scale, the hash is of the descaled result
                    cs.x(1, op, ["R", 3, 0])
                    for e in r.sample([-800, -700, -300, -60, -1, 1, 9, 100, 500, 800], 2 if m < 5000 else 1):
                        cs.x(1, op, ["R", 3, e])
                    cs.x(1, op, ["Z"])
                    # a NaN at the first, the last, the middle or any element
                    for j in sorted({r.choice([0, m - 1, m // 2, r.randrange(m)]), r.randrange(m)}):
                        if kind == "R" and op in INV and j > m // 2:
                            continue
                        if m <= 3000 or r.random() < 0.3:
                            cs.x(1, op, ["N", r.randrange(1000), j])
                cs.cost = 60 + len(sel) * 6 * xcost(kind, m)
                cases.append(cs.destroy(1).end())
    c.phase("homogeneity, zero, NaN", cases, ["memo", "zero", "nan"])
    cases = []
    for n in r.sample(lens, len(lens) // 2):
        for kind in "CRDB":
            m = n + n % 2 if kind in "RD" else n
            b = r.choice(be)
            cs = Case(fill=1, thr=thr(r), label="sum %s %d %s" % (kind, m, b))
            for k in (1, 2, 3):
                cs.create(k, kind, m, b)
            for op in r.sample(ops_of(kind, OPS), 2):
                s1, s2 = r.randrange(1, 1000), r.randrange(1000, 2000)
                cs.x(1, op, ["R", s1, 0]).x(2, op, ["R", s2, 0]).x(3, op, ["S", s1, s2]).lin(3, 1, 2)
            cs.cost = 100 + 6 * xcost(kind, m)
            cases.append(cs.end())
    c.phase("additivity", cases, ["cmp"])
    # data of extreme magnitude: tones and deltas with exact results
    cases = []
    for n in r.sample(lens, len(lens) // 3):
        for kind in "CRDB":
            m = n + n % 2 if kind in "RD" else n
            b = r.choice(be)
            cs = Case(fill=0, thr=thr(r), label="scaled %s %d %s" % (kind, m, b)).create(1, kind, m, b)
            for op in r.sample(ops_of(kind, OPS), 2):
                e = r.choice([-700, -200, -30, 30, 200, 700])
                s = sigs.source(r, kind, m, op in FWD)
                cs.x(1, op, ["L", [t[:6] + [t[6] + e] for t in s[1]]])
            cs.cost = 60 + 3 * xcost(kind, m)
            cases.append(cs.end())
    c.phase("signals of extreme magnitude", cases, ["acc"])


# ------------------------------------------------------------------------------------------- C11
def c11(c):
    r = sub(c, "be")
    be = backends()
    T = c.thorough
    lens = list(range(1, 900 if T else 260)) + pow2(8, 18) + gens.mid_lens(r, 600 if T else 70, 60000) + r.sample(gens.EDGES, 20 if T else 8)
    cases = []
    if len(be) < 2:
        c.notes.append("this machine supports one back end only")
    for n in lens:
        for kind in "CRDB":
            m = n + n % 2 if kind in "RD" else n
            o = ops_of(kind, OPS)
            sel = o if m < 70 else r.sample(o, 4 if m < 2000 else 2)
            cs = Case(fill=r.choice([0, 1]), thr=thr(r), label="%s %d" % (kind, m))
            for k, b in enumerate(be):
                cs.create(k + 1, kind, m, b)
            for op in sel:
                src = r.choice([["R", r.randrange(1000), r.choice([0, 0, 300, -300])], sigs.source(r, kind, m, op in FWD)])
                for k in range(len(be)):
                    cs.x(k + 1, op, src, fl=r.choice([0, 1, 2, 4]))
                for k in range(1, len(be)):
                    cs.cmp(k, k + 1)
            cs.cost = 60 + len(sel) * 4 * xcost(kind, m)
            cases.append(cs.end())
    r.shuffle(cases)
    c.phase("the same call on every back end", cases, ["cmp", "life", "acc"])


# ------------------------------------------------------------------------------------------- C16
def c16(c):
    r = sub(c, "res")
    be = backends()
    T = c.thorough
    foc = ["heap", "memo", "life", "can"]
    # plain histories, blocks counted after every call
    cases = []
    hs = histories(c, 3)
    for kind in "CRDB":
        cl = class_lens(kind, r)
        for h in (hs if T else [x for x in hs if len(x) == 2] + r.sample([x for x in hs if len(x) == 3], 80)):
            ns = [r.choice([n for n in cl[x] if n <= 9000] or [64]) for x in h]
            b = r.choice(be)
            cs = Case(fill=r.choice([0, 1, 2]), thr=r.choice([1, 2, 4]), label="life %s %s %s" % (kind, ns, b)).create(1, kind, ns[0], b)
            for n in ns[1:]:
                if r.random() < 0.6:
                    cs.x(1, r.choice(ops_of(kind, OPS)), ["R", 1, 0])
                cs.setup(1, n)
            if r.random() < 0.5:
                cs.create(2, r.choice("CRDB"), 2 * r.randrange(0, 40), r.choice(be))
                for o in r.sample([1, 2], 2):
                    cs.destroy(o)
            else:
                cs.destroy(1)
            cs.cost = 100 + 4 * sum(xcost(kind, n) for n in ns)
            cases.append(cs.end())
    c.phase("histories, every block accounted for", cases, foc)
    # each allocation of a create and of a setup fails in turn
    cases = []
    KMAX = 14
    for kind in "CRDB":
        cl = class_lens(kind, r)
        pool = sorted({n for v in cl.values() for n in v if n <= 20000}) + [2 * 16384]
        for b in be:
            for n in pool:
                for k in range(1, KMAX):
                    if not T and n > 300 and r.random() < 0.6:
                        continue
                    cs = Case(fill=r.choice([0, 1]), thr=1, label="create fails at %d: %s %d %s" % (k, kind, n, b))
                    cs.create(1, kind, n, b, fail=k)
                    cs.cost = 60 + xcost(kind, n)
                    cases.append(cs.end())
    c.phase("create with each allocation failing in turn", cases, foc)
    cases = []
    for kind in "CRDB":
        cl = class_lens(kind, r)
        pool = sorted({n for v in cl.values() for n in v if n <= 9000})
        pairs = [(a, z) for a in pool for z in pool]
        for a, z in (pairs if T else r.sample(pairs, 60)):
            b = r.choice(be)
            for k in range(1, KMAX):
                if not T and k > 6 and r.random() < 0.5:
                    continue
                cs = Case(fill=1, thr=1, label="setup fails at %d: %s %d->%d %s" % (k, kind, a, z, b)).create(1, kind, a, b)
                if a and r.random() < 0.5:
                    cs.x(1, r.choice(ops_of(kind, OPS)), ["R", 2, 0])
                cs.setup(1, z, fail=k)
                q = r.random()
                if q < 0.35:
                    cs.destroy(1)
                else:
                    nx = z if q < 0.6 else r.choice(pool)
                    if q > 0.9:
                        cs.setup(1, r.choice(pool), fail=r.randrange(1, 8))
                    op = r.choice(ops_of(kind, OPS))
                    cs.setup(1, nx).x(1, op, ["R", 4, 0]).create(2, kind, nx, b).x(2, op, ["R", 4, 0]).destroy(1).destroy(2)
                cs.cost = 100 + 2 * xcost(kind, a) + 4 * xcost(kind, z)
                cases.append(cs.end())
    c.phase("setup with each allocation failing in turn, and recovery", cases, foc)
    walks(c, "random walks of the API machine with failing allocations", 3000 if T else 240, foc, fail=25, x=35, depth=50)


# ------------------------------------------------------------------------------------------- C19
def c19(c):
    r = sub(c, "user")
    be = backends()
    T = c.thorough
    lens = list(range(1, 300 if T else 70)) + pow2(6, 18) + gens.mid_lens(r, 400 if T else 60, 50000) + r.sample(gens.EDGES, 20 if T else 6)

    def setting(cs, rounding):
        rc = r.choice([0, 1, 2, 3]) if rounding else 0
        return cs.user(rc=rc, ftz=r.choice([0, 0, 1, 2, 3]) if rounding else 0, thr=r.choice([1, 1, 2, 3, 4, 8]), dyn=r.choice([0, 0, 0, 1]),
                       ml=r.choice([1, 1, 0, 2, 3]), par=0 if r.random() < 0.75 else r.choice([1, 2, 3]))

    def cases(rounding, kinds, per):
        out = []
        for n in lens:
            for kind in kinds:
                m = n + n % 2 if kind in "RD" else n
                for b in be if m < 40 else [r.choice(be)]:
                    o = ops_of(kind, OPS)
                    sel = o if m <= 80 else r.sample(o, per if m < 9000 else 2)
                    cs = setting(Case(fill=r.choice([0, 1]), thr=1, label="%s %d %s" % (kind, m, b)), rounding).create(1, kind, m, b)
                    for k, op in enumerate(sel):
                        if r.random() < 0.25:
                            setting(cs, rounding)
                        if rounding:
                            cs.x(1, op, sigs.source(r, kind, m, op in FWD) if r.random() < 0.6 else ["R", 3, 0], fl=r.choice([0, 1, 2, 4]))
                        else:
                            cs.x(1, op, ["R", 5, 0])
                            setting(cs, False)
                            cs.x(1, op, ["R", 5, 0])
                    if r.random() < 0.5:
                        q = r.choice([8, 30, 256, 1024, 1500, 4096, 8192])
                        setting(cs, rounding).setup(1, q).x(1, sel[0], ["R", 6, 0])
                    if r.random() < 0.7:
                        cs.destroy(1)
                    cs.cost = 400 + xcost(kind, m) * len(sel)
                    out.append(cs.end())
        return out

    env = {"DRV_CALLER": "1", "DRV_FRESH": "1"}
    c.phase("state of the caller under rounding modes and thread settings", cases(True, "CRDB", 4), ["caller", "acc", "can"], env=env)
    c.phase("same bits under any thread setting and from inside parallel regions", cases(False, "CRDB", 3), ["caller", "memo", "can"], env=env)
    big = []
    for kind in "CRDB":
        for k in range(14, 23 if T else 21):
            n, b = 1 << k, r.choice(be)
            cs = setting(Case(fill=1, thr=1, label="%s 2^%d %s" % (kind, k, b)), True).create(1, kind, n if kind != "B" or k < 18 else n // 8, b)
            for op in r.sample(ops_of(kind, OPS), 4 if T else 2):
                cs.x(1, op, ["R", 3, 0])
            cs.cost = 5 * n
            big.append(cs.destroy(1).end())
    c.phase("large lengths", big, ["caller", "can"], env=env)
