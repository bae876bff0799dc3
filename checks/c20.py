"""C20: the cost of a transform is that of a fast one - work and memory per element."""
import json, os
import gens
from api import sub, pow2
from c15 import even
from gens import ops_of, xcost
from pipe import Case, OPS, backends

# products of primes above 5, prime powers, and such times powers of two: what a step of a composite radix would cost most
ROUGH = [49, 77, 91, 121, 143, 169, 187, 221, 289, 323, 343, 361, 391, 437, 529, 539, 667, 847, 1001, 1183, 1309, 1331, 1547, 2197, 2401, 2431, 4913, 5831,
         6859, 7429, 12167, 15341, 16807, 17017, 20677, 24389, 46189]


PRIMES = [p for p in range(7, 400) if all(p % d for d in range(2, p))]


def rough_pairs(r, count):
    """Products of two (or three) primes, the primes spread over all magnitudes: a decomposition that gives up at some size shows."""
    out = []
    for i in range(count):
        lo = 7 * (25 ** (i / count))                       # the smaller factor walks from 7 to 175
        p = min(PRIMES, key=lambda v: abs(v - lo))
        q = r.choice([v for v in PRIMES if p <= v and p * v <= 30000][:12])
        n = p * q
        out.append(n * r.choice([m for m in (1, 1, 1, 2, 3, 4, 5, 8) if n * m <= 30000]))
    return out


def main(c):
    r = sub(c, "cost")
    T = c.thorough
    be = backends()
    lp = os.path.join(c.wd, "plan.json")
    json.dump(list(range(2, 20001 if T else 6001)) + [n for n in gens.EDGES], open(lp, "w"))
    c.model("Plan.tla", "Plan.cfg", env=dict(LENS=lp), workers=4, name="design: the plan of every length is whole, ends, and its steps stay within the bound", timeout=3000)
    lens = list(range(1, 400 if T else 130)) + r.sample(range(130, 3000), 400 if T else 60) + pow2(8, 20 if T else 18) + ROUGH + \
        [p * m for p in ROUGH[:20] for m in (r.sample([2, 4, 8, 16, 32, 64, 3, 5, 15, 27], 4 if T else 1))] + gens.mid_lens(r, 200 if T else 40, 60000) + \
        rough_pairs(r, 300 if T else 60) + [3 ** k for k in range(5, 11)] + [5 ** k for k in range(4, 8)] + r.sample(gens.EDGES, 20 if T else 8)
    cases, seen = [], set()
    for n0 in lens:
        for kind in "CRDB":
            n = even(kind, n0) if n0 > 130 or kind not in "RD" else 2 * n0
            if kind in "RD" and n0 in ROUGH:
                n = 2 * n0
            if (kind != "B" and n * gens.lpf(n) > 1e8) or (kind == "B" and n > 150000):
                continue
            for b in (be if T and n < 3000 else [r.choice(be)]):
                if (kind, n, b) in seen:
                    continue
                seen.add((kind, n, b))
                o = ops_of(kind, OPS)
                sel = o if n <= 3000 else r.sample(o, 3 if T else 2)
                cs = Case(fill=0, thr=1, label="cost %s %d %s" % (kind, n, b)).sched(r.choice([1, 1, 3, 8]), 0, r.randrange(1, 9999))
                if r.random() < 0.3:
                    cs.create(1, kind, r.choice([m for m in (0, 2, 64, 30, even(kind, n // 2), n) if m <= n]), b).setup(1, n)
                else:
                    cs.create(1, kind, n, b)
                for op in sel:
                    cs.x(1, op, ["R", 5, 0])
                cs.cost = 60 + 3 * xcost(kind, n) * len(sel)
                cases.append(cs.destroy(1).end())
    r.shuffle(cases)
    c.phase("bytes moved and held per element (instrumented)", cases, ["cost"], sched=True, parts=16)
    # memory alone, plain build: more lengths, larger ones, objects that were larger before
    lens = list(range(1, 3000 if T else 700)) + pow2(9, 23 if T else 21) + gens.mid_lens(r, 400 if T else 100) + gens.EDGES + [(1 << k) + d for k in range(10, 21 if T else 19) for d in (-1, 1, 2)]
    cases, seen = [], set()
    for n0 in lens:
        for kind in "CRDB":
            n = even(kind, n0)
            if (kind, n) in seen or (kind == "B" and n > 1 << 21):
                continue
            seen.add((kind, n))
            b = r.choice(be)
            cs = Case(fill=2, thr=1, label="memory %s %d %s" % (kind, n, b))
            if r.random() < 0.5:
                cs.create(1, kind, r.choice([m for m in (0, 2, 64, 4096, 65536, even(kind, n // 3), n) if m <= n]), b).setup(1, n)
            else:
                cs.create(1, kind, n, b)
            if n * gens.lpf(n) < 3e7 or kind == "B":
                cs.x(1, r.choice(ops_of(kind, OPS)), ["R", 5, 0])
            cs.cost = 60 + 3 * xcost(kind, n)
            cases.append(cs.destroy(1).end())
    c.phase("bytes held per element", cases, ["cost"], parts=16)
