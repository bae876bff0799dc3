"""C15: only the given elements and the object's own memory are touched."""
import gens
from api import sub, pow2
from c13 import parlens
from gens import ops_of, xcost
from pipe import Case, OPS, backends


def even(kind, n):
    return n + n % 2 if kind in "RD" else n


def main(c):
    r = sub(c, "confine")
    T = c.thorough
    be = backends()
    # exact footprints of every access
    lens = list(range(1, 700 if T else 200)) + r.sample(range(200, 1100), 200 if T else 24) + pow2(8, 15) + gens.mid_lens(r, 300 if T else 50, 24000)
    cases = []
    seen = set()
    for n0 in lens:
        for kind in "CRDB":
            n = even(kind, n0)
            if n * gens.lpf(n) > 3e7 and kind != "B":
                continue
            for b in (be if n < 1024 or T else [r.choice(be)]):
                if (kind, n, b) in seen:
                    continue
                seen.add((kind, n, b))
                o = ops_of(kind, OPS)
                sel = o if n <= 40 else r.sample(o, 4 if T else 2)
                cs = Case(fill=0, thr=1, label="footprint %s %d %s" % (kind, n, b)).sched(1)
                if r.random() < 0.3:
                    cs.create(1, kind, r.choice([0, 2, 64, 30]), b).setup(1, n)
                else:
                    cs.create(1, kind, n, b)
                for op in sel:
                    cs.x(1, op, ["R", 5, 0], fl=r.choice([0, 1]))
                cs.cost = 60 + 3 * xcost(kind, n) * len(sel)
                cases.append(cs.destroy(1).end())
    r.shuffle(cases)
    c.phase("footprint of every single access, one thread", cases, ["foot", "can"], sched=True, parts=16)
    cases = []
    for kind in "CRDB":
        for n in parlens(kind, r, T):
            for b in (be if T else [r.choice(be)]):
                o = ops_of(kind, OPS)
                sel = r.sample(o, 3 if T else 1)
                cs = Case(fill=0, thr=1, label="team %s %d %s" % (kind, n, b)).sched(r.choice([2, 3, 5, 7, 13, 33]), 0, r.randrange(1, 9999)).create(1, kind, n, b)
                for op in sel:
                    cs.sched(r.choice([2, 3, 4, 6, 7, 11, 31, 64]), 0, r.randrange(1, 9999)).x(1, op, ["R", 5, 0])
                cs.cost = xcost(kind, n) * (1 + len(sel))
                cases.append(cs.destroy(1).end())
    if T:
        for n in [1 << 18, 1 << 19, 1 << 20, 1 << 21]:
            for b in be:
                cs = Case(fill=0, thr=1, label="team C %d %s" % (n, b)).sched(3, 0, 5).create(1, "C", n, b)
                for op in r.sample(OPS, 2):
                    cs.sched(5, 0, 7).x(1, op, ["R", 5, 0])
                cs.cost = n * 40
                cases.append(cs.destroy(1).end())
    c.phase("footprint of every single access, teams", cases, ["foot", "can"], sched=True, parts=16)
    # the plain build: guard pages at both ends, canaries, odd alignments, write-protected input
    lens = list(range(1, 1300 if T else 330)) + pow2(9, 19) + gens.mid_lens(r, 400 if T else 60, 60000) + r.sample(gens.EDGES, 30 if T else 8)
    cases = []
    seen = set()
    for n0 in lens:
        for kind in "CRDB":
            n = even(kind, n0)
            for b in (be if n < 4000 or T else [r.choice(be)]):
                if (kind, n, b) in seen:
                    continue
                seen.add((kind, n, b))
                o = ops_of(kind, OPS)
                sel = o if n <= 70 else r.sample(o, 4 if n < 3000 or T else 2)
                cs = Case(fill=r.choice([0, 1]), guard=r.choice([1, 2]) if n < 20000 else r.choice([0, 1, 2]), thr=r.choice([1, 1, 2, 3, 4]), label="guard %s %d %s" % (kind, n, b))
                cs.create(1, kind, n, b)
                for op in sel:
                    for fl in (r.sample([2, 3, 4, 5, 1], 3) if n <= 70 else [r.choice([2, 3]), r.choice([4, 5])] if n < 3000 else [r.choice([2, 3, 4, 5])]):
                        cs.x(1, op, ["R", 5, 0], fl=fl)
                cs.cost = 60 + 2 * xcost(kind, n) * len(sel)
                cases.append(cs.destroy(1).end())
    r.shuffle(cases)
    c.phase("guard pages, canaries, odd alignments, write-protected inputs (plain build)", cases, ["can", "input", "memo", "heap"], parts=16)
