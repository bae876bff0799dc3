"""Choice of lengths and histories for the API-level checks (what must come out is decided by the specification)."""
import random
import pipe, sigs
from pipe import Case, OPS

FWD = OPS[:4]
INV = OPS[4:]
CANCEL = [("fwd", "inv"), ("fwd", "inv0"), ("fwdn", "inv"), ("fwdn", "inv0"), ("fwd0", "invn"), ("fwdu", "invu")]
CANCEL += [(b, a) for a, b in CANCEL]
DCT_NO = ("fwdu", "invu")


def ops_of(kind, ops):
    return [o for o in ops if kind != "D" or o not in DCT_NO]


def lpf(n):
    b, d = 1, 2
    while n > 1:
        if d * d > n:
            return max(b, n)
        while n % d == 0:
            n //= d; b = max(b, d)
        d += 1
    return b


def smooth(lo, hi, primes=(2, 3, 5)):
    out = [1]
    for p in primes:
        nxt = []
        for x in out:
            while x <= hi:
                nxt.append(x); x *= p
        out = nxt
    return sorted(x for x in out if x >= lo)


# lengths at which a path of the library begins or ends
EDGES = [16384 * 3, 24576, 24577, 32766, 32767, 32768, 32769, 32770, 32772, 36864, 40960, 49152, 57344, 59049, 62500, 65534, 65535,
         65536, 65537, 65538, 65540, 78125, 81920, 98304, 98415, 99999, 100000, 100352, 114688, 117649, 118098, 131070, 131072,
         131074, 161051, 163840, 177147, 196608, 229376, 245760, 262146]


EDGES = [n for n in EDGES if n * lpf(n) < 3 * 10 ** 8]


def mid_lens(rng, k, hi=300000):
    """lengths between 513 and hi: smooth ones, ones with prime factors, primes"""
    s = [n for n in smooth(513, hi) if n & (n - 1)]
    s7 = [n for n in smooth(513, hi, (2, 3, 5, 7, 11, 13, 17, 19, 23)) if n & (n - 1)]
    out = rng.sample(s, min(len(s), k)) + rng.sample(s7, min(len(s7), k // 2))
    for _ in range(k // 4):
        out.append(rng.randint(513, 6000))                         # any residue, large prime factors
    for _ in range(k // 8):
        p = rng.choice([7, 11, 13, 17, 31, 61, 127, 251, 509, 1021])
        out.append(p * rng.choice(smooth(1, max(2, hi // p // 4))) or p)
    return [n for n in out if n >= 2 and n * lpf(n) < 10 ** 8]


def thr(rng):
    return rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8])


def xcost(kind, n):
    c = 60 + n * (1.5 if kind == "B" else 0.6)
    if kind != "B" and n > 5 and n & (n - 1):
        c += n * lpf(n) * 0.006
    return c


def sweep(rng, kinds, lens, ops, backends, per=None, variety=True, fls=(0, 0, 0, 1, 2, 4), fresh=False, pair=False):
    """one case per (kind, length, back end): every op on its own input"""
    cases = []
    for n in lens:
        for kind in kinds:
            if kind in "RD" and n % 2:
                continue
            for be in backends:
                o = ops_of(kind, ops)
                if per and len(o) > per:
                    o = rng.sample(o, per)
                c = Case(fill=rng.choice([0, 1]), guard=0, thr=thr(rng), label="%s %d %s" % (kind, n, be))
                c.cost = 40 + xcost(kind, n) * len(o) * (2 if pair else 1)
                c.create(1, kind, n, be)
                for op in o:
                    fwd = op in FWD
                    c.x(1, op, sigs.source(rng, kind, n, fwd, variety), fl=rng.choice(fls))
                    if pair:
                        c.x(1, rng.choice([b for a, b in CANCEL if a == op]), ["K"])
                c.destroy(1).end()
                cases.append(c)
    return cases


def chains(rng, kinds, lens, backends, pairs=None, variety=True):
    """round trips: every cancelling pair, in both orders"""
    cases = []
    for n in lens:
        for kind in kinds:
            if kind in "RD" and n % 2:
                continue
            for be in backends:
                pr = [p for p in CANCEL if kind != "D" or p[0] not in DCT_NO]
                if pairs and len(pr) > pairs:
                    pr = rng.sample(pr, pairs)
                c = Case(fill=rng.choice([0, 1]), thr=thr(rng), label="pairs %s %d %s" % (kind, n, be))
                c.cost = 40 + xcost(kind, n) * len(pr) * 2
                c.create(1, kind, n, be)
                for a, b in pr:
                    c.x(1, a, sigs.source(rng, kind, n, a in FWD, variety)).x(1, b, ["K"])
                c.destroy(1).end()
                cases.append(c)
    return cases


def all_pairs(rng, items):
    """a closed walk in which every item follows every item (itself included) exactly once: an Euler circuit of the complete digraph"""
    nxt = {a: rng.sample(items, len(items)) for a in items}
    stack, out = [rng.choice(items)], []
    while stack:
        if nxt[stack[-1]]:
            stack.append(nxt[stack[-1]].pop())
        else:
            out.append(stack.pop())
    return out[::-1]
