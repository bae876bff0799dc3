"""Choice of inputs (abstract signals of spec/Signal.tla).  No transform rule here."""


def t(ty, i, re, im=0, ph=0, h=0, e=0):
    return [ty, i, re, im, ph, h, e]


def nz(rng, m=4):
    while True:
        a, b = rng.randint(-m, m), rng.randint(-m, m)
        if a or b:
            return a, b


def cdense(rng, N):
    """complex, dense and (nearly) flat on both sides"""
    if N == 1:
        a, b = nz(rng)
        return [t("d", 0, a, b)]
    s = []
    V = 40
    if N % 2 == 0:
        a, b = nz(rng); s.append(t("p", rng.randint(-V, V), a, b))
        if rng.random() < 0.5:
            a, b = nz(rng); s.append(t("m", rng.randint(-V, V), a, b))
    else:
        a, b = nz(rng); s.append(t("q", rng.randrange(N), a, b))
        if rng.random() < 0.5:
            a, b = nz(rng); s.append(t("r", rng.randrange(N), a, b))
    for _ in range(rng.randint(1, 2)):
        a, b = nz(rng); s.append(t("d", rng.randrange(N), a, b))
    return s


def csparse(rng, N):
    s = []
    for _ in range(rng.randint(1, 3)):
        a, b = nz(rng); s.append(t("d", rng.randrange(N), a, b))
    return s


def ctone(rng, N):
    a, b = nz(rng)
    s = [t("t", rng.randrange(N), a, b)]
    a, b = nz(rng)
    s.append(t("t", rng.randrange(N), a, b))
    return s


def rdense(rng, N):
    """real array"""
    s = []
    if N >= 2:
        v = rng.randint(-40, 40)
        a, b = nz(rng)
        s += [t("p", v, a, b), t("m", -v, a, -b)]
    for _ in range(rng.randint(1, 2)):
        s.append(t("d", rng.randrange(N), rng.choice([-3, -2, -1, 1, 2, 3])))
    return s


def rtone(rng, N):
    k = rng.randrange(N)
    a, b = nz(rng)
    s = [t("t", k, a, b), t("t", (N - k) % N, a, -b)]
    s.append(t("d", rng.randrange(N), rng.choice([-3, -2, -1, 1, 2, 3])))
    return s


def hdense(rng, N):
    """Hermitian spectrum"""
    s = []
    v = rng.randint(-40, 40)
    a, b = nz(rng)
    s += [t("p", v, a, b), t("m", v, a, -b)]
    k = rng.randrange(N)
    a, b = nz(rng)
    s += [t("d", k, a, b), t("d", (N - k) % N, a, -b)]
    if rng.random() < 0.5:
        s.append(t("t", rng.randrange(N), rng.choice([-2, -1, 1, 2])))
    return s


def hsparse(rng, N):
    k = rng.choice([0, N // 2, rng.randrange(N)])
    a, b = nz(rng)
    return [t("d", k, a, b), t("d", (N - k) % N, a, -b)]


def dfwd(rng, N):
    s = []
    for _ in range(rng.randint(1, 3)):
        s.append(t("Dc", rng.randrange(N), rng.choice([-3, -2, -1, 1, 2, 3])))
    for _ in range(rng.randint(1, 3)):
        s.append(t("Dd", rng.randrange(N), rng.choice([-3, -2, -1, 1, 2, 3])))
    return s


def dinv(rng, N):
    s = []
    for _ in range(rng.randint(1, 3)):
        s.append(t("Ds", rng.randrange(N), rng.choice([-3, -2, -1, 1, 2, 3])))
    for _ in range(rng.randint(1, 3)):
        s.append(t("Dd", rng.randrange(N), rng.choice([-3, -2, -1, 1, 2, 3])))
    return s


def source(rng, kind, N, fwd, variety=True):
    if kind in "CB":
        f = rng.choice([cdense, cdense, cdense, csparse, ctone]) if variety else cdense
    elif kind == "R":
        f = (rng.choice([rdense, rdense, rtone]) if fwd else rng.choice([hdense, hdense, hsparse])) if variety else (rdense if fwd else hdense)
    else:
        f = dfwd if fwd else dinv
    return ["L", f(rng, N)]
