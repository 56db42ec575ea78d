"""C19: KernelCanvas marks the nearest kernels of every point."""
import math

import numpy as np

ID = "C19"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 8000, 200000
RULE = ("random canvases (1..8 dimensions, 1..300 kernels, 1..9 bits, activation degrees from 0 to 1) transform random sequences (random walks, integers, huge and tiny scales, repeated points). On the C++ targets the kernels "
        "are observed through a derived class and an independent oracle computes for every point the kernels that must and may be on; everywhere the shape, equal bits, number of kernels on, repetition of the call, "
        "other canvases in between, and exact invariances (order, repetition, scaling by powers of two, integer shifts) are compared. Non-trivial: neither no nor all kernels on; distinct by canvas and sequence")
MIN = {"large_dims": 3, "large_kernels": 3, "large_points": 3, "large_bits": 3, "large_long": 3, "transforms": 14000, "invariances": 6000, "repeats": 10000, "direction": 1000}
ASSUMPTIONS = ["kernels whose distance differs from the limit by less than 1e-7 are not decided",
               "the oracle needs the protected member `kernels`; without it (and in Python) only the black-box relations are checked",
               "standardisation is (mean - value) / population standard deviation"]
DEGREES = [None, None, None, 0, 0.0, 0.5, 0.5, 0.125, 0.375, 0.25, 0.75, 0.01, 0.07, 0.1, 0.2, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 0.99, 1, 1.0]


def seq(rng, dim, exact):
    """Every dimension varies."""
    if exact:
        n = rng.choice([2, 4, 8, 16])
        s = [[rng.randint(-8, 8) for _ in range(dim)] for _ in range(n)]
        for j in range(dim):
            if all(p[j] == s[0][j] for p in s):
                s[0][j] += rng.choice([1, -3, 5])
        return [[float(v) for v in p] for p in s]
    n = rng.choice([2, 2, 3, 5, 7, 10, 20, 40])
    s = []
    mode = rng.random()
    p = [rng.gauss(0, 1) for _ in range(dim)]
    for _ in range(n):
        if mode < .5:
            p = [v + rng.gauss(0, .5) for v in p]
        elif mode < .8:
            p = [rng.gauss(0, 1) for _ in range(dim)]
        else:
            p = [rng.choice([0, 0, 0, 1, 100, -5]) + rng.random() * .01 for _ in range(dim)]
        s.append(list(p))
    if rng.random() < .3:
        sc = [10.0 ** rng.randint(-60, 60) for _ in range(dim)]
        s = [[v * f for v, f in zip(p, sc)] for p in s]
    if rng.random() < .2:
        i = rng.randrange(n)
        s.insert(rng.randrange(n), list(s[i]))
    return s


def ks(deg, n):
    """Possible numbers of nearest kernels (both at a rounding border)."""
    a = float(np.float32(0.07 if deg is None else deg)) * n
    b = (0.07 if deg is None else deg) * n
    if a == b and float(np.float32(a)) == a:  # no rounding before round()
        return [int(math.floor(a + .5))]
    return sorted({int(math.floor(x + .5 + d)) for x in (a, b) for d in (-1e-4, 1e-4)})


def sets(kern, s, k):
    a = np.array(s, dtype=np.longdouble)
    p = np.tanh((a.mean(0) - a) / a.std(0)).astype(float)
    d = np.sqrt(((p[:, None, :] - kern[None, :, :]) ** 2).sum(2))
    n = kern.shape[0]
    if k == 0:
        return np.zeros(n, bool), np.zeros(n, bool)
    o = np.sort(d, 1)
    if k >= n:
        return np.ones(n, bool), np.ones(n, bool)
    must = d < o[:, k:k + 1] - 1e-7
    may = d <= o[:, k - 1:k] + 1e-7
    return must.any(0), may.any(0)


def case(c):
    t, rng = c.t, c.rng
    dim = rng.choice([1, 1, 2, 2, 3, 4, 6, 8])
    n = rng.choice([1, 2, 3, 5, 10, 20, 50, 100, 300, rng.randint(1, 60)])
    deg = rng.choice(DEGREES + [rng.random(), rng.random()])
    bits = rng.choice([None, 1, 2, 3, 4, 9])
    large = c.every(127) and ["dims", "kernels", "points", "bits", "long"][c.k // 127 % 5]
    if large == "dims":
        dim, n = rng.choice([16, 17, 33, 64, 100, 300]), rng.choice([5, 20, 60])
    elif large == "kernels":
        n, deg = rng.choice([1025, 2048, 4100, 9000]), rng.choice([.0005, .001, .01, .5])
    elif large == "points":
        dim, n, deg, bits = rng.choice([1, 2, 3]), 4000, .0003, 1
    elif large == "long":
        dim, n, deg, bits = 1, 300, .0034, 1
    elif large == "bits":
        bits = rng.choice([32, 33, 64, 65, 127, 128, 255, 256, 300, 1000])
    if large:
        c.count("large_" + large)
    o = {}
    if deg is not None:
        o["activationDegree"] = deg
    if bits is not None:
        o["bitsByKernel"] = bits
    direction = rng.random() < .12 and large != "long"
    if direction or rng.random() < .1:
        o["useDirection"] = direction
    bits = bits or 3
    t.do("kc.new", "k", dim, n, o)
    kern = None
    probe = t.is_cxx and "probe" in t.do("caps")
    c.count("no_probe", t.is_cxx and not probe)
    if not direction and probe:
        kern = np.array(t.do("kc.kernels", "k"), dtype=float)
        c.eq(list(kern.shape), [n, dim], "kernels", "shape of the kernels")
        c.check(bool((abs(kern) <= 1).all()), "kernels", "a kernel lies outside [-1,1]")
    kk = ks(deg, n)
    first = []
    for _ in range(1 if large in ("points", "long") else rng.randint(2, 5)):
        exact = direction is False and rng.random() < .5
        s = seq(rng, dim, exact)
        if large == "points":
            exact = False
            p, s = [0.0] * dim, []
            for _ in range(rng.choice([257, 300, 513, 1025])):
                p = [v + rng.random() for v in p]
                s.append(p)
        elif large == "long":  # only the last points reach some kernels
            exact = False
            m = [70000, 70000, 9000, 20000][c.k // 635 % 4]
            s = [[rng.choice([-.2, .2]) + rng.random() * .01 + 5] for _ in range(m)] + [[5 + rng.choice([-.1, 0, .1])] for _ in range(rng.randint(1, 9))]
        out = t.do("kc.transform", "k", s)
        c.count("transforms")
        c.eq(len(out), n * bits, "length", "number of values")
        c.check(all(v in (0, 1) for v in out), "values", lambda: "a value is neither 0 nor 1: %s" % out)
        on = [out[i * bits] for i in range(n)]
        c.check(all(out[i * bits + b] == on[i] for i in range(n) for b in range(bits)), "bits", lambda: "the bits of a kernel differ: %s" % out)
        first.append((s, out))
        cnt = sum(on)
        npts = len(s) if direction else len({tuple(p) for p in s})
        c.check(kk[0] <= cnt <= min(n, kk[-1] * npts), "count", lambda: "%d of %d kernels are on for %d distinct points with %s nearest each" % (cnt, n, npts, kk))
        if 0 < cnt < n:
            c.nontrivial = True
        if direction:
            c.count("direction")
            continue
        if kern is not None:
            good = False
            why = ""
            for k in kk:
                must, may = sets(kern, s, k)
                got = np.array(on, bool)
                bad = np.nonzero((must & ~got) | (got & ~may))[0]
                if not len(bad):
                    good = True
                    c.count("kernels_decided", int((must | ~may).sum()))
                    c.count("borderline_kernels", int((may & ~must).sum()))
                    break
                why = "kernel %d is %s; %d nearest kernels of %d points, sequence %s" % (bad[0], "on" if on[bad[0]] else "off", k, len(s), s if len(s) < 2000 else s[-20:])
            c.count("oracle_points", len(s))
            c.check(good, "nearest", lambda: why)
        if exact:
            v = [list(p) for p in s]
            what = []
            if rng.random() < .6:
                rng.shuffle(v)
                what.append("order")
            if rng.random() < .4:
                v = [list(p) for p in v for _ in range(2)]
                if rng.random() < .5:
                    rng.shuffle(v)
                what.append("repetition")
            for j in range(dim):
                if rng.random() < .4:
                    f = 2.0 ** rng.randint(-40, 40)
                    v = [[x * f if i == j else x for i, x in enumerate(p)] for p in v]
                    what.append("scale")
                elif rng.random() < .4:
                    f = float(rng.randint(-64, 64))
                    v = [[x + f if i == j else x for i, x in enumerate(p)] for p in v]
                    what.append("shift")
            c.eq(t.do("kc.transform", "k", v), out, "invariance", "result after changing only %s" % ", ".join(sorted(set(what)) or ["nothing"]))
            c.count("invariances")
        if rng.random() < .5:
            r = rng.random()
            if r < .3:
                t.do("kc.new", "other", dim, max(1, n // 2), {"useDirection": rng.random() < .3})
                t.do("kc.transform", "other", s)
            elif r < .5:
                t.do("crand", rng.randrange(1 << 30), rng.randrange(9))
                t.do("clock", rng.randrange(1 << 31))
    for s, out in first:
        c.eq(t.do("kc.transform", "k", s), out, "repeat", "the same sequence transformed again")
        c.count("repeats")
    if t.is_cxx and rng.random() < .3:
        t.do("kc.copy", "k2", "k")
        t.do("del", "k")
        c.eq(t.do("kc.transform", "k2", first[0][0]), first[0][1], "repeat", "the same sequence on a copy")
    c.sample = {"dim": dim, "kernels": n, "options": o, "points": len(first[0][0])}
