"""C28: random mappings and kernels are fair draws."""
import json
import math

import numpy as np

from wv import gen, model

ID = "C28"
KINDS = ["gen", "gen", "py"]
QUICK, THOROUGH = 800, 10000
TIMEOUT = 120
RULE = ("each case creates many models of one random shape (Discriminators, Wisard classes, ClusWisard discriminators of the supervised and unsupervised clusters, models reloaded from a configuration) at different virtual times and random states "
        "and counts, over all of them, which position each RAM slot reads, which positions fill up the last RAM, which pairs of positions neighbouring slots read, and how often the mappings of two classes agree; and many canvases, counting the values of the kernels. "
        "Large entries are counted in eighths. Every count is compared with its binomial expectation. Non-trivial: at least 200 draws; distinct by requests")
MIN = {"large_mappings": 4000, "large_cells_tested": 3000, "mappings": 60000, "cells_tested": 15000, "pair_cells_tested": 10000, "padding_cells_tested": 500, "class_pairs": 20000, "kernel_values": 60000, "kernel_cells_tested": 400}
ASSUMPTIONS = ["a count is unfair if it lies more than 8 standard deviations (plus 6) from its expectation: about 1e-15 for a fair draw",
               "kernels are observed through a derived class (C++ only)"]


def unfair(n, N, p):
    return abs(n - N * p) > 8 * math.sqrt(N * p * (1 - p)) + 6


def draws(c, e, a, complete, N=None):
    """Mappings of untouched randomness by every route; -> lists of mappings, one list per model."""
    t, rng = c.t, c.rng
    N = N or (700 if t.is_cxx else 300)
    how = rng.choice(["disc", "wis", "wis", "clu", "cluU", "config"])
    qs, per = [], 1
    o = {"completeAddressing": complete} if not complete or rng.random() < .5 else {}
    rest = {}
    if rng.random() < .3:
        rest["base"] = rng.choice([b for b in (3, 10, 2) if gen.max_addr(b) >= a])
    if rng.random() < .3:
        rest["ignoreZero"] = True
    o.update(rest)
    L = rng.choice([2, 3, 5]) if how in ("wis", "clu", "config") else 1
    labs = ["c%d" % i for i in range(L)]
    t0 = rng.randrange(1, 2 ** 31)
    step = rng.choice([1, 1, 1, 60, 3600, 86400])
    for i in range(N):
        qs.append(["clock", t0 + i * step])
        if rng.random() < .2:
            qs.append(["crand", rng.randrange(1 << 31), rng.randrange(5)])
        if how == "disc":
            if t.is_cxx and rng.random() < .5:
                qs.append(["disc.newPlain", "d", a, e, False, complete, 2])
            else:
                qs.append(["disc.new", "d", a, e, o])
            qs.append(["disc.jsonConfig", "d"])
        elif how in ("wis", "config"):
            qs.append(["wis.new", "w", a, o])
            if how == "config" and i == 0:
                cfg = t.batch(qs + [["wis.jsonConfig", "w"]])[-1]
                qs = [["clock", t0]]
            if how == "config":
                qs[-1:] = [["clock", t0 + i * step], ["wis.load", "w", cfg]]
            xs = [gen.pack([rng.randrange(2) for _ in range(e)], 2) for _ in labs]
            qs += [["wis.train", "w", xs, labs], ["wis.jsonConfig", "w"]]
        else:
            # limit 4, threshold 1, score 1: every new image makes a discriminator
            qs.append(["clu.new", "w", a, 1.0, 1, 4, o])
            xs = ["0" * e, "1" * e, "01" * (e // 2) + "0" * (e % 2)]
            if how == "clu":
                qs += [["clu.train", "w", [x for x in xs for _ in labs], labs * len(xs)], ["clu.json", "w"]]
            else:
                qs += [["clu.trainU", "w", xs], ["clu.json", "w"]]
    out = []
    for q, r in zip(qs, t.batch(qs)):
        if isinstance(r, Exception):
            raise r
        if q[0] == "disc.jsonConfig":
            out.append([json.loads(r)["mapping"]])
        elif q[0] == "wis.jsonConfig":
            out.append([d["mapping"] for _, d in sorted(json.loads(r)["classes"].items())])
        elif q[0] == "clu.json":
            j = json.loads(r)
            cl = [x for _, x in sorted(j["clusters"].items())] if how == "clu" else [j["unsupervisedCluster"]]
            out.append([d["mapping"] for x in cl for d in x["discriminators"] or []])
    return how, out


def mappings(c):
    rng = c.rng
    a = rng.choice([2, 2, 3, 4])
    e = rng.randint(max(a, 4), 14)
    complete = rng.random() < .7
    how, models = draws(c, e, a, complete)
    flat = [m for ms in models for m in ms]
    N = len(flat)
    c.count("mappings", N)
    n = e // a + (1 if complete and e % a else 0)
    for m in flat:
        if len(m) != n or any(len(r) != a for r in m):
            c.fail("shape", "a mapping of entry %d, address %d, completeAddressing %s is %s" % (e, a, complete, m))
    A = np.array(flat).reshape(N, n * a)
    if A.min() < 0 or A.max() >= e:
        c.fail("range", "a mapping reads position %d of %d" % (A.min() if A.min() < 0 else A.max(), e))
    what = "%s of %d, address %d, completeAddressing %s, %d mappings" % (how, e, a, complete, N)
    for s in range(n * a):
        cnt = np.bincount(A[:, s], minlength=e)
        for p in range(e):
            c.count("cells_tested")
            c.check(not unfair(cnt[p], N, 1 / e), "slot", lambda: "slot %d reads position %d in %d mappings, expected about %.0f (%s)" % (s, p, cnt[p], N / e, what))
    # neighbouring slots: a pair of different positions occurs as often as any other
    rep = n * a - e if complete else 0
    for s, u in ((0, 1), (n * a - 2, n * a - 1), (0, n * a - 1)):
        if s == u:
            continue
        pairs = np.bincount(A[:, s] * e + A[:, u], minlength=e * e).reshape(e, e)
        if rep <= 0:
            P = 1 / (e * (e - 1))
            for i in range(e):
                for j in range(e):
                    c.count("pair_cells_tested")
                    c.check(not unfair(pairs[i, j], N, P) if i != j else pairs[i, i] == 0, "pair", lambda: "slots %d and %d read %d and %d in %d mappings, expected about %.1f (%s)" % (s, u, i, j, pairs[i, j], N * P, what))
    if rep > 0:
        extra = np.array([np.bincount(r, minlength=e) for r in A]) - 1
        if extra.min() < 0:
            c.fail("unread", "a mapping does not read a position (%s)" % what)
        tot = extra.sum(0)
        for p in range(e):
            c.count("padding_cells_tested")
            # rep independent draws per mapping
            c.check(not unfair(tot[p], N * rep, 1 / e), "padding", lambda: "position %d was used %d times to fill up the last RAM, expected about %.0f (%s)" % (p, tot[p], N * rep / e, what))
    # two classes of one model
    same, pairs_n, slot = 0, 0, 0
    for ms in models:
        for i in range(len(ms)):
            for j in range(i):
                pairs_n += 1
                same += ms[i] == ms[j]
                slot += sum(x == y for r, q in zip(ms[i], ms[j]) for x, y in zip(r, q))
    if pairs_n:
        c.count("class_pairs", pairs_n)
        P = 1 / math.factorial(e) if n * a <= e else 1 / math.factorial(e)
        c.check(same <= pairs_n * P * math.factorial(max(0, e - n * a)) + 8 * math.sqrt(pairs_n * P * math.factorial(max(0, e - n * a))) + 6, "classes", lambda: "%d of %d pairs of classes of one model have the same mapping (%s)" % (same, pairs_n, what))
        # slots of one pair are not independent of each other; the mean is 1 per e slots
        c.check(abs(slot / (pairs_n * n * a) - 1 / e) < 10 / math.sqrt(pairs_n * n * a) + .02, "classes", lambda: "slots of two classes agree in %.3f of the cases, expected %.3f (%s)" % (slot / (pairs_n * n * a), 1 / e, what))
    distinct = len({tuple(r) for r in A.tolist()})
    if e >= 10:
        c.check(distinct > .9 * N, "repeated", lambda: "only %d of %d mappings are different (%s)" % (distinct, N, what))
    c.nontrivial = N >= 200
    c.sample = {"kind": how, "entry": e, "address": a, "complete": complete, "mappings": N, "distinct": distinct}


def large(c):
    """Entries too big to count every position: positions and slots are counted in 8 equal parts."""
    rng = c.rng
    a = rng.choice([2, 4, 8, 16, 32])
    e = a * rng.randint(max(2, 64 // a), max(3, 1000 // a)) + rng.choice([0, 0, rng.randrange(a)])
    complete = rng.random() < .6
    how, models = draws(c, e, a, complete, 60 if e < 500 else 20)
    flat = [m for ms in models for m in ms]
    N = len(flat)
    c.count("large_mappings", N)
    n = e // a + (1 if complete and e % a else 0)
    if any(len(m) != n or any(len(r) != a for r in m) for m in flat):
        c.fail("shape", "a mapping of entry %d, address %d, completeAddressing %s has another shape" % (e, a, complete))
    A = np.array(flat).reshape(N, n * a)
    what = "%s of %d, address %d, completeAddressing %s, %d mappings" % (how, e, a, complete, N)
    S = (np.arange(n * a) * 8) // (n * a)
    P = (A * 8) // e
    size = np.bincount((np.arange(e) * 8) // e, minlength=8) / e
    for s in range(8):
        part = P[:, S == s]
        cnt = np.bincount(part.ravel(), minlength=8)
        for b in range(8):
            c.count("large_cells_tested")
            c.check(not unfair(cnt[b], part.size, size[b]), "slot", lambda: "eighth %d of the slots reads eighth %d of the positions %d times, expected about %.0f (%s)" % (s, b, cnt[b], part.size * size[b], what))
    # distance of neighbours: as often near as for a fair draw
    d = np.abs(np.diff(A, axis=1))
    for k in (1, 2, 8):
        p = sum(2 * (e - x) for x in range(1, k + 1)) / (e * (e - 1))
        x = int(((d <= k) & (d > 0)).sum())
        c.check(not unfair(x, d.size, min(.5, p)) or x < d.size * p, "neighbours", lambda: "%d of %d neighbouring slots read positions at most %d apart, expected about %.0f (%s)" % (x, d.size, k, d.size * p, what))
    distinct = len({tuple(r) for r in A.tolist()})
    # models are seeded with one of 100001 values: a few of the mappings may well be the same
    c.check(distinct > .9 * N, "repeated", lambda: "only %d of %d mappings are different (%s)" % (distinct, N, what))
    agree, tests = 0, 0
    for ms in models:
        for i in range(1, len(ms)):
            agree += int((np.array(ms[i]).ravel() == np.array(ms[i - 1]).ravel()).sum())
            tests += n * a
    if tests:
        c.check(not unfair(agree, tests, 1 / e) or agree < tests / e, "classes", lambda: "%d of %d slots of two classes agree, expected about %.0f (%s)" % (agree, tests, tests / e, what))
    c.nontrivial = N >= 20
    c.sample = {"kind": how, "entry": e, "address": a, "complete": complete, "mappings": N}


def kernels(c):
    t, rng = c.t, c.rng
    dim = rng.choice([1, 2, 3, 5, rng.randint(6, 24)])
    n = rng.choice([1, 2, 10, 50, 300, 1000, 3000])
    M = max(20 if n < 100 else 4, 600 // n) if dim < 6 or n < 100 else 2 + 600 // n
    t0, step = rng.randrange(1, 2 ** 31), rng.choice([1, 1, 60, 3600])
    o = rng.choice([{}, {"bitsByKernel": 2}, {"activationDegree": .5}])
    qs = []
    for i in range(M):
        qs += [["clock", t0 + i * step], ["kc.new", "k", dim, n, o], ["kc.kernels", "k"]]
        if rng.random() < .2:
            qs.insert(-2, ["crand", rng.randrange(1 << 31), 2])
    ks = [np.array(r, float) for q, r in zip(qs, t.batch(qs)) if q[0] == "kc.kernels"]
    K = np.concatenate(ks)  # (M*n, dim)
    N = len(K)
    what = "%d canvases of %d kernels of %d dimensions, %s" % (M, n, dim, o)
    c.count("kernel_values", K.size)
    if list(K.shape) != [M * n, dim] or not (abs(K) <= 1).all():
        c.fail("kernels", "kernels of the wrong shape or outside [-1,1] (%s)" % what)
    B = 5
    if n >= 100:  # late kernels like early ones
        for d in range(dim):
            for part in (K.reshape(M, n, dim)[:, :n // 4, d], K.reshape(M, n, dim)[:, 3 * n // 4:, d]):
                cnt = np.histogram(part, bins=B, range=(-1, 1))[0]
                for b in range(B):
                    c.count("kernel_cells_tested")
                    c.check(not unfair(cnt[b], part.size, 1 / B), "kernels", lambda: "dimension %d has %d of %d values in bin %d of %d in a quarter of the kernels (%s)" % (d, cnt[b], part.size, b, B, what))
    for d in range(dim):
        cnt = np.histogram(K[:, d], bins=B, range=(-1, 1))[0]
        for b in range(B):
            c.count("kernel_cells_tested")
            c.check(not unfair(cnt[b], N, 1 / B), "kernels", lambda: "dimension %d has %d of %d values in bin %d of %d (%s)" % (d, cnt[b], N, b, B, what))
        if len(np.unique(K[:, d])) < .95 * N:
            c.fail("kernels", "only %d of %d values of dimension %d are different (%s)" % (len(np.unique(K[:, d])), N, d, what))
        for f in range(d):
            r = float(np.mean(K[:, d] * K[:, f]) / (1 / 3))
            c.check(abs(r) < 9 / math.sqrt(N), "kernels", lambda: "dimensions %d and %d are correlated: %.3f over %d kernels (%s)" % (d, f, r, N, what))
    # kernels of one canvas are independent of each other: neighbours, next but one, halves, ends
    for lag in sorted({1, 2, 3, 8, 10, n // 2, n - 1}):
        if not 0 < lag < n:
            continue
        A = K.reshape(M, n, dim)
        X, Y = A[:, lag:, :], A[:, :-lag, :]
        for d in range(dim):
            for f in {d, rng.randrange(dim)}:
                c.count("kernel_lags_tested")
                r = float(np.mean(X[:, :, d] * Y[:, :, f]) / (1 / 3))
                m = X.shape[0] * X.shape[1]
                c.check(abs(r) < 9 / math.sqrt(m) + .02, "kernels", lambda: "dimension %d of a kernel and %d of the %d-th kernel before it are correlated: %.3f over %d pairs (%s)" % (d, f, lag, r, m, what))
    c.nontrivial = N >= 200
    c.sample = {"kind": "canvas", "dim": dim, "kernels": n, "canvases": M}


def case(c):
    probe = c.t.is_cxx and "probe" in c.t.do("caps")
    c.count("no_probe", c.t.is_cxx and not probe)
    if probe and c.rng.random() < .25:
        kernels(c)
    elif c.rng.random() < .25:
        large(c)
    else:
        mappings(c)
