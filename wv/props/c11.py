"""C11: ClusWisard grows its discriminators by the score and threshold rule."""
import json

from wv import gen, model, sim

ID = "C11"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 3000, 100000
RULE = ("random sequences of supervised, unsupervised and semi-supervised training calls (clustered examples, random minScore/threshold/limit/base/ignoreZero/"
        "indexes/completeAddressing); after every call the discriminators (number, mapping, count, counters) of every cluster are compared with an executable model of the rule run "
        "on the same examples. Cases in which a score is within rounding of a limit are left (counted as borderline). Non-trivial: a step beyond the first example was decided")
MIN = {"many_rams": 10, "equal_magnitudes": 10, "states_compared": 6000, "step_matched1": 3000, "step_created": 3000, "step_fullbest": 1500, "step_matched2": 150, "ustep_matched1": 800, "ustep_created": 800,
       "ustep_fullbest": 300, "mixed_calls": 600, "limit_reached": 500, "big_calls": 3, "grown": 5, "loaded_magnitudes": 100}
ASSUMPTIONS = ["the best scoring discriminator is the most recent one of equals", "scores are single precision; comparisons within 2e-5 are not judged"]


def run(c, s, steps, labs, ps, allow=("s", "u", "m", "r"), after=None):
    """Random training calls in lockstep; returns False if left as borderline."""
    rng, t = c.rng, c.t
    kinds = set()
    pool = []
    try:
        for _ in range(steps):
            n = rng.choice([1, 2, 3, 5, 8, 15])
            noise = rng.choice([0, .02, .05, .1, .3])
            xs = [sim.near(rng, ps, s.base, noise) for _ in range(n)]
            if rng.random() < .15:
                xs = [xs[0]] * n
            pool += xs
            k = rng.choice(allow)
            if k == "r":
                t.do("clu.load", s.h, t.do("clu.json", s.h))
            elif k == "u":
                kinds.add(k)
                s.train_unsup(xs)
            elif k == "m":
                kinds.add(k)
                idx = sorted(rng.sample(range(n), rng.randint(1, n)))
                s.train_semi(xs, [[i, rng.choice(labs)] for i in idx])
            else:
                kinds.add(k)
                s.train(xs, [rng.choice(labs) for _ in range(n)])
            s.state("after %s" % {"s": "train", "u": "trainUnsupervised", "m": "semi-supervised train", "r": "reload"}[k])
            for cl in list(s.clusters.values()) + ([s.unsup] if s.unsup else []):
                c.check(len(cl.discs) <= s.limit, "limit", lambda: "%d discriminators, limit %d" % (len(cl.discs), s.limit))
                if len(cl.discs) == s.limit:
                    c.count("limit_reached")
            if after:
                after(pool)
    except model.Borderline:
        c.count("borderline")
        return False
    if len(kinds) > 1:
        c.count("mixed_calls")
    return True


def make(c, report=False):
    rng = c.rng
    base = rng.choice([2, 2, 2, 2, 3, 10, 256])
    a = rng.randint(2, 5)
    e = a * rng.randint(1, 8) + rng.choice([0, 0, rng.randrange(a)])
    if rng.random() < .1:
        a = gen.addr_size(rng, base)
        e = a * rng.randint(1, 3)
    elif c.every(71):  # many RAMs
        e = a * rng.choice([65, 66, 130, 257, 600])
        c.count("many_rams")
    ms, th, lim = sim.clu_params(rng)
    o = sim.clu_opts(rng, e, a, base, report)
    return sim.CluSim(c, c.t, "w", a, e, ms, th, lim, o)


def big(c, kinds=("s", "u")):
    """One call with more examples than 16 bits count, so that counters and counts pass 2^15 and 2^16 too."""
    rng = c.rng
    a = rng.choice([2, 3])
    e = a * rng.choice([2, 3, 4])
    ms, th, lim = rng.choice([0, .13, .37, .61, 1.0]), rng.choice([1, 10, 1000, 200000, 10 ** 6]), rng.choice([1, 1, 1, 2, 3])
    s = sim.CluSim(c, c.t, "w", a, e, ms, th, lim, {"ignoreZero": rng.random() < .2})
    labs = ["a", "b"][:rng.choice([1, 1, 2])]
    ps = [gen.image(rng, e, 2) for _ in range(4)]
    n = rng.randint(66000, 75000)
    ws = rng.choice([[1, 0, 0, 0], [9, 1, 1, 0], [1, 1, 1, 1]])
    xs = rng.choices(ps, ws, k=n - 100) + rng.choices(ps, k=100)
    k = rng.choice(kinds)
    try:
        if k == "m":
            s.train_semi(xs, [[i, rng.choice(labs)] for i in [0, n - 1] + rng.sample(range(n), rng.choice([1, n // 2]))])
        elif k == "u":
            s.train_unsup(xs)
        else:
            s.train(xs, [rng.choice(labs) for _ in range(n)])
        s.state("after a call with %d examples" % n)
        c.count("big_calls")
        few = [rng.choice(ps) for _ in range(20)] + [gen.image(rng, e, 2) for _ in range(10)]
        (s.train_unsup(few) if k == "u" else s.train(few, [rng.choice(labs) for _ in few]))
        s.state("after 30 more examples")
        s.classify(ps)
    except model.Borderline:
        c.count("borderline")
    c.nontrivial = True
    c.sample = {"minScore": ms, "threshold": th, "limit": lim, "examples": n, "call": k}


def grown(c, then=None, after=None, kinds=("s", "u", "su"), min_limit=0):
    """Clusters of hundreds of discriminators."""
    rng, t = c.rng, c.t
    e = 16
    lim = max(min_limit, rng.choice([40, 100, 130, 260, 300, 1000, 2 ** 31 - 1]))
    n = rng.choice([150, 300, 400])
    s = sim.CluSim(c, t, "w", 2, e, 1.0, rng.choice([1, 5, 1000]), lim, sim.clu_opts(rng, e, 2, 2, True))
    labs = gen.labels(rng, 2, files=True)
    xs = [gen.image(rng, e, 2) for _ in range(n)]
    most = lambda: max([len(v.discs) for v in s.clusters.values()] + [len(s.unsup.discs) if s.unsup else 0])
    try:
        k = rng.choice(kinds)
        for i in range(0, n, 50):
            if "u" in k:
                s.train_unsup(xs[i:i + 50])
            if "s" in k:
                s.train(xs[i:i + 50], [labs[0] if rng.random() < .97 else labs[1] for _ in xs[i:i + 50]])
            s.state("a cluster of %d discriminators" % most())
        again = rng.sample(xs, 10) + [gen.image(rng, e, 2) for _ in range(5)]
        if then:
            s = then(s)
        (s.train_unsup(again) if "u" in k else s.train(again, [labs[0]] * len(again)))
        s.state("a cluster of %d discriminators, 15 more examples" % most())
        s.classify(again[:4])
        s.classify_unsup(again[:4])
        if rng.random() < .5 or then:
            s.mental()
        if after:
            after(s, again)
        c.count("grown", most() > 35)
    except model.Borderline:
        c.count("borderline")
    c.nontrivial = True
    c.sample = {"limit": lim, "examples": n, "discriminators": most()}


def loaded(c):
    """Continues a loaded model whose counters have any magnitude."""
    rng, t = c.rng, c.t
    a, e = 2, 2 * rng.choice([2, 3, 4, 5, 5, 33, 130])
    ms = rng.choice([0, .1, .25, .4, .5, .6, .8, 1.0])
    th, lim = rng.choice([1, 10, 1000, 10 ** 6, 2 ** 30]), rng.choice([2, 3, 3, 5, 8])
    o = {"ignoreZero": rng.random() < .2}
    s = sim.CluSim(c, t, "w", a, e, ms, th, lim, o)
    ps = [gen.image(rng, e, 2) for _ in range(rng.choice([2, 4]))]
    mag = rng.choice([40, 300, 40000, 70000, 10 ** 6, 2 ** 24, 10 ** 9])

    def some():
        out = []
        for _ in range(rng.randint(1, min(lim, 4))):
            mp = gen.shuffled_mapping(rng, e, a)
            d = model.Disc(mp, e, 2, o["ignoreZero"])
            for r, m in zip(d.rams, mp):
                for b in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    if rng.random() < .8:
                        r[b] = rng.choice([mag, mag - rng.randint(0, mag // 3), rng.randint(1, mag), rng.randint(1, 9)])
            d.count = rng.choice([1, 5, mag, mag // 2])
            if rng.random() < .4:  # the image has the same big count at every RAM
                p, v = rng.choice(ps), rng.choice([mag, mag + 1, mag + 3, mag - 1, rng.randint(mag, mag + 9999)])
                for r, m in zip(d.rams, mp):
                    b = tuple(int(p[q]) for q in m)
                    if any(b) or not o["ignoreZero"]:
                        r[b] = v
                d.count = rng.choice([d.count, v])
                c.count("equal_magnitudes", v * len(mp) > 1 << 24)
            out.append(d)
        return out

    def js(ds):
        return {"entrySize": e, "discriminators": [{"entrySize": e, "mapping": d.mapping, "count": d.count, "data": ".".join(model.enc_ram(r) for r in d.counters())} for d in ds]}
    j = json.loads(t.do("clu.jsonConfig", "w"))
    labs = ["a", "b"][:rng.choice([1, 2])]
    cl = {l: some() for l in labs}
    j["clusters"] = {l: js(v) for l, v in cl.items()}
    if rng.random() < .5:
        u = some()
        j["unsupervisedCluster"] = js(u)
        s.unsup = s.clus([d.mapping for d in u])
        s.unsup.discs = u
    t.do("clu.load", "w", json.dumps(j))
    for l, v in cl.items():
        s.clusters[l] = s.clus([d.mapping for d in v])
        s.clusters[l].discs = v
    s.state("loaded state")
    if run(c, s, rng.randint(1, 3), labs, ps, rng.choice([("s",), ("s", "u", "m")])):
        c.count("loaded_magnitudes", mag > 30000)
    c.nontrivial = True
    c.sample = {"minScore": ms, "threshold": th, "limit": lim, "magnitude": mag}


def case(c):
    rng = c.rng
    if rng.random() < .2:
        return loaded(c)
    if c.every(251):
        return big(c)
    if c.every(127):
        return grown(c)
    s = make(c)
    labs = gen.labels(rng, gen.nclasses(rng, [1, 1, 2, 3, 5]))
    ps = sim.protos(rng, s.e, s.base, rng.choice([1, 1, 2, 3, 5]))
    allow = rng.choice([("s",), ("u",), ("s", "u"), ("s", "u", "m"), ("s", "s", "u", "u", "m", "r")])
    if allow == ("u",):
        labs = ["x"]
    run(c, s, rng.randint(2, 8), labs, ps, allow)
    c.nontrivial = c.counts["states_compared"] > 0
    c.sample = {"minScore": s.ms, "threshold": s.th, "limit": s.limit, "base": s.base, "calls": allow, "clusters": {l: len(v.discs) for l, v in s.clusters.items()},
                "unsupervised": len(s.unsup.discs) if s.unsup else 0}
