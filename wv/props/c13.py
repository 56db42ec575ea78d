"""C13: ClusWisard predictions follow from its discriminators and keep class names."""
import json

from wv import gen, model, sim
from wv.props.c04 import from_state
from wv.props.c11 import grown

ID = "C13"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 3500, 100000
RULE = ("ClusWisard models, learned or loaded with designed counters (ties at many thresholds, up to 25 discriminators per cluster), with hostile label texts (containing ::, digits, empty, "
        "unicode); classify and classifyUnsupervised are compared with the executable bleaching rule over the decoded discriminators, getMentalImage(s) with the known "
        "labels. Non-trivial: predictions with at least two discriminators compared; distinct by request trace")
MIN = {"grown": 3, "many_classes": 1, "big_batches": 2, "predictions": 20000, "unsup_predictions": 8000, "threshold_above_1": 3000, "ties": 3000, "labels_with_colons": 1500, "ten_or_more": 500, "images_keys": 3000, "untrained": 100}
ASSUMPTIONS = ["the candidates of equal score are ordered by label and discriminator number as text, as the candidates of classesDegrees are",
               "classifyUnsupervised uses confidence 1"]


def compare(c, h, o, xs):
    t, rng = c.t, c.rng
    st = model.clu_state(t.do("clu.json", h))
    base, iz = o.get("base", 2), o.get("ignoreZero", False)
    ds = {l: [from_state(d, base, iz) for d in v] for l, v in st["clusters"].items()}
    us = [from_state(d, base, iz) for d in st["unsup"]]
    bl, conf = o.get("bleachingActivated", True), o.get("confidence", 1)
    got = [r["class"] if isinstance(r, dict) else r for r in t.do("clu.classify", h, xs)]
    c.eq(len(got), len(xs), "length", "number of predictions")
    for x, g in zip(xs, got):
        sc, win, lab = model.clu_predict(ds, x, bl, conf)
        b = model.bleach(model.clu_votes(ds, x), bl, conf)[2]
        c.count("predictions")
        c.count("threshold_above_1", b > 1)
        if sc and list(sc.values()).count(max(sc.values())) > 1:
            c.count("ties")
        c.count("labels_with_colons", "::" in lab)
        c.count("ten_or_more", any(len(v) > 9 for v in ds.values()))
        c.check(g == lab, "prediction", lambda: "input %s: predicted %r, the rule gives %r (winner %r of %s, bleaching %s, confidence %s)" % (x, g, lab, win, str(sc)[:900], bl, conf))
    got = t.do("clu.classifyU", h, xs)
    c.eq(len(got), len(xs), "length", "number of unsupervised predictions")
    for x, g in zip(xs, got):
        sc, win, b = model.bleach({str(i): d.votes(x) for i, d in enumerate(us)}, bl, 1)
        c.count("unsup_predictions")
        c.count("threshold_above_1", b > 1)
        c.check(g == win, "unsup-prediction", lambda: "input %s: unsupervised prediction %r, the rule gives %r; scores %s" % (x, g, win, sc))
    ms = t.do("clu.mentals", h)
    c.eq(sorted(ms), sorted(ds), "image-labels", "labels of the mental images")
    for l, v in ms.items():
        c.count("images_keys")
        c.eq([len(i) for i in v], [d["entry"] for d in st["clusters"][l]], "images", "number and sizes of the mental images of %r" % l)
    some = rng.choice(list(ds) or [""])
    for l in list(ds)[:3] + ["no such label", some[:-1], some[:1], some + rng.choice(["0", ":", " "]), "", some.lower(), some.upper()]:
        if l in ds or l not in ms:
            c.eq(t.do("clu.mental", h, l), ms.get(l, []), "image", "getMentalImage(%r)" % l)
    c.eq(model.clu_state(t.do("clu.json", h)), st, "changed", "state after classification and mental images")


def labels(rng, n):
    if rng.random() < .5:
        out = []
        while len(out) < n:
            l = "".join(rng.choice(["a", "b", ":", "::", "0", "1", "9", " "]) for _ in range(rng.randint(0, 4)))
            if l not in out:
                out.append(l)
        return out
    return gen.labels(rng, n)


def learned(c):
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 2, 3, 10])
    a, e = sim.sizes(rng, base)
    ms, th, lim = sim.clu_params(rng)
    o = sim.clu_opts(rng, e, a, base, report=rng.random() < .2)
    t.do("clu.new", "w", a, ms, th, lim, o)
    labs = labels(rng, gen.nclasses(rng, [1, 2, 3, 4]))
    ps = sim.protos(rng, e, base, rng.randint(1, 4))
    pool = list(ps)
    if rng.random() < .15:
        c.count("untrained")
        compare(c, "w", o, pool)
    for _ in range(rng.randint(1, 5)):
        n = rng.randint(1, 10)
        xs = [sim.near(rng, ps, base, rng.choice([0, .1, .3])) for _ in range(n)]
        pool += xs
        r = rng.random()
        if r < .5:
            t.do("clu.train", "w", xs, [rng.choice(labs) for _ in range(n)])
        elif r < .8:
            t.do("clu.trainU", "w", xs)
        else:
            t.do("clu.trainSemi", "w", xs, [[rng.randrange(n), rng.choice(labs)]])
        compare(c, "w", o, sim.probes(rng, pool, e, base, rng.randint(1, 6)))
    return {"kind": "learned", "labels": labs, "limit": lim}


def loaded(c):
    t, rng = c.t, c.rng
    nr = rng.choice([1, 2, 3, 4, 6, 1, 2, 3, 4, 6, 15, 40]) if rng.random() > .01 else 300
    e = 2 * nr
    base = rng.choice([2, 2, 3])
    o = {"base": base, "ignoreZero": rng.random() < .2, "bleachingActivated": rng.random() < .85, "confidence": rng.choice([1, 1, 2, nr, rng.randint(1, nr)])}
    o["confidence"] = min(o["confidence"], nr)
    labs = labels(rng, rng.choice([0, 1, 2, 3, 5]))
    if c.every(499 - 2):
        nr = min(nr, 6)
        e, o["confidence"] = 2 * nr, 1
        labs = gen.labels(rng, rng.choice([70, 130, 300]), simple=True)
        c.count("many_classes")
    vals = rng.choice([[0, 1], [0, 1, 2, 3], [1, 1, 2], [10, 11, 12], [0, 70000, 70001], [10 ** 8, 10 ** 8 - 1, 5]])
    xs = [gen.image(rng, e, base) for _ in range(rng.randint(2, 5))]
    mapping = [[2 * i, 2 * i + 1] for i in range(nr)]
    first = [rng.choice(vals) for _ in range(nr)]

    def mk():
        d = model.Disc(mapping, e, base)
        for x in xs:
            vs = list(first)
            rng.shuffle(vs)
            if rng.random() < .4:
                vs[rng.randrange(nr)] = rng.choice(vals)
            for r, tp, v in zip(d.rams, d.tuples(model.ival(x)), vs):
                r[tp] = v
        return {"entrySize": e, "mapping": mapping, "count": 1, "data": ".".join(model.enc_ram(r) for r in d.counters())}

    def cluster():
        return {"entrySize": e, "discriminators": [mk() for _ in range(rng.choice([1, 1, 2, 3, 5, 11, 12, 25]))]}
    js = {"version": t.do("version"), "addressSize": 2, "minScore": 0.5, "threshold": 10, "discriminatorsLimit": 30, "bleachingActivated": o["bleachingActivated"],
          "verbose": False, "indexes": [], "ignoreZero": o["ignoreZero"], "completeAddressing": True, "base": base, "confidence": o["confidence"], "returnConfidence": False,
          "returnActivationDegree": False, "returnClassesDegrees": False}
    if labs:
        js["clusters"] = {l: cluster() for l in labs}
    else:
        c.count("untrained")
    if rng.random() < .7:
        js["unsupervisedCluster"] = cluster()
    t.do("clu.load", "w", json.dumps(js))
    compare(c, "w", o, xs + [gen.image(rng, e, base)])
    return {"kind": "loaded", "labels": labs, "confidence": o["confidence"]}


def batch(c):
    """More inputs in one call than 16 bits count."""
    t, rng = c.t, c.rng
    t.do("clu.new", "w", 2, .3, 2, 3, {})
    xs = [gen.image(rng, 4, 2) for _ in range(12)]
    t.do("clu.train", "w", xs, [rng.choice("abc") for _ in xs])
    t.do("clu.trainU", "w", xs)
    q = [rng.choice(xs) for _ in range(rng.randint(66000, 75000))]
    for op in ("clu.classify", "clu.classifyU"):
        want = dict(zip(map(gen.key, xs), t.do(op, "w", xs)))
        got = t.do(op, "w", q)
        c.eq(len(got), len(q), "length", "number of predictions")
        bad = [i for i in range(len(q)) if got[i] != want[gen.key(q[i])]]
        c.check(not bad, "prediction", lambda: "%s: prediction %d of %d: got %r, alone %r" % (op, bad[0], len(q), got[bad[0]], want[gen.key(q[bad[0]])]))
    c.count("big_batches")
    c.count("predictions", 12)
    return {"inputs": len(q)}


def case(c):
    if c.every(499):
        def near(s, xs):
            labs = sorted(s.clusters, key=lambda l: len(s.clusters[l].discs))
            xs = xs[:10]
            if len(labs) > 1:
                s.train([gen.mutate(c.rng, x, 2) for x in xs], labs[:1] * len(xs))
            compare(c, s.h, s.o, xs)
        return grown(c, after=near, kinds=("su",), min_limit=260)
    if c.every(701):
        c.sample = batch(c)
        c.nontrivial = True
        return
    c.sample = (learned if c.rng.random() < .5 else loaded)(c)
    c.nontrivial = c.counts["predictions"] > 0
