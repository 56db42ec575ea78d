"""C03: Wisard predicts the class selected by the bleaching rule."""
import json

from wv import gen, model, sim

ID = "C03"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 5000, 150000
RULE = ("Wisard models are driven into designed vote matrices (by learning repeated examples, or by loading counters) with ties at many thresholds, "
        "near ties, permuted votes, huge counters, 1..300 classes, RAM counts that differ per class, all confidence values; every prediction is compared "
        "with an executable bleaching rule. Non-trivial: some prediction needed a threshold above 1 or a tie-break; distinct by request trace")
MIN = {"ladders": 3, "big_batches": 2, "predictions": 20000, "threshold_above_1": 3000, "ties": 1500, "single_class": 100, "no_class": 20, "confidence_above_1": 800, "many_classes": 30, "many_rams": 20}
ASSUMPTIONS = ["the counters put into the JSON of a model are the votes of its RAMs (C01, C08)"]


def classify(c, t, m, xs, ds=False):
    if ds:
        t.do("ds.new", "x")
        t.do("ds.addM", "x", xs, [None] * len(xs))
        got = t.do("wis.classifyDS", "w", "x")
        c.count("via_dataset", len(xs))
    else:
        got = t.do("wis.classify", "w", xs)
    got = [g["class"] if isinstance(g, dict) else g for g in got]
    want = []
    for x in xs:
        sc, win, b = m.predict(x)
        want.append(win)
        c.count("predictions")
        if b > 1:
            c.count("threshold_above_1")
        if sc and sorted(sc.values()).count(max(sc.values())) > 1:
            c.count("ties")
    c.counts["oracle_evaluations"] += len(xs)
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), 0)
        c.fail("prediction", "input %s: predicted %r, the rule gives %r (bleaching %s, confidence %d); votes %s" % (
            xs[i], got[i:i + 1], want[i], m.bl, m.conf, str(m.votes(xs[i]))[:1500]))


def loaded(c):
    """Counters written directly: RAMs over 2 positions, arbitrary votes per address."""
    t, rng = c.t, c.rng
    nr = rng.choice([1, 2, 3, 3, 4, 5, 7, 10, 20])
    nc = rng.choice([1, 2, 2, 2, 3, 3, 4, 5, 8, 20] + ([100, 300] if rng.random() < .3 else []))
    if rng.random() < .02:
        nr = rng.choice([100, 260, 300, 700, 1500, 5000])
        nc = rng.choice([2, 2, 3])
        c.count("many_rams")
    if nc >= 100:
        c.count("many_classes")
        nr = min(nr, 4)
    e = 2 * nr
    base = rng.choice([2, 2, 3, 10])
    labs = gen.labels(rng, nc, simple=nc > 30)
    vals = rng.choice([[0, 1], [0, 1, 2], [0, 1, 2, 3, 4, 5], [1, 2, 3], [0, 3, 3, 4], [10, 11, 12], [0, 1, 1000, 1001], [255, 256, 257, 0], [100000, 100001, 1],
                       [2 ** 31 - 1, 2 ** 31 - 2, 1, 0], [2 ** 31 - 1, 2 ** 31 - 1, 2 ** 30], list(range(0, 50)), [65535, 65536, 65537]])
    xs = [gen.image(rng, e, base) for _ in range(rng.randint(2, 6))]
    conf = rng.choice([1, 1, 1, 2, 3, rng.randint(1, nr), nr])
    conf = max(1, min(conf, nr))
    bl = rng.random() < .85
    iz = rng.random() < .2
    m = model.Wis(base, iz, bl, conf)
    mapping = [[2 * i, 2 * i + 1] for i in range(nr)]
    rows = []
    for l in labs:
        m.add_class(l, mapping if rng.random() < .8 else gen.free_mapping(rng, e, base, nrams=rng.choice([nr, rng.randint(1, 12)]), cap=4), e)
    style = rng.random()
    first = None
    for l in sorted(labs, key=lambda _: rng.random()):
        d = m.classes[l]
        for x in xs:
            x = model.ival(x)
            ts = d.tuples(x)
            if first is None or style < .35 or len(first) != len(ts):
                vs = [rng.choice(vals) for _ in ts]
            elif style < .7:  # permuted votes: tie at every threshold
                vs = list(first)
                rng.shuffle(vs)
            else:  # near tie
                vs = list(first)
                rng.shuffle(vs)
                i = rng.randrange(len(vs))
                vs[i] = max(0, min(2 ** 31 - 1, vs[i] + rng.choice([-1, 1, 1, -2, 2])))
            if first is None or rng.random() < .1:
                first = vs
            for r, tp, v in zip(d.rams, ts, vs):
                r[tp] = v
    js = {"version": t.do("version"), "addressSize": 2, "bleachingActivated": bl, "verbose": False, "mapping": {}, "indexes": [], "ignoreZero": iz,
          "completeAddressing": True, "base": base, "confidence": conf, "returnConfidence": False, "returnActivationDegree": False,
          "returnClassesDegrees": False, "classes": {
              l: {"entrySize": e, "mapping": d.mapping, "count": 1, "data": ".".join(model.enc_ram(r) for r in d.counters())} for l, d in m.classes.items()}}
    t.do("wis.load", "w", json.dumps(js))
    xs = xs + [gen.image(rng, e, base) for _ in range(2)]
    if conf > 1:
        c.count("confidence_above_1")
    if nc == 1:
        c.count("single_class")
    classify(c, t, m, xs)
    if base == 2 and rng.random() < .4:
        classify(c, t, m, xs, ds=True)
    return {"classes": nc, "rams": nr, "confidence": conf, "bleaching": bl}


def learned(c):
    """Real learning with repeated and similar examples, so that classes tie at low thresholds."""
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 2, 3, 5, 16, 256])
    a, e = sim.sizes(rng, base)
    labs = gen.labels(rng, rng.choice([1, 2, 2, 3, 4, 6, 10]))
    o = sim.wis_opts(rng, e, a, base, labs, report=rng.random() < .3)
    s = sim.WisSim(c, t, "w", a, e, o)
    if rng.random() < .2:
        classify(c, t, s.m, [gen.image(rng, e, base)])
        c.count("no_class")
    ps = sim.protos(rng, e, base, rng.randint(1, 3))
    pool = list(ps)
    for _ in range(rng.randint(1, 5)):
        xs, ys = [], []
        for _ in range(rng.randint(1, 10)):
            x = sim.near(rng, ps, base, rng.choice([0, .05, .2]))
            for l in (rng.sample(labs, rng.randint(1, len(labs))) if rng.random() < .5 else [rng.choice(labs)]):
                k = rng.choice([1, 1, 1, 2, 3, 8])
                xs += [x] * k
                ys += [l] * k
            pool.append(x)
        z = list(zip(xs, ys))
        rng.shuffle(z)
        s.train([x for x, _ in z], [y for _, y in z])
        q = s.probes(pool, rng.randint(2, 12))
        got = s.labels_of(t.do("wis.classify", "w", q))
        for x, g in zip(q, got):
            sc, win, b = s.m.predict(x)
            c.count("predictions")
            c.count("threshold_above_1", b > 1)
            c.count("ties", list(sc.values()).count(max(sc.values())) > 1)
            c.check(g == win, "prediction", lambda: "input %s: predicted %r, the rule gives %r; scores at %d: %s (options %s)" % (x, g, win, b, sc, o))
        c.eq(len(got), len(q), "length", "number of predictions")
    if o.get("confidence", 1) > 1:
        c.count("confidence_above_1")
    if len(s.m.classes) == 1:
        c.count("single_class")
    return {"classes": len(s.m.classes), "options": {k: v for k, v in o.items() if k not in ("mapping", "indexes")}}


def batch(c):
    """More inputs in one call than 16 bits count."""
    t, rng = c.t, c.rng
    e = rng.choice([4, 6])
    s = sim.WisSim(c, t, "w", 2, e, {"bleachingActivated": rng.random() < .8})
    xs = [gen.image(rng, e, 2) for _ in range(12)]
    s.train(xs, [rng.choice("abc") for _ in xs])
    want = {gen.key(x): s.m.predict(x)[1] for x in xs}
    q = [rng.choice(xs) for _ in range(rng.randint(66000, 75000))]
    if rng.random() < .5:
        t.do("ds.new", "x")
        t.do("ds.addM", "x", q, [None] * len(q))
        got = t.do("wis.classifyDS", "w", "x")
    else:
        got = t.do("wis.classify", "w", q)
    got = s.labels_of(got)
    c.eq(len(got), len(q), "length", "number of predictions")
    bad = [i for i in range(len(q)) if got[i] != want[gen.key(q[i])]]
    c.check(not bad, "prediction", lambda: "prediction %d of %d: got %r, expected %r" % (bad[0], len(q), got[bad[0]], want[gen.key(q[bad[0]])]))
    c.count("big_batches")
    c.nontrivial = True
    return {"inputs": len(q)}


def ladder(c):
    """Ties at thousands of thresholds in a row."""
    t, rng = c.t, c.rng
    nr = rng.choice([130, 300, 1100, 2100])
    nc = 2
    e = 2 * nr
    step = rng.choice([1, 1, 7, 1000])
    vals = [1 + step * i for i in range(nr)]
    bl, conf = True, 1
    m = model.Wis(2, False, bl, conf)
    mapping = [[2 * i, 2 * i + 1] for i in range(nr)]
    labs = sorted(gen.labels(rng, nc, simple=True))
    x = gen.image(rng, e, 2)
    for l in labs:
        m.add_class(l, mapping, e)
        rng.shuffle(vals)
        vs = list(vals)
        if l == labs[0] and rng.random() < .8:  # decided at the very end of the ladder
            vs = [v + (v in sorted(vals)[-3:]) for v in vs]
        d = m.classes[l]
        for r, tp, v in zip(d.rams, d.tuples(model.ival(x)), vs):
            r[tp] = v
    js = {"version": t.do("version"), "addressSize": 2, "bleachingActivated": bl, "verbose": False, "mapping": {}, "indexes": [], "ignoreZero": False,
          "completeAddressing": True, "base": 2, "confidence": conf, "returnConfidence": False, "returnActivationDegree": False,
          "returnClassesDegrees": False, "classes": {
              l: {"entrySize": e, "mapping": d.mapping, "count": 1, "data": ".".join(model.enc_ram(r) for r in d.counters())} for l, d in m.classes.items()}}
    t.do("wis.load", "w", json.dumps(js))
    classify(c, t, m, [x])
    c.count("ladders")
    c.nontrivial = True
    return {"rams": nr, "step": step}


def case(c):
    if c.every(809):
        c.sample = ladder(c)
        return
    if c.every(701):
        c.sample = batch(c)
        return
    c.sample = (learned if c.rng.random() < .45 else loaded)(c)
    c.nontrivial = c.counts["threshold_above_1"] + c.counts["ties"] > 0
