"""C04: reported degrees are exact and the reporting options change nothing else."""
import json
import os

from wv import gen, model, sim
from wv.props.c21 import CLS, Prog

ID = "C04"
KINDS = ["py", "py", "py", "gen"]
QUICK, THOROUGH = 3500, 100000
RULE = ("Wisard and ClusWisard models (learned or with loaded counters, also untrained) are classified under all combinations of the reporting options "
        "and verbose, as lists and as DataSets; fields and values of each entry are compared with exact fractions from the model, the class with the plain "
        "prediction, the state before with the state after, and the growth of stdout and stderr with zero unless verbose (also over random programs of the whole API). Non-trivial: degrees were compared (py) or "
        "option twins were compared (C++)")
MIN = {"big_batches": 2, "entries": 20000, "degrees_compared": 8000, "zero_scores": 200, "untrained": 40, "quiet_checked": 1000, "clu_entries": 3000, "all_options": 300, "silent_programs": 100, "far_runner_up": 8, "many_candidates": 60}
ASSUMPTIONS = ["degrees are single precision: compared with tolerance 2e-6"]


def close(a, b):
    return isinstance(a, (int, float)) and abs(a - b) <= 2e-6


def check_entry(c, x, r, o, sc, win, nrams, lab, names, what):
    c.count("entries")
    want = {k for k, f in (("activationDegree", "returnActivationDegree"), ("confidence", "returnConfidence"), ("classesDegrees", "returnClassesDegrees")) if o.get(f)}
    if not want:
        c.eq(r, lab, "plain", "%s entry without reporting options" % what)
        return
    if len(want) == 3:
        c.count("all_options")
    if not isinstance(r, dict) or set(r) != want | {"class"}:
        c.fail("fields", "%s entry %r does not have exactly the fields %s" % (what, r, sorted(want | {"class"})))
    c.eq(r["class"], lab, "class", what + " class")
    d = model.degrees(sc, win, nrams)
    if not sc or sc[win] == 0:
        c.count("zero_scores")
    for k in ("activationDegree", "confidence"):
        if k in want:
            c.count("degrees_compared")
            c.check(close(r[k], d[k]) and 0 <= r[k] <= 1, k, lambda: "%s of %s: %r, expected %r; scores %s, winner %r with %s RAMs" % (k, x, r[k], d[k], str(sc)[:800], win, nrams))
    if "classesDegrees" in want:
        c.count("degrees_compared", len(names))
        g = r["classesDegrees"]
        c.eq([sorted(q) for q in g], [["class", "degree"]] * len(g), "candidates", "fields of classesDegrees")
        c.eq([q["class"] for q in g], names, "candidates", "classes of classesDegrees, in label order")
        w = [v for _, v in d["classesDegrees"]]
        c.check(all(close(q["degree"], v) for q, v in zip(g, w)), "degree", lambda: "classesDegrees %r, expected %r" % (g, w))


def quiet(c, t, verbose, f):
    o0 = t.do("out")
    r = f()
    o1 = t.do("out")
    if not verbose:
        c.count("quiet_checked")
        c.eq(o1 - o0, 0, "printed", "bytes printed without verbose")
    return r


def options(rng):
    o = {k: rng.random() < .6 for k in sim.REPORT}
    if rng.random() < .2:
        o = {k: True for k in sim.REPORT}
    if rng.random() < .3:
        o["verbose"] = rng.random() < .7
    return o


def with_options(text, o):
    j = json.loads(text)
    for k in sim.REPORT:
        j[k] = o.get(k, False)
    j["verbose"] = o.get("verbose", False)
    return json.dumps(j)


def wis(c):
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 2, 3, 10, 300])
    a, e = sim.sizes(rng, base)
    labs = gen.labels(rng, rng.choice([1, 2, 3, 4, 7, 12]))
    o = sim.wis_opts(rng, e, a, base, labs)
    ro = options(rng)
    verbose = ro.get("verbose", False)
    full = dict(o, **ro)
    s = sim.WisSim(c, t, "w", a, e, full)
    ps = sim.protos(rng, e, base, rng.randint(1, 3))
    pool = list(ps)

    def look(h, oo):
        xs = s.probes(pool, rng.randint(1, 8)) + [gen.pack([0] * e, base)]
        before = model.wis_state(t.do("wis.json", h))
        if base == 2 and rng.random() < .3:
            t.do("ds.new", "x")
            t.do("ds.addM", "x", xs, [rng.choice([None] + labs) for _ in xs])
            got = quiet(c, t, oo.get("verbose"), lambda: t.do("wis.classifyDS", h, "x"))
        else:
            got = quiet(c, t, oo.get("verbose"), lambda: t.do("wis.classify", h, xs))
        c.eq(len(got), len(xs), "length", "number of entries")
        for x, r in zip(xs, got):
            sc, win, b = s.m.predict(x)
            check_entry(c, x, r, oo if t.is_py else {}, sc, win, len(s.m.classes[win].mapping) if win in s.m.classes else 0, win, sorted(sc, key=model.bkey), "Wisard")
        c.eq(model.wis_state(t.do("wis.json", h)), before, "changed", "learned state after classification")

    if rng.random() < .12:
        c.count("untrained")
        look("w", full)
    for _ in range(rng.randint(1, 4)):
        n = rng.randint(1, 8)
        xs = [sim.near(rng, ps, base) for _ in range(n)]
        ys = [rng.choice(labs) for _ in range(n)]
        if rng.random() < .4:
            xs = [x for x in xs for _ in labs]
            ys = list(labs) * n
        pool += xs
        quiet(c, t, verbose, lambda: s.train(xs, ys))
        look("w", full)
    s.state("state learned under options %s" % ro)
    for _ in range(rng.randint(1, 3)):  # the same learned state under other options
        r2 = options(rng)
        t.do("wis.load", "v", with_options(t.do("wis.json", "w"), r2))
        look("v", r2)
    quiet(c, t, verbose, lambda: [t.do("wis.json", "w"), t.do("wis.jsonConfig", "w"), t.do("wis.mental", "w"), t.do("wis.sizeof", "w")])
    return {"kind": "wisard", "classes": len(s.m.classes), "options": ro}


def clu(c):
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 2, 3, 10])
    a, e = sim.sizes(rng, base)
    labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3, 5]))
    ro = options(rng)
    o = dict(sim.clu_opts(rng, e, a, base), **ro)
    ms, th, lim = sim.clu_params(rng)
    t.do("clu.new", "w", a, ms, th, lim, o)
    ps = sim.protos(rng, e, base, rng.randint(1, 3))
    pool = list(ps)

    def look(h, oo):
        xs = sim.probes(rng, pool, e, base, rng.randint(1, 8)) + [gen.pack([0] * e, base)]
        st = model.clu_state(t.do("clu.json", h))
        ds = {l: [from_state(d, base, o.get("ignoreZero", False)) for d in v] for l, v in st["clusters"].items()}
        got = quiet(c, t, oo.get("verbose"), lambda: t.do("clu.classify", h, xs))
        c.eq(len(got), len(xs), "length", "number of entries")
        for x, r in zip(xs, got):
            sc, win, lab = model.clu_predict(ds, x, o.get("bleachingActivated", True), o.get("confidence", 1))
            c.count("clu_entries")
            names = [k[:k.rfind("::")] for k in sorted(sc, key=model.bkey)]
            nr = len(ds[lab][int(win[win.rfind("::") + 2:])].mapping) if win else 0
            check_entry(c, x, r, oo if t.is_py else {}, sc, win, nr, lab, names, "ClusWisard")
        if rng.random() < .3:
            quiet(c, t, oo.get("verbose"), lambda: t.do("clu.classifyU", h, xs))
        c.eq(model.clu_state(t.do("clu.json", h)), st, "changed", "learned state after classification")

    if rng.random() < .12:
        c.count("untrained")
        look("w", o)
    for _ in range(rng.randint(1, 4)):
        n = rng.randint(1, 8)
        xs = [sim.near(rng, ps, base) for _ in range(n)]
        pool += xs
        r = rng.random()
        v = ro.get("verbose")
        if r < .7:
            quiet(c, t, v, lambda: t.do("clu.train", "w", xs, [rng.choice(labs) for _ in range(n)]))
        elif r < .85:
            quiet(c, t, v, lambda: t.do("clu.trainU", "w", xs))
        else:
            quiet(c, t, v, lambda: t.do("clu.trainSemi", "w", xs, [[0, rng.choice(labs)]]))
        look("w", o)
    for _ in range(rng.randint(1, 2)):
        r2 = options(rng)
        t.do("clu.load", "v", with_options(t.do("clu.json", "w"), r2))
        look("v", r2)
    return {"kind": "cluswisard", "options": ro}


def from_state(d, base, iz):
    """Model discriminator from a decoded state."""
    m = model.Disc(d["mapping"], d["entry"], base, iz)
    m.count = d["count"]
    for r, mp, cs in zip(m.rams, m.mapping, d["rams"]):
        for a, n in cs.items():
            tp = []
            for _ in mp:
                tp.append(a % base)
                a //= base
            r[tuple(tp)] = n
    return m


def verbose_twins(c):
    """With a fixed mapping the learned state does not depend on the reporting options or verbose."""
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 3])
    a, e = sim.sizes(rng, base)
    labs = gen.labels(rng, 3)
    o = sim.wis_opts(rng, e, a, base, labs, explicit=True)
    s1 = sim.WisSim(c, t, "a", a, e, dict(o, **options(rng)))
    s2 = sim.WisSim(c, t, "b", a, e, dict(o, **options(rng)))
    for _ in range(rng.randint(1, 5)):
        n = rng.randint(1, 6)
        xs, ys = [gen.image(rng, e, base) for _ in range(n)], [rng.choice(labs) for _ in range(n)]
        for s in (s1, s2):
            s.train(xs, ys)
        if rng.random() < .4:
            for s in (s1, s2):
                t.do("wis.lmo", s.h, xs[:1], ys[:1])
                s.unlearn(xs[0], ys[0])
        q = s1.probes(xs, 5)
        c.eq(s2.labels_of(t.do("wis.classify", "b", q)), s1.labels_of(t.do("wis.classify", "a", q)), "twins", "classes under other reporting options")
        c.count("entries", 5)
    s1.state("state under reporting options")
    s2.state("state under other reporting options")
    return {"kind": "twins"}


def designed(c):
    """Counters written directly: many RAMs, many candidates, runners-up from far behind to equal."""
    t, rng = c.t, c.rng
    clu = rng.random() < .5
    nr = rng.choice([1, 2, 3, 7, 20, 20, 130, 300, 300, 1500])
    nc = rng.choice([1, 2, 2, 3, 8, 60, 130] if nr < 100 else [1, 2, 2, 3])
    e, base = 2 * nr, rng.choice([2, 2, 3])
    conf = rng.choice([1, 1, 1, rng.randint(1, nr)])
    bl = rng.random() < .6
    labs = gen.labels(rng, nc, simple=nc > 30)
    mapping = [[2 * i, 2 * i + 1] for i in range(nr)]
    xs = [gen.image(rng, e, base) for _ in range(rng.choice([1, 2, 4]))]

    def mk():
        d = model.Disc(mapping, e, base, False)
        for x in xs:
            p = rng.choice([0, 1, .5, .9, 1.5 / nr, 5 / nr])
            ts = d.tuples(model.ival(x))
            for r, tp in zip(d.rams, ts):
                if rng.random() < p:
                    r[tp] = rng.choice([1, 1, 1, 2, 3])
            if p < .5 and ts:
                d.rams[0][ts[0]] = 1
        return d

    def js(d):
        return {"entrySize": e, "mapping": mapping, "count": 1, "data": ".".join(model.enc_ram(r) for r in d.counters())}
    ro = options(rng)
    ro.pop("verbose", None)
    j = {"version": t.do("version"), "addressSize": 2, "bleachingActivated": bl, "verbose": False, "indexes": [], "ignoreZero": False, "completeAddressing": True, "base": base,
         "confidence": conf, "returnConfidence": False, "returnActivationDegree": False, "returnClassesDegrees": False}
    j.update(ro)
    if clu:
        ds = {l: [mk() for _ in range(rng.choice([1, 1, 2, 3, 12]) if nr < 100 else 1)] for l in labs}
        j.update(minScore=.5, threshold=10, discriminatorsLimit=30, clusters={l: {"entrySize": e, "discriminators": [js(d) for d in v]} for l, v in ds.items()})
        t.do("clu.load", "w", json.dumps(j))
        got = t.do("clu.classify", "w", xs)
    else:
        m = model.Wis(base, False, bl, conf)
        m.classes = {l: mk() for l in labs}
        j.update(mapping={}, classes={l: js(d) for l, d in m.classes.items()})
        t.do("wis.load", "w", json.dumps(j))
        got = t.do("wis.classify", "w", xs)
    c.eq(len(got), len(xs), "length", "number of entries")
    for x, r in zip(xs, got):
        if clu:
            sc, win, lab = model.clu_predict(ds, x, bl, conf)
            names = [k[:k.rfind("::")] for k in sorted(sc, key=model.bkey)]
        else:
            sc, win, b = m.predict(x)
            lab, names = win, sorted(sc, key=model.bkey)
        v = sorted(sc.values())
        c.count("far_runner_up", len(v) > 1 and 0 < v[-2] * 50 < v[-1])
        c.count("many_candidates", len(sc) > 50)
        check_entry(c, x, r, ro if t.is_py else {}, sc, win, nr if sc else 0, lab, names, "ClusWisard" if clu else "Wisard")
    return {"kind": "designed", "rams": nr, "candidates": len(sc), "options": ro}


def batch(c):
    """More inputs in one call than 16 bits count: every entry is the one of the input alone."""
    t, rng = c.t, c.rng
    clu = rng.random() < .4
    ro = options(rng)
    ro.pop("verbose", None)
    xs = [gen.image(rng, 4, 2) for _ in range(12)]
    if clu:
        t.do("clu.new", "w", 2, .3, 2, 3, ro)
    else:
        t.do("wis.new", "w", 2, ro)
    op = "clu." if clu else "wis."
    t.do(op + "train", "w", xs, [rng.choice("abc") for _ in xs])
    q = [rng.choice(xs) for _ in range(rng.randint(66000, 75000))]
    quiet(c, t, False, lambda: t.do(op + "train", "w", q, [rng.choice("abc") for _ in q]))
    if not clu:
        t.do("wis.load", "v", t.do("wis.json", "w"))
        quiet(c, t, False, lambda: t.do("wis.lmo", "w", q, [rng.choice("abc") for _ in q]))
        t.do("wis.load", "w", t.do("wis.json", "v"))
    want = dict(zip(map(gen.key, xs), t.do(op + "classify", "w", xs)))
    if clu or rng.random() < .5:
        got = quiet(c, t, False, lambda: t.do(op + "classify", "w", q))
    else:
        t.do("ds.new", "x")
        t.do("ds.addM", "x", q, [None] * len(q))
        got = quiet(c, t, False, lambda: t.do("wis.classifyDS", "w", "x"))
    c.eq(len(got), len(q), "length", "number of entries")
    bad = [i for i in range(len(q)) if got[i] != want[gen.key(q[i])]]
    c.check(not bad, "entry", lambda: "entry %d of %d: got %r, alone %r" % (bad[0], len(q), got[bad[0]], want[gen.key(q[bad[0]])]))
    c.count("big_batches")
    return {"inputs": len(q), "options": ro}


def silent(c):
    """A random program over the whole API, none of whose models is verbose, prints nothing."""
    t, rng = c.t, c.rng
    p = Prog(c, t)
    p.may_print = False
    d = c.scratch()
    os.makedirs(os.path.join(d, "q"))
    t.do("chdir", d)
    o0 = t.do("out")
    for _ in range(rng.randint(10, 30)):
        cls = rng.choice(CLS)
        if rng.random() < .3 or not p.h[cls]:
            p.new(cls)
        else:
            p.use(cls)
    t.batch([["reset"]])
    c.count("silent_programs")
    c.eq(t.do("out") - o0, 0, "printed", "bytes printed by a program without verbose models")
    return {"calls": c.counts["calls"]}


def case(c):
    if c.rng.random() < .06:
        c.sample = silent(c)
        c.nontrivial = True
        return
    if c.every(701):
        c.sample = batch(c)
        c.nontrivial = True
        return
    r = c.rng.random()
    c.sample = (designed if r < .1 else wis if r < .55 else clu if r < .87 else verbose_twins)(c)
    c.nontrivial = True
