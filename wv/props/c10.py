"""C10: jsonConfig carries the configuration and loads as an untrained model."""
import json

from wv import gen, model, sim
from wv.props.c02 import shape

ID = "C10"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 4000, 120000
RULE = ("Wisard, ClusWisard and Discriminator are made with random subsets of all documented options; jsonConfig is checked against the options given and the documented defaults, against "
        "learned content, and (trained or not) is loaded into a new object which must report the same configuration, vote 0 everywhere, and after the same training equal a "
        "model (reference model and, where the mapping is fixed, a fresh twin). Non-trivial: options were given and the loaded object was trained; distinct by request trace")
MIN = {"many_classes": 3, "options_checked": 40000, "untrained_compared": 3000, "trained_twins": 2500, "from_trained": 1500, "predictions": 15000, "clu": 800, "disc": 800}
ASSUMPTIONS = ["searchBestConfidence is not documented, has no effect and is not part of the configuration"]
WDEF = {"bleachingActivated": True, "verbose": False, "ignoreZero": False, "completeAddressing": True, "mapping": {}, "indexes": [], "base": 2, "confidence": 1,
        "returnConfidence": False, "returnActivationDegree": False, "returnClassesDegrees": False}


def expect(c, j, want, what):
    for k, v in want.items():
        c.count("options_checked")
        if isinstance(v, float):
            c.check(isinstance(j.get(k), (int, float)) and abs(j[k] - v) < 1e-6, "option", lambda: "%s in %s: %r, given %r" % (k, what, j.get(k), v))
        else:
            g = j.get(k)
            if k == "mapping" and g is None:
                g = {}
            if k == "indexes" and g is None:
                g = []
            c.check(g == v and type(g) is type(v), "option", lambda: "%s in %s: %r, given %r" % (k, what, j.get(k), v))


def parse(c, t, text, what):
    try:
        j = json.loads(text)
    except ValueError as e:
        c.fail("json", "%s is not valid JSON (%s): %s" % (what, e, text[:200]))
    c.eq(j.get("version"), t.do("version"), "version", "version in " + what)
    return j


def no_content(c, j, what):
    if isinstance(j, dict):
        for k, v in j.items():
            c.check(k not in ("data", "count"), "content", lambda: "%s has learned content: %s" % (what, k))
            if k != "mapping":
                no_content(c, v, what)
    elif isinstance(j, list):
        for v in j:
            no_content(c, v, what)


def some_options(rng, o):
    """All options written out, or only some."""
    if rng.random() < .3:
        o["verbose"] = rng.random() < .5
    return o


def wis(c):
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 2, 3, 10, 257])
    a, e = sim.sizes(rng, base, huge=.002)
    labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3, 5]))
    if c.every(499):
        labs = gen.labels(rng, rng.choice([70, 130, 260, 400]), simple=True)
        base, a, e = 2, 2, rng.choice([4, 6])
        c.count("many_classes")
    explicit = rng.random() < .5
    o = some_options(rng, sim.wis_opts(rng, e, a, base, labs, report=True, explicit=explicit or None))
    if rng.random() < .1 and "mapping" in o and "indexes" not in o:
        o["indexes"] = rng.sample(range(e), e)
    want = dict(WDEF, addressSize=a, **o)
    want.pop("searchBestConfidence", None)
    s = sim.WisSim(c, t, "w", a, e, o)
    xs = [gen.image(rng, e, base) for _ in range(rng.randint(1, 8))]
    ys = [rng.choice(labs) for _ in xs]
    trained = rng.random() < .6
    if len(labs) > 60:
        ys = list(labs)
        xs = [gen.image(rng, e, base) for _ in ys]
        trained = True
    if trained:
        s.train(xs, ys)
        c.count("from_trained")
    j = parse(c, t, t.do("wis.jsonConfig", "w"), "jsonConfig")
    expect(c, j, want, "Wisard.jsonConfig")
    expect(c, parse(c, t, t.do("wis.json", "w"), "json"), want, "Wisard.json")
    no_content(c, {k: v for k, v in j.items() if k != "mapping"}, "Wisard.jsonConfig")
    c.eq({k: [v["entrySize"], v["mapping"]] for k, v in (j["classes"] or {}).items()}, {k: [e, d.mapping] for k, d in s.m.classes.items()}, "classes", "classes in jsonConfig")
    for gen_ in range(rng.choice([1, 1, 2])):
        t.do("wis.load", "v", t.do("wis.jsonConfig", "w" if gen_ == 0 else "v"))
    u = s.clone("v")
    for d in u.m.classes.values():
        d.count = 0
        d.rams = [type(r)() for r in d.rams]
        d.learned.clear()
    expect(c, parse(c, t, t.do("wis.jsonConfig", "v"), "jsonConfig"), want, "jsonConfig of the loaded model")
    u.state("the loaded model is untrained")
    c.count("untrained_compared")
    q = s.probes(xs, 5)
    u.classify(q)
    u.votes(q[:3])
    u.mental()
    labs2 = labs + gen.labels(rng, 1)
    n = rng.randint(2, 10)
    xs2 = [gen.image(rng, e, base) for _ in range(n)]
    ys2 = [rng.choice(labs2 if not explicit or "indexes" in o else labs) for _ in range(n)]
    known = set(u.m.classes)
    u.train(xs2, ys2)
    for l in set(ys2) - known:
        m = u.m.classes[l].mapping
        if l in o.get("mapping", {}):
            c.eq(m, o["mapping"][l], "new-class", "mapping of %r in the loaded model" % l)
        elif o.get("indexes"):
            c.eq(m, [o["indexes"][i * a:(i + 1) * a] for i in range(e // a)], "new-class", "mapping of %r in the loaded model" % l)
        else:
            shape(c, m, e, a, o.get("completeAddressing", True), "class %r of the loaded model" % l)
    q = s.probes(xs2, 8)
    u.state("training after loading a configuration")
    u.classify(q)
    u.mental()
    c.count("trained_twins")
    if explicit and all(l in ys2 for l in known):
        f = sim.WisSim(c, t, "f", a, e, o)
        f.train(xs2, ys2)
        c.eq(t.do("wis.classify", "v", q), t.do("wis.classify", "f", q), "twin", "answers of the loaded model / of a fresh one")
    return {"kind": "wisard", "options": sorted(o)}


def clu(c):
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 3, 10])
    a, e = sim.sizes(rng, base, huge=.003)
    ms, th, lim = sim.clu_params(rng)
    o = some_options(rng, sim.clu_opts(rng, e, a, base, report=True))
    want = {k: v for k, v in WDEF.items() if k != "mapping"}
    want.update(o, addressSize=a, minScore=float(ms), threshold=th, discriminatorsLimit=lim)
    want.pop("searchBestConfidence", None)
    labs = gen.labels(rng, 2)
    t.do("clu.new", "w", a, ms, th, lim, o)
    if rng.random() < .6:
        c.count("from_trained")
        t.do("clu.train", "w", [gen.image(rng, e, base) for _ in range(4)], [rng.choice(labs) for _ in range(4)])
        if rng.random() < .4:
            t.do("clu.trainU", "w", [gen.image(rng, e, base) for _ in range(3)])
    j = parse(c, t, t.do("clu.jsonConfig", "w"), "jsonConfig")
    expect(c, j, want, "ClusWisard.jsonConfig")
    expect(c, parse(c, t, t.do("clu.json", "w"), "json"), want, "ClusWisard.json")
    no_content(c, j, "ClusWisard.jsonConfig")
    t.do("clu.load", "v", t.do("clu.jsonConfig", "w"))
    if rng.random() < .3:
        t.do("clu.load", "v", t.do("clu.jsonConfig", "v"))
    expect(c, parse(c, t, t.do("clu.jsonConfig", "v"), "jsonConfig"), want, "jsonConfig of the loaded model")
    s = sim.CluSim(c, t, "w", a, e, ms, th, lim, o, create=False)
    u = s.clone("v")
    u.state("the loaded ClusWisard is untrained")
    c.count("untrained_compared")
    c.count("clu")
    q = [gen.image(rng, e, base) for _ in range(3)]
    u.classify(q)
    u.classify_unsup(q)
    xs = [gen.image(rng, e, base) for _ in range(rng.randint(2, 9))]
    try:
        u.train(xs, [rng.choice(labs) for _ in xs])
        u.train_unsup(xs[:4])
    except model.Borderline:
        c.count("borderline")
        return {"kind": "cluswisard"}
    for l, maps in list(u.maps.items()) + [(None, u.umaps)]:
        for m in maps:
            if o.get("indexes"):
                c.eq(m, [o["indexes"][i * a:(i + 1) * a] for i in range(e // a)], "new-class", "mapping of a discriminator in the loaded model")
            else:
                shape(c, m, e, a, o.get("completeAddressing", True), "cluster %r of the loaded model" % (l,))
    u.state("training after loading a configuration")
    u.classify(sim.probes(rng, xs, e, base, 5))
    c.count("trained_twins")
    return {"kind": "cluswisard", "options": sorted(o)}


def disc(c):
    t, rng = c.t, c.rng
    base = rng.choice(gen.BASES)
    a, e = sim.sizes(rng, base, huge=.003)
    o = {}
    if base != 2 or rng.random() < .3:
        o["base"] = base
    if rng.random() < .6:
        o["ignoreZero"] = rng.random() < .6
    if rng.random() < .6:
        o["completeAddressing"] = rng.random() < .5
    r = rng.random()
    if r < .4:
        o["mapping"] = gen.free_mapping(rng, e, base)
    elif r < .6:
        o["indexes"] = rng.sample(range(e), e)
    sim.new_disc(c, t, "d", a, e, o)
    want = {"entrySize": e, "base": base, "ignoreZero": o.get("ignoreZero", False)}
    xs = [gen.image(rng, e, base) for _ in range(6)]
    if rng.random() < .6:
        t.do("disc.trainB", "d", xs[:3])
        c.count("from_trained")
    j = parse(c, t, t.do("disc.jsonConfig", "d"), "jsonConfig")
    expect(c, j, want, "Discriminator.jsonConfig")
    no_content(c, j, "Discriminator.jsonConfig")
    c.eq(j["mapping"], json.loads(t.do("disc.json", "d"))["mapping"], "mapping", "mapping in jsonConfig / in json")
    if "mapping" in o:
        c.eq(j["mapping"], o["mapping"], "mapping", "mapping in jsonConfig")
    elif "indexes" in o:
        c.eq(j["mapping"], [o["indexes"][i * a:(i + 1) * a] for i in range(e // a)], "mapping", "mapping in jsonConfig")
    else:
        shape(c, j["mapping"], e, a, o.get("completeAddressing", True), "Discriminator")
    t.do("disc.load", "v", t.do("disc.jsonConfig", "d"))
    d = model.Disc(j["mapping"], e, base, o.get("ignoreZero", False))
    j2 = parse(c, t, t.do("disc.jsonConfig", "v"), "jsonConfig")
    expect(c, j2, dict(want, mapping=j["mapping"]), "jsonConfig of the loaded Discriminator")
    c.eq(t.do("disc.classifyM", "v", xs), [[0] * len(d.mapping)] * len(xs), "untrained", "votes of the loaded Discriminator")
    c.eq(json.loads(t.do("disc.json", "v"))["count"], 0, "untrained", "count of the loaded Discriminator")
    c.count("untrained_compared")
    c.count("disc")
    for x in xs:
        t.do("disc.train", "v", x)
        d.train(x)
    q = sim.probes(rng, xs, e, base, 8)
    c.eq(t.do("disc.classifyM", "v", q), [d.votes(x) for x in q], "votes", "votes of the loaded Discriminator after training")
    c.eq(model.disc_state(json.loads(t.do("disc.json", "v"))), model.model_state(d), "state", "state of the loaded Discriminator after training")
    c.count("predictions", len(q))
    c.count("trained_twins")
    return {"kind": "discriminator", "options": sorted(o)}


def case(c):
    r = c.rng.random()
    c.sample = (wis if r < .5 or c.every(499) else clu if r < .75 else disc)(c)
    c.nontrivial = c.counts["trained_twins"] > 0
