"""C08: saving Wisard/Discriminator to JSON and loading it back loses nothing."""
import json

from wv import gen, model, scale, sim
from wv.props.c02 import shape

ID = "C08"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 3000, 100000
RULE = ("random Wisard/Discriminator histories; at random points the object is replaced by, or continued in parallel with, one loaded from its JSON (up to 6 generations, also a "
        "second process); every copy is kept in lockstep with its own reference model (votes, predictions, mental images, counters, counts, configuration), including classes "
        "learned only after the reload. Non-trivial: at least one reload and a continuation compared; distinct by request trace")
MIN = {"many_classes": 2, "wide_rams": 1, "reloads": 6000, "predictions": 30000, "states_compared": 15000, "untrained_reloads": 200, "new_class_after_reload": 800, "configs_compared": 6000,
       "unlearned_after_reload": 500, "second_process": 300, "empty_rams": 200}
ASSUMPTIONS = ["searchBestConfidence is not documented, has no effect and is not saved"]
CONF = ["addressSize", "bleachingActivated", "verbose", "mapping", "indexes", "ignoreZero", "completeAddressing", "base", "confidence",
        "returnConfidence", "returnActivationDegree", "returnClassesDegrees"]


def meta(c, t, text, what):
    try:
        j = json.loads(text)
    except ValueError as e:
        c.fail("json", "%s is not valid JSON: %s: %s" % (what, e, text[:300]))
    c.eq(j.get("version"), t.do("version"), "version", "version in " + what)
    return j


def config(c, t1, h1, t2, h2):
    a, b = meta(c, t1, t1.do("wis.jsonConfig", h1), "jsonConfig"), meta(c, t2, t2.do("wis.jsonConfig", h2), "jsonConfig")
    for k in CONF:
        c.eq(b.get(k), a.get(k), "config", "configuration %s after reload" % k)
    c.eq(b["classes"], a["classes"], "config", "classes (entry sizes, mappings) after reload")
    c.count("configs_compared")


def new_class_mapping(c, s, l):
    """A class learned after the reload follows the configuration."""
    m = s.m.classes[l].mapping
    o = s.o
    if l in (o.get("mapping") or {}):
        c.eq(m, o["mapping"][l], "new-class", "mapping of class %r learned after a reload" % l)
    elif o.get("indexes"):
        ix = o["indexes"]
        c.eq(m, [ix[i * s.a:(i + 1) * s.a] for i in range(s.e // s.a)], "new-class", "mapping of class %r learned after a reload" % l)
    else:
        shape(c, m, s.e, s.a, o.get("completeAddressing", True), "class %r learned after a reload" % l)


def wis(c):
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 2, 3, 10, 256, 65536, gen.MAXINT])
    a, e = sim.sizes(rng, base, huge=.002)
    if rng.random() < .02:
        a, e = 2, 500
    labs = gen.labels(rng, rng.choice([1, 2, 3, 4, 6, 15]))
    many = c.every(401)
    if many:
        base, a, e = 2, 2, rng.choice([4, 9])
        labs = gen.labels(rng, rng.choice([257, 300, 520]), simple=True)
        c.count("many_classes")
    o = sim.wis_opts(rng, e, a, base, labs, report=True)
    if rng.random() < .15:
        o["verbose"] = rng.random() < .8
    s = sim.WisSim(c, t, "w0", a, e, o)
    copies = [s]
    gens = 0
    ps = sim.protos(rng, e, base, 2)
    pool, ls = [], []
    for step in range(rng.randint(3, 10) if e < 60000 else 3):
        r = rng.random()
        if r < .4:
            i = rng.randrange(len(copies))
            src = copies[i]
            text = src.t.do("wis.json", src.h)
            meta(c, src.t, text, "json")
            dt = src.t
            if rng.random() < .08:
                dt = c.target(c.kind, 1)
                c.count("second_process")
            gens += 1
            h = "w%d" % gens
            dt.do("wis.load", h, text)
            n = src.clone(h, dt)
            config(c, src.t, src.h, dt, h)
            c.count("reloads")
            c.count("untrained_reloads", not src.m.classes)
            if rng.random() < .5:
                src.t.do("del", src.h)
                copies[i] = n
            else:
                copies.append(n)
                if len(copies) > 3:
                    d = copies.pop(rng.randrange(3))
                    d.t.do("del", d.h)
            n.state("state of the reloaded model")
            src in copies and src.state("state of the model that was saved")
        elif r < .75 or not ls:
            k = len(labs) if many else rng.randint(1, 6)
            xs = [sim.near(rng, ps, base) for _ in range(k)]
            ys = list(labs) if many else [rng.choice(labs) for _ in range(k)]
            if rng.random() < .05 and not many:
                xs, ys = xs * 60, ys * 60
            pool += xs[:6]
            ls += list(zip(xs, ys))
            for s in copies:
                known = set(s.m.classes)
                s.train(xs, ys)
                for l in set(ys) - known:
                    if gens:
                        c.count("new_class_after_reload")
                    new_class_mapping(c, s, l)
        elif r < .88:
            x, y = ls.pop(rng.randrange(len(ls)))
            for s in copies:
                s.t.do("wis.loo", s.h, x, y)
                s.unlearn(x, y)
            c.count("unlearned_after_reload", gens > 0)
        for s in copies:
            s.classify(s.probes(pool, 4))
            if rng.random() < .3:
                s.mental()
            if rng.random() < .5:
                s.state()
            if rng.random() < .2:
                s.votes(s.probes(pool, 3))
    for s in copies:
        s.state()
        s.mental()
    c.nontrivial = c.counts["reloads"] > 0
    return {"kind": "wisard", "generations": gens, "classes": len(copies[0].m.classes), "base": base}


def disc(c):
    t, rng = c.t, c.rng
    base = rng.choice(gen.BASES)
    a, e = sim.sizes(rng, base)
    o = {"base": base, "ignoreZero": rng.random() < .4, "completeAddressing": rng.random() < .6}
    r = rng.random()
    if r < .4:
        o["mapping"] = gen.free_mapping(rng, e, base)
    elif r < .6:
        o["indexes"] = rng.sample(range(e), e)
    sim.new_disc(c, t, "d0", a, e, o)
    j0 = meta(c, t, t.do("disc.json", "d0"), "json")
    d = model.Disc(j0["mapping"], e, base, o["ignoreZero"])
    hs = [(t, "d0")]
    pool, ls = [], []
    gens = 0
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        if r < .4:
            st, h = rng.choice(hs)
            dt = st
            if rng.random() < .08:
                dt = c.target(c.kind, 1)
                c.count("second_process")
            gens += 1
            n = "d%d" % gens
            dt.do("disc.load", n, st.do("disc.json", h))
            a1, b1 = meta(c, st, st.do("disc.jsonConfig", h), "jsonConfig"), meta(c, dt, dt.do("disc.jsonConfig", n), "jsonConfig")
            for k in ("entrySize", "mapping", "ignoreZero", "base"):
                c.eq(b1[k], a1[k], "config", "configuration %s after reload" % k)
            c.count("configs_compared")
            c.count("reloads")
            c.count("untrained_reloads", d.count == 0)
            if any(not x for x in d.counters()):
                c.count("empty_rams")
            hs.append((dt, n))
            if len(hs) > 3:
                hs.pop(rng.randrange(3))
        elif r < .8 or not ls:
            x = gen.image(rng, e, base)
            k = rng.choice([1, 1, 2, 300 if rng.random() < .1 else 1])
            for tt, h in hs:
                tt.do("disc.trainN", h, x, k)
            d.train(x, k)
            pool.append(x)
            ls += [x] * min(k, 3)
        elif t.is_cxx:
            x = ls.pop(rng.randrange(len(ls)))
            for tt, h in hs:
                tt.do("disc.untrain", h, x)
            d.untrain(x)
            c.count("unlearned_after_reload", gens > 0)
        q = sim.probes(rng, pool, e, base, 3)
        for tt, h in hs:
            c.eq(tt.do("disc.classifyM", h, q), [d.votes(x) for x in q], "votes", "votes of generation %s" % h)
            c.eq(model.disc_state(json.loads(tt.do("disc.json", h))), model.model_state(d), "state", "state of generation %s" % h)
            c.count("states_compared")
            if tt.is_cxx and rng.random() < .3:
                c.eq(tt.do("disc.mental", h), d.mental(), "mental", "mental image of generation %s" % h)
                c.eq(tt.do("disc.count", h), d.count, "count", "count of generation %s" % h)
                c.eq(tt.do("disc.nrams", h), len(d.mapping), "nrams", "RAMs of generation %s" % h)
    c.nontrivial = c.counts["reloads"] > 0
    return {"kind": "discriminator", "generations": gens, "base": base, "learned": d.count}


def wide(c):
    w = scale.Wide(c, c.t.is_py or None)
    w.state()
    w.load("e", w.json())
    w.state("e", "state after reloading")
    if not w.wis:
        w.votes("e")
    w.mental("e")
    w.learn(w.xs[:500], "e")
    w.load("d", w.json("e"))
    w.state("d", "second generation")


def case(c):
    if c.every(601):
        return wide(c)
    c.sample = (disc if c.rng.random() < .35 else wis)(c)
