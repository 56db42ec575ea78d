"""C14: saving ClusWisard to JSON and loading it back loses nothing."""
import json

from wv import gen, model, sim
from wv.props.c08 import meta
from wv.props.c11 import grown

ID = "C14"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 2500, 80000
RULE = ("ClusWisard objects (untrained, supervised, unsupervised, mixed) are reloaded from their JSON at random points of random histories, up to 6 generations, kept in parallel with the "
        "original; every copy stays in lockstep with its own model for state, growth, predictions, mental images and configuration. Non-trivial: at least one reload; distinct by trace")
MIN = {"many_classes": 3, "reloads": 5000, "grown": 4, "untrained_reloads": 150, "unsup_only_reloads": 200, "predictions": 30000, "unsup_predictions": 10000, "states_compared": 12000, "configs_compared": 5000,
       "ten_or_more": 100}
ASSUMPTIONS = ["a case is left where a score is within rounding of a limit (counted as borderline)"]


def reload(s):
    c, t, rng = s.c, s.t, s.c.rng
    text = t.do("clu.json", s.h, True, c.scratch() + "/p") if rng.random() < .4 else t.do("clu.json", s.h)
    t.do("clu.load", "z", text)
    n = s.clone("z")
    n.state("the reloaded model")
    c.count("reloads")
    return n


def case(c):
    t, rng = c.t, c.rng
    if c.every(149):
        return grown(c, reload)
    base = rng.choice([2, 2, 2, 3, 10, 300])
    a, e = sim.sizes(rng, base)
    a = min(a, 20)
    e = e if 256 < e < 2000 else max(a, min(e, 60))
    ms, th, lim = sim.clu_params(rng)
    many = rng.random() < .12
    if many:
        ms, th, lim = 1.0, 1, rng.choice([12, 20])
        a, e = 3, max(e, 15)
    o = sim.clu_opts(rng, e, a, base, report=True)
    if rng.random() < .15:
        o["verbose"] = rng.random() < .7
    s = sim.CluSim(c, t, "w0", a, e, ms, th, lim, o)
    copies = [s]
    labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3, 5]))
    crowd = not many and c.every(307)
    if crowd:
        labs = gen.labels(rng, rng.choice([257, 300]), simple=True)
        c.count("many_classes")
    ps = sim.protos(rng, e, base, rng.choice([1, 2, 4]))
    pool = list(ps)
    gens = 0
    style = rng.choice(["s", "u", "su", "su", "sum"])
    try:
        for _ in range(rng.randint(3, 9)):
            r = rng.random()
            if r < .45:
                i = rng.randrange(len(copies))
                src = copies[i]
                gens += 1
                h = "w%d" % gens
                text = src.t.do("clu.json", src.h)
                meta(c, src.t, text, "json")
                dt = c.target(c.kind, 1) if rng.random() < .08 else src.t
                dt.do("clu.load", h, text)
                n = src.clone(h, dt)
                ca, cb = json.loads(src.t.do("clu.jsonConfig", src.h)), meta(c, dt, dt.do("clu.jsonConfig", h), "jsonConfig")
                for k in ca:
                    c.eq(cb.get(k), ca[k], "config", "configuration %s after reload" % k)
                for k, v in o.items():
                    if k != "searchBestConfidence":
                        c.eq(cb.get(k), v, "config", "option %s after reload" % k)
                c.eq([cb.get("threshold"), cb.get("discriminatorsLimit"), cb.get("addressSize")], [th, lim, a], "config", "parameters after reload")
                c.count("configs_compared")
                c.count("reloads")
                c.count("untrained_reloads", not src.clusters and not src.unsup)
                c.count("unsup_only_reloads", not src.clusters and bool(src.unsup))
                if any(len(v.discs) > 9 for v in src.clusters.values()):
                    c.count("ten_or_more")
                if rng.random() < .5:
                    src.t.do("del", src.h)
                    copies[i] = n
                else:
                    src.state("the model that was saved")
                    copies.append(n)
                    if len(copies) > 3:
                        d = copies.pop(rng.randrange(3))
                        d.t.do("del", d.h)
                n.state("the reloaded model")
            else:
                k = 14 if many else len(labs) if crowd else rng.choice([1, 2, 4, 8])
                xs = [sim.near(rng, ps, base, .6 if many else rng.choice([0, .05, .3])) for _ in range(k)]
                pool += xs
                op = rng.choice(style)
                ys = list(labs) if crowd else [labs[0] if many else rng.choice(labs) for _ in xs]
                semi = [[rng.randrange(k), rng.choice(labs)]]
                for q in copies:
                    if op == "s":
                        q.train(xs, ys)
                    elif op == "u":
                        q.train_unsup(xs)
                    else:
                        q.train_semi(xs, semi)
                    q.state("after training generation %s" % q.h)
            for q in copies:
                p = sim.probes(rng, pool, e, base, 3)
                q.classify(p)
                q.classify_unsup(p)
    except model.Borderline:
        c.count("borderline")
    c.nontrivial = gens > 0
    c.sample = {"generations": gens, "labels": labs, "style": style, "limit": lim, "clusters": {l: len(v.discs) for l, v in copies[0].clusters.items()}}
