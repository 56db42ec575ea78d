"""C06: unlearning exactly undoes learning."""
import json

from wv import gen, model, scale, sim

ID = "C06"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 4000, 120000
RULE = ("Wisard (leaveOneOut/leaveMoreOut) and Discriminator (untrain, C++) histories of learning, unlearning of learned examples, classification and reload; votes, "
        "predictions, mental images, counts and stored counters are compared with a model in which the unlearned examples never existed, and with a twin object that never "
        "learned them (fixed mapping). Unlearning from unknown labels is injected. Non-trivial: something was unlearned and compared; distinct by request trace")
MIN = {"wide_rams": 1, "unlearned": 8000, "exchanged": 1000, "unknown_label": 500, "emptied_classes": 200, "states_compared": 4000, "twins_compared": 1000, "images_compared": 4000, "predictions": 15000}
ASSUMPTIONS = ["a class whose examples are all unlearned stays a known class (with zero votes)"]


def disc(c):
    t, rng = c.t, c.rng
    base = rng.choice(gen.BASES)
    a, e = sim.sizes(rng, base, huge=.004)
    o = {"base": base, "ignoreZero": rng.random() < .4, "completeAddressing": rng.random() < .7}
    if rng.random() < .5:
        o["mapping"] = gen.free_mapping(rng, e, base)
    sim.new_disc(c, t, "d", a, e, o)
    d = model.Disc(json.loads(t.do("disc.json", "d"))["mapping"], e, base, o["ignoreZero"])
    ls, pool = [], []
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        if r < .5 or not ls:
            x = rng.choice(pool) if pool and rng.random() < .4 else gen.image(rng, e, base)
            k = rng.choice([1, 1, 2, 3, 257 if rng.random() < .1 and e < 60000 else 1])
            t.do("disc.trainN", "d", x, k)
            d.train(x, k)
            ls += [x] * k
            pool.append(x)
        elif r < .9:
            for _ in range(rng.choice([1, 1, 2, 5, len(ls)])):
                if not ls:
                    break
                x = ls.pop(rng.randrange(len(ls)))
                t.do("disc.untrain", "d", x)
                d.untrain(x)
                c.count("unlearned")
                c.nontrivial = True
                if rng.random() < .3:  # another example instead: as many as before
                    x = rng.choice(pool) if rng.random() < .4 else gen.image(rng, e, base)
                    t.do("disc.train", "d", x)
                    d.train(x)
                    ls.append(x)
                    pool.append(x)
                    c.count("exchanged")
        else:
            t.do("disc.load", "d", t.do("disc.json", "d"))
        q = sim.probes(rng, pool, e, base, 4)
        c.eq(t.do("disc.classifyM", "d", q), [d.votes(x) for x in q], "votes", "votes after unlearning")
        c.eq(t.do("disc.count", "d"), d.count, "count", "training count")
        c.eq(t.do("disc.mental", "d"), d.mental(), "mental", "mental image after unlearning")
        c.count("images_compared")
        c.eq(model.disc_state(json.loads(t.do("disc.json", "d"))), model.model_state(d), "state", "stored content")
        c.count("states_compared")
    if not ls:
        c.count("emptied_classes")
    return {"kind": "discriminator", "base": base}


def wis(c):
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 2, 3, 10, 257, gen.MAXINT])
    a, e = sim.sizes(rng, base)
    labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3, 4, 8]))
    ghosts = [l for l in gen.labels(rng, 6) if l not in labs]
    explicit = rng.random() < .6
    o = sim.wis_opts(rng, e, a, base, labs, explicit=explicit or None, report=rng.random() < .3)
    s = sim.WisSim(c, t, "w", a, e, o)
    ps = sim.protos(rng, e, base, 2)
    ls, hist = [], []
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < .45 or not ls:
            n = rng.randint(1, 8)
            xs = [sim.near(rng, ps, base) for _ in range(n)]
            ys = [rng.choice(labs) for _ in range(n)]
            s.train(xs, ys)
            ls += list(zip(xs, ys))
            hist += list(zip(xs, ys))
        elif r < .85:
            k = rng.choice([1, 1, 2, 3, 8, len(ls)])
            if rng.random() < .2:  # empty one class
                l0 = rng.choice(ls)[1]
                p = [z for z in ls if z[1] == l0]
                ls = [z for z in ls if z[1] != l0]
                c.count("emptied_classes")
            else:
                p = [ls.pop(rng.randrange(len(ls))) for _ in range(min(k, len(ls)))]
            rng.shuffle(p)
            mixed = list(p)
            if ghosts and rng.random() < .3:
                mixed.insert(rng.randrange(len(mixed) + 1), (sim.near(rng, ps, base), rng.choice(ghosts)))
                c.count("unknown_label")
            if rng.random() < .5:
                for x, y in mixed:
                    t.do("wis.loo", "w", x, y)
            else:
                t.do("wis.lmo", "w", [x for x, _ in mixed], [y for _, y in mixed])
            for x, y in p:
                s.unlearn(x, y)
                c.count("unlearned")
                c.nontrivial = True
            if rng.random() < .4:  # other examples of the same classes instead
                p = [(sim.near(rng, ps, base), y) for _, y in p]
                s.train([x for x, _ in p], [y for _, y in p])
                ls += p
                hist += p
                c.count("exchanged")
        elif ghosts and r < .92:
            t.do("wis.loo", "w", sim.near(rng, ps, base), rng.choice(ghosts))
            c.count("unknown_label")
        else:
            t.do("wis.load", "w", t.do("wis.json", "w"))
        q = s.probes([x for x, _ in hist], 5)
        s.classify(q)
        s.state("content after unlearning")
        s.mental("mental images after unlearning")
    if explicit:  # a twin that learned only what is left (and knows the same classes)
        tw = sim.WisSim(c, t, "v", a, e, o)
        left = list(ls)
        rng.shuffle(left)
        if left:
            tw.train([x for x, _ in left], [y for _, y in left])
        if set(tw.m.classes) == set(s.m.classes):
            q = s.probes([x for x, _ in hist], 8)
            c.eq(t.do("wis.classify", "w", q), t.do("wis.classify", "v", q), "twin", "answers of the model that unlearned / of the one that never learned")
            c.eq(t.do("wis.mental", "w"), t.do("wis.mental", "v"), "twin", "mental images of the model that unlearned / of the one that never learned")
            c.count("twins_compared")
    # it can learn them again
    x, y = (rng.choice(hist))
    s.train([x], [y])
    s.state("content after learning again")
    s.votes(s.probes([x], 2))
    return {"kind": "wisard", "base": base, "options": {k: v for k, v in o.items() if k not in ("mapping", "indexes")}}


def wide(c):
    w = scale.Wide(c, c.t.is_py or c.rng.random() < .5)
    gone = c.rng.sample(w.xs, c.rng.choice([500, 5000, 66000]))
    w.unlearn(gone)
    w.state(what="state after unlearning %d of %d examples" % (len(gone), len(w.xs)))
    if not w.wis:
        w.votes()
    w.mental()
    return c.sample


def case(c):
    if c.every(701):
        return wide(c)
    c.sample = (disc if c.t.is_cxx and c.rng.random() < .4 else wis)(c)
