"""C07: learning is independent of order, batching and input representation."""
import json
from collections import Counter

from wv import gen, model, sim

ID = "C07"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 2500, 80000
RULE = ("one training multiset is given to several Wisard (or Discriminator) objects with the same fixed mapping in different orders, batch splits, representations "
        "(lists, DataSet, BinInput), with classifications, foreign models, RNG and clock changes in between, and in a second process; all of them must reach the state "
        "of the model computed from the multiset, and give equal answers. Non-trivial: at least two arrangements of at least two examples compared")
MIN = {"arrangements": 6000, "own_mappings": 800, "via_dataset": 800, "big_batches": 4, "second_process": 800, "foreign_ops": 2000, "answers_compared": 15000, "images_compared": 3000}
ASSUMPTIONS = []


def disturb(c, t, e, base):
    """Things that must make no difference."""
    rng = c.rng
    for _ in range(rng.randint(0, 3)):
        r = rng.random()
        c.count("foreign_ops")
        if r < .25:
            t.do("clock", rng.randrange(1, 4 * 10 ** 9))
        elif r < .5:
            t.do("crand", rng.randrange(1 << 31), rng.randrange(20))
        elif r < .65:
            t.do("wis.new", "f", rng.randint(2, 5), {"base": rng.choice([2, 3])})
            t.do("wis.train", "f", ["0110110"], ["q"])
            t.do("wis.classify", "f", ["0110110"])
        elif r < .75:
            t.do("disc.new", "f", 3, 9, {})
            t.do("disc.train", "f", "010101010")
        elif r < .85:
            t.do("clu.new", "f", 2, 0.5, 3, 3, {})
            t.do("clu.train", "f", ["0101", "1111"], ["a", "b"])
        elif r < .93:
            t.do("syn.new", "f", [1, 2, 3])
            t.do("syn.make", "f", 2)
        else:
            t.do("kc.new", "f", 2, 5, {})
            t.do("kc.transform", "f", [[0.0, 1.0], [1.0, 3.0]])
        if rng.random() < .3:
            t.do("del", "f")


def batches(rng, items):
    if len(items) > 60000:
        k = rng.choice([len(items), 65537, rng.randrange(len(items))])
        return [b for b in (items[:k], items[k:]) if b]
    out = []
    i = 0
    while i < len(items):
        n = rng.choice([1, 1, 2, 3, 7, len(items)])
        out.append(items[i:i + n])
        i += n
    return out


def wis(c):
    rng = c.rng
    base = rng.choice([2, 2, 2, 3, 10, 300])
    a, e = sim.sizes(rng, base, mid=False)
    labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3, 5]))
    own = rng.random() < .3  # every arrangement has a mapping of its own; the model follows it
    o = sim.wis_opts(rng, e, a, base, labs, explicit=not own, report=rng.random() < .4)
    if own:
        o.pop("mapping", None)
        o.pop("indexes", None)
    m = model.Wis(base, o.get("ignoreZero", False), o.get("bleachingActivated", True), o.get("confidence", 1))
    ps = sim.protos(rng, e, base, rng.randint(1, 3))
    n = rng.choice([2, 3, 5, 8, 15, 30])
    big = c.every(167)
    if big:  # more examples than 16 bits count
        c.count("big_batches")
        n = 30
    data = [(sim.near(rng, ps, base, rng.choice([0, .1, .3])), rng.choice(labs)) for _ in range(n)]
    if rng.random() < .06:
        data = data * rng.choice([10, 50])
    if big:
        data = [rng.choice(data) for _ in range(rng.randint(66000, 75000))]
    used = {y for _, y in data}

    def fill(maps):
        for l in used:
            m.add_class(l, maps[l], e)
        for (x, y), k in Counter((gen.key(x), y) for x, y in data).items():
            m.classes[y].train(x, k)
    if not own:
        fill(o["mapping"] if "mapping" in o else {l: [o["indexes"][i * a:(i + 1) * a] for i in range(e // a)] for l in used})
    q = sim.probes(rng, [x for x, _ in data[:500]], e, base, 8)
    ref = None
    want = None if own else [m.label(x) for x in q]
    for k in range(1 if big else rng.choice([2, 3, 4])):
        t = c.target(c.kind, 1) if rng.random() < .2 else c.t
        if t is not c.t:
            c.count("second_process")
        h = "w%d" % k
        disturb(c, t, e, base)
        t.do("wis.new", h, a, o)
        items = list(data)
        style = rng.random()
        if style < .6:
            rng.shuffle(items)
        elif style < .8:
            items.sort(key=lambda z: (model.bkey(z[1]), rng.random()), reverse=rng.random() < .5)
        for b in batches(rng, items):
            xs, ys = [x for x, _ in b], [y for _, y in b]
            if base == 2 and "" not in ys and rng.random() < .5:
                t.do("ds.new", "x")
                if rng.random() < .5 or big:
                    t.do("ds.addM", "x", xs, ys)
                else:
                    for x, y in b:
                        t.do("bin.vec", "b", x)
                        t.do("ds.addBin", "x", "b", y)
                t.do("wis.trainDS", h, "x")
                c.count("via_dataset")
            else:
                t.do("wis.train", h, xs, ys)
            if rng.random() < .3:
                t.do("wis.classify", h, rng.sample(q, 2))
            if rng.random() < .2:
                disturb(c, t, e, base)
        c.count("arrangements")
        if own:
            c.count("own_mappings")
            m = model.Wis(base, o.get("ignoreZero", False), o.get("bleachingActivated", True), o.get("confidence", 1))
            cl = json.loads(t.do("wis.json", h))["classes"]
            c.eq(sorted(cl), sorted(used), "classes", "learned classes")
            fill({l: cl[l]["mapping"] for l in used})
            want = [m.label(x) for x in q]
        c.eq(model.wis_state(t.do("wis.json", h)), m.state(), "state", "state after arrangement %d" % k)
        got = t.do("wis.classify", h, q)
        c.eq([g["class"] if isinstance(g, dict) else g for g in got], want, "prediction", "predictions after arrangement %d" % k)
        if base == 2:
            t.do("ds.new", "y")
            t.do("ds.addM", "y", q, [rng.choice([None, "zz"]) for _ in q])
            c.eq(t.do("wis.classifyDS", h, "y"), got, "dataset", "classification of a DataSet / of the same lists")
        mi = t.do("wis.mental", h)
        c.eq(mi, {l: d.mental() for l, d in m.classes.items()}, "mental", "mental images after arrangement %d" % k)
        c.count("images_compared", len(mi))
        c.count("answers_compared", len(q))
        if ref is None or own:
            ref = got
        else:
            c.eq(got, ref, "answers", "answers of two arrangements")
        if big:
            qs = [q[i % len(q)] for i in range(66000)]
            rng.shuffle(qs)
            at = {gen.key(x): g for x, g in zip(q, got)}
            c.eq(t.do("wis.classify", h, qs), [at[gen.key(x)] for x in qs], "batch", "classification of 66000 inputs / of each")
        elif k:
            # one query at a time, in another order, gives the same
            i = rng.randrange(len(q))
            c.eq(t.do("wis.classify", h, [q[i]]), [got[i]], "one", "classification of one input / of the batch")
    return {"kind": "wisard", "base": base, "examples": len(data), "classes": len(used)}


def disc(c):
    rng = c.rng
    base = rng.choice([2, 2, 2, 3, 16])
    a, e = sim.sizes(rng, base, mid=False)
    mp = gen.free_mapping(rng, e, base) if rng.random() < .5 else gen.shuffled_mapping(rng, e, a)
    o = {"base": base, "ignoreZero": rng.random() < .3, "mapping": mp}
    d = model.Disc(mp, e, base, o["ignoreZero"])
    ps = sim.protos(rng, e, base, 2)
    data = [sim.near(rng, ps, base) for _ in range(rng.choice([2, 4, 10, 25]))]
    for x in data:
        d.train(x)
    q = sim.probes(rng, data, e, base, 6)
    want = [d.votes(x) for x in q]
    for k in range(rng.choice([2, 3])):
        t = c.target(c.kind, 1) if rng.random() < .2 else c.t
        if t is not c.t:
            c.count("second_process")
        h = "d%d" % k
        disturb(c, t, e, base)
        sim.new_disc(c, t, h, a, e, o)
        items = list(data)
        rng.shuffle(items)
        for b in batches(rng, items):
            r = rng.random()
            if r < .4:
                t.do("disc.trainB", h, b)
            elif base == 2 and r < .7:
                for x in b:
                    t.do("disc.trainBin", h, x)
                c.count("via_dataset")
            else:
                for x in b:
                    t.do("disc.train", h, x)
            if rng.random() < .3:
                t.do("disc.classify", h, rng.choice(q))
        c.count("arrangements")
        c.eq(t.do("disc.classifyM", h, q), want, "votes", "votes after arrangement %d" % k)
        if base == 2:
            c.eq([t.do("disc.classifyBin", h, x) for x in q[:3]], want[:3], "votes", "votes for BinInput after arrangement %d" % k)
        c.count("answers_compared", len(q))
        c.eq(model.disc_state(json.loads(t.do("disc.json", h))), model.model_state(d), "state", "state after arrangement %d" % k)
        if t.is_cxx:
            c.eq(t.do("disc.mental", h), d.mental(), "mental", "mental image")
            c.count("images_compared")
    return {"kind": "discriminator", "base": base, "examples": len(data)}


def case(c):
    c.sample = (disc if c.rng.random() < .3 else wis)(c)
    c.nontrivial = True
