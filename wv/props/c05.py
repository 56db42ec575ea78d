"""C05: mental images count the learned examples per input position."""
from wv import gen, model, scale, sim
from wv.props.c04 import from_state
from wv.props.c11 import grown

ID = "C05"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 4000, 120000
RULE = ("Discriminator (C++), Wisard and ClusWisard with every mapping kind, base and address size up to the 64-bit limit go through random learn, unlearn and "
        "reload histories; every mental image is compared position by position with the log of learned examples and the multiplicity of the position in the "
        "mapping. Non-trivial: an image with a positive value was compared; distinct by request trace")
MIN = {"many_classes": 2, "grown": 3, "wide_rams": 2, "images_compared": 8000, "positive_images": 5000, "wide_addresses": 300, "repeated_positions": 1000, "after_unlearning": 800, "exchanged": 500, "other_base": 1500, "huge_entries": 3}
ASSUMPTIONS = []


def note(c, d):
    if any(d.mental()):
        c.count("positive_images")
        c.nontrivial = True
    if any(d.base ** len(m) > 2 ** 32 for m in d.mapping):
        c.count("wide_addresses")
    if any(len(set(m)) < len(m) for m in d.mapping) or sum(map(len, d.mapping)) > d.entry:
        c.count("repeated_positions")
    if d.base != 2:
        c.count("other_base")


def setup(c):
    rng = c.rng
    base = rng.choice(gen.BASES)
    a, e = sim.sizes(rng, base, small=rng.random() < .6, huge=.003)
    c.count("huge_entries", e > 65536)
    return base, a, e


def disc(c):
    t, rng = c.t, c.rng
    base, a, e = setup(c)
    o = {"base": base, "ignoreZero": rng.random() < .4, "completeAddressing": rng.random() < .7}
    if rng.random() < .5:
        o["mapping"] = gen.free_mapping(rng, e, base)
    sim.new_disc(c, t, "d", a, e, o)
    import json
    d = model.Disc(json.loads(t.do("disc.json", "d"))["mapping"], e, base, o["ignoreZero"])
    ls = []
    for _ in range(rng.randint(2, 10)):
        r = rng.random()
        if r < .6 or not ls:
            x = gen.image(rng, e, base)
            n = rng.choice([1, 1, 1, 2, 300 if rng.random() < .2 else 3])
            t.do("disc.trainN", "d", x, n)
            d.train(x, n)
            ls += [x] * min(n, 4)
        elif r < .8:
            x = ls.pop(rng.randrange(len(ls)))
            t.do("disc.untrain", "d", x)
            d.untrain(x)
            c.count("after_unlearning")
            if rng.random() < .6:  # another example instead: as many as before
                x = gen.image(rng, e, base)
                t.do("disc.train", "d", x)
                d.train(x)
                ls.append(x)
                c.count("exchanged")
        else:
            t.do("disc.load", "d", t.do("disc.json", "d"))
            c.count("reloads")
        note(c, d)
        c.count("images_compared")
        c.eq(t.do("disc.mental", "d"), d.mental(), "mental", "mental image of a discriminator with mapping %s base %d" % (d.mapping, base))
    return {"kind": "discriminator", "base": base, "entry": e}


def wis(c):
    t, rng = c.t, c.rng
    base, a, e = setup(c)
    labs = gen.labels(rng, rng.choice([1, 2, 3, 5, 20]))
    many = c.every(307)
    if many:
        base, a, e = 2, 2, rng.choice([4, 9])
        labs = gen.labels(rng, rng.choice([257, 300, 520]), simple=True)
        c.count("many_classes")
    o = sim.wis_opts(rng, e, a, base, labs, report=rng.random() < .2)
    s = sim.WisSim(c, t, "w", a, e, o)
    ls = []
    if rng.random() < .1:
        s.mental("untrained")
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < .55 or not ls:
            n = len(labs) if many else rng.randint(1, 6)
            xs = [gen.image(rng, e, base) for _ in range(n)]
            ys = list(labs) if many else [rng.choice(labs) for _ in range(n)]
            if base == 2 and rng.random() < .3:
                t.do("ds.new", "x")
                t.do("ds.addM", "x", xs, [y or None for y in ys])
                if "" in ys:
                    continue
                t.do("wis.trainDS", "w", "x")
                s.learn(xs, ys)
            else:
                s.train(xs, ys)
            ls += list(zip(xs, ys))
        elif r < .75:
            k = rng.randint(1, min(4, len(ls)))
            p = [ls.pop(rng.randrange(len(ls))) for _ in range(k)]
            if rng.random() < .5:
                for x, y in p:
                    t.do("wis.loo", "w", x, y)
            else:
                t.do("wis.lmo", "w", [x for x, _ in p], [y for _, y in p])
            for x, y in p:
                s.unlearn(x, y)
            c.count("after_unlearning")
            if rng.random() < .6:  # other examples of the same classes instead
                p = [(gen.image(rng, e, base), y) for _, y in p]
                s.train([x for x, _ in p], [y for _, y in p])
                ls += p
                c.count("exchanged")
        elif r < .9:
            t.do("wis.load", "w", t.do("wis.json", "w"))
        else:
            t.do("wis.classify", "w", [gen.image(rng, e, base)])
        s.mental()
        for d in s.m.classes.values():
            note(c, d)
    return {"kind": "wisard", "base": base, "entry": e, "classes": len(s.m.classes)}


def clu(c):
    t, rng = c.t, c.rng
    base, a, e = setup(c)
    a, e = min(a, 20), min(e, 60)
    e = max(a, e)
    labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3]))
    o = sim.clu_opts(rng, e, a, base)
    ms, th, lim = sim.clu_params(rng)
    if rng.random() < .6:
        lim = 1  # then everything of a label is in its only discriminator
    t.do("clu.new", "w", a, ms, th, lim, o)
    log = {l: [] for l in labs}
    for _ in range(rng.randint(1, 5)):
        n = rng.randint(1, 6)
        xs = [gen.image(rng, e, base) for _ in range(n)]
        ys = [rng.choice(labs) for _ in range(n)]
        r = rng.random()
        if r < .7:
            t.do("clu.train", "w", xs, ys)
            for x, y in zip(xs, ys):
                log[y].append(x)
        elif r < .85:
            t.do("clu.trainU", "w", xs)
        else:
            t.do("clu.load", "w", t.do("clu.json", "w"))
        st = model.clu_state(t.do("clu.json", "w"))["clusters"]
        want = {}
        for l, ds in st.items():
            want[l] = []
            for d in ds:
                m = from_state(d, base, False)
                if lim == 1:
                    for x in log[l]:
                        m.learned[tuple(model.ival(x))] += 1
                    img = m.mental()
                else:
                    img = [0] * e
                    for mp, ram in zip(m.mapping, m.rams):
                        for tp, k in ram.items():
                            for p, v in zip(mp, tp):
                                img[p] += k if v else 0
                want[l].append(img)
                if any(img):
                    c.count("positive_images")
                    c.nontrivial = True
        if rng.random() < .6:
            c.eq(t.do("clu.mentals", "w"), want, "mental", "mental images of the clusters")
            c.count("images_compared", sum(map(len, want.values())))
        else:
            for l in labs:
                c.eq(t.do("clu.mental", "w", l), want.get(l, []), "mental", "mental images of %r" % l)
                c.count("images_compared", len(want.get(l, [])))
    return {"kind": "cluswisard", "base": base, "entry": e, "limit": lim}


def case(c):
    r = c.rng.random()
    if c.every(599):
        def look(s, xs):
            s.mental()
            c.count("images_compared", sum(len(v.discs) for v in s.clusters.values()))
        return grown(c, after=look, kinds=("s", "su"), min_limit=260)
    if c.every(701):
        w = scale.Wide(c, c.t.is_py or r < .5)
        w.mental()
        w.learn(w.xs[:1000])
        w.mental()
        return
    if c.t.is_py:
        c.sample = (wis if r < .7 else clu)(c)
    else:
        c.sample = (disc if r < .4 else wis if r < .75 else clu)(c)
