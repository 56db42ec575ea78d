"""C29: the reported size follows the learned content."""
import json

from wv import gen, model, sim

ID = "C29"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 3000, 60000
RULE = ("getsizeof of Discriminators, Wisards and ClusWisards is read after every step of random histories (learning new and known examples, unlearning, classification, mental images, saves); a reference model counts the RAM addresses stored so far. "
        "The size must grow by one and the same amount per newly stored address and by nothing else while no class or discriminator is created; copies and reloaded models must report the size of the original, "
        "and a model is at least as big as its discriminators together. Non-trivial: an address was stored; distinct by trace")
MIN = {"large_models": 8, "megabytes": 1, "sizes": 20000, "grown": 5000, "unchanged": 6000, "reloads": 2500, "unlearned": 400, "parts": 800, "new_parts": 2000, "clu": 500}
ASSUMPTIONS = ["the unit (bytes per address) and the size of an empty model are not specified; they are taken from a probe in the same process"]

UNIT = {}


def unit(c):
    """Bytes per stored address, from one RAM that learns one example."""
    t = c.t
    t.do("disc.new", "unit", 3, 3, {"mapping": [[0, 1, 2]]})
    a = t.do("disc.sizeof", "unit")
    t.do("disc.train", "unit", "101")
    b = t.do("disc.sizeof", "unit")
    t.do("disc.train", "unit", "011")
    d = t.do("disc.sizeof", "unit")
    c.check(0 < a < b < d and d - b == b - a, "unit", lambda: "sizes of a RAM with 0, 1 and 2 addresses: %d, %d, %d" % (a, b, d))
    t.do("del", "unit")
    return b - a


def stored(d):
    return sum(len(r) for r in d.rams)


def disc(c, u):
    t, rng = c.t, c.rng
    base = rng.choice(gen.BASES)
    a, e = sim.sizes(rng, base, huge=0.002)
    o = {"base": base, "ignoreZero": rng.random() < .4}
    if rng.random() < .5:
        o["mapping"] = gen.free_mapping(rng, e, base)
    sim.new_disc(c, t, "d", a, e, o)
    d = model.Disc(json.loads(t.do("disc.json", "d"))["mapping"], e, base, o["ignoreZero"])
    empty = t.do("disc.sizeof", "d")
    c.check(empty > 0, "empty", lambda: "an empty discriminator reports %d bytes" % empty)
    pool = [gen.image(rng, e, base) for _ in range(2)]
    last, learned, gone = 0, [], False
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        if r < .5:
            x = rng.choice(pool) if rng.random() < .5 else gen.mutate(rng, rng.choice(pool), base)
            pool.append(x)
            t.do("disc.train", "d", x)
            d.train(x)
            learned.append(x)
        elif r < .55 and learned and t.is_cxx:
            x = learned.pop(rng.randrange(len(learned)))
            t.do("disc.untrain", "d", x)
            d.untrain(x)
            gone = True
            c.count("unlearned")
            if rng.random() < .7:
                x = gen.image(rng, e, base)
                t.do("disc.train", "d", x)
                d.train(x)
                learned.append(x)
        elif r < .6:
            t.do("disc.classify", "d", gen.image(rng, e, base))
        elif r < .7:
            t.do(rng.choice(["disc.json", "disc.jsonConfig"]), "d")
        elif r < .75 and t.is_cxx:
            t.do("disc.mental", "d")
        elif r < .88:
            t.do("disc.load", "d", t.do("disc.json", "d"))
            c.count("reloads")
        else:
            t.do("disc.load", "x", t.do("disc.jsonConfig", "d"))
            c.eq(t.do("disc.sizeof", "x"), empty, "empty", "size of the untrained discriminator with the same mapping")
            if t.is_cxx:
                s = t.do("disc.sizeof", "d")
                t.do("disc.copy", "x", "d")
                c.eq(t.do("disc.sizeof", "x"), s, "copy", "size of a copy")
        n = stored(d)
        if gone:  # whether an address whose counter fell to 0 is still stored is taken from the saved text
            n = sum(len(r) for r in model.dec_rams(json.loads(t.do("disc.json", "d"))["data"], len(d.mapping), True))
        c.count("sizes")
        c.count("grown" if n > last else "unchanged")
        last = n
        c.eq(t.do("disc.sizeof", "d"), empty + u * n, "size", "size with %d addresses stored (%d bytes each, %d when empty)" % (n, u, empty))
    c.nontrivial = last > 0


class Follow:
    """Sizes of a Wisard / ClusWisard: parts (classes, discriminators) add a constant of their own, addresses u each."""

    def __init__(self, c, u, cls, h):
        self.c, self.u, self.cls, self.h, self.t = c, u, cls, h, c.t
        self.seen = None

    def view(self):
        """{part: mapping, addresses} from the saved text."""
        if self.cls == "wis":  # with the addresses whose counter fell to 0 by unlearning, where they are still stored
            return {("c", l): (d["mapping"], sum(len(r) for r in model.dec_rams(d["data"], len(d["mapping"]), True)))
                    for l, d in (json.loads(self.text())["classes"] or {}).items()}
        else:
            st = model.clu_state(self.text())
            ds = {("c", l, i): d for l, v in st["clusters"].items() for i, d in enumerate(v)}
            ds.update({("u", i): d for i, d in enumerate(st["unsup"])})
        return {k: (d["mapping"], sum(len(r) for r in d["rams"])) for k, d in ds.items()}

    def text(self):
        return self.t.do(self.cls + ".json", self.h)

    def step(self, what):
        c, u = self.c, self.u
        s, v = self.t.do(self.cls + ".sizeof", self.h), self.view()
        c.count("sizes")
        if self.seen is not None:
            s0, v0 = self.seen
            n, n0 = sum(x[1] for x in v.values()), sum(x[1] for x in v0.values())
            new = sorted(set(v) - set(v0), key=str)
            c.check(not set(v0) - set(v), "parts", lambda: "a class or discriminator disappeared: %s" % (sorted(v0),))
            if not new:
                c.count("grown" if n > n0 else "unchanged")
                c.eq(s - s0, u * (n - n0), "growth", "growth of the size after %s with %d new addresses of %d bytes" % (what, n - n0, u))
            else:
                c.count("new_parts", len(new))
                alone = 0
                for k in new:
                    self.t.do("disc.load", "part", json.dumps({"entrySize": max(max(r) for r in v[k][0] if r) + 1, "mapping": v[k][0], "base": 2, "ignoreZero": False, "count": 0}))
                    alone += self.t.do("disc.sizeof", "part")
                c.check(s - s0 >= alone + u * (n - n0), "growth", lambda: "the size grew by %d after %s, which made %d new discriminators of %d bytes together and stored %d addresses of %d bytes" % (s - s0, what, len(new), alone, n - n0, u))
                c.check(s - s0 <= alone + u * (n - n0) + sum(2000 + 8 * len(str(k)) for k in new), "growth", lambda: "the size grew by %d after %s, which made %d new discriminators of %d bytes together and stored %d addresses of %d bytes" % (
                    s - s0, what, len(new), alone, n - n0, u))
                c.nontrivial = True
        self.seen = (s, v)
        return s


def net(c, u):
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 3, 10, 256])
    a, e = sim.sizes(rng, base, huge=0.002)
    e = max(a, min(e, 40))
    a = min(a, e)
    labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3, 5]))
    ps = sim.protos(rng, e, base, 2)
    cls = rng.choice(["wis", "clu"])
    if cls == "wis":
        t.do("wis.new", "m", a, sim.wis_opts(rng, e, a, base, labs))
    else:
        c.count("clu")
        t.do("clu.new", "m", a, *sim.clu_params(rng), sim.clu_opts(rng, e, a, base))
    f = Follow(c, u, cls, "m")
    f.step("nothing")
    pool, known = [], []
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        k = rng.choice([1, 1, 2, 4])
        xs = [rng.choice(pool) if pool and rng.random() < .4 else sim.near(rng, ps, base, .3) for _ in range(k)]
        what = "learning"
        if r < .55:
            pool += xs
            if cls == "clu" and rng.random() < .4:
                t.do("clu.trainU", "m", xs)
            else:
                ys = [rng.choice(labs) for _ in xs]
                t.do(cls + ".train", "m", xs, ys)
                known += zip(xs, ys)
        elif r < .65 and cls == "wis" and known:
            what = "exchange"
            k = rng.choice([1, 1, 2])
            p = [known.pop(rng.randrange(len(known))) for _ in range(min(k, len(known)))]
            t.do("wis.lmo", "m", [x for x, _ in p], [y for _, y in p])
            c.count("unlearned")
            if rng.random() < .7:
                known += [(sim.near(rng, ps, base, .3), y) for _, y in p]
                t.do("wis.train", "m", [x for x, _ in known[-len(p):]], [y for _, y in known[-len(p):]])
        elif r < .75:
            what = "reading"
            t.do(*rng.choice([[cls + ".classify", "m", xs], [cls + ".json", "m"], [cls + ".jsonConfig", "m"], ["wis.mental" if cls == "wis" else "clu.mentals", "m"]]))
        else:
            s = t.do(cls + ".sizeof", "m")
            t.do(cls + ".load", "x", t.do(cls + ".json", "m"))
            c.eq(t.do(cls + ".sizeof", "x"), s, "reload", "size of the reloaded model")
            c.count("reloads")
            if t.is_cxx:
                t.do(cls + ".copy", "x", "m")
                c.eq(t.do(cls + ".sizeof", "x"), s, "copy", "size of a copy")
            what = "saving"
        f.step(what)
    s, v = f.seen
    c.count("parts", len(v))
    c.check(s > 0 and s >= u * sum(x[1] for x in v.values()), "parts", lambda: "a model reports %d bytes but stores %d addresses" % (s, sum(x[1] for x in v.values())))


def many(c, u):
    """Clusters of hundreds of discriminators, models of megabytes."""
    t, rng = c.t, c.rng
    if rng.random() < .5:
        cls, n, e = "clu", rng.choice([150, 300, 500]), 16
        t.do("clu.new", "m", 2, 1.0, 1, 10000, {})
        xs = [gen.image(rng, e, 2) for _ in range(n)]
        ys = ["a" if rng.random() < .95 else "b" for _ in xs]
    else:
        cls, n, e = "wis", rng.choice([70, 150, 300]), rng.choice([16, 2048, 2048, 2048])
        t.do("wis.new", "m", rng.choice([2, 8, 16]), {})
        xs = [gen.image(rng, e, 2) for _ in range(n)]
        ys = ["c%d" % (i % rng.choice([n, n, 60])) for i in range(n)]
    f = Follow(c, u, cls, "m")
    f.step("nothing")
    k = 0
    while k < n:
        j = min(n, k + rng.choice([25, 60, 120]))
        if cls == "clu" and rng.random() < .4:
            t.do("clu.trainU", "m", xs[k:j])
        else:
            t.do(cls + ".train", "m", xs[k:j], ys[k:j])
        s = f.step("learning")
        k = j
    t.do(cls + ".load", "x", f.text())
    c.eq(t.do(cls + ".sizeof", "x"), s, "reload", "size of the reloaded model")
    c.count("large_models", len(f.seen[1]) > 60)
    c.count("megabytes", s > 1 << 20)


def case(c):
    u = unit(c)
    if c.every(211):
        many(c, u)
        c.sample = {"unit": u}
        return
    (disc if c.rng.random() < .4 else net)(c, u)
    c.sample = {"unit": u}
