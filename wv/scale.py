"""Discriminators whose RAMs hold more addresses than 16 bits count."""
import json

from wv import gen, model


class Wide:
    def __init__(self, c, wis=None):
        rng, t = c.rng, c.t
        self.c, self.t = c, t
        self.wis = rng.random() < .5 if wis is None else wis
        self.base, self.a = rng.choice([(2, 17), (2, 20), (2, 33), (2, 64), (16, 9), (256, 4), (65536, 3)])
        m = list(range(self.a))
        rng.shuffle(m)
        self.map = [m, m[::-1]] if rng.random() < .5 else [m[:3], m]
        self.iz = rng.random() < .3
        o = {"base": self.base, "ignoreZero": self.iz, "mapping": self.map}
        self.d = model.Disc(self.map, self.a, self.base, self.iz)
        n = rng.randint(66000, 75000)
        hi = self.base - 1
        self.xs = [gen.pack([rng.randint(0, hi) for _ in range(self.a)], self.base) for _ in range(n)]
        if self.wis:
            o["mapping"] = {"x": self.map}
            t.do("wis.new", "d", self.a, o)
        else:
            t.do("disc.new", "d", self.a, self.a, o)
        self.learn(self.xs)
        c.count("wide_rams")
        c.nontrivial = True
        c.sample = {"base": self.base, "address": self.a, "examples": n, "wisard": self.wis}

    def learn(self, xs, h="d"):
        if self.wis:
            self.t.do("wis.train", h, xs, ["x"] * len(xs))
        else:
            self.t.do("disc.trainB", h, xs)
        for x in xs:
            self.d.train(x)

    def unlearn(self, xs, h="d"):
        if self.wis:
            self.t.do("wis.lmo", h, xs, ["x"] * len(xs))
        else:
            for x in xs:
                self.t.do("disc.untrain", h, x)
        for x in xs:
            self.d.untrain(x)

    def json(self, h="d", *more):
        return self.t.do("wis.json" if self.wis else "disc.json", h, *more)

    def load(self, h, text):
        self.t.do("wis.load" if self.wis else "disc.load", h, text)

    def data(self):
        j = json.loads(self.json())
        return (j["classes"]["x"] if self.wis else j)["data"]

    def decode(self, text, cwd="."):
        return model.wis_state(text, cwd)["x"] if self.wis else model.disc_state(json.loads(text), cwd)

    def state(self, h="d", what="state"):
        got, want = self.decode(self.json(h)), model.model_state(self.d)
        self.c.check(got == want, "state", lambda: "%s: RAMs hold %s addresses, expected %s; count %s, expected %s" % (
            what, [len(r) for r in got["rams"]] if "rams" in got else "?", [len(r) for r in want["rams"]] if "rams" in want else "?", got.get("count"), want.get("count")))

    def queries(self, n=1500):
        rng = self.c.rng
        q = rng.sample(self.xs, n)
        return q + [gen.mutate(rng, x, self.base) for x in q[:200]]

    def mental(self, h="d", what="mental image"):
        got = self.t.do("wis.mental", h)["x"] if self.wis else self.t.do("disc.mental", h)
        self.c.eq(got, self.d.mental(), "mental", what)

    def votes(self, h="d", what="votes"):
        q = self.queries()
        for x, g in zip(q, self.t.do("disc.classifyM", h, q)):
            w = self.d.votes(x)
            self.c.count("wide_votes", len(w))
            self.c.check(g == w, "vote", lambda: "%s of %s after %d examples: got %s, expected %s" % (what, x, self.d.count, g, w))
