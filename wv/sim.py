"""Lockstep of a model object in a target with its reference model."""
import json

from . import gen, model
from .target import Refused

REPORT = ("returnConfidence", "returnActivationDegree", "returnClassesDegrees")


def sizes(rng, base, small=True, huge=0, mid=True):
    """entry and address size; mostly small, sometimes at the limits; huge: rate of entries beyond 16 bits."""
    mx = gen.max_addr(base)
    if huge and rng.random() < huge:
        return min(mx, rng.choice([2, 3, 8])), rng.choice([9000, 66000, 70001, 140000])
    r = rng.random()
    if mid and r > .99:  # the size of a real data set
        return min(mx, rng.choice([2, 3, 4, 8, 16, 28])), rng.choice([257, 784, 1025, rng.randint(300, 1500), 4100])
    if r < .75 and small:
        a = rng.randint(2, min(mx, 6))
        e = a * rng.randint(1, 8) + rng.choice([0, 0, rng.randrange(a)])
    else:
        a = gen.addr_size(rng, base)
        e = a * rng.randint(1, 4) + rng.choice([0, 0, rng.randrange(a)])
    return a, e


def nrams(e, a, complete):
    return e // a + (1 if complete and e % a else 0)


def wis_opts(rng, e, a, base, labels=(), conf=True, report=False, explicit=None):
    """Random Wisard options. explicit: True -> every class has a known mapping (mapping / indexes)."""
    o = {"base": base} if base != 2 or rng.random() < .2 else {}
    for k, p in (("ignoreZero", .35), ("bleachingActivated", .5), ("completeAddressing", .6)):
        if rng.random() < p:
            o[k] = rng.random() < .5
    if rng.random() < .1:
        o["searchBestConfidence"] = rng.random() < .5
    r = rng.random()
    if explicit or (explicit is None and r < .4):
        if explicit and r < .4:
            ix = list(range(e))
            rng.shuffle(ix)
            o["indexes"] = ix
        else:
            ls = [l for l in labels if explicit or rng.random() < .7]
            same = gen.shuffled_mapping(rng, e, a) if rng.random() < .5 else None
            o["mapping"] = {l: (same or gen.free_mapping(rng, e, base, cap=8)) for l in ls}
    elif explicit is None and r < .55:
        ix = list(range(e))
        rng.shuffle(ix)
        o["indexes"] = ix
    if conf and rng.random() < .35:
        o["confidence"] = rng.randint(1, max(1, nrams(e, a, o.get("completeAddressing", True))))
    if report:
        for k in REPORT:
            if rng.random() < .4:
                o[k] = rng.random() < .7
    return o


def check_shape(c, mp, e, a, o, what):
    """A new discriminator follows the configuration of its model (C02 has the full rules)."""
    c.count("shapes_checked")
    if o.get("indexes"):
        ix = o["indexes"]
        c.eq(mp, [ix[i * a:(i + 1) * a] for i in range(e // a)], "mapping", what + " from indexes")
    else:
        c.eq([len(r) for r in mp], [a] * nrams(e, a, o.get("completeAddressing", True)), "mapping", what + ": sizes of the RAMs")


class WisSim:
    """A Wisard handle plus model. Mappings of new classes are taken from the JSON (C02 checks them)."""

    def __init__(self, c, t, h, a, e, opts, create=True):
        self.c, self.t, self.h, self.a, self.e, self.o = c, t, h, a, e, dict(opts)
        self.base = opts.get("base", 2)
        self.m = model.Wis(self.base, opts.get("ignoreZero", False), opts.get("bleachingActivated", True), opts.get("confidence", 1))
        if create:
            t.do("wis.new", h, a, opts)

    def clone(self, h, t=None):
        s = WisSim(self.c, t or self.t, h, self.a, self.e, self.o, create=False)
        s.m.classes = {k: d.copy() for k, d in self.m.classes.items()}
        return s

    def adopt(self, labels):
        new = [l for l in labels if l not in self.m.classes]
        if not new:
            return
        cl = json.loads(self.t.do("wis.json", self.h))["classes"] or {}
        for l in new:
            if l not in self.m.classes:
                if l not in cl:
                    self.c.fail("class-missing", "class %r was learned but is not in json()" % l)
                mp = cl[l]["mapping"]
                if "mapping" in self.o and l in self.o["mapping"]:
                    self.c.eq(mp, self.o["mapping"][l], "mapping", "mapping of the new class %r" % l)
                else:
                    check_shape(self.c, mp, self.e, self.a, self.o, "mapping of the new class %r" % l)
                self.m.add_class(l, mp, self.e)

    def learn(self, xs, ys):
        self.adopt(ys)
        for x, y in zip(xs, ys):
            self.m.classes[y].train(x)

    def train(self, xs, ys):
        self.t.do("wis.train", self.h, xs, ys)
        self.learn(xs, ys)

    def unlearn(self, x, y):
        if y in self.m.classes:
            self.m.classes[y].untrain(x)

    def labels_of(self, reply):
        return [r["class"] if isinstance(r, dict) else r for r in reply]

    def classify(self, xs, what="predicted classes"):
        got = self.labels_of(self.t.do("wis.classify", self.h, xs))
        self.c.count("predictions", len(xs))
        want = [self.m.label(x) for x in xs]
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), 0)
            self.c.fail("prediction", "%s of %s: got %r, expected %r; scores at threshold %s: %s" % (
                what, xs[i] if i < len(xs) else None, got[i:i + 1], want[i:i + 1], self.m.predict(xs[i])[2], sorted(self.m.predict(xs[i])[0].items())[:20]))
        self.c.count("oracle_evaluations", len(xs))

    def state(self, what="learned state", cwd=None):
        got = model.wis_state(self.t.do("wis.json", self.h), cwd)
        self.c.eq(got, self.m.state(), "state", what)
        self.c.count("states_compared")

    def mental(self, what="mental images"):
        want = {k: d.mental() for k, d in self.m.classes.items()}
        got = self.t.do("wis.mental", self.h)
        self.c.eq(got, want, "mental", what)
        self.c.count("images_compared", len(want))

    def votes(self, xs, what="votes"):
        """Votes of the discriminators as loaded from the JSON of the classes."""
        js = json.loads(self.t.do("wis.json", self.h))
        for k, d in self.m.classes.items():
            dj = dict(js["classes"][k], base=js["base"], ignoreZero=js["ignoreZero"])
            self.t.do("disc.load", "_v", json.dumps(dj))
            self.c.eq(self.t.do("disc.classifyM", "_v", xs), [d.votes(x) for x in xs], "votes", "%s of class %r" % (what, k))
        self.t.do("del", "_v")

    def probes(self, pool, n):
        return probes(self.c.rng, pool, self.e, self.base, n)


def probes(rng, pool, e, base, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if pool and r < .35:
            out.append(rng.choice(pool))
        elif pool and r < .8:
            out.append(gen.mutate(rng, rng.choice(pool), base))
        else:
            out.append(gen.image(rng, e, base))
    return out


def protos(rng, e, base, n):
    return [gen.image(rng, e, base) for _ in range(n)]


def near(rng, ps, base, noise=.15):
    x = gen.unpack(rng.choice(ps))
    for p in range(len(x)):
        if rng.random() < noise:
            x[p] = rng.randrange(base)
    return gen.pack(x, base)


class CluSim:
    """A ClusWisard handle plus model: clusters {label: model.Clus}, unsup: model.Clus or None."""

    def __init__(self, c, t, h, a, e, ms, th, limit, opts, create=True):
        self.c, self.t, self.h, self.a, self.e, self.ms, self.th, self.limit, self.o = c, t, h, a, e, ms, th, limit, dict(opts)
        self.base, self.iz = opts.get("base", 2), opts.get("ignoreZero", False)
        self.bl, self.conf = opts.get("bleachingActivated", True), opts.get("confidence", 1)
        self.clusters, self.unsup = {}, None
        if create:
            t.do("clu.new", h, a, ms, th, limit, opts)

    def clone(self, h, t=None):
        s = CluSim(self.c, t or self.t, h, self.a, self.e, self.ms, self.th, self.limit, self.o, create=False)
        s.clusters = {k: s.copyc(v) for k, v in self.clusters.items()}
        s.unsup = s.copyc(self.unsup) if self.unsup else None
        return s

    def copyc(self, v):
        n = self.clus(list(v.mappings))
        n.discs = [d.copy() for d in v.discs]
        return n

    def clus(self, mappings):
        return model.Clus(self.e, mappings, self.ms, self.th, self.limit, self.base, self.iz)

    def refresh(self):
        """Mappings of the discriminators the library has now."""
        s = model.clu_state(self.t.do("clu.json", self.h))
        self.got = s
        self.maps = {l: [d["mapping"] for d in ds] for l, ds in s["clusters"].items()}
        self.umaps = [d["mapping"] for d in s["unsup"]]
        for l, ms in list(self.maps.items()) + [(None, self.umaps)]:
            have = self.unsup if l is None else self.clusters.get(l)
            for i in range(len(have.discs) if have else 0, len(ms)):
                check_shape(self.c, ms[i], self.e, self.a, self.o, "mapping of the new discriminator %d of %s" % (i, "the unsupervised cluster" if l is None else repr(l)))
        for l, cl in self.clusters.items():
            cl.mappings = self.maps.get(l, [])
        if self.unsup:
            self.unsup.mappings = self.umaps

    def one(self, x, l):
        if l not in self.clusters:
            self.clusters[l] = self.clus(self.maps.get(l, []))
        self.c.count("step_" + self.clusters[l].train(x))

    def train(self, xs, ys, send=True):
        if send:
            self.t.do("clu.train", self.h, xs, ys)
        self.refresh()
        for x, y in zip(xs, ys):
            self.one(x, y)

    def train_unsup(self, xs, send=True):
        if send:
            self.t.do("clu.trainU", self.h, xs)
        if not xs:
            return
        self.refresh()
        if self.unsup is None:
            self.unsup = self.clus(self.umaps)
        for x in xs:
            self.c.count("ustep_" + self.unsup.train(x))

    def train_semi(self, xs, ys, send=True):
        """ys: [[index, label]]"""
        if send:
            self.t.do("clu.trainSemi", self.h, xs, ys)
        self.refresh()
        d = dict((i, l) for i, l in ys)
        for i, x in enumerate(xs):
            if i in d:
                self.one(x, d[i])
        for i, x in enumerate(xs):
            if i not in d:
                l = self.label(x)
                self.c.count("self_labelled")
                self.one(x, l)

    def discs(self):
        return {l: cl.discs for l, cl in self.clusters.items()}

    def label(self, x):
        return model.clu_predict(self.discs(), x, self.bl, self.conf)[2]

    def ulabel(self, x):
        v = {str(i): d.votes(x) for i, d in enumerate(self.unsup.discs)} if self.unsup else {}
        return model.bleach(v, self.bl, 1)[1]

    def state(self, what="state"):
        got = model.clu_state(self.t.do("clu.json", self.h))
        want = {"clusters": {l: [model.model_state(d) for d in cl.discs] for l, cl in self.clusters.items()},
                "unsup": [model.model_state(d) for d in self.unsup.discs] if self.unsup else []}
        self.c.eq(sorted(got["clusters"]), sorted(want["clusters"]), "clusters", what + ": labels")
        for l in want["clusters"]:
            self.cmp(got["clusters"][l], want["clusters"][l], "%s: cluster %r" % (what, l))
        self.cmp(got["unsup"], want["unsup"], what + ": unsupervised cluster")
        self.c.count("states_compared")

    def cmp(self, g, w, what):
        self.c.eq(len(g), len(w), "discriminators", what + ": number of discriminators (counts %s / %s)" % (
            [d["count"] for d in g], [d["count"] for d in w]))
        self.c.eq([d["count"] for d in g], [d["count"] for d in w], "counts", what + ": examples learned per discriminator")
        for i, (a, b) in enumerate(zip(g, w)):
            self.c.eq(a, b, "content", "%s: discriminator %d" % (what, i))

    def classify(self, xs, what="predicted classes"):
        got = [r["class"] if isinstance(r, dict) else r for r in self.t.do("clu.classify", self.h, xs)]
        self.c.count("predictions", len(xs))
        self.c.eq(got, [self.label(x) for x in xs], "prediction", what)

    def classify_unsup(self, xs, what="unsupervised predictions"):
        self.c.count("unsup_predictions", len(xs))
        self.c.eq(self.t.do("clu.classifyU", self.h, xs), [self.ulabel(x) for x in xs], "unsup-prediction", what)

    def mental(self, what="mental images"):
        want = {l: [d.mental() for d in cl.discs] for l, cl in self.clusters.items()}
        self.c.eq(self.t.do("clu.mentals", self.h), want, "mental", what)
        self.c.count("images_compared", sum(len(v) for v in want.values()))


def clu_opts(rng, e, a, base, report=False):
    o = {"base": base} if base != 2 or rng.random() < .2 else {}
    for k, p in (("ignoreZero", .3), ("bleachingActivated", .4), ("completeAddressing", .5)):
        if rng.random() < p:
            o[k] = rng.random() < .5
    if rng.random() < .25:
        ix = list(range(e))
        rng.shuffle(ix)
        o["indexes"] = ix
    if rng.random() < .3:
        o["confidence"] = rng.randint(1, max(1, nrams(e, a, o.get("completeAddressing", True))))
    if rng.random() < .08:
        o["searchBestConfidence"] = rng.random() < .5
    if report:
        for k in REPORT:
            if rng.random() < .4:
                o[k] = rng.random() < .7
    return o


MS = [0, 0.0, 0.1, 0.25, 0.3, 0.5, 0.5, 0.6, 0.75, 0.8, 0.9, 1.0, 1]
TH = [1, 1, 2, 3, 4, 5, 8, 10, 16, 30, 64, 100, 1000, 2 ** 31 - 1]
BIG = [127, 128, 255, 256, 257, 258, 300, 512, 768, 32768, 65535, 65536, 65537, 65538, 2 ** 24 + 1]  # small or negative when cut to 8 or 16 bits


def clu_params(rng):
    ms = rng.choice(MS) if rng.random() < .85 else rng.choice([rng.random(), round(rng.random(), 2)])
    return ms, rng.choice(TH if rng.random() < .75 else BIG), rng.choice([1, 2, 2, 3, 4, 5, 8, 12, 20, 100] if rng.random() < .85 else BIG)


def new_disc(c, t, h, a, e, o, attempt=False):
    """Creates a Discriminator with options o by one of the equivalent constructors."""
    iz, base = o.get("ignoreZero", False), o.get("base", 2)
    q = ["disc.new", h, a, e, o]
    if t.is_cxx and c.rng.random() < .4:
        if o.get("mapping"):
            q = ["disc.newMap", h, o["mapping"], e, iz, base]
        elif o.get("indexes"):
            q = ["disc.newIdx", h, o["indexes"], a, e, iz, base]
        else:
            q = ["disc.newPlain", h, a, e, iz, o.get("completeAddressing", True), base]
    return t.attempt(*q) if attempt else t.do(*q)
