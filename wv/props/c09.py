"""C09: file-backed saves are complete and never overwrite one another."""
import hashlib
import json
import os

from wv import gen, model, scale, sim

ID = "C09"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 1500, 50000
RULE = ("several Wisard, ClusWisard and Discriminator objects save to equal or different prefixes in a private directory at equal or moving virtual clock values and equal RNG states, "
        "also from a second process, interleaved with training; before and after every save all files are hashed, new files must carry the prefix, and every returned JSON is loaded "
        "again at the end and must give exactly the state recorded when it was returned. Non-trivial: two or more saves compared; distinct by request trace")
MIN = {"many_classes": 4, "wide_rams": 1, "many_saves": 200, "saves": 5000, "saves_with_files": 2500, "files_checked": 20000, "reloads_of_old_saves": 5000, "equal_rng_saves": 1500, "second_process": 400, "clu_saves": 800, "similar_labels": 200, "long_paths": 40}
ASSUMPTIONS = ["the file system itself keeps what was written"]

SIMILAR = [["a/b", "a_b", "a\\b"], ["x", "x__y"], ["0", "a__0"], ["unsupervised_cluster__", "u"], ["a", "A"], ["c.wpkds", "c.wdpkg"], ["a/b/../c", "a_b_.._c"], ["é", "e"],
           ["", "_"], ["a.b", "a#b"], ["..", "."]]
PREFIX = ["", "p", "model_", "p", "a.b#c", "m.wdpkg", "é犬", "sub/", "sub/x", "-x", "p ", "model_0__", "%s"]


def tree(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as fd:
                out[os.path.relpath(p, d)] = hashlib.blake2b(fd.read(), digest_size=12).digest()
    return out


class W:
    op = "wis"
    learned = False

    def __init__(self, c, t, h):
        rng = c.rng
        self.c, self.t, self.h = c, t, h
        self.base = rng.choice([2, 2, 3, 256])
        self.a, self.e = sim.sizes(rng, self.base, huge=0.003)
        self.labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3]), files=True)
        if rng.random() < .35:
            self.labs = list(rng.choice(SIMILAR))
            c.count("similar_labels")
        if self.e > 1500:  # keeps the case short
            self.labs = self.labs[:1]
        self.many = c.every(211)
        if self.many:
            self.base, self.a, self.e = 2, 2, rng.choice([4, 6])
            self.labs = gen.labels(rng, rng.choice([257, 300]), simple=True)
            c.count("many_classes")
        t.do("wis.new", h, self.a, sim.wis_opts(rng, self.e, self.a, self.base, self.labs))

    def learn(self):
        rng = self.c.rng
        n = len(self.labs) if self.many else rng.randint(1, 5)
        self.t.do("wis.train", self.h, [gen.image(rng, self.e, self.base) for _ in range(n)], self.labs if self.many else [rng.choice(self.labs) for _ in range(n)])

    def decode(self, text, cwd):
        return model.wis_state(text, cwd)

    def probe(self, t, h, q):
        return [t.do("wis.classify", h, q), t.do("wis.mental", h), t.do("wis.jsonConfig", h)]


class C(W):
    op = "clu"

    def __init__(self, c, t, h):
        rng = c.rng
        self.c, self.t, self.h = c, t, h
        self.base = rng.choice([2, 2, 3])
        self.a, self.e = sim.sizes(rng, self.base, huge=0.003)
        self.labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3]), files=True)
        if rng.random() < .35:
            self.labs = list(rng.choice(SIMILAR))
            c.count("similar_labels")
        if self.e > 1500:  # keeps the case short
            self.labs = self.labs[:1]
        self.many = c.every(211)
        if self.many:
            self.base, self.a, self.e = 2, 2, rng.choice([4, 6])
            self.labs = gen.labels(rng, rng.choice([257, 300]), simple=True)
            c.count("many_classes")
        t.do("clu.new", h, self.a, rng.choice([0.1, 0.5, 0.9]), rng.randint(1, 10), rng.choice([1, 3, 12]), sim.clu_opts(rng, self.e, self.a, self.base))

    def learn(self):
        rng = self.c.rng
        n = len(self.labs) if self.many else rng.randint(1, 6)
        xs = [gen.image(rng, self.e, self.base) for _ in range(n)]
        if self.many:
            self.t.do("clu.train", self.h, xs, self.labs)
        elif rng.random() < .3:
            self.t.do("clu.trainU", self.h, xs)
        else:
            self.t.do("clu.train", self.h, xs, [rng.choice(self.labs) for _ in range(n)])

    def decode(self, text, cwd):
        return model.clu_state(text, cwd)

    def probe(self, t, h, q):
        return [t.do("clu.classify", h, q), t.do("clu.classifyU", h, q), t.do("clu.mentals", h), t.do("clu.jsonConfig", h)]


class D(W):
    op = "disc"

    def __init__(self, c, t, h):
        rng = c.rng
        self.c, self.t, self.h = c, t, h
        self.base = rng.choice(gen.BASES)
        self.a, self.e = sim.sizes(rng, self.base, huge=0.003)
        sim.new_disc(c, t, h, self.a, self.e, {"base": self.base})

    def learn(self):
        self.t.do("disc.train", self.h, gen.image(self.c.rng, self.e, self.base))

    def decode(self, text, cwd):
        return model.disc_state(json.loads(text), cwd)

    def probe(self, t, h, q):
        return [t.do("disc.classifyM", h, q), t.do("disc.jsonConfig", h)]


def wide(c):
    d = c.scratch()
    w = scale.Wide(c)
    w.t.do("chdir", d)
    text = w.json("d", True, "p")
    w.learn(w.xs[:10])
    later = w.json("d", True, "p")
    c.check(sum(os.path.getsize(os.path.join(d, f)) for f in os.listdir(d)) > 10 ** 6, "no-file", "the files are too small for the learned content")
    w.load("e", later)
    w.state("e", "state reloaded from files")
    for x in w.xs[:10]:
        w.d.untrain(x)
    w.load("e", text)
    w.state("e", "state reloaded from the earlier files")


def many(c):
    """One small model saved again and again."""
    rng, t = c.rng, c.t
    d = c.scratch()
    o = rng.choice([W, C, D])(c, t, "o")
    t.do("chdir", d)
    o.learn()
    n = 1500 if c.thorough else 100
    want, texts = [], []
    for i in range(n):
        if i % (n // 10) == 0:
            o.learn()
            t.do("crand", 7)
        want.append(o.decode(t.do(o.op + ".json", "o"), d))
        texts.append(t.do(o.op + ".json", "o", True, "p"))
    for w, x in zip(want, texts):
        c.count("files_checked")
        c.eq(o.decode(x, d), w, "reload", "state in the files of one of %d saves under one prefix" % n)
    c.count("many_saves", n)
    c.nontrivial = True
    c.sample = {"saves": n, "kind": o.op}


def case(c):
    rng = c.rng
    if c.every(293):
        return wide(c)
    if c.every(307):
        return many(c)
    d = c.scratch()
    os.mkdir(os.path.join(d, "sub"))
    ts = [c.t]
    if rng.random() < .3:
        ts.append(c.target(c.kind, 1))
    for t in ts:
        t.do("chdir", d)
    fixed = rng.random() < .7
    clock, crand = rng.randrange(1, 4 * 10 ** 9), rng.randrange(1 << 31)
    for _ in range(rng.randint(0, 2)):
        open(os.path.join(d, rng.choice(["p", "model_", "q.wdpkg", "sub/x.wdpkg"])), "w").write(rng.choice(["", "user data", "AAAA"]))
    prefixes = [rng.choice(PREFIX) if rng.random() < .7 else "".join(rng.choice("ab01._-# %~") for _ in range(rng.randint(1, 12))) for _ in range(rng.choice([1, 1, 2]))]
    absolute = rng.random() < .3
    if rng.random() < .08:  # long paths
        w = rng.choice([60, 90, 200])
        p = "/".join(["d" * w] * rng.choice([3, 4, 8, 3300 // w]))
        os.makedirs(os.path.join(d, p))
        prefixes[0] = p + "/" + prefixes[0].replace("/", "")
        c.count("long_paths")
    objs = []
    for i in range(rng.randint(1, 3)):
        objs.append(rng.choice([W, W, C, D])(c, rng.choice(ts), "o%d" % i))
    saves = []
    for _ in range(rng.randint(2, 7)):
        o = rng.choice(objs)
        if rng.random() < .6:
            o.learn()
            o.learned = True
        if fixed:  # every save draws its random names from the same state
            o.t.do("clock", clock)
            o.t.do("crand", crand)
            c.count("equal_rng_saves")
        p = rng.choice(prefixes)
        if absolute:
            p = os.path.join(d, p) if p else d + "/"
        before = tree(d)
        plain = o.t.do(o.op + ".json", o.h)
        q = [gen.image(rng, o.e, o.base) for _ in range(3)]
        ans = o.probe(o.t, o.h, q)
        text = o.t.do(o.op + ".json", o.h, True, p) if p or rng.random() < .5 else o.t.do(o.op + ".json", o.h, True)
        after = tree(d)
        for f, hsh in before.items():
            c.count("files_checked")
            c.check(after.get(f) == hsh, "modified", lambda: "saving to prefix %r changed the existing file %r" % (p, f))
        rel = os.path.relpath(p, d) if absolute and p != d + "/" else ("" if absolute else p)
        if p.endswith("/") and rel:
            rel = rel.rstrip("/") + "/"
        for f in set(after) - set(before):
            c.check(f.startswith(rel), "prefix", lambda: "the file %r does not start with the prefix %r" % (f, rel))
        if o.learned:
            c.check(set(after) - set(before), "no-file", lambda: "saving a trained model to prefix %r made no new file" % p)
            c.count("saves_with_files")
        # complete: the JSON and files describe the same as the self-contained JSON
        c.eq(o.decode(text, d), o.decode(plain, d), "content", "saved content / content of json()")
        c.eq(o.decode(o.t.do(o.op + ".json", o.h), d), o.decode(plain, d), "changed", "state of the object after saving")
        saves.append((o, text, o.decode(plain, d), q, ans))
        c.count("saves")
        c.count("clu_saves", o.op == "clu")
        if len(ts) > 1:
            c.count("second_process")
        if rng.random() < .3:
            check(c, rng.choice(saves), ts, d)
    for s in saves:
        check(c, s, ts, d)
    c.nontrivial = True
    c.sample = {"saves": len(saves), "objects": [o.op for o in objs], "prefixes": prefixes, "same_clock_and_rng": fixed}


def check(c, save, ts, d):
    o, text, want, q, ans = save
    t = c.rng.choice(ts)
    t.do(o.op + ".load", "back", text)
    c.eq(o.decode(t.do(o.op + ".json", "back"), d), want, "reload", "state reloaded from an earlier save")
    c.eq(o.probe(t, "back", q), ans, "reload-behaviour", "answers of the model reloaded from an earlier save")
    t.do("del", "back")
    c.count("reloads_of_old_saves")
