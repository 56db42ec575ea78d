"""C27: the committed C++ header and the Python module behave identically."""
import importlib
import json
import os

from wv import build, gen, model, run, sim
from wv.props.c21 import Prog
from wv.target import NoOp, Refused, short

ID = "C27"
KINDS = ["hdr"]
EXTRA = ["py"]
EXTRA_DIFF = ["gen"]  # only if the committed header is not what generate_include.py makes of src/
QUICK, THOROUGH = 4000, 60000
TIMEOUT = 120
RULE = ("the same random programs (explicit mappings or mappings exchanged as saved text; valid and invalid calls of every method present on both sides) run on the committed single-file header, compiled with sanitizers, "
        "and on the Python module built from src/; every reply is compared: votes, labels, mental images, transforms, sizes, saved texts, configurations, refusals and their messages; saved texts and files of either side are loaded by both. "
        "Kernel canvases are compared with every option where plain canvases of the same clock and random state agree. Non-trivial: at least 10 compared calls; distinct by program")
MIN = {"compared": 40000, "refusals": 2000, "crossed_loads": 1500, "crossed_files": 500, "transforms_compared": 1500, "predictions_compared": 3000, "mapping_and_indexes": 150, "default_canvases": 400, "aligned": 400}
ASSUMPTIONS = ["Python-only argument conversions (types) are outside the comparison", "reported degrees exist in Python only (C04)"]

JSONS = ("wis.json", "clu.json", "disc.json", "wis.jsonConfig", "clu.jsonConfig", "disc.jsonConfig")


class Both:
    """Runs every request on both sides and compares the replies; returns the reply of the header."""
    kind, is_py, is_cxx = "both", True, False

    def __init__(self, c, a, b, da, db):
        self.c, self.a, self.b, self.rng = c, a, b, c.rng
        self.da, self.db = da, db
        self.alt = {}

    def do(self, *q):
        if q[0] == "caps":
            return []
        r = self.attempt(*q)
        if isinstance(r, Refused):
            raise r
        return r

    def attempt(self, *q):
        c, rng = self.c, self.rng
        q = list(q)
        qa = qb = q
        back = []
        if q[0].endswith(".load") or q[0] == "rdh.new":
            if q[2] in self.alt and rng.random() < .5:
                qa = qb = [q[0], q[1], self.alt[q[2]]]
                t, d, back = self.a, self.db, [(self.a, self.da)]
            else:
                t, d, back = self.b, self.da, [(self.b, self.db)]
            t.do("chdir", d)  # the files of the side that saved
            c.count("crossed_loads")
            if ".wpkds" in str(q[2]) or ".wdpkg" in str(q[2]):
                c.count("crossed_files")
        x, y = self.a.attempt(*qa), self.b.attempt(*qb)
        for t, d in back:
            t.do("chdir", d)
        c.count("compared")
        if q[0] == "disc.new" and not isinstance(x, Refused) and not isinstance(y, Refused) and not (q[4] or {}).get("mapping") and not (q[4] or {}).get("indexes"):
            # a random mapping: the other side gets the same one
            s, d = (self.a, self.b) if rng.random() < .5 else (self.b, self.a)
            d.do("disc.load", q[1], s.do("disc.json", q[1]))
            c.count("crossed_loads")
        if isinstance(x, Refused) or isinstance(y, Refused):
            c.count("refusals")
            c.check(isinstance(x, Refused) and isinstance(y, Refused), "refusal", lambda: "%s: header %s, Python %s" % (short(q), show(x), show(y)))
            if x.typ == "Exception":
                c.eq(y.msg, x.msg, "message", "message of the refusal of %s in Python (expected: header's)" % short(q))
            return x
        if q[0] in JSONS and isinstance(x, str) and isinstance(y, str):
            self.alt[x] = y
            c.eq(norm(y, self.db), norm(x, self.da), "saved", "%s in Python (expected: header's)" % short(q))
        elif q[0] == "rdh.get1":
            c.eq(sorted(y), sorted(x), "reply", "%s in Python (expected: header's)" % short(q))
        elif q[0] in ("rdh.data", "rdh.data1"):
            self.alt[x] = y
            c.eq([sorted(model.dec_ram(p, True).items()) for p in y.split(".")], [sorted(model.dec_ram(p, True).items()) for p in x.split(".")], "reply", "%s in Python (expected: header's)" % short(q))
        elif q[0] in ("wis.classify", "wis.classifyDS", "clu.classify"):
            c.eq([e["class"] if isinstance(e, dict) else e for e in y], x, "prediction", "%s in Python (expected: header's)" % short(q))
            c.count("predictions_compared", len(x))
        elif not q[0].endswith("sizeof"):
            c.eq(y, x, "reply", "%s in Python (expected: header's)" % short(q))
        return x

    def batch(self, qs):
        return [self.attempt(*q) for q in qs]


def show(r):
    return "refused (%s)" % r.msg if isinstance(r, Refused) else "replied " + short(r)


def norm(text, d):
    j = json.loads(text)

    def walk(v):
        if isinstance(v, dict):
            return {k: rams(w) if k == "data" and isinstance(w, str) else walk(w) for k, w in v.items()}
        return [walk(w) for w in v] if isinstance(v, list) else v

    def rams(s):
        s = model.read_data(s, d)
        return [sorted(model.dec_ram(p, True).items()) for p in s.split(".")]
    return walk(j)


class P(Prog):
    def new(self, cls):
        rng, h = self.rng, self.name()
        if cls == "disc" and rng.random() < .25:
            m = self.shape()
            e, a, b = m["e"], m["a"], m["base"]
            o = {"base": b} if b != 2 or rng.random() < .5 else {}
            if rng.random() < .5:
                o["ignoreZero"] = rng.random() < .7
            if rng.random() < .5:
                o["completeAddressing"] = rng.random() < .5
            if rng.random() < .7:
                o["mapping"] = gen.free_mapping(rng, e, b, cap=12)
            if rng.random() < .7:
                o["indexes"] = rng.sample(range(e), e)
            if "mapping" in o and "indexes" in o:
                self.c.count("mapping_and_indexes")
            items = list(o.items())
            rng.shuffle(items)
            self.do("disc.new", h, a, e, dict(items))
            self.h[cls][h] = m
            return
        if cls not in ("wis", "clu"):
            return Prog.new(self, cls)
        m = self.shape()
        if cls == "wis":
            m["labels"].append("never")
            o = sim.wis_opts(rng, m["e"], m["a"], m["base"], m["labels"], report=True, explicit=True)
            if o.get("mapping"):
                o.pop("confidence", None)
            self.do("wis.new", h, m["a"], o)
        else:
            o = sim.clu_opts(rng, m["e"], m["a"], m["base"], report=True)
            ix = list(range(m["e"]))
            rng.shuffle(ix)
            o["indexes"] = ix
            o["completeAddressing"] = False if m["e"] % m["a"] == 0 or rng.random() < .3 else True
            if m["e"] % m["a"]:
                m["e"] -= m["e"] % m["a"]
                o["indexes"] = [i for i in ix if i < m["e"]]
                m["ps"] = [gen.image(rng, m["e"], m["base"]) for _ in range(2)]
                o.pop("confidence", None)
            self.do("clu.new", h, m["a"], *sim.clu_params(rng), o)
        self.h[cls][h] = m

    def bad(self, cls):
        """One invalid call."""
        rng, h = self.rng, self.pick(cls)
        if h is None:
            return
        m = self.h[cls][h]
        if cls in ("wis", "clu", "disc"):
            e, b = m["e"], m["base"]
            ok = gen.image(rng, e, b)
            out = list(gen.unpack(ok))
            out[rng.randrange(e)] = rng.choice([b, -1, b + 1 if b < gen.MAXINT else -2, -b])
            if max(out) > gen.MAXINT or out == list(gen.unpack(ok)):
                return
            long = list(gen.unpack(ok)) + [0]
            seed = [["%s.train" % cls, h, ok] if cls == "disc" else ["%s.train" % cls, h, [ok], [m["labels"][0]]]]
            if cls == "wis":
                q = [["wis.train", h, [out], [m["labels"][0]]], ["wis.train", h, [long], [m["labels"][0]]], ["wis.train", h, [ok, ok], ["a"]], ["wis.classify", h, [long]], ["wis.classify", h, [out]],
                     ["wis.loo", h, long, m["labels"][0]], ["wis.lmo", h, [ok], []], ["wis.new", "z", rng.choice([0, 1, -3]), {}], ["wis.new", "z", 3, {"base": rng.choice([1, 0, -2])}],
                     ["wis.new", "z", 2, {"confidence": 0}], ["wis.load", "z", "{}"], ["wis.load", "z", ""], ["wis.load", "z", "[1"]]
            elif cls == "clu":
                q = [["clu.train", h, [out], [m["labels"][0]]], ["clu.train", h, [long], [m["labels"][0]]], ["clu.train", h, [ok, ok], ["a"]], ["clu.trainU", h, [out]], ["clu.classify", h, [long]],
                     ["clu.trainSemi", h, [ok], []], ["clu.trainSemi", h, [ok], [[0, "a"], [1, "b"]]], ["clu.mental", h, "no such label"], ["clu.new", "z", 3, rng.choice([-.1, 1.1]), 3, 3, {}],
                     ["clu.new", "z", 3, .5, rng.choice([0, -1]), 3, {}], ["clu.new", "z", 3, .5, 3, rng.choice([0, -1]), {}], ["clu.load", "z", "{}"], ["clu.load", "z", "null"]]
            else:
                q = [["disc.train", h, out], ["disc.train", h, long], ["disc.classify", h, out], ["disc.classify", h, long], ["disc.new", "z", rng.choice([0, 1, -1]), e, {}], ["disc.new", "z", e + 1, e, {}],
                     ["disc.new", "z", 2, 2, {"base": rng.choice([1, 0, -7])}], ["disc.new", "z", 2, 2, {"mapping": [[0, 2]]}], ["disc.new", "z", 2, 2, {"indexes": [0, 0]}], ["disc.new", "z", 2, 2, {"indexes": [1]}],
                     ["disc.load", "z", "{}"], ["disc.new", "z", 2, 1, {}], ["disc.new", "z", 65, 65, {}]]
            for s in seed:
                self.do(*s)
            self.do(*rng.choice(q), must=False)
        elif cls == "bin":
            self.do(*rng.choice([["bin.get", h, m["n"]], ["bin.set", h, m["n"], 1], ["bin.load", "z", rng.choice(["A", "!!!!", "", "AAA", "/w=="])]] + ([["bin.set", h, 0, 2]] if m["n"] else [])), must=False)
        elif cls == "ds":
            self.do(*rng.choice([["ds.get", h, m["n"]], ["ds.get", h, -1], ["ds.label", h, m["n"]], ["ds.load", "z", "none.wpkds"], ["ds.load", "z", "x.txt"], ["ds.add", h, [0, 2], None]]), must=False)
        elif cls == "rdh":
            self.do(*rng.choice([["rdh.new", "z", "A"], ["rdh.new", "z", "none.wdpkg"], ["rdh.get2", h, 99, "0"], ["rdh.get1", h, 99], ["rdh.data1", h, 99]]), must=False)

    def clean(self):
        pass


CLS = ["wis", "wis", "wis", "disc", "disc", "clu", "clu", "clu", "bin", "ds", "rdh"]


def program(c):
    rng, a, b = c.rng, c.t, c.target("py")
    da, db = c.scratch(), c.scratch()
    for t, d in ((a, da), (b, db)):
        os.makedirs(os.path.join(d, "q"))
        t.batch([["chdir", d], ["clock", 1700000000], ["crand", 5, 3]])
    both = Both(c, a, b, da, db)
    p = P(c, both)
    p.slow = True
    focus = rng.choice(CLS)
    for _ in range(rng.randint(12, 40)):
        cls = focus if rng.random() < .6 else rng.choice(CLS)
        r = rng.random()
        if r < .05:
            p.drop()
        elif r < .18 or not p.h[cls]:
            p.new(cls)
        elif r < .34:
            p.bad(cls)
        else:
            p.use(cls)
    for cls in ("wis", "clu", "disc"):
        for h in sorted(p.h[cls]):
            both.do(cls + ".json", h)
            both.do(cls + ".jsonConfig", h)
            if cls == "wis":
                both.do("wis.mental", h)
            elif cls == "clu":
                both.do("clu.mentals", h)
    c.nontrivial = c.counts["compared"] >= 10
    return {"calls": c.counts["calls"], "focus": focus}


def canvases(c):
    rng, a, b = c.rng, c.t, c.target("py")
    dim, n, clock, seed = rng.randint(1, 5), rng.choice([1, 4, 20, 100, 100, 300]), rng.randrange(1, 2 ** 31), rng.randrange(1 << 31)

    def make(o, h):
        out = []
        for t in (a, b):
            t.batch([["clock", clock], ["crand", seed, 2]])
            out.append(t.attempt("kc.new", h, dim, n, o))
        return out

    def run(s, h):
        return [t.attempt("kc.transform", h, s) for t in (a, b)]
    seqs = [[[rng.gauss(0, 1) for _ in range(dim)] for _ in range(rng.choice([2, 2, 3, 6, 15]))] for _ in range(5)]
    make({"activationDegree": .5, "bitsByKernel": 1, "useDirection": False}, "k")
    plain = [run(s, "k") for s in seqs]
    aligned = all(x == y for x, y in plain)
    c.count("aligned" if aligned else "not_aligned")
    for i in range(4):
        o = {}
        if i == 0:
            c.count("default_canvases")
        elif rng.random() < .6:
            o["bitsByKernel"] = rng.choice([1, 2, 5])
        if i and rng.random() < .8:
            o["activationDegree"] = rng.choice([0, .05, .1, .25, .5, .9, 1])
        if i and rng.random() < .6:
            o["useDirection"] = rng.random() < .8
        if i and rng.random() < .12:
            o[rng.choice(["bitsByKernel", "activationDegree"])] = rng.choice([-1, 0, 7])
        x, y = make(o, "q")
        if isinstance(x, Refused) or isinstance(y, Refused):
            c.count("refusals")
            c.check(isinstance(x, Refused) and isinstance(y, Refused), "refusal", lambda: "KernelCanvas(%s, %s, %s): header %s, Python %s" % (dim, n, o, show(x), show(y)))
            c.eq(y.msg, x.msg, "message", "message of the refusal of KernelCanvas(%s, %s, %s) in Python" % (dim, n, o))
            continue
        for s in seqs + [[], seqs[0][:1], [[1.0] * (dim + 1)] * 2]:
            x, y = run(s, "q")
            c.count("transforms_compared")
            if isinstance(x, Refused) or isinstance(y, Refused):
                c.check(isinstance(x, Refused) and isinstance(y, Refused) and x.msg == y.msg, "refusal", lambda: "transform(%s): header %s, Python %s" % (s, show(x), show(y)))
                continue
            c.eq(len(y), len(x), "transform", "length of the transform with %s in Python (expected: header's)" % o)
            if aligned:
                c.eq(y, x, "transform", "transform with %s of %s in Python (expected: header's)" % (o, s))
    c.nontrivial = True
    return {"canvas": [dim, n], "aligned": aligned}


def codec(c):
    """Base64-coded bit vectors and RAM texts made on one side, read on the other."""
    rng, a, b = c.rng, c.t, c.target("py")
    c.eq(b.do("version"), a.do("version"), "version", "version of the Python module")
    for _ in range(6):
        v = gen.pack([rng.randrange(2) for _ in range(rng.choice([1, 2, 7, 8, 9, 31, 64, 100]))], 2)
        for s, d in ((a, b), (b, a)):
            s.do("bin.vec", "x", v)
            d.do("bin.load", "y", s.do("bin.data", "x"))
            c.eq(d.do("bin.all", "y"), gen.unpack(v), "bits", "BinInput saved on %s, loaded on %s" % (s.kind, d.kind))
            c.count("compared")
        rams = [{rng.getrandbits(rng.choice([2, 40, 64])): rng.randint(1, 9) for _ in range(rng.randint(0, 6))} for _ in range(rng.randint(1, 3))]
        for s, d in ((a, b), (b, a)):
            s.do("rdh.new", "x", ".".join(model.enc_ram(r) for r in rams))
            d.do("rdh.new", "y", s.do("rdh.data", "x"))
            for i, r in enumerate(rams):
                c.eq(sorted((int(k), n) for k, n in d.do("rdh.get1", "y", i)), sorted(r.items()), "rams", "RAM %d saved on %s, loaded on %s" % (i, s.kind, d.kind))
            c.count("compared")
    c.nontrivial = True
    return {"codec": True}


BORROWED = [x for x in range(1, 31) if x not in (21, 23, 24, 27, 28)]


def borrowed(c):
    """A case of another property on the header and on src/: one side alone must not violate it."""
    mod = importlib.import_module("wv.props.c%02d" % c.rng.choice(BORROWED))
    k = c.rng.randrange(10 ** 6)
    a, b = [run.run_one(mod, c.seed, k, c.tier, kind, c.pool, c.workdir, boost=True) for kind in ("hdr", "gen")]
    c.count("borrowed")
    for x, y, what in ((a, b, "the committed header"), (b, a, "src/")):
        if x["status"] == "violation" and y["status"] == "ok":
            c.fail("borrowed", "only %s violates %s (%s): %s [%s]" % (what, mod.ID, mod.__doc__.split("\n")[0], x["msg"], x["key"]))


def case(c):
    if build.header_differs() and c.rng.random() < .3:
        borrowed(c)
    r = c.rng.random()
    c.sample = program(c) if r < .72 else canvases(c) if r < .95 else codec(c)
