"""C21: valid use is free of memory errors and undefined behaviour."""
import copy
import json
import os

from wv import gen, sim
from wv.target import Refused, short

ID = "C21"
KINDS = ["gen", "py", "pyasan", "vg"]
QUICK, THOROUGH = 4000, 60000
TIMEOUT = 150
RULE = ("random programs over the whole exported API (every class, constructor and method; several live objects of every class; empty batches, untrained models, reloaded models, copies, destruction in any order; extreme bases, "
        "address sizes and scales) with valid arguments only run under AddressSanitizer + UndefinedBehaviorSanitizer with libstdc++ assertions (C++ header and Python module), under valgrind memcheck, and twice with different fill bytes "
        "for fresh memory, whose replies must be equal. Non-trivial: at least 15 calls; distinct by program")
MIN = {"calls": 60000, "replayed": 300, "kernel_transforms": 2500, "reloads": 2500, "empty_batches": 1500, "destroyed": 3000}
ASSUMPTIONS = ["sanitizers and valgrind report the errors of the executions performed",
               "counters stay far below the int limit and memory is sufficient"]


def kind_for(k, kinds):
    """Mostly sanitized C++; every eighth case under valgrind."""
    cxx = [x for x in kinds if x in ("gen", "hdr")]
    r = k % 8
    if r in (0, 1, 2, 3):
        return cxx[(k // 8 + r) % len(cxx)]
    return ("py", "pyasan", "pyasan", "vg")[r - 4]


class Prog:
    def __init__(self, c, t):
        self.c, self.t, self.rng = c, t, c.rng
        self.n = 0
        self.h = {k: {} for k in ("wis", "disc", "clu", "bin", "ds", "kc", "syn", "rdh")}
        self.probe = "probe" in t.do("caps")
        self.slow = t.kind == "vg"
        # dozens of classes and examples per call
        self.rich = not self.slow and c.every(31)
        c.count("rich_programs", self.rich)
        self.may_print = True

    def do(self, *q, must=True):
        r = self.t.attempt(*q)
        self.c.count("calls")
        if must and isinstance(r, Refused):
            raise r
        return r

    def name(self):
        self.n += 1
        return "h%d" % self.n

    def pick(self, cls):
        return self.rng.choice(sorted(self.h[cls])) if self.h[cls] else None

    # -- data
    def xs(self, m, n=None):
        rng = self.rng
        if n is None:
            n = rng.choice([0, 1, 1, 1, 2, 3, 6] if not self.rich else [1, 40, 100, 300])
        if n == 0:
            self.c.count("empty_batches")
        return [gen.mutate(rng, rng.choice(m["ps"]), m["base"]) if rng.random() < .6 else gen.image(rng, m["e"], m["base"]) for _ in range(n)]

    def ys(self, m, n):
        return [self.rng.choice(m["labels"]) for _ in range(n)]

    def shape(self):
        rng = self.rng
        base = rng.choice(gen.BASES) if rng.random() < .4 else rng.choice([2, 2, 2, 3, 10])
        a, e = sim.sizes(rng, base)
        if rng.random() < .1:
            e = a = rng.choice([2, min(a, 3), min(a, 8)])  # one RAM
        if rng.random() < .04 and not self.slow:
            e = rng.choice([1000, 5000])
        a = min(a, e)
        m = {"base": base, "a": a, "e": e, "labels": gen.labels(rng, gen.nclasses(rng, [1, 2, 4]), files=True)}
        m["ps"] = [gen.image(rng, e, base) for _ in range(2)]
        if self.rich and e < 400:
            m["labels"] = ["k%d" % i for i in range(rng.choice([35, 70]))]
        return m

    def new(self, cls):
        rng, h = self.rng, self.name()
        m = {}
        if cls == "wis":
            m = self.shape()
            o = sim.wis_opts(rng, m["e"], m["a"], m["base"], m["labels"], report=True)
            if o.get("confidence") and o.get("mapping"):
                del o["confidence"]
            if rng.random() < .1 and self.may_print:
                o["verbose"] = True
            self.do("wis.new", h, m["a"], o if o or rng.random() < .5 else None)
        elif cls == "disc":
            m = self.shape()
            if self.probe and rng.random() < .06:
                m.update(e=rng.choice([0, 1, 5]), a=0, base=2)
                m["ps"] = ["0" * m["e"]]
                self.do("disc.newEmpty", h, m["e"] or None)
            else:
                o = {"base": m["base"], "ignoreZero": rng.random() < .4, "completeAddressing": rng.random() < .6}
                r = rng.random()
                if r < .3:
                    o["mapping"] = gen.free_mapping(rng, m["e"], m["base"], cap=12)
                elif r < .5:
                    o["indexes"] = rng.sample(range(m["e"]), m["e"])
                sim.new_disc(_Rec(self), self.t, h, m["a"], m["e"], o)
        elif cls == "clu":
            m = self.shape()
            self.do("clu.new", h, m["a"], *sim.clu_params(rng), sim.clu_opts(rng, m["e"], m["a"], m["base"], report=True))
        elif cls == "bin":
            m = {"n": rng.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 64, 200, 2047])}
            if self.probe and rng.random() < .05:
                m["n"] = 0
                self.do("bin.newEmpty", h)
            elif rng.random() < .5:
                self.do("bin.new", h, m["n"])
            else:
                self.do("bin.vec", h, gen.pack([rng.randrange(2) for _ in range(m["n"])], 2) if m["n"] or self.t.is_cxx else [0] * m["n"])
        elif cls == "ds":
            m = {"n": 0, "e": rng.choice([2, 3, 8, 9, 16, 31]), "lab": []}
            self.do("ds.new", h)
        elif cls == "kc":
            m = {"dim": rng.randint(1, 6)}
            o = {}
            if rng.random() < .7:
                o["bitsByKernel"] = rng.choice([1, 2, 3, 7, 33])
            if rng.random() < .8:
                o["activationDegree"] = rng.choice([0, .01, .07, .3, .5, .99, 1])
            if rng.random() < .75:
                o["useDirection"] = rng.random() < .8
            self.do("kc.new", h, m["dim"], rng.choice([1, 2, 3, 10, 50, 200]), o)
        elif cls == "syn":
            self.do("syn.new", h, [rng.choice([0, 0, 1, 2, 5, 100, 1000, -3]) for _ in range(rng.choice([0, 1, 2, 9, 50]))])
        else:
            if self.probe and rng.random() < .2:
                m = {"n": 1}
                self.do("rdh.newRam", h, [[str(rng.getrandbits(rng.choice([3, 64]))), rng.randint(1, 9)] for _ in range(rng.randint(0, 4))])
            else:
                d = self.pick("disc")
                if d is None or self.h["disc"][d]["a"] == 0:
                    return
                j = json.loads(self.do("disc.json", d))
                m = {"n": len(j["mapping"])}
                if rng.random() < .2:
                    j = json.loads(self.do("disc.json", d, True, "r" + h))
                self.do("rdh.new", h, j["data"])
        self.h[cls][h] = m

    def use(self, cls):
        h = self.pick(cls)
        if h is None:
            return self.new(cls)
        m = self.h[cls][h]
        getattr(self, "u_" + cls)(h, m)

    def drop(self):
        cls = self.rng.choice([k for k in self.h if self.h[k]] or ["wis"])
        h = self.pick(cls)
        if h:
            self.do("del", h)
            del self.h[cls][h]
            self.c.count("destroyed")

    def common(self, cls, h, m):
        """copy / assign / load / destroy of the models and values."""
        rng = self.rng
        r = rng.random()
        n = self.name()
        if self.t.is_cxx and r < .5 and cls != "syn":
            o = self.pick(cls)
            if r < .3 or o is None or cls == "kc":
                self.do(cls + ".copy", n, h)
                self.h[cls][n] = copy.deepcopy(m)
            elif o != h or rng.random() < .5:
                self.do(cls + ".assign", o, h)
                self.h[cls][o] = copy.deepcopy(m)
            return
        if cls in ("wis", "disc", "clu"):
            w = rng.random()
            if w < .5:
                s = self.do(cls + ".json", h)
            elif w < .7:
                s = self.do(cls + ".jsonConfig", h)
            else:
                s = self.do(cls + ".json", h, True, rng.choice(["p", "p", "q/x", "./ü"]))
            if cls == "disc" and m["a"] == 0:
                return
            self.do(cls + ".load", n, s)
            self.h[cls][n] = copy.deepcopy(m)
            self.c.count("reloads")
        elif cls == "bin":
            self.do("bin.load", n, self.do("bin.data", h))
            self.h[cls][n] = copy.deepcopy(m)
            self.c.count("reloads")
        elif cls == "ds":
            self.do("ds.save", h, "d" + n)
            self.do("ds.load", n, "d" + n + ".wpkds")
            self.h[cls][n] = dict(m, lab=list(m["lab"]))
            self.c.count("reloads")
        elif cls == "rdh":
            self.do("rdh.new", n, self.do("rdh.data", h))
            self.h[cls][n] = copy.deepcopy(m)
            self.c.count("reloads")

    def u_wis(self, h, m):
        rng = self.rng
        r = rng.random()
        if r < .2:
            self.common("wis", h, m)
        elif r < .45:
            xs = self.xs(m)
            self.do("wis.train", h, xs, self.ys(m, len(xs)))
        elif r < .62:
            self.do("wis.classify", h, self.xs(m))
        elif r < .7:
            self.do("wis.loo", h, self.xs(m, 1)[0], rng.choice(m["labels"] + ["never"]))
        elif r < .76:
            xs = self.xs(m)
            self.do("wis.lmo", h, xs, self.ys(m, len(xs)))
        elif r < .84 and m["base"] == 2 and m["e"] < 2048:
            d = self.name()
            self.do("ds.new", d)
            for x in self.xs(m):
                self.do("ds.add", d, x, rng.choice(m["labels"]) or "x")
            w = rng.random()
            self.do("wis.classifyDS" if w < .5 else "wis.trainDS", h, d)
            if rng.random() < .5:
                self.do("del", d)
        else:
            self.do(rng.choice(["wis.mental", "wis.mental", "wis.json", "wis.jsonConfig", "wis.sizeof"]), h)

    def u_disc(self, h, m):
        rng, cxx = self.rng, self.t.is_cxx
        r = rng.random()
        if r < .2:
            self.common("disc", h, m)
        elif r < .4:
            self.do("disc.train", h, self.xs(m, 1)[0])
        elif r < .5:
            xs = self.xs(m)
            if xs or cxx:
                self.do("disc.trainB", h, xs)
        elif r < .6 and cxx:
            self.do("disc.untrain", h, self.xs(m, 1)[0])
        elif r < .7 and m["base"] == 2 and m["e"] and m["e"] < 2048:
            self.do(rng.choice(["disc.trainBin", "disc.classifyBin"]), h, self.xs(m, 1)[0])
        elif r < .85:
            self.do("disc.classify", h, self.xs(m, 1)[0])
        else:
            q = ["disc.json", "disc.jsonConfig", "disc.sizeof"]
            if cxx:
                q += ["disc.mental", "disc.count", "disc.nrams"] + (["disc.entry"] if self.probe else [])
            self.do(rng.choice(q), h)

    def u_clu(self, h, m):
        rng = self.rng
        r = rng.random()
        if r < .18:
            self.common("clu", h, m)
        elif r < .4:
            xs = self.xs(m)
            self.do("clu.train", h, xs, self.ys(m, len(xs)))
        elif r < .52:
            self.do("clu.trainU", h, self.xs(m))
        elif r < .62:
            xs = self.xs(m)
            k = sorted(rng.sample(range(len(xs)), rng.randint(1, len(xs)))) if xs else []
            self.do("clu.trainSemi", h, xs, [[i, rng.choice(m["labels"])] for i in k])
        elif r < .75:
            self.do("clu.classify", h, self.xs(m))
        elif r < .85:
            self.do("clu.classifyU", h, self.xs(m))
        elif r < .9:
            self.do("clu.mental", h, rng.choice(m["labels"] + ["never"]), must=False)
        else:
            self.do(rng.choice(["clu.mentals", "clu.json", "clu.jsonConfig", "clu.sizeof"]), h)

    def u_bin(self, h, m):
        rng = self.rng
        r = rng.random()
        if r < .2:
            self.common("bin", h, m)
        elif r < .3 and self.h["ds"]:
            d = self.pick("ds")
            if m["n"] < 2048:
                self.do("ds.addBin", d, h, rng.choice([None, "l", "ü"]))
                self.h["ds"][d]["n"] += 1
                self.h["ds"][d]["lab"].append(None)
        elif r < .7 and m["n"]:
            i = rng.choice([0, m["n"] - 1, rng.randrange(m["n"])])
            self.do(*rng.choice([["bin.get", h, i], ["bin.idx", h, i], ["bin.set", h, i, 0], ["bin.set", h, i, 1], ["bin.set", h, i, 1]]))
        else:
            self.do(rng.choice(["bin.size", "bin.data", "bin.all"]), h)

    def u_ds(self, h, m):
        rng = self.rng
        r = rng.random()
        if r < .25:
            self.common("ds", h, m)
        elif r < .6:
            l = rng.choice([None, "a", "é", "b c"])
            self.do("ds.add", h, gen.pack([rng.randrange(2) for _ in range(m["e"])], 2), l)
            m["n"] += 1
            m["lab"].append(l)
        elif m["n"]:
            i = rng.choice([0, m["n"] - 1, rng.randrange(m["n"])])
            if m["lab"][i]:
                self.do("ds.label", h, i)
            self.do("ds.get" if self.t.is_py else rng.choice(["ds.get", "ds.idx"]), h, i)
        else:
            self.do("ds.size", h)

    def u_kc(self, h, m):
        rng = self.rng
        if rng.random() < .1:
            return self.common("kc", h, m)
        n = rng.choice([0, 1, 1, 2, 2, 3, 5, 10, 30])
        w = rng.random()
        s = [[rng.gauss(0, 1) if w < .5 else rng.choice([0, 0, 1, -1, 1e300, -1e300, 5e-324, 3.5]) if w < .8 else 7.0 for _ in range(m["dim"])] for _ in range(n)]
        if rng.random() < .2 and s:
            s = [s[0]] * len(s)
        self.do("kc.transform", h, s)
        self.c.count("kernel_transforms")

    def u_syn(self, h, m):
        self.do("syn.make", h, self.rng.randint(1, 4))

    def u_rdh(self, h, m):
        rng = self.rng
        r = rng.random()
        if r < .2:
            self.common("rdh", h, m)
            return
        i = rng.randrange(m["n"]) if m["n"] else 0
        a = str(rng.choice([0, 1, 2 ** 64 - 1, rng.getrandbits(64), rng.randrange(32)]))
        if not m["n"]:
            self.do("rdh.data", h)
        elif r < .4:
            self.do("rdh.set", h, i, a, rng.randint(0, 50))
        elif r < .9:
            self.do(*rng.choice([["rdh.get2", h, i, a], ["rdh.get1", h, i], ["rdh.data", h], ["rdh.data1", h, i]]))
        else:
            self.do("rdh.compare", h, self.pick("rdh"))


class _Rec:
    """What sim.new_disc needs, with the calls logged."""

    def __init__(self, p):
        self.p, self.rng = p, p.rng


CLS = ["wis", "wis", "wis", "disc", "disc", "clu", "clu", "clu", "bin", "ds", "kc", "kc", "syn", "rdh"]


def case(c):
    rng, t = c.rng, c.t
    p = Prog(c, t)
    d = c.scratch()
    os.makedirs(os.path.join(d, "q"))
    start = [["clock", rng.randrange(1, 2 ** 31)], ["crand", rng.randrange(1 << 31), 3]]
    t.batch([["chdir", d]] + start)
    rec = Logger(p)
    p.t = rec
    focus = rng.choice(CLS) if rng.random() < .4 else None
    for _ in range(rng.randint(15, 60)):
        r = rng.random()
        cls = focus if focus and rng.random() < .6 else rng.choice(CLS)
        if r < .08:
            p.drop()
        elif r < .2 or not p.h[cls]:
            p.new(cls)
        else:
            p.use(cls)
    t.batch([["reset"], ["ping"]])
    c.nontrivial = True
    if t.kind in ("gen", "hdr") and rng.random() < .3:
        replay(c, rec.log, d, start)
    c.sample = {"target": t.kind, "calls": len(rec.log), "ops": sorted({q[0] for q, r in rec.log})}


class Logger:
    """Passes requests on and keeps them with their replies."""

    def __init__(self, p):
        self.t, self.log = p.t, []
        self.kind, self.is_py, self.is_cxx = self.t.kind, self.t.is_py, self.t.is_cxx

    def attempt(self, *q):
        r = self.t.attempt(*q)
        self.log.append((list(q), r))
        return r

    def do(self, *q):
        r = self.attempt(*q)
        if isinstance(r, Refused):
            raise r
        return r


def norm(r):
    return ["refused", r.msg] if isinstance(r, Refused) else r


def replay(c, log, d, start):
    """The same program where fresh memory holds other bytes."""
    def run(n):
        t = c.target(c.kind, n)
        e = c.scratch()
        os.makedirs(os.path.join(e, "q"))
        t.batch([["reset"], ["chdir", e]] + start)
        out = [norm(x) for x in t.batch([q for q, _ in log])]
        t.batch([["reset"]])
        return out
    first = [norm(r) for _, r in log]
    other = run(1)
    c.count("replayed")
    if other != first:
        if run(0) == first and run(1) == other:
            i = next(i for i in range(len(first)) if first[i] != other[i])
            c.fail("uninitialised", "the reply to %s depends on the content of fresh memory: %s / %s" % (short(log[i][0]), short(first[i]), short(other[i])))
        c.count("not_reproducible")
