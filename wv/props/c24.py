"""C24: read operations change nothing and may run concurrently."""
import json
import os

from wv import gen, model, sim
from wv.target import Refused

ID = "C24"
KINDS = ["gen", "py", "tsan"]
QUICK, THOROUGH = 3300, 80000
TIMEOUT = 120
RULE = ("random histories of every class are kept in lockstep with their reference models while random numbers of read operations (classify, classifyUnsupervised, transform, json, file saves, jsonConfig, mental images, getsizeof, get, size, data, compare) "
        "run between any two steps, and a digest of everything observable is taken before and after them; under ThreadSanitizer 2..8 threads run random reads on one shared object, or create, train, save to files, load and destroy their own objects, "
        "and every reply is compared with the sequential one. Non-trivial: reads between two changes, or threads that ran at the same time; distinct by trace")
MIN = {"reads": 40000, "untrained": 300, "new_processes": 20, "digests": 4000, "predictions": 10000, "parallel_calls": 6000, "parallel_cases": 150, "thread_objects": 100, "shared_objects": 100}
ASSUMPTIONS = ["Python holds the interpreter lock, so concurrency is exercised in C++ only",
               "ThreadSanitizer sees races between the accesses that the run performs in any order"]


def kind_for(k, kinds):
    ts = [x for x in kinds if x.startswith("tsan")]
    if k % 11 == 0:
        return ts[k // 11 % len(ts)]
    o = [x for x in kinds if not x.startswith("tsan")]
    return o[k % len(o)]


def norm(q, r):
    """Comparable form of a reply: texts of saves are decoded, file names dropped."""
    if isinstance(r, Refused):
        return ["refused", r.msg]
    op = q[0]
    if op in ("wis.json", "wis.cycle", "clu.json", "clu.cycle", "disc.json", "disc.cycle") and isinstance(r, str):
        j = json.loads(r)
        strip(j, len(q) > 2 and op.endswith(".json"))
        return j
    if op.endswith("jsonConfig"):
        return json.loads(r)
    if op in ("rdh.data", "rdh.data1"):
        return [sorted(model.dec_ram(p, True).items()) for p in r.split(".")]
    if op == "rdh.get1":
        return sorted(r)
    return r


def strip(j, huge):
    if isinstance(j, dict):
        for k in list(j):
            if k == "data" and isinstance(j[k], str):
                if huge:
                    j[k] = os.path.basename(j[k])[-6:]
                else:
                    j[k] = [sorted(model.dec_ram(p, True).items()) for p in j[k].split(".")]
            else:
                strip(j[k], huge)
    elif isinstance(j, list):
        for v in j:
            strip(v, huge)


def digest(c, t, qs):
    c.count("digests")
    return [norm(q, r) for q, r in zip(qs, t.batch(qs))]


class Obj:
    """A shared object: read requests, one learning step."""

    def __init__(self, c, t, cls, h="o"):
        self.c, self.t, self.cls, self.h = c, t, cls, h
        rng = c.rng
        self.rng = rng
        self.dir = c.scratch()
        t.do("chdir", self.dir)
        self.base = rng.choice([2, 2, 2, 3, 10, 256, gen.MAXINT])
        self.a, self.e = sim.sizes(rng, self.base)
        self.e = max(self.a, min(self.e, 60))
        self.a = min(self.a, self.e)
        self.ps = sim.protos(rng, self.e, self.base, 2)
        self.labs = gen.labels(rng, 3, files=True)
        self.sim = None
        if cls == "wis":
            o = sim.wis_opts(rng, self.e, self.a, self.base, self.labs, report=True)
            self.sim = sim.WisSim(c, t, h, self.a, self.e, o)
        elif cls == "clu":
            self.sim = sim.CluSim(c, t, h, self.a, self.e, *sim.clu_params(rng), sim.clu_opts(rng, self.e, self.a, self.base, report=True))
        elif cls == "disc":
            o = {"base": self.base, "ignoreZero": rng.random() < .5}
            sim.new_disc(c, t, h, self.a, self.e, o)
            self.d = model.Disc(json.loads(t.do("disc.json", h))["mapping"], self.e, self.base, o["ignoreZero"])
        elif cls == "bin":
            self.bits = [rng.randrange(2) for _ in range(rng.choice([1, 7, 8, 9, 40]))]
            t.do("bin.vec", h, gen.pack(self.bits, 2))
        elif cls == "ds":
            self.ex = []
            t.do("ds.new", h)
        elif cls == "rdh":
            self.n = rng.randint(1, 4)
            self.rams = [{rng.getrandbits(rng.choice([3, 40, 64])): rng.randint(-3, 99) for _ in range(rng.randint(0, 5))} for _ in range(self.n)]
            t.do("rdh.new", h, ".".join(model.enc_ram(r) for r in self.rams))
        else:
            self.dim = rng.randint(1, 4)
            t.do("kc.new", h, self.dim, rng.choice([1, 5, 30]), {"useDirection": rng.random() < .3, "activationDegree": .2})

    def xs(self, n):
        return [sim.near(self.rng, self.ps, self.base) for _ in range(n)]

    def change(self):
        rng, t, h = self.rng, self.t, self.h
        k = rng.randint(1, 4)
        if self.cls == "wis":
            self.sim.train(self.xs(k), [rng.choice(self.labs) for _ in range(k)])
        elif self.cls == "clu":
            xs, ys = self.xs(k), [rng.choice(self.labs) for _ in range(k)]
            w = rng.random()
            if w < .6:
                self.sim.train(xs, ys)
            elif w < .9:
                self.sim.train_unsup(xs)
            else:
                self.sim.train_semi(xs, [[0, ys[0]]])
        elif self.cls == "disc":
            for x in self.xs(k):
                t.do("disc.train", h, x)
                self.d.train(x)
        elif self.cls == "bin":
            i, v = rng.randrange(len(self.bits)), rng.randrange(2)
            t.do("bin.set", h, i, v)
            self.bits[i] = v
        elif self.cls == "ds":
            x, l = gen.image(rng, rng.randint(1, 20)), rng.choice([None] + self.labs)
            t.do("ds.add", h, x, l)
            self.ex.append((x, l or None))
        elif self.cls == "rdh":
            i, v = rng.randrange(self.n), rng.randint(-5, 5)
            a = rng.choice(sorted(self.rams[i]) or [7])
            t.do("rdh.set", h, i, str(a), v)
            self.rams[i][a] = v

    def verify(self):
        t, h, c = self.t, self.h, self.c
        if self.cls in ("wis", "clu"):
            self.sim.state("state (reads in between)")
            q = sim.probes(self.rng, self.ps, self.e, self.base, 3)
            self.sim.classify(q)
            if self.cls == "clu":
                self.sim.classify_unsup(q)
        elif self.cls == "disc":
            q = sim.probes(self.rng, self.ps, self.e, self.base, 3)
            c.eq(t.do("disc.classifyM", h, q), [self.d.votes(x) for x in q], "votes", "votes (reads in between)")
        elif self.cls == "bin":
            c.eq(t.do("bin.all", h), self.bits, "bits", "bits (reads in between)")
        elif self.cls == "ds":
            c.eq(t.do("ds.size", h), len(self.ex), "size", "size (reads in between)")
        elif self.cls == "rdh":
            c.eq([sorted((int(a), v) for a, v in t.do("rdh.get1", h, i)) for i in range(self.n)], [sorted(r.items()) for r in self.rams], "rams", "RAMs (reads in between)")

    def reads(self, n, files=True):
        rng, h, t = self.rng, self.h, self.t
        out = []
        for _ in range(n):
            if self.cls == "wis":
                x = sim.probes(rng, self.ps, self.e, self.base, rng.choice([1, 1, 3]))
                r = [["wis.classify", h, x], ["wis.classify", h, x], ["wis.mental", h], ["wis.json", h], ["wis.jsonConfig", h], ["wis.sizeof", h]]
                if files:
                    r.append(["wis.json", h, True, self.dir + "/p"])
                    if t.is_cxx:
                        r.append(["wis.cycle", h, self.dir + "/p"])
            elif self.cls == "clu":
                x = sim.probes(rng, self.ps, self.e, self.base, rng.choice([1, 1, 3]))
                r = [["clu.classify", h, x], ["clu.classify", h, x], ["clu.classifyU", h, x], ["clu.mentals", h], ["clu.mental", h, rng.choice(self.labs + ["nope"])], ["clu.json", h], ["clu.jsonConfig", h], ["clu.sizeof", h]]
                if files:
                    r.append(["clu.json", h, True, self.dir + "/p"])
                    if t.is_cxx:
                        r.append(["clu.cycle", h, self.dir + "/p"])
            elif self.cls == "disc":
                x = sim.probes(rng, self.ps, self.e, self.base, 1)[0]
                r = [["disc.classify", h, x], ["disc.classify", h, x], ["disc.json", h], ["disc.jsonConfig", h], ["disc.sizeof", h]]
                if t.is_cxx:
                    r += [["disc.mental", h], ["disc.count", h], ["disc.nrams", h]]
                    if files:
                        r.append(["disc.cycle", h, self.dir + "/p"])
                if files:
                    r.append(["disc.json", h, True, self.dir + "/p"])
            elif self.cls == "bin":
                r = [["bin.get", h, rng.randrange(len(self.bits) + 2)], ["bin.size", h], ["bin.data", h], ["bin.all", h]]
            elif self.cls == "ds":
                i = rng.randrange(len(self.ex) + 2)
                r = [["ds.get", h, i], ["ds.label", h, i], ["ds.size", h]]
                if files and not t.kind.startswith("tsan"):
                    r.append(["ds.save", h, self.dir + "/d"])
            elif self.cls == "rdh":
                i, a = rng.randrange(-1, self.n + 3), rng.choice([0, 7, 2 ** 64 - 1] + [a for m in self.rams for a in m])
                r = [["rdh.get2", h, i, str(a)], ["rdh.get1", h, i], ["rdh.data", h], ["rdh.data1", h, rng.randrange(self.n)], ["rdh.compare", h, h]]
            else:
                s = [[rng.gauss(0, 1) for _ in range(self.dim)] for _ in range(rng.randint(2, 6))]
                r = [["kc.transform", h, s]]
            q = rng.choice(r)
            if t.is_py and q[0] == "rdh.get2":
                q = ["rdh.get2", h, q[2], q[3]]
            out.append(q)
        return out


CLASSES = ["wis", "wis", "clu", "clu", "disc", "bin", "ds", "rdh", "kc"]


def interleave(c):
    o = Obj(c, c.t, c.rng.choice(CLASSES))
    rng = c.rng
    try:
        for i in range(rng.randint(2, 7)):
            if i == 0 and rng.random() < .25:
                c.count("untrained")
            elif o.cls != "kc":
                o.change()
            dq = o.reads(rng.randint(2, 6), files=False)
            before = digest(c, c.t, dq)
            qs = o.reads(rng.choice([1, 3, 10, 25]))
            for q in qs:
                c.t.attempt(*q)
            c.count("reads", len(qs))
            after = digest(c, c.t, dq)
            for q, x, y in zip(dq, before, after):
                c.eq(y, x, "changed", "%s after other read operations (%s)" % (str(q)[:200], sorted({q[0] for q in qs})))
            o.verify()
    except model.Borderline:
        c.count("borderline")
    c.nontrivial = True
    return {"mode": "interleaved", "class": o.cls}


def shared(c):
    t, rng = c.t, c.rng
    o = Obj(c, t, rng.choice(CLASSES))
    try:
        for _ in range(rng.randint(0, 3) if o.cls != "kc" else 0):
            o.change()
    except model.Borderline:
        pass
    n = rng.choice([2, 3, 4, 8])
    lists = [o.reads(rng.choice([5, 12, 30])) for _ in range(n)]
    seq = [[norm(q, r) for q, r in zip(l, t.batch(l))] for l in lists]
    run_par(c, t, lists, seq)
    again = [[norm(q, r) for q, r in zip(l, t.batch(l))] for l in lists]
    c.eq(again, seq, "changed", "replies after the concurrent reads")
    c.count("shared_objects")
    c.nontrivial = True
    return {"mode": "shared reads", "class": o.cls, "threads": n, "calls": sum(map(len, lists))}


def run_par(c, t, lists, seq):
    same(c, t.do("par", lists), lists, seq)
    c.count("parallel_calls", sum(map(len, lists)))
    c.count("parallel_cases")


def same(c, res, lists, seq):
    for i, (l, rs) in enumerate(zip(lists, res)):
        for k, (q, r) in enumerate(zip(l, rs)):
            g = r[1] if len(r) > 1 else None
            if r[0] == "ex":
                g = Refused(r[1], r[2], "")
            elif r[0] != "ok":
                raise RuntimeError("harness: %s %s" % (q, r))
            c.eq(norm(q, g), seq[i][k], "parallel", "reply of thread %d to %s" % (i, str(q)[:300]))


def objects(c):
    """Every thread works on its own objects."""
    t, rng = c.t, c.rng
    d = c.scratch()
    n = rng.choice([2, 4, 8])
    lists = []
    for i in range(n):
        q = []
        for _ in range(rng.randint(1, 4)):
            base = rng.choice([2, 2, 10])
            a = rng.randint(2, 4)
            e = rng.randint(a, 16)
            xs = [gen.image(rng, e, base) for _ in range(rng.randint(1, 6))]
            ys = [rng.choice(["a", "b"]) for _ in xs]
            m = gen.free_mapping(rng, e, base, cap=5)
            w = rng.choice(["wis", "wis", "disc", "clu", "ds", "kc", "bin", "free"])
            p = d + "/" + rng.choice(["p", "p", "q"])
            if w == "wis":
                q += [["wis.new", "w", a, {"base": base, "mapping": {"a": m, "b": m}}], ["wis.train", "w", xs, ys], ["wis.classify", "w", xs], ["wis.cycle", "w", p], ["wis.mental", "w"],
                      ["wis.copy", "w2", "w"], ["wis.loo", "w", xs[0], ys[0]], ["wis.classify", "w2", xs], ["wis.json", "w"], ["del", "w"], ["wis.cycle", "w2", p]]
            elif w == "disc":
                q += [["disc.new", "d", a, e, {"base": base, "mapping": m}], ["disc.trainB", "d", xs], ["disc.cycle", "d", p], ["disc.classify", "d", xs[0]], ["disc.mental", "d"], ["disc.cycle", "d", p]]
            elif w == "clu":
                ix = rng.sample(range(e), e)
                q += [["clu.new", "u", a, .5, 3, 3, {"base": base, "indexes": ix}], ["clu.train", "u", xs, ys], ["clu.trainU", "u", xs], ["clu.classify", "u", xs], ["clu.cycle", "u", p], ["clu.json", "u"]]
            elif w == "ds":
                y = ["".join(rng.choice("01") for _ in range(e)) for _ in xs]
                f = d + "/t%d" % i
                q += [["ds.new", "s"], ["ds.addM", "s", y, ys], ["ds.save", "s", f], ["ds.load", "s2", f + ".wpkds"], ["ds.get", "s2", 0], ["ds.label", "s2", 0], ["wis.new", "w", a, {"mapping": {"a": m, "b": m}}], ["wis.trainDS", "w", "s2"], ["wis.json", "w"]]
            elif w == "bin":
                q += [["bin.vec", "b", "10110"], ["bin.set", "b", 1, 1], ["bin.data", "b"]]
            elif w == "kc":
                q += [["kc.new", "k", 2, 5, {"activationDegree": 1}], ["kc.transform", "k", [[.1, .2], [.3, .9], [.5, .1]]], ["syn.new", "s", [0, 3, 3]], ["syn.make", "s", 3]]
            else:  # random mappings: only what does not depend on them
                q += [["wis.new", "f", a, {"base": base}], ["wis.train", "f", xs[:1], ["only"]], ["wis.classify", "f", xs[:1]], ["clu.new", "g", a, .1, 5, 2, {"base": base}], ["clu.train", "g", xs[:1], ["only"]], ["clu.classify", "g", xs[:1]]]
        lists.append(q)
    first = None
    if rng.random() < .35:  # the first thing a new process does
        t.stop()
        first = t.do("par", lists)
        c.count("new_processes")
    seq = [[norm(q, r) for q, r in zip(l, t.batch(l))] for l in lists]
    t.do("del", "w", "w2", "d", "u", "s", "s2", "b", "k", "f", "g")
    if first:
        same(c, first, lists, seq)
    for l, s in zip(lists, seq):
        for q, r in zip(l, s):
            c.check(not (isinstance(r, list) and r and r[0] == "refused"), "refused", lambda: "%s: %s" % (q, r))
    run_par(c, t, lists, seq)
    c.count("thread_objects")
    c.nontrivial = True
    return {"mode": "own objects", "threads": n, "calls": sum(map(len, lists))}


def case(c):
    if c.kind.startswith("tsan"):
        c.sample = (shared if c.rng.random() < .5 else objects)(c)
    else:
        c.sample = interleave(c)
