"""C25: copies are independent values, and nothing is leaked."""
import copy
import json
import os

from wv import gen, model, sim
from wv.props.c21 import CLS, Logger, Prog
from wv.target import Refused

ID = "C25"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 3200, 80000
TIMEOUT = 120
RULE = ("(1) random families of copies (copy construction, assignment over fresh, used and own objects, copies of copies) of every C++ class are changed, read and destroyed in random order, each in lockstep with its own reference model; "
        "(2) random programs over the whole API are repeated in one process: the bytes held by the allocator of AddressSanitizer (C++; also after every single class's objects are destroyed) or by malloc and the interpreter (Python) "
        "and the open descriptors after a repetition are those after the previous one. Non-trivial: a copy that diverged, or a program of at least 10 calls repeated; distinct by trace")
MIN = {"large_families": 20, "copies": 4000, "assigns": 2500, "destroyed_in_family": 2500, "verified": 10000, "conserved": 600, "py_conserved": 250, "leak_calls": 12000, "refused_in_programs": 1200, "predictions": 10000}
ASSUMPTIONS = ["memory is observed with __sanitizer_get_current_allocated_bytes in C++; in Python with mallinfo2 and sys.getallocatedblocks, where only growth in every one of several repetitions counts"]


def kind_for(k, kinds):
    cxx = [x for x in kinds if x != "py"]
    return "py" if k % 8 == 3 else cxx[k // 8 % len(cxx)]


# ---- independence
class Val:
    """Plain values: BinInput, DataSet, RAMDataHandle, KernelCanvas."""

    def __init__(self, c, cls, h):
        self.c, self.t, self.rng, self.cls, self.h = c, c.t, c.rng, cls, h
        self.large = bool(c.counts["large_families"])

    def create(self):
        t, rng, h = self.t, self.rng, self.h
        if self.cls == "bin":
            self.v = [rng.randrange(2) for _ in range(rng.choice([0, 1, 5, 8, 9, 30, 100]) if not self.large else rng.choice([1000, 5000, 70000]))]
            t.do("bin.vec", h, gen.pack(self.v, 2))
        elif self.cls == "ds":
            self.v = []
            t.do("ds.new", h)
            if self.large:
                self.v = [(gen.image(rng, rng.choice([8, 20, 400])), rng.choice([None, "a", "b", "l%d" % i])) for i in range(rng.choice([100, 300, 1100]))]
                t.do("ds.addM", h, [x for x, _ in self.v], [l for _, l in self.v])
        else:
            self.v = [{rng.getrandbits(rng.choice([3, 40, 64])): rng.randint(1, 99) for _ in range(rng.randint(0, 5))} for _ in range(rng.randint(1, 4) if not self.large else rng.choice([70, 300, 700]))]
            t.do("rdh.new", h, ".".join(model.enc_ram(r) for r in self.v))
        return self

    def clone(self, h):
        n = Val(self.c, self.cls, h)
        n.v = copy.deepcopy(self.v)
        return n

    def change(self):
        t, rng, h = self.t, self.rng, self.h
        if self.cls == "bin" and self.v:
            i, v = rng.randrange(len(self.v)), rng.randrange(2)
            t.do("bin.set", h, i, v)
            self.v[i] = v
        elif self.cls == "ds":
            x, l = gen.image(rng, rng.randint(1, 20)), rng.choice([None, "a", "b", "é"])
            t.do("ds.add", h, x, l)
            self.v.append((x, l))
        elif self.cls == "rdh":
            i, v = rng.randrange(len(self.v)), rng.randint(1, 500)
            a = rng.choice(sorted(self.v[i]) + [7, 2 ** 64 - 1])
            t.do("rdh.set", h, i, str(a), v)
            self.v[i][a] = v

    def verify(self):
        t, c, h = self.t, self.c, self.h
        if self.cls == "bin":
            c.eq([t.do("bin.size", h), t.do("bin.all", h)], [len(self.v), self.v], "value", "BinInput %s" % h)
        elif self.cls == "ds":
            c.eq(t.do("ds.size", h), len(self.v), "value", "size of DataSet %s" % h)
            for i, (x, l) in enumerate(self.v):
                c.eq(t.do("ds.get", h, i), gen.unpack(x), "value", "example %d of %s" % (i, h))
                g = t.attempt("ds.label", h, i)
                c.eq(None if isinstance(g, Refused) else g, l, "value", "label %d of %s" % (i, h))
        else:
            c.eq([sorted((int(a), v) for a, v in t.do("rdh.get1", h, i)) for i in range(len(self.v))], [sorted(r.items()) for r in self.v], "value", "RAMs of %s" % h)


class Mod:
    """Models: WisSim, CluSim or a Discriminator."""

    def __init__(self, c, cls, h):
        self.c, self.t, self.rng, self.cls, self.h = c, c.t, c.rng, cls, h
        self.large = bool(c.counts["large_families"])

    def create(self):
        c, t, rng, h = self.c, self.t, self.rng, self.h
        self.base = rng.choice([2, 2, 2, 3, 10, 256])
        a, e = sim.sizes(rng, self.base, huge=0.003)
        self.e = max(a, min(e, 40))
        self.a = min(a, self.e)
        if self.large and rng.random() < .6:
            self.a = min(self.a, rng.choice([2, 3, 8]))
            self.e = rng.choice([130, 300, 520, 2100])
        self.ps = sim.protos(rng, self.e, self.base, 2)
        self.labs = gen.labels(rng, 3, files=True)
        if self.large and self.e <= 40:
            self.labs = ["c%d" % i for i in range(rng.choice([40, 120]))]
        if self.cls == "wis":
            self.s = sim.WisSim(c, t, h, self.a, self.e, sim.wis_opts(rng, self.e, self.a, self.base, self.labs, report=True))
        elif self.cls == "clu":
            self.s = sim.CluSim(c, t, h, self.a, self.e, *sim.clu_params(rng), sim.clu_opts(rng, self.e, self.a, self.base, report=True))
        else:
            o = {"base": self.base, "ignoreZero": rng.random() < .5}
            sim.new_disc(c, t, h, self.a, self.e, o)
            self.s = model.Disc(json.loads(t.do("disc.json", h))["mapping"], self.e, self.base, o["ignoreZero"])
        self.learned = []
        return self

    def clone(self, h):
        n = Mod(self.c, self.cls, h)
        n.base, n.e, n.a, n.ps, n.labs, n.learned = self.base, self.e, self.a, self.ps, self.labs, list(self.learned)
        n.s = self.s.copy() if self.cls == "disc" else self.s.clone(h)
        return n

    def change(self):
        rng, t, h = self.rng, self.t, self.h
        k = rng.randint(1, 3) if len(self.labs) < 4 else 60
        xs = [sim.near(rng, self.ps, self.base, .4) for _ in range(k)]
        ys = [rng.choice(self.labs) for _ in xs]
        if self.cls == "wis":
            if self.learned and rng.random() < .35:
                x, y = self.learned.pop(rng.randrange(len(self.learned)))
                t.do("wis.loo", h, x, y)
                self.s.unlearn(x, y)
            else:
                self.s.train(xs, ys)
                self.learned += list(zip(xs, ys))
        elif self.cls == "clu":
            w = rng.random()
            if w < .55:
                self.s.train(xs, ys)
            elif w < .9:
                self.s.train_unsup(xs)
            else:
                self.s.train_semi(xs, [[0, ys[0]]])
        else:
            if self.learned and rng.random() < .4:
                x = self.learned.pop(rng.randrange(len(self.learned)))
                t.do("disc.untrain", h, x)
                self.s.untrain(x)
            else:
                for x in xs:
                    t.do("disc.train", h, x)
                    self.s.train(x)
                    self.learned.append(x)

    def verify(self):
        q = sim.probes(self.rng, self.ps, self.e, self.base, 3)
        if self.cls == "disc":
            self.c.eq(self.t.do("disc.classifyM", self.h, q), [self.s.votes(x) for x in q], "votes", "votes of %s" % self.h)
            self.c.eq(model.disc_state(json.loads(self.t.do("disc.json", self.h))), model.model_state(self.s), "state", "state of %s" % self.h)
            self.c.eq(self.t.do("disc.mental", self.h), self.s.mental(), "mental", "mental image of %s" % self.h)
            return
        self.s.state("state of %s" % self.h)
        self.s.classify(q, "prediction of %s" % self.h)
        if self.cls == "clu":
            self.s.classify_unsup(q)
        self.s.mental("mental images of %s" % self.h)


def family(c):
    t, rng = c.t, c.rng
    cls = rng.choice(["wis", "wis", "disc", "clu", "clu", "bin", "ds", "rdh"])
    K = Val if cls in ("bin", "ds", "rdh") else Mod
    large = c.every(23)
    c.count("large_families", large)
    live = {}
    n = 0

    def fresh():
        nonlocal n
        n += 1
        return "f%d" % n
    h = fresh()
    live[h] = K(c, cls, h).create()
    c.count("families")
    log = []
    try:
        for _ in range(rng.randint(8, 24) if not large else rng.randint(5, 9)):
            r = rng.random()
            h = rng.choice(sorted(live))
            o = live[h]
            if r < .38:
                o.change()
                log.append(["change", h])
            elif r < .55 and len(live) < 5:
                k = fresh()
                t.do(cls + ".copy", k, h)
                live[k] = o.clone(k)
                c.count("copies")
                log.append(["copy", k, h])
                if rng.random() < .3:
                    live[k].verify()
            elif r < .72:
                k = rng.choice(sorted(live))
                t.do(cls + ".assign", k, h)
                live[k] = o if k == h else o.clone(k)
                c.count("assigns")
                log.append(["assign", k, h])
            elif r < .8 and len(live) < 5:
                k = fresh()
                live[k] = K(c, cls, k).create()
                log.append(["new", k])
            elif r < .9 and len(live) > 1:
                t.do("del", h)
                del live[h]
                c.count("destroyed_in_family")
                log.append(["destroy", h])
            else:
                k = rng.choice(sorted(live))
                live[k].verify()
                c.count("verified")
                log.append(["verify", k])
        order = sorted(live)
        rng.shuffle(order)
        while order:
            for k in order:
                live[k].verify()
                c.count("verified")
            t.do("del", order.pop())
            c.count("destroyed_in_family")
    except model.Borderline:
        c.count("borderline")
    c.nontrivial = any(x[0] in ("copy", "assign") for x in log)
    return {"class": cls, "history": log[:30]}


# ---- conservation
def fds(t):
    return sorted(os.listdir("/proc/%d/fd" % t.p.pid))


def leaks(c):
    t, rng = c.t, c.rng
    p = Prog(c, t)
    p.rich = p.rich and t.is_cxx
    rec = Logger(p)
    d = c.scratch()
    os.makedirs(os.path.join(d, "q"))
    for f, x in FILES.items():
        with open(os.path.join(d, f), "w") as o:
            o.write(x)
    start = [["chdir", d], ["clock", rng.randrange(1, 2 ** 31)], ["crand", rng.randrange(1 << 31), 3]]
    t.batch(start)
    p.t = rec
    focus = rng.choice(CLS)
    for _ in range(rng.randint(10, 35)):
        cls = focus if rng.random() < .7 else rng.choice(CLS)
        r = rng.random()
        if r < .08:
            p.drop()
        elif r < .22 or not p.h[cls]:
            p.new(cls)
        elif r < .32 and p.h[cls]:
            bad(rec, rng, cls, p.pick(cls), p.h[cls])
            c.count("refused_in_programs")
        else:
            p.use(cls)
    qs = [q for q, _ in rec.log]
    c.count("leak_calls", len(qs))
    mem = []
    n = 4 if t.is_cxx else 9
    for _ in range(n):
        t.batch([["reset"]] + start[1:])
        t.batch(qs)
        t.batch([["reset"]])
        mem.append((t.do("mem"), fds(t)))
    if t.is_cxx:
        a, b = mem[-2], mem[-1]
        if a != b:
            c.check(a[0] == b[0], "leak", lambda: "memory held after repetitions of the same program: %s bytes; program: %s" % ([x for x, _ in mem], qs))
            c.check(a[1] == b[1], "descriptors", lambda: "open descriptors after repetitions: %s" % ([x for _, x in mem],))
        c.count("conserved")
    else:
        c.check(mem[-1][1] == mem[1][1], "descriptors", lambda: "open descriptors after repetitions: %s" % ([x for _, x in mem],))
        for j, what in ((0, "bytes"), (1, "blocks of the interpreter")):
            v = [m[0][j] for m in mem]
            g = [y - x for x, y in zip(v[3:], v[4:])]
            if min(g) > 0:  # confirm: a leak goes on growing in proportion, caches of the interpreter do not
                w = [v[-1]]
                for _ in range(6):
                    for _ in range(60):
                        t.batch([["reset"]] + start[1:])
                        t.batch(qs)
                    t.batch([["reset"]])
                    w.append(t.do("mem")[j])
                c.count("confirmations")
                gw = [y - x for x, y in zip(w[2:], w[3:])]
                c.check(not (min(gw) >= (900, 55)[j] and min(gw) > .88 * max(gw)), "leak", lambda: "%s held after repetitions of the same program: %s, then every 60: %s; program: %s" % (what, v, w, qs))
        c.count("py_conserved")
    c.count("oracle_evaluations")
    c.nontrivial = len(qs) >= 10
    return {"mode": "conservation", "calls": len(qs), "held": [m[0] for m in mem], "ops": sorted({q[0] for q in qs})}


FILES = {"short.wdpkg": "AAAA", "one.wdpkg": model.enc_ram({1: 2}), "odd.wdpkg": model.enc_ram({1: 2}) + "." + "A", "out.wdpkg": model.enc_ram({2 ** 40: 2}) + "." + model.enc_ram({2 ** 40: 1}), "empty.wdpkg": "",
         "long.wdpkg": model.enc_ram({3: 1}) + ".A" + "AAAA" * 5000, "bad.wpkds": "AQAAAA==\n!!!!\n", "odd.wpkds": "A#lab\nA", "empty.wpkds": "", "long.wpkds": "!" * 20000}


def bad(rec, rng, cls, h, hs):
    """Refused calls must give back what they took, too."""
    m = hs[h]
    if cls in ("wis", "clu", "disc"):
        e, b = m["e"], m["base"]
        x, long = [[b] * e], [[0] * (e + 1)]
        ok = "0" * e
        lab = m["labels"][0]
        f = rng.choice(sorted(FILES)) if rng.random() < .7 else "none.wdpkg"
        dj = '"entrySize":4,"mapping":[[0,1],[2,3]],"ignoreZero":false,"base":2,"data":"%s"' % rng.choice([f, f, "AA==", "A", ".", "AQAA.!!!!"])
        wc = '"version":"2.0.0","addressSize":2,"ignoreZero":false,"base":2,"bleachingActivated":true,"verbose":false,"completeAddressing":true,"indexes":[],"confidence":1'
    if cls == "wis":
        q = rng.choice([["wis.train", h, x, [lab]], ["wis.train", h, [ok], []], ["wis.train", h, [ok, long[0]], [lab, lab]], ["wis.classify", h, x], ["wis.classify", h, [ok] + long], ["wis.loo", h, long[0], lab], ["wis.lmo", h, long, [lab]],
                        ["wis.load", "z", "{"], ["wis.load", "z", '{"addressSize":3,"classes":{"a":{}}}'], ["wis.load", "z", '{%s,"classes":{"a":{%s}}}' % (wc, dj)], ["wis.load", "z", '{%s,"classes":{"a":{%s}}}' % (wc, dj)],
                        ["wis.new", "z", 0, {}], ["wis.new", "z", 3, {"base": 1}], ["wis.new", "z", 2, {"mapping": {"a": [[]]}}], ["wis.new", "z", 2, {"confidence": 0}]])
    elif cls == "clu":
        q = rng.choice([["clu.train", h, x, [lab]], ["clu.train", h, [ok, long[0]], [lab, lab]], ["clu.trainU", h, x], ["clu.trainU", h, [ok] + long], ["clu.trainSemi", h, [ok], [[0, "a"], [7, "b"]]], ["clu.classify", h, x], ["clu.classify", h, [ok] + long],
                        ["clu.classifyU", h, long], ["clu.mental", h, "no such label"], ["clu.load", "z", "[]"],
                        ["clu.load", "z", '{%s,"minScore":0.5,"threshold":3,"discriminatorsLimit":2,"clusters":{"a":{"discriminators":{"0":{%s}}}}}' % (wc, dj)], ["clu.new", "z", 3, 2, 0, 0, {}], ["clu.new", "z", 3, .5, 1, 1, {"base": -2}]])
    elif cls == "disc":
        q = rng.choice([["disc.train", h, x[0]], ["disc.train", h, long[0]], ["disc.untrain" if rec.is_cxx else "disc.classify", h, long[0]], ["disc.classify", h, x[0]], ["disc.load", "z", '{"entrySize":3,"mapping":[[0,1],[2]],"data":"AA=="}'], ["disc.load", "z", "{%s}" % dj], ["disc.load", "z", "{%s}" % dj],
                        ["disc.load", "z", "{%s}" % dj], ["disc.new", "z", 3, 2, {}], ["disc.new", "z", 2, 2, {"mapping": [[0], [2]]}], ["disc.new", "z", 2, 2, {"indexes": [0, 0]}]])
    elif cls == "bin":
        q = rng.choice([["bin.get", h, m["n"]], ["bin.set", h, m["n"], 1], ["bin.load", "z", "A"], ["bin.load", "z", "!!!!"], ["bin.load", "z", ""]])
    elif cls == "ds":
        q = rng.choice([["ds.get", h, m["n"]], ["ds.label", h, m["n"]], ["ds.add", h, [0, 2], None], ["ds.save", h, "none/x"]] + [["ds.load", "z", f] for f in sorted(FILES) if f.endswith("ds")] + [["ds.load", "z", "none.wpkds"], ["ds.load", "z", "x.txt"]])
    elif cls == "kc":
        q = rng.choice([["kc.transform", h, [[0.5] * (m["dim"] + 1)] * 2], ["kc.transform", h, [[0.5] * m["dim"], []]], ["kc.new", "z", 0, 5, {}], ["kc.new", "z", 2, 0, {}], ["kc.new", "z", 2, 5, {"activationDegree": 1.5}]])
    elif cls == "rdh":
        q = rng.choice([["rdh.new", "z", f] for f in sorted(FILES) if f.endswith("kg")] + [["rdh.new", "z", "none.wdpkg"], ["rdh.new", "z", "A"], ["rdh.get1", h, 99]])
    else:
        return
    rec.attempt(*q)


def case(c):
    if c.t.is_py or c.rng.random() < .3:
        c.sample = leaks(c)
    else:
        c.sample = family(c)
