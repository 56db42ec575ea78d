"""C30: arguments and results are never shared with the objects."""
import os

from wv import gen
from wv.props.c21 import CLS, Logger, Prog, norm
from wv.props.c25 import FILES, bad
from wv.target import Refused, short

ID = "C30"
KINDS = ["gen", "gen", "py"]
QUICK, THOROUGH = 3000, 60000
TIMEOUT = 120
RULE = ("the same random program over the whole API (valid and refused calls) runs in two processes: in one every argument (lists, label lists and maps, options, texts, sequences, copies of the BinInput, DataSet and RAMDataHandle passed) is kept, "
        "compared with a copy of itself after the call, then overwritten and destroyed, and every returned container is overwritten; in the other nothing of the kind happens. No argument may have changed and all later replies must be equal. "
        "Non-trivial: at least 10 calls with arguments; distinct by program")
MIN = {"calls": 40000, "compared": 40000, "refused_calls": 1500, "label_maps": 800, "lent_objects": 1000, "returned_bits": 500}
ASSUMPTIONS = ["the reference DataSet::get returns in C++ is a view of the data set by design"]


def labelled(p, rec, rng):
    """Partly labelled data: the only container the library takes by non-const reference."""
    h = p.pick("clu")
    if h is None:
        return p.new("clu")
    m = p.h["clu"][h]
    xs = p.xs(m, rng.randint(1, 6))
    k = rng.sample(range(len(xs)), rng.randint(1, len(xs)))
    y = [[i, rng.choice(m["labels"])] for i in k]
    if rng.random() < .5 and len(y) < len(xs):
        y.append([rng.choice([len(xs), -1, 99]), "outside"])
    rec.attempt("clu.trainSemi", h, xs, y)
    p.c.count("label_maps")


def lent(p, rec, rng):
    """Library objects as arguments."""
    c = p.c
    c.count("lent_objects")
    r = rng.random()
    if r < .4:
        b, d = p.pick("bin"), p.pick("ds")
        if b is None or d is None:
            return p.new("bin" if b is None else "ds")
        if p.h["bin"][b]["n"] < 2048:
            l = rng.choice([None, "l", "é"])
            rec.do("ds.addBin", d, b, l)
            p.h["ds"][d]["n"] += 1
            p.h["ds"][d]["lab"].append(l)
            if rng.random() < .5:
                rec.do("del", b)
                del p.h["bin"][b]
            n = p.h["ds"][d]["n"]
            for i in {n - 1, rng.randrange(n)}:
                rec.do("ds.get", d, i)
                rec.do("ds.get", d, i)
                c.count("returned_bits", 2)
    elif r < .75:
        h = p.pick("wis")
        if h is None or p.h["wis"][h]["base"] != 2 or p.h["wis"][h]["e"] >= 2048:
            return p.new("wis")
        m, d = p.h["wis"][h], p.name()
        rec.do("ds.new", d)
        for x in p.xs(m):
            rec.do("ds.add", d, x, rng.choice(m["labels"]) or "x")
        rec.do(rng.choice(["wis.trainDS", "wis.classifyDS"]), h, d)
        rec.do("del", d)
        rec.do("wis.json", h)
    else:
        a, b = p.pick("rdh"), p.pick("rdh")
        if a is None:
            return p.new("rdh")
        rec.do("rdh.compare", a, b)
        rec.do("rdh.data", a)
        rec.do("rdh.data", b)


def observe(p, rec):
    """Everything that can be seen of all objects."""
    for cls, qs in (("wis", ["json", "mental"]), ("clu", ["json", "mentals"]), ("disc", ["json"]), ("bin", ["data", "all"]), ("ds", ["size"]), ("rdh", ["data"])):
        for h in sorted(p.h[cls]):
            for q in qs:
                rec.do("%s.%s" % (cls, q), h)
            if cls == "ds":
                for i in range(min(p.h["ds"][h]["n"], 12)):
                    rec.do("ds.get", h, i)
                    rec.attempt("ds.label", h, i)


def case(c):
    rng, t = c.rng, c.t
    p = Prog(c, t)

    def place(t):
        d = c.scratch()
        os.makedirs(os.path.join(d, "q"))
        for f, x in FILES.items():
            with open(os.path.join(d, f), "w") as o:
                o.write(x)
        return d
    start = [["clock", rng.randrange(1, 2 ** 31)], ["crand", rng.randrange(1 << 31), 3]]
    t.batch([["chdir", place(t)]] + start + [["alias", True]])
    rec = Logger(p)
    p.t = rec
    focus = rng.choice(CLS) if rng.random() < .5 else None
    try:
        for _ in range(rng.randint(12, 40)):
            r = rng.random()
            cls = focus if focus and rng.random() < .6 else rng.choice(CLS)
            if r < .05:
                p.drop()
            elif r < .17 or not p.h[cls]:
                p.new(cls)
            elif r < .24:
                bad(rec, rng, cls, p.pick(cls), p.h[cls])
                c.count("refused_calls")
            elif r < .34:
                labelled(p, rec, rng)
            elif r < .48:
                lent(p, rec, rng)
            else:
                p.use(cls)
        observe(p, rec)
    finally:
        if t.p is not None:
            t.attempt("alias", False)
    first = [norm(r) for _, r in rec.log]

    def again(n, on):
        o = c.target(c.kind, n)
        o.batch([["reset"], ["chdir", place(o)]] + start + [["alias", on]])
        out = [norm(x) for x in o.batch([q for q, _ in rec.log])]
        o.batch([["alias", False], ["reset"]])
        return out
    other = again(1, False)
    c.count("compared", len(first))
    if other != first:
        if again(0, True) == first and again(1, False) == other:
            i = next(i for i in range(len(first)) if first[i] != other[i])
            c.fail("shared", "%s replied %s where the arguments of earlier calls were overwritten afterwards, and %s where not" % (short(rec.log[i][0]), short(first[i]), short(other[i])))
        c.count("not_reproducible")
    t.batch([["reset"]])
    c.nontrivial = len(first) >= 10
    c.sample = {"target": t.kind, "calls": len(first), "ops": sorted({q[0] for q, r in rec.log})}
