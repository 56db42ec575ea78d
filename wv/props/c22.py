"""C22: invalid arguments are refused and leave the object as it was."""
import json

from wv import gen, model, sim
from wv.props import c02
from wv.target import Refused

ID = "C22"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 9000, 200000
RULE = ("valid histories of every class are interleaved with invalid calls: inputs of another length, values outside 0..base-1 at a random example and position of a batch, different numbers of examples and labels, "
        "unlabelled data set examples, semi-supervised calls without a usable label, impossible configurations of every constructor (and in saved texts), accesses out of range; after each refusal the decoded state, "
        "predictions and images must be those of a model that learned only the examples before the refused one. Non-trivial: at least one refused call; distinct by trace")
MIN = {"refused_value": 1500, "refused_length": 1500, "refused_counts": 500, "refused_counts_fresh": 100, "refused_first_of_class": 500, "refused_config": 1200, "refused_reads": 1500, "refused_semi": 200, "refused_dataset": 150,
       "refused_unlearn": 200, "refused_loaded": 100, "states_compared": 8000, "predictions": 10000, "refused_access": 300, "refused_transform": 200, "prefix_kept": 1000}
ASSUMPTIONS = ["values are judged only at positions the mapping reads", "a case is left where a cluster score is within rounding of a limit"]
I31 = 2 ** 31


def refused(c, t, q, what, name):
    g = t.attempt(*q)
    c.check(isinstance(g, Refused), "accepted", lambda: "%s was accepted: %s" % (what, str(q)[:700]))
    c.count(name)
    c.nontrivial = True


def bad_value(rng, base):
    return rng.choice([v for v in (base, base + 1, -1, -base, -2, I31 - 1, -I31, rng.randrange(base, I31 + 1), 256, 65536, 2 * base) if not 0 <= v < base and -I31 <= v < I31] or [-1])


def spoil(rng, x, base, e, read=None):
    """-> (bad example, kind). read: positions read by the mapping; None = every position is spoiled."""
    v = gen.unpack(x)
    if rng.random() < .45:
        n = rng.choice([k for k in (e - 1, e + 1, 0, 1, 2 * e, e + 64, max(0, e - 8)) if k != e])
        return gen.image(rng, n, base), "length"
    if read is None:
        return [bad_value(rng, base) for _ in v], "value"
    for p in rng.sample(sorted(read), min(len(read), rng.choice([1, 1, 1, 2]))):
        v[p] = bad_value(rng, base)
    return v, "value"


def reads(m):
    return {p for r in m for p in r}


# ---- Wisard
def wis(c):
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 2, 3, 10, 256, 65536, gen.MAXINT])
    a, e = sim.sizes(rng, base)
    labs = gen.labels(rng, gen.nclasses(rng, [2, 3, 4]))
    o = sim.wis_opts(rng, e, a, base, labs, report=False)
    s = sim.WisSim(c, t, "w", a, e, o)
    ps = sim.protos(rng, e, base, 2)
    pool, learned = [], []

    def read_of(l):
        if l in s.m.classes:
            return reads(s.m.classes[l].mapping)
        if l in (o.get("mapping") or {}):
            return reads(o["mapping"][l])
        return None
    if c.every(401) and e < 200 and not o.get("mapping"):  # many classes: one more is still held to the size of the others
        ls = ["m%03d" % i for i in range(rng.choice([64, 130, 257, 300]))]
        xs = [sim.near(rng, ps, base) for _ in ls]
        s.train(xs, ls)
        pool += xs
        learned += list(zip(xs, ls))
        c.count("many_classes")
        refused(c, t, ["wis.train", "w", [gen.image(rng, e + 1, base)], ["new"]], "training a further class with a wrong length", "refused_length")
    for _ in range(rng.randint(3, 9)):
        k = rng.randint(1, 5)
        xs = [sim.near(rng, ps, base) for _ in range(k)]
        ys = [rng.choice(labs) for _ in range(k)]
        r = rng.random()
        if r < .25:
            s.train(xs, ys)
            pool += xs
            learned += list(zip(xs, ys))
        elif r < .6:
            i = rng.randrange(k)
            x, kind = spoil(rng, xs[i], base, e, read_of(ys[i]))
            if kind == "length" and not s.m.classes and i == 0:
                if o.get("mapping") or o.get("indexes"):
                    continue
                x = gen.image(rng, rng.choice([0, 1, a - 1]), base)
            first = ys[i] not in s.m.classes and ys[i] not in ys[:i]
            xs[i] = x
            if base == 2 and kind == "length" and rng.random() < .4:
                t.do("ds.new", "ds")
                t.do("ds.addM", "ds", xs, [y or "e" for y in ys])
                if "" in ys:
                    continue
                refused(c, t, ["wis.trainDS", "w", "ds"], "a data set with a wrong %s" % kind, "refused_dataset")
            else:
                refused(c, t, ["wis.train", "w", xs, ys], "training with a wrong %s (example %d)" % (kind, i), "refused_" + kind)
            c.count("refused_first_of_class", first)
            c.count("prefix_kept", i > 0)
            s.learn(xs[:i], ys[:i])
            learned += list(zip(xs[:i], ys[:i]))
        elif r < .7:
            n = rng.choice([0, k - 1, k + 1])
            q = (ys + ys)[:n]
            refused(c, t, ["wis.train", "w", xs, q], "%d examples with %d labels" % (k, n), "refused_counts")
            refused(c, t, ["wis.lmo", "w", xs, q], "unlearning %d examples with %d labels" % (k, n), "refused_counts" if s.m.classes else "refused_counts_fresh")
        elif r < .85 and s.m.classes:
            i = rng.randrange(k)
            l = rng.choice(sorted(s.m.classes))
            x, kind = spoil(rng, xs[i], base, e, reads(s.m.classes[l].mapping))
            if rng.random() < .6:
                xs[i] = x
                refused(c, t, ["wis.classify", "w", xs], "classification with a wrong %s" % kind, "refused_reads")
            elif rng.random() < .5 or not learned:
                refused(c, t, ["wis.loo", "w", x, l], "unlearning with a wrong %s" % kind, "refused_unlearn")
            else:
                j = rng.randrange(len(learned))
                g = learned.pop(j)
                refused(c, t, ["wis.lmo", "w", [g[0], x], [g[1], l]], "unlearning with a wrong %s" % kind, "refused_unlearn")
                s.unlearn(*g)
        elif base == 2:
            t.do("ds.new", "ds")
            l = ys[:]
            i = rng.randrange(k)
            l[i] = None
            l = [None if v == "" else v for v in l]
            i = l.index(None)
            t.do("ds.addM", "ds", xs, l)
            refused(c, t, ["wis.trainDS", "w", "ds"], "a data set with an unlabelled example", "refused_dataset")
            s.learn(xs[:i], ys[:i])
            learned += list(zip(xs[:i], ys[:i]))
        s.state("learned state after the call")
        if s.m.classes:
            s.classify(s.probes(pool, 3))
            rng.random() < .3 and s.mental()
    if rng.random() < .4:
        xs = [sim.near(rng, ps, base) for _ in range(len(labs))]
        s.train(xs, labs)
        s.state("state after using the model normally")
        s.classify(s.probes(xs, 3))
    return {"class": "Wisard", "base": base, "entry": e, "address": a}


# ---- Discriminator
def disc(c):
    t, rng = c.t, c.rng
    base = rng.choice(gen.BASES)
    a, e = sim.sizes(rng, base)
    o = {"base": base, "ignoreZero": rng.random() < .4, "completeAddressing": rng.random() < .6}
    if rng.random() < .4:
        o["mapping"] = gen.free_mapping(rng, e, base)
    sim.new_disc(c, t, "d", a, e, o)
    m = json.loads(t.do("disc.json", "d"))["mapping"]
    d = model.Disc(m, e, base, o["ignoreZero"])
    rd = reads(m)
    pool = [gen.image(rng, e, base) for _ in range(3)]
    if not rd:
        return {"class": "Discriminator", "reads": 0}
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        x = gen.mutate(rng, rng.choice(pool), base)
        b, kind = spoil(rng, x, base, e, rd)
        if r < .25:
            t.do("disc.train", "d", x)
            d.train(x)
            pool.append(x)
        elif r < .45:
            refused(c, t, ["disc.train", "d", b], "training with a wrong " + kind, "refused_" + kind)
        elif r < .6:
            k = rng.randint(0, 3)
            refused(c, t, ["disc.trainB", "d", pool[:k] + [b] + pool[:1]], "batch training with a wrong " + kind, "refused_" + kind)
            for y in pool[:k]:
                d.train(y)
            c.count("prefix_kept", k > 0)
        elif r < .7 and base == 2 and kind == "length":
            refused(c, t, [rng.choice(["disc.trainBin", "disc.classifyBin"]), "d", b], "a BinInput of another length", "refused_length")
        elif r < .85:
            refused(c, t, ["disc.classify", "d", b], "classification with a wrong " + kind, "refused_reads")
        elif t.is_cxx:
            refused(c, t, ["disc.untrain", "d", b], "unlearning with a wrong " + kind, "refused_unlearn")
        q = sim.probes(rng, pool, e, base, 3)
        c.eq(t.do("disc.classifyM", "d", q), [d.votes(x) for x in q], "votes", "votes after the call")
        c.eq(model.disc_state(json.loads(t.do("disc.json", "d"))), model.model_state(d), "state", "state after the call")
        c.count("states_compared")
        if t.is_cxx:
            c.eq(t.do("disc.count", "d"), d.count, "count", "number of trainings")
            rng.random() < .3 and c.eq(t.do("disc.mental", "d"), d.mental(), "mental", "mental image")
    return {"class": "Discriminator", "base": base, "entry": e}


# ---- ClusWisard
def clu(c):
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 2, 3, 10, 300])
    a, e = sim.sizes(rng, base)
    a, e = min(a, 20), max(min(a, 20), min(e, 60))
    o = sim.clu_opts(rng, e, a, base)
    ms, th, lim = sim.clu_params(rng)
    s = sim.CluSim(c, t, "u", a, e, ms, th, lim, o)
    labs = gen.labels(rng, gen.nclasses(rng, [2, 3]))
    ps = sim.protos(rng, e, base, 2)
    pool = list(ps)
    full = (o.get("completeAddressing", True) and not o.get("indexes")) or e % a == 0
    try:
        for _ in range(rng.randint(3, 8)):
            k = rng.randint(1, 5)
            xs = [sim.near(rng, ps, base) for _ in range(k)]
            ys = [rng.choice(labs) for _ in range(k)]
            pool += xs
            r = rng.random()
            i = rng.randrange(k)
            x, kind = spoil(rng, xs[i], base, e, set(range(e)) if full else None)
            bad = xs[:i] + [x] + xs[i + 1:]
            if r < .2:
                s.train(xs, ys)
            elif r < .28:
                s.train_unsup(xs)
            elif r < .5:
                if kind == "length" and i == 0 and not s.clusters:
                    if o.get("indexes"):
                        continue
                    bad[0] = gen.image(rng, rng.choice([0, 1, a - 1]), base)
                refused(c, t, ["clu.train", "u", bad, ys], "training with a wrong %s (example %d)" % (kind, i), "refused_" + kind)
                c.count("refused_first_of_class", ys[i] not in s.clusters and ys[i] not in ys[:i])
                c.count("prefix_kept", i > 0)
                s.train(xs[:i], ys[:i], send=False)
            elif r < .62:
                if kind == "length" and i == 0 and s.unsup is None:
                    if o.get("indexes"):
                        continue
                    bad[0] = gen.image(rng, rng.choice([0, 1, a - 1]), base)
                refused(c, t, ["clu.trainU", "u", bad], "unsupervised training with a wrong %s (example %d)" % (kind, i), "refused_" + kind)
                c.count("refused_first_of_class", s.unsup is None and i == 0)
                s.train_unsup(xs[:i], send=False)
            elif r < .78:
                w = rng.random()
                if w < .3:
                    q = rng.choice([[], [[k, labs[0]]], [[-1, labs[0]]], [[k + 5, "new"]]])
                    refused(c, t, ["clu.trainSemi", "u", xs, q], "semi-supervised training without a usable label", "refused_semi")
                elif w < .4:
                    refused(c, t, ["clu.trainSemi", "u", xs, [[j, rng.choice(labs)] for j in range(*rng.choice([(-1, k + 1), (0, k + 1), (-1, k), (0, k + 9)]))]], "more labels than examples", "refused_semi")
                else:
                    lab = {j: rng.choice(labs) for j in range(k) if rng.random() < .6}
                    if not lab:
                        continue
                    order = sorted(lab) + [j for j in range(k) if j not in lab]
                    if kind == "length" and i == 0:
                        bad[0], i = xs[0], None
                    if i is None or (kind == "length" and not s.clusters and order[0] == i):
                        continue
                    refused(c, t, ["clu.trainSemi", "u", bad, [[j, l] for j, l in lab.items()]], "semi-supervised training with a wrong " + kind, "refused_semi")
                    done = order[:order.index(i)]
                    if done:
                        s.refresh()
                        for j in done:
                            s.one(xs[j], lab[j] if j in lab else s.label(xs[j]))
            elif r < .84:
                refused(c, t, ["clu.train", "u", xs, (ys + ys)[:rng.choice([k - 1, k + 1])]], "different numbers of examples and labels", "refused_counts")
            elif s.clusters:
                refused(c, t, ["clu.classify", "u", bad], "classification with a wrong " + kind, "refused_reads")
                if s.unsup:
                    refused(c, t, ["clu.classifyU", "u", bad], "unsupervised classification with a wrong " + kind, "refused_reads")
            s.state("state after the call")
            q = sim.probes(rng, pool, e, base, 3)
            s.classify(q)
            s.classify_unsup(q)
            rng.random() < .2 and s.mental()
    except model.Borderline:
        c.count("borderline")
    return {"class": "ClusWisard", "base": base, "entry": e, "limit": lim}


# ---- configurations
def late(c, what, q, use):
    """The constructor or the first use must refuse, repeatedly."""
    t, rng = c.t, c.rng
    g = t.attempt(*q)
    c.count("refused_config")
    c.nontrivial = True
    if isinstance(g, Refused):
        g = t.attempt(*q)
        c.check(isinstance(g, Refused), "config-accepted", lambda: "%s: accepted at the second attempt: %s" % (what, q))
        return
    for _ in range(2):
        g = t.attempt(*use)
        c.check(isinstance(g, Refused), "config-accepted", lambda: "%s: constructed by %s and used by %s without an exception" % (what, str(q)[:600], str(use)[:200]))
    kind = q[0].split(".")[0]
    if kind == "wis":
        st = model.wis_state(t.do("wis.json", q[1]))
        c.check(not st, "config-trace", lambda: "%s: the refused training left %s" % (what, st))
    elif kind == "clu":
        st = model.clu_state(t.do("clu.json", q[1]))
        c.check(not st["clusters"] and not st["unsup"], "config-trace", lambda: "%s: the refused training left %s" % (what, st))


def over(rng):
    """base and address size just beyond 2^64."""
    base = rng.choice([b for b in gen.BASES if gen.max_addr(b) >= 2])
    a = gen.max_addr(base) + rng.choice([1, 1, 1, 2, 10])
    return base, a


def config(c):
    t, rng = c.t, c.rng
    for _ in range(rng.randint(2, 5)):
        e = rng.choice([2, 3, 5, 8, 16, 65])
        a = rng.randint(2, min(e, 8))
        x = gen.image(rng, e, 2)
        w = rng.choice(["address", "address", "base", "base", "limit", "limit", "entry", "confidence", "params", "params", "loaded", "kernel", "kernel", "types", "indexes", "indexes"])
        if w == "address":
            bad = rng.choice([1, 0, -1, -2, -I31, 1, e + 1, e + 7, I31 - 1])
            late(c, "address size %d" % bad, ["wis.new", "w", bad, {}], ["wis.train", "w", [x], ["a"]])
            late(c, "address size %d" % bad, ["disc.new", "d", bad, e, {}], ["disc.train", "d", x])
            late(c, "address size %d" % bad, ["clu.new", "u", bad, 0.1, 5, 2, {}], rng.choice([["clu.train", "u", [x], ["a"]], ["clu.trainU", "u", [x]], ["clu.trainSemi", "u", [x], [[0, "a"]]]]))
        elif w == "base":
            o = {"base": rng.choice([1, 0, -1, -2, -I31])}
            y = "0" * e
            late(c, "base %d" % o["base"], ["wis.new", "w", a, o], ["wis.train", "w", [y], ["a"]])
            late(c, "base %d" % o["base"], ["disc.new", "d", a, e, o], ["disc.train", "d", y])
            late(c, "base %d" % o["base"], ["clu.new", "u", a, 0.1, 5, 2, o], rng.choice([["clu.train", "u", [y], ["a"]], ["clu.trainU", "u", [y]]]))
        elif w == "limit":
            base, a2 = over(rng)
            e2 = a2 * rng.randint(1, 2) + rng.randint(0, 1)
            y = gen.image(rng, e2, base)
            o = {"base": base}
            what = "%d addresses of base %d" % (a2, base)
            late(c, what, ["wis.new", "w", a2, o], ["wis.train", "w", [y], ["a"]])
            late(c, what, ["disc.new", "d", a2, e2, o], ["disc.train", "d", y])
            late(c, what, ["clu.new", "u", a2, 0.1, 5, 2, o], rng.choice([["clu.train", "u", [y], ["a"]], ["clu.trainU", "u", [y]]]))
            m = [[rng.randrange(e2) for _ in range(2)], [rng.randrange(e2) for _ in range(a2)]]
            late(c, what + " in a mapping", ["wis.new", "w", 2, dict(o, mapping={"a": m})], ["wis.train", "w", [y], ["a"]])
            late(c, what + " in a mapping", ["disc.new", "d", 2, e2, dict(o, mapping=m)], ["disc.train", "d", y])
        elif w == "entry":
            bad = rng.choice([1, 0, -1, -I31, a - 1])
            late(c, "entry size %d" % bad, ["disc.new", "d", a, bad, {}], ["disc.train", "d", "0" * max(bad, 0)])
            y = "1" * rng.choice([0, 1, a - 1])
            late(c, "entry size %d" % len(y), ["wis.new", "w", a, {}], ["wis.train", "w", [y], ["a"]])
            late(c, "entry size %d" % len(y), ["clu.new", "u", a, 0.1, 5, 2, {}], rng.choice([["clu.train", "u", [y], ["a"]], ["clu.trainU", "u", [y]]]))
        elif w == "confidence":
            comp = rng.random() < .5
            n = sim.nrams(e, a, comp)
            t.batch([["ds.new", "ds"], ["ds.addM", "ds", [x], ["a"]]])
            o = {"confidence": n + rng.choice([1, 1, 2, 1000]), "completeAddressing": comp}
            late(c, "confidence %d with %d RAMs" % (o["confidence"], n), ["wis.new", "w", a, o], rng.choice([["wis.train", "w", [x], ["a"]], ["wis.trainDS", "w", "ds"]]))
            late(c, "confidence %d with %d RAMs" % (o["confidence"], n), ["clu.new", "u", a, 0.1, 5, 2, o], rng.choice([["clu.train", "u", [x], ["a"]], ["clu.trainSemi", "u", [x], [[0, "a"]]]]))
        elif w == "params":
            p = [rng.choice(sim.MS), rng.choice(sim.TH), rng.randint(1, 5)]
            i = rng.randrange(3)
            p[i] = rng.choice([[-0.1, 1.1, 2, -1, 1e9, float("nan"), float("inf"), -1e-3], [0, -1, -5, -I31], [0, -1, -3, -I31]][i])
            refused(c, t, ["clu.new", "u", a] + p + [{}], "minScore, threshold, limit = %s" % p, "refused_config")
        elif w == "loaded":
            loaded(c, e, a, x)
        elif w == "indexes":
            if rng.random() < .7:
                o = {"indexes": c02.bad_indexes(rng, e)}
                m = None
            else:
                if rng.random() < .4:  # one bad position among hundreds or thousands of RAMs
                    e = rng.choice([100, 700, 3000, 12000])
                    x = gen.image(rng, e, 2)
                    m = [[rng.randrange(e) for _ in range(rng.randint(2, 4))] for _ in range(rng.choice([e // 4, e // 2, e]))]
                    c.count("large_mappings")
                else:
                    m = gen.free_mapping(rng, e, 2)
                q = rng.choice(m)
                q[rng.choice([0, -1, rng.randrange(len(q))])] = c02.bad_entry(rng, e)
                o = {"mapping": m}
            what = "%s of an entry of %d" % (str(o)[:300], e)
            late(c, what, ["disc.new", "d", a, e, o], ["disc.train", "d", x])
            late(c, what, ["wis.new", "w", a, {"mapping": {"a": m}} if m else o], ["wis.train", "w", [x], ["a"]])
            m or late(c, what, ["clu.new", "u", a, 0.1, 5, 2, o], rng.choice([["clu.train", "u", [x], ["a"]], ["clu.trainSemi", "u", [x], [[0, "a"]]]]))
        elif w == "kernel":
            d, n = rng.randint(1, 4), rng.randint(1, 9)
            o = {}
            k = rng.randrange(4)
            if k == 0:
                d = rng.choice([0, -1, -I31])
            elif k == 1:
                n = rng.choice([0, -1, -I31])
            elif k == 2:
                o["bitsByKernel"] = rng.choice([0, -1, -I31])
            else:
                o["activationDegree"] = rng.choice([-0.1, 1.1, -1, 2, 1e9, float("nan"), float("inf")])
            if rng.random() < .3:
                o["useDirection"] = rng.random() < .5
            late(c, "kernel canvas dim %d, kernels %d, %s" % (d, n, o), ["kc.new", "k", d, n, o], ["kc.transform", "k", [[0.5] * max(d, 0)] * 2])
        else:
            types(c, e, a, x)
    return {"class": "configurations"}


def types(c, e, a, x):
    """Values of another type for an option."""
    t, rng = c.t, c.rng
    o = {rng.choice(["base", "confidence"]): rng.choice(["2", [2], {}])} if rng.random() < .5 else {rng.choice(["indexes", "mapping"]): rng.choice([3, "abc", True])}
    late(c, "option %s" % o, ["wis.new", "w", a, o], ["wis.train", "w", [x], ["a"]])
    if "confidence" not in o:
        late(c, "option %s" % o, ["disc.new", "d", a, e, o], ["disc.train", "d", x])


def loaded(c, e, a, x):
    """The same limits for saved texts."""
    t, rng = c.t, c.rng
    r = rng.random()
    if r < .5:
        t.do("clu.new", "u", a, 0.3, 5, 3, {})
        if rng.random() < .6:
            t.do("clu.train", "u", [x], ["a"])
        j = json.loads(t.do("clu.json" if rng.random() < .7 else "clu.jsonConfig", "u"))
        k = rng.choice(["minScore", "threshold", "discriminatorsLimit"])
        j[k] = {"minScore": rng.choice([-0.5, 1.5, 7]), "threshold": rng.choice([0, -1]), "discriminatorsLimit": rng.choice([0, -2])}[k]
        refused(c, t, ["clu.load", "v", json.dumps(j)], "a saved model with %s %s" % (k, j[k]), "refused_loaded")
    else:
        t.do("disc.new", "d", a, e, {})
        j = json.loads(t.do("disc.json" if rng.random() < .5 else "disc.jsonConfig", "d"))
        if rng.random() < .5:
            j["base"] = rng.choice([1, 0, -3])
        else:
            m = rng.choice(j["mapping"])
            m[rng.randrange(len(m))] = rng.choice([-1, e, e + 100, I31 - 1])
        refused(c, t, ["disc.load", "v", json.dumps(j)], "a saved discriminator with base %s, mapping %s, entry %d" % (j["base"], j["mapping"], e), "refused_loaded")


# ---- BinInput, DataSet, KernelCanvas
def small(c):
    t, rng = c.t, c.rng
    n = rng.choice([0, 1, 7, 8, 9, 30])
    bits = [rng.randrange(2) for _ in range(n)]
    t.do("bin.vec", "b", gen.pack(bits, 2))
    out = [i for i in (n, n + 1, n + 7, 8 * ((n + 7) // 8), 2 ** 31, 2 ** 63 - 1) if i >= n]
    for _ in range(rng.randint(2, 6)):
        i = rng.choice(out)
        r = rng.random()
        if r < .35:
            refused(c, t, [rng.choice(["bin.get", "bin.idx"]) if t.is_cxx else "bin.get", "b", i], "BinInput of %d bits read at %d" % (n, i), "refused_access")
        elif r < .7:
            refused(c, t, ["bin.set", "b", i, rng.randrange(2)], "BinInput of %d bits written at %d" % (n, i), "refused_access")
        elif n:
            refused(c, t, ["bin.set", "b", rng.randrange(n), rng.choice([2, -1, 255, 256, I31 - 1])], "a bit set to another value", "refused_value")
        else:
            refused(c, t, ["bin.vec", "x", [0, 1, rng.choice([2, -1, 7])]], "a BinInput of other values", "refused_value")
        c.eq(t.do("bin.all", "b"), bits, "state", "bits after the call")
    t.do("ds.new", "d")
    ex = [("".join(rng.choice("01") for _ in range(rng.randint(1, 9))), rng.choice([None, "l"])) for _ in range(rng.randint(0, 4))]
    for x, l in ex:
        t.do("ds.add", "d", x, l)
    for _ in range(rng.randint(1, 4)):
        k = len(ex)
        i = rng.choice([k, k + 1, -1, I31 - 1, -I31])
        refused(c, t, ["ds.get", "d", i], "data set of %d read at %d" % (k, i), "refused_access")
        refused(c, t, ["ds.label", "d", i], "data set of %d, label %d" % (k, i), "refused_access")
        if rng.random() < .5:
            refused(c, t, ["ds.add", "d", [0, rng.choice([2, -1, 300])], rng.choice([None, "bad"])], "an example of other values", "refused_value")
        c.eq(t.do("ds.size", "d"), k, "state", "size of the data set")
        for i, (x, l) in enumerate(ex):
            c.eq(t.do("ds.get", "d", i), gen.unpack(x), "state", "example of the data set")
            g = t.attempt("ds.label", "d", i)
            c.check((g == l) if l else isinstance(g, Refused), "state", lambda: "label %d: %s" % (i, g))
    d = rng.randint(1, 4)
    t.do("kc.new", "k", d, rng.choice([1, 5, 20]), {"useDirection": rng.random() < .3})
    s = [[rng.gauss(0, 1) for _ in range(d)] for _ in range(rng.randint(2, 6))]
    out = t.do("kc.transform", "k", s)
    for _ in range(2):
        b = [list(p) for p in s]
        i = rng.randrange(len(b))
        b[i] = (b[i] + [0.5] * 9)[:rng.choice([q for q in (0, d - 1, d + 1, 2 * d) if q != d])]
        refused(c, t, ["kc.transform", "k", b], "a sequence whose point %d has another dimension" % i, "refused_transform")
        c.eq(t.do("kc.transform", "k", s), out, "state", "transform after the refused one")
    return {"class": "BinInput, DataSet, KernelCanvas"}


def case(c):
    c.sample = c.rng.choice([wis, wis, wis, disc, clu, clu, config, small])(c)
