"""C12: semi-supervised training uses exactly the examples it was given."""
from wv import gen, model, sim
from wv.target import Refused
from wv.props.c11 import big, make

ID = "C12"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 3500, 100000
RULE = ("ClusWisard.train(examples, {index: label}) with random partial labellings (also outside the data, negative, huge, all, none, in any dictionary order) on fresh and on trained models; the "
        "whole learned state is compared with a model that learns the labelled examples in order and then each other example once under the class predicted at that moment; a labelling "
        "without any usable index must be rejected. Non-trivial: at least one example was self-labelled, or a rejection was observed")
MIN = {"calls": 5000, "self_labelled": 12000, "states_compared": 5000, "outside_indexes": 1500, "rejected": 300, "all_labelled": 200, "on_trained_model": 1500, "empty_data": 50, "big_calls": 3}
ASSUMPTIONS = ["more labels than examples may be refused as a whole", "a rejected call may be checked after or before learning nothing"]


def case(c):
    t, rng = c.t, c.rng
    if c.every(331):
        return big(c, ("m",))
    s = make(c)
    if rng.random() < .4:
        s.limit, s.th = 1, s.th
        s.t.do("clu.new", "w", s.a, s.ms, s.th, 1, s.o)
    labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3, 4]))
    ps = sim.protos(rng, s.e, s.base, rng.choice([1, 2, 3]))
    try:
        if rng.random() < .5:
            n = rng.randint(1, 6)
            s.train([sim.near(rng, ps, s.base) for _ in range(n)], [rng.choice(labs) for _ in range(n)])
            if rng.random() < .3:
                s.train_unsup([sim.near(rng, ps, s.base)])
            c.count("on_trained_model")
        for _ in range(rng.randint(1, 4)):
            n = rng.choice([1, 2, 3, 4, 6, 10, 20])
            xs = [sim.near(rng, ps, s.base, rng.choice([0, .05, .2])) for _ in range(n)]
            k = rng.choice([1, 1, 2, n // 2, n, rng.randint(0, n)])
            idx = rng.sample(range(n), min(n, k))
            y = [[i, rng.choice(labs)] for i in idx]
            out = []
            while len(y) + len(out) < n and rng.random() < .4:
                i = rng.choice([n, n, n + 1, -1, -n, 2 ** 31 - 1, -2 ** 31, 2 * n + 5])
                if i not in [z[0] for z in out]:
                    out.append([i, rng.choice(labs + ["outside only"])])
            y = y + out
            rng.shuffle(y)
            if rng.random() < .04:
                t.do("clu.trainSemi", "w", [], [])
                c.count("empty_data")
                s.state("after an empty semi-supervised call")
            if out:
                c.count("outside_indexes")
            if not idx:
                r = t.attempt("clu.trainSemi", "w", xs, y)
                c.check(isinstance(r, Refused), "not-rejected", lambda: "no example of %d is labelled by %s but the call was accepted" % (n, y))
                s.refresh()
                s.state("after a rejected semi-supervised call")
                c.count("rejected")
                c.nontrivial = True
                continue
            if len(idx) == n:
                c.count("all_labelled")
            c.count("calls")
            before = sum(d.count for cl in s.clusters.values() for d in cl.discs)
            s.train_semi(xs, y)
            s.state("after semi-supervised training with labels %s of %d examples" % (y, n))
            if s.limit == 1:
                got = sum(d["count"] for ds in s.got["clusters"].values() for d in ds)
                c.eq(got - before, n, "conservation", "examples learned by the call")
            s.classify(sim.probes(rng, xs, s.e, s.base, 3))
            c.nontrivial = c.nontrivial or len(idx) < n
    except model.Borderline:
        c.count("borderline")
    c.sample = {"minScore": s.ms, "threshold": s.th, "limit": s.limit, "counts": {l: [d.count for d in v.discs] for l, v in s.clusters.items()}}
