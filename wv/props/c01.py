"""C01: RAM votes are exact counts of matching learned examples."""
import json

from wv import gen, model, scale, sim
from wv.target import Refused

ID = "C01"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 8000, 200000
RULE = ("random discriminators (shuffled, indexes, free mapping, reloaded; base 2..2^31-1, up to the 64-bit address limit) run a random "
        "history of train/unlearn/save+reload/classify; every returned vote vector is compared with a multiset count of the learned tuples. "
        "Non-trivial: at least 10 votes were compared and some were > 0; distinct by the request trace")
MIN = {"votes_compared": 20000, "votes_positive": 2000, "refused_as_specified": 40, "accepted_at_limit": 20, "huge_entries": 8, "wide_rams": 2}
ASSUMPTIONS = ["the mapping reported by json() names the positions a RAM reads (a difference shows as a vote mismatch)"]


def make(c, h, t):
    """-> (model or None if refused)"""
    rng = c.rng
    base = rng.choice(gen.BASES)
    iz = rng.random() < .4
    mx = gen.max_addr(base)
    how = rng.choice(["shuffle", "shuffle", "indexes", "mapping", "mapping", "limit"])
    opts = {"base": base, "ignoreZero": iz}
    if how == "limit":  # around the 2^64 limit
        a = rng.choice([mx, mx, mx + 1, mx + 1, mx + 2, 2 * mx, 3 * mx + 1, rng.randint(mx + 1, 200)])
        a = max(a, 2)
        e = a + rng.choice([0, 0, 1, a])
        how2 = rng.choice(["shuffle", "mapping"])
        if how2 == "mapping":
            m = [[rng.randrange(e) for _ in range(2)] for _ in range(rng.randint(0, 2))] + [[rng.randrange(e) for _ in range(a)]]
            rng.shuffle(m)
            opts["mapping"] = m
        r = sim.new_disc(c, t, h, a, e, opts, attempt=True)
        if a > mx:
            c.check(isinstance(r, Refused), "unaddressable", lambda: "a RAM of %d positions of base %d was accepted" % (a, base))
            c.count("refused_as_specified")
            return None
        if isinstance(r, Refused):
            c.fail("refused-addressable", "base %d address size %d needs at most 2^64 addresses but was refused: %s" % (base, a, r))
        c.count("accepted_at_limit")
    else:
        a = gen.addr_size(rng, base)
        e = a * rng.randint(1, 6) + rng.choice([0, 0, rng.randrange(a)])
        huge = c.every(251)
        if huge:
            a, e = min(mx, rng.choice([2, 3, 8])), rng.choice([66000, 70001, 140000])
            c.count("huge_entries")
        if how == "indexes":
            ix = list(range(e))
            rng.shuffle(ix)
            opts["indexes"] = ix
        elif how == "mapping":
            if not huge:
                e = rng.randint(2, 90)
            opts["mapping"] = gen.free_mapping(rng, e, base)
        else:
            opts["completeAddressing"] = rng.random() < .7
        sim.new_disc(c, t, h, a, e, opts)
    js = json.loads(t.do("disc.json", h))
    if "mapping" in opts:
        c.eq(js["mapping"], opts["mapping"], "mapping", "explicit mapping in json()")
    return model.Disc(js["mapping"], e, base, iz)


def probes(c, d, pool, n):
    rng = c.rng
    out = []
    for _ in range(n):
        r = rng.random()
        if pool and r < .4:
            out.append(rng.choice(pool))
        elif pool and r < .8:
            out.append(gen.mutate(rng, rng.choice(pool), d.base))
        else:
            out.append(gen.image(rng, d.entry, d.base))
    return out


def compare(c, t, h, d, xs):
    if not xs:
        return
    if d.base == 2 and c.rng.random() < .3:
        got = t.batch([["disc.classifyBin", h, x] for x in xs])
    else:
        got = t.do("disc.classifyM", h, xs)
    for x, g in zip(xs, got):
        if isinstance(g, Refused):
            raise g
        w = d.votes(x)
        c.count("votes_compared", len(w))
        c.count("votes_positive", sum(1 for v in w if v > 0))
        if g != w:
            i = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
            c.fail("vote", "votes of %s: RAM %d (positions %s, base %d, ignoreZero %s) voted %s, %s learned examples match" % (
                x, i, d.mapping[i] if i < len(d.mapping) else None, d.base, d.iz, g[i:i + 1], w[i:i + 1]))


def case(c):
    t, rng = c.t, c.rng
    if c.every(997):
        w = scale.Wide(c, False)
        w.votes()
        w.t.do("disc.load", "e", w.json())
        w.votes("e", "votes after reloading")
        return
    h = "d"
    d = make(c, h, t)
    if d is None:
        c.nontrivial = True
        return
    pool = []
    learned = []
    positive = c.counts["votes_positive"]
    for step in range(rng.randint(3, 14)):
        op = rng.random()
        if op < .35 or not learned:
            x = probes(c, d, pool, 1)[0]
            n = rng.choice([1, 1, 1, 2, 5])
            if rng.random() < .04 and d.entry < 60000:
                n = rng.choice([127, 128, 255, 256, 300, 1000])
                if rng.random() < .25:
                    n = rng.choice([32768, 65535, 65536, 70000])
            if d.base == 2 and n == 1 and rng.random() < .4:
                t.do("disc.trainBin", h, x)
            elif n > 1:
                t.do("disc.trainN", h, x, n)
            else:
                t.do("disc.train", h, x)
            d.train(x, n)
            pool.append(x)
            learned += [x] * min(n, 5)
        elif op < .5:
            xs = probes(c, d, pool, rng.randint(1, 12))
            t.do("disc.trainB", h, xs)
            for x in xs:
                d.train(x)
            pool += xs
            learned += xs
        elif op < .65 and t.is_cxx:
            x = learned.pop(rng.randrange(len(learned)))
            t.do("disc.untrain", h, x)
            d.untrain(x)
            c.count("unlearned")
        elif op < .75:
            s = t.do("disc.json", h)
            t.do("disc.load", h, s)
            c.count("reloads")
        compare(c, t, h, d, probes(c, d, pool, rng.randint(1, 6)))
    zero = gen.pack([0] * d.entry, d.base)
    compare(c, t, h, d, [zero, gen.pack([d.base - 1] * d.entry, d.base)])
    # near collisions: examples that differ in one position of one RAM only
    for _ in range(4):
        m = rng.choice(d.mapping) if d.mapping else []
        if m and pool:
            v = gen.unpack(rng.choice(pool))
            p = rng.choice([m[0], m[-1], rng.choice(m)])
            v[p] = rng.choice([v[p] ^ 1 if v[p] ^ 1 < d.base else 0, 0, d.base - 1, (v[p] + d.base // 2) % d.base])
            compare(c, t, h, d, [gen.pack(v, d.base)])
    c.eq(model.disc_state(json.loads(t.do("disc.json", h)))["count"], d.count, "count", "training count")
    c.nontrivial = c.counts["votes_compared"] >= 10 and c.counts["votes_positive"] > positive
    c.sample = {"base": d.base, "entry": d.entry, "ignoreZero": d.iz, "rams": len(d.mapping), "learned": d.count}
