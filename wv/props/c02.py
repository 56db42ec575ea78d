"""C02: the input mapping is well formed, honours the configuration and is stable."""
import json

from wv import gen, model, sim
from wv.target import Refused

ID = "C02"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 9000, 150000
RULE = ("Discriminator, Wisard and ClusWisard objects with random entry/address sizes, completeAddressing, indexes or explicit mapping; the mapping "
        "reported for every discriminator is checked against the configuration, probed by votes, and compared after every further operation "
        "(training, classification, save, reload). Non-trivial: at least one mapping was checked or one bad configuration was refused")
MIN = {"mappings_checked": 3000, "stability_checks": 3000, "bad_entries_refused": 200, "remainder_mappings": 300, "positions_probed": 2000}
ASSUMPTIONS = []


def shape(c, m, e, a, complete, what):
    c.count("mappings_checked")
    n = e // a + (1 if complete and e % a else 0)
    if e % a:
        c.count("remainder_mappings")
    c.eq(len(m), n, "rams", what + ": number of RAMs for entry %d address %d complete %s" % (e, a, complete))
    seen = [0] * e
    for r in m:
        c.eq(len(r), a, "address-size", what + ": positions of a RAM")
        for p in r:
            c.check(isinstance(p, int) and 0 <= p < e, "range", lambda: what + ": position %r outside of entry %d" % (p, e))
            seen[p] += 1
    if e % a == 0:
        c.check(all(s == 1 for s in seen), "not-once", lambda: what + ": entry %d address %d: times read %s" % (e, a, seen))
    elif complete:
        c.check(all(s >= 1 for s in seen), "unread", lambda: what + ": entry %d address %d: positions never read %s" % (e, a, [i for i in range(e) if not seen[i]]))
    else:
        c.check(all(s <= 1 for s in seen), "twice", lambda: what + ": entry %d address %d: positions read more than once" % (e, a))


def sizes(rng):
    a = rng.choice([2, 2, 3, 4, 5, 7, 8, 16, 31, 32, 63, 64, rng.randint(2, 64)])
    r = rng.random()
    if r < .3:
        e = a * rng.randint(1, 12)
    elif r < .8:
        e = a * rng.randint(1, 12) + rng.randrange(a)
    elif r < .95:
        e = rng.choice([a, a + 1, 2 * a - 1])
    elif r < .993:
        e = rng.randint(a, 3000)
    else:
        e = a * rng.choice([130, 260, 1100, 2100, 4200, 9000, rng.randint(100, 10000)]) + rng.choice([0, 1, rng.randrange(a)])
    return a, e


def bad_entry(rng, e):
    return rng.choice([e, e, e + 1, -1, -1, -e, 2 * e, 2 ** 31 - 1, -2 ** 31, e + 2 ** 16])


def bad_indexes(rng, e):
    ix = list(range(e))
    rng.shuffle(ix)
    r = rng.random()
    if r < .4:
        ix[rng.choice([0, e - 1, rng.randrange(e)])] = bad_entry(rng, e)
    elif r < .5:
        ix = ix[:-1]
    elif r < .6:
        ix = ix + [rng.randrange(e)]
    else:
        i, j = rng.sample(range(e), 2)
        if rng.random() < .5:
            i, j = rng.choice([(e - 1, 0), (0, e - 1), (e - 1, e - 2), (1, 0), (e - 1, rng.randrange(e - 1))])
        ix[i] = ix[j]
    return ix


def config(c, e, a, explicit):
    """-> options, expected(m, what)"""
    rng = c.rng
    o = {}
    if rng.random() < .8:
        o["completeAddressing"] = rng.random() < .5
    comp = o.get("completeAddressing", True)
    r = rng.random()
    if r < .3:
        ix = list(range(e))
        rng.shuffle(ix)
        o["indexes"] = ix

        def exp(m, what):
            c.count("mappings_checked")
            c.eq(m, [ix[i * a:(i + 1) * a] for i in range(e // a)], "indexes", what + ": mapping from indexes")
    elif r < .5 and explicit:
        mp = gen.free_mapping(rng, e, 2)

        def exp(m, what):
            c.count("mappings_checked")
            c.eq(m, mp, "explicit", what + ": explicit mapping")
        o["mapping"] = mp
    else:
        def exp(m, what):
            shape(c, m, e, a, comp, what)
    return o, exp


def probe(c, votes, m, e, what):
    """The positions really read: a discriminator that learned one example votes 1 exactly where the input agrees on the RAM."""
    rng = c.rng
    x = [rng.randrange(2) for _ in range(e)]
    y = list(x)
    for p in rng.sample(range(e), rng.randint(1, max(1, e // 4))):
        y[p] ^= 1
        c.count("positions_probed")
    return "".join(map(str, x)), "".join(map(str, y)), [1 if all(x[p] == y[p] for p in r) else 0 for r in m]


def disc(c):
    t, rng = c.t, c.rng
    a, e = sizes(rng)
    if rng.random() < .2:
        o = {"indexes": bad_indexes(rng, e)} if rng.random() < .5 else None
        if o is None:
            m = gen.free_mapping(rng, e, 2)
            r = rng.choice(m)
            r[rng.randrange(len(r))] = bad_entry(rng, e)
            o = {"mapping": m}
        r = sim.new_disc(c, t, "d", a, e, o, attempt=True)
        c.check(isinstance(r, Refused), "bad-accepted", lambda: "entry %d, address %d accepted %s" % (e, a, str(o)[:400]))
        c.count("bad_entries_refused")
        return
    o, exp = config(c, e, a, True)
    sim.new_disc(c, t, "d", a, e, o)
    m0 = json.loads(t.do("disc.jsonConfig", "d"))["mapping"]
    exp(m0, "Discriminator")
    x, y, want = probe(c, None, m0, e, "Discriminator")
    t.do("disc.train", "d", x)
    c.eq(t.do("disc.classify", "d", y), want, "probe", "votes with the reported mapping")
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < .3:
            t.do("disc.trainB", "d", [gen.image(rng, e) for _ in range(rng.randint(0 if t.is_cxx else 1, 4))])
        elif r < .5:
            t.do("disc.classify", "d", gen.image(rng, e))
        elif r < .6:
            t.attempt("disc.train", "d", gen.image(rng, e + 1))
        elif r < .8:
            t.do("disc.load", "d", t.do("disc.json", "d", *([] if rng.random() < .6 else [True, "s"])))
        elif t.is_cxx:
            t.do("disc.mental", "d")
        c.eq(json.loads(t.do("disc.json", "d"))["mapping"], m0, "stable", "mapping of the discriminator afterwards")
        c.count("stability_checks")


def maps_wis(text):
    return {k: v["mapping"] for k, v in (json.loads(text)["classes"] or {}).items()}


def wis(c):
    t, rng = c.t, c.rng
    a, e = sizes(rng)
    labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3, 4, 5]))
    if rng.random() < .15:
        if rng.random() < .5:
            o = {"indexes": bad_indexes(rng, e)}
        else:
            m = gen.free_mapping(rng, e, 2)
            r = rng.choice(m)
            r[rng.randrange(len(r))] = bad_entry(rng, e)
            o = {"mapping": {labs[0]: m}}
        r = t.attempt("wis.new", "w", a, o)
        if not isinstance(r, Refused):
            r = t.attempt("wis.train", "w", [gen.image(rng, e)], [labs[0]])
        c.check(isinstance(r, Refused), "bad-accepted", lambda: "entry %d, address %d accepted and trained with %s" % (e, a, str(o)[:400]))
        c.count("bad_entries_refused")
        return
    o, exp = config(c, e, a, False)
    permap = {}
    if rng.random() < .4:
        permap = {l: gen.free_mapping(rng, e, 2, nrams=rng.randint(1, 5)) for l in labs if rng.random() < .6}
        o["mapping"] = permap
    t.do("wis.new", "w", a, o)
    known = {}
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        if r < .6 or not known:
            n = rng.randint(1, 4)
            t.do("wis.train", "w", [gen.image(rng, e) for _ in range(n)], [rng.choice(labs) for _ in range(n)])
        elif r < .75:
            t.do("wis.classify", "w", [gen.image(rng, e)])
        elif r < .9:
            t.do("wis.load", "w", t.do("wis.json" if rng.random() < .7 else "wis.jsonConfig", "w"))
        else:
            t.do("wis.mental", "w")
        now = maps_wis(t.do("wis.json", "w"))
        for l, m in known.items():
            c.eq(now.get(l), m, "stable", "mapping of class %r afterwards" % l)
            c.count("stability_checks")
        for l in now:
            if l not in known:
                if l in permap:
                    c.count("mappings_checked")
                    c.eq(now[l], permap[l], "explicit", "mapping of class %r" % l)
                else:
                    exp(now[l], "class %r" % l)
        known = now


def clu(c):
    t, rng = c.t, c.rng
    a, e = sizes(rng)
    e = min(e, 150)
    a = min(a, e)
    labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3]))
    lim = rng.randint(1, 5)
    if rng.random() < .1:
        o = {"indexes": bad_indexes(rng, e)}
        r = t.attempt("clu.new", "u", a, 0.5, 5, lim, o)
        if not isinstance(r, Refused):
            r = t.attempt("clu.train", "u", [gen.image(rng, e)], [labs[0]])
        c.check(isinstance(r, Refused), "bad-accepted", lambda: "ClusWisard entry %d, address %d accepted and trained with %s" % (e, a, str(o)[:400]))
        c.count("bad_entries_refused")
        return
    o, exp = config(c, e, a, False)
    t.do("clu.new", "u", a, rng.choice([0.1, 0.5, 0.9]), rng.randint(1, 9), lim, o)
    known = {}
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        n = rng.randint(1, 5)
        xs = [gen.image(rng, e) for _ in range(n)]
        if r < .4 or not known:
            t.do("clu.train", "u", xs, [rng.choice(labs) for _ in range(n)])
        elif r < .65:
            t.do("clu.trainU", "u", xs)
        elif r < .75:
            t.do("clu.trainSemi", "u", xs, [[0, rng.choice(labs)]])
        elif r < .85:
            t.do("clu.classify", "u", xs)
        else:
            t.do("clu.load", "u", t.do("clu.json", "u"))
        s = model.clu_state(t.do("clu.json", "u"))
        now = {(l, i): d["mapping"] for l, ds in s["clusters"].items() for i, d in enumerate(ds)}
        now.update({(None, i): d["mapping"] for i, d in enumerate(s["unsup"])})
        for l, m in known.items():
            c.eq(now.get(l), m, "stable", "mapping of discriminator %r afterwards" % (l,))
            c.count("stability_checks")
        for l in now:
            if l not in known:
                exp(now[l], "discriminator %r" % (l,))
        known = now


def case(c):
    c.rng.choice([disc, disc, wis, clu])(c)
    c.nontrivial = c.counts["mappings_checked"] + c.counts["bad_entries_refused"] > 0
    c.sample = dict(c.counts)
