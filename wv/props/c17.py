"""C17: RAMDataHandle reads and edits saved RAM content faithfully."""
import json
import os

from wv import gen, model, sim
from wv.target import Refused

ID = "C17"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 5000, 150000
RULE = ("RAMDataHandle objects built from the content of trained discriminators or from synthetic contents (empty RAMs, 64-bit addresses, any 32-bit counters) under random get/set/data/compare/"
        "reload sequences, compared with a list of dictionaries; the text is decoded independently, loaded into new handles (directly and from files) and into discriminators whose votes must be the edited counters. "
        "Non-trivial: sets and reloads happened; distinct by request trace")
MIN = {"files": 2000, "many_rams": 60, "reads": 60000, "sets": 15000, "reloads": 8000, "compares": 6000, "compare_equal": 1500, "compare_different": 3000, "empty_rams": 2000, "wide_addresses": 8000,
       "discriminators": 1500, "new_rams": 500, "huge_handles": 3}
ASSUMPTIONS = ["contents that differ only in explicit zero counters are not compared with compare()"]


def value(rng):
    return rng.choice([1, 1, 2, 5, 0, rng.randint(0, 300), 2 ** 31 - 1, -1, -2 ** 31, rng.randint(-2 ** 31, 2 ** 31 - 1)])


def addr(rng):
    return rng.choice([0, 1, 2, 3, rng.randrange(16), 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 63 - 1, 2 ** 64 - 1, rng.getrandbits(64), rng.getrandbits(40)])


def synth(rng):
    if rng.random() < .012:
        return [{addr(rng): value(rng) for _ in range(rng.choice([0, 1, 2]))} for _ in range(rng.choice([130, 260, 300, 600, 1100, 4100]))]
    return [{addr(rng): value(rng) for _ in range(rng.choice([0, 0, 1, 2, 5, 20]))} for _ in range(rng.choice([1, 1, 2, 3, 5, 12, 40]))]


def text_of(rng, rams):
    return ".".join(model.enc_ram(r, rng.sample(sorted(r.items()), len(r))) for r in rams)


def same(c, t, h, rams, what, full=True):
    rng = c.rng
    qs, want = [], []
    if len(rams) > 100:
        c.count("many_rams")
        full = False
    rs = range(len(rams)) if full or len(rams) < 6 else rng.sample(range(len(rams)), 4) + [len(rams) - 1]
    for r in rs:
        qs.append(["rdh.get1", h, r])
        want.append({str(a): v for a, v in rams[r].items()})
        qs.append(["rdh.data1", h, r])
        want.append(rams[r])
        for a in list(rams[r])[:3] + [addr(rng)]:
            qs.append(["rdh.get2", h, r, str(a)])
            want.append(rams[r].get(a, 0))
        if any(a > 2 ** 32 for a in rams[r]):
            c.count("wide_addresses")
        if not rams[r]:
            c.count("empty_rams")
    for r in (len(rams), len(rams) + 3, -1):
        qs.append(["rdh.get1", h, r])
        want.append({})
        qs.append(["rdh.get2", h, r, "5"])
        want.append(0)
    for q, g, w in zip(qs, t.batch(qs), want):
        c.count("reads")
        if isinstance(g, Refused):
            if q[2] in range(len(rams)):
                c.fail("read", "%s: %s raised %s" % (what, q, g))
            continue
        if q[0] == "rdh.get1":
            if len({a for a, _ in g}) != len(g):
                c.fail("get", "%s: %s gives an address twice" % (what, q))
            g = {a: v for a, v in g}
        elif q[0] == "rdh.data1":
            g = model.dec_ram(g, keep_zero=True)
        c.eq(g, w, q[0], "%s: %s" % (what, q))
    c.eq(model.dec_rams(t.do("rdh.data", h), len(rams), keep_zero=True), rams, "data", what + ": data()")


def nz(rams):
    return [{a: v for a, v in r.items() if v} for r in rams]


def compare(c, t, h1, r1, h2, r2):
    if r1 != r2 and nz(r1) == nz(r2) and len(r1) == len(r2):
        return
    c.count("compares")
    c.count("compare_equal" if r1 == r2 else "compare_different")
    c.eq(t.do("rdh.compare", h1, h2), r1 == r2, "compare", "compare of %s and %s" % (str(r1)[:200], str(r2)[:200]))
    c.eq(t.do("rdh.compare", h2, h1), r1 == r2, "compare", "compare (swapped)")


def variant(rng, rams):
    out = [dict(r) for r in rams]
    k = rng.random()
    if k < .2:
        return out
    if k < .35 and len(out) > 1:
        rng.shuffle(out)
        return out
    if k < .45:
        return out + [{}]
    if k < .55 and len(out) > 1:
        return out[:-1]
    r = rng.choice(out)
    if k < .7 and r:
        a = rng.choice(sorted(r))
        r[a] = r[a] + 1 if r[a] < 2 ** 31 - 1 else 7
        if r[a] == 0:
            r[a] = 3
    elif k < .85 and r:
        a = rng.choice(sorted(r))
        v = r.pop(a)
        r[a ^ (1 << rng.randrange(64))] = v or 1
    elif k < .92 and r:
        r.pop(rng.choice(sorted(r)))
    else:
        r[addr(rng)] = rng.choice([1, 9, -5])
    return out


def huge(c):
    """More RAMs or addresses than 16 bits count."""
    t, rng = c.t, c.rng
    n = rng.randint(66000, 75000)
    rams = [{rng.getrandbits(64): rng.randint(1, 9) for _ in range(n)}, {5: 6}] if rng.random() < .5 else [{addr(rng): i % 9 + 1} for i in range(n)]
    t.do("rdh.new", "h", text_of(rng, rams))

    def look(h, what):
        c.check(model.dec_rams(t.do("rdh.data", h), len(rams), keep_zero=True) == rams, "data", what + ": data() differs")
        for r in {0, 1, len(rams) - 1, min(65536, len(rams) - 1), rng.randrange(len(rams))}:
            c.check({int(x): v for x, v in t.do("rdh.get1", h, r)} == rams[r], "get", "%s: get(%d) differs" % (what, r))
            a = rng.choice(sorted(rams[r]))
            c.eq(t.do("rdh.get2", h, r, str(a)), rams[r][a], "get", "%s: get(%d, %d)" % (what, r, a))
    look("h", "handle of %d RAMs, %d addresses" % (len(rams), len(rams[0])))
    for _ in range(5):
        r = rng.choice([0, 1, len(rams) - 1, rng.randrange(len(rams))])
        a, v = rng.choice([rng.choice(sorted(rams[r])), addr(rng)]), value(rng)
        t.do("rdh.set", "h", r, str(a), v)
        rams[r][a] = v
    look("h", "edited handle")
    reload(c, t, "h", "k")
    look("k", "handle of data()")
    c.eq(t.do("rdh.compare", "h", "k"), True, "compare", "compare of equal handles")
    r = rng.choice([0, len(rams) - 1])
    a = rng.choice(sorted(rams[r]))
    t.do("rdh.set", "k", r, str(a), 77)
    c.eq(t.do("rdh.compare", "h", "k"), False, "compare", "compare of handles that differ in one counter")
    c.count("huge_handles")
    c.nontrivial = True
    c.sample = {"rams": len(rams), "addresses": len(rams[0])}


def reload(c, t, h, o):
    """o becomes a handle built from the text of h, given directly or as a file."""
    rng = c.rng
    r = rng.random()
    if r < .7:
        t.do("rdh.new", o, t.do("rdh.data", h))
    else:
        p = os.path.join(c.scratch(), rng.choice(["r", "a b", "x.wdpkg", "", "0" * 100]))
        if t.is_cxx and r < .88:
            t.do("rdh.save", h, p)
        else:
            with open(p + ".wdpkg", "w") as f:
                f.write(t.do("rdh.data", h))
        t.do("rdh.new", o, p + ".wdpkg")
        os.remove(p + ".wdpkg")
        c.count("files")
    c.count("reloads")


def case(c):
    t, rng = c.t, c.rng
    if c.every(701):
        return huge(c)
    d = None
    if rng.random() < .5:
        base = rng.choice(gen.BASES)
        a, e = sim.sizes(rng, base)
        mp = gen.free_mapping(rng, e, base) if rng.random() < .6 else gen.shuffled_mapping(rng, e, a)
        sim.new_disc(c, t, "d", a, e, {"base": base, "mapping": mp})
        d = model.Disc(mp, e, base)
        for _ in range(rng.choice([0, 1, 3, 8])):
            x = gen.image(rng, e, base)
            k = rng.choice([1, 1, 2, 300])
            t.do("disc.trainN", "d", x, k)
            d.train(x, k)
        js = json.loads(t.do("disc.json", "d"))
        rams = d.counters()
        text = js["data"]
    else:
        rams = synth(rng)
        text = text_of(rng, rams)
    t.do("rdh.new", "h", text)
    same(c, t, "h", rams, "handle built from saved content")
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        if r < .5:
            for _ in range(rng.choice([1, 1, 4])):
                i = rng.randrange(len(rams))
                if rng.random() < .06 and d is None:
                    i = len(rams) + rng.choice([0, 0, 1, 4])
                    c.count("new_rams")
                a = rng.choice(sorted(rams[i])) if i < len(rams) and rams[i] and rng.random() < .5 else addr(rng)
                if d is not None:
                    a %= d.base ** len(d.mapping[i])
                v = value(rng)
                t.do("rdh.set", "h", i, str(a), v)
                while i >= len(rams):
                    rams.append({})
                rams[i][a] = v
                c.count("sets")
        elif r < .65:
            reload(c, t, "h", "h")
        elif r < .9:
            v = variant(rng, rams)
            t.do("rdh.new", "o", text_of(rng, v))
            compare(c, t, "h", rams, "o", v)
            same(c, t, "o", v, "other handle", full=False)
        else:
            i = rng.randrange(len(rams))  # one RAM alone
            t.do("rdh.new", "o", t.do("rdh.data1", "h", i))
            same(c, t, "o", [rams[i]], "handle of data(%d)" % i)
            c.count("reloads")
        same(c, t, "h", rams, "handle", full=rng.random() < .5)
    reload(c, t, "h", "z")
    compare(c, t, "h", rams, "z", rams)
    same(c, t, "z", rams, "handle built from data()")
    c.count("reloads")
    if d is not None:  # a discriminator with exactly the edited counters
        t.do("disc.load", "e", json.dumps(dict(js, data=t.do("rdh.data", "h"))))
        c.eq(model.disc_state(json.loads(t.do("disc.json", "e")))["rams"], nz(rams), "edited", "counters of the discriminator built from the edited content")
        for rr, mp, cs in zip(d.rams, d.mapping, rams):
            rr.clear()
            for a, n in cs.items():
                tp = []
                for _ in mp:
                    tp.append(a % d.base)
                    a //= d.base
                rr[tuple(tp)] = n
        xs = sim.probes(rng, [list(x) for x in d.learned], d.entry, d.base, 4)
        for i, (mp, rr) in enumerate(zip(d.mapping, d.rams)):  # inputs that hit edited addresses
            if rr and len(set(mp)) == len(mp):
                x = [0] * d.entry
                for p, v in zip(mp, rng.choice(sorted(rr))):
                    x[p] = v
                xs.append(gen.pack(x, d.base))
        c.eq(t.do("disc.classifyM", "e", xs), [d.votes(x) for x in xs], "edited-votes", "votes of the discriminator built from the edited content")
        c.count("discriminators")
    c.nontrivial = c.counts["sets"] > 0
    c.sample = {"rams": len(rams), "entries": sum(map(len, rams)), "from": "discriminator" if d else "synthetic"}
