"""C23: loading arbitrary or damaged saved data is memory safe."""
import base64
import copy
import json
import os
import struct

from wv import gen
from wv.target import Refused

ID = "C23"
KINDS = ["genmem", "py"]
EXTRA = []
QUICK, THOROUGH = 9000, 300000
TIMEOUT = 40
RULE = ("saves of real objects of every class (and hand-made texts) are damaged - fields removed, retyped, set to limits, mappings, counters and counts changed, data cut, flipped, replaced, files shortened, random bytes, deep nesting - "
        "and loaded; whatever loads is put through every operation of its class with fitting and misfitting inputs, copied, saved and reloaded. Monitors: AddressSanitizer, UBSan and libstdc++ assertions in C++, "
        "process death in Python, a watchdog for every request. Non-trivial: a damaged text that was accepted and exercised, or refused; distinct by trace")
MIN = {"loaded": 2500, "refused": 2500, "operations": 60000, "wis": 1200, "clu": 1200, "disc": 1200, "rdh": 600, "bin": 400, "ds": 600, "files": 600, "nested": 100}
ASSUMPTIONS = ["counters and numbers beyond int are exercised on a build without the signed overflow and float conversion checks (they wrap or convert to some value, memory safety is judged)",
               "entry sizes above one million are not generated (allocation of that size is the answer to a valid request)"]
INTS = [0, 1, -1, 2, 3, 7, 64, 255, 256, 1000, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 32, 2 ** 63 - 1, -2 ** 63, 2 ** 64 - 1]
SMALL = [0, 1, -1, 2, 3, 7, 9, 64, 100, 1000, -2 ** 31, -7]


def junk(rng, d=0):
    r = rng.randrange(11)
    if r < 3:
        return rng.choice(INTS)
    if r < 4:
        return rng.choice([0.0, -0.5, 1.5, 1e300, -1e300, 1e-300, 0.1])
    if r < 5:
        return rng.choice([True, False, None])
    if r < 7:
        return rng.choice(["", "a", "=", "====", "AAAA", "....", "!!!!", "AAAAAAAAAAAAAAAA", "x.wdpkg", "\u0000", "é"])
    if d > 2:
        return []
    if r < 9:
        return [junk(rng, d + 1) for _ in range(rng.choice([0, 1, 2, 5]))]
    return {rng.choice(["", "a", "mapping", "data", "entrySize", "discriminators"]): junk(rng, d + 1) for _ in range(rng.choice([0, 1, 2]))}


def b64(b):
    return base64.b64encode(bytes(b)).decode()


def counter(rng):
    return rng.choice([1, 2, 5, 0, -1, -3, 2 ** 31 - 1, 2 ** 31 - 1, -2 ** 31, 2 ** 30])


def block(rng):
    a = rng.choice([0, 1, 2, 3, 7, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1, rng.getrandbits(64)])
    return struct.pack("<Qi", a, counter(rng))


def bad_ram(rng):
    r = rng.random()
    b = b"".join(block(rng) for _ in range(rng.choice([0, 1, 2, 5])))
    if r < .5:
        return b64(b)
    if r < .65:
        return b64(b[:-rng.randint(1, 11)] if b else b"xyz")
    if r < .8:
        s = b64(b) + "AAAA"
        i = rng.randrange(len(s))
        return s[:i] + rng.choice("=!.#é-_\n \0") + s[i + 1:]
    if r < .9:
        s = b64(b) or "AAAA"
        return s[:-rng.randint(1, 3)]
    return "".join(chr(rng.choice([61, 43, 47, 65, 255, 10, 32, 200, 46, 35])) for _ in range(rng.randint(1, 12)))


def bad_data(rng, s):
    r = rng.random()
    parts = s.split(".")
    if r < .15:
        parts = parts[:rng.randrange(len(parts) + 1)]
    elif r < .25:
        parts += [bad_ram(rng) for _ in range(rng.randint(1, 3))]
    elif r < .7:
        for _ in range(rng.randint(1, 3)):
            parts[rng.randrange(len(parts))] = bad_ram(rng)
    elif r < .8:
        i = rng.randrange(len(s) + 1)
        return s[:i] + rng.choice(["", ".", "=", "A", "..", "=="]) + s[i + rng.randrange(3):]
    elif r < .9:
        return s[:rng.randrange(len(s) + 1)]
    else:
        return ".".join(bad_ram(rng) for _ in range(rng.randint(0, 5)))
    return ".".join(parts)


def paths(j, p=()):
    yield p
    if isinstance(j, dict):
        for k in sorted(j, key=str):
            yield from paths(j[k], p + (k,))
    elif isinstance(j, list):
        for i in range(min(len(j), 6)):
            yield from paths(j[i], p + (i,))


def at(j, p):
    for k in p:
        j = j[k]
    return j


def discs(j):
    """Paths of the discriminator objects."""
    return [p for p in paths(j) if isinstance(at(j, p), dict) and "entrySize" in at(j, p) and "mapping" in at(j, p)]


def hurt_disc(rng, d):
    r = rng.random()
    m = d.get("mapping")
    if r < .25 and isinstance(d.get("data"), str):
        d["data"] = bad_data(rng, d["data"])
    elif r < .45 and isinstance(m, list) and m:
        w = rng.random()
        i = rng.randrange(len(m))
        if w < .2:
            m[i] = []
        elif w < .4:
            m[i] = m[i] + [rng.choice(SMALL)]
        elif w < .5:
            m[i] = [0] * rng.choice([63, 64, 65, 200])
        elif w < .6:
            m.append(list(m[i]))
        elif w < .7:
            del m[i]
        elif w < .8:
            m[i] = junk(rng)
        elif m[i]:
            m[i][rng.randrange(len(m[i]))] = rng.choice(INTS + [d.get("entrySize")])
    elif r < .55:
        e = d.get("entrySize")
        d["entrySize"] = rng.choice(SMALL + [e + 1, e - 1, 2 * e] if isinstance(e, int) else SMALL)
    elif r < .65:
        d["count"] = rng.choice(INTS)
    elif r < .75 and "data" in d:
        d["data"] = rng.choice(["", ".", "...", "missing.wdpkg", ".wdpkg", "f.wdpkg", ".." * 500])
    elif r < .85:
        d.pop(rng.choice(sorted(d, key=str)), None)
    else:
        d[rng.choice(["data", "mapping", "count", "ignoreZero", "base"])] = junk(rng)


def hurt(rng, j):
    ds = discs(j)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        r = rng.random()
        if r < .55 and ds:
            try:
                hurt_disc(rng, at(j, rng.choice(ds)))
            except (KeyError, TypeError, IndexError, AttributeError, ValueError):
                pass
            continue
        ps = [p for p in paths(j) if p]
        if not ps:
            return j
        p = rng.choice(ps)
        try:
            o = at(j, p[:-1])
            if r < .65:
                del o[p[-1]]
            elif r < .72 and len(ps) > 3:
                o[p[-1]] = copy.deepcopy(at(j, rng.choice(ps)))
            elif p[-1] == "entrySize":
                o[p[-1]] = rng.choice(SMALL)
            elif p[-1] in ("addressSize", "threshold", "discriminatorsLimit", "base", "confidence"):
                o[p[-1]] = rng.choice(INTS)
            else:
                o[p[-1]] = junk(rng)
        except (KeyError, TypeError, IndexError, AttributeError, ValueError):
            pass
    return j


def hurt_text(rng, s):
    r = rng.random()
    if r < .3:
        return s[:rng.randrange(len(s) + 1)]
    b = list(s)
    for _ in range(rng.choice([1, 1, 2, 8])):
        if not b:
            break
        i = rng.randrange(len(b))
        w = rng.random()
        if w < .5:
            b[i] = rng.choice('{}[]",:0123456789eE+-.truefalsn\\u=\x00/é ')
        elif w < .75:
            del b[i]
        else:
            b.insert(i, rng.choice('{}[]",:09-."\\'))
    return "".join(b)


def safe(s):
    """No entry size that asks for gigabytes."""
    import re
    for m in re.finditer(r'"entrySize"\s*:\s*(-?[0-9.eE+]+)', s):
        try:
            if float(m.group(1)) > 10 ** 6:
                return False
        except ValueError:
            pass
    return True


def nested(rng):
    n = rng.choice([50, 200, 3000, 100000, 400000])
    f = rng.choice([lambda: "[" * n + "]" * n, lambda: "[" * n, lambda: '{"a":' * n + "1" + "}" * n,
                    lambda: '{"addressSize":2,"classes":' + "[" * n + "]" * n + "}",
                    lambda: '{"entrySize":4,"mapping":' + "[" * n + "]" * n + "}"])
    return f()


# ---- sources
def source(c, cls):
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 3, 10, 256])
    a = rng.randint(2, 4)
    e = rng.randint(a, 14)
    o = {"base": base, "ignoreZero": rng.random() < .3, "completeAddressing": rng.random() < .6}
    xs = [gen.image(rng, e, base) for _ in range(4)]
    if cls == "disc":
        t.do("disc.new", "s", a, e, o)
        for x in xs[:rng.randint(0, 4)]:
            t.do("disc.train", "s", x)
    elif cls == "wis":
        o.update({k: rng.random() < .5 for k in ("bleachingActivated", "returnConfidence", "returnActivationDegree", "returnClassesDegrees")})
        t.do("wis.new", "s", a, o)
        t.do("wis.train", "s", xs, [rng.choice(["a", "b", "c"]) for _ in xs])
    else:
        o.update({k: rng.random() < .5 for k in ("bleachingActivated", "returnConfidence", "returnActivationDegree", "returnClassesDegrees")})
        t.do("clu.new", "s", a, rng.choice([.2, .9]), rng.randint(1, 5), rng.randint(1, 4), o)
        t.do("clu.train", "s", xs, [rng.choice(["a", "b"]) for _ in xs])
        if rng.random() < .6:
            t.do("clu.trainU", "s", xs)
    return json.loads(t.do(cls + (".json" if rng.random() < .85 else ".jsonConfig"), "s")), e, base


def fits(rng, j, e, base):
    """Entry sizes found in the damaged text."""
    es = {e}
    for p in paths(j):
        if p and p[-1] == "entrySize":
            v = at(j, p)
            if isinstance(v, int) and 0 <= v <= 2000:
                es.add(v)
    out = []
    for n in sorted(es)[:3]:
        out += [gen.image(rng, n, base), "0" * n, "1" * n]
    out += ["", "1", gen.image(rng, e + 1, base), [-1] * e, [base] * e]
    return out


def exercise(c, cls, j, e, base):
    t, rng = c.t, c.rng
    xs = fits(rng, j, e, base)
    d = c.scratch()
    ls = ["a", "b", "new"]
    q = []
    if cls == "disc":
        for x in xs:
            q += [["disc.classify", "h", x]]
        x = rng.choice(xs[:3])
        q += [["disc.train", "h", x], ["disc.trainB", "h", [x, x]], ["disc.classify", "h", x], ["disc.json", "h"], ["disc.jsonConfig", "h"], ["disc.json", "h", True, d + "/p"]]
        if t.is_cxx:
            q += [["disc.mental", "h"], ["disc.untrain", "h", x], ["disc.count", "h"], ["disc.nrams", "h"], ["disc.sizeof", "h"], ["disc.classifyBin", "h", "10" * 3], ["disc.trainBin", "h", "1" * e]]
    elif cls == "wis":
        q += [["wis.classify", "h", [x]] for x in xs] + [["wis.classify", "h", xs[:3]], ["wis.classify", "h", []], ["wis.mental", "h"]]
        x = rng.choice(xs[:3])
        q += [["wis.train", "h", [x], [rng.choice(ls)]], ["wis.loo", "h", x, "a"], ["wis.lmo", "h", [x, x], ["b", "a"]], ["wis.mental", "h"], ["wis.classify", "h", [x]], ["wis.json", "h"],
              ["wis.jsonConfig", "h"], ["wis.sizeof", "h"], ["wis.json", "h", True, d + "/p"]]
        t.batch([["ds.new", "ds"], ["ds.add", "ds", "1" * e, "a"]])
        q += [["wis.classifyDS", "h", "ds"], ["wis.trainDS", "h", "ds"]]
    else:
        q += [["clu.classify", "h", [x]] for x in xs] + [["clu.classifyU", "h", [x]] for x in xs] + [["clu.mentals", "h"], ["clu.mental", "h", "a"], ["clu.mental", "h", "nope"]]
        x = rng.choice(xs[:3])
        q += [["clu.train", "h", [x], [rng.choice(ls)]], ["clu.trainU", "h", [x]], ["clu.trainSemi", "h", [x, x], [[0, "a"]]], ["clu.classify", "h", [x]], ["clu.classifyU", "h", [x]],
              ["clu.mentals", "h"], ["clu.json", "h"], ["clu.jsonConfig", "h"], ["clu.sizeof", "h"], ["clu.json", "h", True, d + "/p"]]
    if rng.random() < .5:
        head, tail = q[:1], q[1:]
        rng.shuffle(tail)
        q = head + tail
    if t.is_cxx:
        q += [[cls + ".copy", "k", "h"], [cls + ".classify", "k", x if cls == "disc" else [x]], [cls + ".json", "k"], [cls + ".assign", "h", "k"], [cls + ".sizeof", "h"]]
    again = None
    for x in q:
        r = t.attempt(*x)
        c.count("operations")
        if x[0].endswith(".json") and isinstance(r, str):
            again = r
    if again and safe(again):
        r = t.attempt(cls + ".load", "h2", again)
        if not isinstance(r, Refused):
            for x in q[:8]:
                t.attempt(x[0], "h2", *x[2:])
                c.count("operations")
    t.do("del", "h", "h2", "k")


def models(c, cls):
    t, rng = c.t, c.rng
    j, e, base = source(c, cls)
    for _ in range(3):
        r = rng.random()
        k = copy.deepcopy(j)
        if r < .75:
            k = hurt(rng, k)
            if not isinstance(k, dict):
                continue
            text = json.dumps(k)
        elif r < .93:
            text = hurt_text(rng, json.dumps(k))
        elif r < .96:
            text = nested(rng)
            c.count("nested")
        else:
            text = json.dumps(junk(rng)) if rng.random() < .6 else "".join(chr(rng.choice([rng.randrange(1, 128), 123, 125, 34])) for _ in range(rng.randrange(60)))
        if rng.random() < .25:
            d = c.scratch()
            for p in discs(k) if isinstance(k, dict) else []:
                o = at(k, p)
                if isinstance(o.get("data"), str) and not o["data"].endswith(".wdpkg"):
                    with open(os.path.join(d, "f.wdpkg"), "wb") as f:
                        f.write(bad_data(rng, o["data"]).encode("utf-8"))
                    o["data"] = rng.choice(["f.wdpkg", "f.wdpkg", d + "/f.wdpkg", d + "/.wdpkg"])
                    c.count("files")
            os.makedirs(os.path.join(d, "dir.wdpkg"))
            t.do("chdir", d)
            text = json.dumps(k)
        if not safe(text):
            continue
        g = t.attempt(cls + ".load", "h", text)
        c.count(cls)
        if isinstance(g, Refused):
            c.count("refused")
        else:
            c.count("loaded")
            exercise(c, cls, k, e, base)


def rdh(c):
    t, rng = c.t, c.rng
    for _ in range(3):
        s = ".".join(b64(b"".join(block(rng) for _ in range(rng.randint(0, 3)))) for _ in range(rng.randint(0, 4)))
        if rng.random() < .8:
            s = bad_data(rng, s)
        if rng.random() < .3:
            d = c.scratch()
            with open(os.path.join(d, "r.wdpkg"), "wb") as f:
                f.write(s.encode("utf-8"))
            t.do("chdir", d)
            s = rng.choice(["r.wdpkg", "r.wdpkg", "none.wdpkg", ".wdpkg", "/", "/.wdpkg"])
            c.count("files")
        g = t.attempt("rdh.new", "h", s)
        c.count("rdh")
        if isinstance(g, Refused):
            c.count("refused")
            continue
        c.count("loaded")
        q = [["rdh.get1", "h", i] for i in (0, 1, -1, 5, 2 ** 31 - 1, -2 ** 31)] + [["rdh.get2", "h", i, str(a)] for i in (0, 1, -1, 99) for a in (0, 2 ** 64 - 1)]
        q += [["rdh.data", "h"], ["rdh.data1", "h", 0], ["rdh.data1", "h", 77], ["rdh.data1", "h", -1], ["rdh.set", "h", 0, "5", 3], ["rdh.set", "h", rng.choice([3, 300, -1, -2 ** 31]), "0", -7], ["rdh.compare", "h", "h"], ["rdh.data", "h"]]
        if t.is_cxx:
            q += [["rdh.copy", "k", "h"], ["rdh.compare", "k", "h"], ["rdh.data", "k"]]
        for x in q:
            r = t.attempt(*x)
            c.count("operations")
            if x[0] == "rdh.data" and isinstance(r, str):
                t.attempt("rdh.new", "h2", r)
                t.attempt("rdh.data", "h2")


def binp(c):
    t, rng = c.t, c.rng
    for _ in range(4):
        raw = bytes([rng.choice([0, 1, 7, 8, 9, 127, 128, 255])]) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 2, 5])))
        s = b64(raw)
        if rng.random() < .5:
            s = hurt_text(rng, s)
        if rng.random() < .1:
            s = bad_ram(rng)
        g = t.attempt("bin.load", "h", s)
        c.count("bin")
        if isinstance(g, Refused):
            c.count("refused")
            continue
        c.count("loaded")
        n = t.do("bin.size", "h")
        c.check(0 <= n < 10 ** 6, "size", lambda: "BinInput(%r) has %s bits" % (s, n))
        for x in [["bin.all", "h"], ["bin.get", "h", n], ["bin.get", "h", 0], ["bin.set", "h", 0, 1], ["bin.set", "h", n, 1], ["bin.data", "h"], ["ds.new", "d"], ["ds.addBin", "d", "h", "x"], ["ds.get", "d", 0]]:
            t.attempt(*x)
            c.count("operations")


def dset(c):
    t, rng = c.t, c.rng
    d = c.scratch()
    t.do("chdir", d)
    for _ in range(2):
        t.do("ds.new", "s")
        for _ in range(rng.randint(0, 4)):
            t.do("ds.add", "s", gen.image(rng, rng.randint(0, 20)), rng.choice([None, "a", "é"]))
        t.do("ds.save", "s", "f")
        p = os.path.join(d, "f.wpkds")
        b = bytearray(open(p, "rb").read())
        r = rng.random()
        if r < .2:
            b = b[:rng.randrange(len(b) + 1)]
        elif r < .7:
            for _ in range(rng.randint(1, 4)):
                i = rng.randrange(len(b) + 1)
                b[i:i + rng.randrange(3)] = rng.choice([b"", b".", b"#", b"=", b"AAAA", b"\xff", b"##", b"..", b"\0", b"A", b"/", b"!"])
        elif r < .85:
            b = bytearray(rng.randrange(256) for _ in range(rng.randrange(60)))
        else:
            b = bytearray(b".".join(b64(b"x" * rng.randrange(3)).encode() + b"#" + b64(bytes([rng.randrange(256)] + [255] * rng.randrange(3))).encode() for _ in range(rng.randint(1, 5))))
        with open(p, "wb") as f:
            f.write(b)
        c.count("files")
        c.count("ds")
        g = t.attempt("ds.load", "h", rng.choice(["f.wpkds", "f.wpkds", "f.wpkds", "f.wpkds", "", "f", ".wpkds", "x.wpkds", d]))
        if isinstance(g, Refused):
            c.count("refused")
            continue
        c.count("loaded")
        n = t.do("ds.size", "h")
        for i in list(range(min(n, 9))) + [n, -1, 2 ** 31 - 1]:
            t.attempt("ds.get", "h", i)
            t.attempt("ds.label", "h", i)
            c.count("operations", 2)
        t.do("wis.new", "w", 2, {})
        for x in [["wis.trainDS", "w", "h"], ["wis.classifyDS", "w", "h"], ["wis.json", "w"], ["ds.save", "h", "g"], ["ds.load", "h2", "g.wpkds"]]:
            t.attempt(*x)
            c.count("operations")


def case(c):
    w = c.rng.choice(["wis", "wis", "clu", "clu", "disc", "disc", "rdh", "bin", "ds"])
    if w in ("wis", "clu", "disc"):
        models(c, w)
    else:
        {"rdh": rdh, "bin": binp, "ds": dset}[w](c)
    c.check(c.t.do("ping") == 1, "alive", "the process does not answer")
    c.nontrivial = c.counts["loaded"] + c.counts["refused"] > 0
    c.sample = dict(c.counts, kind=w)
