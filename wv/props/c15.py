"""C15: BinInput is an exact, bounded bit vector with lossless text form."""
import numpy as np

from wv import gen, model
from wv.target import Refused

ID = "C15"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 6000, 200000
RULE = ("random BinInput objects (every size 0..70 often, up to 100000) under random sequences of get/set/refused set/copy/data/reload, compared with a bit list after every step, all bits "
        "each time for small sizes; the text form is checked against the bits with an independent decoder. Non-trivial: at least one set and one reload; distinct by request trace")
MIN = {"huge_vectors": 1, "bits_compared": 500000, "sets": 30000, "refused": 8000, "reloads": 8000, "odd_sizes": 3000, "texts_decoded": 8000}
ASSUMPTIONS = ["the text is one byte with the number of unused bits followed by the bits, most significant first, in Base64"]


def size(rng):
    r = rng.random()
    if r < .7:
        return rng.randint(0, 70)
    if r < .7005:
        return rng.choice([2 ** 20, 2 ** 21, 2 ** 24, 2 ** 24 + 2 ** 19]) + rng.randint(1, 2000)
    if r < .71:
        return rng.choice([8192, 16384, 32768, 65536, 70000]) + rng.randint(-1, 2000)
    if r < .9:
        return rng.choice([127, 128, 129, 255, 256, 257, 1000, 1023, 2048]) + rng.randint(0, 2)
    return rng.randint(70, 5000)


def same(c, t, h, bits, what):
    if len(bits) < 400 or c.rng.random() < (.1 if len(bits) < 7000 else .02 if len(bits) < 2 ** 20 else 0):
        c.eq(t.do("bin.all", h), bits, "bits", what)
        c.count("bits_compared", len(bits))
    else:
        for i in sorted({0, 7, 8, len(bits) - 1, c.rng.randrange(len(bits)), c.rng.randrange(len(bits)), (len(bits) - 1) % 8192, (len(bits) - 1) % 65536, (len(bits) - 1) % 2 ** 24}):
            c.eq(t.do("bin.get", h, i), bits[i], "bit", "%s: bit %d" % (what, i))
            c.count("bits_compared")
    c.eq(t.do("bin.size", h), len(bits), "size", what + ": size")


def decode(c, text, bits):
    raw = model.dec_b64(text)
    n = len(bits)
    pad = -n % 8
    want = bytes([pad]) + np.packbits(np.array(bits, dtype=np.uint8)).tobytes()
    c.eq(raw if n > 9999 else list(raw), want if n > 9999 else list(want), "text", "bytes of the text form of %d bits" % n)
    c.count("texts_decoded")


def case(c):
    t, rng = c.t, c.rng
    n = 2 ** 20 + rng.randrange(99) if c.every(1499) else size(rng)
    if n >= 2 ** 20:
        c.count("huge_vectors")
    if n % 8:
        c.count("odd_sizes")
    if rng.random() < .5:
        bits = [0] * n
        t.do("bin.new", "b", n)
    else:
        bits = [rng.randrange(2) for _ in range(n)]
        if rng.random() < .2:
            bits = [rng.randrange(2)] * n
        t.do("bin.vec", "b", bits)
    other = None
    same(c, t, "b", bits, "fresh BinInput")
    for _ in range(rng.randint(2, 12 if n < 2 ** 20 else 3)):
        r = rng.random()
        if r < .5 and n:
            for _ in range(rng.choice([1, 1, 5])):
                i = rng.choice([0, n - 1, rng.randrange(n), min(n - 1, 7), min(n - 1, 8)])
                v = rng.randrange(2)
                t.do("bin.set", "b", i, v)
                bits[i] = v
                c.count("sets")
        elif r < .7:
            if rng.random() < .5 or not n:
                i = rng.choice([n, n + 1, n + 7, (n // 8 + 1) * 8, 2 ** 31 - 1, -1, 2 ** 31, 2 ** 32 - 1] + ([2 ** 32, 2 ** 32 + 1] if t.is_py else []))
                q = rng.choice([["bin.get", "b", i], ["bin.set", "b", i, 1], ["bin.set", "b", i, 0], ["bin.idx", "b", i]])
            else:
                q = ["bin.set", "b", rng.randrange(n), rng.choice([2, -1, 3, 255, 256, 257, 2 ** 31 - 1, -2 ** 31, 128])]
            r = t.attempt(*q)
            c.check(isinstance(r, Refused), "not-refused", lambda: "%s on a BinInput of %d bits gave %r" % (q, n, r))
            c.count("refused")
        elif r < .8 and t.is_cxx:
            t.do("bin.copy", "k", "b")
            same(c, t, "k", bits, "copy")
            if n:
                t.do("bin.set", "k", rng.randrange(n), rng.randrange(2))
        else:
            text = t.do("bin.data", "b")
            decode(c, text, bits)
            if other is None or rng.random() < .3:
                other = list(bits)
                t.do("bin.load", "o", text)
                same(c, t, "o", other, "BinInput(x.data())")
            else:
                t.do("bin.load", "b", text)
            c.count("reloads")
        same(c, t, "b", bits, "after an operation")
        if other is not None and rng.random() < .3:
            same(c, t, "o", other, "another BinInput")
    text = t.do("bin.data", "b")
    decode(c, text, bits)
    t.do("bin.load", "z", text)
    same(c, t, "z", bits, "BinInput(x.data())")
    c.eq(t.do("bin.data", "z"), text, "text-stable", "data() of the reloaded one")
    c.count("reloads")
    # values that are not bits are refused when it is built from a list
    if n and rng.random() < .3 and n < 2 ** 20:
        v = list(bits)
        v[rng.randrange(n)] = rng.choice([2, -1, 7, 255, -128])
        r = t.attempt("bin.vec", "q", v)
        c.check(isinstance(r, Refused), "not-refused", lambda: "a list with a value that is not a bit was accepted: %s" % v)
        c.count("refused")
    c.nontrivial = c.counts["sets"] > 0
    c.sample = {"bits": n}
