"""C18: Base64 text is standard and lossless."""
import base64
import json
import os
import struct

from wv import gen, model, sim
from wv.target import Refused

ID = "C18"
KINDS = ["gen", "gen", "py"]
QUICK, THOROUGH = 3000, 100000
RULE = ("C++: byte strings of every length 0..200 and random longer ones (all byte values, also all two-byte strings over the run) go through Base64::encode and decode and are compared with Python's "
        "base64 in both directions; texts of bad length must be refused. Python and C++: every text the library persists (BinInput, RAM content, DataSet file) is decoded strictly by Python, "
        "and texts written by Python are loaded. Non-trivial: at least 5 strings compared; distinct by request trace")
MIN = {"encoded": 40000, "decoded": 40000, "refused": 8000, "persisted_texts": 6000, "foreign_texts": 3000}
ASSUMPTIONS = ["characters outside the alphabet may be refused or not (C23 covers safety)"]


def data(rng, k):
    r = rng.random()
    n = rng.choice([k % 201, rng.randint(0, 12), rng.randint(0, 300), 3 * rng.randint(0, 400)])
    if rng.random() < .01:
        n = rng.choice([4096, 65535, 65536, 100001, 200003, 786433, 1100000 + rng.randrange(3)])
    if r < .15:
        return bytes([rng.choice([0, 255, 0x80, 0x3f, 0x7f, 0xfb, 0xff])]) * n
    if r < .3:
        return bytes((rng.randrange(256) & rng.choice([0x80, 0xff, 0x0f, 0xf0])) for _ in range(n))
    return rng.randbytes(n)


def codec(c):
    t, rng = c.t, c.rng
    items = [data(rng, c.k) for _ in range(12)]
    b0 = c.k * 97 % 65536
    items += [bytes(divmod((b0 + i) % 65536, 256)) for i in range(16)]
    items += [bytes([c.k % 256]), b"", bytes([c.k % 256, (c.k // 7) % 256, (c.k // 3) % 256])]
    enc = t.batch([["b64.enc", x.hex()] for x in items])
    for x, g in zip(items, enc):
        if isinstance(g, Refused):
            raise g
        c.count("encoded")
        c.eq(g, base64.b64encode(x).decode(), "encode", "encoding of %d bytes %s" % (len(x), x.hex()[:80]))
    dec = t.batch([["b64.dec", base64.b64encode(x).decode()] for x in items])
    for x, g in zip(items, dec):
        if isinstance(g, Refused):
            raise g
        c.count("decoded")
        c.eq(g, x.hex(), "decode", "decoding of %s" % base64.b64encode(x)[:80])
    bad = []
    for x in items[:6]:
        s = base64.b64encode(x).decode()
        for k in (1, 2, 3):
            if len(s) > k:
                bad.append(s[:-k])
            bad.append(s + "A" * k)
    for s, g in zip(bad, t.batch([["b64.dec", s] for s in bad])):
        c.count("refused")
        c.check(isinstance(g, Refused), "bad-length", lambda: "a text of %d characters was decoded: %r -> %r" % (len(s), s[-20:], g))
    c.nontrivial = True
    c.sample = {"lengths": sorted({len(x) for x in items})[:12]}


def persisted(c):
    t, rng = c.t, c.rng
    # BinInput
    for n in [rng.randint(0, 80) for _ in range(4)]:
        bits = [rng.randrange(2) for _ in range(n)]
        t.do("bin.vec", "b", bits)
        s = t.do("bin.data", "b")
        pad = -n % 8
        raw = bytes([pad] + [int("".join(map(str, (bits + [0] * pad)[i:i + 8])), 2) for i in range(0, n, 8)])
        c.eq(s, base64.b64encode(raw).decode(), "bininput", "text of a BinInput of %d bits" % n)
        c.count("persisted_texts")
        bits2 = [rng.randrange(2) for _ in range(n)]
        raw = bytes([pad] + [int("".join(map(str, (bits2 + [0] * pad)[i:i + 8])), 2) for i in range(0, n, 8)])
        t.do("bin.load", "b", base64.b64encode(raw).decode())
        c.eq(t.do("bin.all", "b"), bits2, "bininput-load", "bits of a BinInput written by Python")
        c.count("foreign_texts")
    # RAM content
    base = rng.choice([2, 2, 7, 256, gen.MAXINT])
    a, e = sim.sizes(rng, base)
    mp = gen.free_mapping(rng, e, base)
    t.do("disc.new", "d", a, e, {"base": base, "mapping": mp})
    d = model.Disc(mp, e, base)
    for _ in range(rng.randint(0, 6)):
        x = gen.image(rng, e, base)
        t.do("disc.train", "d", x)
        d.train(x)
    js = json.loads(t.do("disc.json", "d"))
    parts = js["data"].split(".")
    c.eq(len(parts), len(mp), "rams", "RAM contents in the text")
    for s, w in zip(parts, d.counters()):
        raw = base64.b64decode(s.encode(), validate=True)
        c.eq(base64.b64encode(raw).decode(), s, "canonical", "canonical Base64 of a RAM")
        c.eq({struct.unpack_from("<Qi", raw, i)[0]: struct.unpack_from("<Qi", raw, i)[1] for i in range(0, len(raw), 12)}, w, "ram", "counters in the text of a RAM")
        c.count("persisted_texts")
    t.do("rdh.new", "r", js["data"])
    for i, w in enumerate(d.counters()):
        c.eq(model.dec_ram(t.do("rdh.data1", "r", i)), w, "handle", "text of RAM %d of the handle" % i)
        c.count("persisted_texts")
    x = gen.image(rng, e, base)
    f = model.Disc(mp, e, base)
    f.train(x, rng.choice([1, 77, 2 ** 30]))
    js["data"] = ".".join(model.enc_ram(r) for r in f.counters())
    t.do("disc.load", "d", json.dumps(js))
    c.eq(t.do("disc.classify", "d", x), f.votes(x), "ram-load", "votes of a content written by Python")
    c.count("foreign_texts")
    # DataSet file
    dd = c.scratch()
    t.do("chdir", dd)
    ex = [("".join(rng.choice("01") for _ in range(rng.randint(1, 20))), rng.choice([None, rng.choice(gen.LABELS)])) for _ in range(rng.randint(1, 6))]
    t.do("ds.new", "s")
    for x, l in ex:
        t.do("ds.add", "s", x, l)
    t.do("ds.save", "s", "f")
    raw = open(os.path.join(dd, "f.wpkds"), "rb").read().split(b".")
    c.eq(len(raw), len(ex), "file", "examples in the file")
    out = []
    for p, (x, l) in zip(raw, ex):
        lab, _, b = p.partition(b"#")
        c.eq(base64.b64decode(lab, validate=True), (l or "").encode(), "file-label", "label in the file")
        n = len(x)
        v = bytes([-n % 8] + [int((x + "0" * (-n % 8))[i:i + 8], 2) for i in range(0, n, 8)])
        c.eq(b, base64.b64encode(v), "file-bits", "bits in the file")
        c.count("persisted_texts", 2)
        out.append(base64.b64encode((l or "").encode() + b"\xc3\xa9") + b"#" + base64.b64encode(v))
    with open(os.path.join(dd, "g.wpkds"), "wb") as fd:
        fd.write(b".".join(out))
    t.do("ds.load", "g", "g.wpkds")
    for i, (x, l) in enumerate(ex):
        c.eq([t.do("ds.get", "g", i), t.do("ds.label", "g", i)], [model.ival(x), (l or "") + "é"], "file-load", "example %d of a file written by Python" % i)
        c.count("foreign_texts")
    c.nontrivial = True
    c.sample = {"rams": len(mp), "examples": len(ex)}


def case(c):
    if c.t.is_cxx and c.rng.random() < .7:
        codec(c)
    else:
        persisted(c)
