"""C16: DataSet keeps examples and labels in order and survives its file."""
import base64
import os

from wv import gen, model
from wv.target import Refused

ID = "C16"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 4000, 120000
RULE = ("random DataSet objects (0..many examples of equal or different sizes, labels of any text, none or empty) under add/addBin/get/getLabel/save/load sequences with refused accesses and refused adds, "
        "compared with a list model; saved files are decoded independently, replace earlier files, and are loaded again (also in another process). Non-trivial: a file round trip; distinct by trace")
MIN = {"examples_compared": 50000, "labels_compared": 20000, "no_label": 10000, "round_trips": 4000, "empty_sets": 200, "refused": 4000, "huge_sets": 4, "replaced_files": 400, "saved_between": 300, "files_decoded": 4000}
ASSUMPTIONS = ["an empty label counts as no label"]


def img(rng):
    n = rng.choice([1, 2, 5, 7, 8, 9, 16, 33]) if rng.random() < .9 else rng.choice([0, 100, 1000])
    return "".join(rng.choice("01") for _ in range(n))


def same(c, t, h, ex, what):
    n = len(ex)
    c.eq(t.do("ds.size", h), n, "size", what + ": size")
    idx = range(n) if n < 60 or n < 2000 and c.rng.random() < .1 else c.rng.sample(range(n), 40) + [i for i in (127, 128, 255, 256, 32767, 32768, 65535, 65536, n - 1) if i < n]
    got = t.batch([["ds.get" if t.is_py or c.rng.random() < .5 else "ds.idx", h, i] for i in idx])
    for i, g in zip(idx, got):
        c.count("examples_compared")
        if isinstance(g, Refused):
            c.fail("get", "%s: get(%d) of %d raised %s" % (what, i, n, g))
        c.eq(g, model.ival(ex[i][0]), "example", "%s: example %d" % (what, i))
    got = t.batch([["ds.label", h, i] for i in idx])
    for i, g in zip(idx, got):
        if ex[i][1]:
            c.count("labels_compared")
            c.eq(g if not isinstance(g, Refused) else str(g), ex[i][1], "label", "%s: label of %d" % (what, i))
        else:
            c.count("no_label")
            c.check(isinstance(g, Refused) or g == "", "label-invented", lambda: "%s: example %d has no label but getLabel gave %r" % (what, i, g))
            c.check(isinstance(g, Refused), "no-label", lambda: "%s: getLabel(%d) of an example without label returned %r" % (what, i, g))


def file_model(c, path, ex):
    raw = open(path, "rb").read()
    parts = raw.split(b".") if raw or len(ex) else []
    if len(parts) != len(ex):
        c.fail("file", "the file has %d examples, the data set %d" % (len(parts), len(ex)))
    for p, (x, l) in zip(parts, ex):
        lab, _, dat = p.partition(b"#")
        c.eq(base64.b64decode(lab, validate=True).decode("utf-8"), l or "", "file-label", "label in the file")
        b = base64.b64decode(dat, validate=True)
        bits = "".join("{:08b}".format(v) for v in b[1:])
        bits = bits[:len(bits) - b[0]] if b[0] else bits
        c.eq(bits, x, "file-bits", "bits in the file")
    c.count("files_decoded")


def case(c):
    t, rng = c.t, c.rng
    d = c.scratch()
    t.do("chdir", d)
    t.do("ds.new", "d")
    ex = []
    fixed = rng.choice([None, 3, 8, 17])
    saved = {}
    steps = rng.randint(2, 10)
    if c.every(331):
        steps, n = 1, rng.choice([66000, 70001])
        new = [("".join(rng.choice("01") for _ in range(fixed or 5)), rng.choice([None, "l%d" % i, "x"])) for i in range(n)]
        t.do("ds.addM", "d", [x for x, _ in new], [l for _, l in new])
        ex += new
        c.count("huge_sets")
    for _ in range(steps):
        r = rng.random()
        if r < .45:
            k = rng.choice([1, 1, 2, 5, 12])
            if rng.random() < .02:
                k = rng.choice([300, 700])
            for _ in range(k):
                x = "".join(rng.choice("01") for _ in range(fixed)) if fixed else img(rng)
                l = rng.choice([None, None, rng.choice(gen.LABELS), gen.labels(rng, 2)[0]])
                if rng.random() < .3:
                    t.do("bin.vec", "b", x)
                    t.do("ds.addBin", "d", "b", l)
                    if x:
                        t.do("bin.set", "b", 0, 1 - int(x[0]))  # the data set has its own copy
                else:
                    t.do("ds.add", "d", x, l)
                ex.append((x, l))
        elif r < .6:
            n = len(ex)
            i = rng.choice([n, n + 1, -1, 2 ** 31 - 1, -2 ** 31, n + 100])
            for q in (["ds.get", "d", i], ["ds.label", "d", i]):
                g = t.attempt(*q)
                c.check(isinstance(g, Refused), "outside", lambda: "%s on a data set of %d gave %r" % (q, n, g))
                c.count("refused")
            if rng.random() < .4:
                g = t.attempt("ds.add", "d", "0120", rng.choice([None, "bad"]))
                c.check(isinstance(g, Refused), "bad-value", lambda: "an example with the value 2 was accepted")
                c.count("refused")
        elif r < .85:
            again = None
            if saved and rng.random() < .2:  # another data set goes into the same file in between
                again, o, n = rng.choice(sorted(saved)), t, max(1, len(ex))
                if rng.random() < .3:
                    o = c.target(c.kind, 1)
                    o.do("chdir", d)
                o.do("ds.new", "between")
                o.do("ds.addM", "between", ["0110"] * n, ["y"] * n)
                o.do("ds.save", "between", again)
                saved[again] = [("0110", "y")] * n
                c.count("saved_between")
            p = again or rng.choice(["s", "a.b", "é", "s", "x.wpkds", "p#1"])
            if rng.random() < .3:
                p = os.path.join(d, p)
            if os.path.exists(os.path.join(d, p + ".wpkds")):
                c.count("replaced_files")
            before = set(os.listdir(d))
            t.do("ds.save", "d", p)
            c.check(set(os.listdir(d)) - before <= {os.path.basename(p) + ".wpkds"}, "files", lambda: "save(%r) left the files %s" % (p, sorted(os.listdir(d))))
            if not os.path.exists(os.path.join(d, p + ".wpkds")):
                c.fail("file-name", "save(%r) wrote no %s.wpkds" % (p, p))
            saved[os.path.basename(p)] = list(ex)
            if not ex:
                c.count("empty_sets")
            file_model(c, os.path.join(d, p + ".wpkds"), ex)
        if saved and rng.random() < .5:
            p = rng.choice(sorted(saved))
            o = c.t
            if rng.random() < .1:
                o = c.target(c.kind, 1)
                o.do("chdir", d)
            o.do("ds.load", "o", p + ".wpkds")
            same(c, o, "o", saved[p], "loaded from %s" % p)
            c.count("round_trips")
            if rng.random() < .2 and o is t:
                t.do("ds.load", "d", p + ".wpkds")
                ex = list(saved[p])
        same(c, t, "d", ex, "data set")
        if t.is_cxx and rng.random() < .1:
            t.do("ds.copy", "k", "d")
            t.do("ds.add", "k", "101", "only in the copy")
            same(c, t, "k", ex + [("101", "only in the copy")], "copy")
    p = "last"
    t.do("ds.save", "d", p)
    file_model(c, os.path.join(d, p + ".wpkds"), ex)
    same(c, t, "d", ex, "data set after save")
    t.do("ds.load", "o", p + ".wpkds")
    same(c, t, "o", ex, "loaded again")
    t.do("ds.save", "o", "again")
    t.do("ds.load", "o2", "again.wpkds")
    same(c, t, "o2", ex, "second generation")
    c.count("round_trips", 2)
    c.count("empty_sets", not ex)
    c.nontrivial = True
    c.sample = {"examples": len(ex), "labelled": sum(1 for _, l in ex if l)}
