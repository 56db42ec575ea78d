"""C26: file operations that cannot be completed are reported."""
import json
import os

from wv import gen, model, sim
from wv.target import Refused

ID = "C26"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 3000, 100000
RULE = ("random trained models, data sets and RAM handles are saved to files while a fault is in force (in Python also without free descriptors; missing directory, a file where a directory should be, a dangling path, a file size limit at and around every file's size, "
        "a full device, no free descriptors); a call that cannot complete must raise, a call that returns must have left files from which an equal object loads; the object is compared before and after and saved again elsewhere. "
        "Saved models are loaded after their data files were removed, replaced by directories, or cut to fewer RAMs, and data sets from absent files. Non-trivial: a fault was in force; distinct by trace")
MIN = {"save_faults": 3000, "must_fail_saves": 2000, "completed_saves": 1000, "saved_again": 2500, "load_faults": 2500, "devfull": 100, "at_limit": 300, "large": 100, "fat": 40, "empty": 100}
ASSUMPTIONS = ["the sanitizers need descriptors themselves, so exhaustion of descriptors is exercised in Python only",
               "a full device is modelled by RLIMIT_FSIZE and by /dev/full; the run is as root, so permissions refuse nothing",
               "a cut that leaves as many RAMs as the mapping has is not detectable and not judged"]


def make(c, cls, large):
    """-> (entry size, base, inputs) of handle o"""
    t, rng = c.t, c.rng
    base = rng.choice([2, 2, 3, 10, 256])
    fat = large and rng.random() < .5  # RAMs larger than the buffers of a stream
    if fat:
        base = rng.choice([2, 3])
        a = rng.choice([12, 16, 30])
        e = a * rng.choice([1, 2])
        c.count("large")
        c.count("fat")
    elif large:
        a, e = 4, rng.choice([400, 1000])
        c.count("large")
    else:
        a, e = sim.sizes(rng, base, huge=0.006)
        a = min(a, 30)
        e = max(a, min(e, 60))
    labs = gen.labels(rng, gen.nclasses(rng, [1, 2, 3]), files=True)
    xs = [gen.image(rng, e, base) for _ in range(rng.choice([1, 4, 8]))]
    if fat and cls in ("wis", "clu", "disc"):
        xs += [gen.pack([rng.randrange(base) for _ in range(e)], base) for _ in range(rng.choice([600, 1100]))]
    if rng.random() < .1:  # nothing learned, nothing stored
        xs = []
        c.count("empty")
    ys = [rng.choice(labs) for _ in xs]
    if cls == "wis":
        t.do("wis.new", "o", a, sim.wis_opts(rng, e, a, base, labs, conf=False))
        t.do("wis.train", "o", xs, ys)
    elif cls == "clu":
        t.do("clu.new", "o", a, .8, 3, 4, {"base": base})
        if rng.random() < .8:
            t.do("clu.train", "o", xs, ys)
        if rng.random() < .6:
            t.do("clu.trainU", "o", xs)
    elif cls == "disc":
        t.do("disc.new", "o", a, e, {"base": base})
        for x in xs:
            t.do("disc.train", "o", x)
    elif cls == "ds":
        t.do("ds.new", "o")
        for x, y in zip(xs * (40 if large else 1), ys * 40):
            t.do("ds.add", "o", gen.image(rng, rng.choice([60000, 70000, 140000]) if fat and rng.random() < .05 else rng.randint(1, min(e, 400))), rng.choice([None, y or None, y or None]))
    else:
        n = rng.choice([60, 300] if large and not fat else [1, 2, 3, 4, 5])
        t.do("rdh.new", "o", ".".join(model.enc_ram({} if not xs else {rng.getrandbits(64): rng.randint(1, 99) for _ in range(rng.randint(0, 1500 if large else 5))}) for _ in range(n)))
    return e, base, xs


def content(t, cls, h, cwd):
    """Comparable content of an object."""
    if cls == "wis":
        return model.wis_state(t.do("wis.json", h), cwd)
    if cls == "clu":
        return model.clu_state(t.do("clu.json", h), cwd)
    if cls == "disc":
        return model.disc_state(json.loads(t.do("disc.json", h)), cwd)
    if cls == "ds":
        n = t.do("ds.size", h)
        lab = [t.attempt("ds.label", h, i) for i in range(n)]
        return [t.do("ds.get", h, i) for i in range(n)], [None if isinstance(x, Refused) else x for x in lab]
    return [sorted(model.dec_ram(p, True).items()) for p in t.do("rdh.data", h).split(".")]


def save(t, cls, prefix):
    """-> reply of the save, or Refused"""
    if cls in ("ds", "rdh"):
        return t.attempt(cls + ".save", "o", prefix)
    return t.attempt(cls + ".json", "o", True, prefix)


def load(t, cls, prefix, reply):
    if cls == "ds":
        return t.attempt("ds.load", "l", prefix + ".wpkds")
    if cls == "rdh":
        return t.attempt("rdh.new", "l", prefix + ".wdpkg")
    return t.attempt(cls + ".load", "l", reply)


def data_files(d, reply):
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.join(r, f) for f in fs if f.endswith((".wdpkg", ".wpkds"))]
    return sorted(out)


def completed(c, cls, prefix, reply, want, d, what):
    t = c.t
    r = load(t, cls, prefix, reply)
    c.check(not isinstance(r, Refused), "silent", lambda: "%s returned normally, but loading what it saved raises: %s" % (what, r))
    c.eq(content(t, cls, "l", d), want, "silent", "%s returned normally; the content loaded from what it saved" % what)
    c.count("completed_saves")


def saves(c):
    t, rng = c.t, c.rng
    cls = rng.choice(["wis", "wis", "clu", "clu", "disc", "ds", "ds"] + (["rdh"] if t.is_cxx else []))
    make(c, cls, rng.random() < .12)
    d = c.scratch()
    t.do("chdir", d)
    want = content(t, cls, "o", d)
    # how large the files are
    ok = os.path.join(d, "ok")
    os.mkdir(ok)
    r = save(t, cls, ok + "/s")
    c.check(not isinstance(r, Refused), "refused", lambda: "a save to an existing directory raised: %s" % r)
    completed(c, cls, ok + "/s", r, want, d, "a save")
    sz = [os.path.getsize(f) for f in data_files(ok, r)]
    open(os.path.join(d, "file"), "w").close()
    os.symlink(os.path.join(d, "nowhere", "x"), os.path.join(d, "dangling"))
    seen = []
    for n in range(rng.randint(2, 5)):
        kind = rng.choice(["missing", "notdir", "dangling", "fsize", "fsize", "fsize", "full"] + ["nofile"] * t.is_py)
        w = os.path.join(d, "w%d" % n)
        os.mkdir(w)
        prefix, must = w + "/p", bool(sz)
        what = "a save of %s with %s" % (cls, kind)
        if kind == "missing":
            prefix = rng.choice([w + "/no/p", w + "/no/", "no/such/p", w + "x/p"])
        elif kind == "notdir":
            prefix = rng.choice([d + "/file/p", "file/", "file/x/y"])
        elif kind == "dangling":
            prefix = d + "/dangling/p"
        elif kind == "fsize":
            mx = max(sz or [0])
            lim = rng.choice([0, 1, mx - 1, mx, mx + 1, mx // 2, mx // 3, 3 * mx // 4, rng.randint(0, mx + 2)] + [x for x in sz] + [8190, 8191, 8192, 4096])
            lim = max(0, lim)
            must = mx > lim
            c.count("at_limit", mx in (lim, lim + 1))
            what += " of %d bytes, files of %s" % (lim, sz)
            t.do("fsize", lim)
        elif kind == "full":
            if cls not in ("ds", "rdh") or not sum(sz) or not os.path.exists("/dev/full"):
                continue
            os.symlink("/dev/full", prefix + (".wpkds" if cls == "ds" else ".wdpkg"))
            must = None
            c.count("devfull")
        else:
            t.do("nofile", 3)
        r = save(t, cls, prefix)
        t.batch([["fsize", None], ["nofile", None]])
        c.count("save_faults")
        seen.append([kind, isinstance(r, Refused)])
        if must:
            c.count("must_fail_saves")
            c.check(isinstance(r, Refused), "silent", lambda: what + ": the call returned normally")
        elif must is False and kind == "fsize":
            c.check(not isinstance(r, Refused), "refused", lambda: what + ": the save could be completed but raised: %s" % r)
        if not isinstance(r, Refused):
            full = kind == "full" and data_files(w, r)
            c.check(not full or not os.path.samefile(full[0], "/dev/full"), "silent", lambda: what + ": the call returned normally although the device is full")
            completed(c, cls, prefix, r, want, d, what)
        c.eq(content(t, cls, "o", d), want, "changed", "the object after " + what)
        if rng.random() < .8:
            w2 = os.path.join(d, "e%d" % n)
            os.mkdir(w2)
            r = save(t, cls, w2 + "/p")
            c.check(not isinstance(r, Refused), "refused", lambda: "the save elsewhere after %s raised: %s" % (what, r))
            completed(c, cls, w2 + "/p", r, want, d, "the save elsewhere after " + what)
            c.count("saved_again")
    c.nontrivial = bool(seen)
    return {"class": cls, "file_sizes": sz, "faults": seen}


def loads(c):
    t, rng = c.t, c.rng
    cls = rng.choice(["wis", "wis", "clu", "clu", "disc", "ds", "rdh"])
    d = c.scratch()
    if cls == "rdh":
        return handles(c, d)
    make(c, cls, rng.random() < .05)
    t.do("chdir", d)
    want = content(t, cls, "o", d)
    seen = []
    if cls == "ds":
        t.do("ds.save", "o", "s")
        os.mkdir(os.path.join(d, "dir.wpkds"))
        os.symlink("gone", os.path.join(d, "link.wpkds"))
        for name in ["none.wpkds", "no/s.wpkds", "S.wpkds", "link.wpkds", "s.wpkds/x.wpkds", "dir.wpkds", "", "s", "s.wpkd", ".wpkds"]:
            r = t.attempt("ds.load", "l", name)
            c.count("load_faults")
            c.check(isinstance(r, Refused), "silent-load", lambda: "a data set was built from %r, which is no data set file" % name)
        if t.is_py:
            t.do("nofile", 3)
            r = t.attempt("ds.load", "l", "s.wpkds")
            t.do("nofile", None)
            c.check(isinstance(r, Refused), "silent-load", "a data set was built from a file that could not be opened")
        t.do("ds.load", "l", "s.wpkds")
        c.eq(content(t, cls, "l", d), want, "content", "the data set loaded")
        c.nontrivial = True
        return {"class": cls}
    reply = t.do(cls + ".json", "o", True, "p" if rng.random() < .5 else d + "/p")
    fs = data_files(d, reply)
    js = json.loads(reply)
    rams = {}

    def walk(j):
        if isinstance(j, dict):
            if isinstance(j.get("data"), str):
                rams[os.path.join(d, j["data"])] = len(j["mapping"])
            for v in j.values():
                walk(v)
        elif isinstance(j, list):
            for v in j:
                walk(v)
    walk(js)
    c.eq(sorted(rams), fs, "files", "data files named by the saved text")
    for _ in range(rng.randint(1, 4)):
        if not fs:
            break
        f = rng.choice(fs)
        b = open(f, "rb").read()
        kind = rng.choice(["removed", "dir", "cut", "cut", "cut", "empty", "elsewhere"] + ["nofile"] * t.is_py)
        n = rams[f]
        text = reply
        if kind == "removed":
            os.unlink(f)
        elif kind == "dir":
            os.unlink(f)
            os.mkdir(f)
        elif kind in ("cut", "empty"):
            p = b.split(b".")
            k = rng.randrange(1, n) if kind == "cut" and n > 1 else 1
            new = b".".join(p[:k]) if kind == "cut" else b""
            if kind == "cut" and p[k - 1] and rng.random() < .3:
                new = b".".join(p[:k - 1] + [p[k - 1][:-(rng.randrange(len(p[k - 1])) or 1)]])
            if new.count(b".") + 1 >= n:
                continue
            with open(f, "wb") as g:
                g.write(new)
        elif kind == "nofile":
            t.do("nofile", 3)
        else:
            e = c.scratch()
            if any(v.startswith("/") for v in names(js)):
                continue
            t.do("chdir", e)
        r = t.attempt(cls + ".load", "l", text)
        t.batch([["chdir", d], ["nofile", None]])
        c.count("load_faults")
        seen.append(kind)
        c.check(isinstance(r, Refused), "silent-load", lambda: "a %s was built although the data file %s (%d RAMs) was %s: %s" % (cls, f, n, kind, open(f, "rb").read()[:200] if os.path.isfile(f) else None))
        if os.path.isdir(f):
            os.rmdir(f)
        with open(f, "wb") as g:
            g.write(b)
        t.do(cls + ".load", "l", text)
        c.eq(content(t, cls, "l", d), want, "content", "the model loaded once the data is there again")
    # short data inside the text
    js = json.loads(t.do(cls + ".json", "o"))
    ds = []

    def collect(j):
        if isinstance(j, dict):
            if isinstance(j.get("data"), str) and len(j["mapping"]) > 1:
                ds.append(j)
            for v in j.values():
                collect(v)
        elif isinstance(j, list):
            for v in j:
                collect(v)
    collect(js)
    if ds:
        j = rng.choice(ds)
        j["data"] = ".".join(j["data"].split(".")[:rng.randrange(1, len(j["mapping"]))])
        r = t.attempt(cls + ".load", "l", json.dumps(js))
        c.count("load_faults")
        c.check(isinstance(r, Refused), "silent-load", lambda: "a %s was built although its data has fewer RAMs than its mapping: %s" % (cls, j))
        seen.append("short text")
    c.nontrivial = bool(seen)
    return {"class": cls, "faults": seen}


def handles(c, d):
    t, rng = c.t, c.rng
    t.do("chdir", d)
    text = ".".join(model.enc_ram({rng.getrandbits(64): rng.randint(1, 99) for _ in range(rng.randint(0, 5))}) for _ in range(rng.choice([1, 2, 3, 30])))
    with open(os.path.join(d, "s.wdpkg"), "w") as g:
        g.write(text)
    os.mkdir(os.path.join(d, "dir.wdpkg"))
    os.symlink("gone", os.path.join(d, "link.wdpkg"))
    for name in ["none.wdpkg", "no/s.wdpkg", "S.wdpkg", "link.wdpkg", "s.wdpkg/x.wdpkg", "dir.wdpkg", ".wdpkg", d + "/none.wdpkg", d + "/dir.wdpkg"]:
        r = t.attempt("rdh.new", "l", name)
        c.count("load_faults")
        c.check(isinstance(r, Refused), "silent-load", lambda: "a RAM handle was built from %r, which is no data file" % name)
    if t.is_py:
        t.do("nofile", 3)
        r = t.attempt("rdh.new", "l", "s.wdpkg")
        t.do("nofile", None)
        c.check(isinstance(r, Refused), "silent-load", "a RAM handle was built from a file that could not be opened")
    t.do("rdh.new", "l", "s.wdpkg")
    c.eq(content(t, "rdh", "l", d), [sorted(model.dec_ram(p, True).items()) for p in text.split(".")], "content", "the RAM handle loaded")
    c.nontrivial = True
    return {"class": "rdh"}


def names(j):
    if isinstance(j, dict):
        out = [j["data"]] if isinstance(j.get("data"), str) else []
        return out + sum((names(v) for v in j.values()), [])
    return sum((names(v) for v in j), []) if isinstance(j, list) else []


def case(c):
    c.sample = (saves if c.rng.random() < .6 else loads)(c)
