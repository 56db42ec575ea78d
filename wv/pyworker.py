"""Executes driver requests on the Python module (same protocol as cxx/executor.cc)."""
import copy
import ctypes
import json
import os
import resource
import signal
import sys

sys.path.insert(0, sys.argv[1])
import wisardpkg as wp  # noqa: E402

signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
libc = ctypes.CDLL(None)
H = {}
ops = {}


def op(name):
    def deco(f):
        ops[name] = f
        return f
    return deco


class NoHandle(Exception):
    pass


def h(x):
    try:
        return H[x]
    except KeyError:
        raise NoHandle("harness: no handle %s" % x)


KEPT = []
ALIAS = [False]


def keep(v):
    """An argument of the library; with "alias" on it is compared with a copy after the call, then spoiled."""
    if ALIAS[0] and isinstance(v, (list, dict)):
        KEPT.append((v, copy.deepcopy(v)))
    return v


def spoil(v):
    if isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, (list, dict)):
                spoil(x)
            elif isinstance(x, str):
                v[i] = "spoiled"
            elif isinstance(x, (int, float)):
                v[i] = 0 if x else 1
        v.append(1)
    elif isinstance(v, dict):
        for k, x in list(v.items()):
            if isinstance(x, (list, dict)):
                spoil(x)
            else:
                v[k] = "spoiled" if isinstance(x, str) else 0
        v["spoiled"] = [1]


def finish():
    """-> the arguments are as they were"""
    ok = all(a == b for a, b in KEPT)
    for a, _ in KEPT:
        spoil(a)
    KEPT.clear()
    return ok


def data_of(d):
    out = []
    for i in range(d.size()):
        try:
            l = d.getLabel(i)
        except Exception:  # noqa: BLE001
            l = None
        out.append((bits(d.get(i)), l))
    return out


def flip(b):
    for i in range(b.size()):
        b.set(i, 1 - b.get(i))


class Lent:
    """A copy of a library object for one call (with "alias" on), checked and spoiled afterwards."""

    def __init__(self, o):
        self.o = o
        if ALIAS[0]:
            if isinstance(o, wp.BinInput):
                self.o = wp.BinInput(o.data())
                self.view = lambda: bits(self.o)
            elif isinstance(o, wp.DataSet):
                self.o = wp.DataSet()
                for x, l in data_of(o):
                    dsadd(self.o, wp.BinInput(x), l)
                self.view = lambda: data_of(self.o)
            else:
                self.o = wp.RAMDataHandle(o.data())
                self.view = lambda: self.o.data()

    def __enter__(self):
        if ALIAS[0]:
            self.was = self.view()
        return self.o

    def __exit__(self, *a):
        if ALIAS[0]:
            if self.view() != self.was:
                KEPT.append((1, 2))
            if isinstance(self.o, wp.BinInput):
                flip(self.o)
            elif isinstance(self.o, wp.DataSet):
                self.o.add([1, 0, 1], "spoiled")
            else:
                try:
                    self.o.set(0, 1, 77)
                except Exception:  # noqa: BLE001
                    pass
            del self.o


def keep2(s):
    for x in s:
        keep(x)
    return keep(s)


def lent(f, x):
    with Lent(x) as o:
        return f(o)


def one_bin(b):
    r = bits(b)
    if ALIAS[0]:
        flip(b)  # a returned value is the caller's own
    return r


def img(v):
    return keep([ord(c) - 48 for c in v] if isinstance(v, str) else v)


def imgs(v):
    return keep([img(x) for x in v])


def bits(b):
    return [b.get(i) for i in range(b.size())]


def kw(o):
    return keep(o or {})


@op("alias")
def _(on):
    ALIAS[0] = on


ops["ping"] = lambda *a: len(a) + 1
ops["caps"] = lambda: ["py"]
ops["version"] = lambda: wp.__version__


@op("clock")
def _(t):
    libc.wv_set_clock(ctypes.c_longlong(t))


@op("crand")
def _(s, n=0):
    libc.srand(ctypes.c_uint(s))
    for _ in range(n):
        libc.rand()


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


@op("mem")
def _():
    import gc
    gc.collect()
    libc.mallinfo2.restype = Mallinfo2
    m = libc.mallinfo2()
    return [m.uordblks + m.hblkhd, sys.getallocatedblocks()]



@op("out")
def _():
    sys.stdout.flush()
    sys.stderr.flush()
    libc.fflush(None)
    return os.fstat(1).st_size + os.fstat(2).st_size


@op("fsize")
def _(n):
    s, hd = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (hd if n is None else n, hd))


NOFILE = resource.getrlimit(resource.RLIMIT_NOFILE)


@op("nofile")
def _(n):
    resource.setrlimit(resource.RLIMIT_NOFILE, (NOFILE[0] if n is None else n, NOFILE[1]))


ops["chdir"] = lambda p: os.chdir(p)


@op("del")
def _(*hs):
    for x in hs:
        H.pop(x, None)


ops["reset"] = lambda: H.clear()


def new(name, f):
    def g(hd, *a):
        H[hd] = f(*a)
    ops[name] = g


new("wis.new", lambda a, o: wp.Wisard(a, **kw(o)))
new("wis.load", lambda s: wp.Wisard(s))
ops["wis.train"] = lambda w, X, y: h(w).train(imgs(X), keep(y))
ops["wis.trainDS"] = lambda w, d: lent(h(w).train, h(d))
ops["wis.classify"] = lambda w, X: list(h(w).classify(imgs(X)))
ops["wis.classifyDS"] = lambda w, d: list(lent(h(w).classify, h(d)))
ops["wis.loo"] = lambda w, x, l: h(w).leaveOneOut(img(x), l)
ops["wis.lmo"] = lambda w, X, y: h(w).leaveMoreOut(imgs(X), keep(y))
ops["wis.mental"] = lambda w: h(w).getMentalImages()
for k in ("wis", "disc", "clu"):
    ops[k + ".json"] = lambda w, *a: h(w).json(*a)
    ops[k + ".jsonConfig"] = lambda w: h(w).jsonConfig()
    ops[k + ".sizeof"] = lambda w: h(w).getsizeof()

new("disc.new", lambda a, n, o: wp.Discriminator(a, n, **kw(o)))
new("disc.load", lambda s: wp.Discriminator(s))
ops["disc.train"] = lambda d, x: h(d).train(img(x))


@op("disc.trainN")
def _(d, x, n):
    d = h(d)
    x = img(x)
    for _ in range(n):
        d.train(x)


ops["disc.trainB"] = lambda d, X: h(d).train(imgs(X))
ops["disc.trainBin"] = lambda d, x: lent(h(d).train, wp.BinInput(img(x)))
ops["disc.classify"] = lambda d, x: h(d).classify(img(x))
ops["disc.classifyM"] = lambda d, X: [h(d).classify(img(x)) for x in X]
ops["disc.classifyBin"] = lambda d, x: lent(h(d).classify, wp.BinInput(img(x)))

new("clu.new", lambda a, s, t, l, o: wp.ClusWisard(a, s, t, l, **kw(o)))
new("clu.load", lambda s: wp.ClusWisard(s))
ops["clu.train"] = lambda w, X, y: h(w).train(imgs(X), keep(y))
ops["clu.trainSemi"] = lambda w, X, y: h(w).train(imgs(X), keep({int(i): l for i, l in y}))
ops["clu.trainU"] = lambda w, X: h(w).trainUnsupervised(imgs(X))
ops["clu.classify"] = lambda w, X: list(h(w).classify(imgs(X)))
ops["clu.classifyU"] = lambda w, X: list(h(w).classifyUnsupervised(imgs(X)))
ops["clu.mental"] = lambda w, l: h(w).getMentalImage(l)
ops["clu.mentals"] = lambda w: h(w).getMentalImages()

new("bin.new", lambda n: wp.BinInput(n))
new("bin.vec", lambda v: wp.BinInput(img(v)))
new("bin.load", lambda s: wp.BinInput(s))
ops["bin.get"] = lambda b, i: h(b).get(i)
ops["bin.idx"] = lambda b, i: h(b)[i]
ops["bin.set"] = lambda b, i, v: h(b).set(i, v)
ops["bin.size"] = lambda b: h(b).size()
ops["bin.data"] = lambda b: h(b).data()
ops["bin.all"] = lambda b: bits(h(b))

new("ds.new", lambda: wp.DataSet())
new("ds.load", lambda s: wp.DataSet(s))


def dsadd(d, x, l):
    if l is None:
        d.add(x)
    else:
        d.add(x, l)


ops["ds.add"] = lambda d, x, l: dsadd(h(d), img(x), l)
ops["ds.addBin"] = lambda d, b, l: lent(lambda o: dsadd(h(d), o, l), h(b))


@op("ds.addM")
def _(d, X, y):
    d = h(d)
    for x, l in zip(X, y):
        dsadd(d, img(x), l)


ops["ds.get"] = lambda d, i: one_bin(h(d).get(i))
ops["ds.label"] = lambda d, i: h(d).getLabel(i)
ops["ds.size"] = lambda d: h(d).size()
ops["ds.save"] = lambda d, p: h(d).save(p)

new("kc.new", lambda d, n, o: wp.KernelCanvas(d, n, **kw(o)))
ops["kc.transform"] = lambda k, s: h(k).transform(keep2(s))
new("syn.new", lambda v: wp.Synthesizer(img(v)))
ops["syn.make"] = lambda s, n: [h(s).make() for _ in range(n)]

new("rdh.new", lambda s: wp.RAMDataHandle(s))
ops["rdh.get2"] = lambda r, i, a: h(r).get(i, int(a))
ops["rdh.get1"] = lambda r, i: [[str(a), v] for a, v in h(r).get(i).items()]
ops["rdh.set"] = lambda r, i, a, v: h(r).set(i, int(a), v)
ops["rdh.data"] = lambda r: h(r).data()
ops["rdh.data1"] = lambda r, i: h(r).data(i)
ops["rdh.compare"] = lambda r, s: lent(h(r).compare, h(s))


def one(q):
    f = ops.get(q[0])
    if f is None:
        return ["noop"]
    try:
        r = ["ok", f(*q[1:])]
        if ALIAS[0]:
            r[1] = copy.deepcopy(x := r[1])
            spoil(x)
            if not finish():
                return ["arg", q[0]]
        return r
    except NoHandle as e:
        return ["harness", "NoHandle", str(e)]
    except Exception as e:  # noqa: BLE001
        if not finish():
            return ["arg", q[0]]
        return ["ex", type(e).__name__, str(e)]


def main():
    fd = int(os.environ["WV_FD"])
    out = os.fdopen(fd, "wb", buffering=0)
    for line in sys.stdin.buffer:
        rep = [one(q) for q in json.loads(line)]
        data = json.dumps(rep, ensure_ascii=False).encode("utf-8", "surrogateescape") + b"\n"
        view = memoryview(data)
        while view:
            n = out.write(view)
            view = view[n:]


main()
