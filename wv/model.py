"""Independent reference models (written from the properties, not from the library code)."""
import base64
import binascii
import json
import struct
from collections import Counter
from fractions import Fraction

import numpy as np

LIM = 1 << 64


class BadState(Exception):
    pass


def ival(x):
    """int list of an image given as digit string or list."""
    return [ord(c) - 48 for c in x] if isinstance(x, str) else list(x)


class Disc:
    """Discriminator as a multiset of learned tuples per RAM."""

    def __init__(self, mapping, entry, base=2, ignore_zero=False):
        self.mapping = [list(m) for m in mapping]
        self.entry, self.base, self.iz = entry, base, ignore_zero
        self.rams = [Counter() for _ in self.mapping]
        self.count = 0
        self.learned = Counter()

    def copy(self):
        d = Disc(self.mapping, self.entry, self.base, self.iz)
        d.rams = [Counter(r) for r in self.rams]
        d.count = self.count
        d.learned = Counter(self.learned)
        return d

    def tuples(self, x):
        return [tuple(x[p] for p in m) for m in self.mapping]

    def valid(self, x):
        return len(x) == self.entry and all(0 <= x[p] < self.base for m in self.mapping for p in m)

    def train(self, x, n=1):
        x = ival(x)
        for r, t in zip(self.rams, self.tuples(x)):
            r[t] += n
        self.count += n
        self.learned[tuple(x)] += n

    def untrain(self, x):
        x = ival(x)
        for r, t in zip(self.rams, self.tuples(x)):
            r[t] -= 1
        self.count -= 1
        self.learned[tuple(x)] -= 1

    def votes(self, x):
        x = ival(x)
        out = []
        for r, t in zip(self.rams, self.tuples(x)):
            out.append(0 if self.iz and not any(t) else r.get(t, 0))
        return out

    def mental(self):
        mult = Counter(p for m in self.mapping for p in m)
        img = [0] * self.entry
        for x, n in self.learned.items():
            if n:
                for p, v in enumerate(x):
                    if v:
                        img[p] += n * mult[p]
        return img

    def counters(self):
        """Per RAM {address: count} in the library's address encoding, zero counters dropped."""
        out = []
        for r in self.rams:
            d = {}
            for t, n in r.items():
                if n:
                    a = 0
                    for v in reversed(t):
                        a = a * self.base + v
                    d[a] = n
            out.append(d)
        return out


def dec_b64(s):
    try:
        return base64.b64decode(s.encode("ascii"), validate=True)
    except (ValueError, binascii.Error, UnicodeEncodeError) as e:
        raise BadState("not standard base64: %r (%s)" % (s[:60], e))


def dec_ram(text, keep_zero=False):
    raw = dec_b64(text)
    if len(raw) % 12:
        raise BadState("RAM content of %d bytes" % len(raw))
    d = {}
    for i in range(0, len(raw), 12):
        a, n = struct.unpack_from("<Qi", raw, i)
        if a in d:
            raise BadState("address %d twice in a RAM" % a)
        d[a] = n
    return d if keep_zero else {a: n for a, n in d.items() if n}


def dec_rams(text, n=None, keep_zero=False):
    parts = text.split(".")
    if n == 0 and text == "":
        return []
    if n is not None and len(parts) != n:
        raise BadState("%d RAMs in the data, %d in the mapping" % (len(parts), n))
    return [dec_ram(p, keep_zero) for p in parts]


def enc_ram(d, order=None):
    return base64.b64encode(b"".join(struct.pack("<Qi", a, n) for a, n in (order or d.items()))).decode()


def read_data(text, cwd=None):
    if text.endswith(".wdpkg"):
        import os
        with open(os.path.join(cwd, text) if cwd else text, "rb") as f:
            return f.read().decode("latin-1")
    return text


def disc_state(js, cwd=None):
    """Decoded learned state of a discriminator object (parsed JSON)."""
    return {"entry": js["entrySize"], "mapping": js["mapping"], "count": js["count"],
            "rams": dec_rams(read_data(js["data"], cwd), len(js["mapping"]))}


def model_state(d):
    return {"entry": d.entry, "mapping": d.mapping, "count": d.count, "rams": d.counters()}


def wis_state(text, cwd=None):
    j = json.loads(text)
    return {k: disc_state(v, cwd) for k, v in (j["classes"] or {}).items()}


def clu_state(text, cwd=None):
    j = json.loads(text)
    cl = {k: [disc_state(d, cwd) for d in (v["discriminators"] or [])] for k, v in (j.get("clusters") or {}).items()}
    u = j.get("unsupervisedCluster")
    return {"clusters": cl, "unsup": [disc_state(d, cwd) for d in u["discriminators"]] if u else []}


def bkey(s):
    return s.encode("utf-8", "surrogateescape")


def bleach(votes, activated=True, confidence=1):
    """votes: {name: [int]} -> (scores {name: int}, winner, threshold). Property C03."""
    names = sorted(votes, key=bkey)
    levels = sorted({v for vs in votes.values() for v in vs if v >= 1})
    b = 1
    while True:
        scores = {n: sum(1 for v in votes[n] if v >= b) for n in names}
        if not activated or len(names) < 2:
            break
        top = sorted(scores.values(), reverse=True)
        if top[0] - top[1] >= confidence or top[0] <= 1:
            break
        nxt = [v for v in levels if v >= b]
        b = nxt[0] + 1  # scores are constant up to the smallest counted vote
    win = ""
    best = -1
    for n in names:
        if scores[n] >= best:
            best, win = scores[n], n
    return scores, win, b


def degrees(scores, win, nrams):
    best = scores[win] if scores else 0
    lower = [s for s in scores.values() if s < best]
    conf = 0.0 if best == 0 else (best - (max(lower) if lower else 0)) / best
    tot = sum(scores.values())
    return {"activationDegree": (best / nrams if nrams else 0.0), "confidence": conf,
            "classesDegrees": [(n, (scores[n] / tot if tot else 0.0)) for n in sorted(scores, key=bkey)]}


class Wis:
    def __init__(self, base=2, ignore_zero=False, bleaching=True, confidence=1):
        self.base, self.iz, self.bl, self.conf = base, ignore_zero, bleaching, confidence
        self.classes = {}

    def add_class(self, label, mapping, entry):
        self.classes[label] = Disc(mapping, entry, self.base, self.iz)

    def votes(self, x):
        return {k: d.votes(x) for k, d in self.classes.items()}

    def predict(self, x):
        return bleach(self.votes(x), self.bl, self.conf)

    def label(self, x):
        return self.predict(x)[1]

    def state(self):
        return {k: model_state(d) for k, d in self.classes.items()}


class Borderline(Exception):
    pass


def f32(x):
    return float(np.float32(x))


class Clus:
    """One cluster (C11). Mappings of discriminators are supplied (they are random in the library)."""

    def __init__(self, entry, mappings, min_score, threshold, limit, base=2, ignore_zero=False):
        self.entry, self.mappings = entry, mappings
        self.ms, self.th, self.limit = Fraction(f32(min_score)), threshold, limit
        self.base, self.iz = base, ignore_zero
        self.discs = []

    def score(self, votes):
        mx = max(votes) if votes else 0
        return Fraction(sum(votes), mx * len(votes)) if mx > 0 else Fraction(0)

    @staticmethod
    def near(a, b):
        return a != b and abs(a - b) < Fraction(1, 50000)

    @staticmethod
    def dyadic(a):
        d = a.denominator
        return d & (d - 1) == 0 and d <= 1 << 20

    def new(self, x):
        i = len(self.discs)
        if i >= len(self.mappings):
            raise BadState("the rule grows more discriminators (or clusters) than the %d the library has" % len(self.mappings))
        d = Disc(self.mappings[i], self.entry, self.base, self.iz)
        d.train(x)
        self.discs.append(d)

    def train(self, x):
        """-> what happened, for coverage counters."""
        if not self.discs:
            self.new(x)
            return "first"
        ss = [self.score(d.votes(x)) for d in self.discs]
        took = []
        for i, d in enumerate(self.discs):
            lim = min(Fraction(1), self.ms + Fraction(d.count, self.th))
            if ss[i] == lim:
                if lim != 1 and not (self.dyadic(ss[i]) and self.dyadic(self.ms) and self.dyadic(Fraction(d.count, self.th))):
                    raise Borderline("score equals limit in inexact arithmetic")
                if lim == 1 and self.ms + Fraction(d.count, self.th) < 1:
                    pass
            elif self.near(ss[i], lim):
                raise Borderline("score near limit")
            # the limit itself near 1 from below while the score is 1 never matters: 1 >= limit
            if ss[i] >= lim:
                took.append(i)
        if took:
            for i in took:
                self.discs[i].train(x)
            return "matched%d" % min(len(took), 2)
        if len(self.discs) < self.limit:
            self.new(x)
            return "created"
        best = max(ss)
        for i in range(len(ss)):
            if self.near(ss[i], best):
                raise Borderline("best scores nearly equal")
        # equal best scores: the most recent discriminator
        i = max(j for j in range(len(ss)) if ss[j] == best)
        if sum(1 for s in ss if s == best) > 1 and len({tuple(sorted(self.discs[j].votes(x))) for j in range(len(ss)) if ss[j] == best}) > 1 \
                and not self.dyadic(best):
            raise Borderline("equal best scores from different votes")
        self.discs[i].train(x)
        return "fullbest"


def clu_votes(clusters, x):
    """{key: votes} over all discriminators of all clusters; clusters: {label: [Disc]}."""
    out = {}
    for lab, ds in clusters.items():
        for i, d in enumerate(ds):
            out["%s::%d" % (lab, i)] = d.votes(x)
    return out


def clu_predict(clusters, x, bl=True, conf=1):
    sc, win, b = bleach(clu_votes(clusters, x), bl, conf)
    return sc, win, win[:win.rfind("::")] if win else ""
