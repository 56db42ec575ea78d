"""Case runner: shards cases over worker processes, collects what the monitors observed, writes evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import shutil
import sys
import tempfile
import time
import traceback

from . import build as B
from . import target as T

WORKERS = int(os.environ.get("WV_WORKERS", "8"))


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class Inconclusive(Exception):
    pass


class Case:
    def __init__(self, prop, seed, k, tier, kind, pool, workdir):
        self.prop, self.seed, self.k, self.tier, self.kind = prop, seed, k, tier, kind
        self.rng = random.Random("%s:%s:%d" % (seed, prop, k))
        self.pool, self.workdir = pool, workdir
        self.boost = None
        self.counts = collections.Counter()
        self.nontrivial = False
        self.sample = None
        self.used = []
        self.t = self.target(kind) if kind else None

    def target(self, kind, n=0):
        t = self.pool.get((kind, n))
        if t is None:
            t = self.pool[(kind, n)] = T.Target(kind, self.pool["paths"], timeout=self.pool["timeout"], fill=(165, 0, 90, 255)[n % 4])
        if t not in self.used:
            self.used.append(t)
            t.begin(random.Random("%s:%s:%d:%s" % (self.seed, self.prop, self.k, n)))
        return t

    @property
    def thorough(self):
        return self.tier == "thorough"

    def every(self, n):
        """Rare expensive cases (n: a prime, so that all targets get some)."""
        return self.k % n == n // 3 or (self.boost is not None and self.boost.random() < 8 / n ** .7)

    def count(self, name, n=1):
        self.counts[name] += n

    def fail(self, key, msg):
        raise Violation(key, msg)

    def check(self, ok, key, msg):
        self.counts["oracle_evaluations"] += 1
        if not ok:
            raise Violation(key, msg() if callable(msg) else msg)

    def eq(self, got, want, key, what):
        self.counts["oracle_evaluations"] += 1
        if got != want:
            raise Violation(key, "%s: got %s, expected %s" % (what, T.short(got, 600), T.short(want, 600)))

    def scratch(self):
        d = tempfile.mkdtemp(prefix="c%d-" % self.k, dir=self.workdir)
        return d

    def trace(self):
        return [{"target": t.kind, "ops": t.trace} for t in self.used]


OOM = ("allocation-size-too-big", "out-of-memory", "requested allocation size", "rss-limit-exceeded")


def run_one(mod, seed, k, tier, kind, pool, workdir, last=False, boost=False):
    """-> dict(status=ok|violation|inconclusive|error, ...)"""
    c = None
    t0 = time.monotonic()
    try:
        c = Case(mod.ID, seed, k, tier, kind, pool, workdir)
        if boost:
            c.boost = random.Random("boost:%s:%s:%d" % (seed, mod.ID, k))
        mod.case(c)
        res = {"status": "ok"}
    except Violation as e:
        res = {"status": "violation", "key": e.key, "msg": e.msg}
    except T.Refused as e:
        res = {"status": "violation", "key": "refused", "msg": "a valid operation raised: %s" % e}
    except T.ArgChanged as e:
        res = {"status": "violation", "key": "argument", "msg": str(e)}
    except T.Crash as e:
        if any(x in e.log for x in OOM):
            res = {"status": "inconclusive", "msg": "allocation limit: " + e.op}
        else:
            res = {"status": "violation", "key": "crash", "msg": str(e)}
    except T.Hang as e:
        if last:
            res = {"status": "violation", "key": "hang", "msg": "no answer within %ss, twice: %s" % (pool["timeout"], e.op)}
        else:
            return run_one(mod, seed, k, tier, kind, pool, workdir, last=True, boost=boost)
    except Inconclusive as e:
        res = {"status": "inconclusive", "msg": str(e)}
    except (FileNotFoundError, NotADirectoryError, IsADirectoryError) as e:
        if str(e.filename).startswith(str(workdir)):  # a file the library should have written, or named
            res = {"status": "violation", "key": "missing-file", "msg": "%s\n%s" % (e, traceback.format_exc()[-2000:])}
        else:
            res = {"status": "error", "msg": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())}
    except (T.HarnessError, B.BuildError, OSError) as e:
        res = {"status": "error", "msg": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())}
    except Exception as e:  # noqa: BLE001  an observation without the specified form
        res = {"status": "violation", "key": "malformed", "msg": "unexpected form of an observation: %s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc()[-3000:])}
    res["k"], res["kind"] = k, kind
    if os.environ.get("WV_SLOW") and time.monotonic() - t0 > float(os.environ["WV_SLOW"]):
        sys.stderr.write("slow: %s case %d on %s: %.1fs %s\n" % (mod.ID, k, kind, time.monotonic() - t0, str(c and c.sample)[:300]))
    if c is not None:
        res["counts"] = c.counts
        h = hashlib.blake2b(digest_size=8)
        nops = 0
        for t in c.used:
            nops += len(t.trace)
            h.update(repr(t.trace[4:]).encode("utf-8", "surrogateescape"))
        if c.sample is not None:
            h.update(repr(c.sample).encode("utf-8", "surrogateescape"))
        res["nops"] = nops
        res["hash"] = h.digest()
        res["nontrivial"] = c.nontrivial
        res["sample"] = c.sample
        res["excerpt"] = [T.short(q, 160) for t in c.used for q in t.trace[5:13]] if k < 3 else None
        if res["status"] == "violation":
            res["trace"] = c.trace()
    return res


def kind_of(mod, k, kinds):
    f = getattr(mod, "kind_for", None)
    return f(k, kinds) if f else kinds[k % len(kinds)]


def worker(mod, seed, tier, n, w, nw, kinds, paths, q, stop, workdir):
    pool = {"paths": paths, "timeout": getattr(mod, "TIMEOUT", 60)}
    try:
        for k in range(w, n, nw):
            if stop.is_set():
                break
            res = run_one(mod, seed, k, tier, kind_of(mod, k, kinds), pool, workdir)
            q.put(res)
            if res["status"] in ("violation", "error"):
                if res["status"] == "error" or not known(mod.ID, res["key"]):
                    stop.set()
                    break
    except BaseException as e:  # noqa: BLE001
        q.put({"status": "error", "msg": "%s\n%s" % (e, traceback.format_exc()), "k": -1, "kind": "?"})
        stop.set()
    finally:
        for v in pool.values():
            if isinstance(v, T.Target):
                v.close()
        q.put(None)


def known_findings():
    p = os.path.join(B.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(x.split("=", 1) for x in line[6:].split(" -- ")[0].split())
                d["text"] = line.split(" -- ", 1)[1] if " -- " in line else ""
                out.append(d)
    return out


def known(prop, key):
    return any(d.get("property") == prop and d.get("key") == key for d in known_findings())


def write_replay(mod, seed, tier, res):
    d = os.path.join(B.VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%d.json" % (mod.ID, seed, res["k"]))
    with open(p, "w", encoding="utf-8", errors="surrogateescape") as f:
        json.dump({"property": mod.ID, "seed": seed, "tier": tier, "case": res["k"], "target": res["kind"], "key": res["key"],
                   "message": res["msg"], "how": "python3 check.py %s --replay %s" % (mod.ID, p), "trace": res.get("trace")},
                  f, ensure_ascii=False, indent=1, default=repr)
    return p


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if a.replay:
        r = json.load(open(a.replay))
        seed, tier, a.only = r["seed"], r["tier"], r["case"]
    t0 = time.time()
    mod = importlib.import_module("wv.props." + a.prop.lower())
    try:
        kinds = list(mod.KINDS)
        if "gen" in kinds or "genmem" in kinds or "tsan" in kinds:
            if B.header_differs():
                kinds += [{"gen": "hdr", "genmem": "hdrmem", "tsan": "tsanhdr"}[x] for x in kinds if x in ("gen", "genmem", "tsan")]
        need = list(kinds) + list(getattr(mod, "EXTRA", []))
        if hasattr(mod, "EXTRA_DIFF") and B.header_differs():
            need += mod.EXTRA_DIFF
        if any(x.startswith("py") for x in need):
            need.append("vtime")
        paths = B.build(need)
    except B.BuildError as e:
        print("ERROR build failed: %s" % e)
        return 2
    tb = time.time() - t0
    n = a.cases or (mod.THOROUGH if tier == "thorough" else mod.QUICK)
    workdir = tempfile.mkdtemp(prefix="wvw-", dir=T.SCRATCH)
    results, viol, errors, inconc = [], [], [], []
    counts, bykind = collections.Counter(), collections.Counter()
    distinct = set()
    samples = []
    nops = 0
    try:
        if a.only is not None:
            pool = {"paths": paths, "timeout": getattr(mod, "TIMEOUT", 60)}
            res = run_one(mod, seed, a.only, tier, kind_of(mod, a.only, kinds), pool, workdir)
            for v in pool.values():
                if isinstance(v, T.Target):
                    v.close()
            print(json.dumps({x: y for x, y in res.items() if x not in ("hash", "trace")}, indent=1, default=repr, ensure_ascii=False))
            if res["status"] == "violation" and not known(mod.ID, res["key"]):
                print("VIOLATION property=%s replay=%s" % (mod.ID, write_replay(mod, seed, tier, res)))
                return 1
            return 0 if res["status"] != "error" else 2
        ctx = mp.get_context("fork")
        q = ctx.Queue()
        stop = ctx.Event()
        nw = min(WORKERS, n, getattr(mod, "MAXWORKERS", WORKERS))
        ws = [ctx.Process(target=worker, args=(mod, seed, tier, n, w, nw, kinds, paths, q, stop, workdir)) for w in range(nw)]
        for p in ws:
            p.start()
        live = nw
        done = 0
        while live:
            try:
                r = q.get(timeout=600)
            except queue.Empty:
                errors.append({"msg": "a worker gave no result for 600 s"})
                break
            if r is None:
                live -= 1
                continue
            done += 1
            counts.update(r.get("counts") or {})
            bykind[r["kind"]] += 1
            nops += r.get("nops", 0)
            if r.get("nontrivial"):
                distinct.add(r["hash"])
            if r.get("sample") is not None and len(samples) < 4:
                samples.append({"case": r["k"], "target": r["kind"], "what": r["sample"], "ops": r.get("excerpt")})
            if r["status"] == "violation":
                viol.append(r)
            elif r["status"] == "error":
                errors.append(r)
            elif r["status"] == "inconclusive":
                inconc.append(r)
        for p in ws:
            p.join(5)
            if p.is_alive():
                p.terminate()
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    fresh = [v for v in viol if not known(mod.ID, v["key"])]
    need = getattr(mod, "MIN", {})
    wall = time.time() - t0
    ev = {
        "property": mod.ID, "tier": tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0, "level": "exploration",
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(distinct), "rule": mod.RULE, "samples": samples or [{"note": "none"}],
            "library_calls": nops, "cases_by_target": dict(bykind), "observed": dict(sorted(counts.items())),
            "inconclusive_cases": len(inconc), "header_differs": "hdr" in kinds or "hdrmem" in kinds,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(B.VERIF, "evidence", mod.ID + ".json"), "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=repr)
    for d in known_findings():
        if d.get("property") == mod.ID:
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, d["text"]))
    print("%s %s: %d cases (%d distinct non-trivial), %d library calls, %d inconclusive, build %.1fs, total %.1fs" % (
        mod.ID, tier, done, len(distinct), nops, len(inconc), tb, wall))
    print("observed: " + ", ".join("%s=%s" % x for x in sorted(counts.items())))
    if inconc:
        print("inconclusive e.g.: " + "; ".join(str(x["msg"])[:200] for x in inconc[:3]))
    if fresh:
        fresh.sort(key=lambda r: r["k"])
        v = fresh[0]
        print("case %d on %s [%s]: %s" % (v["k"], v["kind"], v["key"], v["msg"][:3000]))
        print("VIOLATION property=%s replay=%s" % (mod.ID, write_replay(mod, seed, tier, v)))
        return 1
    if errors:
        print("ERROR " + errors[0]["msg"])
        return 2
    low = {x: (counts.get(x, 0), m) for x, m in need.items() if counts.get(x, 0) < m and not (x.startswith("kernel") and counts.get("no_probe"))}
    if low and not a.cases:
        print("ERROR the run did not observe enough: %s" % low)
        return 2
    if len(inconc) > max(5, done * 0.3):
        print("ERROR too many inconclusive cases")
        return 2
    return 0
