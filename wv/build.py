"""Builds the instrumented targets from /repo's working tree into /verif/build, keyed by content."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sysconfig
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WV_REPO", "/repo")
OUT = os.environ.get("WV_BUILD", os.path.join(VERIF, "build"))
PY = "/usr/bin/python3"

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=shift-base",
       "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
BASE = ["-w", "-g1", "-pthread", "-I" + os.path.join(VERIF, "cxx")]


class BuildError(Exception):
    pass


def _files(root, exts=None):
    for d, ds, fs in os.walk(root):
        ds.sort()
        if os.path.basename(d) == "__pycache__":
            continue
        for f in sorted(fs):
            if f.endswith((".o", ".so", ".pyc")):
                continue
            yield os.path.join(d, f)


def _hash(paths, *extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            h.update(b"?")
        h.update(b"\0")
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:20]


def repo_hash():
    fs = list(_files(os.path.join(REPO, "src"))) + list(_files(os.path.join(REPO, "include")))
    fs.append(os.path.join(REPO, "generate_include.py"))
    return _hash(fs)


def _sh(cmd, cwd=None, timeout=700):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))


def _cached(name, key, make):
    """make(tmpdir) leaves files in tmpdir; returns the final directory."""
    os.makedirs(OUT, exist_ok=True)
    final = os.path.join(OUT, name + "-" + key)
    if os.path.exists(os.path.join(final, "ok")):
        return final
    with open(os.path.join(OUT, "." + name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, "ok")):
            return final
        for old in os.listdir(OUT):  # one build of a kind is kept
            if old.startswith(name + "-"):
                shutil.rmtree(os.path.join(OUT, old), ignore_errors=True)
        tmp = os.path.join(OUT, "tmp-" + name)
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        make(tmp)
        open(os.path.join(tmp, "ok"), "w").close()
        os.rename(tmp, final)
    return final


def gen_header():
    def make(d):
        os.makedirs(os.path.join(d, "include"))
        os.symlink(os.path.join(REPO, "src"), os.path.join(d, "src"))
        _sh([PY, os.path.join(REPO, "generate_include.py")], cwd=d)
    d = _cached("genhdr", _hash([], repo_hash()), make)
    return os.path.join(d, "include", "wisardpkg.hpp")


def committed_header():
    return os.path.join(REPO, "include", "wisardpkg.hpp")


def header_differs():
    """True if include/wisardpkg.hpp is not what generate_include.py makes of src/."""
    try:
        with open(gen_header(), "rb") as a, open(committed_header(), "rb") as b:
            return a.read() != b.read()
    except OSError:
        return True


def _cxx(name, header, src, flags, libs=(), probe=True):
    srcp = os.path.join(VERIF, "cxx", src)
    deps = [srcp] + [os.path.join(VERIF, "cxx", "mini.h")]

    def make(d):
        cmd = ["clang++"] + BASE + flags + ['-DWP_HEADER="%s"' % header, srcp, "-o", os.path.join(d, "exe")] + list(libs)
        try:
            _sh(cmd)
        except BuildError:
            if not probe:
                raise
            _sh(cmd[:1] + ["-DNO_PROBE"] + cmd[1:])
    d = _cached(name, _hash(deps, repo_hash(), flags, header, libs), make)
    return os.path.join(d, "exe")


def b_gen():
    return _cxx("gen", gen_header(), "executor.cc", ["-O1", "-std=c++11"] + SAN)


def b_hdr():
    return _cxx("hdr", committed_header(), "executor.cc", ["-O1", "-std=gnu++17"] + SAN)


def b_genmem():
    """For hostile data: memory errors and assertions, without the signed overflow check (counters may wrap)."""
    return _cxx("genmem", gen_header(), "executor.cc", ["-O1", "-std=c++11"] + SAN + ["-fno-sanitize=signed-integer-overflow,float-cast-overflow"])


def b_hdrmem():
    return _cxx("hdrmem", committed_header(), "executor.cc", ["-O1", "-std=gnu++17"] + SAN + ["-fno-sanitize=signed-integer-overflow,float-cast-overflow"])


def b_plain():
    """Uninstrumented, for valgrind."""
    return _cxx("plain", gen_header(), "executor.cc", ["-O1", "-std=c++11"])


def b_vg():
    return b_plain()


def b_tsan():
    return _cxx("tsan", gen_header(), "executor.cc", ["-O1", "-std=c++11", "-fsanitize=thread", "-pthread"])


def b_tsanhdr():
    return _cxx("tsanhdr", committed_header(), "executor.cc", ["-O1", "-std=gnu++17", "-fsanitize=thread", "-pthread"])


def _pyflags():
    out = subprocess.check_output([PY, "-m", "pybind11", "--includes"]).decode().split()
    suf = subprocess.check_output([PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"]).decode().strip()
    return out, suf


def _pymod(name, cc, flags):
    inc, suf = _pyflags()

    def make(d):
        _sh([cc, "-w", "-g1", "-fPIC", "-shared", "-std=c++11"] + flags + inc +
            [os.path.join(REPO, "src", "wisard_bind.cc"), "-o", os.path.join(d, "wisardpkg" + suf)])
    return _cached(name, _hash([], repo_hash(), flags, cc, inc), make)


def b_py():
    return _pymod("py", "g++", ["-O1", "-D_GLIBCXX_ASSERTIONS"])


def b_pyasan():
    return _pymod("pyasan", "clang++", ["-O1", "-shared-libasan"] + SAN + ["-fno-sanitize=vptr,function"])


def b_vtime():
    def make(d):
        _sh(["gcc", "-O1", "-shared", "-fPIC", os.path.join(VERIF, "cxx", "vtime.c"), "-o", os.path.join(d, "vtime.so")])
    return os.path.join(_cached("vtime", _hash([os.path.join(VERIF, "cxx", "vtime.c")]), make), "vtime.so")


def asan_runtime():
    return subprocess.check_output(["clang++", "-print-file-name=libclang_rt.asan-x86_64.so"]).decode().strip()


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("b_")}


def build(kinds):
    """Builds the kinds in parallel; returns {kind: path}."""
    res, err = {}, {}
    if set(kinds) - {"py", "pyasan", "vtime"}:
        gen_header()

    def one(k):
        try:
            res[k] = KINDS[k]()
        except Exception as e:  # noqa: BLE001
            err[k] = e
    ts = [threading.Thread(target=one, args=(k,)) for k in dict.fromkeys(kinds)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise BuildError("; ".join("%s: %s" % x for x in err.items()))
    return res


if __name__ == "__main__":
    import sys
    import time
    t0 = time.time()
    print(build(sys.argv[1:] or ["gen", "py", "vtime"]), header_differs(), time.time() - t0)
