"""Workload generators: boundary-rich configurations, inputs and labels."""

MAXINT = 2 ** 31 - 1
BASES = [2, 2, 2, 2, 3, 4, 5, 7, 8, 10, 10, 16, 17, 64, 100, 127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 46340, 46341,
         65535, 65536, 65537, 2 ** 20, 2 ** 24, 2 ** 30, MAXINT]


def max_addr(base):
    n, p = 0, 1
    while p * base <= 1 << 64:
        p *= base
        n += 1
    return n


def addr_size(rng, base, cap=None):
    """2..max, rich at the boundaries."""
    mx = max_addr(base)
    if cap:
        mx = min(mx, cap)
    c = [2, 3, mx, mx, max(2, mx - 1), rng.randint(2, max(2, mx)), rng.randint(2, max(2, min(8, mx)))]
    if base == 2:
        c += [x for x in (31, 32, 33, 62, 63, 64, 16, 17) if x <= mx]
    return max(2, min(mx, rng.choice(c)))


def value(rng, base):
    r = rng.random()
    if r < .35:
        return 0
    if r < .6:
        return base - 1
    if r < .75:
        return 1
    return rng.randrange(base)


def image(rng, n, base=2, density=None):
    """As digit string when possible (compact), else list."""
    if base == 2 and density is not None:
        v = [1 if rng.random() < density else 0 for _ in range(n)]
    else:
        mode = rng.random()
        if mode < .06:
            v = [0] * n
        elif mode < .12:
            v = [base - 1] * n
        elif mode < .5:
            v = [rng.randrange(base) for _ in range(n)]
        else:
            v = [value(rng, base) for _ in range(n)]
    return pack(v, base)


def pack(v, base):
    return "".join(map(str, v)) if base <= 10 else list(v)


def key(x):
    """Hashable form of an image."""
    return x if isinstance(x, str) else tuple(x)


def unpack(x):
    return [ord(c) - 48 for c in x] if isinstance(x, str) else list(x)


def mutate(rng, x, base, k=None):
    """Differs from x in k positions (values differing in a high or a low digit)."""
    v = unpack(x)
    for p in rng.sample(range(len(v)), min(len(v), k or rng.choice([1, 1, 1, 2, 3]))):
        o = v[p]
        c = [(o + 1) % base, (o - 1) % base, base - 1 - o, 0, base - 1, rng.randrange(base)]
        c = [y for y in c if y != o] or [o]
        v[p] = rng.choice(c)
    return pack(v, base)


def shuffled_mapping(rng, entry, asize, complete=True):
    idx = list(range(entry))
    rng.shuffle(idx)
    if entry % asize:
        if complete:
            idx += [rng.randrange(entry) for _ in range(asize - entry % asize)]
        else:
            idx = idx[:entry - entry % asize]
    return [idx[i:i + asize] for i in range(0, len(idx), asize)]


def free_mapping(rng, entry, base, nrams=None, cap=64):
    """Unequal RAM sizes, positions repeated inside and across RAMs, some positions unread."""
    mx = max_addr(base)
    out = []
    for _ in range(nrams or rng.randint(1, 8)):
        k = min(mx, max(1, addr_size(rng, base, cap) if rng.random() < .3 else rng.randint(1, 5)))
        out.append([rng.randrange(entry) for _ in range(k)])
    return out


LABELS = ["", "a", "b", "A", "cold", "hot", "class 1", "0", "1", "00", "9", "10", "-1", "::", "a::b", "a::0", "x::", "::y", "a:", ":", "a:::0",
          "ação", "犬", "😀", "é", "z" * 60, "with\nnewline", "tab\t", "quote\"q", "back\\slash", "sl/ash", "dot.dot", "#", "a#b",
          "a.b#c", " ", "  lead", "trail ", "null", "{}", "[1]", "../up", "%s%n", "~", "\x01ctl", "\x7f", "ÿ", "unsupervised_cluster__",
          "a__", "a__b", ".wdpkg", "x.wpkds", "nul\0in", "nul\0two", "\0"]


def labels(rng, n, simple=False, files=False):
    """n different labels; files: short enough for names of files."""
    out = []
    if n == 1 and not simple and rng.random() < .06:  # a model whose only class has a special name
        return [rng.choice(["", "::", "0", "\0", "null", " "])]
    if n > 1 and not simple and not files and rng.random() < .02:  # long ones that differ at their ends only
        p = rng.choice("ab é") * rng.choice([15, 31, 63, 127, 254, 255, 256, 1000, 4095, 33000])
        out = [p + "1", p + "2"]
    while len(out) < n:
        if simple or rng.random() < .4:
            c = "c%d" % rng.randrange(1000)
        elif rng.random() < .8:
            c = rng.choice(LABELS)
        else:
            c = "".join(rng.choice("ab:/.#é0 9\"\\\0") for _ in range(rng.randint(1, 12)))
        if c not in out:
            out.append(c)
    rng.shuffle(out)
    return out


def nclasses(rng, usual):
    """Usually a few; sometimes many, so that nothing depends on their number."""
    r = rng.random()
    return rng.choice([130, 260, 300]) if r < .003 else rng.choice([7, 11, 17, 33]) if r < .05 else rng.choice(usual)


def repack(mapping):
    return [list(map(int, m)) for m in mapping]
