"""C20: Synthesizer samples follow the mental image."""
import math

ID = "C20"
KINDS = ["gen", "py"]
QUICK, THOROUGH = 3000, 60000
RULE = ("random mental images (zeros, negative values, equal values, huge ratios, images of trained classes) are sampled many times with the clock stopped, jumping or advancing, other objects being created in between; "
        "monitors: length, values, positions that must never / always be set, frequency of every position against the binomial distribution (Chernoff bound, probability of a false alarm below 1e-12 per position). Non-trivial: some position strictly between 0 and the maximum; distinct by trace")
MIN = {"long_images": 20, "sparse_images": 3, "sharp_images": 15, "samples": 300000, "positions": 10000, "frequencies": 4000, "always": 3000, "never": 2000, "empty_images": 100, "frozen_clock": 300, "large_values": 15}
ASSUMPTIONS = ["frequencies are judged over the samples taken in a case: a bias whose probability under the binomial distribution exceeds e^-30 is not seen"]


def image(c):
    rng, t = c.rng, c.t
    r = rng.random()
    n = rng.choice([1, 2, 3, 5, 8, 16, 30])
    if r < .05:
        return [0] * rng.choice([0, 1, 4])
    if r < .1:
        return [rng.choice([0, -1, -5]) for _ in range(n)]
    if r < .2:
        e = rng.randint(4, 16)
        t.do("wis.new", "w", 2, {})
        k = rng.randint(1, 8)
        t.do("wis.train", "w", ["".join(rng.choice("01") for _ in range(e)) for _ in range(k)], ["a"] * k)
        return t.do("wis.mental", "w")["a"]
    if c.every(61):  # long
        n, hi = rng.choice([300, 513, 1025, 3000, 9000]), rng.choice([1, 2, 3, 20, 300])
        c.count("long_images")
        if rng.random() < .4:  # nothing but a few positions, the last ones among them
            v = [0] * n
            for p in [n - 1] + [rng.randrange(n // 2, n) for _ in range(rng.randint(0, 3))]:
                v[p] = rng.choice([hi, max(1, hi // 2)])
            c.count("sparse_images")
            return v
        return [rng.choice([0, hi, hi // 2, rng.randint(0, hi)]) for _ in range(n)]
    if c.every(97):  # every single one of many levels
        hi = rng.choice([120, 201, 257, 1000, 1025, 2049])
        c.count("sharp_images")
        return [hi, hi - 1, hi - 2, 1, 2, hi // 2][:rng.choice([3, 5, 6])]
    hi = rng.choice([1, 2, 3, 4, 10, 100, 1000])
    if rng.random() < .03:
        hi, n = rng.choice([256, 32767, 32768, 40000, 65536, 70000, 140000]), rng.choice([1, 2, 3])
        c.count("large_values", hi > 32767)
    v = [rng.choice([0, hi, rng.randint(0, hi), rng.randint(0, hi)]) for _ in range(n)]
    if r < .3:
        v[rng.randrange(n)] = -rng.randint(1, 2 * hi)
    return v


def kl(f, p):
    """Chernoff exponent: P(frequency as far as f) <= exp(-n kl)."""
    return (f * math.log(f / p) if f > 0 else 0) + ((1 - f) * math.log((1 - f) / (1 - p)) if f < 1 else 0)


def case(c):
    t, rng = c.t, c.rng
    img = image(c)
    t.do("syn.new", "s", img)
    top = max(img + [0])
    total = rng.choice([40, 200, 400, 1000, 1000, 5000])
    if c.counts["sharp_images"]:
        total = 35 * top
    elif c.counts["long_images"]:
        total = 200
    elif c.thorough and rng.random() < .1:
        total = 20000
    mode = rng.choice(["frozen", "frozen", "tick", "jump"])
    got = []
    now = rng.randrange(1, 1 << 31)
    while len(got) < total:
        k = min(total - len(got), rng.choice([1, 7, 50, 200, total]))
        got += t.do("syn.make", "s", k)
        if mode == "tick":
            now += 1
            t.do("clock", now)
        elif mode == "jump":
            t.do("clock", rng.randrange(1, 1 << 31))
        elif rng.random() < .2:
            c.rng.choice([lambda: t.do("disc.new", "x", 2, 8, {}), lambda: t.do("kc.new", "x", 2, 4, {}), lambda: None])()
    if mode == "frozen":
        c.count("frozen_clock")
    c.count("samples", total)
    for x in got:
        c.eq(len(x), len(img), "length", "length of a sample")
        for i, v in enumerate(x):
            if v not in (0, 1):
                c.fail("value", "a sample has the value %s at %d" % (v, i))
    if top < 1:
        c.count("empty_images")
    for i, m in enumerate(img):
        c.count("positions")
        on = sum(x[i] for x in got)
        if m <= 0:
            c.count("never")
            c.check(on == 0, "never", lambda: "position %d has value %d but was set in %d of %d samples (image %s)" % (i, m, on, total, img))
        elif m == top:
            c.count("always")
            c.check(on == total, "always", lambda: "position %d has the maximum %d but was set in only %d of %d samples (image %s)" % (i, m, on, total, img))
        else:
            p = m / top
            c.count("frequencies")
            c.nontrivial = True
            c.check(total * kl(on / total, p) <= 30, "frequency",
                    lambda: "position %d of image %s was set in %d of %d samples, expected about %.1f (clock %s)" % (i, img, on, total, p * total, mode))
    c.sample = {"image": img, "samples": total, "clock": mode}
