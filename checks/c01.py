"""C01: the 20 conversions between the five product-state representations."""
METHOD = ("Every conversion function is executed on a product state whose n occupation bits are symbolic; its result is compared bit by bit (z3) with the "
          "representation of the same occupation set, for all 2^n states at once.")
BOUNDS = ("n spin-orbitals in the listed sizes with every bit symbolic ('all' configurations), and n up to 128 with the bits of the listed positions symbolic and the "
          "others fixed patterns ('window' configurations).")
OUTSIDE = "other n; bitarray objects with little-endian bit order; inputs that are not valid representations."
NEED_N = ("tuple", "int", "bytes")
KINDS = ("tuple", "str", "int", "bitarray", "bytes")


def configs(tier):
    out = []
    sizes = [1, 2, 3, 5, 7, 8, 9, 10, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 66]
    if tier == "thorough":
        sizes = sorted(set(sizes) | set(range(1, 41)) | {72, 80, 96, 110, 127, 128, 129})
    for n in sizes:
        out.append(dict(name="all n=%d" % n, n=n, sym=None, transform=True, weight=n * n, deadline=110 if tier == "quick" else 300))
    wins = [(7, [0, 3, 6]), (10, [0, 7, 8, 9]), (17, [0, 8, 15, 16]), (33, [0, 1, 31, 32]), (64, [0, 31, 32, 63]), (65, [0, 1, 63, 64]), (110, [0, 55, 104, 109])]
    if tier == "thorough":
        wins += [(20, [0, 1, 7, 8, 18, 19]), (66, [0, 1, 31, 32, 64, 65]), (128, [0, 63, 64, 126, 127])]
    for n, w in wins:
        for pat in ("zero", "one", "mix"):
            out.append(dict(name="window n=%d %s" % (n, pat), n=n, sym=w, pat=pat, transform=True, weight=n, deadline=110 if tier == "quick" else 200))
    return out


def occupation(X, cfg):
    n = cfg["n"]
    if cfg["sym"] is None:
        return X.bits("occ", n)
    w = X.bits("occ", len(cfg["sym"]))
    base = {"zero": [False] * n, "one": [True] * n, "mix": [(k * 5 + 3) % 7 < 3 for k in range(n)]}[cfg["pat"]]
    for p, b in zip(cfg["sym"], w):
        base[p] = b
    return base


def rep(X, kind, bs):
    return {"tuple": X.indices, "str": X.string, "int": X.integer, "bitarray": X.bitarray, "bytes": X.bytes}[kind](bs)


def run(X, cfg):
    n = cfg["n"]
    bs = occupation(X, cfg)
    psr = X.world().ed("product_state_representation")
    X.reach("product state")
    for a in KINDS:
        for b in KINDS:
            f = getattr(psr, "%s2%s" % (a, b), None)
            if a == b:
                continue
            name = "%s2%s" % (a, b)
            if f is None:
                X.claim(False, "%s exists" % name)
                continue
            src = rep(X, a, bs)
            args = (src, n) if a in NEED_N else (src,)
            want = rep(X, b, bs)
            got = f(*args)
            X.claim(X.is_kind(got, b), "%s returns the right type" % name, type(got).__name__)
            X.claim(X.same(got, want), "%s is exact" % name)
            if b == "str":
                X.claim(len(got) == n, "%s has n characters" % name)
            if a == "bitarray":
                X.claim(X.same(src, rep(X, a, bs)), "%s leaves its argument unchanged" % name)
            if b == "bitarray":
                X.claim(len(got) == n, "%s has n bits" % name)
                got.reverse()
                got.append(True)
                X.claim(X.same(src, rep(X, a, bs)), "%s: changing the result leaves the argument unchanged" % name)
                X.claim(X.same(f(*args), want), "%s is exact after an earlier result was changed" % name)
