"""C02: adding/removing one electron in the five product-state representations."""
METHOD = ("create.u* and remove.u* are executed on a product state whose occupation bits are symbolic, for every spin-orbital index; amplitude and resulting state are "
          "compared (z3) with the sign/occupation rule for all 2^n states at once; products of two operations are compared with the anticommutation relations.")
BOUNDS = ("'all' configurations: every i and all 2^n states for the listed n (up to 33 quick, 66 thorough); 'window': n up to 128 with the listed bits symbolic and i at the "
          "listed positions; 'anticommute': all pairs (i, j), all 2^n states, bitarray and integer representation, n = 5 (quick), 9 (thorough).")
OUTSIDE = "other n, negative indices, inputs that are not valid representations."
from checks.c01 import rep  # noqa: E402

KINDS = ("tuple", "str", "int", "bitarray", "bytes")


def configs(tier):
    out = []
    sizes = [1, 2, 3, 7, 8, 9, 12, 16, 17, 24, 33] if tier == "quick" else list(range(1, 18)) + [23, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65, 66]
    for n in sizes:
        step = 6 if n > 12 else n
        for a in range(0, n, step):
            for what in ("create", "remove"):
                out.append(dict(name="all n=%d %s i=%d.." % (n, what, a), kind="all", n=n, what=what, idx=list(range(a, min(n, a + step))), transform=True, weight=n * step,
                                deadline=80 if tier == "quick" else 300))
    for n, w in [(10, [0, 7, 8, 9]), (33, [0, 8, 31, 32]), (64, [0, 31, 32, 63]), (65, [0, 1, 63, 64]), (110, [0, 55, 104, 109]), (128, [0, 63, 64, 127])]:
        for pat in ("zero", "one", "mix"):
            for what in ("create", "remove"):
                out.append(dict(name="window n=%d %s %s" % (n, pat, what), kind="all", n=n, what=what, idx=w, sym=w, pat=pat, transform=True, weight=n, deadline=80))
    n = 5 if tier == "quick" else 9
    for i in range(n):
        out.append(dict(name="anticommute i=%d" % i, kind="anti", n=n, i=i, transform=True, weight=40, deadline=80 if tier == "quick" else 300))
    return out


def call(fn, kind, n, i, st):
    """(new state, amplitude) with a uniform interface"""
    if kind in ("int", "bytes"):
        return fn(n, i, st)
    if kind == "bitarray":
        return None, fn(i, st)
    return fn(i, st)


def run(X, cfg):
    (anti if cfg["kind"] == "anti" else single)(X, cfg)


def single(X, cfg):
    from checks.c01 import occupation
    n = cfg["n"]
    bs = occupation(X, dict(cfg, sym=cfg.get("sym")))
    mod = X.world().ed(cfg["what"])
    add = cfg["what"] == "create"
    i = cfg["choice"] if "choice" in cfg else X.choice("i", cfg["idx"])
    X.reach("single operation")
    ok = X.NOT(bs[i]) if add else bs[i]
    new = list(bs)
    new[i] = add
    odd = X.parity(bs[:i])
    for kind in KINDS:
        fn = getattr(mod, "u" + kind)
        lab = "%s.u%s: " % (cfg["what"], kind)
        src = rep(X, kind, bs)
        st, amp = call(fn, kind, n, i, src)
        X.claim(X.IMPLIES(X.NOT(ok), X.same(amp, 0)), lab + "amplitude 0 when impossible")
        X.claim(X.IMPLIES(X.AND(ok, X.NOT(odd)), X.same(amp, 1)), lab + "amplitude +1 with an even number of electrons before")
        X.claim(X.IMPLIES(X.AND(ok, odd), X.same(amp, -1)), lab + "amplitude -1 with an odd number of electrons before")
        if kind == "bitarray":
            st = src
            nothing = rep(X, kind, bs)
        else:
            nothing = {"tuple": (), "int": -1, "str": "", "bytes": rep(X, "bytes", bs)}[kind]
        X.claim(X.IMPLIES(ok, X.same(st, rep(X, kind, new))), lab + "resulting state")
        X.claim(X.IMPLIES(X.NOT(ok), X.same(st, nothing)), lab + "nothing-state when impossible")


def anti(X, cfg):
    n, i = cfg["n"], cfg["i"]
    bs = X.bits("occ", n)
    w = X.world()
    mods = {"c": w.ed("create"), "a": w.ed("remove")}
    X.reach("two operations")

    def bits_seq(ops):
        b = X.bitarray(bs)
        amp = 1
        for k, act in ops:
            amp = amp * mods[act].ubitarray(k, b)
        return amp, b

    def int_seq(ops):
        s = X.integer(bs)
        amp = 1
        for k, act in ops:
            s, a = mods[act].uint(n, k, s)
            if X.symbolic and not isinstance(a, int):
                a = int(a)
            amp = amp * a
            if amp == 0:
                return 0, X.integer(bs)
        return amp, s
    for j in range(n):
        for p, q in (("c", "c"), ("a", "a"), ("c", "a"), ("a", "c")):
            if p == q and j < i:
                continue
            delta = 1 if (p != q and i == j) else 0
            for nm, seq, same0 in (("bitarray", bits_seq, X.bitarray(bs)), ("int", int_seq, X.integer(bs))):
                if nm == "int" and j not in (0, i, n - 1):
                    continue
                # {x_i, y_j}: x_i y_j |s> + y_j x_i |s>
                a1, s1 = seq([(j, q), (i, p)])
                a2, s2 = seq([(i, p), (j, q)])
                X.claim(X.same(a1 + a2, delta), "anticommutator of two %s operations" % nm)
                X.claim(X.IMPLIES(X.AND(X.NOT(X.same(a1, 0)), X.NOT(X.same(a2, 0))), X.same(s1, s2)), "both orders lead to the same state (%s)" % nm)
                if delta:
                    X.claim(X.IMPLIES(X.NOT(X.same(a1, 0)), X.same(s1, same0)), "number conserving product returns the state (%s)" % nm)
                    X.claim(X.IMPLIES(X.NOT(X.same(a2, 0)), X.same(s2, same0)), "number conserving product returns the state (%s)" % nm)
