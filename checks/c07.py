"""C07: c2i and i2c are mutually inverse bijections; anything that does not exist is rejected."""
from collections import OrderedDict
METHOD = ("finite.c2i and finite.i2c are executed with a symbolic index, with symbolic coordinates (angular momentum, spin, magnetic number, bath number, all far beyond the "
          "valid ranges) and with symbolic numbers of bath states for fixed shell structures (several shells, several shells sharing a bath); every path is explored and z3 "
          "decides that the result is the position given by the documented ordering, that the round trips are exact, and that an exception is raised exactly when the index or coordinate does not exist.")
BOUNDS = "12 shell structures with l = 0..4; index from -60 to beyond the end; coordinates in -6..9 (l,s,m) and -20..60 (bath number); bath numbers symbolic 0..500 (index to coordinate) and 0..3 per shell or fixed 10..50 (coordinate to index)."
OUTSIDE = "non-integer coordinates; more than four shells."
SHELLS = [(0,), (1,), (2,), (3,), (1, 2), (2, 1), (2, 3), (0, 1, 2), ((1, 2),), (((2, 1)), 0), ((1, 2), 3), (2, (0, 1))]
HISTORY = 12
HISTORY_OTHER = True


def configs(tier):
    T = tier == "thorough"
    out = []
    sh = SHELLS + ([(4,), (0, 2, 1, 3), ((0, 1, 2),), ((1, 2), (3, 0)), (3, (1, 2), 0)] if T else [])
    for s in sh:
        out.append(dict(name="index shells=%s" % (s,), what="i2c", shells=s, deadline=150, weight=5))
        out.append(dict(name="orbital shells=%s" % (s,), what="orb", shells=s, deadline=150, weight=5))
        out.append(dict(name="bath shells=%s" % (s,), what="bath", shells=s, nb=None, deadline=150, weight=20))
        out.append(dict(name="bath shells=%s large" % (s,), what="bath", shells=s, nb=50 if T else 12, deadline=150, weight=20))
    for s in sh:
        out.append(dict(name="other coordinates shells=%s" % (s,), what="other", shells=s, deadline=150))
    for c in out:
        c["shells"] = [list(x) if isinstance(x, tuple) else x for x in c["shells"]]
    return out


def structure(cfg):
    return [tuple(x) if isinstance(x, list) else x for x in cfg["shells"]]


def impurity(shells):
    out = []
    for l in shells:
        for li in (l if isinstance(l, tuple) else (l,)):
            out += [(li, s, m) for s in range(2) for m in range(-li, li + 1)]
    return out


def run(X, cfg):
    fin = X.world().ed("finite")
    shells = structure(cfg)
    imp = impurity(shells)
    nimp = len(imp)
    what = cfg["what"]
    X.reach(what)
    if what == "i2c":
        nbs = [X.int("nb%d" % k, 0, 500 if k < 2 else 20) for k in range(len(shells))]
        nBaths = OrderedDict(zip(shells, nbs))
        N = nimp
        for b in nbs:
            N = N + b
        i = X.int("i", -60, nimp + 1100)
        r, e = X.raises(fin.i2c, nBaths, i)
        ok = X.AND(0 <= i, i < N)
        X.claim(X.IFF(ok, e is None), "index rejected exactly when it does not exist", repr(e))
        if e is not None:
            return
        X.claim(type(r) is tuple and len(r) in (2, 3), "a coordinate tuple", repr(r))
        if len(r) == 3:
            X.claim(X.AND(*[X.IFF(i == k, all_eq(X, r, c)) for k, c in enumerate(imp)]), "impurity spin-orbitals in the documented order", repr(r))
            X.claim(X.OR(*[all_eq(X, r, c) for c in imp]), "coordinate is an existing impurity spin-orbital", repr(r))
        else:
            l, b = r
            X.claim(l in shells, "bath coordinate names an existing bath", repr(r))
            if l in shells:
                k = shells.index(l)
                off = nimp
                for x in nbs[:k]:
                    off = off + x
                X.claim(X.AND(0 <= b, b < nbs[k]), "bath number within its bath")
                X.claim(X.same(off + b, i), "bath states follow the impurity in the same order")
        total = sum_small(X, nbs)
        if total:
            # coordinate to index and back (the numbers of bath states are realised here)
            X.claim(X.same(fin.c2i(nBaths, r), i), "c2i inverts i2c")
    elif what in ("orb", "bath", "other"):
        if what != "bath" or cfg["nb"] is not None:
            nbs = [10, 12, 0, 3][:len(shells)] if what != "bath" else [cfg["nb"], 5, 0, 3][:len(shells)]
        else:
            nbs = [int(X.int("nb%d" % k, 0, 3)) for k in range(len(shells))]
        nBaths = OrderedDict(zip(shells, nbs))
        coords = imp + [(l, b) for l, n in nBaths.items() for b in range(n)]
        if what == "orb":
            c = (X.int("l", -2, 9), X.int("s", -3, 6), X.int("m", -6, 9))
            cand = [(k, x) for k, x in enumerate(coords) if len(x) == 3]
        elif what == "bath":
            l = X.choice("which", [list(x) if isinstance(x, tuple) else x for x in shells] + ["free"])
            l = X.int("l", -2, 9) if l == "free" else tuple(l) if isinstance(l, list) else l
            c = (l, X.int("b", -20, 60))
            cand = [(k, x) for k, x in enumerate(coords) if len(x) == 2 and (isinstance(x[0], tuple) == isinstance(l, tuple))]
        else:
            c, cand = X.choice("coordinate", [list(y) for y in others(shells)]), []
            c = tuple(tuple(y) if isinstance(y, list) else y for y in c)
        r, e = X.raises(fin.c2i, nBaths, c)
        exists = X.OR(False, *[all_eq(X, c, x) for _, x in cand])
        X.claim(X.IFF(exists, e is None), "coordinate rejected exactly when it does not exist", "%r %r" % (r, e))
        if e is None:
            X.claim(X.OR(False, *[X.AND(all_eq(X, c, x), X.same(r, k)) for k, x in cand]), "index is the position in the documented order")
            back = fin.i2c(nBaths, r)
            X.claim(len(back) == len(c) and all_eq(X, back, c), "i2c inverts c2i", repr(back))


def sum_small(X, nbs):
    """realise the bath numbers only when all are small"""
    return bool(X.AND(*[b <= 1 for b in nbs]))


def all_eq(X, a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if isinstance(x, tuple) != isinstance(y, tuple):
            return False
        out.append(x == y if isinstance(x, tuple) else X.same(x, y))
    return X.AND(*out)


def others(shells):
    """coordinates of wrong form"""
    l0 = shells[0]
    out = [(), (0,), (l0,), (l0, 0, 0, 0), ((7, 8), 0), ((1,), 0), ((9,), 0, 0)]
    for l in shells:
        if isinstance(l, tuple):
            out += [(l[::-1], 0), (l[0], 0), (l[:1], 0), (l, 0, 0), (l, 1, 1)]
        else:
            out += [((l,), 0), ((l, l), 0)]
    # only those that really do not exist
    return [c for c in out if not (len(c) == 2 and c[0] in shells) and not (len(c) == 3 and c in impurity(shells))]
