"""C06: vector-space and inner-product rules of many-body states; single creation and annihilation on states."""
from checks.opref import act, abs2
from checks.c03 import state_in
METHOD = ("finite.inner, norm2, add, addToFirst, a and c are executed on states whose product states (occupation bits) and complex amplitudes are symbolic, so that every "
          "pattern of coinciding product states is explored; z3 decides linearity, conjugate symmetry, norms, the exact result of additions, unchanged arguments, the "
          "fermionic sign of c_i / c_i^dagger on states and their adjointness.")
BOUNDS = "states of 0-3 product states on n = 2..10 spin-orbitals (all or a window of the occupation bits symbolic); complex amplitudes and multipliers; every orbital index."
OUTSIDE = "states with more product states; rounding."
HISTORY = 6


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(what, m, n, w=1, **k):
        out.append(dict(name="%s sizes=%s n=%d%s" % (what, "-".join(map(str, m)), n, "".join(" %s=%s" % x for x in sorted(k.items()))), what=what, m=list(m), n=n,
                        weight=w, deadline=120 if not T else 500, **k))
    for m in ((0, 0), (1, 1), (0, 2), (2, 0), (2, 2), (1, 2)):
        for what in ("inner", "add"):
            add(what, m, 3, w=10)
    add("inner", (2, 3), 2, w=20)
    add("add", (3, 2), 2, w=20)
    add("add", (1, 1), 2, mul="default")
    add("add", (2, 1), 3, mul="real")
    add("norm", (0,), 3)
    add("norm", (3,), 3, w=5)
    add("linear", (1, 1, 1), 3, w=20)
    add("linear", (1, 2, 1), 2, w=30)
    for n in (1, 4, 8, 9, 10):
        for i in sorted({0, n // 2, n - 1, min(7, n - 1)}):
            sy = None if n <= 4 else sorted({0, 1, i, n - 1})
            add("ac", (2,), n, i=i, sym=sy, w=20)
    for n, i in ((3, 0), (3, 1), (3, 2), (9, 8)):
        add("adjoint", (1, 1), n, i=i, sym=None if n == 3 else [0, 7, 8], w=20)
    add("adjoint", (2, 2), 2, i=1, sym=None, w=20)
    if T:
        add("inner", (3, 3), 3, w=50)
        add("add", (3, 3), 3, w=50)
        add("ac", (3,), 4, i=2, sym=None, w=50)
        add("adjoint", (2, 2), 3, i=1, sym=None, w=60)
        add("adjoint", (1, 1), 17, i=16, sym=[0, 7, 8, 15, 16], w=60)
    return out


def mk(X, st):
    return {X.bytes(b): a for b, a in st}


def unchanged(X, d, before, label):
    X.claim(len(d) == len(before) and all(k in d for k in before), label + " keeps its product states")
    X.eq_dict(d, before, label + " unchanged")


def run(X, cfg):
    fin = X.world().ed("finite")
    n, what = cfg["n"], cfg["what"]
    st = [state_in(X, n, m, tag="abc"[k], sym=cfg.get("sym")) for k, m in enumerate(cfg["m"])]
    ds = [mk(X, s) for s in st]
    bs = [dict(d) for d in ds]
    X.reach(what)
    if what == "inner":
        got = fin.inner(ds[0], ds[1])
        want = 0
        for k, v in bs[1].items():
            if k in bs[0]:
                want = want + X.conj(bs[0][k]) * v
        X.claim(X.eq(got, want), "inner product is the sum over common product states, conjugated on the left")
        X.claim(X.eq(fin.inner(ds[1], ds[0]), X.conj(got + 0 * 1j)), "conjugate symmetry")
        a = fin.inner(ds[0], ds[0])
        X.claim(X.eq(fin.norm2(ds[0]), a), "squared norm is the inner product with itself")
        for d, b in zip(ds, bs):
            unchanged(X, d, b, "argument")
    elif what == "norm":
        want = 0
        for v in bs[0].values():
            want = want + abs2(X, v)
        X.claim(X.eq(fin.norm2(ds[0]), want), "squared norm is the sum of squared moduli")
        unchanged(X, ds[0], bs[0], "argument")
    elif what == "add":
        mul = {"default": None, "real": "r"}.get(cfg.get("mul"), "c")
        f = 1 if mul is None else X.real("mul") if mul == "r" else X.cplx("mul")
        args = () if mul is None else (f,)
        want = dict(bs[0])
        for k, v in bs[1].items():
            want[k] = want[k] + f * v if k in want else f * v
        r = fin.add(ds[0], ds[1], *args)
        X.eq_dict(r, want, "add")
        for d, b in zip(ds, bs):
            unchanged(X, d, b, "add: argument")
        X.claim(r is not ds[0] and r is not ds[1], "add returns a new state")
        X.claim(fin.addToFirst(ds[0], ds[1], *args) is None, "addToFirst works in place")
        X.eq_dict(ds[0], want, "addToFirst")
        unchanged(X, ds[1], bs[1], "addToFirst: second argument")
        if args:
            d2 = dict(bs[0])
            fin.addToFirst(d2, d2, f)
            X.eq_dict(d2, {k: v + f * v for k, v in bs[0].items()}, "adding a state to itself")
    elif what == "linear":
        p, q = X.cplx("p"), X.cplx("q")
        comb = fin.add({k: p * v for k, v in bs[1].items()}, ds[2], q)
        got = fin.inner(ds[0], comb)
        X.claim(X.eq(got, p * fin.inner(ds[0], ds[1]) + q * fin.inner(ds[0], ds[2])), "linear in the second argument")
        got = fin.inner(comb, ds[0])
        X.claim(X.eq(got, X.conj(p) * fin.inner(ds[1], ds[0]) + X.conj(q) * fin.inner(ds[2], ds[0])), "conjugate-linear in the first argument")
    elif what == "ac":
        i = cfg["i"]
        for f, t in ((fin.a, "a"), (fin.c, "c")):
            want = {}
            for b, v in st[0]:
                r = act(X, [(i, t)], b)
                if r is not None:
                    k = X.bytes(r[0])
                    want[k] = want.get(k, 0) + v * r[1]
            got = f(n, i, ds[0])
            X.eq_dict(got, want, "single %s operator" % t)
            X.claim(len(got) == len(want), "single %s operator: no other product states" % t)
            unchanged(X, ds[0], bs[0], "argument")
    elif what == "adjoint":
        i = cfg["i"]
        X.claim(X.eq(fin.inner(ds[0], fin.a(n, i, ds[1])), fin.inner(fin.c(n, i, ds[0]), ds[1])), "<x|c_i y> = <c_i+ x|y>")
        X.claim(X.eq(fin.inner(ds[0], fin.c(n, i, ds[1])), fin.inner(fin.a(n, i, ds[0]), ds[1])), "<x|c_i+ y> = <c_i x|y>")
