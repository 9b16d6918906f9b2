"""C23: thermal averages are Boltzmann averages at the requested temperature."""
from checks.c22 import LAY, dets, state, operators, act, braket, square, egt2g
METHOD = ("thermal_average and printThermalExpValues are executed with symbolic energies, observables, temperature and cutoff; exponentials are uninterpreted positive atoms obeying the exponential laws; "
          "z3 / polynomial identity decides equality with the Boltzmann average, that no evaluated exponential can overflow and the normalisation cannot vanish, rejection of mismatched lengths, and the printed "
          "thermal expectation values (states within the cutoff, weights at the requested temperature).")
BOUNDS = "1-4 states (5 thorough), energies in [-1e5, 1e5] in any order, T in [0.01, 1e5] or the default 300 K, observables scalar or of shape (2,), (2,2), real or complex; printed table: 1-3 states of 1-2 d electrons."
OUTSIDE = "rounding; more states."
K = 1.380649e-23 / 1.602176634e-19    # Boltzmann constant in eV/K (SI definition)
HISTORY = 6


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        out.append(dict(name=name, max_coinc=0, deadline=250 if not T else 700, **k))
    for n in (1, 2, 3, 4) + ((5,) if T else ()):
        for shape in ("scalar", "complex", "(2,)", "(2,2)", "same array"):
            for temp in ("T", "default") if n < 4 else ("T",):
                add("%d states, observables %s, temperature %s" % (n, shape, temp), q="avg", n=n, shape=shape, temp=temp, weight=n)
    add("energies and observables as lists", q="avg", n=3, shape="list", temp="T")
    add("degenerate states", q="avg", n=3, shape="degenerate", temp="T", coinc=3)
    add("within the observed range", q="range", n=2)
    for a, b in ((1, 2), (2, 1), (3, 2), (0, 1), (2, 3), (4, 1)):
        add("mismatch %d energies %d observables" % (a, b), q="bad", a=a, b=b)
    for n in (1, 2, 3):
        for cut in ("default", "symbolic"):
            add("printed averages, %d states, cutoff %s" % (n, cut), q="print", n=n, cut=cut, weight=5)
    add("printed averages, 2 states, default temperature", q="print", n=2, cut="default", temp=None)
    return out


def run(X, cfg):
    q = cfg["q"]
    if q == "print":
        return printed(X, cfg)
    av = X.world().ed("average")
    if q == "bad":
        e = [X.real("e%d" % i, -10, 10) for i in range(cfg["a"])]
        o = [X.real("o%d" % i, -10, 10) for i in range(cfg["b"])]
        X.reach("call")
        for es, os_ in ((e, o), (X.array(e, "f"), X.array(o, "f")), (X.array(e, "f"), X.array([[v, v] for v in o], "f"))):
            r, ex = X.raises(lambda: av.thermal_average(es, os_, 200))
            X.claim(ex is not None, "mismatched numbers are rejected", "returned %r" % (r,))
        return
    n = cfg["n"]
    T = X.real("T", 0.01, 1e5) if cfg.get("temp", "T") == "T" else 300
    e = [X.real("e%d" % i, -1e5, 1e5) for i in range(n)]
    shape = cfg.get("shape", "scalar")
    if shape == "degenerate":
        e[2] = e[0]
    dims = {"(2,)": 2, "(2,2)": 4}.get(shape, 1)
    f = X.cplx if shape in ("complex", "(2,2)") else X.real
    o = [[f("o%d_%d" % (i, k), -100, 100) for k in range(dims)] for i in range(n)]
    if shape == "same array":
        o = [[v] for v in e]
    if shape == "(2,)":
        obs = X.array(o, "f")
    elif shape == "(2,2)":
        obs = X.array([[[v[0], v[1]], [v[2], v[3]]] for v in o])
    else:
        obs = X.array([v[0] for v in o], "c" if shape == "complex" else "f")
    es = X.array(e, "f")
    if shape == "list":
        obs, es = [v[0] for v in o], list(e)
    if shape == "same array":
        obs = es
    before = list(es)
    a, log = X.exps(lambda: av.thermal_average(es, obs, T=T) if cfg.get("temp", "T") == "T" else av.thermal_average(es, obs))
    X.reach("average")
    for x, y in zip(es, before):
        X.claim(X.eq(x, y), "energies unchanged")
    # the Boltzmann average, weights relative to the lowest state
    lo = 0
    for i in range(1, n):
        if bool(e[i] < e[lo]):
            lo = i
    w = [X.exp((e[lo] - e[i]) / (T * K)) for i in range(n)]
    z = sum(w[1:], w[0])
    import numpy as np
    flat = list(np.asarray(a, dtype=object).ravel())
    X.claim(len(flat) == dims and np.shape(a) == {"(2,)": (2,), "(2,2)": (2, 2)}.get(shape, ()), "shape of the average", repr(np.shape(a)))
    if X.symbolic:
        # finite: no exponential overflows, and the partition function does not vanish
        for p in log:
            X.claim(p <= 700, "no overflow for any energies")
        if log:
            X.claim(X.OR(*[p >= -700 for p in log]), "the partition function does not underflow")
    else:
        X.claim(all(abs(v) < 1e300 for v in flat), "no overflow for any energies", repr(flat))
        X.claim(all(abs(v) < 1e300 for v in flat), "the partition function does not underflow", repr(flat))
    if q == "range":
        lo_, hi_ = (o[0][0], o[1][0])
        X.assume(lo_ <= hi_)
        # (given the equality with the Boltzmann formula this holds for any number of states)
        X.claim(X.AND(X.ge(a * z, lo_ * z), X.ge(hi_ * z, a * z)), "between the smallest and largest observable")
    for k in range(dims):
        s = 0
        for i in range(n):
            s = s + w[i] * o[i][k]
        X.claim(X.eq(flat[k] * z, s), "Boltzmann average", "component %d" % k)


def printed(X, cfg):
    from collections import OrderedDict
    nB = OrderedDict([tuple(p) for p in LAY["d2 p1"]])
    out = []
    w = X.world(print_fn=lambda *a, **k: out.append(" ".join(str(x) for x in a)))
    fi = w.ed("finite")
    n = cfg["n"]
    ds = dets(nB, (1, 2), 1)
    psis, keys = [], []
    for k in range(n):
        p, kk = state(X, nB, [ds[i] for i in [(0, 4), (9, 31), (5, 12)][k]], "s%d_" % k)
        psis.append(p)
        keys.append(kk)
    T = X.real("T", 1, 1e4) if cfg.get("temp", 1) else 300
    cut = X.real("cutOff", 0.01, 30) if cfg["cut"] == "symbolic" else 10
    es = [X.real("e0", -1000, 1000)]
    for k in range(1, n):
        es.append(es[0] + X.real("d%d" % k, 0, 5))
    for k in range(2, n):
        X.assume(es[k] >= es[k - 1])
    for k in range(1, n):       # (rounding at the cutoff is not judged)
        X.assume(X.OR(es[k] - es[0] - cut * K * T >= 1e-6, es[k] - es[0] - cut * K * T <= -1e-6))
    kw = {}
    if cfg.get("temp", 1):
        kw["T"] = T
    if cfg["cut"] == "symbolic":
        kw["cutOff"] = cut
    fi.printThermalExpValues(nB, X.array(es, "f"), keys, **kw)
    X.reach("printed")
    use = [0] + [k for k in range(1, n) if bool(es[k] - es[0] < cut * K * T)]
    wt = [X.exp((es[0] - es[k]) / (T * K)) for k in use]
    z = sum(wt[1:], wt[0])
    ops = operators(X, nB)
    want = {"E": [], "N(3d)": [], "N(egDn)": [], "N(egUp)": [], "N(t2gDn)": [], "N(t2gUp)": [], "Lz": [], "Sz": [], "L^2": [], "S^2": []}
    for k in use:
        p = psis[k]
        oc = egt2g(X, nB, p)
        for nm, v in zip(want, [es[k] - es[0], braket(X, p, act(ops["N"], p)), *oc, braket(X, p, act(ops["Lz"], p)), braket(X, p, act(ops["Sz"], p)), square(X, ops, "L", p), square(X, ops, "S", p)]):
            want[nm].append(v)
    text = "\n".join(out)
    for nm, vs in want.items():
        lines = [t for t in text.split("\n") if t.strip().startswith("<" + nm)]
        X.claim(len(lines) == 1, "printed once: " + nm, repr(lines))
        if len(lines) != 1:
            continue
        got = X.fields(lines[0].split("=", 1)[1])
        X.claim(len(got) == 1, "one value", lines[0])
        v, dec = got[0]
        s = 0
        for a, b in zip(wt, vs):
            s = s + a * b
        # v z == s, up to the printed digits
        if X.symbolic:
            X.claim(X.eq(v * z, s), "printed thermal average " + nm)
        else:
            X.claim(abs(v * z - s) <= z * 0.6 * 10.0 ** -dec + 1e-9, "printed thermal average " + nm, "%r %r" % (v, s / z))
