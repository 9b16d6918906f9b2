"""C24: dipole and photoemission transition operators are the physical ones."""
from checks.c20 import index
METHOD = ("getDipoleOperator(s), getDaggeredDipoleOperators, getPhotoEmissionOperators and getInversePhotoEmissionOperators are executed with symbolic polarisation vectors (real and complex) and zero patterns; z3 / "
          "polynomial identity decides that every matrix element equals the closed-form matrix element of n.r between spherical harmonics on the right spin-orbitals, that nothing else is present, and that the "
          "emission operators are the adjoints.")
BOUNDS = "all polarisation vectors (zero patterns of the components enumerated, accidental cancellations n_x = +-i n_y included as circular polarisation); shell pairs s-p, p-d, d-p, d-f; 0-10 bath states, photoemission from shells l=0..3."
OUTSIDE = "rounding (the Gaunt coefficients are 16-digit floats)."
LAY = {"p0 d10": [(1, 0), (2, 10)], "p0 d0": [(1, 0), (2, 0)], "p2 d3": [(1, 2), (2, 3)], "d2 p1": [(2, 2), (1, 1)], "s1 p2": [(0, 1), (1, 2)], "p1 s0": [(1, 1), (0, 0)], "d1 f2": [(2, 1), (3, 2)], "f0 d2": [(3, 0), (2, 2)]}
HISTORY = 30


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        out.append(dict(name=name, max_coinc=0, deadline=200, **k))
    for lay in LAY:
        for zero in ((), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)) if T or lay in ("p0 d10", "d2 p1") else ((), (0, 1)):
            for f in ("real", "complex"):
                add("dipole %s, %s polarisation, zero components %s" % (lay, f, zero), q="dip", lay=lay, zero=zero, f=f)
        add("circular polarisations %s" % lay, q="circ", lay=lay)
        for how in ("signs", "order", "phases", "conjugates", "scaled", "again"):
            add("related polarisations %s, %s" % (lay, how), q="emit", lay=lay, n=1, how=how)
        for n in (0, 1, 3):
            add("emission operators %s, %d polarisations" % (lay, n), q="emit", lay=lay, n=n)
    for lay in list(LAY) + ["one shell", "three shells"]:
        add("photoemission %s" % lay, q="pes", lay=lay)
    return out


def shells(lay):
    return {"one shell": [(2, 4)], "three shells": [(0, 1), (1, 0), (2, 5)]}.get(lay) or LAY[lay]


def element(X, L, M, l, m, n):
    """<L M| n.r |l m> between spherical harmonics (Condon-Shortley), closed formulas"""
    def up(l, m, q):     # <l+1, m+q| C1_q |l m>
        if q == 0:
            v = X.rat((l + 1) ** 2 - m * m, (2 * l + 1) * (2 * l + 3))
        else:
            v = X.rat((l + q * m + 1) * (l + q * m + 2), 2 * (2 * l + 1) * (2 * l + 3))
        return X.sqrt(v)
    q = M - m
    if abs(q) > 1 or abs(L - l) != 1:
        return 0
    c = up(l, m, q) if L == l + 1 else (-1) ** q * up(L, M, -q)
    s = X.sqrt(X.rat(1, 2))
    return c * {0: n[2], 1: (n[1] * 1j - n[0]) * s, -1: (n[0] + n[1] * 1j) * s}[q]


def polarisation(X, k, zero=(), f="real"):
    v = X.cplx if f == "complex" else X.real
    return [0 if i in zero else v("n%d%s" % (k, "xyz"[i]), -5, 5) for i in range(3)]


def compare(X, op, ref, label):
    for p in op:
        X.claim(p in ref, label + ": no other process", repr(p))
    for p, v in ref.items():
        X.claim(X.eq(op.get(p, 0), v), label, repr(p))


def dipole(X, nB, n):
    l1, l2 = nB
    ref = {}
    for s in (0, 1):
        for M in range(-l2, l2 + 1):
            for m in range(-l1, l1 + 1):
                if abs(M - m) <= 1:
                    ref[(index(nB, (l2, s, M)), "c"), (index(nB, (l1, s, m)), "a")] = element(X, l2, M, l1, m, n)
    return ref


def run(X, cfg):
    from collections import OrderedDict
    nB = OrderedDict([tuple(p) for p in shells(cfg["lay"])])
    sp = X.world().ed("spectra")
    X.reach(cfg["q"])
    if cfg["q"] == "pes":
        for l in nB:
            for f, a in ((sp.getPhotoEmissionOperators, "a"), (sp.getInversePhotoEmissionOperators, "c")):
                ops = f(nB, l) if l != 2 else f(nB)
                want = [index(nB, (l, s, m)) for s in (0, 1) for m in range(-l, l + 1)]
                X.claim(len(ops) == len(want), "one operator per spin-orbital")
                for o, i in zip(ops, want):
                    X.claim(dict(o) == {((i, a),): 1}, "single %s of the spin-orbital in spin-then-m order" % {"a": "annihilation", "c": "creation"}[a], repr((o, i)))
                ops = f(nB, l=l)
                X.claim([dict(o) for o in ops] == [{((i, a),): 1} for i in want], "keyword l")
        X.claim(dict(nB) == dict(tuple(p) for p in shells(cfg["lay"])), "bath layout unchanged")
        return
    if cfg["q"] == "dip":
        n = polarisation(X, 0, cfg["zero"], cfg["f"])
        op = sp.getDipoleOperator(nB, list(n))
        compare(X, op, dipole(X, nB, n), "matrix element of n.r")
        if cfg["f"] == "real" and not cfg["zero"]:
            op = sp.getDipoleOperator(nB, X.array(n, "f"))
            compare(X, op, dipole(X, nB, n), "matrix element of n.r (array polarisation)")
    elif cfg["q"] == "circ":
        a = X.real("a", -5, 5)
        for n in ([a, a * 1j, 0], [a, a * -1j, 0], [0, a, a * 1j], [a, 0, 0]):
            compare(X, sp.getDipoleOperator(nB, list(n)), dipole(X, nB, n), "matrix element of n.r, special polarisations")
    elif cfg["q"] == "emit":
        ns = [polarisation(X, k, (), "complex" if k == 1 else "real") for k in range(cfg["n"])]
        if cfg.get("how"):
            a, b, c = polarisation(X, 0, (), "complex" if cfg["how"] in ("conjugates", "again") else "real")
            ns = {"signs": [[a, b, c], [a, -b, c], [-a, b, c], [-a, -b, -c], [a, b, 0], [a, -b, 0]], "order": [[a, b, c], [b, a, c], [c, a, b], [0, a, b], [a, 0, b]],
                  "phases": [[a, b, 0], [a, b * 1j, 0], [a, b * -1j, 0], [a * 1j, b * 1j, 0]], "conjugates": [[a, b, c], [X.conj(x) for x in (a, b, c)]],
                  "scaled": [[a, b, c], [2 * a, 2 * b, 2 * c], [a, 2 * b, c]], "again": [[a, b, c], [0, 0, 1], [a, b, c]]}[cfg["how"]]
        before = [list(n) for n in ns]
        ab = sp.getDipoleOperators(nB, ns)
        em = sp.getDaggeredDipoleOperators(nB, ns)
        X.claim(len(ab) == len(ns) and len(em) == len(ns), "one operator per polarisation")
        for o, e, n in zip(ab, em, before):
            ref = dipole(X, nB, n)
            compare(X, o, ref, "operator of its polarisation")
            compare(X, e, {((j, "c"), (i, "a")): X.conj(v + 0j) for ((i, _), (j, _)), v in ref.items()}, "emission operator is the adjoint")
        for n, b in zip(ns, before):
            X.eqs(zip(n, b), "polarisation unchanged")
