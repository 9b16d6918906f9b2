"""C05: operator adjoint and hermiticity assertion."""
import itertools
METHOD = ("finite.daggerOp, assert_hermitian, applyOp and inner are executed on operators covering every action string up to the stated length with symbolic complex (or "
          "real) strengths, and on symbolic product states; z3 decides that the adjoint has exactly the reversed/exchanged terms with conjugated strengths, that it is an "
          "involution, that <a|O b> = <O+ a|b> for all product states and strengths, and that the assertion raises exactly when some strength differs from its adjoint partner.")
BOUNDS = "all 31 action strings of length 0..4 (6 for the thorough tier) with 3 index patterns; operators of up to 12 terms; matrix elements between all pairs of product states of n = 3..5 spin-orbitals; unknown labels at every position of strings up to length 3."
OUTSIDE = "longer strings; labels that are not strings other than the listed ones."
UNKNOWN = ["x", "", "C", "A", "ac", "ca", " a", None, 0, 1]

FAMILIES = {
    "closed hop": [((0, "c"), (1, "a")), ((1, "c"), (0, "a")), ((2, "c"), (2, "a"))],
    "closed two-body": [((0, "c"), (1, "c"), (2, "a"), (3, "a")), ((3, "c"), (2, "c"), (1, "a"), (0, "a")), ((0, "c"), (1, "c"), (1, "a"), (0, "a"))],
    "open hop": [((0, "c"), (1, "a")), ((2, "c"), (2, "a"))],
    "number changing": [((0, "c"),), ((0, "a"),), ((1, "c"), (2, "c")), ((2, "a"), (1, "a"))],
    "same process, other order": [((0, "c"), (1, "c"), (2, "a"), (3, "a")), ((3, "c"), (2, "c"), (0, "a"), (1, "a"))],
    "not exchanged": [((0, "c"), (1, "a")), ((0, "a"), (1, "c"))],
    "identity": [()],
    "empty": [],
    "all one-body": [((i, "c"), (j, "a")) for i in range(3) for j in range(3)],
    "anti-normal": [((0, "a"), (1, "c")), ((1, "a"), (0, "c"))],
}
MATEL = {
    "hop": [((0, "c"), (1, "a")), ((2, "c"), (2, "a")), ((2, "c"), (0, "a"))],
    "two-body": [((0, "c"), (1, "c"), (2, "a"), (0, "a")), ((2, "c"), (1, "a"))],
    "number": [((0, "c"),), ((1, "a"),), ((2, "a"), (1, "a"))],
    "mixed": [((1, "a"), (2, "c")), (), ((0, "c"), (1, "c"), (2, "c"))],
}
HISTORY = 6


def configs(tier):
    T = tier == "thorough"
    out = [dict(name="terms length=%d real=%s" % (L, r), what="terms", L=L, real=r, deadline=150) for L in range(0, 7 if T else 5) for r in (False, True)]
    out += [dict(name="hermitian %s real=%s" % (f, r), what="herm", fam=f, real=r, max_coinc=30, deadline=150, weight=5) for f in FAMILIES for r in (False, True)]
    for f in MATEL:
        for n in ((3, 4) if not T else (3, 4, 5)):
            out.append(dict(name="matrix elements %s n=%d" % (f, n), what="matel", fam=f, n=n, deadline=150 if not T else 500, weight=20))
    out += [dict(name="unknown label", what="unknown", deadline=100)]
    return out


def dag(p):
    return tuple((i, {"a": "c", "c": "a"}[t]) for i, t in reversed(p))


def strength(X, name, real):
    return X.real(name, -20, 20) if real else X.cplx(name, -20, 20)


def run(X, cfg):
    fin = X.world().ed("finite")
    what = cfg["what"]
    X.reach(what)
    if what == "terms":
        L = cfg["L"]
        op = {}
        for s in itertools.product("ca", repeat=L):
            for pat in ([k for k in range(L)], [(3 * k + 1) % 5 for k in range(L)], [k // 2 for k in range(L)]):
                op[tuple(zip(pat, s))] = 0
        for k, p in enumerate(op):
            op[p] = strength(X, "h%d" % k, cfg["real"])
        before = dict(op)
        d = fin.daggerOp(op)
        X.claim(list(op) == list(before), "argument keeps its terms")
        X.eqs([(op[p], before[p]) for p in op if p in before], "argument unchanged")
        want = {dag(p): X.conj(h) for p, h in before.items()}
        X.claim(set(d) == set(want), "adjoint has exactly the reversed terms with creation and annihilation exchanged", "%r" % (set(d) ^ set(want),))
        X.eqs([(d[p], want[p]) for p in want if p in d], "adjoint strengths are conjugated")
        dd = fin.daggerOp(d)
        X.claim(set(dd) == set(before), "adjoint of the adjoint has the same terms")
        X.eqs([(dd[p], before[p]) for p in before if p in dd], "adjoint of the adjoint has the same strengths")
    elif what == "herm":
        terms = FAMILIES[cfg["fam"]]
        op = {p: strength(X, "h%d" % k, cfg["real"]) for k, p in enumerate(terms)}
        before = dict(op)
        for p in terms:      # rounding errors are not judged: strengths are equal or clearly different
            q = before.get(dag(p), 0)
            for d in ((before[p].real - q.real, before[p].imag + q.imag) if not cfg["real"] else (before[p] - q,)):
                X.assume(X.OR(exact(X, d, 0), d >= 0.01, d <= -0.01))
        _, e = X.raises(fin.assert_hermitian, op)
        X.claim(e is None or type(e) is AssertionError, "assertion fails with AssertionError", repr(e))
        herm = X.AND(True, *[exact(X, before[p], X.conj(before[dag(p)]) if dag(p) in before else 0) for p in terms])
        X.claim(X.IFF(e is None, herm), "passes exactly when the operator equals its adjoint", "raised: %r" % (e,))
        X.claim(list(op) == list(before), "argument keeps its terms")
    elif what == "matel":
        n = cfg["n"]
        op = {p: X.cplx("h%d" % k) for k, p in enumerate(MATEL[cfg["fam"]])}
        A, Bb = X.bits("bra", n), X.bits("ket", n)
        al, be = X.cplx("alpha"), X.cplx("beta")
        bra, ket = {X.bytes(A): al}, {X.bytes(Bb): be}
        lhs = fin.inner(bra, fin.applyOp(n, op, ket, slaterWeightMin=0))
        rhs = fin.inner(fin.applyOp(n, fin.daggerOp(op), bra, slaterWeightMin=0), ket)
        X.claim(X.eq(lhs, rhs), "<a|O b> = <O+ a|b>")
    else:
        for L in (1, 2, 3):
            for pos in range(L):
                for u in UNKNOWN:
                    p = tuple((k, u if k == pos else "ca"[k % 2]) for k in range(L))
                    for op in ({p: X.cplx("h")}, {((0, "c"), (1, "a")): X.cplx("g"), p: X.cplx("h")}):
                        r, e = X.raises(fin.daggerOp, op)
                        X.claim(e is not None, "unknown label is rejected", "%r gave %r" % (p, r))


def exact(X, a, b):
    """equality without tolerance"""
    if X.symbolic:
        return X.eq(a, b)
    return a == b
