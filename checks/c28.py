"""C28: eigensystem sorts, pairs and labels the eigenpairs correctly."""
from itertools import permutations
METHOD = ("finite.eigensystem is executed with the numerical eigensolvers replaced by stand-ins that return correct eigenpairs of the matrix they are given, in every order the "
          "solver's contract allows: the Hamiltonian is built from symbolic eigenvalues and a symbolic unitary matrix, so the eigenpairs are known exactly. Matrix handed to the "
          "solver, number of states requested, energies, their order, the amplitudes on every product state and the cutoff (symbolic) are decided with z3.")
BOUNDS = ("bases of 2-4 product states (one moving electron with spectators, fermionic signs), all eigenvalues (distinct or degenerate), unitary matrices with one symbolic "
          "rotation and complex phases, every solver return order, all cutoffs, 1-4 requested states, both diagonalisation modes; amplitudes exactly at the cutoff.")
OUTSIDE = "accuracy and convergence of the numerical eigensolvers themselves; larger bases."
ASSUMPTIONS = ["eigsh and eigh return correct, normalised eigenpairs (eigh in ascending order, eigsh in any order)."]
TOL = 1e-7
PRELOAD = ()


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        k.setdefault("cut", "sym")
        k.setdefault("deg", False)
        k.setdefault("u", "rot")
        k.setdefault("ask", None)
        k.setdefault("sgn", 1)
        out.append(dict(name=name, deadline=250 if not T else 700, timeout_ms=20000, max_coinc=0, **k))
    orders = {}
    for n, k in ((2, 1), (2, 2), (3, 1), (3, 2), (3, 3)) + (((4, 3), (4, 4)) if T else ()):
        add("full mode, basis of %d, %d states" % (n, k), mode="full", n=n, k=k, order=list(range(n)), weight=n * k)
        for p in permutations(range(k)):
            add("Lanczos mode, basis of %d, %d states in solver order %s" % (n, k, list(p)), mode="Lanczos", n=n, k=k, order=list(p), weight=n * k)
    for k, p in ((3, (2, 0, 1)), (4, (3, 1, 0, 2)), (4, (1, 2, 3, 0))):
        add("Lanczos mode, amplitudes at the cutoff, solver order %s" % list(p), mode="Lanczos", n=4, k=k, order=list(p), u="half", cut="quarter")
    add("full mode, amplitudes at the cutoff", mode="full", n=4, k=3, order=[0, 1, 2, 3], u="half", cut="quarter")
    add("full mode, more states asked for than exist", mode="full", n=3, k=3, ask=7, order=[0, 1, 2])
    for cut in ("default", "tiny"):
        add("full mode, cutoff %s" % cut, mode="full", n=2, k=2, order=[0, 1], cut=cut)
        add("Lanczos mode, cutoff %s" % cut, mode="Lanczos", n=2, k=2, order=[1, 0], cut=cut)
    for p in permutations(range(3)):
        add("Lanczos mode, degenerate states, solver order %s" % list(p), mode="Lanczos", n=4, k=3, order=list(p), deg=True, u="half", cut="none")
        add("Lanczos mode, vanishing amplitudes, solver order %s" % list(p), mode="Lanczos", n=4, k=3, order=list(p), u="zeros")
    add("full mode, degenerate states", mode="full", n=4, k=3, order=[0, 1, 2], deg=True, u="half", cut="none")
    add("full mode, vanishing amplitudes", mode="full", n=3, k=3, order=[0, 1, 2], u="zeros")
    for p in permutations(range(2)):
        add("Lanczos mode, basis of 2, negative hopping, 2 states in solver order %s" % list(p), mode="Lanczos", n=2, k=2, order=list(p), sgn=-1)
    add("default mode", mode=None, n=3, k=2, order=[1, 0])
    return out


MOVE = {2: [1, 4], 3: [0, 3, 5], 4: [0, 2, 3, 6]}
SPECT = {2: [2, 3], 3: [1, 4], 4: [4, 7]}


def unitary(X, n, kind):
    if kind == "half":
        h = X.rat(1, 2)
        S = [[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]
        ph = [1, 1j, -1, -1j]
        return [[ph[i] * (S[i][k] * h) for k in range(4)] for i in range(4)]
    if n == 2:
        c, s = X.real("cos", -1, 1), X.real("sin", -1, 1)
        X.assume(X.eq(c * c + s * s, 1))
    else:
        c, s = X.rat(-8, 17), X.rat(15, 17)
    p = X.rat(3, 5) + X.rat(4, 5) * 1j
    pc = X.rat(3, 5) - X.rat(4, 5) * 1j
    X.rotation = c, s, p, pc
    U = [[X.rat(i == j) for j in range(n)] for i in range(n)]
    rows = [(c, s, 0, 1)]
    if n > 2:
        rows += [(X.rat(5, 13), X.rat(12, 13), 1, 2)]
        if kind == "zeros":
            rows = rows[:1]
        elif n > 3:
            rows += [(X.rat(4, 5), X.rat(-3, 5), 2, 3), (X.rat(12, 13), X.rat(5, 13), 0, 3)]
        else:
            rows += [(X.rat(4, 5), X.rat(3, 5), 0, 2)]
    for cc, ss, a, b in rows:
        for i in range(n):
            x, y = U[i][a], U[i][b]
            U[i][a], U[i][b] = x * cc + y * (ss * p), x * (-ss * pc) + y * cc
    return U


def shims(X, eigsh, eigh):
    """the solvers' stand-ins, for symbolic and for real runs alike"""
    if X.symbolic:
        return dict(eigsh=eigsh, eigh=eigh)
    import numpy as np, numpy.linalg
    import scipy, scipy.sparse, scipy.sparse.linalg, scipy.linalg
    from symx.npshim import Shim
    sl = Shim("scipy.sparse.linalg", scipy.sparse.linalg, {"eigsh": eigsh})
    sp = Shim("scipy.sparse", scipy.sparse, {"linalg": sl})
    dl = Shim("scipy.linalg", scipy.linalg, {"eigh": eigh})
    top = Shim("scipy", scipy, {"sparse": sp, "linalg": dl})
    nl = Shim("numpy.linalg", numpy.linalg, {"eigh": eigh})
    npx = Shim("numpy", np, {"linalg": nl})
    return dict(extra_modules={"scipy.sparse.linalg": sl, "scipy.sparse": sp, "scipy.linalg": dl, "scipy": top, "numpy.linalg": nl, "numpy": npx})


def run(X, cfg):
    import numpy as np
    n, k, mode, order = cfg["n"], cfg["k"], cfg["mode"], cfg["order"]
    U = unitary(X, n, cfg["u"])
    e = [X.real("e%d" % i, -4, 4) for i in range(n)]
    for i in range(n - 1):
        if cfg["deg"] and i == 0:
            X.assume(X.eq(e[0], e[1]))
        else:
            X.assume(X.ge(e[i + 1] - e[i], X.rat(1, 100)))
    H = [[sum((U[i][q] * e[q] * X.conj(U[j][q]) for q in range(1, n)), U[i][0] * e[0] * X.conj(U[j][0])) for j in range(n)] for i in range(n)]
    if n == 2:
        # own symbols for the matrix elements, bounded away from zero: elements of 1e-6 and less are left out when an operator is applied (C03)
        d0, d1, off = X.real("h00", 0.01, 9), X.real("h11", 0.01, 9), X.real("h01", *([0.001, 9] if cfg["sgn"] > 0 else [-9, -0.001]))
        c, s, p, pc = X.rotation
        X.assume(X.AND(X.eq(d0, e[0] * c * c + e[1] * s * s), X.eq(d1, e[0] * s * s + e[1] * c * c), X.eq(off, (e[0] - e[1]) * c * s)))
        H = [[d0, off * pc], [off * p, d1]]
    # product states: one electron on orbital MOVE[i], spectators elsewhere
    nso = 10
    mv, spc = MOVE[n], SPECT[n]
    labels = [X.bytes([q in spc or q == m for q in range(nso)]) for m in mv]
    op = {}
    for i in range(n):
        for j in range(n):
            lo, hi = min(mv[i], mv[j]), max(mv[i], mv[j])
            sign = -1 if i != j and sum(lo < q < hi for q in spc) % 2 else 1
            op[((mv[i], "c"), (mv[j], "a"))] = H[i][j] * sign
    basisorder = list(range(n))[::-1] if n > 2 else list(range(n))
    basis = tuple(labels[i] for i in basisorder)
    calls = []

    def given(a):
        """the matrix handed to the solver is the Hamiltonian in the given basis"""
        m = a.toarray() if hasattr(a, "toarray") else np.asarray(a) if not X.symbolic else a
        X.claim(m.shape == (n, n), "dimension of the matrix")
        for i in range(n):
            for j in range(n):
                h = H[basisorder[i]][basisorder[j]]
                # elements that small are left out when an operator is applied (C03)
                X.claim(X.OR(X.eq(m[i, j], h), X.AND(X.eq(m[i, j], 0), X.ge(X.rat(1, 10 ** 12), (h * X.conj(h)).real))), "matrix that is diagonalised", lambda: (i, j))

    def vectors(cols):
        return X.array([[U[basisorder[i]][c] for c in cols] for i in range(n)])

    def eigsh(a, k=6, M=None, sigma=None, which="LM", v0=None, ncv=None, maxiter=None, tol=0, return_eigenvectors=True, **kw):
        given(a)
        calls.append("eigsh")
        X.claim(which in ("SA", "LA") and sigma is None, "extremal eigenvalues requested from the solver")
        sel = list(range(k)) if which == "SA" else list(range(n - k, n))
        cols = [sel[c] for c in order if c < len(sel)] + [sel[c] for c in range(len(sel)) if c not in order]
        es = X.array([e[c] for c in cols], "f")
        return (es, vectors(cols)) if return_eigenvectors else es

    def eigh(a, *args, **kw):
        given(a)
        calls.append("eigh")
        v = vectors(range(n))
        if not X.symbolic and isinstance(a, np.matrix):
            v = np.asmatrix(v)
        return X.array(list(e), "f"), v
    w = X.world(**shims(X, eigsh, eigh))
    f = w.ed("finite")
    args = [nso, op, basis, cfg["ask"] or k] + ([mode] if mode else [])
    kw = {}
    if cfg["cut"] == "sym":
        W = kw["slaterWeightMin"] = X.real("cutoff", 0, 1)
        X.assume(X.ge(W, X.rat(1, 10 ** 6)))
    elif cfg["cut"] == "quarter":
        W = kw["slaterWeightMin"] = 0.25
    elif cfg["cut"] == "tiny":
        W = kw["slaterWeightMin"] = 1e-30
    elif cfg["cut"] == "none":
        W = kw["slaterWeightMin"] = 0
    else:
        W = 1e-7
    es, psis = f.eigensystem(*args, **kw)
    X.claim(len(calls) >= 1, "solver used")
    X.claim(len(es) == k and len(psis) == k, "number of states", "%d %d" % (len(es), len(psis)))
    if len(es) != k or len(psis) != k:
        return
    X.eqs([(es[i], e[i]) for i in range(k)], "energies in ascending order")
    for q in psis:
        X.claim(all(any(key == b for b in labels) for key in q), "amplitudes sit on product states of the basis")

    def amp(psi, i):
        return psi[labels[i]] if labels[i] in psi else None

    def vector_ok(psi, c):
        out = []
        for i in range(n):
            a, m2 = amp(psi, i), X.conj(U[i][c]) * U[i][c]
            m2 = m2.real if not X.symbolic else m2
            if cfg["cut"] in ("quarter", "none"):
                out.append(X.eq(a if a is not None else 0, U[i][c]) if a is not None or cfg["cut"] == "none" else False)
                continue
            # (1e-12: rounding of the squared modulus)
            if a is None:
                out.append(X.ge(W - m2, -1e-12 if W != 1e-30 else -1e-31))
            else:
                out.append(X.AND(X.ge(m2 - W, -1e-12 if W != 1e-30 else -1e-31), X.eq(a, U[i][c])))
        return X.AND(*out)
    if cfg["deg"]:
        for i in range(k):
            X.claim(X.OR(*[vector_ok(psis[i], c) for c in ((0, 1) if i < 2 else (2,))]), "state %d is an eigenvector of its energy" % i)
        X.claim(X.NOT(X.AND(vector_ok(psis[0], 0), vector_ok(psis[1], 0))), "degenerate states differ")
        X.claim(X.NOT(X.AND(vector_ok(psis[0], 1), vector_ok(psis[1], 1))), "degenerate states differ")
    else:
        for i in range(k):
            X.claim(vector_ok(psis[i], i), "state %d has the amplitudes of the eigenvector of its energy" % i)
    X.reach("eigensystem done")
