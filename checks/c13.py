"""C13: Lanczos coefficients satisfy the Krylov recurrence, with the complete, dense or rank-distributed matrix."""
METHOD = ("finite.get_tridiagonal_krylov_vectors is executed with a symbolic Hermitian matrix and a symbolic normalised complex start vector, in sparse and dense mode and, split "
          "into a symbolic sum of matrices, on every rank of a simulated communicator; the coefficients are compared (exact symbolic algebra with z3) with an independent Krylov "
          "recurrence, including when the recurrence ends early.")
BOUNDS = "dimension 1-3 with all matrix elements symbolic, 4-5 with some; requested size 1 to dimension+2; 1-3 ranks; exact real arithmetic."
OUTSIDE = "rounding and loss of orthogonality in floating point; other ranks than the collecting one have no coefficients (by design)."


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(kind, N, K, p, mode="sparse", w=5, **k):
        out.append(dict(name="%s N=%d krylov=%d %s" % (kind, N, K, mode if p == 0 else "distributed ranks=%d" % p), kind=kind, N=N, K=K, p=p, mode=mode, weight=w,
                        deadline=150 if not T else 600, **k))
    for mode in ("sparse", "dense"):
        add("full", 1, 1, 0, mode)
        add("full", 1, 3, 0, mode)
        for K in (1, 2, 4):
            add("full", 2, K, 0, mode)
        for K in (1, 2):
            add("full", 3, K, 0, mode, w=20)
        add("real", 3, 3, 0, mode, w=40)
        add("unit", 3, 3, 0, mode, w=40)
        add("chain", 4, 4, 0, mode, w=20)
        add("chain", 5, 6, 0, mode, w=20)
        add("chain", 4, 2, 0, mode, w=20)
        add("phase", 3, 3, 0, mode, w=20)
        add("blocks", 4, 4, 0, mode, w=20)
    for p in (1, 2, 3):
        add("full", 1, 2, p)
        for K in (1, 2, 3):
            add("full", 2, K, p, w=20)
        add("chain", 4, 4, p, w=30)
        add("blocks", 4, 4, p, w=30)
        add("phase", 3, 3, p, w=30)
        add("unit", 3, 3, p, w=40)
        add("full", 3, 2, p, w=40)
    if T:
        add("real", 4, 2, 0, w=90)
        add("real", 3, 3, 2, w=90)
        add("chain", 6, 6, 4, w=60)
    return out


def hermitian(X, kind, N):
    H = [[0] * N for _ in range(N)]
    for i in range(N):
        for j in range(i, N):
            if kind in ("full", "unit"):
                v = X.real("H%d%d" % (i, j)) if i == j else X.cplx("H%d%d" % (i, j))
            elif kind == "real":
                v = X.real("H%d%d" % (i, j)) if (i + j) % 2 == 0 or i == 0 else [[0, 0, 0], [0, 2, -1], [0, 0, 3]][min(i, 2)][min(j, 2)]
            elif kind == "chain":
                v = X.real("H%d%d" % (i, j)) if i == j else (X.real("H%d%d" % (i, j), 1, 5) if j == i + 1 else 0)
            elif kind == "phase":
                v = X.real("H%d%d" % (i, j)) if i == j else ((3 + 4j if i == 0 else 6 - 8j) * X.real("s%d" % i, 1, 3) if j == i + 1 else 0)
            elif kind == "blocks":
                v = X.real("H%d%d" % (i, j)) if i == j else ((1 if i != 1 else X.real("link", 0, 2)) if j == i + 1 else 0)
            H[i][j] = v
            if i != j:
                H[j][i] = X.conj(v)
    return H


def start(X, kind, N):
    if kind in ("chain", "phase", "blocks", "real", "unit"):
        return [1 if k == 0 else 0 for k in range(N)] if kind != "phase" else [0.6 + 0.8j] + [0] * (N - 1)
    if N == 1:
        return [0.6 + 0.8j]
    if N == 3:
        a = X.cplx("v0", -0.9, 0.9)
        X.assume(a.real * a.real + a.imag * a.imag <= 0.9)
        return [a, 0, X.sqrt(1 - (a.real * a.real + a.imag * a.imag))]
    vs = [X.cplx("v%d" % k, -0.9, 0.9) for k in range(N - 1)]
    n = 0
    for a in vs:
        n = n + a.real * a.real + a.imag * a.imag
    X.assume(n <= 0.95)
    return vs + [X.sqrt(1 - n) * (0.6 - 0.8j)]


def dot(X, a, b):
    s = 0
    for x, y in zip(a, b):
        s = s + X.conj(x) * y
    return s


def mul(H, v):
    out = []
    for row in H:
        s = 0
        for h, x in zip(row, v):
            s = s + h * x
        out.append(s)
    return out


def lanczos(X, H, v, K, kind):
    """independent recurrence; stops when beta vanishes"""
    alpha, beta, ended = [], [], False
    prev = None
    for j in range(K):
        Hv = mul(H, v)
        a = (dot(X, v, Hv) + 0j).real
        alpha.append(a)
        w = [x - a * y for x, y in zip(Hv, v)]
        if prev is not None:
            w = [x - beta[-1] * y for x, y in zip(w, prev)]
        if j == K - 1:
            break
        b = X.sqrt((dot(X, w, w) + 0j).real)
        if is_zero(X, b, kind == "blocks" or (j == 0 and kind in ("unit", "real", "chain"))):
            ended = True
            break
        beta.append(b)
        prev, v = v, [x / b for x in w]
    return alpha, beta, ended


def is_zero(X, b, exact):
    if not X.symbolic and not exact:
        # a replay in floating point cannot tell whether a tiny beta is an exact zero
        X.assume(b > 1e-6)
    return bool(b == 0)


def run(X, cfg):
    N, K, p = cfg["N"], cfg["K"], cfg["p"]
    H = hermitian(X, cfg["kind"], N)
    v = start(X, cfg["kind"], N)
    X.reach("Lanczos")
    if p == 0:
        h = X.csr(X.array(H))
        psi0 = X.array(v)
        r, e = X.raises(X.world().ed("finite").get_tridiagonal_krylov_vectors, h, psi0, K, mode=cfg["mode"])
        X.eq_arr(psi0, X.array(v), "start vector unchanged")
        X.eq_arr(h.toarray(), X.array(H), "matrix unchanged")
    else:
        parts = []
        rest = H
        for t in range(p - 1):
            P = [[(X.cplx("P%d%d%d" % (t, i, j)) if N < 3 else X.real("P%d%d%d" % (t, i, j))) if (i * 2 + j + t) % 3 else 0 for j in range(N)] for i in range(N)]
            parts.append(P)
            rest = [[a - b for a, b in zip(x, y)] for x, y in zip(rest, P)]
        parts.append(rest)

        def body(w, rank):
            return w.ed("finite").get_tridiagonal_krylov_vectors(X.csr(X.array(parts[rank])), X.array(v), K, h_local=True)
        r, e = X.raises(X.spmd, p, body)
        r = r[0] if e is None else None
    if e is not None:
        X.claim(isinstance(e, ValueError), "the only failure is the reported end of the recurrence", repr(e))
    alpha, beta, ended = lanczos(X, H, v, min(K, N), cfg["kind"])
    X.claim(ended == (e is not None), "an early end is reported, and only an early end", "ended %s raised %r" % (ended, e))
    if e is not None or ended:
        return
    a, b = r
    X.claim(len(a) == len(alpha) and len(b) == len(beta), "min(requested size, dimension) steps", "%d %d" % (len(a), len(alpha)))
    if len(a) == len(alpha) and len(b) == len(beta):
        for x, y in zip(a, alpha):
            X.claim(X.eq(x, y), "alpha_j = <v_j|H v_j>")
        for x, y in zip(b, beta):
            X.claim(X.eq(x, y), "beta_j = |w_j|")
