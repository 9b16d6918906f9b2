"""C14: getGreen is the resolvent matrix element."""
from checks.opref import apply_op, abs2, allowed_fn
from checks.c13 import lanczos, dot
METHOD = ("spectra.getGreen is executed (modes dict, dense, sparse; serial and distributed over a simulated communicator; with and without earlier cached results) with symbolic "
          "Hermitian strengths, symbolic normalised amplitudes, energies, mesh points and broadening; z3 decides equality with an exact linear solve of ((omega+i delta+e)-H) x = psi on "
          "the independently computed reachable space, and Im G = -delta |x|^2 (hence never positive).")
BOUNDS = "reachable spaces of 1-3 product states with symbolic strengths and 4-5 with numeric ones and symbolic mesh; 1-3 ranks; 0-2 mesh points; Krylov size from 1 to twice the dimension; exact arithmetic."
OUTSIDE = "Krylov sizes smaller than the space (a controlled approximation; only the sign of Im G is checked for size 1); rounding; exact early end of the recurrence raises an error (reported, see C13)."

# process -> strength description; hermitian partner is added
MODELS = {
    "two": dict(n=2, psi=["10"], terms=[(((0, "c"), (1, "a")), "z"), (((0, "c"), (0, "a")), "r"), (((1, "c"), (1, "a")), "r")]),
    "two mixed": dict(n=2, psi=["10", "01"], terms=[(((0, "c"), (1, "a")), "z"), (((1, "c"), (1, "a")), "r")]),
    "one": dict(n=2, psi=["11"], terms=[(((0, "c"), (1, "a")), "z"), (((0, "c"), (0, "a")), "r"), (((0, "c"), (1, "c"), (1, "a"), (0, "a")), "r")]),
    "two of different number": dict(n=2, psi=["11", "00"], terms=[(((0, "c"), (1, "c")), "p"), (((0, "c"), (0, "a")), "r")]),
    "three": dict(n=3, psi=["100"], terms=[(((0, "c"), (1, "a")), "p"), (((1, "c"), (2, "a")), "p"), (((1, "c"), (1, "a")), "r")]),
    "three two-body": dict(n=4, psi=["1100"], terms=[(((0, "c"), (1, "c"), (3, "a"), (2, "a")), "p"), (((2, "c"), (2, "a")), "r"), (((0, "c"), (0, "a")), "r")]),
    "three ring": dict(n=3, psi=["110", "011"], amp=1, terms=[(((0, "c"), (1, "a")), 2), (((1, "c"), (2, "a")), "p"), (((2, "c"), (2, "a")), 3)]),
    "four": dict(n=4, psi=["1000"], terms=[(((0, "c"), (1, "a")), 1), (((1, "c"), (2, "a")), 2j), (((2, "c"), (3, "a")), "r"), (((2, "c"), (2, "a")), 3), (((3, "c"), (3, "a")), -1)]),
    "four pairs": dict(n=4, psi=["1100"], terms=[(((0, "c"), (2, "a")), "p"), (((1, "c"), (3, "a")), 1), (((0, "c"), (1, "c"), (1, "a"), (0, "a")), 4)]),
}


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(model, mode, p=0, K=None, z="sym", h="num", **k):
        if z == "sym" and model not in ("one", "two"):
            z = "num" if model == "two mixed" else "omega"
        out.append(dict(name="%s %s krylov=%s mesh=%s strengths=%s%s" % (model, mode if not p else "H_build ranks=%d" % p, K or "dim", z, h, "".join(" %s=%s" % x for x in sorted(k.items()))),
                        model=model, mode=mode, p=p, K=K, z=z, h=h, deadline=120 if not T else 500, weight=20, exact_sqrt=True, **k))
    for m in MODELS:
        for mode in ("sparse", "dense", "dict"):
            add(m, mode)
            if m not in ("two mixed", "three ring", "four", "four pairs"):
                add(m, mode, z="num", h="sym")
            if m == "one":
                add(m, mode, z="sym", h="sym")
        for p in (1, 2, 3) if T or m in ("two", "three", "four pairs") else (2,):
            add(m, "sparse", p)
            if p > 1 and m in ("two", "three"):
                add(m, "sparse", p, z="num", h="sym")
        if m in ("two", "three", "four"):
            add(m, "sparse", K=8)
    for m in ("two", "three"):
        add(m, "sparse", cache=True)
        add(m, "dict", cache=True)
        add(m, "sparse", 2, cache=True)
        add(m, "sparse", K=1)
        add(m, "sparse", nw=0)
    add("three", "sparse", K=6, res=[[0, 1], 1, 1])
    add("three", "dict", res=[[0, 1], 1, 1])
    add("three", "sparse", 2, K=6, res=[[0, 1], 1, 1])
    for mode in ("sparse", "dense", "dict"):
        add("two", mode, empty=True)
        add("one", mode, neg=True)
        add("two", mode, neg=True)
        add("three", mode, neg=True)
        add("two", mode, earlier=True)
        add("three two-body", mode, earlier=True)
    add("two", "sparse", 2, neg=True)
    add("two", "sparse", 2, earlier=True)
    add("two", "sparse", K=1, neg=True)
    add("two", "sparse", 2, empty=True)
    return out


def conjp(p):
    return tuple((i, {"a": "c", "c": "a"}[t]) for i, t in reversed(p))


def hamiltonian(X, model, numeric):
    op = {}
    for k, (p, s) in enumerate(model["terms"]):
        v = X.cplx("h%d" % k) if s == "z" else X.real("h%d" % k) if s == "r" else (X.rat(3, 5) + X.rat(4, 5) * 1j) * X.real("h%d" % k, 0.25, 4) if s == "p" else s
        if numeric and isinstance(s, str):
            v = {"z": 3 - 4j, "r": 1.5, "p": 4 + 3j}[s] * (1 + k % 2)
        if not isinstance(v, str) and isinstance(v, (int, float, complex)):
            v = X.rat(1) * v        # exact arithmetic from here on
        op[p] = v
        if conjp(p) != p:
            op[conjp(p)] = X.conj(v)
    return op


def closure(X, op, bits, allowed):
    """reachable product states and the matrix of op on them"""
    keys, allb = [], []
    for b in bits:
        keys.append(X.bytes(b))
        allb.append(b)
    cols = []
    i = 0
    while i < len(keys):
        col = apply_op(X, op, [(allb[i], 1)], allowed)
        cols.append(col)
        for k, (b, _) in col.items():
            if k not in keys:
                keys.append(k)
                allb.append(b)
        i += 1
    N = len(keys)
    H = [[cols[j][keys[i]][1] if keys[i] in cols[j] else 0 for j in range(N)] for i in range(N)]
    return keys, H


def run(X, cfg):
    M = MODELS[cfg["model"]]
    n = M["n"]
    op = hamiltonian(X, M, cfg["h"] == "num")
    for p, v in op.items():
        X.assume(abs2(X, v) >= 1e-4)
    bits = [[c == "1" for c in s] for s in M["psi"]]
    if cfg.get("empty"):
        bits = []
    if "amp" in M:
        amps = [X.rat(3, 5), X.rat(4, 5) * 1j]
    elif len(bits) == 1:
        amps = [X.rat(3, 5) - X.rat(4, 5) * 1j] if cfg["model"] == "one" else [X.rat(1)]
    elif bits:
        t = X.real("t", 0.1, 0.9) if cfg["h"] == "num" else X.rat(1, 2)
        amps = [(X.rat(3, 5) + X.rat(4, 5) * 1j) * 2 * t / (1 + t * t), (1 - t * t) / (1 + t * t)]
    else:
        amps = []
    nw = cfg.get("nw", 2)
    if cfg["z"] == "sym":
        e, delta, omega = X.real("e"), X.real("delta", 0.05, 2), [X.real("omega"), 0.5][:nw]
    elif cfg["z"] == "omega":
        e, delta, omega = X.rat(-3, 2), X.rat(1, 4), [X.real("omega"), 0.5][:nw]
    else:
        e, delta, omega = X.rat(-3, 2), X.rat(1, 4), [X.rat(1, 2), X.rat(-2)][:nw]
    if cfg.get("neg"):
        delta = -delta
    res = cfg.get("res")
    restr = None if res is None else {X.idxset(res[0]): (res[1], res[2])}
    allowed = None if res is None else allowed_fn(X, [tuple(res)])
    keys, H = closure(X, op, bits, allowed)
    for row in H:
        for v in row:
            if not (isinstance(v, int) and v == 0):
                X.assume(X.OR(X.same(abs2(X, v), 0), abs2(X, v) >= 1e-6))
    N = len(keys)
    K = cfg["K"] or max(N, 1)
    psi = {X.bytes(b): a for b, a in zip(bits, amps)}
    v = [0] * N
    for i, b in enumerate(bits):
        v[i] = amps[i]
    before, opb = dict(psi), dict(op)
    p = cfg["p"]
    W = max(p, 1)
    # the cutoff is irrelevant for a space that is covered
    X.reach("Green's function")

    def body(w, rank):
        sp = w.ed("spectra")
        hd = None
        if cfg.get("cache"):
            hd = {}
            for t in range(len(keys)):
                if t % W == rank and t != 1:
                    hd[keys[t]] = {k: H[i][t] for i, k in enumerate(keys) if not (isinstance(H[i][t], int) and H[i][t] == 0)}
        kw = dict(mode=cfg["mode"])
        if p:
            kw["parallelization_mode"] = "H_build"
        if cfg.get("earlier"):      # an earlier calculation with another Hamiltonian leaves nothing behind
            other = {q: X.rat(7 + t) for t, q in enumerate(q for q in op if conjp(q) == q)}
            X.raises(lambda: sp.getGreen(n, e, dict(psi), other, X.array(omega, "f"), delta, 1, 0, restr, **kw))
            X.raises(lambda: sp.getGreen(n, e, dict(psi), other, X.array(omega, "f"), delta, 1, 0, **kw))
        return sp.getGreen(n, e, dict(psi), op, X.array(omega, "f"), delta, K, 0, restr, *([] if hd is None else [hd]), **kw)
    if p:
        r, ex = X.raises(X.spmd, p, body)
        g = r[0] if ex is None else None
    else:
        g, ex = X.raises(body, X.world(), 0)
    if not bits:
        X.claim(ex is None and len(g) == nw, "an empty state gives a function on the mesh")
        if ex is None:
            X.eqs([(x, 0) for x in g], "an empty state gives zero")
        return
    if ex is not None:
        _, _, ended = lanczos(X, H, v, min(K, N), "Green")
        X.claim(ended, "fails only when the recurrence ends early", repr(ex))
        return
    X.claim(len(g) == nw, "one value per mesh point", repr(len(g)))
    for k, w in enumerate(omega):
        z = w + 1j * delta + e
        if K == 1 and N > 1:
            X.claim(X.ge(0, (g[k] + 0j).imag * (-1 if cfg.get("neg") else 1)), "imaginary part is never positive" if not cfg.get("neg") else "imaginary part is never negative for negative broadening")
            continue
        A = [[(z if i == j else 0) - H[i][j] for j in range(N)] for i in range(N)]
        x = X.solve(A, v)
        X.claim(X.eq(g[k], dot(X, v, x)), "G = <psi|((omega+i delta+e)-H)^-1|psi>", "mesh point %d" % k)
        if N > 2 or cfg["z"] == "num":
            continue        # follows from the equality above
        s = 0
        for y in x:
            s = s + abs2(X, y)
        X.claim(X.eq((g[k] + 0j).imag, 0 - delta * s), "Im G = -delta |x|^2", "mesh point %d" % k)
    X.claim(list(op) == list(opb), "operator keeps its processes")
    X.eqs([(op[q], opb[q]) for q in opb if q in op], "operator argument unchanged")
