"""C11: get_hamiltonian_matrix is the projected operator in every mode and for every number of ranks."""
from checks.opref import apply_op, abs2
from checks.c03 import bits_in
METHOD = ("finite.get_hamiltonian_matrix is executed in all four modes (the distributed ones on every rank of a simulated communicator) for bases of symbolic distinct product "
          "states and for larger concrete bases, with symbolic complex strengths; z3 decides that every element on every rank equals the independent matrix element.")
BOUNDS = "bases of 1-3 symbolic product states on 3-4 spin-orbitals, and 1-10 concrete product states on up to 10 spin-orbitals; 1-5 ranks; operators of 2-6 processes, hermitian or not."
OUTSIDE = "matrix elements with squared modulus below the 1e-12 cutoff may be dropped (documented cutoff of applyOp); larger bases."
MODES = ("dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI")
OPS = {
    "hop": [((0, "c"), (1, "a")), ((1, "c"), (0, "a")), ((2, "c"), (2, "a"))],
    "ladder": [((0, "c"), (1, "a")), ((1, "c"), (2, "a")), ((2, "c"), (0, "a")), ((0, "c"), (0, "a")), ((1, "c"), (1, "a"))],
    "two-body": [((0, "c"), (1, "c"), (2, "a"), (0, "a")), ((1, "c"), (2, "a")), ((1, "c"), (2, "c"), (2, "a"), (1, "a"))],
    "number": [((0, "c"),), ((1, "a"),), ((0, "c"), (2, "c"))],
    "wide": [((0, "c"), (8, "a")), ((8, "c"), (0, "a")), ((7, "c"), (8, "a")), ((9, "c"), (7, "a")), ((1, "c"), (0, "a"))],
}


def ones(n, e):
    import itertools
    return [["1" if i in s else "0" for i in range(n)] for s in itertools.combinations(range(n), e)]


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(mode, p, op, **k):
        nm = "%s ranks=%d op=%s %s" % (mode, p, op, k.get("tag") or "symbolic basis of %d, n=%d" % (k["m"], k["n"]))
        out.append(dict(name=nm, mode=mode, p=p, op=op, deadline=150 if not T else 500, weight=k.get("m", 2) * 5, **k))
    conc = {"N=3": ones(3, 1) + ones(3, 2), "N=4": ones(4, 2), "N=10": ones(10, 1), "one": ones(4, 2)[:1], "gaps": ones(4, 2)[::2] + ones(4, 1)[::3]}
    for mode in MODES:
        for p in ((1, 2, 3) if "MPI" in mode else (1,)):
            for op in ("hop", "two-body", "number"):
                add(mode, p, op, m=2, n=3, small=p < 3)
            add(mode, p, "ladder", m=3 if p == 1 or T else 2, n=3)
            if T:
                add(mode, p, "ladder", m=3, n=4)
                add(mode, p, "two-body", m=3, n=4)
        for p in ((1, 2, 3, 4, 5) if "MPI" in mode else (1,)):
            for tag, b in conc.items():
                n = len(b[0])
                for op in ("ladder", "two-body", "number") if n < 10 else ("wide",):
                    add(mode, p, op, basis=["".join(x) for x in b], n=n, tag="basis " + tag)
    add("default", 2, "hop", m=2, n=3)
    return out


def run(X, cfg):
    n, p = cfg["n"], cfg["p"]
    op = {q: X.cplx("h%d" % k) for k, q in enumerate(OPS[cfg["op"]])}
    if not cfg.get("small"):
        for v in op.values():
            X.assume(abs2(X, v) >= 1e-6)
    if "basis" in cfg:
        bits = [[c == "1" for c in s] for s in cfg["basis"]]
    else:
        bits = []
        for k in range(cfg["m"]):
            b = X.bits("b%d" % k, n)
            for c in bits:
                X.assume(X.NOT(X.same(X.bytes(b), X.bytes(c))))
            bits.append(b)
    basis = tuple(X.bytes(b) for b in bits)
    opb = dict(op)
    kw = {} if cfg["mode"] == "default" else {"mode": cfg["mode"]}
    X.reach("matrix built")

    def body(w, rank):
        h = w.ed("finite").get_hamiltonian_matrix(n, dict(op), basis, **kw)
        sp = hasattr(h, "toarray")
        return sp, (h.toarray() if sp else h)
    if p == 1 and "MPI" not in cfg["mode"]:
        res = [body(X.world(), 0)]
    else:
        res = X.spmd(p, body)
    want = {}
    for j, b in enumerate(bits):
        col = apply_op(X, opb, [(b, 1)])
        for i, k in enumerate(basis):
            want[i, j] = col[k][1] if k in col else 0
    N = len(basis)
    for r, (sp, h) in enumerate(res):
        X.claim(h.shape == (N, N), "square matrix on rank %d" % r, repr(h.shape))
        if cfg["mode"] != "default":
            X.claim(sp == cfg["mode"].startswith("sparse"), "dense or sparse as requested")
        for (i, j), v in want.items():
            if X.eq(h[i, j], v) is True:
                X.claim(True, "element is the projected matrix element (rank %d)" % r)
            else:
                X.claim(X.OR(X.eq(h[i, j], v), X.AND(X.eq(h[i, j], 0), abs2(X, v) < 1e-12)), "element is the projected matrix element (rank %d)" % r, "element %d,%d" % (i, j))
