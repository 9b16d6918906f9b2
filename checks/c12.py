"""C12: expand_basis / expand_basis_and_hamiltonian close the space and give the right Hamiltonian on all ranks."""
from checks.opref import apply_op, allowed_fn, abs2
METHOD = ("finite.expand_basis_and_hamiltonian (and expand_basis, get_hamiltonian_matrix_from_h_dict) are executed serially and on every rank of a simulated communicator with "
          "rank-dependent set iteration orders, for symbolic and concrete starting product states, symbolic complex strengths, restrictions with symbolic bounds and earlier results "
          "owned by a symbolic rank; z3 decides basis, order, matrix elements, cache contents and the sum of the local matrices against an independent closure.")
BOUNDS = "1-2 symbolic starting states on 3-4 spin-orbitals, or 1-4 concrete ones on 4-9 spin-orbitals; 1-4 ranks; operators of 3-6 processes; at most two earlier expansions."
OUTSIDE = "starting states that themselves violate the restrictions; strengths whose squared modulus is below the 1e-12 cutoff; larger spaces."
OPS = {
    "hop": [((0, "c"), (1, "a")), ((1, "c"), (0, "a")), ((1, "c"), (2, "a")), ((2, "c"), (1, "a"))],
    "chain": [((0, "c"), (1, "a")), ((1, "c"), (2, "a")), ((2, "c"), (3, "a")), ((3, "c"), (0, "a")), ((2, "c"), (2, "a"))],
    "one-way": [((0, "c"), (1, "a")), ((2, "c"), (1, "a")), ((2, "c"), (2, "a"))],
    "pair": [((0, "c"), (1, "c"), (3, "a"), (2, "a")), ((2, "c"), (3, "c"), (1, "a"), (0, "a")), ((0, "c"), (0, "a"))],
    "create": [((0, "c"),), ((1, "c"),), ((2, "a"),)],
    "diagonal": [((0, "c"), (0, "a")), ((1, "c"), (1, "a"))],
    "wide": [((0, "c"), (8, "a")), ((8, "c"), (0, "a")), ((7, "c"), (8, "a")), ((8, "c"), (7, "a"))],
}


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(op, n, p, start, w=10, **k):
        nm = "%s n=%d %s ranks=%d start=%s%s" % (op, n, "serial" if p == 0 else "H_build", max(p, 1), start, "".join(" %s=%s" % x for x in sorted(k.items())))
        out.append(dict(name=nm, op=op, n=n, p=p, start=start, weight=w, deadline=150 if not T else 500, **k))
    for op, n in (("hop", 3), ("one-way", 3), ("create", 3), ("diagonal", 3), ("pair", 4), ("chain", 4)):
        add(op, n, 0, 1)
        if n == 3:
            add(op, n, 0, 2, w=30)
        add(op, n, 0, 1, res=[[0, 1]], w=30)
        add(op, n, 1 if op == "hop" else 2, 1, w=30)
    add("hop", 3, 0, 1, earlier=1, w=40)
    add("hop", 3, 2, 1, res=[[0, 1]], w=40)
    add("hop", 3, 2, 1, local=True, w=40)
    conc = {4: ["1100"], 9: ["100000000"]}
    for p in (0, 1, 2, 3, 4):
        for op, st, n in (("chain", ["1100"], 4), ("chain", ["1000", "0110"], 4), ("pair", ["0011", "0101"], 4), ("hop", ["10000001"], 8), ("create", ["0010", "0000"], 4), ("wide", ["100000000", "010000010"], 9)):
            for loc in (False, True) if p else (False,):
                add(op, n, p, st, local=loc)
            add(op, n, p, st, earlier=[st[-1]], local=bool(p), w=20)
        add("chain", 4, p, ["1100"], res=[[0, 1], [2]], w=40)
        add("chain", 4, p, ["1100"], owner=["0110", "0101"], w=40)
        add("chain", 4, p, ["1100"], owner=["1100", "1010", "0011"], local=bool(p), w=40)
        add("pair", 4, p, ["1100"], owner=["0011", "1111"], w=40)
    for c in out:
        c.setdefault("local", False)
    return out


def reference(X, op, start, allowed, n, memo):
    order, bits = [], {}
    front = []
    for b in start:
        k = X.bytes(b)
        order.append(k)
        bits[k] = b
        front.append(k)
    while front:
        nxt = []
        for k in front:
            if k not in memo:
                memo[k] = {}
                for s, (b, v) in apply_op(X, op, [(bits[k], 1)], allowed).items():
                    if bool(abs2(X, v) < 1e-12):
                        continue
                    memo[k][s] = (b, v)
            for s, (b, _) in memo[k].items():
                if s not in bits:
                    bits[s] = b
                    order.append(s)
                    nxt.append(s)
        front = nxt
    return order, bits


def run(X, cfg):
    n, p = cfg["n"], cfg["p"]
    op = {q: X.cplx("h%d" % k) for k, q in enumerate(OPS[cfg["op"]])}
    for v in op.values():
        X.assume(abs2(X, v) >= 1e-6)
    st = cfg["start"]
    if isinstance(st, int):
        start = []
        for k in range(st):
            b = X.bits("b%d" % k, n)
            for c in start:
                X.assume(X.NOT(X.same(X.bytes(b), X.bytes(c))))
            start.append(b)
    else:
        start = [[c == "1" for c in s] for s in st]
    res = None
    if cfg.get("res"):
        res = [(i, X.int("lo%d" % k, 0, len(i)), X.int("hi%d" % k, 0, len(i))) for k, i in enumerate(cfg["res"])]
    allowed = allowed_fn(X, res) if res is not None else None
    if res is not None:
        for b in start:
            X.assume(allowed(b))
    restr = None if res is None else {X.idxset(i): (lo, hi) for i, lo, hi in res}
    memo = {}
    want, wbits = reference(X, op, start, allowed, n, memo)
    W = max(p, 1)
    # earlier results
    hd = [{} for _ in range(W)]
    for t, s in enumerate(cfg.get("owner", [])):
        r = int(X.int("owner%d" % t, 0, W - 1))
        bs = [c == "1" for c in s]
        reference(X, op, [bs], allowed, n, m2 := {})
        k = X.bytes(bs)
        hd[r][k] = {q: v for q, (_, v) in m2[k].items()}
    earlier = cfg.get("earlier")
    if isinstance(earlier, int):
        earlier = [X.bits("e%d" % k, n) for k in range(earlier)]
    elif earlier:
        earlier = [[c == "1" for c in s] for s in earlier]
    basis0 = tuple(X.bytes(b) for b in start)
    opb = dict(op)
    par = {"parallelization_mode": "H_build"} if p else {}
    if cfg["local"]:
        par["return_h_local"] = True
    X.reach("expanded")
    snap = [None] * W

    def body(w, rank):
        fin = w.ed("finite")
        if earlier:
            fin.expand_basis(n, hd[rank], op, tuple(X.bytes(b) for b in earlier), restr, **({"parallelization_mode": "H_build"} if p else {}))
        snap[rank] = {k: dict(v) for k, v in hd[rank].items()}
        basis = fin.expand_basis(n, {k: dict(v) for k, v in hd[rank].items()}, op, basis0, restr, **({"parallelization_mode": "H_build"} if p else {}))
        h, idx = fin.expand_basis_and_hamiltonian(n, hd[rank], op, basis0, restr, **par)
        if not p:
            hdense, idx2 = fin.get_hamiltonian_matrix_from_h_dict(hd[rank], basis, mode="dense")
            return basis, h, idx, hdense, idx2
        return basis, h, idx, None, None
    out = X.spmd(p, body) if p else [body(X.world(), 0)]
    basis = out[0][0]
    X.claim(type(basis) is tuple, "basis is a tuple")
    X.claim(len(basis) >= len(basis0) and all(bool(X.same(a, b)) for a, b in zip(basis, basis0)), "starting states come first")
    X.claim(len(set(basis)) == len(basis), "no repetition")
    X.claim(set(basis) == set(want), "exactly the reachable product states", "%d %d" % (len(basis), len(want)))
    if set(basis) != set(want):
        return
    N = len(basis)
    total = {}
    for r, (b, h, idx, hdense, idx2) in enumerate(out):
        X.claim(len(b) == N and all(bool(X.same(x, y)) for x, y in zip(b, basis)), "same basis in the same order on rank %d" % r)
        X.claim(len(idx) == N and all(k in idx and idx[k] == i for i, k in enumerate(basis)), "index map is the inverse of the basis (rank %d)" % r)
        if idx2 is not None:
            X.claim(len(idx2) == N and all(k in idx2 and idx2[k] == i for i, k in enumerate(basis)), "index map is the inverse of the basis")
        a = h.toarray()
        X.claim(a.shape == (N, N), "matrix of the size of the basis")
        for i in range(N):
            for j in range(N):
                v = memo[basis[j]].get(basis[i])
                v = v[1] if v is not None else 0
                if cfg["local"]:
                    total[i, j] = total.get((i, j), 0) + a[i, j]
                    if r == W - 1:
                        X.claim(X.eq(total[i, j], v), "local matrices sum to the Hamiltonian")
                else:
                    X.claim(X.eq(a[i, j], v), "matrix is the Hamiltonian on the space (rank %d)" % r, "element %d,%d" % (i, j))
                if hdense is not None:
                    X.claim(X.eq(hdense[i, j], v), "dense matrix is the Hamiltonian on the space")
    # stored results
    for k in want:
        own = [r for r in range(W) if k in hd[r]]
        X.claim(len(own) == 1, "each product state's result is stored by exactly one rank", repr(own))
        if own:
            e = hd[own[0]][k]
            X.eq_dict(e, {s: v for s, (_, v) in memo[k].items()}, "stored result is the restricted Hamiltonian on that product state")
            X.claim(all(s in memo[k] for s in e), "stored result has no other product states")
    for r in range(W):
        for k, e in snap[r].items():
            X.claim(k in hd[r], "earlier results stay where they are")
            if k in hd[r]:
                X.eq_dict(hd[r][k], e, "earlier results unchanged")
    X.claim(list(op) == list(opb), "operator keeps its processes")
    X.eqs([(op[q], opb[q]) for q in opb if q in op], "operator argument unchanged")
