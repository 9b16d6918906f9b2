"""C04: applyOp with a result cache is transparent and the cache is exact."""
from checks.opref import apply_op, allowed_fn, check_state, abs2
from checks.c03 import bits_in, OPS
METHOD = ("finite.applyOp is executed on sequences of states sharing one cache (opResult), with symbolic product states (so later states may or may not repeat earlier "
          "product states), symbolic complex amplitudes and strengths; every branch is explored.  z3 decides that every returned state equals an independent uncached "
          "reference and that the cache equals, entry by entry, the reference action on that product state with small elements left out, after every step.")
BOUNDS = "n = 3..10 spin-orbitals; sequences of 1-3 applications of states with 1-2 product states; operators of 2-5 processes; restrictions with concrete and symbolic bounds; cutoff default, zero or symbolic."
OUTSIDE = "longer histories; larger systems; the cache being shared between different operators or restrictions (not promised)."


def configs(tier):
    out = []
    T = tier == "thorough"

    def add(op, n, seq, cut="zero", res=(), w=1, **k):
        out.append(dict(name="%s n=%d sequence=%s cut=%s restrictions=%s%s" % (op, n, "-".join(map(str, seq)), cut, res, " symbolic bounds" if k.get("symres") else ""),
                        op=op, n=n, seq=list(seq), cut=cut, res=res, weight=w, deadline=220 if not T else 500, **k))
    for op in ("hop", "two-body", "repeated", "order", "create", "identity", "odd", "many"):
        add(op, 4, (1, 1), "zero", None, w=10)
        add(op, 4, (1, 1), "zero", [[[0, 1], 0, 1], [[2, 3], 1, 2]], w=10)
        add(op, 4, (1,), "sym", None, w=10)
        add(op, 4, (1,), "sym", [[[0, 2], 1, 2]], w=10)
    add("hop", 3, (2, 1), "zero", None, w=30)
    add("hop", 3, (1, 2), "zero", [[[0, 1], 0, 1]], w=30)
    add("hop", 3, (2, 2), "zero", None, w=60, sym=[0, 1])
    add("hop", 3, (1, 1), "default", None, w=30)
    add("hop", 3, (1, 1, 1), "zero", [[[1, 2], 1, 1]], w=50)
    add("two-body", 4, (2,), "zero", [[[0, 2], 1, 1]], w=50, sym=[0, 1, 2])
    add("create", 4, (2, 1), "zero", None, w=30, sym=[0, 1, 3])
    add("boundary", 10, (1, 1), "zero", None, w=20, sym=[0, 1, 7, 8])
    add("boundary", 10, (1, 1), "default", [[[0, 8, 9], 1, 2]], w=20, sym=[0, 7, 8])
    add("hop", 4, (1, 1), "zero", [[[0, 1], 0, 1], [[0, 3], 0, 1]], symres=True, w=50)
    if T:
        add("hop3", 4, (2, 2), "zero", None, w=90)
        add("many", 4, (2, 1), "default", [[[0, 3], 1, 1]], w=90)
        add("two-body", 4, (2, 2), "zero", [[[0, 2], 1, 1]], w=90)
        add("repeated", 4, (1, 2, 1), "zero", None, w=90)
        add("odd", 4, (2, 2), "zero", [[[0, 2, 3], 1, 2]], w=90)
        add("boundary2", 12, (1, 1, 1), "sym", None, w=90, sym=[0, 1, 7, 8, 9])
    # the operator's terms 3 -> 0 and 0 -> 3 need spin-orbital 3
    for c in out:
        need = 1 + max([i for p in OPS[c["op"]] for i, _ in p], default=0)
        if c["n"] < need:
            c["n"] = need
            c["name"] += " (n=%d)" % need
    return out


def run(X, cfg):
    n = cfg["n"]
    fin = X.world().ed("finite")
    op = {p: X.cplx("h%d" % k) for k, p in enumerate(OPS[cfg["op"]])}
    cut = {"default": 1e-12, "zero": 0, "sym": None}[cfg["cut"]]
    if cut is None:
        cut = X.real("cutoff", 0, 4)
    res = None
    if cfg["res"] is not None:
        res = []
        for k, (idx, lo, hi) in enumerate(cfg["res"]):
            if cfg.get("symres"):
                lo, hi = X.int("lo%d" % k, 0, len(idx)), X.int("hi%d" % k, 0, len(idx))
            res.append((idx, lo, hi))
    allowed = allowed_fn(X, res) if res is not None else None
    cache, seen = {}, {}
    opb = dict(op)
    for t, m in enumerate(cfg["seq"]):
        psi = []
        for k in range(m):
            b = bits_in(X, "p%d%d" % (t, k), n, cfg.get("sym"))
            for c, _ in psi:
                X.assume(X.NOT(X.same(X.bytes(b), X.bytes(c))))
            psi.append((b, X.cplx("amp%d%d" % (t, k))))
        arg = {X.bytes(b): a for b, a in psi}
        before = dict(arg)
        kw = {} if cfg["cut"] == "default" else {"slaterWeightMin": cut}
        if res is not None:
            kw["restrictions"] = {X.idxset(i): (lo, hi) for i, lo, hi in res}
        X.reach("step %d" % t)
        got = fin.applyOp(n, op, arg, opResult=cache, **kw)
        # reference
        large = True
        for b, a in psi:
            k = X.bytes(b)
            if k not in seen:
                el = {s: v for s, (_, v) in apply_op(X, opb, [(b, 1)], allowed).items()}
                ref = {}
                for s, v in el.items():
                    if bool(abs2(X, v) < cut):
                        continue
                    ref[s] = v
                seen[k] = (ref, len(ref) == len(el))
            large = large and seen[k][1]
        if large:
            full = apply_op(X, opb, psi, allowed)
            check_state(X, got, full, cut, "step %d: result with cache" % t)
        X.claim(set(cache) == set(seen) and len(cache) == len(seen), "step %d: the cache knows exactly the product states seen" % t)
        for k, (ref, _) in seen.items():
            if k in cache:
                X.eq_dict(cache[k], ref, "step %d: cache entry is the operator acting on that product state" % t)
        X.claim(len(arg) == len(before) and all(k in arg for k in before), "state argument keeps its product states")
        X.eq_dict(arg, before, "state argument unchanged")
    X.claim(list(op) == list(opb), "operator keeps its processes")
    X.eqs([(op[p], opb[p]) for p in opb if p in op], "operator argument unchanged")
