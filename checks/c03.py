"""C03: applyOp without cache is the exact second-quantised action."""
from checks.opref import apply_op, allowed_fn, check_state
METHOD = ("finite.applyOp is executed on many-body states whose product states (all occupation bits) and complex amplitudes are symbolic, with operators of fixed "
          "process structure and symbolic complex strengths; every branch (occupations, signs, coinciding product states, restrictions, cutoff) is explored and the result "
          "is compared (z3) with an independent reference of the rightmost-first action.")
BOUNDS = ("n = 4..12 spin-orbitals, states of 1-3 product states, operators of 1-5 processes of length 0-4 (one-, two-body, number-changing, repeated indices, byte "
          "boundary), 0-3 restrictions with symbolic bounds, cutoff default, symbolic or zero.")
OUTSIDE = "larger systems and longer operators; rounding of amplitudes."

OPS = {
    "hop": [((0, "c"), (1, "a")), ((1, "c"), (0, "a")), ((2, "c"), (2, "a"))],
    "hop3": [((0, "c"), (3, "a")), ((3, "c"), (0, "a")), ((1, "c"), (3, "a"))],
    "two-body": [((0, "c"), (2, "c"), (3, "a"), (1, "a")), ((1, "c"), (3, "c"), (2, "a"), (0, "a"))],
    "repeated": [((1, "c"), (1, "a"), (2, "c"), (2, "a")), ((2, "a"), (1, "c"), (1, "a"))],
    "order": [((3, "a"), (0, "c")), ((0, "c"), (3, "a")), ((1, "a"), (1, "c"))],
    "create": [((0, "c"),), ((3, "c"),), ((1, "a"),)],
    "identity": [(), ((2, "c"), (2, "a"))],
    "odd": [((0, "c"), (1, "c"), (2, "a")), ((2, "c"),)],
    "boundary": [((7, "c"), (8, "a")), ((8, "c"), (0, "a")), ((8, "c"), (8, "a"))],
    "boundary2": [((8, "c"), (7, "c"), (1, "a"), (0, "a")), ((9, "a"), (8, "c"))],
    "many": [((0, "c"), (1, "a")), ((1, "c"), (2, "a")), ((2, "c"), (3, "a")), ((3, "c"), (0, "a")), ((1, "c"), (1, "a"))],
}


def configs(tier):
    out = []
    T = tier == "thorough"

    def add(op, n, m, cut="zero", res=(), w=1, **k):
        out.append(dict(name="%s n=%d states=%d cut=%s restrictions=%s" % (op, n, m, cut, "none" if res is None else list(res)), op=op, n=n, m=m, cut=cut,
                        res=None if res is None else [list(r) for r in res], weight=w, deadline=220 if not T else 500, **k))
    for op in OPS:
        n = 10 if op.startswith("boundary") else 4
        add(op, n, 1, "default", None, w=2)
        add(op, n, 1, "sym", None, w=3)
        add(op, n, 1, "default", [[0, 1]], w=5)
        if op not in ("many",) or T:
            k = dict(sym=[0, 1, 2, 7, 8]) if n == 10 and not T else {}
            add(op, n, 2, "zero", None, w=20, **k)
            add(op, n, 2, "zero", [[0, 2]], w=30, **k)
    add("hop", 4, 2, "sym", None, w=30)
    add("hop", 3 if not T else 4, 2, "default", [[0, 1], [2]], w=50)
    add("two-body", 5, 1, "default", [[0, 1], [1, 2], [3, 4]], w=20)
    add("create", 9, 2, "default", None, w=20, **({} if T else dict(sym=[0, 3, 7, 8])))
    add("hop", 12, 1, "sym", [[0, 1, 8], [9, 11]], w=20, **({} if T else dict(sym=[0, 1, 2, 8, 9])))
    if T:
        add("many", 5, 2, "sym", [[0, 3]], w=90)
        add("hop", 4, 3, "zero", None, w=90)
        add("hop3", 5, 3, "zero", [[0, 1]], w=90)
        add("two-body", 5, 3, "zero", [[0, 4]], w=90)
        add("create", 5, 3, "sym", None, w=90)
        add("boundary2", 12, 2, "sym", [[0, 8], [7, 9]], w=90)
    return out


def bits_in(X, name, n, sym=None):
    """occupation bits; with sym given only those are symbolic, the others alternate"""
    if sym is None:
        return X.bits(name, n)
    b = X.bits(name, len(sym))
    return [b[sym.index(i)] if i in sym else i % 2 == 0 for i in range(n)]


def state_in(X, n, m, tag="s", sym=None):
    """m distinct symbolic product states with complex amplitudes"""
    keys = []
    for k in range(m):
        b = bits_in(X, "%s%d" % (tag, k), n, sym)
        for c in keys:
            X.assume(X.NOT(X.same(X.bytes(b), X.bytes(c))))
        keys.append(b)
    return [(b, X.cplx("%s%d.amp" % (tag, k))) for k, b in enumerate(keys)]


def restrictions_in(X, cfg):
    if cfg["res"] is None:
        return None
    n = cfg["n"]
    out = []
    for k, idx in enumerate(cfg["res"]):
        out.append((idx, X.int("lo%d" % k, 0, len(idx) + 1), X.int("hi%d" % k, 0, len(idx) + 1)))
    return out


def run(X, cfg):
    n = cfg["n"]
    fin = X.world().ed("finite")
    psi = state_in(X, n, cfg["m"], sym=cfg.get("sym"))
    op = {p: X.cplx("h%d" % k) for k, p in enumerate(OPS[cfg["op"]])}
    res = restrictions_in(X, cfg)
    cut = {"default": 1e-12, "zero": 0, "sym": None}[cfg["cut"]]
    if cut is None:
        cut = X.real("cutoff", 0, 4)
    arg = {X.bytes(b): a for b, a in psi}
    before, opb = dict(arg), dict(op)
    kw = {} if cfg["cut"] == "default" else {"slaterWeightMin": cut}
    if res is not None:
        kw["restrictions"] = {X.idxset(i): (lo, hi) for i, lo, hi in res}
    X.reach("applyOp called")
    got = fin.applyOp(n, op, arg, **kw)
    full = apply_op(X, opb, psi, allowed_fn(X, res) if res is not None else None)
    check_state(X, got, full, cut, "applyOp")
    X.claim(len(arg) == len(before) and all(k in arg for k in before), "state argument keeps its product states")
    X.eq_dict(arg, before, "state argument unchanged")
    X.claim(list(op) == list(opb), "operator keeps its processes")
    X.eqs([(op[p], opb[p]) for p in opb if p in op], "operator argument unchanged")
