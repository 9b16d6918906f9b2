"""C20: the assembled Hamiltonian is the sum of its parts in index form, and Hermitian."""
from checks import stubs
from checks.c17 import ref_op
from checks.c18 import lminus
METHOD = ("get_hamiltonian_operator (pickle file) and get_hamiltonian_operator_using_CF (json file) are executed with symbolic Slater integrals, couplings, double-counting correction, field and "
          "file operator (file access replaced by a stand-in); z3 decides that each normal-ordered matrix element of the result equals the sum of the independently computed parts, each "
          "coordinate translated to its index, that it is Hermitian, and that an error is raised exactly for a non-Hermitian file operator. finite.addOps is decided separately.")
BOUNDS = "one p and one d shell; bath layouts with 0-12 bath states, separate or shared; file operators with up to 12 processes; accidental zeros of sums not followed (then a term may be absent) except in the addOps and rejection configurations."
OUTSIDE = "the pickle and json formats; rounding (two products of the same floats in different order)."


LAYOUTS = {"p0 d10": {1: 0, 2: 10}, "p0 d20": {1: 0, 2: 20}, "p2 d3": {1: 2, 2: 3}, "d2 p1": {2: 2, 1: 1}, "shared": {(1, 2): 4}, "p0 d0": {1: 0, 2: 0}}



def configs(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        k.setdefault("max_coinc", 0)
        out.append(dict(name=name, deadline=200 if not T else 600, **k))
    for lay in ("p0 d10", "p2 d3", "d2 p1", "shared", "p0 d0"):
        add("all parameters symbolic, baths %s" % lay, kind="all", lay=lay, weight=20)
    add("only the file operator", kind="zero", lay="p2 d3")
    add("no d-d repulsion, other occupation", kind="all", lay="p0 d10", nd=3, weight=20)
    for z in ("hz", "hx hz", "hx hy", "hy hz", "hx hy hz", "xi2p", "xi3d", "xi2p xi3d", "c", "c hx hy hz xi3d", "Fdd", "Fpp", "Fpd", "Gpd", "Fpd Gpd", "Gpd1", "Gpd3", "Fdd0 Fpd0 Fpp0"):
        add("zero %s" % z, kind="all", lay="p2 d3", zeros=z.split(), weight=10)
    add("equal couplings", kind="all", lay="p0 d0", equal=True, weight=10)
    for w in ("z*", "z", "none", "diag", "bath"):
        add("rejection of a non-Hermitian operator: %s" % w, kind="reject", lay="p2 d3", what=w, max_coinc=3)
    for bb in ("spherical", "cubic"):
        for lay in ("p0 d10", "p0 d20"):
            add("crystal field file, %s bath basis, baths %s" % (bb, lay), kind="cf", lay=lay, bb=bb, weight=20)
    for bb in ("spherical", "cubic"):
        add("rounding of matrix products, %s bath basis" % bb, kind="noise", bb=bb, weight=20)
    for n in (0, 1, 2, 3):
        add("addOps of %d operators" % n, kind="add", n=n, max_coinc=3 if n < 3 else 1)
    for n in (2, 3, 4):
        for r in ("real", "complex"):
            add("addOps of %d operators with the same %s terms" % (n, r), kind="add", n=n, same=r, max_coinc=6)
    return out


def index(nBaths, orb):
    """impurity spin-orbitals of the shells in order (spin outer, m inner), then the baths"""
    i = 0
    for k in nBaths:
        for l in (k if isinstance(k, tuple) else (k,)):
            for s in (0, 1):
                for m in range(-l, l + 1):
                    if orb == (l, s, m):
                        return i
                    i += 1
    for k, n in nBaths.items():
        for b in range(n):
            if orb == (k, b):
                return i
            i += 1
    raise KeyError(orb)


def canonical(op):
    """normal-ordered one- and two-body coefficients"""
    one, two, bad = {}, {}, []
    for proc, v in op.items():
        t = [a for _, a in proc]
        o = [a for a, _ in proc]
        if t == ["c", "a"]:
            one[o[0], o[1]] = one.get((o[0], o[1]), 0) + v
        elif t == ["c", "c", "a", "a"]:
            i, j, k, l = o
            if i == j or k == l:
                bad.append(proc)
                continue
            s = 1
            if i > j:
                i, j, s = j, i, -s
            if k > l:
                k, l, s = l, k, -s
            two[i, j, k, l] = two.get((i, j, k, l), 0) + s * v
        else:
            bad.append(proc)
    return one, two, bad


def parts(X, nBaths, slater, xis, dc, h):
    """independent one- and two-body coefficients in index form (without the file operator)"""
    dd, pp, pd, g = slater
    two = {}
    for (i, j, k, l), v in ref_op([(2, 2, 2, 2, dd), (1, 1, 1, 1, pp), (1, 2, 2, 1, pd), (2, 1, 1, 2, pd), (1, 2, 1, 2, g), (2, 1, 2, 1, g)]).items():
        i, j, k, l = [index(nBaths, o) for o in (i, j, k, l)]
        s = 1
        if i > j:
            i, j, s = j, i, -s
        if k > l:
            k, l, s = l, k, -s
        two[i, j, k, l] = two.get((i, j, k, l), 0) + s * v
    one = {}

    def put(a, b, v):
        k = index(nBaths, a), index(nBaths, b)
        one[k] = one.get(k, 0) + v
    for l in (1, 2):
        for m in range(-l, l + 1):
            for s in (0, 1):
                put((l, s, m), (l, s, m), xis[l] * (m * (0.5 if s else -0.5)) - dc[l])
                if l == 2:
                    put((l, s, m), (l, s, m), h[2] * (0.5 if s else -0.5))
            if l == 2:
                put((l, 1, m), (l, 0, m), (h[0] - 1j * h[1]) * 0.5)
                put((l, 0, m), (l, 1, m), (h[0] + 1j * h[1]) * 0.5)
            if m < l:
                put((l, 1, m), (l, 0, m + 1), xis[l] * 0.5 * lminus(X, l, m + 1))
                put((l, 0, m + 1), (l, 1, m), xis[l] * 0.5 * lminus(X, l, m + 1))
    return one, two


def file_operator(X, nBaths, sym=True):
    """Hermitian coordinate-form operator overlapping with the other parts"""
    op = {}
    first = list(nBaths)[-1]
    bath = [(k, b) for k, n in nBaths.items() for b in range(n)][-2:]
    pairs = [((2, 0, 1), (2, 1, 0)), ((2, 1, -2), (2, 1, -2)), ((2, 0, 2), (2, 0, 2)), ((2, 1, 1), (2, 0, 1)), ((1, 0, 0), (1, 0, 0)), ((2, 0, -2), (2, 0, 2)), ((1, 1, -1), (1, 0, 0))]
    for b in bath:
        pairs += [((2, 1, 0), b), (b, b)]
    if len(bath) == 2:
        pairs.append((bath[0], bath[1]))
    for k, (a, b) in enumerate(pairs):
        if a == b:
            op[(a, "c"), (a, "a")] = X.real("h0_%d" % k, -20, 20)
        else:
            v = X.cplx("h0_%d" % k, -20, 20)
            op[(a, "c"), (b, "a")] = v
            op[(b, "c"), (a, "a")] = X.conj(v)
    return op


def run(X, cfg):
    if cfg["kind"] == "add":
        return add_ops(X, cfg)
    if cfg["kind"] == "noise":
        return noise(X, cfg)
    nBaths = dict(LAYOUTS[cfg["lay"]])
    from collections import OrderedDict
    nB = OrderedDict(nBaths)
    nVal = OrderedDict((k, min(n, 10)) for k, n in nBaths.items())
    nd = cfg.get("nd", 8)
    if cfg["kind"] in ("all", "cf"):
        slater = [[X.real("%s%d" % (f, k), -50, 50) if (k % 2 == 0) != (f == "Gpd") else 0 for k in range(n)] for f, n in (("Fdd", 5), ("Fpp", 3), ("Fpd", 3), ("Gpd", 4))]
        xis = {1: X.real("xi2p"), 2: X.real("xi3d")}
        c = X.real("c")
        h = [X.real("hx"), X.real("hy"), X.real("hz")]
        zeros = cfg.get("zeros", ())
        h = [0 if "h" + a in zeros else v for a, v in zip("xyz", h)]
        xis = {l: 0 if k in zeros else xis[l] for l, k in ((1, "xi2p"), (2, "xi3d"))}
        c = 0 if "c" in zeros else c
        slater = [[0 if f in zeros or "%s%d" % (f, k) in zeros else v for k, v in enumerate(r)] for f, r in zip(("Fdd", "Fpp", "Fpd", "Gpd"), slater)]
        if cfg.get("equal"):
            xis[2] = xis[1]
            h = [h[0]] * 3
            slater[2] = slater[0][:3]
            slater[1] = slater[0][:3]
    else:
        slater, xis, c, h = [[0] * 5, [0] * 3, [0] * 3, [0] * 4], {1: 0, 2: 0}, 0, [0, 0, 0]
        if cfg["kind"] == "reject":
            slater, xis, c, h = [[7, 0, 9, 0, 6], [0, 0, 0], [8, 0, 6], [0, 5, 0, 3]], {1: 11.5, 2: 0.25}, 1.5, [0, 0, 0.125]
    if cfg["kind"] == "cf":
        params = {n: X.real(n, lo, hi) for n, lo, hi in (("e_imp", -5, 5), ("e_deltaO_imp", -3, 3), ("e_val_eg", -9, 9), ("e_val_t2g", -9, 9), ("e_con_eg", -9, 9), ("e_con_t2g", -9, 9),
                                                       ("v_val_eg", -3, 3), ("v_val_t2g", -3, 3), ("v_con_eg", -3, 3), ("v_con_t2g", -3, 3))}
        w = X.world(**stubs.jsonfile("cf.json", params))
        m = w.ed("get_spectra_using_CF")
        h0 = m.get_CF_hamiltonian(nB, nVal, "cf.json", cfg["bb"])
        h0copy = dict(h0)
        op, ex = X.raises(lambda: m.get_hamiltonian_operator_using_CF(nB, nVal, [list(s) for s in slater], [xis[1], xis[2]], [{1: 6, 2: nd}, c], tuple(h), "cf.json", cfg["bb"]))
    else:
        if cfg["kind"] == "reject":
            what = cfg["what"]
            z = X.cplx("z", -5, 5)
            X.assume(X.OR(z.real >= 0.01, z.imag >= 0.01))
            X.assume(X.OR(X.same(z.imag, 0), z.imag >= 0.01, z.imag <= -0.01))    # rounding errors are not judged
            a, b = ((2, 0, 1), (2, 1, -1)) if what != "bath" else ((2, 0, 0), (2, 1))
            h0 = {((a, "c"), (b, "a")): z}
            if what == "diag":
                h0 = {((a, "c"), (a, "a")): z}
                good = X.same(z.imag, 0)
            elif what == "none":
                good = False
            else:
                y = X.cplx("y", -5, 5)
                X.assume(X.OR(y.real >= 0.01, y.imag >= 0.01))
                X.assume(X.OR(X.same(y, z), X.same(y, X.conj(z)), (y.real - z.real) >= 0.01))
                h0[(b, "c"), (a, "a")] = y
                good = X.same(y, X.conj(z))
                if what == "z":
                    h0[((1, 0, 0), "c"), ((1, 0, 0), "a")] = 0
        else:
            h0 = file_operator(X, nBaths)
        h0copy = dict(h0)
        w = X.world(**stubs.pickled("h0.pickle", h0))
        m = w.ed("get_spectra")
        op, ex = X.raises(lambda: m.get_hamiltonian_operator(nB, nVal, [list(s) for s in slater], [xis[1], xis[2]], [{1: 6, 2: nd}, c], tuple(h), "h0.pickle"))
    X.reach("operator")
    if cfg["kind"] == "reject":
        X.claim(X.IFF(good, ex is None), "a non-Hermitian operator is rejected, a Hermitian one accepted", "exception %r" % ex)
        if ex is not None:
            return
    else:
        X.claim(ex is None, "a Hermitian input is accepted", repr(ex))
        if ex is not None:
            return
    dd, pp, pd, g = slater
    udd = dd[0] - (dd[2] + dd[4]) * 14 / 441
    upd = pd[0] - g[1] / 15 - g[3] * 3 / 70
    dc = {2: udd * nd + upd * 6 - c, 1: upd * (nd + 1) - c}
    one, two = parts(X, nBaths, slater, xis, dc, h)
    for ((a, _), (b, _)), v in h0copy.items():
        k = index(nBaths, a), index(nBaths, b)
        one[k] = one.get(k, 0) + v
    g1, g2, bad = canonical(op)
    X.claim(not bad, "one- and two-electron processes only", repr(bad[:2]))
    for ref, got, lab in ((one, g1, "one-electron element is the sum of the parts"), (two, g2, "two-electron element is the Coulomb operator")):
        for k in sorted(set(ref) | set(got)):
            X.claim(X.eq(got.get(k, 0), ref.get(k, 0)), lab, repr(k))
    for k, v in g1.items():
        X.claim(X.eq(v, X.conj(g1.get((k[1], k[0]), 0) + 0)), "Hermitian", repr(k))
    for k, v in g2.items():
        X.claim(X.eq(v, X.conj(g2.get((k[2], k[3], k[0], k[1]), 0) + 0)), "Hermitian", repr(k))


NOISE = dict(zip(("e_imp", "e_deltaO_imp", "e_val_eg", "e_val_t2g", "e_con_eg", "e_con_t2g", "v_val_eg", "v_val_t2g", "v_con_eg", "v_con_t2g"),
                 (3.358, -0.672, 2.623, -4.979, -0.546, 2.215, -2.712, 4.453, 4.014, -4.694)))


def noise(X, cfg):
    """each element of every matrix product may be off by a rounding error; the operator is still accepted"""
    import numpy as np
    from collections import OrderedDict
    count = [0]

    def noisy(a, b):
        r = np.asarray(np.dot(a, b)).astype(object)
        for k in np.ndindex(*r.shape):
            count[0] += 1
            r[k] = r[k] + X.real("eps%d" % count[0], -1e-14, 1e-14) + 1j * X.real("eps%di" % count[0], -1e-14, 1e-14)
        return X.array(r)
    w = X.world(numpy_extra={"dot": noisy, "matmul": noisy}, **stubs.jsonfile("cf.json", NOISE))
    m = w.ed("get_spectra_using_CF")
    z = [0] * 5
    op, ex = X.raises(lambda: m.get_hamiltonian_operator_using_CF(OrderedDict({1: 0, 2: 20}), OrderedDict({1: 0, 2: 10}), [z] * 4, [0, 0], [{1: 6, 2: 8}, 0], (0, 0, 0), "cf.json", cfg["bb"]))
    X.reach("operator")
    X.claim(ex is None, "an operator that is Hermitian up to rounding errors is accepted", repr(ex))


def add_ops(X, cfg):
    fi = X.world().ed("finite")
    keys = [((0, "c"), (1, "a")), ((1, "c"), (1, "a")), ((0, "c"), (2, "c"), (2, "a"), (0, "a"))]
    ops = []
    for i in range(cfg["n"]):
        ops.append({keys[(i + k) % 3]: X.cplx("v%d_%d" % (i, k), -9, 9) if i < 2 else X.real("v%d_%d" % (i, k)) for k in range(2)})
    if cfg.get("same"):
        ops = [{keys[1]: X.real("w%d" % i) if cfg["same"] == "real" else X.cplx("w%d" % i)} for i in range(cfg["n"])]
    before = [dict(o) for o in ops]
    s = fi.addOps(ops)
    X.reach("sum")
    for k in keys:
        t = 0
        for o in before:
            if k in o:
                t = t + o[k]
        X.claim(X.eq(s.get(k, 0), t), "terms that occur in several operators add up", repr(k))
    X.claim(all(k in keys for k in s), "no other terms")
    for a, b in zip(ops, before):
        X.eq_dict(a, b, "operands unchanged")
