"""C21: the crystal-field Hamiltonian has the requested levels and hybridisation."""
from checks import stubs
METHOD = ("get_CF_hamiltonian / read_h0_CF_file (json file replaced by a stand-in, presence of each parameter symbolic) are executed with symbolic crystal-field parameters and exact square roots; "
          "z3 decides that impurity block, bath block and hopping equal the symmetry projectors weighted with the requested levels, that the hopping/bath moments (hybridisation function) are those of "
          "the requested parameters in either bath basis, and that nothing else is present. get_spherical_2_cubic_matrix is decided exactly.")
BOUNDS = "all real values of the ten parameters (accidental cancellations to exactly 0 not followed, explicit zeros and equal values included); 10 or 20 d bath states, with or without p shell; every subset of missing parameters within groups of 3-4."
OUTSIDE = "the json format; rounding."
NAMES = ("e_imp", "e_deltaO_imp", "e_val_eg", "e_val_t2g", "e_con_eg", "e_con_t2g", "v_val_eg", "v_val_t2g", "v_con_eg", "v_con_t2g")
DEFAULT = dict(zip(NAMES, (-1.31796, 0.60422, -4.4, -6.5, 3, 2, 1.883, 1.395, 0.6, 0.4)))



def configs(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        k.setdefault("max_coinc", 0)
        out.append(dict(name=name, exact_sqrt=True, deadline=200 if not T else 600, **k))
    for bb in ("spherical", "cubic"):
        for nb in ({1: 0, 2: 10}, {1: 0, 2: 20}) + (({2: 20}, {2: 15}, {1: 3, 2: 20}) if T or bb == "cubic" else ()):
            add("all parameters, %s bath basis, baths %s" % (bb, nb), bb=bb, nb=list(nb.items()), missing=(), weight=9)
        for z in ("v_con_eg v_con_t2g", "v_val_eg", "e_con_eg e_con_t2g", "e_deltaO_imp", "e_imp e_deltaO_imp e_val_eg e_val_t2g"):
            add("%s zero, %s bath basis" % (z, bb), bb=bb, nb=[(1, 0), (2, 20)], missing=(), zero=z.split())
        for a, b in (("e_val_eg", "e_val_t2g"), ("v_val_eg", "v_val_t2g"), ("e_val_eg", "e_con_eg"), ("v_con_eg", "v_val_eg")):
            add("%s equal to %s, %s bath basis" % (a, b, bb), bb=bb, nb=[(1, 0), (2, 20)], missing=(), equal=(a, b))
    for k, g in enumerate((NAMES[:4], NAMES[4:7], NAMES[7:])):
        for bb in ("spherical", "cubic") if T else (("cubic", "spherical", "cubic")[k],):
            add("subsets of %s missing, %s bath basis" % (", ".join(g), bb), bb=bb, nb=[(1, 0), (2, 20)], missing=g, weight=12)
    add("empty parameter file", bb=None, nb=[(1, 0), (2, 20)], missing="all")
    for l in (1, 2):
        for sp in (False, True):
            add("rotation matrix l=%d spinpol %s" % (l, sp), kind="u", l=l, sp=sp)
    return out


def projectors(X):
    h = X.rat(1, 2)
    eg = {(0, 0): 1, (2, 2): h, (-2, -2): h, (2, -2): h, (-2, 2): h}
    t2 = {(1, 1): 1, (-1, -1): 1, (2, 2): h, (-2, -2): h, (2, -2): -h, (-2, 2): -h}
    R = range(-2, 3)
    return ([[eg.get((i, j), 0) for j in R] for i in R], [[t2.get((i, j), 0) for j in R] for i in R])


def rotation(X, cfg):
    l, sp = cfg["l"], cfg["sp"]
    fi = X.world().ed("finite")
    u = fi.get_spherical_2_cubic_matrix(sp, l) if sp else fi.get_spherical_2_cubic_matrix(l=l)
    n = 2 * l + 1
    X.reach("matrix")
    X.claim(tuple(u.shape) == ((2 * n, 2 * n) if sp else (n, n)), "shape")
    if sp:
        for i in range(n):
            for j in range(n):
                X.claim(X.eq(u[i, n + j], 0), "spin diagonal", repr((i, j)))
                X.claim(X.eq(u[n + i, j], 0), "spin diagonal", repr((i, j)))
                X.claim(X.eq(u[n + i, n + j], u[i, j]), "same rotation for both spins", repr((i, j)))
    r = X.sqrt(X.rat(1, 2))
    if l == 1:
        kub = [{0: 1}, {-1: r, 1: -r}, {-1: 1j * r, 1: 1j * r}]
        sets = [(0, 1, 2)]
    else:
        kub = [{0: 1}, {-2: r, 2: r}, {-1: r, 1: -r}, {-1: 1j * r, 1: 1j * r}, {-2: 1j * r, 2: -1j * r}]
        sets = [(0, 1), (2, 3, 4)]
    for cols in sets:      # eg columns first, then t2g
        for m in range(-l, l + 1):
            for mp in range(-l, l + 1):
                a = b = 0
                for k in cols:
                    a = a + u[m + l, k] * X.conj(u[mp + l, k] + 0)
                    b = b + kub[k].get(m, 0) * X.conj(kub[k].get(mp, 0) + 0j)
                X.claim(X.eq(a, b), "columns span the cubic symmetry subspace", repr((m, mp)))
        # each column is one cubic harmonic up to a phase, each cubic harmonic once
        for k in cols:
            for q in cols:
                o = 0
                for m in range(-l, l + 1):
                    o = o + X.conj(kub[q].get(m, 0) + 0j) * u[m + l, k]
                w = o * X.conj(o + 0j)
                X.claim(X.OR(X.eq(w, 0), X.eq(w, 1)), "each column is one cubic harmonic", repr((k, q)))


def run(X, cfg):
    if cfg.get("kind") == "u":
        return rotation(X, cfg)
    from collections import OrderedDict
    params, val = {}, {}
    for n in NAMES:
        if cfg["missing"] == "all" or (n in cfg["missing"] and X.bool("missing_" + n)):
            val[n] = DEFAULT[n]
            continue
        val[n] = 0 if n in cfg.get("zero", ()) else X.real(n, -9, 9)
        if cfg.get("equal", (0, 0))[0] == n:
            val[n] = X.real(cfg["equal"][1], -9, 9)
        params[n] = val[n]
    for n in NAMES:
        if n in params and cfg.get("equal", (0, 0))[1] == n:
            params[n] = val[n] = val[cfg["equal"][0]]
    nB = OrderedDict([tuple(p) for p in cfg["nb"]])
    nVal = OrderedDict((k, min(v, 10)) for k, v in nB.items())
    w = X.world(**stubs.jsonfile("cf.json", params))
    m = w.ed("get_spectra_using_CF")
    bb = cfg["bb"]
    op = m.get_CF_hamiltonian(nB, nVal, "cf.json", bb) if bb else m.get_CF_hamiltonian(nB, nVal, "cf.json")
    X.reach("operator")
    bb = bb or "spherical"
    X.claim(dict(nB) == dict([tuple(p) for p in cfg["nb"]]), "bath layout unchanged")
    con = nB[2] - nVal[2] == 10
    orbs = {(2, s, q): ("i", s, q + 2) for s in (0, 1) for q in range(-2, 3)}
    orbs.update({(2, b): ("v", b // 5, b % 5) for b in range(10)})
    if con:
        orbs.update({(2, b): ("c", (b - 10) // 5, b % 5) for b in range(10, 20)})
    H = {}
    for proc, v in op.items():
        ok = len(proc) == 2 and proc[0][1] == "c" and proc[1][1] == "a" and proc[0][0] in orbs and proc[1][0] in orbs
        X.claim(ok, "one-electron process within the d shell and its baths", repr(proc))
        if not ok:
            continue
        a, b = orbs[proc[0][0]], orbs[proc[1][0]]
        H[a, b] = v
        if a[1] != b[1] or {a[0], b[0]} == {"v", "c"}:
            X.claim(X.eq(v, 0), "no coupling between spins or between valence and conduction bath", repr(proc))
    eg, t2 = projectors(X)
    val["eg"] = val["e_imp"] + X.rat(3, 5) * val["e_deltaO_imp"]
    val["t2"] = val["e_imp"] - X.rat(2, 5) * val["e_deltaO_imp"]
    R = range(5)

    def get(a, b, s):
        return [[H.get(((a, s, i), (b, s, j)), 0) + 0 for j in R] for i in R]

    def mul(A, B):
        return [[sum_([A[i][k] * B[k][j] for k in R]) for j in R] for i in R]

    def sum_(v):
        t = 0
        for x in v:
            if not (isinstance(x, (int, float)) and x == 0):
                t = t + x
        return t

    def dag(A):
        return [[X.conj(A[j][i] + 0) for j in R] for i in R]

    def both(x, y):
        return [[x * eg[i][j] + y * t2[i][j] for j in R] for i in R]

    def same(A, B, label, what):
        for i in R:
            for j in R:
                X.claim(X.eq(A[i][j], B[i][j]), label, "%s %r" % (what, (i, j)))
    for s in (0, 1):
        same(get("i", "i", s), both(val["eg"], val["t2"]), "d-shell levels eg at e_imp+3/5 delta, t2g at e_imp-2/5 delta", "spin %d" % s)
        for c, nm in (("v", "val"),) + ((("c", "con"),) if con else ()):
            what = "%s spin %d" % (nm, s)
            E, V, W = get(c, c, s), get(c, "i", s), get("i", c, s)
            e1, e2, v1, v2 = (val[x % nm] for x in ("e_%s_eg", "e_%s_t2g", "v_%s_eg", "v_%s_t2g"))
            same(W, dag(V), "Hermitian", what)
            same(E, dag(E), "Hermitian", what)
            if bb == "spherical":
                same(E, both(e1, e2), "bath levels", what)
                same(V, both(v1, v2), "hopping to the impurity orbital of the same symmetry", what)
            else:
                for i in R:
                    for j in R:
                        X.claim(X.eq(E[i][j], (e1 if i < 2 else e2) if i == j else 0), "bath levels: two eg, three t2g orbitals", "%s %r" % (what, (i, j)))
            # V P_eg lives on the eg bath states only and so on: (E - e) V P = 0
            for P, e, lab in ((eg, e1, "eg"), (t2, e2, "t2g")):
                VP = mul(V, P)
                EVP = mul(E, VP)
                same(EVP, [[VP[i][j] * e for j in R] for i in R], "impurity orbitals couple to bath states of their symmetry", what + lab)
            same(mul(W, V), both(v1 * v1, v2 * v2), "hybridisation strength", what)
            same(mul(W, mul(E, V)), both(v1 * v1 * e1, v2 * v2 * e2), "first moment of the hybridisation function", what)
