"""C08: get_basis is exactly the restricted configuration space."""
from collections import OrderedDict
METHOD = ("finite.get_basis is executed with symbolic bath sizes, valence-bath sizes, hole/electron limits, tolerances and nominal impurity occupations (every feasible value "
          "combination within the bounds is explored); for the returned basis z3 decides, over an arbitrary symbolic product state (all occupation bits symbolic), that it is a "
          "member exactly when it satisfies the occupation rules, and that an exception is raised exactly when some requested occupation is impossible.")
BOUNDS = "one shell l=0 with 0..3 bath orbitals (all six parameters symbolic); l=1,2 with given bath sizes and the other parameters symbolic; two and three shells with given sizes; up to 16 spin-orbitals."
OUTSIDE = "larger systems; several shells sharing one bath (get_basis does not support that description); negative bath numbers."
FULL = dict(nb=(0, 3), val=(0, 4), dv=(0, 2), dc=(0, 2), tol=(0, 3), n0=(-1, 3))
HISTORY = 8
HISTORY_OTHER = True


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(name, shells, w=1, **k):
        out.append(dict(name=name, shells=shells, weight=w, deadline=150 if not T else 600, **k))
    for nb in range(4):
        for val in range(nb + 2):
            add("s shell nb=%d val=%d" % (nb, val), [dict(l=0, nb=nb, val=val, dv=[0, 2], dc=[0, 2], tol=[0, 3], n0=[-1, 3])], w=10)
    add("s shell sizes symbolic", [dict(l=0, nb=[0, 4], val=[0, 4], dv=1, dc=1, tol=1, n0=[0, 2])], w=10)
    for nb, val in ((0, 0), (2, 1), (2, 2), (3, 2)):
        add("p shell nb=%d val=%d" % (nb, val), [dict(l=1, nb=nb, val=val, dv=[0, 2], dc=[0, 1], tol=[0, 2], n0=[-1, 7])], w=20)
    add("d shell nb=1 val=1", [dict(l=2, nb=1, val=1, dv=[0, 1], dc=[0, 1], tol=[0, 1], n0=[9, 11])], w=20)
    add("d shell nb=2 val=1", [dict(l=2, nb=2, val=1, dv=[0, 1], dc=[0, 1], tol=[0, 1], n0=[8, 10])], w=20)
    add("s,s-p shells", [dict(l=1, nb=0, val=0, dv=[0, 1], dc=0, tol=[0, 1], n0=[5, 7]), dict(l=0, nb=2, val=1, dv=[0, 1], dc=[0, 1], tol=[0, 1], n0=[0, 2])], w=30)
    add("s-p shells", [dict(l=0, nb=2, val=1, dv=[0, 1], dc=1, tol=1, n0=1), dict(l=1, nb=1, val=1, dv=[0, 1], dc=0, tol=[0, 1], n0=[4, 6])], w=30)
    add("p-d shells", [dict(l=1, nb=0, val=0, dv=0, dc=0, tol=0, n0=[5, 6]), dict(l=2, nb=1, val=1, dv=[0, 1], dc=0, tol=1, n0=[9, 10])], w=30)
    add("d-s order", [dict(l=2, nb=1, val=0, dv=0, dc=[0, 1], tol=1, n0=[9, 10]), dict(l=0, nb=1, val=1, dv=1, dc=0, tol=[0, 1], n0=1)], w=30)
    if T:
        add("s shell everything symbolic", [dict(l=0, nb=[0, 3], val=[0, 4], dv=[0, 3], dc=[0, 3], tol=[0, 3], n0=[-2, 4])], w=90)
        add("p shell nb=4 val=2", [dict(l=1, nb=4, val=2, dv=[0, 3], dc=[0, 3], tol=[0, 3], n0=[-1, 7])], w=90)
        add("d shell nb=4 val=3", [dict(l=2, nb=4, val=3, dv=[0, 2], dc=[0, 1], tol=[0, 2], n0=[8, 11])], w=90)
        add("three shells", [dict(l=0, nb=1, val=1, dv=[0, 1], dc=0, tol=1, n0=1), dict(l=1, nb=1, val=0, dv=0, dc=[0, 1], tol=1, n0=[5, 6]), dict(l=2, nb=0, val=0, dv=0, dc=0, tol=0, n0=[9, 11])], w=90)
    return out


def param(X, name, v):
    return X.int(name, v[0], v[1]) if isinstance(v, list) else v


def run(X, cfg):
    fin = X.world().ed("finite")
    P = []
    for s in cfg["shells"]:
        P.append(dict(l=s["l"], **{k: param(X, "%s%d" % (k, s["l"]), s[k]) for k in ("nb", "val", "dv", "dc", "tol", "n0")}))
    d = {k: OrderedDict((p["l"], p[k]) for p in P) for k in ("nb", "val", "dv", "dc", "tol", "n0")}
    X.reach("get_basis called")
    args = [d[k] for k in ("nb", "val", "dv", "dc", "tol", "n0")]
    basis, e = X.raises(fin.get_basis, *args)
    for p in P:
        for k in ("nb", "val", "dv", "dc", "tol", "n0"):
            X.claim(X.same(d[k][p["l"]], p[k]), "arguments unchanged")
    # is every requested occupation possible?
    possible = True
    for p in P:
        nb, val, l = p["nb"], p["val"], p["l"]
        possible = X.AND(possible, val <= nb)
        for hv in range(0, 5):
            for nc in range(0, 5):
                req = X.AND(hv <= p["dv"], nc <= p["dc"], abs(hv - nc) <= p["tol"])
                n = p["n0"] + (hv - nc)
                good = X.AND(hv <= val, nc <= nb - val, 0 <= n, n <= 2 * (2 * l + 1))
                possible = X.AND(possible, X.IMPLIES(req, good))
    X.claim(X.IFF(e is None, possible), "rejected exactly when a requested occupation is impossible", "raised %r" % (e,))
    if e is not None or not bool(possible):
        return
    # positions of the spin-orbitals (documented order)
    nbs = [int(p["nb"]) for p in P]
    pos, k = {}, 0
    for p in P:
        pos[p["l"]] = [list(range(k, k + 2 * (2 * p["l"] + 1)))]
        k += 2 * (2 * p["l"] + 1)
    for p, nb in zip(P, nbs):
        pos[p["l"]] += [list(range(k, k + nb))]
        k += nb
    N = k
    X.claim(len(set(basis)) == len(basis), "no product state twice")
    X.claim(all(len(s) == (N + 7) // 8 for s in basis), "product states have one bit per spin-orbital")
    bits = X.bits("state", N)
    member = X.OR(False, *[X.same(X.bytes(bits), s) for s in basis])
    rule = True
    for p in P:
        imp, bath = pos[p["l"]]
        v = int(p["val"])
        ni, nv, nc = (X.count([bits[j] for j in idx]) for idx in (imp, bath[:v], bath[v:]))
        hv = v - nv
        dn = hv - nc
        rule = X.AND(rule, X.same(ni, p["n0"] + dn), hv <= p["dv"], nc <= p["dc"], dn <= p["tol"], 0 - dn <= p["tol"])
    X.claim(X.IFF(member, rule), "the basis is exactly the set of allowed product states")
