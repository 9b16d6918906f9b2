"""C18: spin-orbit and magnetic-field operators are the angular momentum operators."""
METHOD = ("finite.getSOCop and finite.gethHfieldop are executed with symbolic coupling / field components and a symbolic shell; z3 decides every matrix element of the operator against xi l.s and h.S "
          "built independently from ladder-operator products, Hermiticity, and that nothing outside the shell appears.")
BOUNDS = "shells l = 0..3 (thorough 0..6); all real couplings and fields."
OUTSIDE = "rounding."
HISTORY = 6


def configs(tier):
    L = 3 if tier != "thorough" else 6
    out = []
    for kind in ("soc", "field"):
        for l in [("sym", L)] + [(i, i) for i in range(L + 1)] + ["default"]:
            out.append(dict(name="%s operator shell %s" % (kind, l if l == "default" else "symbolic 0-%d" % L if l[0] == "sym" else l[0]), kind=kind, l=l, max_coinc=0, deadline=120))
    for zero in ("x", "y", "z", "xy", "yz"):
        out.append(dict(name="field operator shell 2, no field along %s" % zero, kind="field", l=(2, 2), zero=zero, max_coinc=0, deadline=120))
    out.append(dict(name="integer field", kind="field", l=(1, 1), ints=True, max_coinc=0, deadline=120))
    out.append(dict(name="integer coupling", kind="soc", l=(2, 2), ints=True, max_coinc=0, deadline=120))
    return out


def lminus(X, l, m):
    """<m-1|l-|m>"""
    v = l * (l + 1) - m * (m - 1)
    return X.sqrt(X.rat(v)) if v > 0 else 0


def run(X, cfg):
    fi = X.world().ed("finite")
    kw = {}
    if cfg["l"] == "default":
        l = 2
    else:
        l = X.int("l", 0, cfg["l"][1]) if cfg["l"][0] == "sym" else cfg["l"][0]
        kw["l"] = l
    if cfg["kind"] == "soc":
        xi = X.int("xi", -3, 3) if cfg.get("ints") else X.real("xi")
        op = fi.getSOCop(xi, **kw)
    else:
        h = [0 if c in cfg.get("zero", "") else X.int("h" + c, -3, 3) if cfg.get("ints") else X.real("h" + c) for c in "xyz"]
        op = fi.gethHfieldop(*h, **kw)
    l = int(l)
    X.reach("operator")
    states = [(l, s, m) for s in (0, 1) for m in range(-l, l + 1)]
    mat, bad = {}, []
    for proc, v in op.items():
        if len(proc) != 2 or [t for _, t in proc] != ["c", "a"] or proc[0][0] not in states or proc[1][0] not in states:
            bad.append(proc)
            continue
        k = proc[0][0], proc[1][0]
        mat[k] = mat.get(k, 0) + v
    X.claim(not bad, "one-electron processes within the shell only", repr(bad[:2]))
    for a in states:
        for b in states:
            ref = 0
            if cfg["kind"] == "soc":
                # l.s = lz sz + (l+ s- + l- s+)/2, spin index 1 is up
                if a == b:
                    ref = xi * (a[2] * (0.5 if a[1] == 1 else -0.5))
                elif a[1] == 1 and b[1] == 0 and a[2] == b[2] - 1:
                    ref = xi * 0.5 * lminus(X, l, b[2])
                elif a[1] == 0 and b[1] == 1 and a[2] == b[2] + 1:
                    ref = xi * 0.5 * lminus(X, l, a[2])
            elif a[2] == b[2]:
                if a[1] == b[1]:
                    ref = h[2] * (0.5 if a[1] == 1 else -0.5)
                elif a[1] == 1:
                    ref = (h[0] - 1j * h[1]) * 0.5
                else:
                    ref = (h[0] + 1j * h[1]) * 0.5
            X.claim(X.eq(mat.get((a, b), 0), ref), "matrix element of xi l.s" if cfg["kind"] == "soc" else "matrix element of h.S", "%s %s" % (a, b))
            X.claim(X.eq(mat.get((a, b), 0), X.conj(mat.get((b, a), 0) + 0)), "Hermitian", "%s %s" % (a, b))
