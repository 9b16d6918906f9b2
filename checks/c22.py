"""C22: static expectation values equal those of the defining operators."""
from checks.c20 import index
METHOD = ("getLz3d, getSz3d, getLsqr3d, getSsqr3d, getTraceDensityMatrix, getDensityMatrix, getDensityMatrixCubic, getEgT2gOccupation and apply*3d are executed on superpositions of all determinants of a "
          "particle-number sector with symbolic complex amplitudes (the results are quadratic forms in the amplitudes, so every matrix element of each operator is decided), exact square roots; z3 / polynomial "
          "identity decides equality with independently computed expectation values. The table printed by printExpValues is decided column by column.")
BOUNDS = ("all amplitudes of states spanning complete d-shell particle-number sectors (quick: 0-2, 9, 10 electrons; thorough: 0-10) times up to 3 spectator configurations of p shell and bath; 5 bath layouts; "
          "accidental cancellations to exactly zero are not followed.")
OUTSIDE = "bath sets shared by several shells (these routines assume one shell per bath set); rounding."
TOL = 1e-6
LAY = {"d0": [(2, 0)], "p0 d10": [(1, 0), (2, 10)], "d2 p1": [(2, 2), (1, 1)], "p2 d3": [(1, 2), (2, 3)], "s1 d0 p0": [(0, 1), (2, 0), (1, 0)]}
HISTORY = 6


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        out.append(dict(name=name, exact_sqrt=True, max_coinc=0, free_coinc=True, deadline=260 if not T else 760, **k))
    secs = ((0, 1), (2,), (9, 10)) if not T else ((0, 1), (2,), (3,), (4,), (5,), (6,), (7,), (8,), (9, 10))
    for lay in LAY:
        for ns in secs:
            if lay == "d0" or max(ns) <= 2 or min(ns) >= 8 or T and lay == "p2 d3" and max(ns) == 3:
                for q in ("Lz Sz N", "L2", "S2", "density", "eg"):
                    if lay in ("p0 d10", "s1 d0 p0") and ns == (9, 10) and not T:
                        continue
                    add("%s of states with %s d electrons, baths %s" % (q, ns, lay), q=q, ns=ns, lay=lay, spec=2 if max(ns) == 2 else 3, weight=10 if ns == (2,) else 3)
    for lay in ("p2 d3", "d2 p1"):
        add("p shell density matrix and occupation, baths %s" % lay, q="pshell", ns=(1, 2), lay=lay, spec=2)
    for lay in ("d0", "p2 d3"):
        add("operators applied to states with 1 d electron, baths %s" % lay, q="apply", ns=(0, 1, 2) if T else (1, 2), lay=lay, spec=1, weight=5)
    add("printed table", q="print", ns=(1,), lay="d2 p1", spec=1, states=3)
    add("printed table of the first states", q="print", ns=(1,), lay="d2 p1", spec=1, states=3, n=2)
    return out


def dets(nB, ns, spec, shell=2):
    """bit masks: all determinants of the shell with ns electrons, times spectator patterns"""
    from itertools import combinations
    order = [index(nB, (shell, s, m)) for s in (0, 1) for m in range(-shell, shell + 1)]
    other = [i for i in range(nso(nB)) if i not in order]
    pats = [other[::2], other[1::2] if other else None, other[:2] + other[-1:]][:spec]
    out = []
    for p in pats:
        if p is None:
            continue
        for n in ns:
            for c in combinations(order, n):
                d = sum(1 << i for i in list(c) + list(p))
                if d not in out:
                    out.append(d)
        if not other:
            break
    return out


def nso(nB):
    return sum(2 * (2 * l + 1) + n for l, n in nB.items())


def one(d, i, j):
    """c+_i c_j on determinant d"""
    if not d >> j & 1:
        return None
    s = bin(d & ((1 << j) - 1)).count("1")
    d ^= 1 << j
    if d >> i & 1:
        return None
    s += bin(d & ((1 << i) - 1)).count("1")
    return d | 1 << i, -1 if s & 1 else 1


def act(terms, psi):
    out = {}
    for d, v in psi.items():
        for i, j, h in terms:
            r = one(d, i, j)
            if r:
                w = v * (h * r[1])
                out[r[0]] = out[r[0]] + w if r[0] in out else w
    return out


def braket(X, a, b):
    t = 0
    for d, v in b.items():
        if d in a:
            t = t + X.conj(a[d] + 0j) * v
    return t


def operators(X, nB, l=2):
    R = range(-l, l + 1)
    i = lambda s, m: index(nB, (l, s, m))
    return {
        "Lz": [(i(s, m), i(s, m), m) for s in (0, 1) for m in R if m],
        "Sz": [(i(s, m), i(s, m), X.rat(2 * s - 1, 2)) for s in (0, 1) for m in R],
        "L-": [(i(s, m - 1), i(s, m), X.sqrt(X.rat(l * (l + 1) - m * (m - 1)))) for s in (0, 1) for m in R if m > -l],
        "L+": [(i(s, m + 1), i(s, m), X.sqrt(X.rat(l * (l + 1) - m * (m + 1)))) for s in (0, 1) for m in R if m < l],
        "S-": [(i(0, m), i(1, m), 1) for m in R],
        "S+": [(i(1, m), i(0, m), 1) for m in R],
        "N": [(i(s, m), i(s, m), 1) for s in (0, 1) for m in R],
    }


def state(X, nB, ds, name="a"):
    n = nso(nB)
    psi = {d: X.cplx("%s%d" % (name, k), -1, 1) for k, d in enumerate(ds)}
    return psi, {X.bytes([bool(d >> i & 1) for i in range(n)]): v for d, v in psi.items()}


def cubic(X):
    r = X.sqrt(X.rat(1, 2))
    return [{0: 1}, {-2: r, 2: r}, {-1: r, 1: -r}, {-1: 1j * r, 1: 1j * r}, {-2: 1j * r, 2: -1j * r}]


def square(X, ops, k, psi):
    """<O_z^2 + O_z + O_- O_+>"""
    z, p = act(ops[k + "z"], psi), act(ops[k + "+"], psi)
    return braket(X, z, z) + braket(X, psi, z) + braket(X, p, p)


def egt2g(X, nB, psi):
    out = []
    half = X.rat(1, 2)
    for s in (0, 1):
        i = {m: index(nB, (2, s, m)) for m in range(-2, 3)}
        for terms in ([(i[0], i[0], 1)] + [(i[a], i[b], half) for a in (-2, 2) for b in (-2, 2)],
                      [(i[1], i[1], 1), (i[-1], i[-1], 1)] + [(i[a], i[b], half if a == b else -half) for a in (-2, 2) for b in (-2, 2)]):
            out.append(braket(X, psi, act(terms, psi)))
    return out[0], out[2], out[1], out[3]     # eg dn, eg up, t2g dn, t2g up


def run(X, cfg):
    from collections import OrderedDict
    nB = OrderedDict([tuple(p) for p in LAY[cfg["lay"]]])
    q = cfg["q"]
    if q == "print":
        return table(X, cfg, nB)
    shell = 1 if q == "pshell" else 2
    psi, key = state(X, nB, dets(nB, cfg["ns"], cfg["spec"], shell))
    before = dict(key)
    fi = X.world().ed("finite")
    ops = operators(X, nB, shell)
    X.reach("state")
    if q == "Lz Sz N":
        X.claim(X.eq(fi.getLz3d(nB, key), braket(X, psi, act(ops["Lz"], psi))), "Lz")
        X.claim(X.eq(fi.getSz3d(nB, key), braket(X, psi, act(ops["Sz"], psi))), "Sz")
        X.claim(X.eq(fi.getTraceDensityMatrix(nB, key), braket(X, psi, act(ops["N"], psi))), "occupation")
    elif q == "L2":
        X.claim(X.eq(fi.getLsqr3d(nB, key), square(X, ops, "L", psi)), "L^2")
    elif q == "S2":
        X.claim(X.eq(fi.getSsqr3d(nB, key), square(X, ops, "S", psi)), "S^2")
    elif q in ("density", "pshell"):
        n = fi.getDensityMatrix(nB, key) if shell == 2 else fi.getDensityMatrix(nB, key, 1)
        orb = [(shell, s, m) for s in (0, 1) for m in range(-shell, shell + 1)]
        X.claim(all(tuple(a) in orb and tuple(b) in orb for a, b in n), "only orbitals of the shell")
        ref = {}
        tr = 0
        for a in orb:
            for b in orb:
                ref[a, b] = braket(X, psi, act([(index(nB, b), index(nB, a), 1)], psi))
                X.claim(X.eq(n.get((a, b), 0), ref[a, b]), "density matrix element <c+_j c_i>", repr((a, b)))
                X.claim(X.eq(n.get((a, b), 0), X.conj(n.get((b, a), 0) + 0j)), "density matrix Hermitian", repr((a, b)))
            tr = tr + n.get((a, a), 0)
        occ = fi.getTraceDensityMatrix(nB, key) if shell == 2 else fi.getTraceDensityMatrix(nB, key, l=1)
        X.claim(X.eq(tr, occ), "trace of the density matrix is the occupation")
        X.claim(X.eq(occ, braket(X, psi, act(ops["N"], psi))), "occupation")
        if shell == 2 and len(psi) <= 40:
            # in any choice of phases/order within eg and t2g the cubic density matrix is a unitary transform of the spherical one; the phases are those of the rotation matrix
            nc = fi.getDensityMatrixCubic(nB, key)
            u = fi.get_spherical_2_cubic_matrix()
            X.claim(all(len(k) == 2 and k[0][0] in (0, 1) and k[1][0] in (0, 1) and 0 <= k[0][1] < 5 and 0 <= k[1][1] < 5 for k in nc), "cubic keys")
            for si in (0, 1):
                for sj in (0, 1):
                    for i in range(5):
                        for j in range(5):
                            v = 0
                            for mi in range(-2, 3):
                                for mj in range(-2, 3):
                                    a, b = u[mi + 2, i], u[mj + 2, j]
                                    if zero(a) or zero(b):
                                        continue
                                    v = v + X.conj(a + 0j) * b * ref[(2, si, mi), (2, sj, mj)]
                            X.claim(X.eq(nc.get(((si, i), (sj, j)), 0), v), "cubic density matrix element", repr((si, i, sj, j)))
    elif q == "eg":
        occ = fi.getEgT2gOccupation(nB, key)
        tot = 0
        for o, r, lab in zip(occ, egt2g(X, nB, psi), ("eg down", "eg up", "t2g down", "t2g up")):
            X.claim(X.eq(o, r), "occupation of " + lab)
            tot = tot + o
        X.claim(len(occ) == 4, "four occupations")
        X.claim(X.eq(tot, fi.getTraceDensityMatrix(nB, key)), "eg + t2g occupations sum to the d occupation")
    elif q == "apply":
        n = nso(nB)
        for f, o in (("applyLz3d", "Lz"), ("applySz3d", "Sz"), ("applyLplus3d", "L+"), ("applyLminus3d", "L-"), ("applySplus3d", "S+"), ("applySminus3d", "S-")):
            r = getattr(fi, f)(nB, key)
            want = {X.bytes([bool(d >> i & 1) for i in range(n)]): v for d, v in act(ops[o], psi).items()}
            X.eq_dict(r, want, "%s psi" % o)
    X.claim(list(key) == list(before), "state unchanged")
    X.eq_dict(key, before, "state unchanged")


def zero(v):
    return isinstance(v, (int, float, complex)) and v == 0 or not isinstance(v, (int, float, complex)) and hasattr(v, "const") and v.const() == 0


def table(X, cfg, nB):
    out = []
    w = X.world(print_fn=lambda *a, **k: out.append(" ".join(str(x) for x in a)))
    fi = w.ed("finite")
    ds = dets(nB, (1, 2), 1)
    picks = [(0, 3, 4, 12), (9, 20, 31), (2, 5)]
    psis, keys = [], []
    for k in range(cfg["states"]):
        p, kk = state(X, nB, [ds[i] for i in picks[k]], "s%d_" % k)
        psis.append(p)
        keys.append(kk)
    es = [X.real("E%d" % k, -100, 100) for k in range(cfg["states"])]
    X.assume(X.AND(*[es[k] <= es[k + 1] for k in range(len(es) - 1)]))
    arr = X.array(list(es), "f")
    n = cfg.get("n")
    if n is None:
        fi.printExpValues(nB, arr, keys)
    else:
        fi.printExpValues(nB, arr, keys, n)
    X.reach("table")
    rows = []
    for t in out:
        for line in t.split("\n"):
            if line.strip() and ("\u2039" in line or line.strip()[0].isdigit()):
                rows.append(X.fields(line))
    rows = [r for r in rows if len(r) == 11]
    X.claim(len(rows) == (n or len(es)), "one row per state", "%d" % len(rows))
    ops = operators(X, nB)
    for k, r in enumerate(rows[:len(es)]):
        oc = egt2g(X, nB, psis[k])
        want = [k, es[k] - es[0], braket(X, psis[k], act(ops["N"], psis[k])), *oc, braket(X, psis[k], act(ops["Lz"], psis[k])), braket(X, psis[k], act(ops["Sz"], psis[k])),
                square(X, ops, "L", psis[k]), square(X, ops, "S", psis[k])]
        for c, ((v, dec), ref) in enumerate(zip(r, want)):
            X.claim(X.close(v, ref, 0.6 * 10.0 ** -dec), "printed column %s" % ("i", "E-E0", "N", "egDn", "egUp", "t2gDn", "t2gUp", "Lz", "Sz", "L^2", "S^2")[c], "row %d" % k)
