"""C27: the driver scripts pass every user parameter to the calculation it controls."""
import inspect, math, types
from checks import stubs
from checks.c20 import index
from checks.c23 import K
from checks.c26 import H5, scratch, same_op
METHOD = ("get_spectra.py and get_spectra_using_CF.py are executed as scripts: command-line values are tokens that stand for symbolic numbers, files are replaced by stand-ins, and "
          "eigensystem, printThermalExpValues and simulate_spectra by recorders that return arbitrary symbolic eigenenergies and compare what they are given - Hamiltonian, basis, "
          "restrictions, selected eigenstates, temperature, broadenings, radial functions, meshes - with the values the user asked for (z3 / polynomial identity).")
BOUNDS = ("both scripts, as command and as function, one p and one d shell in either order, 0-2 conduction and 0-10 valence bath states, all Slater parameters, couplings, fields, "
          "temperatures, cutoffs, broadenings and 1-4 eigenenergies in ascending order; several choices of the integer parameters.")
OUTSIDE = "pickle, json, HDF5 and npz formats; the calculations behind the recorders (C08, C20, C23, C26, C28); the fixed energy meshes and polarisations."
ASSUMPTIONS = ["eigensystem returns ascending energies (C28)"]
TOL = 1e-6

# ls, nBaths, nValBaths, n0imps, dnTols, dnValBaths, dnConBaths
SETS = {
    "plain": dict(ls=[1, 2], nBaths=[0, 6], nValBaths=[0, 3], n0imps=[6, 7], dnTols=[0, 1], dnValBaths=[0, 1], dnConBaths=[0, 1]),
    "reversed": dict(ls=[2, 1], nBaths=[4, 2], nValBaths=[2, 1], n0imps=[8, 6], dnTols=[1, 0], dnValBaths=[2, 1], dnConBaths=[2, 0]),
    "no conduction": dict(ls=[1, 2], nBaths=[0, 3], nValBaths=[0, 3], n0imps=[6, 7], dnTols=[0, 3], dnValBaths=[0, 2], dnConBaths=[0, 0]),
    "no valence": dict(ls=[1, 2], nBaths=[1, 2], nValBaths=[1, 0], n0imps=[6, 9], dnTols=[0, 1], dnValBaths=[0, 0], dnConBaths=[0, 2]),
    "no bath": dict(ls=[1, 2], nBaths=[0, 0], nValBaths=[0, 0], n0imps=[6, 9], dnTols=[0, 1], dnValBaths=[0, 0], dnConBaths=[0, 0]),
    "cf10": dict(ls=[1, 2], nBaths=[0, 10], nValBaths=[0, 10], n0imps=[6, 8], dnTols=[0, 0], dnValBaths=[0, 1], dnConBaths=[0, 0]),
    "cf20": dict(ls=[1, 2], nBaths=[0, 20], nValBaths=[0, 10], n0imps=[6, 7], dnTols=[0, 1], dnValBaths=[0, 1], dnConBaths=[0, 1]),
}
CFNAMES = ("e_imp", "e_deltaO_imp", "e_val_eg", "e_val_t2g", "e_con_eg", "e_con_t2g", "v_val_eg", "v_val_t2g", "v_con_eg", "v_con_t2g")
LENS = {"Fdd": 5, "Fpp": 3, "Fpd": 3, "Gpd": 4, "hField": 3}
SCALARS = {"xi_2p": (0.01, 20), "xi_3d": (0.01, 2), "chargeTransferCorrection": (0.01, 9), "T": (1, 1000), "energy_cut": (0.5, 20), "delta": (0.01, 1), "deltaRIXS": (0.01, 1),
           "deltaNIXS": (0.01, 1), "tolPrintOccupation": (0.05, 0.9)}


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        out.append(dict(name=name, max_coinc=0, free_coinc=True, deadline=280 if not T else 760, **k))
    for s in SETS:
        cf = s.startswith("cf")
        for how in ("command", "function"):
            if how == "function" and s not in ("plain", "cf10") and not T:
                continue
            add("%s as %s, %s" % ("get_spectra_using_CF" if cf else "get_spectra", how, s), q="run", set=s, cf=cf, how=how, n=3 if s in ("plain", "cf10") else 2, weight=20)
    for cf in (False, True):
        add("%s, one eigenstate" % ("CF" if cf else "plain"), q="run", set="cf10" if cf else "plain", cf=cf, how="command", n=1, weight=10)
        add("%s, other ranks" % ("CF" if cf else "plain"), q="run", set="cf10" if cf else "plain", cf=cf, how="command", n=2, rank=1, weight=10)
        add("%s, printed weights" % ("CF" if cf else "plain"), q="print", set="cf10" if cf else "plain", cf=cf, how="command", n=2, weight=10)
        for bad in ("too few baths", "too few valence baths", "more valence baths than baths", "more valence baths than baths in the first shell", "more electrons than spin-orbitals",
                    "negative occupation", "Fdd", "Fpp", "Fpd", "Gpd", "hField", "hField too long"):
            add("%s, rejected: %s" % ("CF" if cf else "plain", bad), q="bad", set="cf10" if cf else "plain", cf=cf, how="command", n=1, bad=bad)
        for only in ("deltaRIXS", "deltaNIXS", "delta", "T", "nPsiMax"):
            add("%s, only %s given" % ("CF" if cf else "plain", only), q="only", set="cf10", cf=cf, how="command", n=2, only=only, weight=15)
    return out


def text(v):
    return ("%.17f" % v) if isinstance(v, float) else str(v)


class Stop(Exception):
    pass


def run(X, cfg):
    with scratch(["get_spectra.py"]) as d:
        return body(X, cfg)


def body(X, cfg):
    import sys, os
    import numpy as np
    cf, n = cfg["cf"], cfg["n"]
    script = "get_spectra_using_CF" if cf else "get_spectra"
    ints = {k: list(v) for k, v in SETS[cfg["set"]].items()}
    P = dict(ints)
    P["nPsiMax"], P["nPrintSlaterWeights"] = n, 2
    for k, m in LENS.items():
        P[k] = [X.real("%s%d" % (k, i), 0.01, 9) if k == "hField" or (i % 2 == 0) != (k == "Gpd") else 0.0 for i in range(m)]
    for k, (lo, hi) in SCALARS.items():
        P[k] = X.real(k, lo, hi)
    bad = cfg.get("bad")
    if bad == "too few baths":
        P["nBaths"] = P["nBaths"][1:]
    elif bad == "too few valence baths":
        P["nValBaths"] = P["nValBaths"][:1]
    elif bad == "more valence baths than baths":
        P["nValBaths"] = [P["nValBaths"][0], P["nBaths"][1] + 1]
    elif bad == "more valence baths than baths in the first shell":
        P["nValBaths"] = [P["nBaths"][0] + 1, P["nValBaths"][1]]
    elif bad == "more electrons than spin-orbitals":
        P["n0imps"] = [7, P["n0imps"][1]]
    elif bad == "negative occupation":
        P["n0imps"] = [P["n0imps"][0], -1]
    elif bad == "hField too long":
        P["hField"] = P["hField"] + [X.real("extra", 0.01, 9)]
    elif bad:
        P[bad] = P[bad][:-1]
    given = [cfg["only"]] if "only" in cfg else list(P)
    # command line
    tokens, argv = {}, []
    for k in given:
        argv.append("--" + k)
        for i, v in enumerate(P[k] if isinstance(P[k], list) else [P[k]]):
            if X.symbolic and not isinstance(v, (int, float)):
                t = "token_%s_%d" % (k, i)
                tokens[t] = v
                argv.append(t)
            else:
                argv.append(text(v))
    argv += ["file.h0", "radial.dat"] if not isinstance(P[given[-1]], list) else []
    sys.argv = [script + ".py"] + (argv if argv[-1] == "radial.dat" else ["file.h0", "radial.dat"] + argv)
    # files
    rm = [0.5, 1.0, 1.75]
    rad = np.array([[r, X_] for r, X_ in zip(rm, (0.25, 0.75, 0.375))])
    loaded, saved = [], {}
    # as in the documented input files: Hermitian one-body terms
    if cf:
        h0 = {k: X.real(k, 0.1, 5) for k in CFNAMES}
        kw = stubs.jsonfile("file.h0", h0)
    else:
        a, b = (2, 0, 1), (2, 0, 0) if ints["nBaths"][ints["ls"].index(2)] == 0 else (2, 0)
        z = X.cplx("z", 0.1, 5)
        h0 = {((a, "c"), (a, "a")): X.real("h0", 0.1, 5), ((a, "c"), (b, "a")): z, ((b, "c"), (a, "a")): X.conj(z)}
        kw = stubs.pickled("file.h0", h0)
    files = []
    h5 = H5()
    h5py = types.ModuleType("h5py")

    def File(name, mode="r", *a, **k):
        files.append((str(name), mode))
        return h5
    h5py.File = File

    def loadtxt(f, *a, **k):
        loaded.append(str(f))
        return X.array([[float(v) for v in r] for r in rad], "f") if X.symbolic else rad.copy()

    def savez(f, *a, **k):
        saved[str(f)] = k
    over = dict(loadtxt=loadtxt, savez_compressed=savez, savez=savez)
    mods = dict(kw.get("extra_modules") or {}, h5py=h5py)
    if X.symbolic:
        kw.update(numpy_extra=over, float_tokens=tokens)
    else:
        from symx.npshim import Shim
        mods["numpy"] = Shim("numpy", np, over)
    kw["extra_modules"] = mods
    rank = cfg.get("rank", 0)
    if rank:
        from symx.comm import SerialComm
        cm = SerialComm()
        cm.rank, cm.size = rank, rank + 1
        kw["comm"] = cm
    out = []
    kw["print_fn"] = lambda *a, **k: out.append(a)
    W = X.world(**kw)
    fin, sp = W.ed("finite"), W.ed("spectra")
    ref = None
    if cfg["q"] != "bad":
        lib = W.ed(script)      # the same module, loaded as a library: its Hamiltonian is decided by C20
        ref = lib.get_hamiltonian_operator_using_CF if cf else lib.get_hamiltonian_operator
    calls = []
    e = [X.real("E%d" % i, -5, 5) for i in range(n)]
    for i in range(n - 1):
        X.assume(X.ge(e[i + 1], e[i]))
    es = X.array(e, "f")
    keys = [X.bytes([q == i for q in range(32)]) for i in range(n)]
    psis = [{keys[i]: 1.0} for i in range(n)]
    real = {"eigensystem": fin.eigensystem, "thermal": fin.printThermalExpValues, "simulate": sp.simulate_spectra}
    only = cfg["q"] == "only"

    def args(name, a, k):
        b = inspect.signature(real[name]).bind(*a, **k)
        b.apply_defaults()
        calls.append(name)
        return b.arguments

    def known(k):
        return not only or k == cfg["only"]

    def shell(k, l):
        return P[k][P["ls"].index(l)]
    D = {}

    nso = None if only else sum(2 * (2 * l + 1) + m for l, m in zip(P["ls"], P["nBaths"]))

    def eigensystem(*a, **k):
        a = args("eigensystem", a, k)
        if known("nPsiMax"):
            X.claim(a["nPsiMax"] == P["nPsiMax"], "number of eigenstates asked for", a["nPsiMax"])
        D["hOp"] = a["hOp"]
        if not only:
            X.claim(a["n_spin_orbitals"] == nso, "number of spin-orbitals")
            want = fin.get_basis(*[dict2(P, q) for q in ("nBaths", "nValBaths", "dnValBaths", "dnConBaths", "dnTols", "n0imps")])
            X.claim(set(a["basis"]) == set(want) and len(a["basis"]) == len(want), "basis of product states", lambda: "%d %d" % (len(a["basis"]), len(want)))
            H = ref(dict2(P, "nBaths"), dict2(P, "nValBaths"), [tuple(P[q]) for q in ("Fdd", "Fpp", "Fpd", "Gpd")], [P["xi_2p"], P["xi_3d"]],
                    [dict2(P, "n0imps"), P["chargeTransferCorrection"]], tuple(P["hField"]), "file.h0")
            same_op(X, a["hOp"], H, "Hamiltonian that is diagonalised")
        return es, psis

    def thermal(*a, **k):
        a = args("thermal", a, k)
        if known("T"):
            X.claim(X.eq(a["T"], P["T"]), "temperature of the printed expectation values")
        X.claim(len(a["es"]) == n and len(a["psis"]) == n, "states of the printed expectation values")
        X.eqs(list(zip(a["es"], e)), "states of the printed expectation values")
        X.claim(all(p is q or p == q for p, q in zip(a["psis"], psis)), "states of the printed expectation values")

    def simulate(*a, **k):
        a = args("simulate", a, k)
        for q in ("T", "delta", "deltaRIXS", "deltaNIXS"):
            if known(q):
                X.claim(X.eq(a[q], P[q]), "%s of the spectra" % q)
        if only:
            return
        cut = P["energy_cut"] * P["T"] * K
        m = len(a["es"])
        X.claim(1 <= m <= n and len(a["psis"]) == m, "number of eigenstates", lambda: "%d %d" % (m, len(a["psis"])))
        if not 1 <= m <= n:
            return
        X.eqs([(x, y) for x, y in zip(a["es"], e)], "energies of the eigenstates")
        X.claim(all(p is q or p == q for p, q in zip(a["psis"], psis)), "eigenstates belong to the energies")
        for i in range(n):
            gap = e[i] - e[0]
            X.claim(X.ge(cut * (1 + 1e-9), gap) if i < m else X.ge(gap, cut * (1 - 1e-9)), "exactly the eigenstates within the energy cut", lambda: "%d of %d" % (m, n))
        same_op(X, a["hOp"], D.get("hOp", {}), "Hamiltonian of the spectra")
        X.claim(list(a["nBaths"].items()) == list(zip(P["ls"], P["nBaths"])), "baths")
        nB = dict2(P, "nBaths")
        l, nb, nv = 2, shell("nBaths", 2), shell("nValBaths", 2)
        want = {frozenset(index(nB, (2, s, m_)) for s in (0, 1) for m_ in range(-2, 3)): (shell("n0imps", 2) - 1, shell("n0imps", 2) + shell("dnTols", 2) + 1),
                frozenset(index(nB, (2, b)) for b in range(nv)): (nv - shell("dnValBaths", 2), nv),
                frozenset(index(nB, (2, b)) for b in range(nv, nb)): (0, shell("dnConBaths", 2))}
        X.claim(effect(a["restrictions"]) == effect(want), "restrictions of the excited states", lambda: repr(a["restrictions"]))
        X.claim(loaded == ["radial.dat"], "radial functions come from the named file")
        X.eqs(list(zip(a["radialMesh"], rad[:, 0])), "radial mesh")
        X.eqs(list(zip(a["RiNIXS"], rad[:, 1])), "radial functions")
        X.eqs(list(zip(a["RjNIXS"], rad[:, 1])), "radial functions")
        X.claim(len(a["radialMesh"]) == len(rad) == len(a["RiNIXS"]) == len(a["RjNIXS"]), "radial functions")
        if rank:
            X.claim(a["h5f"] is None and not files and not saved, "only one rank writes files")
            return
        X.claim(a["h5f"] is h5 and files == [("spectra.h5", "w")], "file for the spectra")
        for name, v in (("w", a["w"]), ("wIn", a["wIn"]), ("wLoss", a["wLoss"]), ("qsNIXS", a["qsNIXS"]), ("r", a["radialMesh"]), ("RiNIXS", a["RiNIXS"]), ("RjNIXS", a["RjNIXS"])):
            g = h5.d.get(name)
            ok = g is not None and np.shape(g) == np.shape(v)
            X.claim(ok, "stored " + name)
            if ok and np.array(g).dtype != object:
                X.claim(bool(np.allclose(np.array(g, dtype=float), np.array(v, dtype=float), rtol=1e-12)), "stored " + name)
            elif ok:
                g, v = np.array(g, dtype=object), np.array(v, dtype=object)
                X.eqs([(g[i], v[i]) for i in np.ndindex(g.shape)], "stored " + name)
        X.claim("E" in h5.d and len(h5.d["E"]) == n, "stored energies")
        X.eqs(list(zip(h5.d["E"], e)), "stored energies")
        X.claim(not h5.closed, "the file is still open for the spectra")
    fin.eigensystem, fin.printThermalExpValues, sp.simulate_spectra = eigensystem, thermal, simulate
    fin.printExpValues = lambda *a, **k: None
    if cfg["q"] == "print":
        return printed(X, cfg, W, fin, P, out, es, psis, n)
    name = "impurityModel.ed." + script
    if cfg["q"] == "bad":
        stopped = None
        try:
            W.load(name, as_main=True)
        except (SystemExit, Exception) as ex:
            if type(ex).__module__.startswith("symx"):
                raise
            stopped = ex
        X.claim(stopped is not None and "simulate" not in calls, "inconsistent arguments are rejected", repr(stopped))
        X.claim("eigensystem" not in calls, "inconsistent arguments are rejected before anything is diagonalised")
        X.reach("rejected")
        return
    if cfg["how"] == "command":
        err = None
        try:
            W.load(name, as_main=True)
        except SystemExit as ex:
            err = ex
        X.claim(err is None, "valid arguments are accepted", repr(err))
    else:
        k = {q: (tuple(v) if isinstance(v, list) else v) for q, v in P.items()}
        k.update({"h0_CF_filename" if cf else "h0_filename": "file.h0", "radial_filename": "radial.dat"})
        W.ed(script).main(**k)
    X.claim(calls.count("eigensystem") >= 1 and calls.count("simulate") == 1, "eigenstates and spectra are calculated", calls)
    if not only:
        X.claim("thermal" in calls, "thermal expectation values are printed")
    X.reach("calculated")


def dict2(P, k):
    from collections import OrderedDict
    return OrderedDict(zip(P["ls"], P[k]))


def effect(restr):
    """what occupation restrictions allow: bounds clipped to the possible range, trivial ones left out"""
    out = {}
    for s, (lo, hi) in restr.items():
        lo, hi = max(0, lo), min(len(s), hi)
        if (lo, hi) != (0, len(s)):
            out[frozenset(s)] = (lo, hi)
    return out


def raw(X, b):
    """bytes without trailing zero bytes (numpy drops them from arrays of bytes)"""
    return bytes(b).rstrip(b"\0")


def printed(X, cfg, W, fin, P, out, es, psis, n):
    """highest product-state weights and the density matrix elements above the printing tolerance"""
    import numpy as np
    import sys
    name = "impurityModel.ed.get_spectra" + ("_using_CF" if cfg["cf"] else "")
    nB = dict2(P, "nBaths")
    amps = [0.8, -0.3, 0.5, 0.1]
    d = [index(nB, (2, s, m)) for s in (0, 1) for m in range(-2, 3)]
    N = sum(2 * (2 * l + 1) + b for l, b in nB.items())
    keys = [X.bytes([q in (d[0], d[i + 1]) for q in range(N)]) for i in range(4)]
    psis[0].clear()
    psis[0].update(dict(zip(keys, amps)))
    psis[1].clear()
    psis[1][X.bytes([q in (d[2], d[7]) for q in range(N)])] = 1.0
    dens = [fin.getDensityMatrixCubic(nB, p) for p in psis]
    tol = P["tolPrintOccupation"]
    W.load(name, as_main=True)
    texts = []
    for a in out:
        texts.append(" ".join("array:" + ",".join("%.6f" % float(x) for x in v) if hasattr(v, "shape") and len(np.shape(v)) == 1 and np.array(v).dtype.kind in "fO" and
                              not isinstance(v[0], (bytes, np.bytes_)) else str(v) for v in a))
    w = ["array:" + ",".join("%.6f" % v for v in (0.64, 0.25)), "array:1.000000"]
    got = [t for t in texts if t.startswith("array:")]
    X.claim(got == w, "the requested number of highest weights is printed", lambda: repr(got))
    states = []
    for a in out:
        for v in a:
            vs = list(v) if isinstance(v, (list, tuple)) or (hasattr(v, "shape") and len(np.shape(v)) == 1) else [v]
            states += [raw(X, x) for x in vs if isinstance(x, bytes) or X.is_kind(x, "bytes")]
    want = [raw(X, keys[0]), raw(X, keys[2])] + [raw(X, x) for x in psis[1]]
    X.claim(states == want, "the product states printed are those of the printed weights", lambda: "%r %r" % (states, want))
    nd = sum(1 for t in texts if t.startswith("Diagonal"))
    no = sum(1 for t in texts if t.startswith("Off-diagonal"))
    cd = sum(1 for n_ in dens for el, v in n_.items() if el[0] == el[1] and bool(abs(v) > tol))
    co = sum(1 for n_ in dens for el, v in n_.items() if el[0] != el[1] and bool(abs(v) > tol))
    X.claim((nd, no) == (cd, co), "density matrix elements above the printing tolerance", lambda: "%s %s" % ((nd, no), (cd, co)))
    import re
    for word, diag in (("Diagonal", True), ("Off-diagonal", False)):
        lines = []
        for t in texts:
            if t.startswith(word):
                t = t[t.index("="):]
                num = [complex(float(x), 0) for x in re.findall(r"-?\d+\.\d+", t)]
                lines.append((re.findall(r"(?<![\d.])\d+(?![\d.])", t), num[0].real if num else None))
        ref = [([str(int(q)) for q in ((x for x in el[0]) if diag else (x for y in el for x in y))], complex(v).real)
               for n_ in dens for el, v in n_.items() if (el[0] == el[1]) == diag and bool(abs(v) > tol)]
        ok = len(lines) == len(ref) and all(a[0] == b[0] and a[1] is not None and abs(a[1] - b[1]) < 0.006 for a, b in zip(lines, ref))
        X.claim(ok, "%s density matrix elements are printed with their indices" % word, lambda: "%r %r" % (lines[:4], ref[:4]))
    X.reach("printed")
