"""C26: every stored spectrum is computed from the right ingredients and read back right."""
import contextlib, inspect, os, sys, tempfile
from checks.c20 import index
METHOD = ("simulate_spectra is executed with getSpectra and getRIXSmap replaced by stand-ins that return arbitrary symbolic Green's functions for the operators, mesh and broadening "
          "they are given, and with recorders for the HDF5 and text files; every stored dataset and text column is compared with its definition by polynomial identity / z3. The "
          "binary RIXS file is followed from the writer through the plotting script (matplotlib replaced by a recorder).")
BOUNDS = ("all Green's function values, eigenenergies, temperatures, meshes, broadenings and polarisation vectors; 1-3 eigenstates, 1-3 mesh points per mesh, 1-3 polarisations "
          "and momenta per list, 3 bath layouts.")
OUTSIDE = "HDF5 and npz file formats; rendering by matplotlib and gnuplot; single-precision rounding of the map; the Green's functions and operators themselves (C14-C16, C24, C25)."
ASSUMPTIONS = ["getSpectra and getRIXSmap return one Green's function per eigenstate, operator(s) and mesh point."]
TOL = 1e-6
LAY = {"p0 d0": [(1, 0), (2, 0)], "p0 d2": [(1, 0), (2, 2)], "p1 d1": [(1, 1), (2, 1)]}


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        out.append(dict(name=name, max_coinc=0, free_coinc=True, exact_sqrt=True, deadline=250 if not T else 700, **k))
    for lay in LAY:
        for nE, nw, nin, nout, nx, nq, nwi, nwl in ((1, 1, 1, 1, 1, 1, 1, 1), (2, 2, 2, 1, 3, 2, 1, 2), (1, 3, 1, 3, 2, 1, 3, 2), (3, 1, 2, 2, 1, 3, 2, 3)):
            if lay != "p0 d2" and nE > 1 and not T:
                continue
            add("stored spectra, %s, %d states, meshes %d %d %d, polarisations %d %d %d, %d momenta" % (lay, nE, nw, nwi, nwl, nx, nin, nout, nq), q="store", lay=lay, nE=nE,
                nw=nw, nin=nin, nout=nout, nx=nx, nq=nq, nwi=nwi, nwl=nwl, weight=nE * 5)
    add("stored spectra, other NIXS shells", q="store", lay="p0 d0", nE=2, nw=1, nin=1, nout=1, nx=1, nq=2, nwi=1, nwl=2, shells=[2, 1], weight=5)
    add("ranks that do not store", q="rank", lay="p0 d0", nE=1, nw=1, nin=1, nout=1, nx=1, nq=1, nwi=1, nwl=1)
    for nwi, nwl in ((2, 2), (3, 2), (2, 3)):
        for given in (False, True):
            add("RIXS file %d x %d, %s" % (nwi, nwl, "name given" if given else "default name"), q="file", lay="p0 d0", nE=1, nw=1, nin=2 if nwl == 2 else 1, nout=1, nx=1, nq=1,
                nwi=nwi, nwl=nwl, given=given, weight=3)
    add("plotting script without file", q="nofile")
    for n in (1, 2):
        add("plotted spectra, %d momenta" % n, q="plot", n=n, weight=5)
    for sub in ("PSthermal", "XPSthermal", "XASthermal", "NIXSthermal", "NIXSthermal no momenta"):
        add("plotted spectra, only %s" % sub, q="plot", n=2, only=sub)
    return out


class H5:
    def __init__(self, content=None):
        self.d, self.closed = dict(content or {}), False

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        import copy
        self.d[name] = copy.copy(data)
        return self.d[name]

    def __setitem__(self, k, v):
        self.create_dataset(k, data=v)

    def keys(self):
        return list(self.d)

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def flush(self):
        pass


@contextlib.contextmanager
def scratch(argv):
    """everything that reads or writes files happens in a scratch directory"""
    old, oa = os.getcwd(), sys.argv
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        sys.argv = argv
        try:
            yield d
        finally:
            os.chdir(old)
            sys.argv = oa


class Recorder:
    """matplotlib stand-in"""
    def __init__(self):
        self.lines, self.images, self.figs = [], [], []

    def module(self):
        import types
        rec = self

        class Any:
            def __getattr__(self, k):
                if k.startswith("__"):
                    raise AttributeError(k)
                return lambda *a, **kw: Any()

        class Ax(Any):
            def __init__(self, tag=None):
                self.tag = tag

            def plot(self, x, y, *a, **k):
                rec.lines.append((rec.nfig, self.tag, x, y, k.get("label")))
                return [Any()]

            def imshow(self, m, *a, **k):
                rec.images.append((rec.nfig, self.tag, m, k))
                return Any()
        rec.nfig = 0
        plt = types.ModuleType("matplotlib.pyplot")

        def figure(*a, **k):
            rec.nfig += 1
            return Any()

        def subplots(nrows=1, ncols=1, **k):
            import numpy as np
            rec.nfig += 1
            ax = np.empty((nrows, ncols), dtype=object)
            for i in range(nrows):
                for j in range(ncols):
                    ax[i, j] = Ax((i, j))
            if k.get("squeeze", True):
                ax = ax[0, 0] if nrows == ncols == 1 else ax[0] if nrows == 1 else ax[:, 0] if ncols == 1 else ax
            return Any(), ax

        class Colorbar(Any):
            ax = Any()
        plt.figure, plt.subplots = figure, subplots
        plt.plot = lambda *a, **k: Ax().plot(*a, **k)
        plt.imshow = lambda *a, **k: Ax().imshow(*a, **k)
        plt.colorbar = lambda *a, **k: Colorbar()
        plt.__getattr__ = lambda k: (lambda *a, **kw: Any())
        top = types.ModuleType("matplotlib")
        top.pyplot = plt
        return {"matplotlib": top, "matplotlib.pyplot": plt}


def text_recorder(X, out, extra=None, overrides=None):
    """World keywords with numpy.savetxt replaced by a recorder"""
    import numpy as np

    def savetxt(fname, x, fmt="%.18e", delimiter=" ", newline="\n", header="", **k):
        out[str(fname)] = (x, fmt, header)
    ov = dict(savetxt=savetxt, **(overrides or {}))
    if X.symbolic:
        return dict(numpy_extra=ov, extra_modules=dict(extra or {}))
    from symx.npshim import Shim
    m = {"numpy": Shim("numpy", np, ov)}
    m.update(extra or {})
    return dict(extra_modules=m)


def table(X, name, dims, f):
    if not dims:
        return f(name)
    return [table(X, "%s_%d" % (name, i), dims[1:], f) for i in range(dims[0])]


def same_op(X, a, b, label):
    keys = set(a) | set(b)
    X.eqs([(a.get(k, 0), b.get(k, 0)) for k in sorted(keys)], label)


def simulate(X, cfg, rank=0):
    """run simulate_spectra; returns (stored datasets, texts, expectation)"""
    import numpy as np
    from collections import OrderedDict
    nB = OrderedDict([tuple(p) for p in LAY[cfg["lay"]]])
    texts, h5 = {}, H5()
    kw = text_recorder(X, texts)
    if rank:
        from symx.comm import SerialComm
        cm = SerialComm()
        cm.rank, cm.size = rank, rank + 1
        kw["comm"] = cm
    W = X.world(**kw)
    sp, av = W.ed("spectra"), W.ed("average")
    nE = cfg["nE"]
    es = [X.real("e%d" % i, -5, 5) for i in range(nE)]
    for i in range(nE - 1):
        X.assume(X.ge(es[i + 1], es[i]))
    psis = [{X.bytes([q == i for q in range(16)]): X.cplx("psi%d" % i, -1, 1)} for i in range(nE)]
    hOp = {((0, "c"), (0, "a")): X.real("h", -1, 1)}
    T = X.real("T", 1, 1000)
    mesh = {k: [X.real("%s%d" % (k, i), -9, 9) for i in range(cfg[n])] for k, n in (("w", "nw"), ("wIn", "nwi"), ("wLoss", "nwl"))}
    br = {k: X.real(k, 0.01, 1) for k in ("delta", "deltaNIXS", "deltaRIXS")}
    eps = {k: [[X.real("%s%d%s" % (k, i, c), 0.1, 1) for c in "xyz"] for i in range(cfg[n])] for k, n in (("xas", "nx"), ("in", "nin"), ("out", "nout"))}
    qs = [[0.5, 1.0, -0.75], [0.0, 0.0, 1.25], [-1.0, 0.25, 0.5]][:cfg["nq"]]
    li, lj = cfg.get("shells") or (2, 2)
    mesh_r, Ri, Rj = [0.5, 1.0, 1.75], [0.25, 0.75, 0.5], [0.375, 0.5, 1.0]
    rad = [X.array(v, "f") if not X.symbolic else np.array(v) for v in (Ri, Rj, mesh_r)]
    restr = {frozenset(range(3)): (1, 2)}
    # operators the spectra belong to (their content is decided by C24 and C25)
    ref = {"IPS": sp.getInversePhotoEmissionOperators(nB, l=2), "PS": sp.getPhotoEmissionOperators(nB, l=2), "XPS": sp.getPhotoEmissionOperators(nB, l=1),
           "NIXS": sp.getNIXSOperators(nB, qs, li, lj, *rad), "XAS": sp.getDipoleOperators(nB, eps["xas"]), "in": sp.getDipoleOperators(nB, eps["in"]),
           "out": sp.getDaggeredDipoleOperators(nB, eps["out"])}
    sizes = {k: len(v) for k, v in ref.items()}
    G = {}
    for k, m in (("IPS", "w"), ("PS", "w"), ("XPS", "w"), ("NIXS", "wLoss"), ("XAS", "w")):
        G[k] = table(X, "G" + k, (nE, sizes[k], len(mesh[m])), lambda n: X.cplx(n, -9, 9))
    G["RIXS"] = table(X, "GRIXS", (nE, sizes["in"], sizes["out"], len(mesh["wIn"]), len(mesh["wLoss"])), lambda n: X.cplx(n, -9, 9))
    seen = []
    nso = sum(2 * (2 * l + 1) + n for l, n in nB.items())
    dorb = [index(nB, (2, s, m)) for s in (0, 1) for m in range(-2, 3)]

    def kind(op):
        """which family of operators"""
        p = next(iter(op))
        if len(p) == 1:
            return "IPS" if p[0][1] == "c" else "PS" if p[0][0] in dorb else "XPS"
        ann = [i for i, t in p if t == "a"]
        if (li, lj) == (2, 1):
            return None
        return "NIXS" if ann[0] in dorb else "XAS"

    def common(b, ops, what):
        a = b.arguments
        X.claim(a["n_spin_orbitals"] == nso, what + ": number of spin-orbitals")
        X.claim(set(a["hOp"]) == set(hOp), what + ": Hamiltonian")
        X.eqs([(a["hOp"].get(k, 0), v) for k, v in hOp.items()], what + ": Hamiltonian")
        X.claim(len(a["psis"]) == nE and all(set(p) == set(q) for p, q in zip(a["psis"], psis)), what + ": eigenstates")
        X.eqs([(p[k], q[k]) for p, q in zip(a["psis"], psis) for k in q if k in p], what + ": eigenstates")
        X.claim(len(a["es"]) == nE, what + ": eigenenergies")
        X.eqs(list(zip(a["es"], es)), what + ": eigenenergies")
        X.claim(a["restrictions"] == restr, what + ": restrictions")
        return a

    def on(a, name, m, sign, d, what):
        X.claim(len(a) == len(mesh[m]), what + ": mesh")
        X.eqs([(x, y * sign) for x, y in zip(a, mesh[m])], what + ": mesh")
        X.claim(X.eq(d, br[name] * sign), what + ": broadening")
    real_gs, real_rm = sp.getSpectra, sp.getRIXSmap

    def getSpectra(*args, **kws):
        b = inspect.signature(real_gs).bind(*args, **kws)
        b.apply_defaults()
        ops = b.arguments["tOps"]
        k = kind(ops[0])
        if k is None:     # NIXS between d and p shells has the form of a dipole operator: tell them apart by the length of the mesh
            k = "NIXS" if len(b.arguments["w"]) == cfg["nwl"] else "XAS"
        seen.append(k)
        a = common(b, ops, k)
        X.claim(len(ops) == sizes[k], k + ": number of operators")
        for o, r in zip(ops, ref[k]):
            same_op(X, o, r, k + ": operators")
        s = -1 if k in ("PS", "XPS") else 1
        if k == "NIXS":
            on(a["w"], "deltaNIXS", "wLoss", 1, a["delta"], k)
        else:
            on(a["w"], "delta", "w", s, a["delta"], k)
        return X.array(G[k])

    def getRIXSmap(*args, **kws):
        b = inspect.signature(real_rm).bind(*args, **kws)
        b.apply_defaults()
        seen.append("RIXS")
        a = common(b, None, "RIXS")
        for key, r in (("tOpsIn", "in"), ("tOpsOut", "out")):
            X.claim(len(a[key]) == sizes[r], "RIXS: number of operators")
            for o, p in zip(a[key], ref[r]):
                same_op(X, o, p, "RIXS: operators, " + r)
        on(a["wIns"], "delta", "wIn", 1, a["delta1"], "RIXS, incoming photon")
        on(a["wLoss"], "deltaRIXS", "wLoss", 1, a["delta2"], "RIXS, energy loss")
        return X.array(G["RIXS"])
    sp.getSpectra, sp.getRIXSmap = getSpectra, getRIXSmap
    arr = {k: X.array(v, "f") for k, v in mesh.items()}
    params = dict(es=tuple(es), psis=tuple(psis), hOp=hOp, T=T, w=arr["w"], delta=br["delta"], epsilons=eps["xas"], wLoss=arr["wLoss"], deltaNIXS=br["deltaNIXS"], qsNIXS=qs,
                  liNIXS=li, ljNIXS=lj, RiNIXS=rad[0], RjNIXS=rad[1], radialMesh=rad[2], wIn=arr["wIn"], deltaRIXS=br["deltaRIXS"], epsilonsRIXSin=eps["in"],
                  epsilonsRIXSout=eps["out"], restrictions=restr, h5f=h5 if not rank else None, nBaths=nB)
    sp.simulate_spectra(**params)
    for k in ("IPS", "PS", "XPS", "NIXS", "XAS", "RIXS"):
        X.claim(k in seen, "the %s Green's functions are calculated" % k)

    def minus_im(k):
        return -X.array(G[k]).imag
    want = {"PS": minus_im("IPS") - minus_im("PS"), "XPS": -minus_im("XPS"), "NIXS": minus_im("NIXS"), "XAS": minus_im("XAS"), "RIXS": minus_im("RIXS")}
    thermal = {k: av.thermal_average(es, v, T=T) for k, v in want.items()}
    return W, h5, texts, want, thermal, mesh


def flat(a):
    import numpy as np
    return [a[i] for i in np.ndindex(a.shape)]


def run(X, cfg):
    import numpy as np
    q = cfg["q"]
    with scratch(["plotRIXS.py"]):
        if q == "plot":
            return plotted(X, cfg)
        if q == "nofile":
            rec = Recorder()
            W = X.world(extra_modules=rec.module())
            m = W.load("impurityModel.plotScripts.plotRIXS")
            for argv in (["x"], ["x", "no.bin"], ["x", "a", "b"]):
                sys.argv = argv
                try:
                    m.main()
                    stopped = False
                except SystemExit as e:
                    stopped = e.code not in (0, None)
                X.claim(stopped, "stops with a message when there is no such file")
            X.reach("stopped")
            return
        if q == "rank":
            W, h5, texts, want, thermal, mesh = simulate(X, cfg, rank=1)
            X.claim(not texts and not os.listdir("."), "only one rank writes files")
            return
        W, h5, texts, want, thermal, mesh = simulate(X, cfg)
        if q == "file":
            return rixs_file(X, cfg, W, thermal, mesh)
        for k, v in want.items():
            for name, ref in ((k, v), (k + "thermal", thermal[k])):
                X.claim(name in h5.d, "dataset %s is stored" % name)
                d = h5.d.get(name)
                X.claim(d is not None and np.shape(d) == ref.shape, "shape of dataset " + name, lambda: "%s %s" % (np.shape(d), ref.shape))
                if d is not None and np.shape(d) == ref.shape:
                    X.eqs(list(zip(flat(d), flat(ref))), "dataset " + name)
        X.claim(h5.closed, "the file with the datasets is closed")
        for k in ("PS", "XPS", "NIXS", "XAS"):
            X.claim(k + ".dat" in texts, "text file %s.dat is written" % k)
            if k + ".dat" not in texts:
                continue
            x, fmt, header = texts[k + ".dat"]
            a, m = thermal[k], mesh["wLoss" if k == "NIXS" else "w"]
            X.claim(np.shape(x) == (len(m), a.shape[0] + 2), "shape of the table in %s.dat" % k)
            if np.shape(x) != (len(m), a.shape[0] + 2):
                continue
            for i in range(len(m)):
                X.claim(X.eq(x[i, 0], m[i]), k + ".dat: mesh")
                X.claim(X.eq(x[i, 1], sum((a[t, i] for t in range(1, a.shape[0])), a[0, i])), k + ".dat: sum over operators")
                X.eqs([(x[i, 2 + t], a[t, i]) for t in range(a.shape[0])], k + ".dat: single operators")
            X.claim(isinstance(fmt, str) and abs(float(fmt % 1.23456789) - 1.23456789) < 1e-4 and abs(float(fmt % -123.456) + 123.456) < 1e-3, k + ".dat: format")
        X.reach("stored")


def rixs_file(X, cfg, W, thermal, mesh):
    import numpy as np
    X.claim(os.path.isfile("RIXS.bin"), "RIXS.bin is written")
    a = thermal["RIXS"]
    I = [[sum((a[i, o, k, j] for i in range(a.shape[0]) for o in range(a.shape[1]) if (i, o) != (0, 0)), a[0, 0, k, j]) for k in range(a.shape[2])] for j in range(a.shape[3])]
    if cfg["given"]:
        name = "other.bin"
        os.rename("RIXS.bin", name)
        if X.symbolic:
            X.ctx.files[os.path.abspath(name)] = X.ctx.files.pop(os.path.abspath("RIXS.bin"))
        sys.argv = ["plotRIXS.py", name]
    rec = Recorder()
    W2 = X.world(extra_modules=rec.module())
    m = W2.load("impurityModel.plotScripts.plotRIXS")
    m.main()
    X.claim(len(rec.images) == 1, "one map is drawn")
    if len(rec.images) != 1:
        return
    _, _, img, kw = rec.images[0]
    wIn, wL = mesh["wIn"], mesh["wLoss"]
    X.claim(np.shape(img) == (len(wL), len(wIn)), "shape of the map")
    if np.shape(img) != (len(wL), len(wIn)):
        return
    tol = 1e-5
    for j in range(len(wL)):
        for k in range(len(wIn)):
            v = img[j, k]
            if isinstance(v, (float, np.floating)) and v != v:
                X.claim(X.ge(1e-6 + 1e-9, I[j][k]), "only vanishing intensities are left out of the map")
            else:
                X.claim(X.close(v, I[j][k], 1e-9 if X.symbolic else tol * (1 + abs(I[j][k]))), "intensity in the map")
    ext = kw.get("extent")
    want = (wIn[0] - (wIn[1] - wIn[0]) / 2, wIn[-1] + (wIn[1] - wIn[0]) / 2, wL[0] - (wL[1] - wL[0]) / 2, wL[-1] + (wL[1] - wL[0]) / 2)
    X.claim(ext is not None and len(ext) == 4, "extent of the map")
    for x, y in zip(ext, want):
        X.claim(X.close(x, y, 1e-9 if X.symbolic else 1e-4), "meshes of the map")
    X.claim(kw.get("origin") == "lower", "orientation of the map")
    X.reach("map drawn")


def plotted(X, cfg):
    import numpy as np
    only = cfg.get("only")
    nw, nwi, nwl = 2, 3, 2
    f = lambda n: X.real(n, 0.01, 9)
    w, wL = [X.real("w0", -9, 0), X.real("w1", 0, 9)], [X.real("wL0", -9, 9), X.real("wL1", -9, 9)]
    wIn = [-7.0, -0.25, 13.0]
    data = {"w": X.array(w, "f"), "wIn": np.array(wIn), "wLoss": X.array(wL, "f"), "qsNIXS": np.array([[1.0, 0, 0], [0, 2.0, 0]][:cfg["n"]])}
    dims = {"PSthermal": (3, nw), "XPSthermal": (2, nw), "XASthermal": (3, nw), "NIXSthermal": (cfg["n"], nwl), "RIXSthermal": (3, 3, nwi, nwl)}
    if only:
        if only.endswith("no momenta"):
            only = only.split()[0]
            del data["qsNIXS"]
        dims = {only: dims[only]}
    D = {k: table(X, k, d, f) for k, d in dims.items()}
    data.update({k: X.array(v, "f") for k, v in D.items()})
    h5, names = H5(data), []
    import types
    h5py = types.ModuleType("h5py")

    def File(name, mode="r", *a, **k):
        names.append((name, mode))
        return h5
    h5py.File = File
    rec = Recorder()
    mods = rec.module()
    mods["h5py"] = h5py
    W = X.world(extra_modules=mods)
    m = W.load("impurityModel.plotScripts.plotSpectra")
    m.plot_spectra_in_file("some.h5")
    X.claim([(str(a), b) for a, b in names] == [("some.h5", "r")], "the named file is read, and only read")

    def total(v, i):
        return sum((x[i] for x in v[1:]), v[0][i])
    lines = list(rec.lines)

    def line(x, y, label):
        """one of the remaining lines has these values"""
        if not lines:
            X.claim(False, label)
            return
        pick = 0
        for n, (_, _, gx, gy, _) in enumerate(lines):
            if len(gx) == len(x) and len(gy) == len(y) and all(X.eq(p, q) is True for p, q in list(zip(gx, x)) + list(zip(gy, y))):
                pick = n
                break
        _, tag, gx, gy, lab = lines.pop(pick)
        X.claim(len(gx) == len(x) and len(gy) == len(y), label + ": number of points")
        if len(gx) == len(x) and len(gy) == len(y):
            X.eqs(list(zip(gx, x)), label + ": mesh")
            X.eqs(list(zip(gy, y)), label + ": values")
        return tag
    for k in ("PSthermal", "XPSthermal", "XASthermal"):
        if k in D:
            line(w, [total(D[k], i) for i in range(nw)], k)
            if k == "XASthermal" and "RIXSthermal" in D:
                R = D["RIXSthermal"]
                dl = (wL[1] - wL[0]) / (3 * X.rat(1) * np.pi)
                line(wIn, [sum(R[a][b][i][j] for a in range(3) for b in range(3) for j in range(nwl)) * dl for i in range(nwi)], "fluorescence yield")
                low = [j for j in range(nwl) if bool(wL[j] < 0.2)]
                line(wIn, [sum((R[a][b][i][j] for a in range(3) for b in range(3) for j in low), 0 * R[0][0][0][0]) * dl for i in range(nwi)], "quasi-elastic fluorescence yield")
    if "NIXSthermal" in D:
        for i in range(cfg["n"]):
            line(wL, D["NIXSthermal"][i], "NIXSthermal")
    if "RIXSthermal" in D:
        R = D["RIXSthermal"]
        S = [[sum(R[a][b][i][j] for a in range(3) for b in range(3)) for j in range(nwl)] for i in range(nwi)]
        for row, (lo, hi, off) in enumerate(((-7, 2, 1.5), (11, 16, 1))):
            for e in range(hi - 1, lo - 1, -1):
                i = min(range(nwi), key=lambda q: abs(wIn[q] - e))
                tag = line(wL, [S[i][j] + off * (e - lo) for j in range(nwl)], "energy-loss spectrum at %d eV" % e)
        X.claim(len(rec.images) == 10, "number of maps")
        for n, (_, tag, img, kw) in enumerate(rec.images):
            if n == 0:
                ref = S
            else:
                a, b = divmod(n - 1, 3)
                ref = R[a][b]
                X.claim(tag == (a, b), "position of the maps of single polarisations")
            ok = np.shape(img) == (nwl, nwi)
            X.claim(ok, "shape of the maps")
            if ok:
                X.eqs([(img[j, i], ref[i][j]) for i in range(nwi) for j in range(nwl)], "RIXS map" + (" of single polarisations" if n else ""))
            dx, dy = wIn[1] - wIn[0], wL[1] - wL[0]
            X.eqs(list(zip(kw["extent"], (wIn[0] - dx / 2, wIn[-1] + dx / 2, wL[0] - dy / 2, wL[-1] + dy / 2))), "meshes of the maps")
            X.claim(kw.get("origin") == "lower", "orientation of the maps")
    X.claim(not lines, "no other curve is drawn")
    X.reach("plotted")
