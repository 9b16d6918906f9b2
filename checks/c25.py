"""C25: NIXS transition operators are the plane-wave matrix elements for every q."""
from math import factorial, pi, sqrt
from checks.c17 import ck
from checks.c20 import index
METHOD = ("getNIXSOperator(s) are executed with symbolic momentum transfer (generic, and along axes and planes), radial functions, radial mesh; angles are represented by their cosine and sine, scipy's sph_harm by its "
          "defining polynomial in them, spherical_jn by an uninterpreted function; z3 / polynomial identity decides that each matrix element equals the multipole sum written with solid harmonics of the Cartesian "
          "components, independently computed Gaunt coefficients and the trapezoidal radial integral, on the right spin-orbitals.")
BOUNDS = "all real q of each zero pattern (7 patterns, any signs); shells p->d, d->d, p->p, s->d, d->p, d->f; radial meshes of 2-3 points with symbolic positions and functions; kmin 0-3; 4 bath layouts."
OUTSIDE = "rounding; the values of spherical Bessel functions and scipy's sph_harm themselves; q = 0."
TOL = 1e-6
LAY = {"p0 d10": [(1, 0), (2, 10)], "p2 d3": [(1, 2), (2, 3)], "d2 p1": [(2, 2), (1, 1)], "s1 d0": [(0, 1), (2, 0)], "d1 f2": [(2, 1), (3, 2)]}
DIRS = ("xyz", "z", "x", "y", "xy", "xz", "yz")
HISTORY = 6


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        k.setdefault("n", 2)
        k.setdefault("kmin", 1)
        out.append(dict(name=name, max_coinc=0, free_coinc=True, deadline=250 if not T else 700, **k))
    for lay, li, lj in (("p0 d10", 2, 1), ("p2 d3", 2, 2), ("d2 p1", 1, 1), ("d2 p1", 1, 2), ("s1 d0", 2, 0), ("d1 f2", 3, 2), ("p0 d10", 1, 2)) + ((("d1 f2", 3, 3),) if T else ()):
        for d in DIRS if lj < 2 or T or (li, lj) == (2, 2) else DIRS[:2]:
            add("q along %s, shells %d->%d, baths %s" % (d, lj, li, lay), d=d, lay=lay, li=li, lj=lj, weight=li + lj)
    for k in (0, 2, 3, 4):
        add("lowest multipole %d, 2->2" % k, d="xyz", lay="p2 d3", li=2, lj=2, kmin=k, weight=4)
    add("3 mesh points, complex radial functions", d="xyz", lay="d2 p1", li=2, lj=1, n=3, cplx=True, weight=4)
    add("several q", d="list", lay="p2 d3", li=2, lj=1, kmin=0, weight=5)
    add("several q, default multipoles", d="list", lay="p2 d3", li=2, lj=2, kmin=None, weight=5)
    add("several q, 2->2 with monopole", d="list", lay="p2 d3", li=2, lj=2, kmin=0, weight=5)
    add("several q of one length", d="list", rel="xyz", how="length", lay="p2 d3", li=2, lj=2, kmin=None, weight=5)
    add("several q of one length on the axes", d="list", rel="y", how="length", lay="p2 d3", li=2, lj=1, kmin=0, weight=5)
    add("several q along one line", d="list", rel="xyz", how="direction", lay="p2 d3", li=2, lj=2, kmin=None, weight=5)
    add("several q along one axis", d="list", rel="x", how="direction", lay="p2 d3", li=2, lj=1, kmin=0, weight=5)
    add("a q given twice", d="list", rel="xyz", how="again", lay="p2 d3", li=2, lj=1, kmin=0, weight=5)
    return out


class Angle:
    """an angle given by its cosine and sine"""
    def __init__(self, c, s):
        self.c, self.s = c, s

    def __neg__(self):
        return Angle(self.c, -self.s)

    def __add__(self, o):
        o = angle(o)
        return Angle(self.c * o.c - self.s * o.s, self.s * o.c + self.c * o.s)
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-angle(o))

    def __rsub__(self, o):
        return angle(o) + (-self)

    def __str__(self):
        return "<angle>"
    __format__ = lambda self, spec: "<angle>"


def angle(a):
    import math
    return a if isinstance(a, Angle) else Angle(math.cos(a), math.sin(a))


def stubs(X):
    """symbolic stand-ins for the trigonometric and special functions"""
    import math
    import numpy as np
    if not X.symbolic:
        return {}
    from symx import num
    from symx.num import Num

    def sym(*v):
        return any(isinstance(x, Num) for x in v)

    def arccos(c):
        if not sym(c):
            return np.arccos(c)
        return Angle(c, (1 - c * c).sqrt())

    def arctan2(y, x):
        if not sym(x, y):
            return np.arctan2(float(y), float(x))
        r = (Num.lift(x * x) + y * y).sqrt()
        return Angle(x / r, y / r)

    def arctan(t):
        if not sym(t):
            return np.arctan(t)
        r = (1 + t * t).sqrt()
        return Angle(1 / r, t / r)

    def cos(a):
        return a.c if isinstance(a, Angle) else np.cos(a)

    def sin(a):
        return a.s if isinstance(a, Angle) else np.sin(a)

    def sph_harm(m, n, azimuth, polar):
        m, n = int(m), int(n)
        if abs(m) > n:
            return 0
        if m < 0:
            return (sph_harm(-m, n, azimuth, polar) * (-1) ** m).conjugate()
        az, po = angle(azimuth), angle(polar)
        # m-th derivative of the Legendre polynomial
        co = np.polynomial.legendre.leg2poly([0] * n + [1])
        co = np.polynomial.polynomial.polyder(co, m) if m else co
        p = 0
        for k, a in enumerate(co):
            if a:
                p = p + po.c ** k * float(a) if k else p + float(a)
        y = (-1) ** m * math.sqrt((2 * n + 1) / (4 * pi) * factorial(n - m) / factorial(n + m)) * p
        e = az.c + 1j * az.s
        for _ in range(m):
            y = y * po.s * e
        return y + 0j

    def jn(n, z, derivative=False):
        if derivative:
            raise num.Unsupported("derivative of spherical_jn")
        def one(v):
            if not sym(v):
                import scipy.special
                return scipy.special.spherical_jn(n, float(v))
            a = num.new_atom("j%d" % n, "uf", key=("jn", n, num.canon_key(v.re)))
            return Num({((a.id, 1),): 1})
        if hasattr(z, "shape") and getattr(z, "shape", ()) != ():
            return X.array([one(v) for v in z], "f")
        if isinstance(z, (list, tuple)):
            return X.array([one(v) for v in z], "f")
        return one(z)
    return dict(numpy_extra=dict(arccos=arccos, arctan2=arctan2, arctan=arctan, cos=cos, sin=sin),
                math_extra=dict(acos=arccos, atan2=arctan2, atan=arctan, cos=cos, sin=sin),
                special=dict(sph_harm=sph_harm, spherical_jn=jn)), jn


def solid(m, k, x, y, z, n):
    """Y_km of the direction (x, y, z)/n from the solid-harmonic expansion"""
    t = 0
    for p in range(k + 1):
        q = p - m
        s = k - p - q
        if q < 0 or s < 0:
            continue
        v = (-1) ** p / (2 ** (p + q) * factorial(p) * factorial(q) * factorial(s)) + 0j
        for f, e in ((x + 1j * y, p), (x - 1j * y, q), (z, s)):
            for _ in range(e):
                v = v * (f / n)
        t = t + v
    return t * sqrt((2 * k + 1) / (4 * pi) * factorial(k - m) * factorial(k + m))


def vector(X, d, tag=""):
    v = [X.real("q" + c + tag, -6, 6) if c in d else 0 for c in "xyz"]
    for c, x in zip("xyz", v):
        if c in d:
            X.assume(X.OR(x >= 0.05, x <= -0.05))
    return v


def reference(X, jn, nB, q, li, lj, Ri, Rj, r, kmin):
    n = X.sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2])
    ref = {}
    for k in range(kmin, li + lj + 1):
        if (li + lj + k) % 2 or k < abs(li - lj):
            continue
        f = [X.conj(a + 0j) * jn(k, n * x) * b * x * x for a, b, x in zip(Ri, Rj, r)]
        R = 0
        for i in range(len(r) - 1):
            R = R + (f[i] + f[i + 1]) * (r[i + 1] - r[i]) * 0.5
        for mi in range(-li, li + 1):
            for mj in range(-lj, lj + 1):
                if abs(mi - mj) > k:
                    continue
                c = ck(k, li, mi, lj, mj)
                if c == 0:
                    continue
                t = R * 1j ** k * sqrt(2 * k + 1) * c * X.conj(solid(mi - mj, k, *q, n) + 0j)
                for s in (0, 1):
                    key = (index(nB, (li, s, mi)), "c"), (index(nB, (lj, s, mj)), "a")
                    ref[key] = ref.get(key, 0) + t
    return ref


def compare(X, op, ref, what):
    for p, v in op.items():
        if p not in ref:
            X.claim(X.eq(v, 0), what + "no other process", repr(p))
    for p, v in ref.items():
        X.claim(X.eq(op.get(p, 0), v), what + "plane-wave matrix element", repr(p))


def run(X, cfg):
    from collections import OrderedDict
    nB = OrderedDict([tuple(p) for p in LAY[cfg["lay"]]])
    if X.symbolic:
        kw, jn = stubs(X)
    else:
        import scipy.special
        kw, jn = {}, lambda k, z: float(scipy.special.spherical_jn(k, z))
    sp = X.world(**kw).ed("spectra")
    li, lj, kmin = cfg["li"], cfg["lj"], cfg["kmin"]
    f = X.cplx if cfg.get("cplx") else X.real
    n = cfg["n"]
    Ri, Rj = [f("Ri%d" % i, -2, 2) for i in range(n)], [f("Rj%d" % i, -2, 2) for i in range(n)]
    r = [X.real("r%d" % i, 0.1, 9) for i in range(n)]
    X.assume(X.AND(*[r[i + 1] - r[i] >= 0.1 for i in range(n - 1)]))
    knd = "c" if cfg.get("cplx") else "f"
    arr = X.array(Ri, knd), X.array(Rj, knd), X.array(r, "f")
    if cfg["d"] == "list":
        if cfg.get("rel"):
            a = vector(X, cfg["rel"], "a")
            qs = {"length": [a, [a[1], a[2], a[0]], [a[2], a[0], a[1]]], "direction": [a, [2 * x for x in a], [-x for x in a]],
                  "again": [a, vector(X, "z", "b"), a]}[cfg["how"]]
        else:
            qs = [vector(X, "xyz", "a"), vector(X, "z", "b"), vector(X, "y", "c")]
        ops = sp.getNIXSOperators(nB, [list(q) for q in qs], li, lj, *arr, **({} if kmin is None else {"kmin": kmin}))
        X.reach("operators")
        X.claim(len(ops) == 3, "one operator per q")
        for q, o in zip(qs, ops):
            compare(X, o, reference(X, jn, nB, q, li, lj, Ri, Rj, r, 1 if kmin is None else kmin), "list of q: ")
        return
    q = vector(X, cfg["d"])
    op = sp.getNIXSOperator(nB, list(q), li, lj, *arr) if kmin == 1 else sp.getNIXSOperator(nB, list(q), li, lj, *arr, kmin)
    X.reach("operator")
    compare(X, op, reference(X, jn, nB, q, li, lj, Ri, Rj, r, kmin), "")
    for a, b in zip(arr, (Ri, Rj, r)):
        X.eqs(zip(list(a), b), "arguments unchanged")
