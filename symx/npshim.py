"""numpy/scipy stand-ins used while executing the code under test symbolically.

Arrays that may hold symbolic numbers are real numpy arrays of dtype object (class SymArr), so indexing, broadcasting
and aliasing behave as in numpy; element arithmetic is done by the symbolic numbers."""
import os, types, math, functools
import numpy as np
import scipy
from . import core, num
from .core import Unsupported, SymBool
from .num import Num


def is_sym(x):
    return isinstance(x, Num) or type(x).__name__ in ("SymInt", "SymBool")


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, SymArr):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(e) for e in x.flat)
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    return False


class SymArr(np.ndarray):
    """object array with numpy float/complex semantics (kind 'f' or 'c')"""
    kind_ = "c"
    item_ = None      # numpy dtype asked for, when it is not the default one (matters for binary files only)

    def __array_finalize__(self, obj):
        self.kind_ = getattr(obj, "kind_", "c")
        self.item_ = getattr(obj, "item_", None)

    def itemtype(self):
        return self.item_ or ("<f8" if self.kind_ == "f" else "<c16")

    def tofile(self, fid, sep="", format="%s"):
        """binary files are kept by the engine; an empty file marks their existence"""
        if sep:
            raise Unsupported("tofile in text mode")
        name = os.path.abspath(fid)
        core.CTX.files[name] = (self.itemtype(), [self[i] for i in np.ndindex(self.shape)])
        open(name, "wb").close()

    @staticmethod
    def wrap(x, kind="c"):
        a = np.asarray(x, dtype=object).view(SymArr)
        a.kind_ = kind
        return a

    @property
    def real(self):
        return SymArr.wrap(_emap(lambda v: v.real, self), "f")

    @real.setter
    def real(self, v):
        v = np.broadcast_to(np.asarray(v, dtype=object), self.shape)
        for i in np.ndindex(self.shape):
            np.ndarray.__setitem__(self, i, Num.lift(v[i]).real + Num.lift(np.ndarray.__getitem__(self, i)).imag * 1j)

    @property
    def imag(self):
        return SymArr.wrap(_emap(lambda v: v.imag, self), "f")

    @imag.setter
    def imag(self, v):
        v = np.broadcast_to(np.asarray(v, dtype=object), self.shape)
        for i in np.ndindex(self.shape):
            np.ndarray.__setitem__(self, i, Num.lift(np.ndarray.__getitem__(self, i)).real + Num.lift(v[i]).real * 1j)

    def conjugate(self, *a, **k):
        return SymArr.wrap(_emap(lambda v: v.conjugate(), self), self.kind_)
    conj = conjugate

    def astype(self, dtype, *a, **k):
        d = norm_dtype(dtype)
        if d is object:
            return SymArr.wrap(np.array(self), self.kind_)
        if d in (complex,):
            return _typed(SymArr.wrap(np.array(self), "c"), dtype)
        if d is float:
            return _typed(SymArr.wrap(_emap(lambda v: v.real, self), "f"), dtype)
        return np.array([x for x in self.flat]).astype(d).reshape(self.shape)

    def _idx(self, k):
        if isinstance(k, np.ndarray) and k.dtype == object:
            if k.size and all(isinstance(x, (bool, np.bool_, SymBool)) for x in k.flat):
                return np.array([bool(x) for x in k.flat], dtype=bool).reshape(k.shape)
            return np.array([int(x) for x in k.flat], dtype=int).reshape(k.shape)
        if isinstance(k, tuple):
            return tuple(self._idx(x) for x in k)
        if type(k).__name__ in ("SymInt",):
            return int(k)
        if isinstance(k, list) and any(isinstance(x, SymBool) for x in k):
            return np.array([bool(x) for x in k])
        return k

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, self._idx(k))
        return r

    def __setitem__(self, k, v):
        k = self._idx(k)
        if self.kind_ == "f":
            if isinstance(v, Num):
                if v.im:
                    v = v.real
            elif isinstance(v, complex):
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            elif isinstance(v, np.ndarray) and v.dtype == object:
                v = np.asarray(_emap(lambda t: t.real, v))
        if isinstance(v, (np.floating, np.complexfloating, np.integer)):
            v = v.item()
        np.ndarray.__setitem__(self, k, v)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0 and not isinstance(arr, np.generic):
            return arr.item() if return_scalar or True else arr
        r = arr.view(SymArr) if arr.dtype == object else np.asarray(arr)
        if isinstance(r, SymArr):
            r.kind_ = "c"
        return r


def _emap(f, a):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = f(np.ndarray.__getitem__(a, i))
    return out


def norm_dtype(d):
    if d is None:
        return None
    n = getattr(d, "_symx_base", None)
    if n is not None:
        d = n
    if d is object or d is bool:
        return d
    try:
        dd = np.dtype(d)
    except TypeError:
        return d
    if dd.kind == "c":
        return complex
    if dd.kind == "f":
        return float
    if dd.kind in "iu":
        return int
    if dd.kind == "O":
        return object
    if dd.kind == "b":
        return bool
    return d


def _alloc(shape, dtype, fill):
    d = norm_dtype(dtype)
    if d is None:
        d = float
    if d in (int, bool):
        return np.full(_shape(shape), fill, dtype=d)
    a = np.empty(_shape(shape), dtype=object)
    a[...] = fill
    return _typed(SymArr.wrap(a, "f" if d is float else "c"), dtype)


def _typed(a, dtype):
    """remember single precision (values themselves are not rounded)"""
    try:
        n = np.dtype(getattr(dtype, "_symx_base", dtype)).str
    except TypeError:
        n = None
    a.item_ = n if n in ("<f4", "<c8") else None
    return a


def np_fromfile(file, dtype=float, count=-1, sep="", offset=0, **k):
    name = os.path.abspath(file)
    if sep or count != -1 or offset or name not in core.CTX.files:
        raise Unsupported("fromfile")
    t, vals = core.CTX.files[name]
    want = np.dtype(getattr(dtype, "_symx_base", dtype)).str
    core.CTX.claim(t == want, "binary file read with the item type it was written with", "%s %s" % (t, want))
    return _typed(SymArr.wrap(vals, "f"), dtype)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return int(s)


class Shim(types.ModuleType):
    """Delegates to the real module, with overrides."""

    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        for k, v in over.items():
            self.__dict__[k] = v

    def __getattr__(self, k):
        return getattr(self.__dict__["_real"], k)


def _out(r):
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArr):
        return SymArr.wrap(r)
    return r


def _delegate(f):
    """call the real numpy function with engine-level dtypes translated and object results wrapped"""
    @functools.wraps(f)
    def g(*a, **k):
        if "dtype" in k and k["dtype"] is not None:
            d = norm_dtype(k["dtype"])
            if any(has_sym(x) for x in a):
                k.pop("dtype")
            else:
                k["dtype"] = d
        return _out(f(*a, **k))
    return g


def np_array(x, dtype=None, copy=True, **kw):
    d = norm_dtype(dtype)
    if isinstance(x, SymArr) or has_sym(x):
        if d is float:
            return SymArr.wrap(_emap(lambda v: v.real if hasattr(v, "real") else v, np.array(x, dtype=object)), "f")
        r = SymArr.wrap(np.array(x, dtype=object), getattr(x, "kind_", "c"))
        if d is complex:
            r.kind_ = "c"
        return r
    if isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], dict):
        a = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            a[i] = v
        return a
    if d is None:
        r = np.array(x)
    else:
        r = np.array(x, dtype=d)
    return r


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, SymArr) and norm_dtype(dtype) in (None, object, complex):
        return x
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    return np_array(x, dtype)


def np_copy(x, **k):
    if isinstance(x, np.ndarray):
        return x.copy()
    return np_array(x)


def np_zeros_like(x, dtype=None, **k):
    if isinstance(x, SymArr) or (isinstance(x, np.ndarray) and x.dtype.kind in "fcO"):
        kind = getattr(x, "kind_", "f" if x.dtype.kind == "f" else "c")
        if dtype is not None:
            return _alloc(x.shape, dtype, 0)
        return _alloc(x.shape, complex if kind == "c" else float, 0)
    if has_sym(x):
        return _alloc(np.shape(x), dtype or complex, 0)
    if isinstance(x, np.ndarray):
        return np.zeros_like(x, dtype=norm_dtype(dtype))
    return _alloc(np.shape(x), dtype, 0)


def np_eye(n, M=None, k=0, dtype=None, **kw):
    M = n if M is None else M
    a = _alloc((n, M), dtype, 0)
    for i in range(n):
        if 0 <= i + k < M:
            a[i, i + k] = 1
    return a


def np_real(x):
    return x.real if hasattr(x, "real") else np_array(x).real


def np_imag(x):
    return x.imag if hasattr(x, "imag") else np_array(x).imag


def np_conj(x, *a, **k):
    if isinstance(x, SymArr):
        return x.conjugate()
    if isinstance(x, Num):
        return x.conjugate()
    if isinstance(x, (list, tuple)) and has_sym(x):
        return np_array(x).conjugate()
    return np.conj(x)


def _unary(name, realf, numf):
    def f(x, *a, **k):
        if isinstance(x, Num):
            return numf(x)
        if isinstance(x, (list, tuple)) and has_sym(x):
            x = np_array(x)
        if isinstance(x, SymArr) or (isinstance(x, np.ndarray) and x.dtype == object):
            return SymArr.wrap(_emap(lambda v: numf(Num.lift(v)), x), "f")
        return realf(x, *a, **k)
    f.__name__ = name
    return f


def _safe_sqrt(v):
    c = v.const()
    if c is not None and not isinstance(c, complex) and c < 0:
        return float("nan")
    return v.sqrt()


np_sqrt = _unary("sqrt", np.sqrt, _safe_sqrt)
np_abs = _unary("abs", np.abs, lambda v: abs(v))
np_exp = _unary("exp", np.exp, lambda v: v.exp())
np_square = _unary("square", np.square, lambda v: v * v)


def np_dot(a, b, *r):
    if hasattr(a, "_symcsr"):
        return a.dot(b)
    a, b = _arr(a), _arr(b)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and (a.dtype == object or b.dtype == object):
        res = np.dot(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        return _out(res)
    return np.dot(a, b)


def _arr(a):
    if isinstance(a, (list, tuple)) and has_sym(a):
        return np_array(a)
    return a


def np_vdot(a, b):
    a, b = _arr(a), _arr(b)
    return np_dot(np_conj(np.ravel(a)), np.ravel(b))


def np_matmul(a, b, *r):
    if hasattr(a, "_symcsr"):
        return a.dot(b)
    return np_dot(a, b) if np.ndim(a) <= 2 and np.ndim(b) <= 2 else _out(np.matmul(np.asarray(a), np.asarray(b)))


def np_sum(x, axis=None, **k):
    if hasattr(x, "_symcsr"):
        return x.sum(axis)
    x = _arr(x)
    if isinstance(x, types.GeneratorType):
        return sum(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        if x.size == 0 and axis is None:
            return 0
        r = np.add.reduce(np.asarray(x), axis=tuple(range(x.ndim)) if axis is None else axis)
        return SymArr.wrap(r, getattr(x, "kind_", "c")) if isinstance(r, np.ndarray) else r
    return np.sum(x, axis=axis, **k)


def np_norm(x, ord=None, axis=None, **k):
    x = _arr(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        if axis is not None or ord not in (None, 2):
            raise Unsupported("norm")
        return np_sqrt(Num.lift(sum(abs(v) ** 2 for v in x.flat)))
    return np.linalg.norm(x, ord=ord, axis=axis, **k)


def np_shape(x):
    if isinstance(x, Num):
        return ()
    if hasattr(x, "shape"):
        return x.shape
    if isinstance(x, (list, tuple)) and has_sym(x):
        return np.array(x, dtype=object).shape
    return np.shape(x)


def np_trapz(y, x=None, dx=1.0, axis=-1):
    y, x = _arr(y), _arr(x)
    if isinstance(y, np.ndarray) and y.dtype == object or isinstance(x, np.ndarray) and x.dtype == object:
        n = len(y)
        s = 0
        for i in range(n - 1):
            h = (x[i + 1] - x[i]) if x is not None else dx
            s = s + h * (y[i + 1] + y[i]) / 2
        return s
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return (getattr(np, "trapz", None) or np.trapezoid)(y, x, dx, axis)


def np_fill_diagonal(a, v, wrap=False):
    v = list(v) if isinstance(v, (list, tuple, np.ndarray)) else [v] * min(a.shape)
    for i in range(min(a.shape)):
        a[i, i] = v[i % len(v)]


def np_diag(v, k=0):
    v = _arr(v)
    if isinstance(v, np.ndarray) and v.dtype == object:
        return _out(np.diag(np.asarray(v), k))
    return np.diag(v, k)


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def one(x, y):
        if is_sym(x) or is_sym(y):
            d = Num.lift(x) - y
            if isinstance(d, Num) and atol >= 0 and rtol >= 0 and num.surely_below(d, atol):
                return True
            if isinstance(d, Num) and atol >= 0 and rtol >= 0:
                # |d| <= atol + rtol |y| without square roots
                y2 = Num.lift(y)
                y2 = y2.real * y2.real + y2.imag * y2.imag
                s = d.real * d.real + d.imag * d.imag - atol ** 2 - y2 * rtol ** 2
                return bool(core.OR(s <= 0, s * s <= y2 * (4 * atol ** 2 * rtol ** 2)))
            return bool(abs(d) <= atol + rtol * abs(Num.lift(y)))
        return bool(np.isclose(x, y, rtol, atol, equal_nan))
    a, b = _arr(a), _arr(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
        if a.dtype != object and b.dtype != object:
            return np.isclose(a, b, rtol, atol, equal_nan)
        return np.array([one(x, y) for x, y in zip(a.flat, b.flat)]).reshape(a.shape)
    return one(a, b)


def np_allclose(a, b, *r, **k):
    return bool(np.all(np_isclose(a, b, *r, **k)))


def np_isfinite(x):
    x = _arr(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([True if is_sym(v) else bool(np.isfinite(v)) for v in x.flat]).reshape(x.shape)
    return True if is_sym(x) else np.isfinite(x)


def np_isnan(x):
    x = _arr(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([False if is_sym(v) else bool(np.isnan(v)) for v in x.flat]).reshape(x.shape)
    return False if is_sym(x) else np.isnan(x)


def np_nonzero(x):
    if hasattr(x, "_symcsr"):
        return x.nonzero()
    return np.nonzero(x)


def np_iscomplexobj(x):
    if isinstance(x, Num):
        return bool(x.im)
    if isinstance(x, SymArr):
        return x.kind_ == "c"
    return np.iscomplexobj(x)


def np_outer(a, b):
    a, b = _arr(a), _arr(b)
    return _out(np.outer(np.asarray(a), np.asarray(b)))


def np_mean(x, axis=None, **k):
    x = _arr(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        n = x.size if axis is None else x.shape[axis]
        return np_sum(x, axis) / n
    return np.mean(x, axis=axis, **k)


def np_average(x, axis=None, weights=None, **k):
    x, weights = _arr(x), _arr(weights)
    if (isinstance(x, np.ndarray) and x.dtype == object) or (isinstance(weights, np.ndarray) and weights.dtype == object):
        x = np_asarray(x)
        if weights is None:
            return np_mean(x, axis)
        w = np_asarray(weights)
        if axis is None:
            return np_sum(x * w) / np_sum(w)
        shape = [1] * x.ndim
        shape[axis] = len(w)
        return np_sum(x * w.reshape(shape), axis) / np_sum(w)
    return np.average(x, axis=axis, weights=weights, **k)


def np_einsum(sub, *ops, **k):
    ops = [np.asarray(_arr(o)) for o in ops]
    if any(o.dtype == object for o in ops):
        k.pop("optimize", None)
        try:
            return _out(np.einsum(sub, *[o.astype(object) for o in ops], **k))
        except TypeError as e:
            raise Unsupported("einsum: %s" % e)
    return np.einsum(sub, *ops, **k)


def np_tensordot(a, b, axes=2):
    return _out(np.tensordot(np.asarray(_arr(a), dtype=object), np.asarray(_arr(b), dtype=object), axes)) if has_sym(a) or has_sym(b) else np.tensordot(a, b, axes)


def np_linspace(a, b, n=50, *r, **k):
    if is_sym(a) or is_sym(b):
        return SymArr.wrap([a + (b - a) * i / (n - 1) for i in range(n)], "f")
    return np.linspace(a, b, n, *r, **k)


def make_numpy(extra=None):
    lin = Shim("numpy.linalg", np.linalg, {"norm": np_norm, "eigh": _unsup("numpy.linalg.eigh"), "eigvalsh": _unsup("eigvalsh"),
                                            "solve": np_solve, "inv": _unsup("inv"), "eig": _unsup("eig")})
    over = dict(
        zeros=lambda shape, dtype=None, order="C", **k: _alloc(shape, dtype, 0),
        ones=lambda shape, dtype=None, order="C", **k: _alloc(shape, dtype, 1),
        empty=lambda shape, dtype=None, order="C", **k: _alloc(shape, dtype, 0),
        full=lambda shape, v, dtype=None, **k: _alloc(shape, dtype if dtype is not None else (complex if is_sym(v) else type(v)), v),
        zeros_like=np_zeros_like, empty_like=np_zeros_like,
        ones_like=lambda x, dtype=None, **k: np_zeros_like(x, dtype) + 1,
        full_like=lambda x, v, **k: np_zeros_like(x) + v,
        array=np_array, asarray=np_asarray, ascontiguousarray=np_asarray, copy=np_copy, asanyarray=np_asarray,
        eye=np_eye, identity=lambda n, dtype=None: np_eye(n, dtype=dtype),
        real=np_real, imag=np_imag, conj=np_conj, conjugate=np_conj, sqrt=np_sqrt, abs=np_abs, absolute=np_abs, exp=np_exp,
        square=np_square, dot=np_dot, vdot=np_vdot, inner=np_dot, matmul=np_matmul, sum=np_sum, shape=np_shape, trapz=np_trapz,
        fill_diagonal=np_fill_diagonal, diag=np_diag, isclose=np_isclose, allclose=np_allclose, isfinite=np_isfinite,
        isnan=np_isnan, nonzero=np_nonzero, iscomplexobj=np_iscomplexobj, outer=np_outer, mean=np_mean, average=np_average,
        einsum=np_einsum, tensordot=np_tensordot, linspace=np_linspace, linalg=lin, fromfile=np_fromfile,
        matrix=lambda x, **k: np_array(x),
        iscomplex=_delegate(np.iscomplex),
    )
    # names numpy 2.0 removed or deprecated stay as in the installed numpy
    if not hasattr(np, "trapz"):
        del over["trapz"]
    else:
        over["trapezoid"] = np_trapz
    for n in ("min", "max", "amin", "amax", "argsort", "sort", "concatenate", "stack", "vstack", "hstack", "cumsum", "prod",
              "where", "ravel", "reshape", "transpose", "kron", "add", "multiply", "subtract", "divide", "argmin", "argmax",
              "minimum", "maximum", "append", "array_equal", "any", "all", "column_stack", "tile", "repeat", "expand_dims",
              "squeeze", "power", "negative", "atleast_1d", "atleast_2d", "moveaxis", "swapaxes", "take", "insert", "delete", "trace",
              "count_nonzero", "flatnonzero", "arange", "nan_to_num", "clip", "isin", "roll", "flip", "broadcast_to", "split"):
        if hasattr(np, n) and n not in over:
            over[n] = _delegate(getattr(np, n))
    if extra:
        over.update(extra)
    return Shim("numpy", np, over)


def _unsup(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


def np_solve(a, b):
    """exact Gaussian elimination (pivot: first structurally non-zero)"""
    a = np.array(a, dtype=object)
    b = np.array(b, dtype=object)
    return _out(solve_exact(a, b))


def solve_exact(a, b):
    n = a.shape[0]
    M = [[Num.lift(a[i, j]) for j in range(n)] for i in range(n)]
    vec = b.ndim == 1
    R = [[Num.lift(b[i])] if vec else [Num.lift(x) for x in b[i]] for i in range(n)]
    for c in range(n):
        p = None
        for r in range(c, n):
            z = num.is_zero(M[r][c])
            if z is True:
                continue
            p = r
            break
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[p] = M[p], M[c]
        R[c], R[p] = R[p], R[c]
        iv = M[c][c].inverse()
        for r in range(n):
            if r != c and num.is_zero(M[r][c]) is not True:
                f = M[r][c] * iv
                for k in range(c, n):
                    M[r][k] = M[r][k] - f * M[c][k]
                for k in range(len(R[r])):
                    R[r][k] = R[r][k] - f * R[c][k]
    X = np.empty((n, len(R[0])), dtype=object)
    for i in range(n):
        iv = M[i][i].inverse()
        for k in range(len(R[i])):
            X[i, k] = R[i][k] * iv
    return X[:, 0] if vec else X


# ---- sparse ----
class SymCSR:
    """exact sparse matrix with the interface of scipy.sparse matrices that numerical code uses"""
    _symcsr = True
    __array_priority__ = 100
    ndim = 2

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        self.d = {}
        if isinstance(arg, SymCSR):
            self.shape = arg.shape
            self.d = dict(arg.d)
            return
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (row, col) = arg
            row, col, data = list(row), list(col), list(data)
            if not (len(row) == len(col) == len(data)):
                raise ValueError("row, column, and data array must all be the same length")
            if shape is None:
                shape = (max(row) + 1, max(col) + 1)
            self.shape = tuple(int(x) for x in shape)
            for v, i, j in zip(data, row, col):
                i, j = int(i), int(j)
                if not (0 <= i < self.shape[0] and 0 <= j < self.shape[1]):
                    raise ValueError("index exceeds matrix dimensions")
                self.d[i, j] = self.d[i, j] + v if (i, j) in self.d else v
            return
        if isinstance(arg, tuple) and len(arg) == 3:
            data, idx, ptr = arg
            self.shape = tuple(shape) if shape else (len(ptr) - 1, max(list(idx) + [-1]) + 1)
            for i in range(len(ptr) - 1):
                for k in range(ptr[i], ptr[i + 1]):
                    j = int(idx[k])
                    self.d[i, j] = self.d.get((i, j), 0) + data[k]
            return
        if isinstance(arg, tuple) and len(arg) == 2:
            self.shape = tuple(int(x) for x in arg)
            return
        if hasattr(arg, "tocoo"):
            m = arg.tocoo()
            self.shape = m.shape
            for i, j, v in zip(m.row, m.col, m.data):
                self.d[int(i), int(j)] = self.d.get((int(i), int(j)), 0) + v.item()
            return
        a = np.asarray(arg, dtype=object)
        if a.ndim == 1:
            a = a.reshape(1, -1)
        self.shape = a.shape
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                v = a[i, j]
                if isinstance(v, Num):
                    if v.re or v.im:
                        self.d[i, j] = v
                elif v != 0:
                    self.d[i, j] = v

    def _new(self, d, shape=None):
        r = SymCSR.__new__(SymCSR)
        r.d = d
        r.shape = shape or self.shape
        return r

    def copy(self):
        return self._new(dict(self.d))

    def _fmt(self, *a, **k):
        return self.copy()
    tocsr = tocsc = tocoo = tolil = todok = tobsr = todia = asformat = _fmt

    def sum_duplicates(self):
        pass
    eliminate_zeros = sort_indices = sum_duplicates

    def astype(self, *a, **k):
        return self.copy()

    @property
    def dtype(self):
        return np.dtype(complex)

    @property
    def nnz(self):
        return len(self.d)

    def getnnz(self, axis=None):
        return len(self.d)

    @property
    def data(self):
        return SymArr.wrap(list(self.d.values()))

    @property
    def row(self):
        return np.array([i for i, _ in self.d], dtype=int)

    @property
    def col(self):
        return np.array([j for _, j in self.d], dtype=int)

    def __deepcopy__(self, memo):
        return self.copy()

    def _bin(self, o, sgn):
        if isinstance(o, SymCSR) or hasattr(o, "tocoo"):
            o = o if isinstance(o, SymCSR) else SymCSR(o)
            if o.shape != self.shape:
                raise ValueError("inconsistent shapes")
            d = dict(self.d)
            for k, v in o.d.items():
                v = v if sgn > 0 else -v
                d[k] = d[k] + v if k in d else v
            return self._new(d)
        if isinstance(o, np.ndarray):
            return self.toarray() + o if sgn > 0 else self.toarray() - o
        if isinstance(o, (int, float)) and o == 0:
            return self.copy()
        raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")

    def __add__(self, o):
        return self._bin(o, 1)

    def __radd__(self, o):
        return self._bin(o, 1)

    def __sub__(self, o):
        return self._bin(o, -1)

    def __rsub__(self, o):
        return (-self)._bin(o, 1)

    def __neg__(self):
        return self._new({k: -v for k, v in self.d.items()})

    def __iadd__(self, o):
        return self + o

    def __isub__(self, o):
        return self - o

    def __mul__(self, o):
        if np.isscalar(o) or isinstance(o, Num):
            return self._new({k: v * o for k, v in self.d.items()})
        return self.dot(o)

    def __rmul__(self, o):
        if np.isscalar(o) or isinstance(o, Num):
            return self._new({k: v * o for k, v in self.d.items()})
        raise Unsupported("rmul")

    def __truediv__(self, o):
        return self._new({k: v / o for k, v in self.d.items()})

    def multiply(self, o):
        if np.isscalar(o) or isinstance(o, Num):
            return self * o
        o = SymCSR(o) if not isinstance(o, SymCSR) else o
        return self._new({k: v * o.d[k] for k, v in self.d.items() if k in o.d})

    def __matmul__(self, o):
        return self.dot(o)

    def dot(self, x):
        if np.isscalar(x) or isinstance(x, Num):
            return self * x
        if isinstance(x, SymCSR):
            d = {}
            for (i, k), v in self.d.items():
                for (k2, j), w in x.d.items():
                    if k == k2:
                        d[i, j] = d[i, j] + v * w if (i, j) in d else v * w
            return self._new(d, (self.shape[0], x.shape[1]))
        x = np.asarray(x, dtype=object)
        if x.shape[0] != self.shape[1]:
            raise ValueError("dimension mismatch")
        out = np.empty((self.shape[0],) + x.shape[1:], dtype=object)
        out[...] = 0
        for (i, j), v in self.d.items():
            out[i] = out[i] + v * x[j]
        return SymArr.wrap(out)
    matvec = _mul_vector = dot

    def toarray(self, *a, **k):
        r = np.empty(self.shape, dtype=object)
        r[...] = 0
        for (i, j), v in self.d.items():
            r[i, j] = v
        return SymArr.wrap(r)
    todense = toarray
    A = property(toarray)

    def transpose(self, *a, **k):
        return self._new({(j, i): v for (i, j), v in self.d.items()}, self.shape[::-1])
    T = property(transpose)

    def conjugate(self, *a, **k):
        return self._new({k_: v.conjugate() for k_, v in self.d.items()})
    conj = conjugate

    def getH(self):
        return self.transpose().conjugate()
    H = property(getH)

    @property
    def real(self):
        return self._new({k: v.real for k, v in self.d.items()})

    @property
    def imag(self):
        return self._new({k: v.imag for k, v in self.d.items()})

    def nonzero(self):
        # structural non-zeros; used by the code under test only for printing
        ks = sorted(k for k, v in self.d.items() if not (isinstance(v, Num) and not v.re and not v.im))
        return (np.array([i for i, _ in ks], dtype=int), np.array([j for _, j in ks], dtype=int))

    def diagonal(self, k=0):
        n = min(self.shape)
        return SymArr.wrap([self.d.get((i, i), 0) for i in range(n)])

    def setdiag(self, v, k=0):
        for i in range(min(self.shape)):
            self.d[i, i] = v[i] if isinstance(v, (list, tuple, np.ndarray)) else v

    def sum(self, axis=None):
        return np_sum(self.toarray(), axis)

    def trace(self):
        return sum(self.d.get((i, i), 0) for i in range(min(self.shape)))

    def __getitem__(self, k):
        if isinstance(k, tuple) and all(isinstance(x, (int, np.integer)) for x in k):
            i, j = (int(k[0]) % self.shape[0], int(k[1]) % self.shape[1])
            return self.d.get((i, j), 0)
        a = self.toarray()[k]
        if isinstance(a, np.ndarray):
            if a.ndim == 1:
                a = a.reshape(1, -1) if not (isinstance(k, tuple) and isinstance(k[1], (int, np.integer))) else a.reshape(-1, 1)
            return SymCSR(a)
        return a

    def __setitem__(self, k, v):
        if isinstance(k, tuple) and all(isinstance(x, (int, np.integer)) for x in k):
            self.d[int(k[0]), int(k[1])] = v
            return
        a = self.toarray()
        a[k] = v.toarray() if isinstance(v, SymCSR) else v
        self.d = SymCSR(a).d

    def getrow(self, i):
        return self._new({(0, j): v for (r, j), v in self.d.items() if r == i}, (1, self.shape[1]))

    def getcol(self, c):
        return self._new({(i, 0): v for (i, j), v in self.d.items() if j == c}, (self.shape[0], 1))

    def items(self):
        return self.d.items()

    def get_shape(self):
        return self.shape


def sp_identity(n, dtype=None, format=None, **k):
    return SymCSR(([1] * n, (range(n), range(n))), shape=(n, n))


def sp_eye(m, n=None, k=0, dtype=None, format=None):
    return sp_identity(m)


def sp_diags(diagonals, offsets=0, shape=None, **k):
    if np.isscalar(offsets):
        v = diagonals
        if len(v) == 1 and hasattr(v[0], "__len__"):
            v = v[0]
        if isinstance(v, Num) or np.isscalar(v):
            v = [v] * shape[0]
        if len(v) == 1 and shape:
            v = [v[0]] * shape[0]
        n = len(v)
        return SymCSR((list(v), (range(n), range(n))), shape=shape or (n, n))
    raise Unsupported("sparse.diags with several offsets")


class CSRMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymCSR)

    def __call__(cls, *a, **k):
        return SymCSR(*a, **k)


class csr_matrix(metaclass=CSRMeta):
    pass


def make_scipy(bicgstab=None, eigsh=None):
    import scipy.sparse, scipy.sparse.linalg, scipy.special, scipy.constants
    lin = Shim("scipy.sparse.linalg", scipy.sparse.linalg if hasattr(scipy, "sparse") else None,
               {"bicgstab": bicgstab or _unsup("bicgstab"), "eigsh": eigsh or _unsup("eigsh"),
                "spsolve": lambda a, b, **k: np_solve(a.toarray(), b)})
    lin.__dict__["_real"] = scipy.sparse.linalg
    o = {n: csr_matrix for n in ("csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "dok_matrix", "csr_array", "coo_array", "csc_array")}
    o.update(identity=sp_identity, eye=sp_eye, diags=sp_diags, linalg=lin, issparse=lambda x: isinstance(x, SymCSR) or scipy.sparse.issparse(x),
             isspmatrix=lambda x: isinstance(x, SymCSR))
    spm = Shim("scipy.sparse", scipy.sparse, o)
    special = Shim("scipy.special", scipy.special, {})
    top = Shim("scipy", scipy, {"sparse": spm, "special": special})
    return top, spm, lin, special


# ---- math ----
def make_math():
    def msqrt(x):
        if isinstance(x, Num):
            if x.im:
                raise TypeError("must be real number, not complex")
            c = x.const()
            if c is not None:
                return Num.lift(0) + x.sqrt()
            return x.sqrt()
        if type(x).__name__ == "SymInt":
            x = int(x)
        if getattr(core.CTX, "exact_sqrt", False) and x >= 0 and (isinstance(x, int) or float(x).is_integer()) and math.isqrt(int(x)) ** 2 != x:
            return Num(num.const_sqrt(int(x)))
        return math.sqrt(x)

    def mexp(x):
        return x.exp() if isinstance(x, Num) else math.exp(x)

    def mfabs(x):
        return abs(x) if is_sym(x) else math.fabs(x)

    def mceil(x):
        if type(x).__name__ == "SymInt":
            return x
        if isinstance(x, Num):
            return math.ceil(float(x))
        return math.ceil(x)

    def mhyp(*a):
        if any(isinstance(x, Num) for x in a):
            return sum(Num.lift(x) * x for x in a).sqrt()
        return math.hypot(*a)

    def mfsum(a):
        a = list(a)
        return sum(a) if any(isinstance(x, Num) for x in a) else math.fsum(a)

    def misclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if is_sym(a) or is_sym(b):
            return abs(Num.lift(a) - b) <= abs_tol
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def mpow(a, b):
        return a ** b if is_sym(a) else math.pow(a, b)
    return Shim("math", math, {"sqrt": msqrt, "exp": mexp, "fabs": mfabs, "ceil": mceil, "hypot": mhyp, "fsum": mfsum, "isclose": misclose,
                               "pow": mpow, "isfinite": lambda x: True if is_sym(x) else math.isfinite(x),
                               "isnan": lambda x: False if is_sym(x) else math.isnan(x)})
