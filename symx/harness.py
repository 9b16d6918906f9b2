"""The interface a property harness is written against; it runs symbolically and, for replay, on concrete values with the real code."""
import cmath, math, re, sys
from fractions import Fraction
import numpy as np
from . import core, num, ints, bits, world as worldmod, comm as commmod
from .core import z3, SymBool, AND, OR, NOT, B, mkbool


class XBase:
    prefix = ""      # of input names: inputs of earlier calculations in the same process are separate
    worlds = None    # kept modules, when several calculations follow each other

    def kept(self, kw, make):
        if self.worlds is None:
            return make()
        k = tuple(sorted(kw))
        if k not in self.worlds:
            self.worlds[k] = make()
        return self.worlds[k]

    def named(self, name):
        """inputs of earlier calculations: all their own ("none" shared), all shared, or every second one shared"""
        if not self.prefix or self.share == "all":
            return name
        if self.share != "none":
            k = self.order.setdefault(name, len(self.order))
            if k % 2 == self.share:
                return name
        return self.prefix + name

    def run_all(self, run, cfg):
        """the calculation of cfg, after those of cfg["history"] in the same process"""
        if not cfg.get("history"):
            return run(self, cfg)
        self.worlds = {}
        self.share, self.order = cfg.get("share", "none"), {}
        for k, c in enumerate(cfg["history"]):
            self.prefix = "earlier%d." % k
            run(self, c)
        self.prefix = ""
        return run(self, cfg)

    def cplx(self, name, lo=None, hi=None):
        return self.real(name + ".re", lo, hi) + self.real(name + ".im", lo, hi) * 1j

    def raises(self, fn, *a, **k):
        """(value, None) or (None, exception)"""
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def exps(self, fn):
        """(value, arguments of the exponentials evaluated by fn; empty in concrete mode)"""
        if not self.symbolic:
            return fn(), []
        k = len(self.ctx.exp_args)
        r = fn()
        return r, [num.Num(p) for p in self.ctx.exp_args[k:]]

    def eqs(self, pairs, label, detail=None):
        for a, b in pairs:
            self.claim(self.eq(a, b), label, detail)

    def eq_dict(self, got, want, label):
        """two {key: amplitude} maps agree (missing keys count as zero)"""
        for k in list(dict.fromkeys(list(got) + list(want))):
            self.claim(self.eq(got.get(k, 0), want.get(k, 0)), label, "key %r" % (k,))

    def eq_arr(self, a, b, label):
        a, b = np.asarray(a), np.asarray(b)
        self.claim(a.shape == b.shape, label + " (shape)", "%r %r" % (a.shape, b.shape))
        if a.shape == b.shape:
            for i in np.ndindex(a.shape):
                self.claim(self.eq(a[i], b[i]), label, "index %r" % (i,))


class SymX(XBase):
    symbolic = True

    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.transform = cfg.get("transform", False)

    # inputs
    def real(self, name, lo=None, hi=None):
        name = self.named(name)
        v = num.var(name, lo, hi)
        at = num.real_var(name, lo, hi)
        self.ctx.inputs[name] = ("real", at.z, lo, hi)
        num.constrain_atom(at.id)
        return v

    def rat(self, n, d=1):
        """exact rational constant"""
        return num.Num({(): Fraction(n, d)})

    def int(self, name, lo, hi):
        name = self.named(name)
        v = ints.int_var(name, lo, hi)
        self.ctx.inputs[name] = ("int", v.e)
        return v

    def bits(self, name, n):
        name = self.named(name)
        bs = [SymBool(z3.Bool("%s.%d" % (name, k))) for k in range(n)]
        self.ctx.symkeys = True
        self.ctx.inputs[name] = ("bits", [b.e for b in bs])
        return bs

    def bool(self, name):
        name = self.named(name)
        b = SymBool(z3.Bool(name))
        self.ctx.inputs[name] = ("bool", b.e)
        return b

    def choice(self, name, options):
        name = self.named(name)
        c = self.ctx.record_choice(list(options))
        self.ctx.inputs[name] = ("const", c)
        return c

    # representations
    def bitarray(self, bs):
        return bits.SymBits._mk(bs)

    def bytes(self, bs):
        bs = list(bs) + [False] * (-len(bs) % 8)
        return bits.SymBytes.make(bs)

    def string(self, bs):
        return bits.SymStr.make([bits.char_of(b) for b in bs])

    def integer(self, bs):
        return bits.bits_to_int(bs)

    def indices(self, bs):
        return bits.GSeq.make([(b, k) for k, b in enumerate(bs)])

    def idxset(self, s):
        return bits.IdxSet(s)

    def parity(self, bs):
        return (ints.count_true(list(bs)) % 2) == 1

    def count(self, bs):
        return ints.count_true(list(bs))

    def same(self, a, b):
        """exact equality (representation objects, integers, ...), as a bool or SymBool"""
        r = a == b
        return r if isinstance(r, (bool, SymBool)) else bool(r)

    def is_kind(self, v, kind):
        t = type(v)
        return {"tuple": t is tuple or (t is bits.GSeq and v.kind == "tuple"), "str": t in (str, bits.SymStr), "int": t in (int, ints.SymInt),
                "bitarray": t is bits.SymBits, "bytes": t in (bytes, bits.SymBytes)}[kind]

    # environment
    def world(self, **kw):
        kw.setdefault("transform", self.transform)
        return self.kept(kw, lambda: worldmod.World(symbolic=True, **kw))

    def spmd(self, size, fn, order=None, **kw):
        kw.setdefault("transform", self.transform)

        def body(rank, cm):
            w = worldmod.World(symbolic=True, comm=cm, sets=commmod.rank_sets(rank), **kw)
            return fn(w, rank)
        return commmod.Sim(size, order).run(body)

    # logic
    def assume(self, c):
        self.ctx.assume(c)

    def claim(self, c, label, detail=None):
        if isinstance(c, np.bool_):
            c = bool(c)
        self.ctx.claim(c, label, detail)

    def flush(self):
        self.ctx.flush()

    def reach(self, label):
        r = self.ctx.stats.reached
        r["reached: " + label] = r.get("reached: " + label, 0) + 1

    def eq(self, a, b):
        if isinstance(a, (ints.SymInt, SymBool)) or isinstance(b, (ints.SymInt, SymBool)):
            if not isinstance(a, num.Num) and not isinstance(b, num.Num) and not isinstance(a, (float, complex)) and not isinstance(b, (float, complex)):
                r = a == b
                return r if isinstance(r, (bool, SymBool)) else bool(r)
        if bad(a) or bad(b):
            return False
        return num.eq_claim(a, b)

    def close(self, a, b, tol):
        """a and b agree up to tol in real and imaginary part"""
        if bad(a) or bad(b):
            return False
        if num.eq_claim(a, b) is True:
            return True
        d = num.Num.lift(a) - b
        if not isinstance(d, num.Num):
            return abs(d.real) <= tol and abs(d.imag) <= tol
        d = num.Num(num.drop_noise(d.re, 1.0) if d.re else {}, num.drop_noise(d.im, 1.0) if d.im else {})
        return AND(*[AND(x <= tol, x >= -tol) for x in (d.real, d.imag)])

    def fields(self, text):
        """numbers in printed text: list of (value, number of printed decimals)"""
        out = []
        for t in re.findall("\u2039[0-9]+\u203a|[-+]?(?:[0-9]+[.]?[0-9]*(?:[eE][-+]?[0-9]+)?|nan|inf)", text):
            if t[0] == "\u2039":
                v, spec = self.ctx.formatted[int(t[1:-1])]
                m = re.search("[.]([0-9]+)", spec)
                out.append((v, int(m.group(1)) if m else 6))
            else:
                out.append((float(t), len(t.split(".")[1]) if "." in t and "e" not in t.lower() else 0))
        return out

    def ge(self, a, b, tol=0):
        return a >= b - tol if tol else a >= b

    AND, OR, NOT = staticmethod(AND), staticmethod(OR), staticmethod(NOT)
    IMPLIES, IFF = staticmethod(core.IMPLIES), staticmethod(core.IFF)

    def sqrt(self, v):
        return v.sqrt() if isinstance(v, num.Num) else math.sqrt(v)

    def exp(self, v):
        return v.exp() if isinstance(v, num.Num) else math.exp(v)

    def conj(self, v):
        return v.conjugate()

    def solve(self, a, b):
        from . import npshim
        return npshim.solve_exact(np.array(a, dtype=object), np.array(b, dtype=object))

    def array(self, x, kind="c"):
        from . import npshim
        return npshim.SymArr.wrap(np.array(x, dtype=object), kind)

    def csr(self, x, shape=None):
        from . import npshim
        return npshim.SymCSR(x, shape=shape)

    def is_int(self, v):
        return num.is_integer(v)


def bad(v):
    if isinstance(v, (float, complex, np.floating, np.complexfloating)):
        c = complex(v)
        return not (math.isfinite(c.real) and math.isfinite(c.imag))
    return v is None or isinstance(v, str)


class ConcX(XBase):
    """concrete execution on given input values, with the real code and real numerical libraries"""
    symbolic = False

    def __init__(self, inputs, cfg):
        self.inp, self.cfg = inputs, cfg
        self.failures = []
        self.used = {}

    def _get(self, name, default):
        d = self.inp.get(name)
        return default if d is None else d[1]

    def real(self, name, lo=None, hi=None):
        name = self.named(name)
        v = self._get(name, None)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 0)
        return float(Fraction(v))

    def rat(self, n, d=1):
        return n / d

    def int(self, name, lo, hi):
        name = self.named(name)
        return int(self._get(name, lo))

    def bits(self, name, n):
        name = self.named(name)
        s = self._get(name, "0" * n)
        return [c == "1" for c in s]

    def bool(self, name):
        name = self.named(name)
        return bool(self._get(name, False))

    def choice(self, name, options):
        name = self.named(name)
        v = self._get(name, options[0])
        for o in options:
            if o == v or (isinstance(o, tuple) and list(o) == v):
                return o
        return v

    def bitarray(self, bs):
        from bitarray import bitarray
        return bitarray([bool(b) for b in bs])

    def bytes(self, bs):
        return self.bitarray(bs).tobytes()

    def string(self, bs):
        return "".join("1" if b else "0" for b in bs)

    def integer(self, bs):
        return int(self.string(bs), 2)

    def indices(self, bs):
        return tuple(k for k, b in enumerate(bs) if b)

    def idxset(self, s):
        return frozenset(s)

    def parity(self, bs):
        return sum(map(bool, bs)) % 2 == 1

    def count(self, bs):
        return sum(map(bool, bs))

    def same(self, a, b):
        return bool(a == b)

    def is_kind(self, v, kind):
        from bitarray import bitarray
        return type(v) is {"tuple": tuple, "str": str, "int": int, "bitarray": bitarray, "bytes": bytes}[kind]

    def world(self, **kw):
        for k in ("bicgstab", "eigsh", "eigh", "transform", "special", "math_extra", "numpy_extra"):
            kw.pop(k, None)
        return self.kept(kw, lambda: worldmod.World(symbolic=False, **kw))

    def spmd(self, size, fn, order=None, **kw):
        for k in ("bicgstab", "eigsh", "eigh", "transform", "special", "math_extra", "numpy_extra"):
            kw.pop(k, None)

        def body(rank, cm):
            w = worldmod.World(symbolic=False, comm=cm, sets=commmod.rank_sets(rank), **kw)
            w.builtins["set"], w.builtins["frozenset"] = set_types(rank)
            return fn(w, rank)
        return commmod.Sim(size, order).run(body)

    def assume(self, c):
        if not c:
            raise core.PathInfeasible()

    def claim(self, c, label, detail=None):
        if not bool(c):
            self.failures.append((label, str(detail() if callable(detail) else detail)))

    def flush(self):
        pass

    def reach(self, label):
        pass

    tol = 1e-6

    def eq(self, a, b):
        if bad(a) or bad(b):
            return False
        try:
            a, b = complex(a), complex(b)
        except TypeError:
            return False
        return abs(a - b) <= self.tol * (1 + max(abs(a), abs(b)))

    def close(self, a, b, tol):
        if bad(a) or bad(b):
            return False
        return abs(complex(a) - complex(b)) <= tol

    fields = SymX.fields

    def ge(self, a, b, tol=0):
        return a >= b - max(tol, 1e-9 * (1 + abs(b)))

    @staticmethod
    def AND(*x):
        return all(bool(v) for v in x)

    @staticmethod
    def OR(*x):
        return any(bool(v) for v in x)

    @staticmethod
    def NOT(x):
        return not x

    @staticmethod
    def IMPLIES(a, b):
        return (not a) or bool(b)

    @staticmethod
    def IFF(a, b):
        return bool(a) == bool(b)

    def sqrt(self, v):
        return math.sqrt(v)

    def exp(self, v):
        return math.exp(v)

    def conj(self, v):
        return complex(v).conjugate() if isinstance(v, complex) else v

    def solve(self, a, b):
        return np.linalg.solve(np.array(a, dtype=complex), np.array(b, dtype=complex))

    def array(self, x, kind="c"):
        return np.array(x, dtype=complex if kind == "c" else float)

    def csr(self, x, shape=None):
        import scipy.sparse
        return scipy.sparse.csr_matrix(x, shape=shape)

    def is_int(self, v):
        return float(v).is_integer()


def set_types(rank):
    """set/frozenset as subclassable types with a rank-dependent iteration order"""
    d = rank % 2 == 1

    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, set)

        def __call__(cls, *a):
            r = commmod.RankSet(*a)
            r.desc = d
            return r

        def __getattr__(cls, k):
            return getattr(set, k)

    class F(type):
        def __instancecheck__(cls, x):
            return isinstance(x, frozenset)

        def __call__(cls, *a):
            return commmod.RankFrozen.mk(a[0] if a else (), d)

        def __getattr__(cls, k):
            return getattr(frozenset, k)
    return M("set", (), {}), F("frozenset", (), {})
