"""Symbolic integers with exact Python semantics: bit-vectors whose width follows an interval analysis."""
from . import core
from .core import z3, SymBool, mkbool, Unsupported


def width_for(lo, hi):
    return max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1


class SymInt:
    __slots__ = ("e", "lo", "hi", "tag", "cnt")

    def __init__(self, e, lo, hi, tag=None):
        self.cnt = None
        w = width_for(lo, hi)
        s = e.size()
        if s < w:
            e = z3.SignExt(w - s, e)
        elif s > w:
            e = z3.Extract(w - 1, 0, e)
        self.e, self.lo, self.hi, self.tag = e, lo, hi, tag

    @staticmethod
    def make(e, lo, hi, tag=None):
        r = SymInt(e, lo, hi, tag)
        s = z3.simplify(r.e)
        if z3.is_bv_value(s) and tag is None:
            return s.as_signed_long()
        r.e = s
        return r

    @staticmethod
    def lift(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._int()
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            return SymInt(z3.BitVecVal(x, width_for(x, x)), x, x)
        if hasattr(x, "__index__") and type(x).__module__ == "numpy":
            return SymInt.lift(x.__index__())
        return None

    def ext(self, w):
        s = self.e.size()
        return z3.SignExt(w - s, self.e) if s < w else self.e

    # arithmetic
    def _bin(self, o, f, rng):
        q = SymInt.lift(o)
        if q is None:
            return NotImplemented
        lo, hi = rng(self.lo, self.hi, q.lo, q.hi)
        w = max(width_for(lo, hi), self.e.size(), q.e.size())
        return SymInt.make(f(self.ext(w), q.ext(w)), lo, hi)

    def __add__(self, o):
        if type(o) in (float, complex):
            return int(self) + o
        r = self._bin(o, lambda a, b: a + b, lambda a, b, c, d: (a + c, b + d))
        if isinstance(r, SymInt) and type(o) is int:
            if self.tag is not None:
                r.tag = self.tag[:3] + (self.tag[3] + o,)
            if self.cnt is not None:
                r.cnt = (self.cnt[0], self.cnt[1] + o)
        elif isinstance(r, SymInt) and self.cnt is not None and isinstance(o, SymInt) and o.cnt is not None:
            r = _count(self.cnt[0] + o.cnt[0], self.cnt[1] + o.cnt[1])
        return r

    def __radd__(self, o):
        if type(o) in (float, complex):
            return o + int(self)
        q = SymInt.lift(o)
        return NotImplemented if q is None else q + self

    def __sub__(self, o):
        if type(o) in (float, complex):
            return int(self) - o
        return self._bin(o, lambda a, b: a - b, lambda a, b, c, d: (a - d, b - c))

    def __rsub__(self, o):
        if type(o) in (float, complex):
            return o - int(self)
        q = SymInt.lift(o)
        return NotImplemented if q is None else q - self

    def __mul__(self, o):
        if type(o).__name__ == "Num" or isinstance(o, (float, complex)):
            return int(self) * o
        if isinstance(o, (str, list, tuple, bytes)) or type(o).__name__ in ("SymStr", "GSeq"):
            return o * int(self)
        return self._bin(o, lambda a, b: a * b, lambda a, b, c, d: (min(a * c, a * d, b * c, b * d), max(a * c, a * d, b * c, b * d)))
    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        w = self.e.size() + 1
        e = self.ext(w)
        return SymInt.make(z3.If(e < 0, -e, e), 0, max(abs(self.lo), abs(self.hi)))

    def __and__(self, o):
        if self.cnt is not None and type(o) is int and o == 1:
            # parity of a count: exclusive or of the counted bits in a canonical order
            x = z3.BoolVal(bool(self.cnt[1] & 1))
            for b in sorted(self.cnt[0], key=lambda t: t.get_id()):
                x = z3.Xor(b, x)
            return SymInt.make(z3.If(x, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

        def rng(a, b, c, d):
            if a >= 0 and c >= 0:
                return 0, min(b, d)
            if a >= 0:
                return 0, b
            if c >= 0:
                return 0, d
            w = max(width_for(a, b), width_for(c, d))
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bin(o, lambda a, b: a & b, rng)
    __rand__ = __and__

    def _orrng(a, b, c, d):
        w = max(width_for(a, b), width_for(c, d))
        if a >= 0 and c >= 0:
            return 0, (1 << (w - 1)) - 1
        return -(1 << (w - 1)), (1 << (w - 1)) - 1

    def __or__(self, o, _r=_orrng):
        return self._bin(o, lambda a, b: a | b, _r)
    __ror__ = __or__

    def __xor__(self, o, _r=_orrng):
        return self._bin(o, lambda a, b: a ^ b, _r)
    __rxor__ = __xor__

    def __invert__(self):
        return SymInt.make(~self.e, -self.hi - 1, -self.lo - 1)

    def __lshift__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = int(o)
        if o < 0:
            raise ValueError("negative shift count")
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = int(o)
        if o < 0:
            raise ValueError("negative shift count")
        lo, hi = self.lo >> o, self.hi >> o
        s = self.e.size()
        if o >= s:
            return SymInt.make(z3.If(self.e < 0, z3.BitVecVal(-1, 2), z3.BitVecVal(0, 2)), lo, hi)
        if o == 0:
            return self
        return SymInt.make(z3.Extract(s - 1, o, self.e), lo, hi)

    def __rrshift__(self, o):
        return o >> int(self)

    def _divmod(self, o):
        q = SymInt.lift(o)
        if q is None:
            return None
        if q.lo <= 0 <= q.hi:
            if core.CTX.decide(q.e == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
        w = max(self.e.size(), q.e.size()) + 1
        a, b = self.ext(w), q.ext(w)
        quo, rem = a / b, z3.SRem(a, b)
        adj = z3.And(rem != 0, (rem < 0) != (b < 0))
        fq = z3.If(adj, quo - 1, quo)
        fr = z3.If(adj, rem + b, rem)
        m = max(abs(self.lo), abs(self.hi))
        if q.lo > 0:
            cands = [x // y for x in (self.lo, self.hi) for y in (q.lo, q.hi)]
            qlo, qhi = min(cands), max(cands)
        else:
            qlo, qhi = -m - 1, m + 1
        if self.lo >= 0 and q.lo > 0:
            rlo, rhi = 0, min(self.hi, q.hi - 1)
        else:
            rlo, rhi = min(0, q.lo + 1), max(0, q.hi - 1)
        return SymInt.make(fq, qlo, qhi), SymInt.make(fr, rlo, rhi)

    def __floordiv__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        r = self._divmod(o)
        return NotImplemented if r is None else r[1]

    def __rfloordiv__(self, o):
        return SymInt.lift(o) // self

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % int(self)
        return SymInt.lift(o) % self

    def __divmod__(self, o):
        return self._divmod(o)

    def __rdivmod__(self, o):
        return SymInt.lift(o)._divmod(self)

    def __truediv__(self, o):
        return int(self) / (int(o) if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / int(self)

    def __pow__(self, o, m=None):
        return int(self) ** int(o)

    def __rpow__(self, o):
        if o == -1:
            return 1 - 2 * (self & 1)
        return o ** int(self)

    # comparison
    def _cmp(self, o, f):
        q = SymInt.lift(o)
        if q is not None and self.cnt is not None and q.cnt is not None:
            a, b, same = cancel(self.cnt[0], q.cnt[0])
            if same:
                x, y = _count(a, self.cnt[1]), _count(b, q.cnt[1])
                w = max(x.e.size(), y.e.size())
                return mkbool(f(x.ext(w), y.ext(w)))
        if q is None:
            if isinstance(o, float) or type(o).__name__ == "Num":
                return NotImplemented if type(o).__name__ == "Num" else f(int(self), o)
            return NotImplemented
        w = max(self.e.size(), q.e.size())
        return mkbool(f(self.ext(w), q.ext(w)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        q = SymInt.lift(o)
        if q is not None and self.cnt is not None and q.cnt is not None and self.cnt[1] == q.cnt[1]:
            a, b, same = cancel(self.cnt[0], q.cnt[0])
            if not a or not b:
                return mkbool(z3.Not(z3.Or(a + b)))
        if q is None:
            if isinstance(o, float):
                return self == int(o) if o.is_integer() else False
            return NotImplemented
        if q.hi < self.lo or self.hi < q.lo:
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return r.negate() if isinstance(r, SymBool) else not r

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __index__(self):
        return core.CTX.decide_value(self.e)

    __int__ = __index__

    def __trunc__(self):
        return self

    def __float__(self):
        return float(int(self))

    def __complex__(self):
        return complex(int(self))

    def __hash__(self):
        return hash(int(self))

    def __round__(self, n=None):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # int methods
    def bit_count(self):
        v = abs(self) if self.lo < 0 else self
        return count_true([v.bit(k) for k in range(v.e.size())])

    def bit_length(self):
        e = abs(self).e if self.lo < 0 else self.e
        n = e.size()
        w = n.bit_length() + 1
        r = z3.BitVecVal(0, w)
        for k in range(n):
            r = z3.If(z3.Extract(k, k, e) == 1, z3.BitVecVal(k + 1, w), r)
        return SymInt.make(r, 0, n)

    def bit(self, k):
        if k >= self.e.size():
            k = self.e.size() - 1
        return mkbool(z3.Extract(k, k, self.e) == 1)

    def to_bytes(self, length=1, byteorder="big", signed=False):
        from . import bits
        length = int(length)
        if self.lo < 0 and bool(self < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if self.hi >= 1 << (8 * length) and bool(self >= (1 << (8 * length))):
            raise OverflowError("int too big to convert")
        bs = [self.bit(k) for k in range(8 * length - 1, -1, -1)]
        if byteorder == "little":
            bs = [b for j in range(length - 1, -1, -1) for b in bs[8 * j:8 * j + 8]]
        return bits.SymBytes.make(bs)

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    def conjugate(self):
        return self

    def __format__(self, spec):
        if spec and spec[-1] in "bxo":
            return format(int(self), spec)
        if self.hi - self.lo <= 8:
            return format(int(self), spec)
        return "<int>"

    def __str__(self):
        if self.hi - self.lo <= 8:
            return str(int(self))
        return "<int>"

    __repr__ = lambda self: "<symint>"


def cancel(a, b):
    """remove common entries of two lists of terms"""
    cb = {}
    for t in b:
        cb[t.get_id()] = cb.get(t.get_id(), 0) + 1
    ra, same = [], False
    for t in a:
        if cb.get(t.get_id(), 0):
            cb[t.get_id()] -= 1
            same = True
        else:
            ra.append(t)
    rb = []
    for t in b:
        if cb.get(t.get_id(), 0):
            cb[t.get_id()] -= 1
            rb.append(t)
    return ra, rb, same


def balanced_sum(xs):
    while len(xs) > 1:
        xs = [xs[k] + xs[k + 1] if k + 1 < len(xs) else xs[k] for k in range(0, len(xs), 2)]
    return xs[0]


def count_true(bs):
    """number of true entries of a list of bool/SymBool"""
    base = sum(1 for b in bs if b is True or (not isinstance(b, SymBool) and b))
    sy = [b.e for b in bs if isinstance(b, SymBool)]
    return _count(sy, base) if sy else base


def _count(sy, base):
    n = len(sy)
    w = width_for(0, n + abs(base))
    sy = sorted(sy, key=lambda t: t.get_id())
    s = balanced_sum([z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w)) for x in sy]) if sy else z3.BitVecVal(0, w)
    r = SymInt(s + base if base else s, base, n + base)
    r.cnt = (sy, base)
    return r


def ite(c, a, b):
    """merge of two integers"""
    x, y = SymInt.lift(a), SymInt.lift(b)
    lo, hi = min(x.lo, y.lo), max(x.hi, y.hi)
    w = max(x.e.size(), y.e.size())
    return SymInt.make(z3.If(c.e, x.ext(w), y.ext(w)), lo, hi)


def int_var(name, lo, hi):
    w = width_for(lo, hi)
    v = z3.BitVec(name, w)
    C = core.CTX
    if lo != -(1 << (w - 1)):
        C.add(v >= lo)
    if hi != (1 << (w - 1)) - 1:
        C.add(v <= hi)
    return SymInt(v, lo, hi)
