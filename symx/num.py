"""Symbolic real/complex numbers: Laurent polynomials over atoms, exact where the constants are exact.

Atoms: free reals, square roots (b >= 0, b^2 = e), inverses (d^-1 of a general polynomial d), exponentials,
uninterpreted values.  A complex number is a pair of real polynomials.
"""
import math, sys
from fractions import Fraction
import numpy as _np
from . import core
from .core import z3, SymBool, mkbool, Unsupported

_REAL_TYPES = (int, float, Fraction)


class Atom:
    __slots__ = ("id", "name", "kind", "d", "lo", "hi", "z", "zinv", "pos", "extra")


ATOMS = []
_KEYS = {}
NONNEG = set()


def note_square(r):
    if len(r) <= 4:
        NONNEG.add(canon_key(pmul(r, r)))


_MUL = {}
_ZM = {}


def reset_atoms():
    ATOMS.clear()
    _KEYS.clear()
    NONNEG.clear()
    _MUL.clear()
    _ZM.clear()


def new_atom(name, kind, d=None, lo=None, hi=None, pos=False, key=None, extra=None):
    if key is not None and key in _KEYS:
        return _KEYS[key]
    a = Atom()
    a.id = len(ATOMS)
    a.name = "%s#%d" % (name, a.id) if kind != "free" else name
    a.kind, a.d, a.lo, a.hi, a.pos = kind, d, lo, hi, pos
    a.extra = extra
    a.z = z3.Real(a.name)
    a.zinv = None
    ATOMS.append(a)
    if key is not None:
        _KEYS[key] = a
    return a


def coef(c):
    """normalise a python/numpy real scalar into int | Fraction | float"""
    if type(c) is int or type(c) is Fraction:
        return c
    if isinstance(c, (bool, _np.bool_)):
        return int(c)
    if isinstance(c, (int, _np.integer)):
        return int(c)
    c = float(c)
    if c != c or c in (math.inf, -math.inf):
        raise FloatingPointError("nan/inf constant meets symbolic value")
    if c == int(c) and abs(c) < 2 ** 53:
        return int(c)
    if abs(c) < 2 ** 30:
        f = c * 4096
        if f == int(f):
            return Fraction(int(f), 4096)
    return c


# ---- polynomials: dict monomial -> coef ; monomial: tuple of (atom id, exp) sorted ----
def padd(p, q):
    if not p:
        return q
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s == 0:
                del r[m]
            else:
                r[m] = s
    return r


def pneg(p):
    return {m: -c for m, c in p.items()}


def psub(p, q):
    return padd(p, pneg(q)) if q else p


def pscale(p, k):
    if k == 0 or not p:
        return {}
    if k == 1:
        return p
    r = {}
    for m, c in p.items():
        v = c * k
        if v != 0:
            r[m] = v
    return r


def _mmul(m1, m2):
    """product of monomials -> (monomial, reductions) ; reductions: list of (sqrt atom, power)"""
    i = j = 0
    out = []
    red = []
    n1, n2 = len(m1), len(m2)
    while i < n1 or j < n2:
        if j >= n2 or (i < n1 and m1[i][0] < m2[j][0]):
            out.append(m1[i]); i += 1
        elif i >= n1 or m2[j][0] < m1[i][0]:
            out.append(m2[j]); j += 1
        else:
            a = m1[i][0]
            e = m1[i][1] + m2[j][1]
            i += 1; j += 1
            if e:
                k = ATOMS[a].kind
                if k == "sqrt" and e >= 2:
                    red.append((a, e // 2))
                    e = e % 2
                if k == "sign":
                    e = e % 2
                if e:
                    out.append((a, e))
    return tuple(out), red


_TERMS = [0]
TERM_LIMIT = 400000


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and () in p:
        return pscale(q, p[()])
    if len(q) == 1 and () in q:
        return pscale(p, q[()])
    if len(p) * len(q) > TERM_LIMIT:
        raise Unsupported("polynomial product too large")
    r = {}
    extra = None
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            k = (m1, m2) if m1 <= m2 else (m2, m1)
            x = _MUL.get(k)
            if x is None:
                m, red = _mmul(m1, m2)
                if red:
                    e = {m: 1}
                    for a, pw in red:
                        for _ in range(pw):
                            e = pmul(e, ATOMS[a].d)
                    x = e
                else:
                    x = m
                if len(_MUL) > 2000000:
                    _MUL.clear()
                _MUL[k] = x
            c = c1 * c2
            if c == 0:
                continue
            if type(x) is tuple:
                s = r.get(x)
                if s is None:
                    r[x] = c
                else:
                    s = s + c
                    if s == 0:
                        del r[x]
                    else:
                        r[x] = s
            else:
                t = pscale(x, c)
                extra = t if extra is None else padd(extra, t)
    if extra:
        r = padd(r, extra)
    return r


def ppow(p, n):
    r = {(): 1}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def pconst(p):
    """constant value or None"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def pvars(p, out=None):
    out = set() if out is None else out
    for m in p:
        for a, _ in m:
            out.add(a)
    return out


def min_exps(p):
    r = {}
    for m in p:
        for a, e in m:
            if e < 0 and e < r.get(a, 0):
                r[a] = e
    return r


def clear_den(p):
    """Multiply p by powers of its denominators (assumed non-zero) until it is a polynomial without negative
    exponents; inverse atoms are then replaced by their definitions."""
    for _ in range(60):
        neg = min_exps(p)
        if not neg:
            # replace positive powers of inverse atoms by definition
            inv = [a for a in pvars(p) if ATOMS[a].kind == "inv"]
            if not inv:
                return p
            a = max(inv)
            p = _subst_inv(p, a)
            continue
        # highest atom first (definitions only use lower atoms)
        a = max(neg)
        k = -neg[a]
        at = ATOMS[a]
        if at.kind == "sqrt":
            # multiply by b^(2*ceil(k/2)) == d^ceil(k/2): use b^k directly
            if k % 2 == 0:
                p = _mul_mono(p, a, k)
            else:
                p = _mul_mono(p, a, k)
        else:
            p = _mul_mono(p, a, k)
        if at.kind == "inv":
            p = _subst_inv(p, a)
    raise Unsupported("could not clear denominators")


def _mul_mono(p, a, k):
    return pmul(p, {((a, k),): 1}) if ATOMS[a].kind != "sqrt" else _mul_sqrt(p, a, k)


def _mul_sqrt(p, a, k):
    r = {}
    b = {((a, 1),): 1}
    for _ in range(k):
        p = pmul(p, b)
    return p


def _subst_inv(p, a):
    """replace positive powers of inverse atom a by its definition"""
    groups = {}
    for m, c in p.items():
        e = 0
        rest = []
        for x, y in m:
            if x == a and y > 0:
                e = y
            else:
                rest.append((x, y))
        groups.setdefault(e, {})[tuple(rest)] = c
    r = groups.pop(0, {})
    for e, g in groups.items():
        # the cofactors may coincide with existing monomials
        r = padd(r, pmul(g, ppow(ATOMS[a].d, e)))
    return r


def canon_key(p):
    items = []
    for m, c in p.items():
        if isinstance(c, float):
            c = float("%.11e" % c)
        items.append((m, c))
    return tuple(sorted(items, key=lambda t: t[0]))


def _lead(p):
    return max(p, key=lambda m: (sum(abs(e) for _, e in m), m))


def div_exact(n, d):
    """exact polynomial quotient n/d or None (no negative exponents assumed in d)"""
    if len(d) > 200 or len(n) > 5000:
        return None
    q = {}
    lm = _lead(d)
    lc = d[lm]
    r = n
    lmd = dict(lm)
    for _ in range(4000):
        if not r:
            return q
        if all(isinstance(c, float) and abs(c) < 1e-13 for c in r.values()):
            return q
        m = _lead(r)
        md = dict(m)
        for a, e in lm:
            if md.get(a, 0) < e:
                return None
        t = dict(md)
        for a, e in lm:
            t[a] = t[a] - e
            if t[a] == 0:
                del t[a]
        t = tuple(sorted(t.items()))
        c = _cdiv(r[m], lc)
        q = padd(q, {t: c})
        r = psub(r, pmul({t: c}, d))
        if len(r) > 20000:
            return None
    return None


def _cdiv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a / b
    f = Fraction(a) / Fraction(b)
    return int(f) if f.denominator == 1 else f


def simplify_laurent(p):
    """Cancel denominators where the numerator is an exact multiple."""
    for _ in range(20):
        neg = min_exps(p)
        changed = False
        for a in sorted(neg, reverse=True):
            at = ATOMS[a]
            k = -neg[a]
            if at.kind == "inv":
                hi = {m: c for m, c in p.items() if dict(m).get(a, 0) == -k}
                num = pmul(hi, {((a, k),): 1})
                q = div_exact(num, at.d)
                if q is not None:
                    rest = {m: c for m, c in p.items() if m not in hi}
                    p = padd(rest, pmul(q, {((a, -(k - 1)),): 1}) if k > 1 else q)
                    changed = True
                    break
            elif at.kind == "sqrt" and k >= 2 and not min_exps(at.d):
                hi = {m: c for m, c in p.items() if dict(m).get(a, 0) == -k}
                num = {tuple(t for t in m if t[0] != a): c for m, c in hi.items()}
                q = div_exact(num, at.d)
                if q is not None:
                    rest = {m: c for m, c in p.items() if m not in hi}
                    p = padd(rest, pmul(q, {((a, -(k - 2)),): 1}) if k > 2 else q)
                    changed = True
                    break
        if not changed:
            return p
    return p


# ---- z3 translation ----
def zcoef(c):
    if isinstance(c, float):
        c = Fraction(c)
    return z3.RealVal(str(c))


def _zmono(m):
    z = _ZM.get(m)
    if z is None:
        fs = []
        for a, e in m:
            at = ATOMS[a]
            if e > 0:
                fs.extend([at.z] * e)
            else:
                if at.zinv is None:
                    at.zinv = z3.Real("inv_" + at.name)
                fs.extend([at.zinv] * (-e))
        z = fs[0] if len(fs) == 1 else z3.Product(*fs)
        _ZM[m] = z
    return z


def to_z3(p):
    if not p:
        return z3.RealVal(0)
    ts = []
    for m, c in p.items():
        if m == ():
            ts.append(zcoef(c))
        elif c == 1:
            ts.append(_zmono(m))
        else:
            ts.append(zcoef(c) * _zmono(m))
    for a in pvars(p):
        constrain_atom(a, any(x == a and e < 0 for m in p for x, e in m))
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def constrain_atom(aid, inv=False):
    """assert the defining constraints of an atom on the current path (once)"""
    C = core.CTX
    at = ATOMS[aid]
    if aid not in C.asserted_atoms:
        C.asserted_atoms.add(aid)
        if at.kind == "free":
            if at.lo is not None:
                C.add(at.z >= zcoef(at.lo))
            if at.hi is not None:
                C.add(at.z <= zcoef(at.hi))
        elif at.kind == "sqrt":
            C.add(at.z >= 0)
            C.add(at.z * at.z == to_z3(at.d))
        elif at.kind == "inv":
            C.add(at.z == to_z3(at.d))
        elif at.kind == "exp":
            C.add(at.z > 0)
        elif at.kind == "sign":
            C.add(at.z == z3.If(at.d, zcoef(-1), zcoef(1)))
        elif at.kind == "uf" and at.extra:
            for e in at.extra(at.z):
                C.add(e)
    if inv and (aid, "inv") not in C.asserted_atoms:
        C.asserted_atoms.add((aid, "inv"))
        if at.zinv is None:
            at.zinv = z3.Real("inv_" + at.name)
        C.add(at.zinv * at.z == 1)


def sqrt_poly(p):
    """square root of a real polynomial (assumed non-negative)"""
    c = pconst(p)
    if c is not None:
        return const_sqrt(c)
    p = simplify_laurent(p)
    c = pconst(p)
    if c is not None:
        return const_sqrt(c)
    # single term with even exponents of positive atoms
    if len(p) == 1:
        (m, c), = p.items()
        ev = True
        for a, e in m:
            if e % 2 or not ATOMS[a].pos:
                ev = False
        if ev and (isinstance(c, float) or c > 0):
            r = const_sqrt(c)
            return pmul(r, {tuple((a, e // 2) for a, e in m): 1})
        if c != 1 and c > 0:
            s = const_sqrt(c)
            return pmul(s, sqrt_poly({m: 1}))
    # pull out common even negative powers of positive atoms
    neg = min_exps(p)
    for a, e in neg.items():
        at = ATOMS[a]
        if at.kind == "sqrt" and e <= -2:
            k = (-e) // 2
            q = p
            q = _mul_sqrt(q, a, 2 * k)
            return pmul(sqrt_poly(q), {((a, -k),): 1})
    # normalise by a perfect-square common factor
    at = new_atom("sqrt", "sqrt", d=p, pos=True, key=("sqrt", canon_key(p)))
    return {((at.id, 1),): 1}


def const_sqrt(c):
    if c < 0:
        if c > -1e-9:
            return {}
        raise ValueError("math domain error")
    if c == 0:
        return {}
    if isinstance(c, float):
        return {(): coef(math.sqrt(c))}
    f = Fraction(c)
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        v = Fraction(n, d)
        return {(): int(v) if v.denominator == 1 else v}
    if getattr(core.CTX, "exact_sqrt", False):
        # sqrt(n/d) = s/d * product of square roots of the primes of n*d (exact)
        r = {(): Fraction(1, f.denominator)}
        m = f.numerator * f.denominator
        p = 2
        while p * p <= m and p < 1000:
            while m % (p * p) == 0:
                m //= p * p
                r = pscale(r, p)
            if m % p == 0:
                m //= p
                r = pmul(r, _prime_root(p))
            p += 1
        k = math.isqrt(m)
        if k * k == m:
            return pscale(r, k)
        return pmul(r, _prime_root(m))
    return {(): math.sqrt(c)}


def _prime_root(p):
    at = new_atom("root%d" % p if p < 10 ** 6 else "root", "sqrt", d={(): p}, pos=True, key=("sqrt", canon_key({(): p})))
    return {((at.id, 1),): 1}


def inv_poly(p):
    c = pconst(p)
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return {(): _cdiv(1, c)}
    p = simplify_laurent(p)
    c = pconst(p)
    if c is not None:
        return {(): _cdiv(1, c)}
    if len(p) == 1:
        (m, c), = p.items()
        if getattr(core.CTX, "exact_sqrt", False):
            # 1/sqrt(const) = sqrt(const)/const
            out = []
            for a, e in m:
                k = pconst(ATOMS[a].d) if ATOMS[a].kind == "sqrt" and e == 1 else None
                if k:
                    c = c * k
                    out.append((a, 1))
                else:
                    out.append((a, -e))
            return {tuple(out): _cdiv(1, c)}
        return {tuple((a, -e) for a, e in m): _cdiv(1, c)}
    # clear negative powers (cheap normal form)
    neg = min_exps(p)
    f = {(): 1}
    for a, e in neg.items():
        mono = {((a, -e),): 1}
        if ATOMS[a].kind == "sqrt":
            p = _mul_sqrt(p, a, -e)
            f = _mul_sqrt(f, a, -e)
        else:
            p = pmul(p, mono)
            f = pmul(f, mono)
    if neg:
        p2 = p
        return pmul(f, inv_poly(p2))
    # monic
    lm = min(p)
    lc = p[lm]
    if lc != 1:
        p = {m: _cdiv(c, lc) for m, c in p.items()}
    at = new_atom("den", "inv", d=p, key=("inv", canon_key(p)))
    return {((at.id, -1),): _cdiv(1, lc)}


def exp_poly(p):
    r = {(): 1}
    cst = 1.0
    for m, c in p.items():
        if m == ():
            cst *= math.exp(c)
            continue
        if isinstance(c, float):
            k = float("%.10e" % abs(c))
            at = new_atom("exp", "exp", d=(m, abs(c)), pos=True, key=("exp", m, k))
            e = 1 if c > 0 else -1
        else:
            f = Fraction(c)
            at = new_atom("exp", "exp", d=(m, Fraction(1, f.denominator)), pos=True, key=("exp", m, Fraction(1, f.denominator)))
            e = f.numerator
        r = pmul(r, {((at.id, e),): 1})
    if cst != 1.0:
        r = pscale(r, coef(cst))
    C = core.CTX
    if C is not None:
        C.exp_args = getattr(C, "exp_args", [])
        C.exp_args.append(p)
    return r


class Num:
    """symbolic complex number re + i*im"""
    __slots__ = ("re", "im")
    __array_priority__ = -1

    def __init__(self, re, im=None):
        self.re = re
        self.im = im if im is not None else {}

    # -- conversion
    @staticmethod
    def lift(x):
        t = type(x)
        if t is Num:
            return x
        if t is int or t is float or t is Fraction:
            c = coef(x)
            return Num({(): c} if c != 0 else {})
        if t is complex or isinstance(x, (complex, _np.complexfloating)):
            a, b = coef(x.real), coef(x.imag)
            return Num({(): a} if a != 0 else {}, {(): b} if b != 0 else {})
        if isinstance(x, (int, float, _np.integer, _np.floating, _np.bool_)):
            c = coef(x)
            return Num({(): c} if c != 0 else {})
        if isinstance(x, SymBool) or type(x).__name__ == "SymInt":
            return Num.lift(int(x))
        if isinstance(x, _np.ndarray) and x.ndim == 0:
            return Num.lift(x.item())
        return None

    def is_const(self):
        return pconst(self.re) is not None and pconst(self.im) is not None

    def const(self):
        a, b = pconst(self.re), pconst(self.im)
        if a is None or b is None:
            return None
        return complex(a, b) if b != 0 else a

    # -- arithmetic
    def __add__(self, o):
        q = Num.lift(o)
        if q is None:
            return NotImplemented
        return Num(padd(self.re, q.re), padd(self.im, q.im))
    __radd__ = __add__

    def __neg__(self):
        return Num(pneg(self.re), pneg(self.im))

    def __pos__(self):
        return self

    def __sub__(self, o):
        q = Num.lift(o)
        if q is None:
            return NotImplemented
        return Num(psub(self.re, q.re), psub(self.im, q.im))

    def __rsub__(self, o):
        q = Num.lift(o)
        if q is None:
            return NotImplemented
        return Num(psub(q.re, self.re), psub(q.im, self.im))

    def __mul__(self, o):
        q = Num.lift(o)
        if q is None:
            return NotImplemented
        a, b, c, d = self.re, self.im, q.re, q.im
        if not b and not d:
            return Num(pmul(a, c))
        if not b:
            return Num(pmul(a, c), pmul(a, d))
        if not d:
            return Num(pmul(a, c), pmul(b, c))
        return Num(psub(pmul(a, c), pmul(b, d)), padd(pmul(a, d), pmul(b, c)))
    __rmul__ = __mul__

    def inverse(self):
        if not self.im:
            if not self.re:
                raise ZeroDivisionError("division by zero")
            if len(self.re) > 1 or () in self.re:
                check_zero_div(self.re)
            return Num(inv_poly(self.re))
        if not self.re:
            return Num({}, pneg(inv_poly(self.im)))
        n = padd(pmul(self.re, self.re), pmul(self.im, self.im))
        i = inv_poly(n)
        return Num(pmul(self.re, i), pneg(pmul(self.im, i)))

    def __truediv__(self, o):
        q = Num.lift(o)
        if q is None:
            return NotImplemented
        return self * q.inverse()

    def __rtruediv__(self, o):
        q = Num.lift(o)
        if q is None:
            return NotImplemented
        return q * self.inverse()

    def __pow__(self, n, mod=None):
        if isinstance(n, Num):
            c = n.const()
            if c is None:
                raise Unsupported("symbolic exponent")
            n = c
        if isinstance(n, (float, _np.floating)) and float(n).is_integer():
            n = int(n)
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if isinstance(n, (int, _np.integer)):
            n = int(n)
            if n < 0:
                return (self ** (-n)).inverse()
            r = Num({(): 1})
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if n in (0.5, Fraction(1, 2)):
            return self.sqrt()
        if n in (-0.5, Fraction(-1, 2)):
            return self.sqrt().inverse()
        if n in (1.5, Fraction(3, 2)):
            return self * self.sqrt()
        raise Unsupported("power %r" % (n,))

    def __rpow__(self, b):
        import math as _m
        if isinstance(b, (int, float)) and b > 0:
            return (self * _m.log(b)).exp()
        raise Unsupported("rpow")

    def conjugate(self):
        return Num(self.re, pneg(self.im)) if self.im else self
    conj = conjugate

    @property
    def real(self):
        return Num(self.re)

    @property
    def imag(self):
        return Num(self.im)

    @property
    def shape(self):
        return ()

    @property
    def dtype(self):
        return _np.dtype(complex if self.im else float)

    def item(self):
        return self

    def __abs__(self):
        if self.im:
            r = sqrt_poly(padd(pmul(self.re, self.re), pmul(self.im, self.im)))
            note_square(r)
            return Num(r)
        c = pconst(self.re)
        if c is not None:
            return Num({(): abs(c)} if c else {})
        if len(self.re) == 1:
            (m, c), = self.re.items()
            if all(ATOMS[a].pos for a, _ in m):
                return Num({m: abs(c)})
        r = sqrt_poly(pmul(self.re, self.re))
        note_square(r)
        return Num(r)

    def sqrt(self):
        if self.im:
            raise Unsupported("complex sqrt")
        c = pconst(self.re)
        if c is None:
            C = core.CTX
            if getattr(C, "check_sqrt", False):
                if not C.decide(to_z3(self.re) >= 0):
                    raise ValueError("math domain error")
        return Num(sqrt_poly(self.re))

    def exp(self):
        if self.im:
            raise Unsupported("complex exp")
        return Num(exp_poly(self.re))

    def log(self):
        raise Unsupported("log")

    def __floordiv__(self, o):
        raise Unsupported("floordiv on reals")
    __rfloordiv__ = __floordiv__

    def __mod__(self, o):
        raise Unsupported("mod on reals")
    __rmod__ = __mod__

    # -- comparison
    def _cmp(self, o, f):
        q = Num.lift(o)
        if q is None:
            if isinstance(o, (float, _np.floating)) and (o != o or o in (math.inf, -math.inf)):
                return f(0, o)
            return NotImplemented
        if self.im or q.im:
            raise TypeError("'<' not supported between instances of 'complex'")
        d = psub(self.re, q.re)
        if NONNEG and d and f(0, 0) == f(1, 0) and canon_key(d) in NONNEG:
            return f(1, 0)          # a square of a modulus is not negative
        c = pconst(d)
        if c is not None:
            return f(c, 0)
        return mkbool(f(to_z3(d), 0))

    def __lt__(self, o):
        try:
            return self._cmp(o, lambda a, b: a < b)
        except FloatingPointError:
            return float(o) > 0

    def __le__(self, o):
        try:
            return self._cmp(o, lambda a, b: a <= b)
        except FloatingPointError:
            return float(o) > 0

    def __gt__(self, o):
        try:
            return self._cmp(o, lambda a, b: a > b)
        except FloatingPointError:
            return float(o) < 0

    def __ge__(self, o):
        try:
            return self._cmp(o, lambda a, b: a >= b)
        except FloatingPointError:
            return float(o) < 0

    def __eq__(self, o):
        try:
            q = Num.lift(o)
        except FloatingPointError:
            return False
        if q is None:
            return NotImplemented
        return is_zero(Num(psub(self.re, q.re), psub(self.im, q.im)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return r.negate() if isinstance(r, SymBool) else (not r)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        return hash((canon_key(self.re), canon_key(self.im)))

    # -- concretisation (recorded)
    def __float__(self):
        if self.im and pconst(self.im) != 0:
            raise TypeError("can't convert complex to float")
        c = pconst(self.re)
        if c is not None:
            return float(c)
        return concretise(self.re)

    def __complex__(self):
        a, b = pconst(self.re), pconst(self.im)
        a = float(a) if a is not None else concretise(self.re)
        b = float(b) if b is not None else concretise(self.im)
        return complex(a, b)

    def __int__(self):
        return int(float(self))

    def __trunc__(self):
        return int(float(self))

    def __round__(self, n=None):
        c = self.const()
        if c is not None and not isinstance(c, complex):
            return round(c, n) if n is not None else round(c)
        return round(float(self), n) if n is not None else round(float(self))

    def is_integer(self):
        return float(self).is_integer()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<num>"

    def __str__(self):
        return "<num>"

    def __format__(self, spec):
        # Formatting is output only: constants are formatted, symbolic values become a placeholder.
        c = self.const()
        if c is not None:
            if isinstance(c, Fraction):
                c = float(c)
            return format(c, spec)
        if core.CTX is None:
            return "<num>"
        core.CTX.formatted.append((self, spec))
        return "\u2039%d\u203a" % (len(core.CTX.formatted) - 1)


def check_zero_div(p):
    C = core.CTX
    if C is not None and getattr(C, "check_div", False):
        if C.decide(to_z3(p) == 0, coinc=True):
            raise ZeroDivisionError("division by zero")
    elif C is not None:
        C.assumption_notes.add("symbolic denominators are non-zero")


def is_zero(n):
    """SymBool/bool: n == 0"""
    re, im = n.re, n.im
    if not re and not im:
        return True
    re, im = reduce_zero(re), reduce_zero(im)
    if not re and not im:
        return True
    cr, ci = pconst(re), pconst(im)
    if (cr is not None and cr != 0) or (ci is not None and ci != 0):
        return False
    es = []
    if re:
        es.append(to_z3(re) == 0)
    if im:
        es.append(to_z3(im) == 0)
    return mkbool(es[0] if len(es) == 1 else z3.And(es), coinc=True)


def reduce_zero(p):
    """polynomial with the same zero set as p (denominators non-zero)"""
    if not p:
        return p
    if not min_exps(p) and not any(ATOMS[a].kind == "inv" for a in pvars(p)):
        return p
    return clear_den(p)


def pscale_max(p):
    return max((abs(c) for c in p.values()), default=0)


def drop_noise(p, scale, rel=1e-9):
    return {m: c for m, c in p.items() if not (isinstance(c, float) and abs(c) <= rel * scale)}


def has_float(p):
    return any(isinstance(c, float) for c in p.values())


def eq_claim(a, b):
    """bool/SymBool stating a == b, where differences explainable by rounding of float constants are ignored"""
    a, b = Num.lift(a), Num.lift(b)
    if a is None or b is None:
        return False
    es = []
    for x, y in ((a.re, b.re), (a.im, b.im)):
        d = psub(x, y)
        sc = max(1.0, float(pscale_max(x)), float(pscale_max(y)))
        if d and has_float(d):
            d = drop_noise(d, sc)
        if not d:
            es.append((x, y))
            continue
        if min_exps(d) or any(ATOMS[t].kind in ("inv",) for t in pvars(d)):
            fl = has_float(d)
            d2 = _clear_scaled(d)
            d = d2
            if not d:
                continue
        c = pconst(d)
        if c is not None:
            if abs(c) > 1e-9 * sc:
                return False
            continue
        es.append(to_z3(d) == 0)
    zs = []
    for e in es:
        if isinstance(e, tuple):
            x, y = e
            if 0 < len(x) <= 12 and not min_exps(x) and not min_exps(y) and not has_float(x) and not has_float(y):
                zs.append(to_z3(x) == to_z3(y))
        else:
            zs.append(e)
    if not zs:
        return True
    return SymBool(zs[0] if len(zs) == 1 else z3.And(zs))


def _clear_scaled(d):
    """clear denominators of d, dropping rounding noise relative to the largest intermediate coefficient"""
    sc = float(pscale_max(d))
    p = d
    for _ in range(80):
        neg = min_exps(p)
        inv = [a for a in pvars(p) if ATOMS[a].kind == "inv"]
        if not neg and not inv:
            break
        if neg:
            a = max(neg)
            k = -neg[a]
            p = _mul_sqrt(p, a, k) if ATOMS[a].kind == "sqrt" else pmul(p, {((a, k),): 1})
            if ATOMS[a].kind == "inv":
                p = _subst_inv(p, a)
        else:
            p = _subst_inv(p, max(inv))
        sc = max(sc, float(pscale_max(p)))
        if has_float(p):
            p = drop_noise(p, sc)
        if not p:
            return p
    return p


def concretise(p):
    """Pick a solver-chosen value for a real polynomial, add it as a path constraint (under-approximation)."""
    C = core.CTX
    if C is None:
        raise Unsupported("no context")
    fr = sys._getframe(2)
    while fr is not None and ("/symx/" in fr.f_code.co_filename or "numpy" in fr.f_code.co_filename):
        fr = fr.f_back
    C.note_concretised("%s:%d" % (fr.f_code.co_filename.split("/")[-1], fr.f_lineno) if fr else "?")
    return C_concretise_vars(p)


def C_concretise_vars(p):
    C = core.CTX
    # fix all free atoms below p to simple values
    free = []
    seen = set()

    def walk(q):
        for a in pvars(q):
            if a in seen:
                continue
            seen.add(a)
            at = ATOMS[a]
            if at.kind == "free":
                free.append(at)
            elif at.kind in ("sqrt", "inv"):
                walk(at.d)
            elif at.kind == "exp":
                walk({at.d[0]: 1})
            else:
                raise Unsupported("concretise " + at.kind)
    walk(p)
    fixed = C.fixed
    for at in sorted(free, key=lambda t: t.id):
        if at.id in fixed:
            continue
        if C.pos < len(C.prefix):
            val = C.prefix[C.pos]
            C.pos += 1
            C._record(val)
        else:
            constrain_atom(at.id)
            val = None
            h = (at.id * 2654435761 + C.seed * 97) % 1000
            base = [Fraction(h % 7 + 2, 4), Fraction(-(h % 5) - 2, 4), Fraction(h % 11 + 1, 8), 1, 0]
            for c in base:
                if C._sat_with(at.z == zcoef(c)):
                    val = ("r", str(Fraction(c)))
                    break
            if val is None:
                m = C.sat_model()
                if m is None:
                    raise Unsupported("cannot concretise")
                val = ("r", str(core.to_fraction(m.real(at.z) if isinstance(m, core.Models) else m.eval(at.z, model_completion=True))))
            C._record(val)
            C.pos += 1
            C.prefix = C.taken[:]
        v = Fraction(val[1])
        C.add(at.z == zcoef(v))
        C.model_cache = None
        fixed[at.id] = v
    return evalp(p, fixed)


def evalp(p, env):
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for a, e in m:
            t *= eval_atom(a, env) ** e
        s += t
    return s


def eval_atom(a, env):
    if a in env:
        return float(env[a])
    at = ATOMS[a]
    if at.kind == "sqrt":
        return math.sqrt(max(0.0, evalp(at.d, env)))
    if at.kind == "inv":
        return evalp(at.d, env)
    if at.kind == "exp":
        return math.exp(float(at.d[1]) * evalp({at.d[0]: 1}, env))
    raise Unsupported("eval " + at.kind)


def real_var(name, lo=None, hi=None):
    key = ("free", name)
    return new_atom(name, "free", lo=lo, hi=hi, pos=(lo is not None and lo >= 0), key=key)


def var(name, lo=None, hi=None):
    at = real_var(name, lo, hi)
    return Num({((at.id, 1),): 1})


def surely_below(x, tol):
    """interval bound: |re x| + |im x| <= tol whatever the (bounded) inputs are; False means undecided"""
    tot = 0
    for part in (x.re, x.im):
        for mono, c in part.items():
            b = abs(Fraction(c))
            for i, e in mono:
                at = ATOMS[i]
                if e < 0 or at.lo is None or at.hi is None:
                    return False
                b *= max(abs(Fraction(at.lo)), abs(Fraction(at.hi))) ** e
            tot += b
            if tot > tol:
                return False
    return True


def trunc(x):
    """int(x) of a symbolic real: an integer-valued number"""
    c = x.const()
    if c is not None:
        if isinstance(c, complex):
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
        return int(c)
    if x.im:
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
    e = to_z3(x.re)
    at = new_atom("trunc", "uf", key=("trunc", canon_key(x.re)),
                  extra=lambda z, e=e: [z == z3.If(e >= 0, z3.ToReal(z3.ToInt(e)), -z3.ToReal(z3.ToInt(-e)))])
    return Num({((at.id, 1),): 1})


def is_integer(v):
    v = Num.lift(v)
    c = v.const()
    if c is not None:
        return float(c).is_integer()
    e = to_z3(v.re)
    return mkbool(z3.ToReal(z3.ToInt(e)) == e)
