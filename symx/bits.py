"""Symbolic bit sequences: strings, bitarrays, bytes and guarded (subset) sequences."""
import bitarray as _ba
from . import core
from .core import z3, SymBool, mkbool, Unsupported, AND, OR, NOT, B
from .ints import SymInt, count_true, ite as int_ite, width_for


def isb(x):
    return isinstance(x, SymBool)


def beq(a, b):
    """bool/SymBool equality of two bits"""
    if isb(a):
        return a == b if isb(b) else (a if b else mkbool(z3.Not(a.e)))
    if isb(b):
        return beq(b, a)
    return bool(a) == bool(b)


def bite(c, a, b):
    return mkbool(z3.If(c.e, B(a), B(b)))


def _ix(k):
    return int(k) if isinstance(k, (SymInt, SymBool)) else k


def _sl(k):
    if isinstance(k, slice):
        return slice(_ix(k.start), _ix(k.stop), _ix(k.step))
    return _ix(k)


# ------------------------------------------------------------------ strings
class SymStr:
    """string of fixed length; each character is a concrete character or a bit ('1'/'0')"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = list(c)

    @staticmethod
    def make(c):
        c = list(c)
        if all(isinstance(x, str) for x in c):
            return "".join(c)
        return SymStr(c)

    def __len__(self):
        return len(self.c)

    def __iter__(self):
        for x in self.c:
            yield x if isinstance(x, str) else SymStr([x])

    def __getitem__(self, k):
        k = _sl(k)
        if isinstance(k, slice):
            return SymStr.make(self.c[k])
        x = self.c[k]
        return x if isinstance(x, str) else SymStr([x])

    @staticmethod
    def chars(o):
        if isinstance(o, SymStr):
            return o.c
        if isinstance(o, str):
            return list(o)
        return None

    def __add__(self, o):
        o = SymStr.chars(o)
        return NotImplemented if o is None else SymStr(self.c + o)

    def __radd__(self, o):
        o = SymStr.chars(o)
        return NotImplemented if o is None else SymStr(o + self.c)

    def __mul__(self, k):
        return SymStr(self.c * _ix(k))
    __rmul__ = __mul__

    def __eq__(self, o):
        o = SymStr.chars(o)
        if o is None:
            return False
        if len(o) != len(self.c):
            return False
        r = []
        for x, y in zip(self.c, o):
            e = chareq(x, y)
            if e is False:
                return False
            r.append(e)
        return AND(*r)

    def __ne__(self, o):
        return NOT(self == o)

    def __lt__(self, o):
        return str(self) < str(o)

    def __hash__(self):
        return hash("".join(x if isinstance(x, str) else ("1" if bool(x) else "0") for x in self.c))

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        o = SymStr.chars(o)
        n = len(o)
        return OR(*[SymStr(self.c[k:k + n]) == SymStr(o) for k in range(len(self.c) - n + 1)])

    def count(self, o, start=None, stop=None):
        cs = self.c[_ix(start):_ix(stop)]
        if len(o) != 1:
            return str(self)[_ix(start):_ix(stop)].count(o)
        return count_true([chareq(x, o if isinstance(o, str) else o.c[0]) for x in cs])

    def zfill(self, n):
        n = _ix(n)
        return SymStr(["0"] * (n - len(self.c)) + self.c)

    def rjust(self, n, f=" "):
        return SymStr([f] * (_ix(n) - len(self.c)) + self.c)

    def ljust(self, n, f=" "):
        return SymStr(self.c + [f] * (_ix(n) - len(self.c)))

    def join(self, it):
        return str_join(self, it)

    def startswith(self, o):
        o = SymStr.chars(o)
        return SymStr(self.c[:len(o)]) == SymStr(o) if len(o) <= len(self.c) else False

    def endswith(self, o):
        o = SymStr.chars(o)
        return SymStr(self.c[len(self.c) - len(o):]) == SymStr(o) if len(o) <= len(self.c) else False

    def __str__(self):
        return "".join(x if isinstance(x, str) else ("1" if bool(x) else "0") for x in self.c)

    def __format__(self, spec):
        return format(str(self), spec)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(str(self), k)

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __repr__(self):
        return "<symstr>"


def chareq(x, y):
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    if isinstance(x, str):
        x, y = y, x
    if isinstance(y, str):
        return x if y == "1" else (mkbool(z3.Not(x.e)) if y == "0" else False) if isb(x) else (y == ("1" if x else "0"))
    return beq(x, y)


def char_of(b):
    return b if isb(b) else ("1" if b else "0")


def bit_of(ch):
    if isinstance(ch, str):
        if ch == "1":
            return True
        if ch == "0":
            return False
        raise ValueError("expected '0' or '1' (or whitespace, or underscore), got %r" % ch)
    return ch


def str_join(sep, it):
    out = []
    s = SymStr.chars(sep)
    for k, x in enumerate(it):
        if k:
            out.extend(s)
        cs = SymStr.chars(x)
        if cs is None:
            raise TypeError("sequence item %d: expected str instance, %s found" % (k, type(x).__name__))
        out.extend(cs)
    return SymStr.make(out)


def bin_int(i):
    """digits of a non-negative SymInt without leading zeros (forks on the length)"""
    if i.lo < 0 and bool(i < 0):
        return str_join("", ["-", bin_int(-i)])
    L = i.bit_length()
    L = int(L)
    if L == 0:
        return "0"
    return SymStr.make([char_of(True if k == L - 1 else i.bit(k)) for k in range(L - 1, -1, -1)])


def int_format(i, spec):
    import re
    m = re.fullmatch(r"(0?)(\d*)b", spec)
    if m and isinstance(i, SymInt):
        w = int(m.group(2) or 0)
        if i.lo >= 0 and m.group(1) and width_for(0, i.hi) - 1 <= w:
            return SymStr.make([char_of(i.bit(k)) if k < i.e.size() - 1 else "0" for k in range(w - 1, -1, -1)])
        s = bin_int(i)
        return s.rjust(w, "0" if m.group(1) else " ") if len(s) < w else s
    return None


def parse_int(s, base=10):
    if isinstance(s, SymStr):
        if base not in (2, 0):
            return int(str(s), base)
        if len(s.c) == 0:
            raise ValueError("invalid literal for int() with base 2: ''")
        return bits_to_int([bit_of(x) for x in s.c])
    return int(s, base)


def bits_to_int(bs):
    if not any(isb(b) for b in bs):
        return int("".join("1" if b else "0" for b in bs) or "0", 2)
    vs = [z3.If(b.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if isb(b) else z3.BitVecVal(1 if b else 0, 1) for b in bs]
    lo = sum(1 << (len(bs) - 1 - k) for k, b in enumerate(bs) if b is True)
    hi = lo + sum(1 << (len(bs) - 1 - k) for k, b in enumerate(bs) if isb(b))
    e = z3.Concat(z3.BitVecVal(0, 1), *vs)
    return SymInt.make(e, 0, hi)


# ------------------------------------------------------------------ bytes
class SymBytes:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(b)

    @staticmethod
    def make(b):
        b = tuple(b)
        # once a path has symbolic occupation bits every bytes value uses this class, so that equal keys always share a hash
        if not any(isb(x) for x in b) and not (core.CTX is not None and core.CTX.symkeys):
            return bits_to_bytes(b)
        return SymBytes(b)

    @staticmethod
    def bits(o):
        if isinstance(o, SymBytes):
            return o.b
        if isinstance(o, (bytes, bytearray)):
            return tuple(bool(x >> (7 - k) & 1) for x in o for k in range(8))
        return None

    def __len__(self):
        return len(self.b) // 8

    def byte(self, k):
        return bits_to_int(self.b[8 * k:8 * k + 8])

    def __getitem__(self, k):
        k = _sl(k)
        if isinstance(k, slice):
            bs = [self.b[8 * j:8 * j + 8] for j in range(len(self))[k]]
            return SymBytes.make([x for q in bs for x in q])
        n = len(self)
        if not -n <= k < n:
            raise IndexError("index out of range")
        return self.byte(k % n)

    def __iter__(self):
        for k in range(len(self)):
            yield self.byte(k)

    def __eq__(self, o):
        q = SymBytes.bits(o)
        if q is None:
            return False
        if len(q) != len(self.b):
            return False
        return AND(*[beq(x, y) for x, y in zip(self.b, q)])

    def __ne__(self, o):
        return NOT(self == o)

    def _lex(self, o, strict):
        q = SymBytes.bits(o)
        n = min(len(q), len(self.b))
        r = len(self.b) < len(q) if strict else len(self.b) <= len(q)
        r = z3.BoolVal(r)
        for x, y in zip(reversed(self.b[:n]), reversed(q[:n])):
            x, y = B(x), B(y)
            r = z3.If(x == y, r, z3.And(z3.Not(x), y))
        return mkbool(r)

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        return NOT(self._lex(o, False))

    def __ge__(self, o):
        return NOT(self._lex(o, True))

    def __add__(self, o):
        return SymBytes.make(self.b + SymBytes.bits(o))

    def __radd__(self, o):
        return SymBytes.make(SymBytes.bits(o) + self.b)

    def __mul__(self, k):
        return SymBytes.make(self.b * _ix(k))

    def __hash__(self):
        return 11

    def __bytes__(self):
        return bits_to_bytes([bool(x) for x in self.b])

    def concrete(self):
        return bytes(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(bytes(self), k)

    def __repr__(self):
        return "<symbytes>"


def bits_to_bytes(b):
    out = bytearray(len(b) // 8)
    for k, x in enumerate(b):
        if x:
            out[k // 8] |= 1 << (7 - k % 8)
    return bytes(out)


# ------------------------------------------------------------------ bitarray
_fresh = [0]


class SymBits:
    """mutable bit sequence with the interface of bitarray.bitarray"""
    endian_ = "big"

    def __init__(self, init=0, endian=None, buffer=None):
        self.endian_ = endian or "big"
        if init is None:
            init = 0
        if isinstance(init, (SymInt, SymBool)):
            init = int(init)
        if isinstance(init, bool):
            raise TypeError("cannot create bitarray from 'bool' object")
        if isinstance(init, int):
            # uninitialised content: arbitrary
            self.b = []
            for _ in range(init):
                _fresh[0] += 1
                self.b.append(SymBool(z3.Bool("uninit!%d" % _fresh[0])))
        elif isinstance(init, SymBits):
            self.b = list(init.b)
        elif isinstance(init, (str, SymStr)):
            self.b = [bit_of(x) for x in SymStr.chars(init) if not (isinstance(x, str) and x in " _\n\t")]
        elif isinstance(init, (bytes, SymBytes)):
            self.b = []
            self.frombytes(init)
        else:
            self.b = []
            self.extend(init)

    @classmethod
    def _mk(cls, b, endian="big"):
        r = cls.__new__(cls)
        r.b = list(b)
        r.endian_ = endian
        return r

    @staticmethod
    def _bit(v):
        if isb(v):
            return v
        if isinstance(v, SymInt):
            if v.lo < 0 or v.hi > 1:
                if not (bool(v >= 0) and bool(v <= 1)):
                    raise ValueError("bit must be 0 or 1")
            return v == 1
        if isinstance(v, (str, SymStr)):
            raise TypeError("bit must be 0 or 1")
        v = v.__index__()
        if v not in (0, 1):
            raise ValueError("bit must be 0 or 1, got %d" % v)
        return bool(v)

    def endian(self):
        return self.endian_

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        for x in list(self.b):
            yield out(x)

    def __getitem__(self, k):
        k = _sl(k)
        if isinstance(k, slice):
            return self._mk(self.b[k], self.endian_)
        if isinstance(k, (list, tuple)):
            return self._mk([self.b[_ix(j)] for j in k], self.endian_)
        if isinstance(k, SymBits):
            return self._mk([x for x, m in zip(self.b, k.b) if bool(m)], self.endian_)
        try:
            return out(self.b[k])
        except IndexError:
            raise IndexError("bitarray index out of range")

    def __setitem__(self, k, v):
        k = _sl(k)
        if isinstance(k, slice):
            if isinstance(v, SymBits):
                n = len(self.b[k])
                if k.step not in (None, 1) or len(v.b) == n:
                    self.b[k] = v.b
                else:
                    self.b[k] = v.b
            else:
                b = self._bit(v)
                for j in range(*k.indices(len(self.b))):
                    self.b[j] = b
            return
        if isinstance(k, (list, tuple)):
            for j in k:
                self.b[_ix(j)] = self._bit(v)
            return
        try:
            self.b[k] = self._bit(v)
        except IndexError:
            raise IndexError("bitarray assignment index out of range")

    def __delitem__(self, k):
        del self.b[_sl(k)]

    def copy(self):
        return self._mk(self.b, self.endian_)
    __copy__ = copy

    def __deepcopy__(self, m):
        return self.copy()

    def count(self, value=1, start=0, stop=None, step=1):
        bs = self.b[slice(_ix(start), _ix(stop), _ix(step))]
        if isinstance(value, SymBits):
            raise Unsupported("count of sub-bitarray")
        if not value:
            bs = [NOT(x) for x in bs]
        return count_true(bs)

    def to01(self):
        return SymStr.make([char_of(x) for x in self.b])

    def tolist(self):
        return [out(x) for x in self.b]

    def tobytes(self):
        b = list(self.b)
        b += [False] * (-len(b) % 8)
        if self.endian_ == "little":
            b = [x for k in range(0, len(b), 8) for x in reversed(b[k:k + 8])]
        return SymBytes.make(b)
    __bytes__ = tobytes

    def frombytes(self, data):
        q = SymBytes.bits(data)
        if q is None:
            raise TypeError("a bytes-like object is required")
        q = list(q)
        if self.endian_ == "little":
            q = [x for k in range(0, len(q), 8) for x in reversed(q[k:k + 8])]
        self.b.extend(q)

    def append(self, v):
        self.b.append(self._bit(v))

    def extend(self, it):
        if isinstance(it, SymBits):
            self.b.extend(it.b)
        elif isinstance(it, (str, SymStr)):
            self.b.extend(bit_of(x) for x in SymStr.chars(it))
        else:
            for v in it:
                self.b.append(self._bit(v))

    def insert(self, k, v):
        self.b.insert(_ix(k), self._bit(v))

    def pop(self, k=-1):
        return out(self.b.pop(_ix(k)))

    def reverse(self):
        self.b.reverse()

    def setall(self, v):
        self.b = [self._bit(v)] * len(self.b)

    def clear(self):
        self.b = []

    def invert(self, k=None):
        if k is None:
            self.b = [NOT(x) for x in self.b]
        else:
            k = _ix(k)
            self.b[k] = NOT(self.b[k])

    def fill(self):
        p = -len(self.b) % 8
        self.b += [False] * p
        return p

    def any(self):
        return OR(*self.b)

    def all(self):
        return AND(*self.b)

    def index(self, v, start=0, stop=None):
        for k in range(len(self.b))[slice(_ix(start), _ix(stop))]:
            if bool(beq(self.b[k], bool(v))):
                return k
        raise ValueError("not in bitarray")

    def find(self, v, start=0, stop=None):
        if isinstance(v, SymBits):
            if len(v.b) != 1:
                raise Unsupported("find of sub-bitarray")
            v = v.b[0]
        try:
            return self.index(v, start, stop)
        except ValueError:
            return -1

    def search(self, v, *a):
        if isinstance(v, (SymBits, _ba.bitarray)):
            if len(v) != 1:
                raise Unsupported("search")
            v = v[0]
        return GSeq([(beq(x, bool(v)), k) for k, x in enumerate(self.b)])
    itersearch = search

    def _z(self, o, f):
        o = SymBits(o) if not isinstance(o, SymBits) else o
        if len(o.b) != len(self.b):
            raise ValueError("bitarrays of equal length expected for bitwise operation")
        return self._mk([f(x, y) for x, y in zip(self.b, o.b)], self.endian_)

    def __and__(self, o):
        return self._z(o, lambda x, y: AND(x, y))

    def __or__(self, o):
        return self._z(o, lambda x, y: OR(x, y))

    def __xor__(self, o):
        return self._z(o, lambda x, y: NOT(beq(x, y)))

    def __invert__(self):
        return self._mk([NOT(x) for x in self.b], self.endian_)

    def _iop(f):
        def g(self, o):
            self.b = f(self, o).b
            return self
        return g
    __iand__ = _iop(__and__)
    __ior__ = _iop(__or__)
    __ixor__ = _iop(__xor__)

    def __lshift__(self, k):
        k = min(_ix(k), len(self.b))
        return self._mk(self.b[k:] + [False] * k, self.endian_)

    def __rshift__(self, k):
        k = min(_ix(k), len(self.b))
        return self._mk([False] * k + self.b[:len(self.b) - k], self.endian_)

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        return self._mk(self.b * _ix(k), self.endian_)

    def __contains__(self, v):
        if isinstance(v, SymBits):
            raise Unsupported("contains")
        return bool(OR(*[beq(x, bool(v)) for x in self.b]))

    def __eq__(self, o):
        if not isinstance(o, SymBits):
            return False
        if len(o.b) != len(self.b):
            return False
        return AND(*[beq(x, y) for x, y in zip(self.b, o.b)])

    def __ne__(self, o):
        return NOT(self == o)

    __hash__ = None

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("bitarray." + k)

    def __repr__(self):
        return "<symbits>"


def out(x):
    """an element read from a bitarray is the integer 0 or 1"""
    return x if isb(x) else int(x)


def ba2int(b, signed=False):
    if signed:
        raise Unsupported("signed ba2int")
    bs = list(b.b)
    if b.endian_ == "little":
        bs.reverse()
    if not bs:
        raise ValueError("non-empty bitarray expected")
    return bits_to_int(bs)


def int2ba(i, length=None, endian=None, signed=False):
    if signed:
        raise Unsupported("signed int2ba")
    if length is None:
        s = bin_int(i) if isinstance(i, SymInt) else bin(i)[2:]
        bs = [bit_of(x) for x in SymStr.chars(s)]
    else:
        length = _ix(length)
        i = SymInt.lift(i)
        if i.lo < 0 and bool(i < 0):
            raise OverflowError("unsigned integer not in range")
        if i.hi >= 1 << length and bool(i >= (1 << length)):
            raise OverflowError("unsigned integer not in range")
        bs = [i.bit(k) if k < i.e.size() - 1 else False for k in range(length - 1, -1, -1)]
    if endian == "little":
        bs.reverse()
    return SymBits._mk(bs, endian or "big")


# ------------------------------------------------------------------ guarded sequences
class GSeq:
    """the subsequence of `items` (guard, value) whose guards hold; immutable, used for tuples (and lists) of indices"""
    __slots__ = ("it", "kind")

    def __init__(self, it, kind="tuple"):
        self.it = [(g, v) for g, v in it if g is not False]
        self.kind = kind

    @staticmethod
    def make(it, kind="tuple"):
        it = [(g, v) for g, v in it if g is not False]
        if all(g is True for g, _ in it):
            t = [v for _, v in it]
            return tuple(t) if kind == "tuple" else t if kind == "list" else iter(t)
        return GSeq(it, kind)

    @staticmethod
    def items_of(o):
        if isinstance(o, GSeq):
            return o.it
        return [(True, v) for v in o]

    def length(self):
        return count_true([g for g, _ in self.it])

    def __len__(self):
        return int(self.length())

    def __iter__(self):
        for g, v in self.it:
            if g is True or bool(g):
                yield v

    def contains(self, x):
        r = []
        for g, v in self.it:
            e = v == x
            if e is False:
                continue
            r.append(g if e is True else AND(g, e))
        return OR(*r)

    def __contains__(self, x):
        return bool(self.contains(x))

    def prefix(self, x, right=False):
        """bisect on a sorted sequence"""
        gs = []
        last = 0
        struct = True
        for k, (g, v) in enumerate(self.it):
            e = (v <= x) if right else (v < x)
            if e is True:
                if k != last:
                    struct = False
                last = k + 1
                gs.append(g)
            elif e is not False:
                struct = False
                gs.append(AND(g, e))
        n = count_true(gs)
        if struct:
            if isinstance(n, SymInt):
                r = SymInt(n.e, n.lo, n.hi, tag=(id(self), last, self, 0))
                r.cnt = n.cnt
                return r
            return n if not (isinstance(n, int) and last) or all(g is True for g, _ in self.it[:last]) else n
        return n

    def _slot(self, k):
        """structural slot for an index, or None"""
        if k is None:
            return None
        if isinstance(k, SymInt):
            if k.tag is not None and k.tag[0] == id(self) and k.tag[3] == 0:
                return k.tag[1]
            return None
        if isinstance(k, int) and k >= 0:
            # all guards before are constant true
            if k <= len(self.it) and all(g is True for g, _ in self.it[:k]):
                return k
        return None

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step in (None, 1):
                a = 0 if k.start is None else self._slot_plus(k.start)
                b = len(self.it) if k.stop is None else self._slot_plus(k.stop)
                if a is not None and b is not None:
                    return GSeq.make(self.it[a:b], self.kind)
            return tuple(self)[_sl(k)] if self.kind == "tuple" else list(self)[_sl(k)]
        s = self._slot(k)
        if s is not None:
            rest = self.it[s:]
            ex = OR(*[g for g, _ in rest])
            if ex is not True and not bool(ex):
                raise IndexError("tuple index out of range")
            # first element whose guard holds
            r = None
            for g, v in reversed(rest):
                if r is None or g is True:
                    r = v
                else:
                    r = int_ite(g, v, r)
            return r
        if isinstance(k, SymInt):
            n = self.length()
            if not bool(k < n) or (k.lo < 0 and not bool(k >= 0)):
                raise IndexError("tuple index out of range")
            r, pc = None, 0
            conds = []
            for g, v in self.it:
                conds.append((AND(g, SymInt.lift(pc) == k), v))
                pc = pc + (SymInt.lift(g) if isb(g) else int(g))
            for cnd, v in reversed(conds):
                if cnd is False:
                    continue
                r = v if (r is None or cnd is True) else int_ite(cnd, v, r)
            return r
        return tuple(self)[k]

    def _slot_plus(self, k):
        """slot of j or of j+1 where the element at slot(j) is known to be present"""
        s = self._slot(k)
        if s is not None:
            return s
        if isinstance(k, SymInt):
            if k.tag is not None and k.tag[0] == id(self) and k.tag[3] == 1 and k.tag[1] < len(self.it):
                g = self.it[k.tag[1]][0]
                if g is True or core.CTX.decided_true(g.e):
                    return k.tag[1] + 1
            C = core.CTX
            # semantic search for a slot whose prefix count equals k on this path
            for t in range(len(self.it) + 1):
                pre = SymInt.lift(count_true([x for x, _ in self.it[:t]]))
                e = pre == k
                if e is True:
                    return t
                if e is False:
                    continue
                m = C.model_cache
                if m is not None and z3.is_false(m.eval(e.e, model_completion=True)):
                    continue
                if not C._sat_with(z3.Not(e.e)):
                    return t
        return None

    def __add__(self, o):
        return GSeq(self.it + GSeq.items_of(o), self.kind)

    def __radd__(self, o):
        return GSeq(GSeq.items_of(o) + self.it, self.kind)

    def sorted_concrete(self):
        v = [x for _, x in self.it]
        return all(isinstance(x, int) for x in v) and all(a < b for a, b in zip(v, v[1:]))

    def __eq__(self, o):
        if not isinstance(o, (GSeq, tuple, list)):
            return False
        if isinstance(o, (tuple, list)) and (type(o).__name__ != self.kind):
            return False
        return seq_eq(self.it, GSeq.items_of(o))

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        return hash(tuple(iter(self)))

    def count(self, x):
        return count_true([AND(g, v == x) for g, v in self.it])

    def index(self, x):
        return tuple(self).index(x)

    def __reversed__(self):
        return iter(GSeq(self.it[::-1]))

    def __bool__(self):
        return bool(OR(*[g for g, _ in self.it]))

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(tuple(self) if self.kind == "tuple" else list(self), k)

    def __repr__(self):
        return "<gseq>"


def seq_eq(A, Bs):
    sc = lambda s: all(isinstance(v, int) for _, v in s) and all(a[1] <= b[1] for a, b in zip(s, s[1:]))
    if sc(A) and sc(Bs):
        # both non-decreasing: equal iff every value occurs equally often
        da, db = {}, {}
        for d, q in ((da, A), (db, Bs)):
            for g, v in q:
                d.setdefault(v, []).append(g)
        cs = []
        for v in set(da) | set(db):
            x, y = da.get(v, [False]), db.get(v, [False])
            cs.append(beq(x[0], y[0]) if len(x) == len(y) == 1 else SymInt.lift(count_true(x)) == SymInt.lift(count_true(y)))
        return AND(*cs)
    # general: equal lengths and equal elements at equal ranks
    def ranks(s):
        pc, r = 0, []
        for g, _ in s:
            r.append(SymInt.lift(pc))
            pc = pc + (SymInt.lift(g) if isb(g) else int(g))
        return r, pc
    ra, la = ranks(A)
    rb, lb = ranks(Bs)
    cs = [SymInt.lift(la) == SymInt.lift(lb)]
    for (g, v), p in zip(A, ra):
        for (h, w), q in zip(Bs, rb):
            e = v == w
            if e is True:
                continue
            cs.append(core.IMPLIES(AND(g, h, p == q), e))
    return AND(*cs)


class IdxSet(frozenset):
    """concrete set of spin-orbital indices; intersections with guarded sequences stay symbolic"""

    def intersection(self, *os):
        if len(os) == 1 and isinstance(os[0], GSeq):
            return GSetView([(g, v) for g, v in os[0].it if v in frozenset(self)])
        return IdxSet(frozenset.intersection(self, *[o if not isinstance(o, GSeq) else tuple(o) for o in os]))

    def __and__(self, o):
        if isinstance(o, GSetView):
            return o & self
        return frozenset.__and__(self, o)
    __rand__ = __and__

    def isdisjoint(self, o):
        if isinstance(o, GSeq):
            return NOT(OR(*[g for g, v in o.it if v in self]))
        return frozenset.isdisjoint(self, o)

    def __deepcopy__(self, m):
        return self


class GSetView:
    """set of distinct guarded values"""

    def __init__(self, it):
        d = {}
        for g, v in it:
            d[v] = OR(d[v], g) if v in d else g
        self.d = d

    def length(self):
        return count_true(list(self.d.values()))

    def __len__(self):
        return int(self.length())

    def __iter__(self):
        for v, g in self.d.items():
            if bool(g):
                yield v

    def contains(self, x):
        return self.d.get(x, False)

    def __contains__(self, x):
        return bool(self.contains(x))

    def intersection(self, o):
        if isinstance(o, (set, frozenset, range)):
            return GSetView([(g, v) for v, g in self.d.items() if v in o])
        return set(self) & set(o)
    __and__ = intersection
    __rand__ = intersection

    def __bool__(self):
        return bool(OR(*self.d.values()))
