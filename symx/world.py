"""Loads the sources of the code under test into a private set of modules, with the symbolic or simulated environment."""
import ast, builtins, bisect as _bisect, math, os, sys, types, importlib, string, itertools
from . import core
from .core import z3, SymBool, mkbool, Unsupported, AND, OR, NOT

REPO = os.environ.get("SYMX_REPO", "/repo")


# ------------------------------------------------------------------ merging helpers (used by transformed code)
class _Unb:
    pass


UNB = _Unb()
MERGE = [True]


def sx_in(x, c):
    f = getattr(c, "contains", None)
    if f is not None and type(c).__module__.startswith("symx."):
        return f(x)
    if type(x).__module__.startswith("symx.") and isinstance(c, (tuple, list, set, frozenset, range)) and not isinstance(x, (core.SymBool,)):
        from .ints import SymInt
        if isinstance(x, SymInt):
            if isinstance(c, range) and c.step == 1:
                return AND(x >= c.start, x < c.stop)
            return OR(*[x == v for v in c])
    return x in c


def sx_not(x):
    if isinstance(x, SymBool):
        return x.negate()
    return not x


def sx_issym(t):
    if not MERGE[0] or not isinstance(t, SymBool):
        return False
    C = core.CTX
    e = z3.simplify(t.e)
    if z3.is_true(e) or z3.is_false(e):
        return False
    if z3.is_not(e):
        return e.arg(0).get_id() not in C.decided
    return e.get_id() not in C.decided


def merge(t, a, b):
    """value of (a if t else b); decides t when the two cannot be merged"""
    from . import bits, ints, num
    if a is b:
        return a
    try:
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return bits.bite(t, a, b)
        if isinstance(a, (int, ints.SymInt)) and isinstance(b, (int, ints.SymInt)):
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            return ints.ite(t, a, b)
        if isinstance(a, (str, bits.SymStr)) and isinstance(b, (str, bits.SymStr)) and len(a) == len(b):
            out = []
            for x, y in zip(bits.SymStr.chars(a), bits.SymStr.chars(b)):
                if isinstance(x, str) and x == y:
                    out.append(x)
                elif (x in ("0", "1") if isinstance(x, str) else True) and (y in ("0", "1") if isinstance(y, str) else True):
                    out.append(bits.char_of(bits.bite(t, bits.bit_of(x), bits.bit_of(y))))
                else:
                    raise Unsupported("merge")
            return bits.SymStr.make(out)
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            return tuple(merge(t, x, y) for x, y in zip(a, b))
    except Unsupported:
        pass
    return a if bool(t) else b


def sx_ifexp(t, f, g):
    if not sx_issym(t):
        return f() if t else g()
    try:
        a = f()
        b = g()
    except Exception:
        return f() if bool(t) else g()
    return merge(t, a, b)


class GList(list):
    """list whose elements may carry guards (then self.g holds (guard, value) pairs)"""
    g = None

    def _up(self):
        if self.g is None:
            self.g = [(True, v) for v in list.__iter__(self)]
            list.clear(self)

    def gappend(self, guard, v):
        if guard is not True:
            self._up()
        if self.g is None:
            list.append(self, v)
        else:
            self.g.append((guard, v))

    def append(self, v):
        self.gappend(True, v)

    def seq(self, kind="list"):
        from .bits import GSeq
        return GSeq(self.g, kind)

    def _down(self):
        """decide all guards"""
        if self.g is not None:
            vals = [v for gd, v in self.g if gd is True or bool(gd)]
            self.g = None
            list.extend(self, vals)

    def extend(self, o):
        from .bits import GSeq
        if isinstance(o, GSeq):
            self._up()
            self.g.extend(o.it)
            return
        for v in o:
            self.append(v)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __iter__(self):
        if self.g is None:
            return list.__iter__(self)
        return iter(self.seq())

    def __len__(self):
        return list.__len__(self) if self.g is None else len(self.seq())

    def __bool__(self):
        return (list.__len__(self) > 0) if self.g is None else bool(self.seq())

    def __getitem__(self, k):
        return list.__getitem__(self, k) if self.g is None else self.seq()[k]

    def contains(self, x):
        if self.g is None:
            return sx_in(x, list(self))
        return self.seq().contains(x)

    def __contains__(self, x):
        return bool(self.contains(x))

    def __eq__(self, o):
        if self.g is None:
            return list.__eq__(self, o)
        return self.seq() == o

    def __ne__(self, o):
        return NOT(self == o) if self.g is not None else list.__ne__(self, o)

    __hash__ = None

    def __add__(self, o):
        if self.g is None and not hasattr(o, "it") and getattr(o, "g", None) is None:
            return list.__add__(self, list(o) if isinstance(o, GList) else o)
        return self.seq() + (o.seq() if isinstance(o, GList) and o.g is not None else o)

    def copy(self):
        r = GList(list.__iter__(self))
        r.g = None if self.g is None else list(self.g)
        return r


def _decidefirst(name):
    f = getattr(list, name)

    def m(self, *a, **k):
        self._down()
        return f(self, *a, **k)
    m.__name__ = name
    return m


for _n in ("insert", "pop", "remove", "sort", "reverse", "index", "count", "clear", "__setitem__", "__delitem__", "__lt__", "__le__", "__gt__", "__ge__",
           "__mul__", "__rmul__", "__reversed__", "__repr__"):
    setattr(GList, _n, _decidefirst(_n))


def sx_append(lst, guard, v):
    if guard is True:
        lst.append(v)
    elif isinstance(lst, GList):
        lst.gappend(guard, v)
    elif bool(guard):
        lst.append(v)


def sx_setitem(o, k, v, guard):
    from .bits import SymBits
    if guard is True:
        o[k] = v
        return
    if isinstance(o, SymBits) and isinstance(k, int) or (type(o) in (list, GList) and isinstance(k, int) and not isinstance(k, bool) and getattr(o, "g", None) is None):
        o[k] = merge(guard, v, o[k])
        return
    if bool(guard):
        o[k] = v


def sx_assign(guard, new, old):
    if guard is True or old is UNB:
        if guard is not True:
            if bool(guard):
                return new
            return old
        return new
    return merge(guard, new, old)


IMM = (str, int, float, complex, tuple, bytes, type(None), _Unb)


def sx_canmerge(t, *old):
    if not sx_issym(t):
        return False
    for o in old:
        if not (isinstance(o, IMM) or type(o).__name__ in ("SymStr", "SymInt", "SymBool", "Num", "SymBytes", "GSeq")):
            return False
    return True


def sx_iter(it):
    """pairs (guard, element)"""
    from .bits import GSeq
    if isinstance(it, GSeq):
        return list(it.it)
    if isinstance(it, GList) and it.g is not None:
        return list(it.g)
    return ((True, v) for v in it)


def sx_test(x):
    """truth value of a condition, kept symbolic"""
    from .ints import SymInt
    return x != 0 if isinstance(x, SymInt) else x


def sx_comp(kind, it, f, cond):
    from .bits import GSeq
    out = []
    sym = False
    for g, v in sx_iter(it):
        c = True if cond is None else cond(v)
        c = sx_test(c)
        if isinstance(c, SymBool):
            if not sx_issym(c):
                c = bool(c)
        if isinstance(c, SymBool) or isinstance(g, SymBool):
            c = AND(g, c if isinstance(c, SymBool) else bool(c))
            if c is False:
                continue
            if not MERGE[0] and isinstance(c, SymBool):
                if not bool(c):
                    continue
                c = True
        elif not c:
            continue
        if isinstance(c, SymBool):
            sym = True
            out.append((c, f(v)))
        else:
            out.append((True, f(v)))
    if not sym:
        vals = [v for _, v in out]
        if kind == "list":
            return GList(vals)
        if kind == "set":
            return set(vals)
        return iter(vals)
    if kind == "set":
        s = []
        for c, v in out:
            if bool(c):
                s.append(v)
        return set(s)
    if kind == "list":
        r = GList()
        r.g = out
        return r
    return GSeq(out, "gen")


def sx_list(*a):
    return GList(a)


def sx_join(o, *a):
    from .bits import SymStr, str_join
    if isinstance(o, (str, SymStr)) and len(a) == 1:
        items = list(a[0])
        return str_join(o, items)
    return o.join(*a)


def sx_format(v, spec=""):
    from .bits import SymStr, int_format
    from .ints import SymInt
    if isinstance(v, SymStr):
        return v if spec == "" else format(str(v), spec)
    if isinstance(v, SymBool):
        v = v._int()
    if isinstance(v, SymInt):
        r = int_format(v, spec if isinstance(spec, str) else str(spec))
        if r is not None:
            return r
    return format(v, spec)


def sx_fstr(*parts):
    from .bits import str_join
    return str_join("", parts)


def sx_sformat(o, *a, **k):
    from .bits import SymStr, str_join
    if not isinstance(o, str) or not any(type(x).__name__ in ("SymInt", "SymStr", "SymBool") for x in list(a) + list(k.values())):
        return o.format(*a, **k)
    parts = []
    auto = [0]

    def field(name):
        if name == "":
            v = a[auto[0]]
            auto[0] += 1
            return v
        if name.isdigit():
            return a[int(name)]
        if name.isidentifier():
            return k[name]
        raise Unsupported("format field")
    for lit, name, spec, conv in string.Formatter().parse(o):
        if lit:
            parts.append(lit)
        if name is not None:
            v = field(name)
            if "{" in spec:
                sp = ""
                for l2, n2, s2, c2 in string.Formatter().parse(spec):
                    sp += l2
                    if n2 is not None:
                        sp += format(int(field(n2)) if not isinstance(n2, str) or True else 0, s2 or "")
                spec = sp
            if conv == "s":
                v = v if isinstance(v, SymStr) else str(v)
            elif conv == "r":
                v = repr(v)
            parts.append(sx_format(v, spec))
    return str_join("", parts)


PURE_CALLS = {"len", "int", "str", "abs", "min", "max", "bool", "float", "sx_in", "sx_not", "__sx_in", "__sx_not", "__sx_ifexp"}


class Transform(ast.NodeTransformer):
    """Rewrites conditional constructs so that branches on symbolic conditions can be merged into one path."""

    def __init__(self):
        self.n = 0

    def name(self):
        self.n += 1
        return "__sx_t%d" % self.n

    def call(self, f, *args):
        return ast.Call(func=ast.Name(id="__sx_" + f, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self.call("in", node.left, node.comparators[0])
            return c if isinstance(node.ops[0], ast.In) else self.call("not", c)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.call("not", node.operand)
        return node

    def lam(self, body):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)

    def visit_IfExp(self, node):
        if has(node, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return self.call("ifexp", node.test, self.lam(node.body), self.lam(node.orelse))

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = v.value
                if v.conversion == 115:
                    val = ast.Call(func=ast.Name(id="str", ctx=ast.Load()), args=[val], keywords=[])
                elif v.conversion in (114, 97):
                    val = ast.Call(func=ast.Name(id="repr", ctx=ast.Load()), args=[val], keywords=[])
                spec = v.format_spec if v.format_spec is not None else ast.Constant(value="")
                if not isinstance(spec, (ast.Constant, ast.Call)):
                    spec = ast.Constant(value="")
                parts.append(self.call("format", val, spec))
        return self.call("fstr", *parts)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute):
            if node.func.attr == "join" and len(node.args) == 1 and not node.keywords:
                return self.call("join", node.func.value, *node.args)
            if node.func.attr == "format":
                return ast.Call(func=ast.Name(id="__sx_sformat", ctx=ast.Load()), args=[node.func.value] + node.args, keywords=node.keywords)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not any(isinstance(e, ast.Starred) for e in node.elts) and len(node.elts) == 0:
            return self.call("list", *node.elts)
        return node

    def comp(self, node, kind):
        if len(node.generators) != 1 or node.generators[0].is_async or has(node, (ast.NamedExpr, ast.Yield, ast.Await)):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        g = node.generators[0]
        tgt = g.target

        def fn(body):
            if isinstance(tgt, ast.Name):
                a = [ast.arg(arg=tgt.id)]
                return ast.Lambda(args=ast.arguments(posonlyargs=[], args=a, kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
            inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=e.id) for e in tgt.elts], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="__sx_v")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                              body=ast.Call(func=inner, args=[ast.Starred(value=ast.Name(id="__sx_v", ctx=ast.Load()), ctx=ast.Load())], keywords=[]))
        if isinstance(tgt, ast.Tuple):
            if not all(isinstance(e, ast.Name) for e in tgt.elts) or len({e.id for e in tgt.elts}) != len(tgt.elts):
                return node
        elif not isinstance(tgt, ast.Name):
            return node
        if g.ifs:
            cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
            cond = fn(cond)
        else:
            cond = ast.Constant(value=None)
        return self.call("comp", ast.Constant(value=kind), g.iter, fn(node.elt), cond)

    def visit_ListComp(self, node):
        return self.comp(node, "list")

    def visit_SetComp(self, node):
        return self.comp(node, "set")

    def visit_GeneratorExp(self, node):
        return self.comp(node, "gen")

    # -- statements
    def mergeable(self, body):
        names = set()
        for s in body:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and pure(s.value):
                t = s.targets[0]
            elif isinstance(s, ast.AugAssign) and pure(s.value):
                t = s.target
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" \
                    and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1 and not s.value.keywords and pure(s.value.args[0]):
                continue
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            else:
                return None
            if isinstance(t, ast.Name):
                names.add(t.id)
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and pure(t.slice) and not isinstance(t.slice, ast.Slice):
                pass
            else:
                return None
        return names

    def guarded(self, body, gname):
        """statements of a mergeable body, executed under guard variable gname"""
        out = []
        G = lambda: ast.Name(id=gname, ctx=ast.Load())
        for s in body:
            if isinstance(s, (ast.Pass,)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                continue
            if isinstance(s, ast.Expr):
                out.append(ast.Expr(self.call("append", s.value.func.value, G(), s.value.args[0])))
                continue
            if isinstance(s, ast.Assign):
                t, v = s.targets[0], s.value
            else:
                t = s.target
                import copy
                ld = copy.deepcopy(t)
                ld.ctx = ast.Load()
                v = ast.BinOp(left=ld, op=s.op, right=s.value)
            if isinstance(t, ast.Name):
                out.append(ast.Assign(targets=[ast.Name(id=t.id, ctx=ast.Store())], value=self.call("assign", G(), v, self.cur(t.id))))
            else:
                out.append(ast.Expr(self.call("setitem", t.value, t.slice, v, G())))
        return out or [ast.Pass()]

    def cur(self, n):
        loc = ast.Call(func=ast.Name(id="__sx_locals", ctx=ast.Load()), args=[], keywords=[])
        return ast.Call(func=ast.Attribute(value=loc, attr="get", ctx=ast.Load()), args=[ast.Constant(value=n), ast.Name(id="__sx_UNB", ctx=ast.Load())], keywords=[])

    def visit_If(self, node):
        self.generic_visit(node)
        a = self.mergeable(node.body)
        b = self.mergeable(node.orelse)
        if a is None or b is None or not self.infunc:
            return node
        t, n = self.name(), self.name()
        import copy
        assign = ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=self.call("test", node.test))
        names = sorted(a | b)
        test = self.call("canmerge", ast.Name(id=t, ctx=ast.Load()), *[self.cur(x) for x in names])
        merged = self.guarded(copy.deepcopy(node.body), t)
        if node.orelse:
            # both branches start from the same state: names assigned in the body must not be read in the else branch
            reads = {x.id for s in node.orelse for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            reads |= {s.target.id for s in node.orelse if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)}
            multi = len(node.body) > 1 or len(node.orelse) > 1
            clash = a & reads
            if clash:
                # evaluate both branches from saved copies
                sv = {x: self.name() for x in names}
                bd = {x: self.name() for x in names}
                if any(not isinstance(s, (ast.Assign, ast.AugAssign)) or not isinstance(s.targets[0] if isinstance(s, ast.Assign) else s.target, ast.Name)
                       for s in node.body + node.orelse):
                    return node
                st = [ast.Assign(targets=[ast.Name(id=sv[x], ctx=ast.Store())], value=self.cur(x)) for x in names]
                st += copy.deepcopy(node.body)
                st += [ast.Assign(targets=[ast.Name(id=bd[x], ctx=ast.Store())], value=self.cur(x)) for x in names]
                st += [ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())], value=ast.Name(id=sv[x], ctx=ast.Load())) for x in names]
                st += copy.deepcopy(node.orelse)
                st += [ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())],
                                  value=self.call("merge", ast.Name(id=t, ctx=ast.Load()), ast.Name(id=bd[x], ctx=ast.Load()), self.cur(x))) for x in names]
                merged = st
            else:
                neg = ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=self.call("not", ast.Name(id=t, ctx=ast.Load())))
                merged = merged + [neg] + self.guarded(copy.deepcopy(node.orelse), n)
        plain = ast.If(test=ast.Name(id=t, ctx=ast.Load()), body=node.body, orelse=node.orelse)
        return [assign, ast.If(test=test, body=merged, orelse=[plain])]

    def visit_For(self, node):
        self.generic_visit(node)
        return node

    infunc = False

    def visit_FunctionDef(self, node):
        old = self.infunc
        self.infunc = True
        self.generic_visit(node)
        self.infunc = old
        return node

    def visit_ClassDef(self, node):
        return node


class ForGuard(ast.NodeTransformer):
    """for x in <guarded sequence>: body  ->  body under the guard (first pass, before Transform)"""

    def __init__(self):
        self.n = 0

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse or has_ctl(node.body) or not Transform().mergeable_shallow(node.body):
            return node
        self.n += 1
        g = "__sx_g%d" % self.n
        it = ast.Call(func=ast.Name(id="__sx_iter", ctx=ast.Load()), args=[node.iter], keywords=[])
        tgt = ast.Tuple(elts=[ast.Name(id=g, ctx=ast.Store()), node.target], ctx=ast.Store())
        body = ast.If(test=ast.Name(id=g, ctx=ast.Load()), body=node.body, orelse=[])
        return ast.For(target=tgt, iter=it, body=[body], orelse=[], type_comment=None)


def _shallow(self, body):
    return bool(body) and self.mergeable(body) is not None


Transform.mergeable_shallow = _shallow


def has(node, kinds):
    return any(isinstance(x, kinds) for x in ast.walk(node))


def has_ctl(body):
    return any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom)) for s in body for x in ast.walk(s))


def pure(e):
    for x in ast.walk(e):
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return False
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and (f.id in PURE_CALLS):
                continue
            return False
    return True


HELPERS = dict(__sx_in=sx_in, __sx_not=sx_not, __sx_ifexp=sx_ifexp, __sx_append=sx_append, __sx_setitem=sx_setitem, __sx_assign=sx_assign,
               __sx_canmerge=sx_canmerge, __sx_iter=sx_iter, __sx_comp=sx_comp, __sx_test=sx_test, __sx_list=sx_list, __sx_join=sx_join, __sx_format=sx_format,
               __sx_fstr=sx_fstr, __sx_sformat=sx_sformat, __sx_merge=merge, __sx_UNB=UNB, __sx_locals=None)
HELPERS["__sx_locals"] = builtins.locals


# ------------------------------------------------------------------ shadow builtins
def _mkshadow(name, base, check, call, extra=None):
    class M(type):
        def __instancecheck__(cls, x):
            return check(x)

        def __subclasscheck__(cls, k):
            return k is cls or issubclass(k, base)

        def __call__(cls, *a, **k):
            return call(*a, **k)

        def __eq__(cls, o):
            return o is cls or o is base

        def __hash__(cls):
            return hash(base)

        def __repr__(cls):
            return repr(base)
    d = {"_symx_base": base, "__class_getitem__": classmethod(lambda cls, x: cls)}
    d.update(extra or {})
    return M(name, (), d)


def make_builtins(world):
    from . import ints, bits, num
    SymInt, Num = ints.SymInt, num.Num
    SymStr, SymBytes, SymBits, GSeq = bits.SymStr, bits.SymBytes, bits.SymBits, bits.GSeq

    def c_int(x=0, base=None):
        if base is not None:
            if isinstance(x, SymStr):
                return bits.parse_int(x, int(base))
            return int(x, base)
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._int()
        if isinstance(x, SymStr):
            return int(str(x))
        if isinstance(x, Num):
            return num.trunc(x)
        return int(x)

    def c_float(x=0.0):
        if isinstance(x, Num):
            if x.im:
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return x
        if isinstance(x, SymInt):
            return x
        if isinstance(x, str) and world.float_tokens is not None and x in world.float_tokens:
            return world.float_tokens[x]
        return float(x)

    def c_complex(x=0, y=None):
        if isinstance(x, Num) or isinstance(y, Num):
            return Num.lift(x) + (Num.lift(y) * 1j if y is not None else 0)
        return complex(x) if y is None else complex(x, y)

    def c_tuple(x=()):
        if isinstance(x, GSeq):
            return GSeq.make(x.it, "tuple")
        if isinstance(x, GList) and x.g is not None:
            return GSeq.make(x.g, "tuple")
        return tuple(x)

    def c_list(x=()):
        if isinstance(x, GSeq):
            r = GList()
            r.g = list(x.it)
            return r
        if isinstance(x, GList):
            return x.copy()
        if world.transform:
            return GList(x)
        return list(x)

    def c_str(x="", *a):
        if isinstance(x, SymStr):
            return x
        return str(x, *a) if a else str(x)

    def c_bytes(x=b"", *a):
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, SymBits):
            return x.tobytes()
        if isinstance(x, (list, tuple)) and any(isinstance(v, SymInt) for v in x):
            out = []
            for v in x:
                v = SymInt.lift(v)
                if not (bool(v >= 0) and bool(v < 256)):
                    raise ValueError("bytes must be in range(0, 256)")
                out += [v.bit(k) if k < v.e.size() - 1 else False for k in range(7, -1, -1)]
            return SymBytes.make(out)
        return bytes(x, *a)

    def int_from_bytes(b, byteorder="big", signed=False):
        if isinstance(b, (SymBytes,)):
            if signed:
                raise Unsupported("signed")
            bs = list(b.b)
            if byteorder == "little":
                bs = [x for k in range(len(bs) - 8, -1, -8) for x in bs[k:k + 8]]
            return bits.bits_to_int(bs)
        return int.from_bytes(b, byteorder, signed=signed)

    s_int = _mkshadow("int", int, lambda x: isinstance(x, (int, SymInt, SymBool)), c_int,
                      {"from_bytes": staticmethod(int_from_bytes), "bit_count": staticmethod(lambda x: x.bit_count()), "bit_length": staticmethod(lambda x: x.bit_length()),
                       "to_bytes": staticmethod(lambda x, *a, **k: x.to_bytes(*a, **k))})
    import numpy as _np
    s_float = _mkshadow("float", float, lambda x: isinstance(x, float) or (isinstance(x, Num) and not x.im), c_float,
                        {"dtype": _np.dtype(float), "fromhex": float.fromhex})
    s_complex = _mkshadow("complex", complex, lambda x: isinstance(x, complex) or (isinstance(x, Num) and bool(x.im)), c_complex, {"dtype": _np.dtype(complex)})
    s_tuple = _mkshadow("tuple", tuple, lambda x: isinstance(x, tuple) or (isinstance(x, GSeq) and x.kind == "tuple"), c_tuple)
    s_list = _mkshadow("list", list, lambda x: isinstance(x, list), c_list)
    s_str = _mkshadow("str", str, lambda x: isinstance(x, (str, SymStr)), c_str,
                      {"join": staticmethod(lambda s, it: bits.str_join(s, it)), "format": staticmethod(str.format), "maketrans": staticmethod(str.maketrans)})
    s_bytes = _mkshadow("bytes", bytes, lambda x: isinstance(x, (bytes, SymBytes)), c_bytes, {"fromhex": bytes.fromhex})
    shadow_of = {int: s_int, float: s_float, complex: s_complex, tuple: s_tuple, list: s_list, GList: s_list, str: s_str, bytes: s_bytes,
                 SymInt: s_int, SymStr: s_str, SymBytes: s_bytes, GSeq: s_tuple}

    def c_type(x, *a):
        if a:
            return type(x, *a)
        t = type(x)
        if t is Num:
            return s_complex if x.im else s_float
        return shadow_of.get(t, t)

    def c_len(x):
        if isinstance(x, GSeq) or isinstance(x, bits.GSetView):
            return x.length()
        if isinstance(x, GList) and x.g is not None:
            return x.seq().length()
        return len(x)

    def c_sum(it, start=0):
        if isinstance(it, GList) and it.g is not None:
            it = it.seq()
        if isinstance(it, GSeq):
            s = start
            for g, v in it.it:
                if g is True:
                    s = s + v
                elif isinstance(v, (int, SymInt)):
                    s = s + (g._int() * v)
                elif bool(g):
                    s = s + v
            return s
        xs = list(it)
        if any(isinstance(v, SymBool) for v in xs) and all(isinstance(v, (SymBool, bool)) or (type(v) is int and v in (0, 1)) for v in xs):
            return ints.count_true([v if isinstance(v, SymBool) else bool(v) for v in xs]) + start
        return sum(xs, start)

    def c_any(it):
        if isinstance(it, GSeq):
            return OR(*[AND(g, v if isinstance(v, SymBool) else bool(v)) for g, v in it.it])
        for v in it:
            if isinstance(v, SymBool):
                rest = [v] + [w if isinstance(w, (SymBool, bool)) else bool(w) for w in it]
                return OR(*rest)
            if v:
                return True
        return False

    def c_all(it):
        if isinstance(it, GSeq):
            return AND(*[core.IMPLIES(g, v if isinstance(v, SymBool) else bool(v)) for g, v in it.it])
        for v in it:
            if isinstance(v, SymBool):
                rest = [v] + [w if isinstance(w, (SymBool, bool)) else bool(w) for w in it]
                return AND(*rest)
            if not v:
                return False
        return True

    def c_bin(x):
        if isinstance(x, SymBool):
            x = x._int()
        if isinstance(x, SymInt):
            if x.lo < 0 and bool(x < 0):
                return bits.str_join("", ["-0b", bits.bin_int(-x)])
            return bits.str_join("", ["0b", bits.bin_int(x)])
        return bin(x)

    def c_sorted(it, key=None, reverse=False):
        if isinstance(it, GList) and it.g is not None:
            it = it.seq()
        if isinstance(it, GSeq) and key is None and not reverse and it.sorted_concrete():
            r = GList()
            r.g = list(it.it)
            return r
        return sorted(it, key=key, reverse=reverse)

    def c_set(*a):
        return world.make_set(*a)

    def c_frozenset(*a):
        return world.make_frozenset(*a)

    s_set = _mkshadow("set", set, lambda x: isinstance(x, set), c_set, {k: staticmethod(getattr(set, k)) for k in ("union", "intersection", "difference")})
    s_fset = _mkshadow("frozenset", frozenset, lambda x: isinstance(x, frozenset), c_frozenset, {k: staticmethod(getattr(frozenset, k)) for k in ("union", "intersection", "difference")})
    shadow_of[set] = s_set
    shadow_of[frozenset] = s_fset

    def c_round(x, n=None):
        return round(x, n) if n is not None else round(x)

    b = dict(builtins.__dict__)
    b.update(int=s_int, float=s_float, complex=s_complex, tuple=s_tuple, list=s_list, str=s_str, bytes=s_bytes, type=c_type, len=c_len, sum=c_sum,
             any=c_any, all=c_all, bin=c_bin, sorted=c_sorted, set=s_set, frozenset=s_fset, format=sx_format, print=world.print, open=world.open)
    return b


class _Locals:
    pass


# ------------------------------------------------------------------ fake modules
def make_bitarray_module():
    from . import bits
    m = types.ModuleType("bitarray")

    class BM(type):
        def __instancecheck__(cls, x):
            return isinstance(x, bits.SymBits)

        def __call__(cls, *a, **k):
            return bits.SymBits(*a, **k)
    m.bitarray = BM("bitarray", (), {})
    m.frozenbitarray = m.bitarray
    m.bits2bytes = lambda n: (n + 7) // 8
    u = types.ModuleType("bitarray.util")
    u.ba2int, u.int2ba = bits.ba2int, bits.int2ba
    u.zeros = lambda n, endian=None: bits.SymBits._mk([False] * int(n), endian or "big")
    u.ones = lambda n, endian=None: bits.SymBits._mk([True] * int(n), endian or "big")
    u.count_n = None
    u.count_and = lambda a, b: (a & b).count()
    u.count_or = lambda a, b: (a | b).count()
    u.count_xor = lambda a, b: (a ^ b).count()
    u.parity = lambda a: a.count() % 2
    u.subset = lambda a, b: bits.AND(*[core.IMPLIES(x, y) for x, y in zip(a.b, b.b)])
    m.util = u
    return m


def make_bisect():
    from . import bits
    from .npshim import Shim

    def mk(real, right):
        def f(a, x, lo=0, hi=None, **k):
            if isinstance(a, GList) and a.g is not None:
                a = a.seq()
            if isinstance(a, bits.GSeq):
                if lo == 0 and hi is None and not k:
                    return a.prefix(x, right)
                a = tuple(a)
            return real(a, x, lo, hi, **k) if hi is not None else real(a, x, lo, **k)
        return f
    return Shim("bisect", _bisect, {"bisect_left": mk(_bisect.bisect_left, False), "bisect_right": mk(_bisect.bisect_right, True),
                                    "bisect": mk(_bisect.bisect_right, True)})


_GAUNT = {}


def gaunt_mod():
    import sympy.physics.wigner as w
    from .npshim import Shim

    def gaunt(*a, **k):
        a = tuple(int(x) if type(x).__name__ == "SymInt" else x for x in a)
        key = (a, tuple(sorted(k.items())))
        if key not in _GAUNT:
            _GAUNT[key] = w.gaunt(*a, **k)
        return _GAUNT[key]
    return Shim("sympy.physics.wigner", w, {"gaunt": gaunt})


_CODE = {}


def compile_source(path, transform):
    src = open(path).read()
    key = (path, hash(src), transform)
    if key not in _CODE:
        if transform:
            tree = ast.parse(src, path)
            tree = ForGuard().visit(tree)
            ast.fix_missing_locations(tree)
            tree = Transform().visit(tree)
            ast.fix_missing_locations(tree)
            _CODE[key] = compile(tree, path, "exec", dont_inherit=True)
        else:
            _CODE[key] = compile(src, path, "exec", dont_inherit=True)
    return _CODE[key]


class _Realising:
    """an external library whose functions get plain integers (it may keep its arguments in caches)"""

    def __init__(self, mod):
        self.__dict__["_mod"] = mod

    def __getattr__(self, n):
        v = getattr(self._mod, n)
        if isinstance(v, types.ModuleType):
            return _Realising(v)
        if isinstance(v, type) or not callable(v):
            return v

        def call(*a, **k):
            f = lambda x: int(x) if type(x).__name__ == "SymInt" else x
            return v(*[f(x) for x in a], **{q: f(x) for q, x in k.items()})
        return call


class World:
    """One process (MPI rank) of the system under test."""

    def __init__(self, symbolic=True, transform=False, comm=None, bicgstab=None, eigsh=None, eigh=None, numpy_extra=None, print_fn=None, open_fn=None,
                 float_tokens=None, sets=None, special=None, math_extra=None, extra_modules=None):
        from . import npshim, comm as commmod
        self.symbolic, self.transform = symbolic, transform and symbolic
        self.comm = comm or commmod.SerialComm()
        self.printed = []
        self.print = print_fn or (lambda *a, **k: None)
        self.open = open_fn or builtins.open
        self.float_tokens = float_tokens
        self.modules = {}
        self.make_set = sets[0] if sets else set
        self.make_frozenset = sets[1] if sets else frozenset
        mpi = types.ModuleType("mpi4py")
        mpi.MPI = commmod.make_MPI(self.comm)
        self.ext = {"mpi4py": mpi, "mpi4py.MPI": mpi.MPI}
        if symbolic:
            np_ = npshim.make_numpy(numpy_extra)
            if eigh is not None:
                np_.linalg.__dict__["eigh"] = eigh
            top, spm, lin, spc = npshim.make_scipy(bicgstab, eigsh)
            spc.__dict__.update(special or {})
            m = npshim.make_math()
            m.__dict__.update(math_extra or {})
            import scipy.constants
            top.__dict__["constants"] = scipy.constants
            ba = make_bitarray_module()
            gm = gaunt_mod
            self.ext.update({"numpy": np_, "numpy.linalg": np_.linalg, "scipy": top, "scipy.sparse": spm, "scipy.sparse.linalg": lin, "scipy.special": spc,
                             "math": m, "bitarray": ba, "bitarray.util": ba.util, "bisect": make_bisect()})
            self.lazy = {"sympy.physics.wigner": gaunt_mod}
        else:
            self.lazy = {}
        self.ext.update(extra_modules or {})
        if symbolic:
            self.builtins = make_builtins(self)
        else:
            self.builtins = dict(builtins.__dict__)
            self.builtins["print"] = self.print
            self.builtins["open"] = self.open
        self.builtins["__import__"] = self._import

    # -- import
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top == "impurityModel":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        sub = name + "." + f
                        if self.find(sub):
                            setattr(m, f, self.load(sub))
                return m
            return self.load("impurityModel")
        if name in self.lazy:
            self.ext[name] = self.lazy[name]()
        if name in self.ext:
            return self.ext[name] if fromlist else self.ext[top] if top in self.ext else builtins.__import__(name)
        if top in self.ext and top not in ("mpi4py",):
            builtins.__import__(name)
            if fromlist:
                real = sys.modules[name]
                return real
            return self.ext[top]
        m = builtins.__import__(name, None, None, fromlist, 0)
        if top == "sympy" and self.symbolic:
            return _Realising(m)
        return m

    def find(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None

    def load(self, name, as_main=False, argv=None):
        if name in self.modules and not as_main:
            return self.modules[name]
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        else:
            parent = None
        f = self.find(name)
        if f is None:
            raise ImportError("No module named %r" % name)
        path, pkg = f
        m = types.ModuleType("__main__" if as_main else name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rsplit(".", 1)[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        if self.transform:
            m.__dict__.update(HELPERS)
        if not as_main:
            self.modules[name] = m
        exec(compile_source(path, self.transform), m.__dict__)
        if parent is not None:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def ed(self, name):
        return self.load("impurityModel.ed." + name)
