"""Path exploration by re-execution, decisions, solver access, symbolic booleans."""
import sys, time, os, random
from fractions import Fraction

_Z3P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _load_z3():
    """Import z3 (and only z3) from the tool environment."""
    try:
        import z3  # noqa
        return z3
    except ImportError:
        pass
    sys.path.append(_Z3P)
    try:
        import z3  # noqa
    finally:
        sys.path.remove(_Z3P)
    return z3


z3 = _load_z3()


# --- control flow (never derived from Exception: code under test must not catch it) ---
class Control(BaseException):
    pass


class PathInfeasible(Control):
    pass


class PathAbort(Control):
    """Stop this path (its claims so far are still checked)."""


class Unsupported(Control):
    """The engine cannot represent an operation symbolically."""


class BudgetExceeded(Control):
    pass


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.feas_queries = 0
        self.solver_time = 0.0
        self.claims = 0
        self.unknown = 0
        self.concretised = 0
        self.concretised_where = {}
        self.infeasible = 0
        self.coinc_cut = 0
        self.reached = {}
        self.functions = set()
        self.aborted = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d["functions"] = sorted(self.functions)
        d["reached"] = dict(self.reached)
        return d


class Violation:
    def __init__(self, label, inputs, detail):
        self.label, self.inputs, self.detail = label, inputs, detail


NOVARS = frozenset()


class Models:
    """models of the Boolean and of the real part of a path (no shared variables)"""
    def __init__(self, ms):
        self.ms = ms

    def real(self, e):
        return self.ms[1].eval(e, model_completion=True)

    def eval(self, e, model_completion=True):
        return self.ms[0].eval(e, model_completion=True)


class Ctx:
    def __init__(self, max_coinc=1, max_paths=20000, deadline=None, timeout_ms=20000, seed=1):
        self.free_coinc = False
        self.stats = Stats()
        self.max_coinc = max_coinc
        self.max_paths = max_paths
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.worklist = [[]]
        self.violations = []
        self.seed = seed
        self.assumption_notes = set()
        self.max_violations = 8
        self.feas_ms = 3000

    # ---- per path ----
    def begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.decided = {}
        self.keep = []
        self.coinc = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.assumed = []
        self.mixed = False
        self.rparts = []
        self._info = {}
        self._keep_info = []
        self._last_model = None
        self.quick_ms = None
        self.symkeys = False
        self.inputs = {}      # name -> descriptor
        self.pending = []     # (z3 negated claim or True, label, detail)
        self.asserted_atoms = set()
        self.violated = False
        self.model_cache = None
        self.fixed = {}
        self.exp_args = []
        self.formatted = []
        self.files = {}

    # ---- solving ----
    # Conjuncts are split by sort: 'b' (Booleans and bit-vectors only), 'r' (reals only), 'm' (both).  As long as the path has
    # no mixed conjunct the two worlds share no variable and are decided separately; real queries are further sliced to the
    # conjuncts that (transitively) share a variable with the query.
    def info(self, e):
        """(kind, frozenset of real variable ids)"""
        k = e.get_id()
        r = self._info.get(k)
        if r is None:
            self._keep_info.append(e)
            t = e.decl().kind() if z3.is_app(e) else None
            ch = e.children()
            if not ch:
                if t == z3.Z3_OP_UNINTERPRETED:
                    r = ("r", frozenset([k])) if z3.is_real(e) else ("b", NOVARS)
                else:
                    r = ("c", NOVARS)
            else:
                kinds, vs = set(), set()
                for c in ch:
                    ck, cv = self.info(c)
                    kinds.add(ck)
                    vs |= cv
                kinds.discard("c")
                r = ("c" if not kinds else kinds.pop() if len(kinds) == 1 else "m", frozenset(vs) if vs else NOVARS)
            self._info[k] = r
        return r

    def add(self, e):
        self.assumed.append(e)
        k, vs = self.info(e)
        if k == "m":
            if not self.mixed:
                self.mixed = True
                self.model_cache = None
                for x, _ in self.rparts:
                    self.solver.add(x)
            self.solver.add(e)
        elif k == "r":
            self.rparts.append((e, vs))
            if self.mixed:
                self.solver.add(e)
        else:
            self.solver.add(e)

    def query(self, e=None, feas=True, full=False):
        """satisfiability of path && e -> (result, model or None); the model covers everything when full"""
        t = time.time()
        if self.deadline and t > self.deadline:
            raise BudgetExceeded("time")
        try:
            r, m = self._query(e, full)
        finally:
            self.stats.solver_time += time.time() - t
        if feas:
            self.stats.feas_queries += 1
        else:
            self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def _query(self, e, full):
        k, vs = self.info(e) if e is not None else ("c", NOVARS)
        if self.mixed or k == "m":
            if not self.mixed:
                return self._fresh([x for x in self.assumed] + [e], False)
            return self._inc(e)
        if k == "r":
            r, m = self._rsolve(e, vs)
            if r == z3.unsat or not full:
                return r, m
            rb, mb = self._inc(None)
            return (rb, None) if rb != z3.sat else (r, Models([mb, self._rest(m, vs)]))
        r, m = self._inc(e)
        if r == z3.unsat or not full:
            return r, m
        if self.rparts:
            rr, mr = self._fresh([x for x, _ in self.rparts], True)
            if rr != z3.sat:
                return rr, None
            m = Models([m, mr])
        return r, m

    def _rest(self, m, vs):
        return m

    def _inc(self, e):
        s = self.solver
        try:
            if e is not None:
                s.push()
                s.add(e)
            try:
                r = s.check()
                m = s.model() if r == z3.sat else None
            finally:
                if e is not None:
                    s.pop()
            return r, m
        except z3.Z3Exception:
            self._rebuild()
            return self._fresh((self.assumed if self.mixed else [x for x in self.assumed if self.info(x)[0] != "r"]) + ([e] if e is not None else []), False)

    def _rebuild(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        for x in self.assumed:
            if self.mixed or self.info(x)[0] != "r":
                self.solver.add(x)

    def _fresh(self, es, real):
        for logic in (("QF_NRA", None) if real else (None, "old")):
            try:
                s = z3.SolverFor(logic) if logic == "QF_NRA" else z3.Solver()
                if logic == "old":
                    s.set("smt.arith.solver", 2)
                s.set("timeout", self.timeout_ms if self.quick_ms is None else self.quick_ms)
                s.add(*es)
                r = s.check()
                if r != z3.unknown:
                    return r, (s.model() if r == z3.sat else None)
            except z3.Z3Exception:
                pass
        return z3.unknown, None

    def _rsolve(self, e, vs):
        part, rest = [], self.rparts
        reach = set(vs)
        while True:
            nxt = []
            for x, v in rest:
                if reach & v:
                    part.append(x)
                    reach |= v
                else:
                    nxt.append((x, v))
            if len(nxt) == len(rest):
                break
            rest = nxt
        return self._fresh(part + [e], True)

    def sat_model(self, extra=()):
        """a model of the whole path (and the extra conjuncts), or None"""
        es = [x for x in extra]
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded("time")
        t = time.time()
        try:
            if self.mixed or any(self.info(x)[0] == "m" for x in es):
                r, m = self._fresh(self.assumed + es, False)
                return m if r == z3.sat else None
            rs = [x for x, _ in self.rparts] + [x for x in es if self.info(x)[0] == "r"]
            bs = [x for x in es if self.info(x)[0] != "r"]
            r, mb = self._inc(z3.And(bs) if bs else None)
            if r != z3.sat:
                return None
            if not rs:
                return mb
            r, mr = self._fresh(rs, True)
            return Models([mb, mr]) if r == z3.sat else None
        finally:
            self.stats.solver_time += time.time() - t
            self.stats.feas_queries += 1

    def assume(self, cond, check=True):
        if isinstance(cond, SymBool):
            e = z3.simplify(cond.e)
            if z3.is_true(e):
                return
            if z3.is_false(e):
                raise PathInfeasible()
            self.add(e)
            self.model_cache = None
            if check and self.pos >= len(self.prefix):
                if self.query(e)[0] == z3.unsat:
                    raise PathInfeasible()
        elif not cond:
            raise PathInfeasible()

    def _record(self, choice):
        self.taken.append(choice)

    def _sat_with(self, e):
        """feasibility of path && e, using the cached model of the path first"""
        m = self.model_cache if self._cacheable(e) else None
        if m is not None:
            try:
                v = m.eval(e, model_completion=True)
                if z3.is_true(v):
                    return True
            except z3.Z3Exception:
                pass
        old, self.quick_ms = self.quick_ms, self.feas_ms
        try:
            r, self._last_model = self.query(e)
        finally:
            self.quick_ms = old
        return r != z3.unsat

    def _cacheable(self, e):
        """does the cached model (of the whole path if mixed, else of its Boolean part) speak about e?"""
        return self.mixed or self.info(e)[0] in ("b", "c")

    def decide(self, e, coinc=False):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        neg = False
        if z3.is_not(e):
            e = e.arg(0)
            neg = True
        k = e.get_id()
        if k in self.decided:
            return self.decided[k] != neg
        if coinc and self.free_coinc and self.coinc >= self.max_coinc:
            # the "different" branch is taken without constraining the inputs (an over-approximation of that branch)
            self.stats.coinc_cut += 1
            self.decided[k] = False
            self.keep.append(e)
            return neg
        if self.pos < len(self.prefix):
            choice = self.prefix[self.pos]
            self.pos += 1
            self._record(choice)
        else:
            if self.deadline and time.time() > self.deadline:
                raise BudgetExceeded("time")
            can_t = can_f = None
            m = self.model_cache if self._cacheable(e) else None
            if m is not None:
                try:
                    v = m.eval(e, model_completion=True)
                    if z3.is_true(v):
                        can_t = True
                    elif z3.is_false(v):
                        can_f = True
                except z3.Z3Exception:
                    pass
            mt = mf = m
            if can_t is None:
                can_t = self._sat_with(e)
                mt = self._last_model
            if can_f is None:
                can_f = self._sat_with(z3.Not(e))
                mf = self._last_model
            if not can_t and not can_f:
                raise PathInfeasible()
            if can_t and can_f:
                # for coincidences (accidental equality) e, stripped of a negation, is the equality itself
                if coinc and self.coinc >= self.max_coinc:
                    choice = False
                    self.stats.coinc_cut += 1
                else:
                    choice = not coinc
                    self.worklist.append(self.taken + [not choice])
            else:
                choice = can_t
            if self._cacheable(e):
                self.model_cache = mt if choice else mf
            self._record(choice)
            self.pos += 1
            self.prefix = self.taken[:]
        if coinc and choice:
            self.coinc += 1
        self.decided[k] = choice
        self.keep.append(e)
        self.add(e if choice else z3.Not(e))
        if self.model_cache is not None and self._cacheable(e):
            try:
                v = self.model_cache.eval(e, model_completion=True)
                if not (z3.is_true(v) if choice else z3.is_false(v)):
                    self.model_cache = None
            except z3.Z3Exception:
                self.model_cache = None
        return choice != neg

    def decided_true(self, e):
        """does e hold on every model of this path?"""
        return not self._sat_with(z3.Not(e))

    def decide_value(self, e, limit=4096):
        """n-way fork over all feasible values of a bit-vector expression (signed)."""
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        k = ("v", e.get_id())
        if k in self.decided:
            return self.decided[k]
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self._record(val)
        else:
            vals = []
            excl = []
            while True:
                r, m = self.query(z3.And(e == e, *excl) if excl else None)
                if r == z3.unsat:
                    break
                if r == z3.unknown:
                    raise Unsupported("unknown while enumerating values")
                v = m.eval(e, model_completion=True)
                vals.append(v.as_signed_long())
                if len(vals) > limit:
                    raise Unsupported("too many values to realise")
                excl.append(e != v)
            if not vals:
                raise PathInfeasible()
            vals.sort()
            for v in vals[1:]:
                self.worklist.append(self.taken + [v])
            val = vals[0]
            self._record(val)
            self.pos += 1
            self.prefix = self.taken[:]
        self.decided[k] = val
        self.keep.append(e)
        self.model_cache = None
        self.add(e == z3.BitVecVal(val, e.size()))
        self.model_cache = None
        return val

    def record_choice(self, options):
        """n-way fork on an environment choice that is not a solver term (e.g. iteration order)."""
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self._record(c)
            return c
        for o in options[1:]:
            self.worklist.append(self.taken + [o])
        self._record(options[0])
        self.pos += 1
        self.prefix = self.taken[:]
        return options[0]

    def note_concretised(self, where):
        self.stats.concretised += 1
        self.stats.concretised_where[where] = self.stats.concretised_where.get(where, 0) + 1

    # ---- claims ----
    def claim(self, cond, label, detail=None, lhs=None):
        self.stats.claims += 1
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1
        if isinstance(cond, SymBool):
            self.pending.append((cond.e, label, detail))
        else:
            self.pending.append((z3.BoolVal(bool(cond)), label, detail))

    def flush(self):
        """Discharge all pending claims of this path."""
        if not self.pending:
            return
        pend, self.pending = self.pending, []
        live = []
        for c, label, detail in pend:
            x = z3.simplify(z3.Not(c))
            if not z3.is_false(x):
                live.append((x, (c, label, detail)))
        if not live:
            self.stats.queries += 1
            return
        groups = {}
        for x, p in live:
            groups.setdefault(self.info(x)[0], []).append((x, p))
        for kind, items in groups.items():
            if len(items) > 1:
                r, _ = self.query(z3.Or([x for x, _ in items]), feas=False)
                if r == z3.unsat:
                    continue
            for x, (c, label, detail) in items:
                if len(self.violations) >= self.max_violations:
                    return
                r, m = self.query(x, feas=False)
                if r == z3.unsat:
                    continue
                inputs = self.simple_inputs(x)
                if inputs is None:
                    m = self.sat_model([x])
                    inputs = self.model_inputs(m) if m is not None else None
                if inputs is not None:
                    self.violations.append(Violation(label, inputs, detail() if callable(detail) else detail))
                    self.violated = True
                    return
                self.inconclusive(label)

    def inconclusive(self, label):
        self.stats.reached["inconclusive:" + label] = self.stats.reached.get("inconclusive:" + label, 0) + 1

    def real_inputs(self):
        return [(n, d) for n, d in self.inputs.items() if d[0] == "real"]

    def simple_inputs(self, x=None, tries=30):
        return self.guess(x, tries) if self.real_inputs() else None

    def any_inputs(self, tries=6):
        """inputs of some concrete execution along this path, or None"""
        g = self.simple_inputs(None, tries)
        if g is None:
            m = self.sat_model()
            g = self.model_inputs(m) if m is not None else None
        return g

    def guess(self, x, tries=30):
        """Look for a model with simple real values (solver still checks path and negated claim)."""
        rng = random.Random(self.seed * 7919 + len(self.taken))
        reals = self.real_inputs()
        pools = [[Fraction(v) for v in (1, 2, -1, 3, -2, 0.5)],
                 [Fraction(v) for v in (1, -1, 2, -2, 3, 0.5, -0.5, 1.5, -1.5, 0.25, 0.75, 1.25)],
                 [Fraction(v, 8) for v in range(-24, 25)]]
        old, self.quick_ms = self.quick_ms, 2000
        t0 = time.time()
        try:
            for t in range(tries):
                if time.time() - t0 > 10:
                    break
                pool = pools[min(t * 3 // tries, 2)]
                assum = [] if x is None else [x]
                sub = []
                for n, d in reals:
                    lo, hi = d[2], d[3]
                    cand = [v for v in pool if (lo is None or v >= lo) and (hi is None or v <= hi)]
                    if not cand:
                        lo_, hi_ = (lo if lo is not None else -4), (hi if hi is not None else 4)
                        cand = [Fraction(lo_) + (Fraction(hi_) - Fraction(lo_)) * Fraction(k, 8) for k in range(1, 8)]
                    sub.append((d[1], z3.RealVal(str(rng.choice(cand)))))
                m = self.sat_model(assum + [a == v for a, v in sub])
                if m is not None:
                    return self.model_inputs(m)
        finally:
            self.quick_ms = old
        return None

    def model_inputs(self, m):
        out = {}
        for n, d in self.inputs.items():
            if d[0] == "real":
                v = (m.real(d[1]) if isinstance(m, Models) else m.eval(d[1], model_completion=True))
                out[n] = ["real", str(to_fraction(v))] + ([d[2], d[3]] if len(d) > 3 and d[2] is not None and d[3] is not None else [])
            elif d[0] == "int":
                v = m.eval(d[1], model_completion=True)
                out[n] = ["int", v.as_signed_long()]
            elif d[0] == "bits":
                out[n] = ["bits", "".join("1" if z3.is_true(m.eval(b, model_completion=True)) else "0" for b in d[1])]
            elif d[0] == "bool":
                out[n] = ["bool", z3.is_true(m.eval(d[1], model_completion=True))]
            elif d[0] == "const":
                out[n] = ["const", d[1]]
        return out


def to_fraction(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(0)


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


class SymBool:
    __slots__ = ("e", "coinc")

    def __init__(self, e, coinc=False):
        self.e = e
        self.coinc = coinc

    def __bool__(self):
        return CTX.decide(self.e, self.coinc)

    def _o(o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool,)):
            return z3.BoolVal(o)
        return None

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.e, o.e))
        if isinstance(o, bool):
            return self if o else False
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Or(self.e, o.e))
        if isinstance(o, bool):
            return True if o else self
        return self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.e, o.e))
        if isinstance(o, bool):
            return mkbool(z3.Not(self.e)) if o else self
        return self._int() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~self._int()

    def negate(self):
        return SymBool(z3.Not(self.e), self.coinc)

    def _int(self):
        from . import ints
        return ints.SymInt(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else self.negate()
        return self._int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r.negate() if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "mod", "rmod", "floordiv", "rfloordiv", "lt", "le", "gt", "ge",
            "lshift", "rlshift", "rshift", "rrshift", "neg", "pos", "abs", "pow", "rpow", "truediv", "rtruediv"):
    def _mk(op):
        def f(self, *a):
            from . import ints
            r = getattr(ints.SymInt, "__%s__" % op)(self._int(), *a)
            return r
        return f
    setattr(SymBool, "__%s__" % _op, _mk(_op))


def mkbool(e, coinc=False):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e, coinc)


def B(x):
    """z3 Bool of a python/symbolic boolean"""
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def AND(*xs):
    return mkbool(z3.And([B(x) for x in xs]))


def OR(*xs):
    return mkbool(z3.Or([B(x) for x in xs]))


def NOT(x):
    return mkbool(z3.Not(B(x)))


def IMPLIES(a, b):
    return mkbool(z3.Implies(B(a), B(b)))


def IFF(a, b):
    return mkbool(B(a) == B(b))
