"""Dynamic symbolic execution on z3.

A harness is a Python function ``h(ctx)``.  It asks ``ctx`` for symbolic integers and booleans,
runs the real code of /repo on them and states assertions with ``ctx.check``.  The engine runs the
harness again and again; every time a symbolic condition decides a Python branch, the solver is
asked which outcomes are possible under the path condition, and each possible outcome is explored
(depth first, one z3 frame per decision).  An assertion is discharged by an *unsat* answer for
``path condition and not assertion``; a *sat* answer is a counterexample.  *unknown* is never
counted as success: it ends the instance as inconclusive.
"""

import builtins
import math
import sys
import time
from fractions import Fraction

import z3

_pc = time.perf_counter  # harnesses may replace time.perf_counter

__all__ = [
    "SymInt", "SymBool", "SymReal", "Explorer", "ConcreteCtx", "Violation", "PathInfeasible",
    "Inconclusive", "HarnessError", "cur",
]

_current = None


def cur():
    return _current


def set_current(ctx):
    global _current
    _current = ctx


class _Steer(BaseException):
    """Base of the exceptions that steer exploration (never caught by `except Exception`)."""


class PathInfeasible(_Steer):
    pass


class Violation(_Steer):
    def __init__(self, label, model, detail="", expr=None):
        self.label = label
        self.model = model
        self.detail = detail
        self.expr = expr


class Inconclusive(_Steer):
    pass


class HarnessError(_Steer):
    pass


# ---------------------------------------------------------------------------------------------
# proxies


def _is_num(x):
    return isinstance(x, (int, SymInt, SymReal, float, Fraction)) or type(x) is SymBool


def _iex(x):
    """z3 Int expression of an int-like."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(builtins.int(x))


def _rex(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, (SymInt, SymBool)):
        return z3.ToReal(_iex(x))
    if isinstance(x, float):
        f = Fraction(x)
        return z3.RealVal(f.numerator) / z3.RealVal(f.denominator)
    if isinstance(x, Fraction):
        return z3.RealVal(x.numerator) / z3.RealVal(x.denominator)
    return z3.RealVal(builtins.int(x))


def _mk_int_s(e):
    return mk_int(z3.simplify(e))


def mk_int(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mk_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    _simplified(e)
    return SymBool(e)


#: results of pure operations on (hash-consed) expressions; holds the expressions so ids stay valid
_memo = {}


def _remember(key, value):
    if len(_memo) > 100000:
        _memo.clear()
    _memo[key] = value
    return value[-1]


def _simplified(e):
    _remember(("s", e.get_id()), (e, e))


def simp(e):
    k = ("s", e.get_id())
    r = _memo.get(k)
    return r[-1] if r is not None else _remember(k, (e, z3.simplify(e)))


def _binop(f, a, o, mk):
    """mk(f(a, o)) for an expression a and an int, SymInt or SymBool o"""
    t = type(o)
    if t is int:
        k = (f.__code__, a.get_id(), None, o)
    elif t is SymInt:
        k = (f.__code__, a.get_id(), o.e.get_id())
    else:
        return mk(f(a, _iex(o)))
    r = _memo.get(k)
    if r is not None:
        return r[-1]
    return _remember(k, (a, o, mk(f(a, _iex(o)))))


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return _current.branch(self.e)

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    def __and__(self, o):
        return mk_bool(z3.And(self.e, bex(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(z3.Or(self.e, bex(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mk_bool(z3.Xor(self.e, bex(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(self.e == bex(o))
        if isinstance(o, (int, SymInt)):
            return mk_bool(_iex(self) == _iex(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else vnot(r)

    def __add__(self, o):
        return mk_int(z3.simplify(_iex(self) + _iex(o)))

    __radd__ = __add__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f"<SymBool {self.e}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (bool, (bool(self),))


def bex(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymInt):
        return x.e != 0
    return z3.BoolVal(bool(x))


def vnot(x):
    return mk_bool(z3.Not(bex(x)))


def vand(*xs):
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    return mk_bool(z3.And(*[bex(x) for x in xs]))


def vor(*xs):
    return mk_bool(z3.Or(*[bex(x) for x in xs])) if xs else False


def vimpl(a, b):
    return mk_bool(z3.Implies(bex(a), bex(b)))


def vite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return mk_int(z3.simplify(z3.If(bex(c), _iex(a), _iex(b))))


def vmin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return vite(a <= b, a, b)


def vmax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return vite(a >= b, a, b)


def _int_pair(o):
    return isinstance(o, (int, SymInt, SymBool))


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    # -- arithmetic
    def _lin(self, o, f, rf):
        if _int_pair(o):
            return _binop(f, self.e, o, _mk_int_s)
        if isinstance(o, (float, SymReal, Fraction)):
            return rf(SymReal(z3.ToReal(self.e), 0), o)
        return NotImplemented

    def __add__(self, o):
        return self._lin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._lin(o, lambda a, b: b + a, lambda a, b: b + a)

    def __sub__(self, o):
        return self._lin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._lin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        return self._lin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        return self._lin(o, lambda a, b: b * a, lambda a, b: b * a)

    def __neg__(self):
        return mk_int(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.simplify(z3.If(self.e >= 0, self.e, -self.e)))

    @staticmethod
    def _divmod(a, b):
        """floor division and modulo (Python semantics) of int-likes"""
        if isinstance(b, int):
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if b < 0:
                a, b = -a, -b
                q = mk_int(z3.simplify(_iex(a) / z3.IntVal(b)))
                r = mk_int(z3.simplify(-(_iex(a) % z3.IntVal(b))))
                return q, r
        else:
            if mk_bool(b.e == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if mk_bool(b.e < 0):
                a2, b2 = -a, -b
                return (
                    mk_int(z3.simplify(_iex(a2) / _iex(b2))),
                    mk_int(z3.simplify(-(_iex(a2) % _iex(b2)))),
                )
        return mk_int(z3.simplify(_iex(a) / _iex(b))), mk_int(z3.simplify(_iex(a) % _iex(b)))

    def __floordiv__(self, o):
        if not _int_pair(o):
            return NotImplemented
        return self._divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return self._divmod(o, self)[0]

    def __mod__(self, o):
        if not _int_pair(o):
            return NotImplemented
        return self._divmod(self, o)[1]

    def __rmod__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return self._divmod(o, self)[1]

    def __divmod__(self, o):
        return self._divmod(self, o)

    def __rdivmod__(self, o):
        return self._divmod(o, self)

    def __truediv__(self, o):
        if _int_pair(o):
            if isinstance(o, int):
                if o == 0:
                    raise ZeroDivisionError("division by zero")
            elif mk_bool(_iex(o) == 0):
                raise ZeroDivisionError("division by zero")
            return SymReal(_rex(self) / _rex(o), 1, quot=(self, o))
        if isinstance(o, (float, SymReal)):
            return SymReal(_rex(self), 0) / o
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, (int, float)):
            if mk_bool(self.e == 0):
                raise ZeroDivisionError("division by zero")
            if isinstance(o, int):
                return SymReal(_rex(o) / _rex(self), 1, quot=(o, self))
            return SymReal(_rex(o) / _rex(self), 1)
        return NotImplemented

    def __pow__(self, o):
        return self.__index__() ** builtins.int(o)

    def __lshift__(self, o):
        return self * (2 ** builtins.int(o))

    def __rshift__(self, o):
        return self // (2 ** builtins.int(o))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self.__index__() & o

    __rand__ = __and__

    # -- comparisons
    def _cmp(self, o, f):
        if _int_pair(o):
            return _binop(f, self.e, o, mk_bool)
        if isinstance(o, (float, SymReal, Fraction)):
            if isinstance(o, float) and math.isinf(o):
                return f(0.0, o)
            return mk_bool(f(z3.ToReal(self.e), _rex(o)))
        return NotImplemented

    def __eq__(self, o):
        if o is self:
            return True
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is self:
            return False
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(mk_bool(self.e != 0))

    # -- concretisation (exhaustive forking over the feasible values)
    def __index__(self):
        return _current.concretize(self.e)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __round__(self, nd=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return f"<SymInt {self.e}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (builtins.int, (self.__index__(),))

    @property
    def real(self):
        return self

    def bit_length(self):
        return self.__index__().bit_length()


class SymReal:
    """A real expression standing for a Python float.

    `ops` counts the rounding operations in it.  With 0 or 1 (a single int/int division or an exact
    product such as x*1.5) comparison/int()/round() of the exact rational agree with the IEEE
    result for operands below 2**24 (see DESIGN.md, lemma F).  With more, the value used at a
    decision is a fresh real within a relative error of ops*2**-52 (over-approximation).
    """

    __slots__ = ("e", "ops", "quot", "_res")

    def __init__(self, e, ops, quot=None):
        self.e = e
        self.ops = ops
        self.quot = quot
        self._res = None

    def _bin(self, o, f, exact_if_const=False):
        if not _is_num(o):
            return NotImplemented
        oo = o.ops if isinstance(o, SymReal) else 0
        return SymReal(z3.simplify(f(self.e, _rex(o))), self.ops + oo + 1)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if self.ops == 0 and isinstance(o, float) and o == builtins.int(o * 4) / 4:
            return SymReal(z3.simplify(self.e * _rex(o)), 0)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _is_num(o):
            return NotImplemented
        if mk_bool(_rex(o) == 0):
            raise ZeroDivisionError("float division by zero")
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        if mk_bool(self.e == 0):
            raise ZeroDivisionError("float division by zero")
        return self._bin(o, lambda a, b: b / a)

    def __neg__(self):
        return SymReal(-self.e, self.ops)

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e), self.ops)

    def _dec(self):
        """the expression to decide on"""
        if self.ops <= 1:
            return self.e
        if self._res is None:
            self._res = _current.rounded(self.e, self.ops)
        return self._res

    def _cmp(self, o, f):
        if not _is_num(o):
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            return f(0.0, o)
        return mk_bool(f(self._dec(), o._dec() if isinstance(o, SymReal) else _rex(o)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(mk_bool(self._dec() != 0))

    def __hash__(self):
        raise HarnessError("hash of symbolic float")

    def __floor__(self):
        if self.quot is not None:
            return SymInt._divmod(*self.quot)[0]
        return mk_int(z3.simplify(z3.ToInt(self._dec())))

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        if mk_bool(self._dec() >= 0):
            return self.__floor__()
        return -((-self).__floor__())

    def __round__(self, nd=None):
        if nd is not None:
            raise HarnessError("round(x, n) of symbolic float")
        d = self._dec()
        fl = z3.ToInt(d)
        fr = d - z3.ToReal(fl)
        half = z3.RealVal("1/2")
        return mk_int(
            z3.simplify(
                z3.If(
                    fr < half, fl, z3.If(fr > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))
                )
            )
        )

    def __int__(self):
        r = self.__trunc__()
        return r if isinstance(r, int) else r.__index__()

    def __float__(self):
        raise HarnessError("float() of symbolic float reached a C boundary")

    def is_integer(self):
        d = self._dec()
        return mk_bool(z3.IsInt(d))

    def __repr__(self):
        return f"<SymReal {self.e}>"


# ---------------------------------------------------------------------------------------------
# exploration


class _Entry:
    __slots__ = ("kind", "expr", "taken", "alt", "pushed", "data")

    def __init__(self, kind, expr, taken, alt, pushed, data=None):
        self.kind = kind
        self.expr = expr
        self.taken = taken
        self.alt = alt
        self.pushed = pushed
        self.data = data


class Explorer:
    """Depth-first path exploration of one harness instance."""

    concrete = False

    def __init__(self, fn, name, *, max_paths=200000, deadline=None, solver_timeout_ms=30000,
                 max_violations=3, max_decisions=20000):
        self.fn = fn
        self.name = name
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_violations = max_violations
        self.max_decisions = max_decisions
        self.solver = z3.Solver()
        self.solver.set("timeout", solver_timeout_ms)
        self.log = []
        self.frozen = 0
        self.pos = 0
        self.model = None
        self.stats = dict(paths=0, infeasible=0, queries=0, solver_s=0.0, checks=0, discharged=0,
                          branches=0, concretisations=0)
        self.violations = []
        self.stop_at = None
        self.reached = {}
        self.samples = []
        self.symbols = {}
        self.active = False
        self.describing = None
        self.suspects = []

    # -- solver
    def _solve(self, *assumptions):
        t = _pc()
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += _pc() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            raise Inconclusive(f"solver answered unknown: {self.solver.reason_unknown()}")
        return r == z3.sat

    def _push(self, e):
        self.solver.push()
        self.solver.add(e)

    def _model(self):
        if self.model is None:
            if not self._solve():
                raise PathInfeasible()
            self.model = self.solver.model()
        return self.model

    def _replay(self, kind, expr):
        e = self.log[self.pos]
        if e.kind != kind or not self._same_expr(e.expr, expr):
            raise HarnessError(
                f"harness not deterministic: expected {e.kind} {str(e.expr)[:300]}, got {kind} {str(expr)[:300]}"
            )
        self.pos += 1
        return e

    def _same_expr(self, a, b):
        """the simplifier may order arguments differently from run to run"""
        if a.eq(b):
            return True
        s = z3.Solver()
        s.add(a != b)
        return s.check() == z3.unsat

    def _guard(self):
        if not self.active:
            raise HarnessError("symbolic value used outside of its path")
        if len(self.log) > self.max_decisions:
            raise Inconclusive("decision bound exceeded")
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive("time bound exceeded")

    # -- API for proxies
    def branch(self, expr):
        self._guard()
        if self.describing is not None:
            return z3.is_true(self.describing.eval(expr, model_completion=True))
        expr = simp(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        known = self.decided.get(expr.get_id())
        if known is not None:
            return known[1]
        r = self._branch(expr)
        self.decided[expr.get_id()] = (expr, r)
        return r

    def _branch(self, expr):
        if self.pos < self.frozen:
            return self._replay("b", expr).taken
        self.stats["branches"] += 1
        m = self._model()
        mv = z3.is_true(m.eval(expr, model_completion=True))
        other = z3.Not(expr) if mv else expr
        if self._solve(other):
            # both feasible: take True first
            if not mv:
                # prefer staying with the model we have
                pass
            self.log.append(_Entry("b", expr, mv, True, True))
            self._push(expr if mv else z3.Not(expr))
        else:
            self.log.append(_Entry("b", expr, mv, False, False))
        self.pos += 1
        self.frozen = self.pos
        return mv

    def concretize(self, expr):
        self._guard()
        if self.describing is not None:
            return self.describing.eval(expr, model_completion=True).as_long()
        expr = simp(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        known = self.decided.get(expr.get_id())
        if known is not None:
            return known[1]
        r = self._concretize(expr)
        self.decided[expr.get_id()] = (expr, r)
        return r

    def _concretize(self, expr):
        self.stats["concretisations"] += 1
        while True:
            if self.pos < self.frozen:
                e = self.log[self.pos]
                if e.kind != "c" or not self._same_expr(e.expr, expr):
                    raise HarnessError(
                        f"harness not deterministic at concretisation of {expr}: {e.kind} {e.expr}")
                self.pos += 1
                if e.taken:
                    return e.data
                continue
            v = self._model().eval(expr, model_completion=True).as_long()
            eq = expr == v
            if self._solve(z3.Not(eq)):
                self.log.append(_Entry("c", expr, True, True, True, v))
                self._push(eq)
            else:
                self.log.append(_Entry("c", expr, True, False, False, v))
            self.pos += 1
            self.frozen = self.pos
            return v

    def rounded(self, expr, ops):
        r = z3.Real(f"fl!{self._nround}")
        self._nround += 1
        eps = z3.RealVal(f"{ops}/{2**52}")
        ab = z3.If(expr >= 0, expr, -expr)
        self._assume_expr(z3.And(r - expr <= eps * ab, expr - r <= eps * ab))
        return r

    def _assume_expr(self, expr):
        self._guard()
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if self.pos < self.frozen:
            self._replay("a", expr)
            return
        self._push(expr)
        self.log.append(_Entry("a", expr, True, False, True))
        self.pos += 1
        self.frozen = self.pos
        if self.model is not None and not z3.is_true(
            self.model.eval(expr, model_completion=True)
        ):
            self.model = None
        if self.model is None:
            self._model()

    # -- API for harnesses
    def int(self, name, lo=None, hi=None):
        if name in self.path_syms:
            return self.path_syms[name]
        if lo is not None and lo == hi:
            self.path_syms[name] = lo
            return lo
        v = z3.Int(name)
        s = SymInt(v)
        self.path_syms[name] = s
        self.symbols[name] = tuple(x if x is None or isinstance(x, builtins.int) else None for x in (lo, hi))
        cs = []
        if lo is not None:
            cs.append(v >= _iex(lo))
        if hi is not None:
            cs.append(v <= _iex(hi))
        if cs:
            self._assume_expr(z3.And(*cs) if len(cs) > 1 else cs[0])
        return s

    def bool(self, name):
        if name in self.path_syms:
            return self.path_syms[name]
        if self.prefer is not None and self.prefer(name):
            return True
        s = SymBool(z3.Bool(name))
        self.path_syms[name] = s
        self.symbols[name] = (False, True)
        return s

    def choose(self, name, options):
        """An element of `options`, decided by a symbolic index (concretised by forking)."""
        options = list(options)
        if self.prefer is not None and self.prefer(name):
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i if isinstance(i, int) else i.__index__()]

    def pick(self, name, lo, hi):
        """A symbolic int in [lo, hi], concretised here (structure of the harness)."""
        i = self.int(name, lo, hi)
        return i if isinstance(i, int) else i.__index__()

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathInfeasible()
        self._assume_expr(bex(cond))

    def check(self, cond, label, detail=""):
        """Assert `cond` for every value on this path."""
        self._guard()
        if isinstance(cond, SymBool):
            expr = z3.simplify(cond.e)
        elif cond:
            if self.pos >= self.frozen:
                self.stats["checks"] += 1
                self.stats["discharged"] += 1
            return
        else:
            expr = z3.BoolVal(False)
        if self.pos >= self.frozen:
            self.stats["checks"] += 1
        if self.pos < self.frozen:
            e = self.log[self.pos]
            if e.kind == "k":
                self._replay("k", expr)
                return
            raise HarnessError(f"harness not deterministic at check {label}: {e.kind} {e.expr} {expr}")
        if z3.is_true(expr):
            self.stats["discharged"] += 1
        else:
            if self._solve(z3.Not(expr)):
                m = self.solver.model()
                self.describing = m
                try:
                    d = detail() if callable(detail) else detail
                except Exception as e:
                    d = f"(detail failed: {e})"
                finally:
                    self.describing = None
                raise Violation(label, m, d, expr)
            self.stats["discharged"] += 1
        self.log.append(_Entry("k", expr, True, False, False))
        self.pos += 1
        self.frozen = self.pos

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def reach(self, label):
        """Reachability witness (vacuity guard): the path that gets here is feasible."""
        if label not in self.reached:
            self._model()
            self.reached[label] = self.assignment(self._model())

    def assignment(self, model):
        out = {}
        for n, s in self.path_syms.items():
            if isinstance(s, SymInt):
                out[n] = model.eval(s.e, model_completion=True).as_long()
            elif isinstance(s, SymBool):
                out[n] = z3.is_true(model.eval(s.e, model_completion=True))
            else:
                out[n] = s
        return out

    def _run_path(self):
        self.pos = 0
        self.path_syms = {}
        self.prefer = None
        self.decided = {}
        self._nround = 0
        self.active = True
        set_current(self)
        try:
            self.fn(self)
            if self.pos < self.frozen:
                raise HarnessError("harness not deterministic: path ended inside the prefix")
            return None
        finally:
            self.active = False
            set_current(None)

    def _fails_for_real(self, asg):
        ctx = ConcreteCtx(dict(asg))
        set_current(ctx)
        try:
            self.fn(ctx)
            return False
        except PathInfeasible:
            return False
        except (Violation, Exception):
            return True
        finally:
            set_current(None)

    def _real_model(self, v, asg):
        """A relaxed float decided an assertion: look for concrete values near the solver's that
        fail on real floats (the verdict is the replay's; none found means inconclusive)."""
        import random

        rnd = random.Random(builtins.int(__import__("os").environ.get("VERIF_SEED", "1")))
        t0 = time.time()
        for i in range(20000):
            if i % 50 == 0 and time.time() - t0 > 15:
                break
            cand = dict(asg)
            if i:
                for n, s in self.path_syms.items():
                    if isinstance(s, SymInt) and rnd.random() < 0.8:
                        lo, hi = self.symbols[n]
                        lo = -50 if lo is None else lo
                        top = rnd.choice([12, 60, 300, 5000])
                        cand[n] = rnd.randint(lo, max(lo, min(hi if hi is not None else top, lo + top)))
            self.stats["float_models"] = self.stats.get("float_models", 0) + 1
            if self._fails_for_real(cand):
                return cand
        return None

    def explore(self):
        while True:
            try:
                self._run_path()
                self.stats["paths"] += 1
                if len(self.samples) < 3:
                    self.active = True
                    self.samples.append(self.assignment(self._model()))
                    self.active = False
            except PathInfeasible:
                self.stats["infeasible"] += 1
            except (Violation, Exception) as v:
                if not isinstance(v, Violation):
                    import traceback
                    tb = "".join(traceback.format_exception(v))[-3000:]
                    last = [f for f in traceback.extract_tb(v.__traceback__)][-1]
                    self.active = True
                    v = Violation(f"exception {type(v).__name__} in {last.name}", self._model(), tb)
                    self.active = False
                self.stats["paths"] += 1
                asg = self.assignment(v.model)
                if self._nround and v.label not in [x["label"] for x in self.violations]:
                    # the path contains relaxed floats: look for a model that fails for real
                    asg = self._real_model(v, asg)
                    if asg is None:
                        self.suspects.append(v.label)
                        v.label = None
                if v.label is not None and v.label not in [x["label"] for x in self.violations]:
                    self.violations.append(dict(label=v.label, assignment=asg, detail=str(v.detail)[:2000]))
                if self.violations and self.stop_at is None:
                    self.stop_at = time.time() + 20
                if len(self.violations) >= self.max_violations or (
                        self.stop_at is not None and time.time() > self.stop_at):
                    self.stats["truncated_after_violations"] = True
                    return
            # backtrack
            while self.log:
                e = self.log[-1]
                if e.pushed:
                    self.solver.pop()
                if e.alt:
                    break
                self.log.pop()
            if not self.log:
                if self.suspects and not self.violations:
                    raise Inconclusive(
                        f"relaxed floats decide {sorted(set(self.suspects))}, no concrete failure")
                return
            e = self.log[-1]
            self.model = None
            if e.kind == "b":
                e.taken = not e.taken
                e.alt = False
                self._push(e.expr if e.taken else z3.Not(e.expr))
            else:  # concretisation: exclude the value and go on
                e.taken = False
                e.alt = False
                self._push(e.expr != e.data)
            self.frozen = len(self.log)
            if self.stats["paths"] + self.stats["infeasible"] >= self.max_paths:
                raise Inconclusive("path bound exceeded")


class ConcreteCtx:
    """Runs a harness with the values of one assignment, on the untransformed code."""

    concrete = True

    def __init__(self, values):
        self.values = values
        self.path_syms = {}
        self.prefer = None
        self.failed = None

    def int(self, name, lo=None, hi=None):
        if name not in self.values:
            self.values[name] = lo if lo is not None else 0
        return self.values[name]

    def bool(self, name):
        if self.prefer is not None and self.prefer(name):
            return True
        return bool(self.values.setdefault(name, False))

    def choose(self, name, options):
        if self.prefer is not None and self.prefer(name):
            return list(options)[0]
        return list(options)[self.int(name, 0, len(list(options)) - 1)]

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi)

    def assume(self, cond):
        if not cond:
            raise PathInfeasible()

    def check(self, cond, label, detail=""):
        if not cond:
            raise Violation(label, None, detail() if callable(detail) else detail)

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def reach(self, label):
        pass
