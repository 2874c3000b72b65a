"""Symbolic values and path exploration.

The functions of GPyOpt are executed by CPython itself, on numpy object arrays whose
entries are `Sym` objects.  A `Sym` wraps a z3 term; every operation builds a bigger term;
`bool(Sym)` asks the engine which way the branch goes, which forks the execution path (paths
are explored depth first by re-executing the harness with a recorded decision prefix).
"""
import sys, math, time as _timemod
_now = _timemod.time
from fractions import Fraction

_Z3P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.path.append(_Z3P)
import z3
sys.path.remove(_Z3P)

import numpy as np

# originals, captured before anything is patched
_np_array = np.array
_np_asarray = np.asarray
_np_empty = np.empty
_np_broadcast = np.broadcast
_float, _int, _tuple, _isinstance = float, int, tuple, isinstance


class Steer(BaseException):
    """Base class of exceptions which steer the exploration (never caught by `except Exception`)."""


class PathEnd(Steer):
    """This path cannot be (or needs not be) continued: infeasible assumption."""


class Unsupported(Steer):
    """The engine cannot encode what the code does here: the path is undecided."""


class BudgetOut(Steer):
    """Time budget exhausted."""


# ---------------------------------------------------------------------------------------------
FP = z3.Float64()
RNE = z3.RNE()
_ENGINE = None


def engine():
    if _ENGINE is None:
        raise Unsupported('symbolic value used outside an engine')
    return _ENGINE


_numcache = {}


def rv(v):
    """exact z3 real of a concrete number"""
    if _isinstance(v, _int):
        key = v
    else:
        key = Fraction(v)
    r = _numcache.get(key)
    if r is None:
        r = z3.RealVal(str(key))
        _numcache[key] = r
    return r


def is_bool(v):
    return _isinstance(v, (bool, np.bool_))


def is_num(v):
    return _isinstance(v, (_int, _float, np.number, np.bool_))


class Sym(object):
    __slots__ = ('t', 'k', '__weakref__')
    __array_priority__ = 1000.0

    def __init__(self, t, k):
        self.t = t
        self.k = k

    # ---- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import sarray
        return sarray.handle_ufunc(ufunc, method, inputs, kw)

    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def flatten(self):
        from . import sarray
        return sarray.mk([self])

    ravel = flatten

    def astype(self, dt, **kw):
        return convert_dtype(self, dt)

    def sum(self, *a, **k):
        return self

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        raise IndexError('invalid index to scalar variable.')

    # ---- identity
    def __hash__(self):
        return 7

    def __repr__(self):
        s = str(self.t)
        return 'Sym<%s:%s>' % (self.k, s if len(s) < 120 else s[:117] + '...')

    def __str__(self):
        return engine().token(self) if _ENGINE is not None else repr(self)

    def __format__(self, spec):
        return str(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    # ---- truth / conversion
    def __bool__(self):
        return engine().decide(truth(self))

    def __index__(self):
        if self.k in ('I', 'B'):
            return engine().concretise_int(self)
        raise TypeError('only integer values can be used as an index')

    def __int__(self):
        return engine().concretise_int(to_int_trunc(self))

    __trunc__ = __int__

    def __float__(self):
        return engine().concretise_float(self)

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    # ---- arithmetic
    def __add__(self, o):
        return arith('+', self, o)

    def __radd__(self, o):
        return arith('+', o, self)

    def __sub__(self, o):
        return arith('-', self, o)

    def __rsub__(self, o):
        return arith('-', o, self)

    def __mul__(self, o):
        return arith('*', self, o)

    def __rmul__(self, o):
        return arith('*', o, self)

    def __truediv__(self, o):
        return arith('/', self, o)

    def __rtruediv__(self, o):
        return arith('/', o, self)

    def __floordiv__(self, o):
        return arith('//', self, o)

    def __rfloordiv__(self, o):
        return arith('//', o, self)

    def __mod__(self, o):
        return arith('%', self, o)

    def __rmod__(self, o):
        return arith('%', o, self)

    def __pow__(self, o):
        return arith('**', self, o)

    def __rpow__(self, o):
        return arith('**', o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absv(self)

    def __round__(self, nd=None):
        return rint(self) if not nd else NotImplemented

    # ---- comparison
    def __lt__(self, o):
        return compare('<', self, o)

    def __le__(self, o):
        return compare('<=', self, o)

    def __gt__(self, o):
        return compare('>', self, o)

    def __ge__(self, o):
        return compare('>=', self, o)

    def __eq__(self, o):
        return compare('==', self, o)

    def __ne__(self, o):
        return compare('!=', self, o)

    # ---- logic
    def __and__(self, o):
        return land(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return lor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return compare('!=', boolify(self), boolify(o))

    __rxor__ = __xor__

    def __invert__(self):
        if self.k == 'B':
            return lnot(self)
        return arith('-', neg(self), 1)

    # methods numpy object loops look for
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def rint(self):
        return rint(self)

    def floor(self):
        return floor(self)

    def conjugate(self):
        return self

    conj = conjugate


def S(v):
    return _isinstance(v, Sym)


def unwrap0(o):
    """0-d arrays to scalars; returns (value, is_array)"""
    if _isinstance(o, np.ndarray):
        if o.ndim == 0:
            return o[()], False
        return o, True
    return o, False


def truth(s):
    """z3 Bool of the python truth value of a Sym"""
    if s.k == 'B':
        return s.t
    if s.k == 'F':
        return z3.Not(z3.fpIsZero(s.t))
    return s.t != 0


def boolify(v):
    if S(v):
        return v if v.k == 'B' else Sym(truth(v), 'B')
    return bool(v)


def bt(v):
    """z3 Bool of bool/Sym"""
    if S(v):
        return truth(v)
    return z3.BoolVal(bool(v))


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return Sym(t, 'B')


def lnot(v):
    if S(v):
        return mkbool(z3.Not(truth(v)))
    return not v


def land(*vs):
    ts = []
    for v in vs:
        if S(v):
            ts.append(truth(v))
        elif not v:
            return False
    if not ts:
        return True
    return mkbool(ts[0] if len(ts) == 1 else z3.And(*ts))


def lor(*vs):
    ts = []
    for v in vs:
        if S(v):
            ts.append(truth(v))
        elif v:
            return True
    if not ts:
        return False
    return mkbool(ts[0] if len(ts) == 1 else z3.Or(*ts))


def limplies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    """if-then-else without forking"""
    if not S(c):
        return a if c else b
    if a is b:
        return a
    if not S(a) and not S(b):
        if is_bool(a) and is_bool(b):
            if bool(a) == bool(b):
                return a
            return Sym(truth(c), 'B') if a else lnot(c)
        if a == b:
            return a
    if is_num(a) and not is_bool(a) and not math.isfinite(a) or is_num(b) and not is_bool(b) and not math.isfinite(b):
        return a if engine().decide(truth(c)) else b
    k, x, y = promote(a, b)
    return Sym(z3.If(truth(c), x, y), k)


def kindof(v):
    if S(v):
        return v.k
    if is_bool(v):
        return 'B'
    if _isinstance(v, (_int, np.integer)):
        return 'I'
    return 'R'


def term(v, k):
    """z3 term of v (Sym or concrete) in kind k"""
    if not S(v):
        if k == 'R':
            return rv(_int(v) if _isinstance(v, (_int, np.integer, np.bool_)) else _float(v))
        if k == 'I':
            return z3.IntVal(_int(v))
        if k == 'B':
            return z3.BoolVal(bool(v))
        if k == 'F':
            return z3.FPVal(_float(v), FP)
        raise Unsupported(k)
    if v.k == k:
        return v.t
    if k == 'R':
        if v.k == 'I':
            return z3.ToReal(v.t)
        if v.k == 'B':
            return z3.If(v.t, rv(1), rv(0))
    if k == 'I' and v.k == 'B':
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if k == 'F':
        if v.k == 'B':
            return z3.If(v.t, z3.FPVal(1.0, FP), z3.FPVal(0.0, FP))
    if k == 'B':
        return truth(v)
    raise Unsupported('cannot view kind %s as %s' % (v.k, k))


def promote(a, b):
    ka, kb = kindof(a), kindof(b)
    if 'F' in (ka, kb):
        k = 'F'
    elif 'R' in (ka, kb):
        k = 'R'
    elif ka == 'B' and kb == 'B':
        k = 'B'
    else:
        k = 'I'
    return k, term(a, k), term(b, k)


def inf_of(v):
    """+1/-1 for infinities, 'nan' for nan, 0 otherwise (concrete values only)"""
    if S(v) or is_bool(v) or _isinstance(v, (_int, np.integer)):
        return 0
    if v != v:
        return 'nan'
    if v == math.inf:
        return 1
    if v == -math.inf:
        return -1
    return 0


NAN = np.float64('nan')
INF = np.float64('inf')


def arith(op, a, b):
    a, aa = unwrap0(a)
    b, ab = unwrap0(b)
    if aa or ab:
        from . import sarray
        return sarray.elementwise2(lambda x, y: arith(op, x, y), a, b)
    if not S(a) and not S(b):
        return conc_arith(op, a, b)
    if not ((S(a) or is_num(a)) and (S(b) or is_num(b))):
        return NotImplemented
    ia, ib = inf_of(a), inf_of(b)
    if ia or ib:
        if kindof(a) == 'F' or kindof(b) == 'F':
            pass
        else:
            return inf_arith(op, a, b, ia, ib)
    if op == '**':
        return power(a, b)
    k, x, y = promote(a, b)
    if k == 'F':
        if op == '+':
            return Sym(z3.fpAdd(RNE, x, y), 'F')
        if op == '-':
            return Sym(z3.fpSub(RNE, x, y), 'F')
        if op == '*':
            return Sym(z3.fpMul(RNE, x, y), 'F')
        if op == '/':
            return Sym(z3.fpDiv(RNE, x, y), 'F')
        raise Unsupported('fp op ' + op)
    if k == 'B':
        x, y = term(a, 'I'), term(b, 'I')
        k = 'I'
    if op == '+':
        if not S(b) and b == 0:
            return Sym(x, k)
        if not S(a) and a == 0:
            return Sym(y, k)
        return Sym(x + y, k)
    if op == '-':
        if not S(b) and b == 0:
            return Sym(x, k)
        if S(a) and S(b) and z3.eq(x, y):
            return np.float64(0.0) if k == 'R' else 0
        return Sym(x - y, k)
    if op == '*':
        for c, o in ((a, y), (b, x)):
            if not S(c):
                if c == 0:
                    return np.float64(0.0) if k == 'R' else 0
                if c == 1:
                    return Sym(o, k)
                if c == -1:
                    return Sym(-o, k)
        return Sym(x * y, k)
    if op == '/':
        x, y = term(a, 'R'), term(b, 'R')
        if S(b):
            if engine().decide(y == 0):
                # numpy float semantics
                if not S(a):
                    return INF if a > 0 else (-INF if a < 0 else NAN)
                if engine().decide(x == 0):
                    return NAN
                return INF if engine().decide(x > 0) else -INF
            if not S(a) and a == 0:
                return np.float64(0.0)
            if S(a) and z3.eq(x, y):
                return np.float64(1.0)
            return Sym(x / y, 'R')
        if b == 0:
            if engine().decide(x == 0):
                return NAN
            return INF if engine().decide(x > 0) else -INF
        if b == 1:
            return Sym(x, 'R')
        return Sym(x / y, 'R')
    if op in ('//', '%'):
        if S(b) and engine().decide(y == 0):
            raise Unsupported('modulo by zero')
        if k == 'I':
            if S(b):
                if not engine().decide(y > 0):
                    raise Unsupported('modulo by a negative value')
            elif b <= 0:
                raise Unsupported('modulo by a non-positive value')
            return Sym(x / y if op == '//' else x % y, 'I')
        q = z3.ToReal(z3.ToInt(x / y))
        return Sym(q if op == '//' else x - q * y, 'R')
    raise Unsupported(op)


def conc_arith(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return np.true_divide(a, b)
    if op == '//':
        return a // b
    if op == '%':
        return a % b
    if op == '**':
        return a ** b
    raise Unsupported(op)


def inf_arith(op, a, b, ia, ib):
    if ia == 'nan' or ib == 'nan':
        return NAN
    if op == '+':
        return np.float64(a) if ia else np.float64(b)
    if op == '-':
        return np.float64(a) if ia else -np.float64(b)
    if op == '*':
        s, i = (b, ia) if ia else (a, ib)
        r = term(s, 'R')
        if engine().decide(r == 0):
            return NAN
        pos = engine().decide(r > 0)
        return INF if pos == (i > 0) else -INF
    if op == '/':
        if ib:
            return np.float64(0.0)
        r = term(b, 'R')
        pos = engine().decide(r >= 0)
        return INF if pos == (ia > 0) else -INF
    raise Unsupported('inf ' + op)


def power(a, b):
    if S(b):
        if S(a) and a.k == 'F':
            raise Unsupported('fp pow')
        if kindof(b) in 'IB':
            b = engine().concretise_int(b)
        else:
            if S(a):
                raise Unsupported('symbolic exponent of symbolic base')
            if a <= 0:
                raise Unsupported('pow of nonpositive base')
            return exp(arith('*', b, math.log(a)))
    if not S(a):
        return a ** b
    fb = _float(b)
    if fb == 0.5:
        return sqrt(a)
    if fb == int(fb) and abs(fb) <= 8:
        n = _int(fb)
        if n == 0:
            return np.float64(1.0)
        r = a
        for _ in range(abs(n) - 1):
            r = arith('*', r, a)
        if n < 0:
            r = arith('/', 1.0, r)
        return r
    if 2 * fb == int(2 * fb) and 0 < fb <= 8:
        return arith('*', power(a, int(fb)), sqrt(a))
    raise Unsupported('power %r' % (b,))


def neg(a):
    if not S(a):
        return -a
    if a.k == 'F':
        return Sym(z3.fpNeg(a.t), 'F')
    if a.k == 'B':
        return Sym(-term(a, 'I'), 'I')
    return Sym(-a.t, a.k)


def absv(a):
    if not S(a):
        return abs(a)
    if a.k == 'F':
        return Sym(z3.fpAbs(a.t), 'F')
    if a.k == 'B':
        return a
    return Sym(z3.If(a.t >= 0, a.t, -a.t), a.k)


_CMP = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
        '==': lambda x, y: x == y, '!=': lambda x, y: x != y}
_FCMP = {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ, '==': z3.fpEQ, '!=': z3.fpNEQ}


def compare(op, a, b):
    a, aa = unwrap0(a)
    b, ab = unwrap0(b)
    if aa or ab:
        from . import sarray
        return sarray.elementwise2(lambda x, y: compare(op, x, y), a, b)
    if not S(a) and not S(b):
        r = _CMP[op](a, b)
        return r if not _isinstance(r, np.bool_) else bool(r)
    if not ((S(a) or is_num(a)) and (S(b) or is_num(b))):
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented
    ia, ib = inf_of(a), inf_of(b)
    if (ia or ib) and 'F' not in (kindof(a), kindof(b)):
        if ia == 'nan' or ib == 'nan':
            return op == '!='
        x, y = (ia, ib)
        return bool(_CMP[op](x, y))     # finite symbolic value compares as 0 against +-1
    k, x, y = promote(a, b)
    if k == 'F':
        if op == '!=':
            return mkbool(z3.Not(z3.fpEQ(x, y)))
        return mkbool(_FCMP[op](x, y))
    if k == 'B' and op not in ('==', '!='):
        x, y = term(a, 'I'), term(b, 'I')
    if z3.eq(x, y):
        return op in ('<=', '>=', '==')
    if k == 'R' and _ENGINE is not None and _ENGINE.canonical and (has_div(x) or has_div(y)):
        from . import ratform
        c = ratform.constant(x - y, _ENGINE.defs)
        if c is not None:
            return bool(_CMP[op](c, 0))
    if k == 'R' and _ENGINE is not None and _ENGINE.sqrts:
        x, y = _ENGINE.square_out(x, y)
    return mkbool(_CMP[op](x, y))


def vmin(a, b):
    if not S(a) and not S(b):
        return np.minimum(a, b)
    return ite(compare('<=', a, b), a, b)


def vmax(a, b):
    if not S(a) and not S(b):
        return np.maximum(a, b)
    return ite(compare('>=', a, b), a, b)


def to_int_trunc(a):
    """Int-kind Sym: python int(a)"""
    if not S(a):
        return _int(a)
    if a.k == 'I':
        return a
    if a.k == 'B':
        return Sym(term(a, 'I'), 'I')
    if a.k == 'F':
        r = z3.fpToReal(z3.fpRoundToIntegral(z3.RTZ(), a.t))
        return Sym(z3.ToInt(r), 'I')
    t = a.t
    if t.decl().kind() == z3.Z3_OP_TO_REAL:
        return Sym(t.arg(0), 'I')
    return Sym(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), 'I')


def floor(a):
    if not S(a):
        return np.floor(a)
    if a.k in 'IB':
        return a
    if a.k == 'F':
        return Sym(z3.fpRoundToIntegral(z3.RTN(), a.t), 'F')
    return Sym(z3.ToReal(z3.ToInt(a.t)), 'R')


def ceil(a):
    if not S(a):
        return np.ceil(a)
    if a.k in 'IB':
        return a
    if a.k == 'F':
        return Sym(z3.fpRoundToIntegral(z3.RTP(), a.t), 'F')
    return Sym(-z3.ToReal(z3.ToInt(-a.t)), 'R')


def rint(a):
    if not S(a):
        return np.rint(a)
    if a.k in 'IB':
        return a
    if a.k == 'F':
        return Sym(z3.fpRoundToIntegral(RNE, a.t), 'F')
    f = z3.ToInt(a.t)
    d = a.t - z3.ToReal(f)
    half = z3.Q(1, 2)
    return Sym(z3.ToReal(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))), 'R')


def sqrt(a):
    if not S(a):
        return np.sqrt(a)
    if a.k == 'F':
        return Sym(z3.fpSqrt(RNE, a.t), 'F')
    return engine().fn_sqrt(term(a, 'R'))


def exp(a):
    if not S(a):
        return np.exp(a)
    if a.k == 'F':
        raise Unsupported('fp exp')
    return engine().fn_exp(term(a, 'R'))


def log(a):
    if not S(a):
        return np.log(a)
    if a.k == 'F':
        raise Unsupported('fp log')
    return engine().fn_log(term(a, 'R'))


def core_t(a):
    return a.t if S(a) else rv(a)


def sin(a):
    if not S(a):
        return np.sin(a)
    return engine().fn_trig(term(a, 'R'))[0]


def cos(a):
    if not S(a):
        return np.cos(a)
    return engine().fn_trig(term(a, 'R'))[1]


def tan(a):
    return arith('/', sin(a), cos(a)) if S(a) else np.tan(a)


def ncdf(a):
    """standard normal cdf"""
    if not S(a):
        return np.float64(0.5 * math.erfc(-_float(a) / math.sqrt(2)))
    return engine().fn_phi(term(a, 'R'))


SQRT2 = math.sqrt(2.0)


def erfc(a):
    if not S(a):
        from scipy.special import erfc as e
        return e(a)
    return arith('*', 2.0, ncdf(arith('*', neg(a), engine().root2 or SQRT2)))


def erf(a):
    if not S(a):
        from scipy.special import erf as e
        return e(a)
    return arith('-', arith('*', 2.0, ncdf(arith('*', a, engine().root2 or SQRT2))), 1.0)


def isnan(a):
    if not S(a):
        return bool(np.isnan(a))
    if a.k == 'F':
        return mkbool(z3.fpIsNaN(a.t))
    return False


def isinf(a):
    if not S(a):
        return bool(np.isinf(a))
    if a.k == 'F':
        return mkbool(z3.fpIsInf(a.t))
    return False


def convert_dtype(v, dt):
    """value v converted to numpy dtype dt"""
    try:
        d = np.dtype(dt)
    except TypeError:
        d = np.dtype(getattr(dt, '_real_type_', object))
    if not S(v):
        if d.kind == 'O':
            return v
        return d.type(v)
    if d.kind == 'f':
        if v.k in ('R', 'F'):
            return v
        return Sym(term(v, 'R'), 'R')
    if d.kind in 'iu':
        return to_int_trunc(v)
    if d.kind == 'b':
        return boolify(v)
    if d.kind == 'O':
        return v
    raise Unsupported('astype %s' % d)


# ---------------------------------------------------------------------------------------------
def has_div(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_DIV:
            return True
        st.extend(x.children())
    return False


def norm(t):
    return z3.simplify(t, som=True, arith_lhs=True)


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.checks = {}        # label -> [discharged, trivially]
        self.undecided = {}     # label -> count
        self.infeasible = 0
        self.concretised = 0


class Engine(object):
    """One symbolic exploration of a harness."""

    def __init__(self, timeout_ms=10000, max_paths=100000, deadline=None, nice=True):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.nice = nice

    # -- path life cycle
    def begin_path(self, prefix, model):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.prefix = prefix
        self.decided = []
        self.pos = 0
        self.model = model
        self.model_stale = model is None
        self.counter = {}
        self.inputs = {}       # name -> Sym
        self.input_order = []
        self.exps, self.logs, self.phis, self.sqrts, self.trigs = [], [], [], [], []
        self.defs = {}         # fresh const id -> (kind, arg term)
        self.dead = None
        self.failures = []     # (label, model assignment list)
        self.pending = []      # alternatives discovered on this path: (prefix, model)
        self.intdom = {}
        self.tokens = {}
        self.anchors = []      # bounds of exp and the normal distribution at fixed arguments, used to confirm counterexamples
        self.margins = {}      # id -> (equality up to rounding, the same equality with a coarse tolerance)
        self.root2 = None
        self.roots = []
        self.heavy = []        # nonlinear definitions a first attempt at an assertion leaves out

    def token(self, s):
        """text standing for a symbolic value in files and messages"""
        for k, v in self.tokens.items():
            if v.k == s.k and z3.eq(v.t, s.t):
                return k
        k = '#S%d#' % len(self.tokens)
        self.tokens[k] = s
        return k

    def fresh(self, base, sort='R'):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        nm = '%s!%d' % (base, n)
        return z3.Real(nm) if sort == 'R' else z3.Int(nm)

    # -- constraints
    def add(self, t, heavy=False):
        self.solver.add(t)
        if heavy:
            self.heavy.append(t)
        if self.model is not None and not self.model_stale:
            v = self.model.eval(t, model_completion=True)
            if not z3.is_true(v):
                self.model_stale = True

    def check(self, *assumptions):
        if self.deadline is not None and _now() > self.deadline:
            self.kill(BudgetOut('time budget'))
        t0 = _now()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += _now() - t0
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def kill(self, exc):
        self.dead = exc
        raise exc

    def get_model(self):
        """model of the path condition (or None if unknown)"""
        if self.model is None or self.model_stale:
            r = self.check()
            if r == z3.sat:
                self.model = self.solver.model()
                self.model_stale = False
            elif r == z3.unsat:
                self.kill(PathEnd('infeasible'))
            else:
                self.model = self.second_model()
                self.model_stale = self.model is None
        return self.model

    def second_model(self):
        """the incremental solver gave up: a fresh solver, other seeds, then the nonlinear tactic"""
        t0 = _now()
        try:
            for k in range(3):
                try:
                    s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver() if k == 2 else z3.Solver()
                    s.set('timeout', self.timeout_ms)
                    if k == 1:
                        s.set('random_seed', 7)
                    s.add(*self.solver.assertions())
                    r = s.check()
                except z3.Z3Exception:
                    continue
                self.stats.queries += 1
                if r == z3.sat:
                    return s.model()
                if r == z3.unsat:
                    self.kill(PathEnd('infeasible'))
        finally:
            self.stats.solver_s += _now() - t0
        return None

    def assume(self, cond):
        if not S(cond):
            if not cond:
                self.stats.infeasible += 1
                self.kill(PathEnd('assumption false'))
            return
        t = truth(cond)
        self.add(t)

    def decide(self, t):
        if self.dead is not None:
            raise self.dead
        t = norm(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.canonical:
            r = self.by_normal_form(t)
            if r is not None:
                return r
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decided.append(d)
            self.solver.add(t if d else z3.Not(t))
            return d
        m = self.get_model()
        first = None
        if m is not None:
            v = m.eval(t, model_completion=True)
            if z3.is_true(v):
                first = True
            elif z3.is_false(v):
                first = False
        if first is None:
            r = self.check(t)
            if r == z3.sat:
                first = True
                self.model = self.solver.model()
                self.model_stale = False
            elif r == z3.unsat:
                first = False
                r2 = self.check(z3.Not(t))
                if r2 == z3.unsat:
                    self.kill(PathEnd('infeasible'))
                self.pos += 1
                self.decided.append(False)
                self.solver.add(z3.Not(t))
                return False
            else:
                first = True
        other = z3.Not(t) if first else t
        r = self.check(other)
        if r != z3.unsat:
            om = self.solver.model() if r == z3.sat else None
            self.pending.append((self.decided + [not first], om))
        self.pos += 1
        self.decided.append(first)
        self.solver.add(t if first else z3.Not(t))
        return first

    root2 = None                # exact square root of two, where the code under test uses one
    canonical = False           # decide comparisons of rational terms whose difference is a constant without the solver

    def by_normal_form(self, t):
        neg = False
        while z3.is_not(t):
            neg, t = not neg, t.arg(0)
        k = t.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) or not z3.is_real(t.arg(0)) or not has_div(t):
            return None
        from . import ratform
        c = ratform.constant(t.arg(0) - t.arg(1), self.defs)
        if c is None:
            return None
        r = {z3.Z3_OP_LE: c <= 0, z3.Z3_OP_GE: c >= 0, z3.Z3_OP_LT: c < 0, z3.Z3_OP_GT: c > 0, z3.Z3_OP_EQ: c == 0}[k]
        return r != neg

    def concretise_int(self, v, limit=80):
        if not S(v):
            return _int(v)
        t = v.t if v.k == 'I' else term(v, 'I') if v.k == 'B' else to_int_trunc(v).t
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(limit):
            # a deterministic candidate: during prefix replay the same candidate must be proposed
            c = self._next_candidate(t)
            if self.decide(t == c):
                return c
        self.kill(Unsupported('too many values for an index'))

    def _next_candidate(self, t):
        key = t.sexpr()
        seen = self.intdom.setdefault(key, [])
        # smallest-magnitude order 0,1,-1,2,...: deterministic, checked against the solver only when new
        n = seen[-1] if seen else None
        if self.pos < len(self.prefix):
            # candidates are stored in the decision trace as ('c', value)
            d = self.prefix[self.pos]
            assert _isinstance(d, _tuple), 'replay mismatch'
            self.pos += 1
            self.decided.append(d)
            seen.append(d[1])
            return d[1]
        m = self.get_model()
        if m is None:
            self.kill(Unsupported('no model to concretise an index'))
        c = m.eval(t, model_completion=True)
        if not z3.is_int_value(c):
            self.kill(Unsupported('cannot evaluate index'))
        c = c.as_long()
        self.pos += 1
        self.decided.append(('c', c))
        seen.append(c)
        return c

    def concretise_float(self, v):
        if self.dead is not None:
            raise self.dead
        t = z3.simplify(v.t if v.k != 'B' else term(v, 'R'))
        if z3.is_rational_value(t):
            return _float(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t):
            return _float(t.as_long())
        self.kill(Unsupported('float() of a symbolic value in code the engine cannot see'))

    # -- functions with axioms
    def fold(self, x):
        if self.canonical and has_div(x):
            from . import ratform
            c = ratform.constant(x, self.defs)
            if c is not None:
                return rv(c)
        return x

    def root(self, n):
        """the square root of a rational number, as an exact number"""
        r = self.fresh('root')
        self.defs[r.decl().name()] = ('sqrt', rv(n))
        v = math.sqrt(n)
        self.add(z3.And(r > rv(v * (1 - 1e-9)), r < rv(v * (1 + 1e-9))))
        self.add(r * r == rv(n), heavy=True)
        self.sqrts.append((rv(n), r))
        return Sym(r, 'R')

    def fn_sqrt(self, x):
        x = self.fold(z3.simplify(x))
        if z3.is_rational_value(x):
            f = Fraction(x.numerator_as_long(), x.denominator_as_long())
            v = math.sqrt(f) if f >= 0 else NAN
            if not self.canonical or f < 0 or Fraction(v) ** 2 == f:
                return np.float64(v)
            for n, r in self.roots:
                if n == f:
                    return r
            self.roots.append((f, self.root(f)))
            return self.roots[-1][1]
        if self.decide(x < 0):
            return NAN
        for a, r in self.sqrts:
            if z3.eq(a, x) or self.same(a, x):
                return Sym(r, 'R')
        # sqrt(y*y) = |y|
        r = self.fresh('sqrt')
        self.sqrts.append((x, r))
        self.defs[r.decl().name()] = ('sqrt', x)
        self.add(z3.And(r >= 0, (r > 0) == (x > 0)))
        self.add(r * r == x, heavy=True)
        return Sym(r, 'R')

    def square_out(self, x, y):
        """comparison of square roots: compare the arguments instead (both sides non-negative)"""
        dx, dy = self._sqrt_arg(x), self._sqrt_arg(y)
        if dx is not None and dy is not None:
            return dx, dy
        if dx is not None and z3.is_rational_value(y) and y.numerator_as_long() >= 0:
            return dx, y * y
        if dy is not None and z3.is_rational_value(x) and x.numerator_as_long() >= 0:
            return x * x, dy
        return x, y

    def _sqrt_arg(self, t):
        if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            d = self.defs.get(t.decl().name())
            if d is not None and d[0] == 'sqrt':
                return d[1]
        return None

    def same(self, a, b):
        d = z3.simplify(a - b, som=True, arith_lhs=True)
        if z3.is_rational_value(d):
            return d.numerator_as_long() == 0
        return has_div(d) and self.ratzero(d)

    def ratzero(self, d):
        from . import ratform
        return ratform.is_zero(d, self.defs)

    def fn_exp(self, x):
        x = self.fold(z3.simplify(x, som=True))
        if z3.is_rational_value(x):
            return np.float64(math.exp(Fraction(x.numerator_as_long(), x.denominator_as_long())))
        for a, r in self.exps:
            if z3.eq(a, x) or self.same(a, x):
                return Sym(r, 'R')
            if self.same(a, -x):
                return Sym(rv(1) / r, 'R')
        # exp(log(y)) = y
        for b, l in self.logs:
            if self.same(l, x):
                return Sym(b, 'R')
        # exp(u + k*log(y)) = exp(u) * y^k
        k = self.split_log(x)
        if k is not None:
            u, y, c = k
            e = self.fn_exp(u)
            e = e.t if S(e) else rv(e)
            for _ in range(abs(c)):
                e = e * y if c > 0 else e / y
            return Sym(e, 'R')
        r = self.fresh('exp')
        self.defs[r.decl().name()] = ('exp', x)
        ax = [r > 0, z3.Implies(x >= 0, r >= 1 + x), z3.Implies(x <= 0, r <= 1), z3.Implies(x < 0, r < 1)]
        for c in (-40.0, -8.0, -2.0, -1.0, 1.0, 2.0, 8.0, 40.0):
            e = math.exp(c)
            self.anchors.append(z3.Implies(x >= rv(c), r >= rv(e * (1 - 1e-12))))
            self.anchors.append(z3.Implies(x <= rv(c), r <= rv(e * (1 + 1e-12))))
        for a, q in self.exps:
            ax.append((x < a) == (r < q))
            ax.append((x == a) == (r == q))
        for b, l in self.logs:
            ax.append((l == x) == (b == r))
            ax.append((l < x) == (b < r))
        self.exps.append((x, r))
        self.add(z3.And(*ax))
        return Sym(r, 'R')

    def split_log(self, x):
        if not self.logs:
            return None
        for m in x.children() if z3.is_add(x) else [x]:
            c, v = 1, m
            if z3.is_mul(m) and m.num_args() == 2 and z3.is_rational_value(m.arg(0)) and m.arg(0).denominator_as_long() == 1:
                c, v = m.arg(0).numerator_as_long(), m.arg(1)
            if v.num_args() or not 1 <= abs(c) <= 4:
                continue
            for b, l in self.logs:
                if z3.eq(l, v):
                    return z3.simplify(x - m, som=True), b, c
        if self.canonical and has_div(x):
            from . import ratform
            for b, l in self.logs:
                c = ratform.constant(self.diff(x, l), self.defs)
                if c is not None and c.denominator == 1 and 1 <= abs(c) <= 4:
                    return z3.substitute(x, (l, rv(0))), b, int(c)
        return None

    def fn_log(self, x):
        x = self.fold(z3.simplify(x))
        if z3.is_rational_value(x):
            f = Fraction(x.numerator_as_long(), x.denominator_as_long())
            return np.float64(math.log(f)) if f > 0 else (-INF if f == 0 else NAN)
        if not self.decide(x > 0):
            return -INF if self.decide(x == 0) else NAN
        for b, l in self.logs:
            if z3.eq(b, x) or self.same(b, x):
                return Sym(l, 'R')
        for a, r in self.exps:
            if self.same(r, x):
                return Sym(a, 'R')
        l = self.fresh('log')
        self.defs[l.decl().name()] = ('log', x)
        ax = [(x > 1) == (l > 0), (x == 1) == (l == 0), l <= x - 1]
        for b, k in self.logs:
            ax.append((x < b) == (l < k))
            ax.append((x == b) == (l == k))
        for a, r in self.exps:
            ax.append((l == a) == (x == r))
            ax.append((l < a) == (x < r))
        self.logs.append((x, l))
        self.add(z3.And(*ax))
        return Sym(l, 'R')

    def fn_trig(self, x):
        """sine and cosine of x: bounded, on the unit circle, 1-Lipschitz (hence functions of the argument), odd and even"""
        x = z3.simplify(x, som=True)
        if z3.is_rational_value(x):
            v = _float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            return np.float64(math.sin(v)), np.float64(math.cos(v))
        for a, s, c in self.trigs:
            if z3.eq(a, x) or self.same(a, x):
                return Sym(s, 'R'), Sym(c, 'R')
            if self.same(a, -x):
                return Sym(-s, 'R'), Sym(c, 'R')
        s, c = self.fresh('sin'), self.fresh('cos')
        self.defs[s.decl().name()] = ('sin', x)
        self.defs[c.decl().name()] = ('cos', x)
        ax = [s <= 1, s >= -1, c <= 1, c >= -1]
        for sg in (1, -1):
            ax += [z3.Implies(sg * x >= 0, sg * s <= sg * x)]
            for a, t, d in self.trigs:
                ax += [z3.Implies(x >= a, sg * (s - t) <= x - a), z3.Implies(x <= a, sg * (s - t) <= a - x)]
                ax += [z3.Implies(x >= a, sg * (c - d) <= x - a), z3.Implies(x <= a, sg * (c - d) <= a - x)]
        for k in range(-8, 9):
            v = k * math.pi / 8
            ms, mc = math.sin(v), math.cos(v)
            for sg in (1, -1):
                self.anchors.append(z3.Implies(x >= rv(v), z3.And(sg * (s - rv(ms)) <= x - rv(v) + rv(1e-12), sg * (c - rv(mc)) <= x - rv(v) + rv(1e-12))))
                self.anchors.append(z3.Implies(x <= rv(v), z3.And(sg * (s - rv(ms)) <= rv(v) - x + rv(1e-12), sg * (c - rv(mc)) <= rv(v) - x + rv(1e-12))))
        self.trigs.append((x, s, c))
        self.add(z3.And(*ax))
        self.add(s * s + c * c == 1, heavy=True)
        return Sym(s, 'R'), Sym(c, 'R')

    def fn_phi(self, x):
        x = self.fold(z3.simplify(x, som=True))
        if z3.is_rational_value(x):
            return ncdf(_float(Fraction(x.numerator_as_long(), x.denominator_as_long())))
        for a, r in self.phis:
            if z3.eq(a, x) or self.same(a, x):
                return Sym(r, 'R')
            if self.same(a, -x):
                return Sym(1 - r, 'R')
        r = self.fresh('Phi')
        self.defs[r.decl().name()] = ('Phi', x)
        half = z3.Q(1, 2)
        ax = [r > 0, r < 1, (x > 0) == (r > half), (x == 0) == (r == half)]
        for c in (-8.0, -3.0, -1.0, 1.0, 3.0):
            p = 0.5 * math.erfc(-c / math.sqrt(2))
            self.anchors.append(z3.Implies(x >= rv(c), r >= rv(p * (1 - 1e-9))))
            self.anchors.append(z3.Implies(x <= rv(c), r <= rv(p * (1 + 1e-9))))
        L = z3.Q(2, 5)
        for a, q in self.phis:
            ax.append((x < a) == (r < q))
            ax.append((x == a) == (r == q))
            ax.append(z3.Implies(x >= a, r - q <= L * (x - a)))
            ax.append(z3.Implies(x <= a, q - r <= L * (a - x)))
        self.phis.append((x, r))
        self.add(z3.And(*ax))
        return Sym(r, 'R')

    # -- symbolic differentiation of a term
    def diff(self, t, var, memo=None):
        if memo is None:
            memo = {}
        key = t.get_id()
        if key in memo:
            return memo[key][1]
        r = z3.simplify(self._diff(t, var, memo))
        memo[key] = (t, r)
        return r

    def _diff(self, t, var, memo):
        zero, one = rv(0), rv(1)
        if z3.eq(t, var):
            return one
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return zero
        k = t.decl().kind()
        ch = t.children()
        if not ch:
            d = self.defs.get(t.decl().name())
            if d is None:
                return zero
            fn, a = d
            da = self.diff(a, var, memo)
            if z3.is_rational_value(da) and da.numerator_as_long() == 0:
                return zero
            if fn == 'sqrt':
                return da / (2 * t)
            if fn == 'exp':
                return t * da
            if fn == 'log':
                return da / a
            if fn in ('sin', 'cos'):
                s, c = self.fn_trig(a)
                o = core_t(c) if fn == 'sin' else -core_t(s)
                return o * da
            if fn == 'Phi':
                p = self.fn_exp(-a * a / 2)
                p = p.t if S(p) else rv(p)
                return p * da / rv(math.sqrt(2 * math.pi))
            raise Unsupported('diff ' + fn)
        ds = [self.diff(c, var, memo) for c in ch] if k not in (z3.Z3_OP_ITE, z3.Z3_OP_TO_REAL) else None
        if k == z3.Z3_OP_ADD:
            return z3.Sum(*ds)
        if k == z3.Z3_OP_SUB:
            r = ds[0]
            for d in ds[1:]:
                r = r - d
            return r
        if k == z3.Z3_OP_UMINUS:
            return -ds[0]
        if k == z3.Z3_OP_MUL:
            terms = []
            for i, d in enumerate(ds):
                p = d
                for j, c in enumerate(ch):
                    if j != i:
                        p = p * c
                terms.append(p)
            return z3.Sum(*terms)
        if k == z3.Z3_OP_DIV:
            a, b = ch
            return (ds[0] * b - a * ds[1]) / (b * b)
        if k == z3.Z3_OP_POWER:
            n = ch[1].as_long()
            return n * ch[0] ** (n - 1) * ds[0]
        if k == z3.Z3_OP_ITE:
            return z3.If(ch[0], self.diff(ch[1], var, memo), self.diff(ch[2], var, memo))
        if k == z3.Z3_OP_TO_REAL:
            return zero
        raise Unsupported('cannot differentiate ' + t.decl().name())

    # -- assertions
    def refute(self, label, cond):
        """decide `cond` for every value on this path; returns True when discharged"""
        rec = self.stats.checks.setdefault(label, [0, 0])
        if not S(cond):
            if cond:
                rec[0] += 1
                rec[1] += 1
                return True
            m = self.get_model()
            self._collect_failure(label, None, m)
            return False
        t = norm(truth(cond))
        if z3.is_true(t):
            rec[0] += 1
            rec[1] += 1
            return True
        nt = z3.Not(t)
        if self.heavy and self.light(nt):
            rec[0] += 1
            return True
        r = self.check(nt)
        if r == z3.unknown:
            r = self.fallback(nt)
        if r == z3.unsat:
            rec[0] += 1
            return True
        if r == z3.sat:
            m = self.solver.model() if self._last_model is None else self._last_model
            self._last_model = None
            if self.anchors:
                r = self.check(nt, *self.anchors)
                if r == z3.unsat:
                    rec[0] += 1
                    return True
                if r == z3.sat:
                    m = self.solver.model()
            self._collect_failure(label, nt, m, truth(cond))
            return False
        self.stats.undecided[label] = self.stats.undecided.get(label, 0) + 1
        return False

    _last_model = None

    def light(self, nt):
        """first attempt, without the defining equations of square roots (unsat carries over)"""
        ids = {h.get_id() for h in self.heavy}
        s = z3.Solver()
        s.set('timeout', min(1500, self.timeout_ms))
        for a in self.solver.assertions():
            if a.get_id() not in ids:
                s.add(a)
        s.add(nt)
        t0 = _now()
        r = s.check()
        self.stats.solver_s += _now() - t0
        self.stats.queries += 1
        return r == z3.unsat

    def fallback(self, nt):
        """second opinion: nonlinear tactic"""
        t0 = _now()
        try:
            if any(v.k == 'F' for v in self.inputs.values()):
                s = z3.Tactic('qffp').solver()
                s.set('timeout', 4 * self.timeout_ms)
            else:
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
                s.set('timeout', self.timeout_ms)
            s.add(*self.solver.assertions())
            s.add(nt)
            r = s.check()
            if r == z3.sat:
                self._last_model = s.model()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.solver_s += _now() - t0
        self.stats.queries += 1
        return r

    def _collect_failure(self, label, nt, m, t=None):
        cands = []
        strong = self.stronger(t) if t is not None else None
        for x in ([strong] if strong is not None else []) + [nt]:
            for g in (True, False) if self.nice else ():
                nm = self.nice_model(x, generic=g)
                if nm is not None:
                    cands.append(self.assignment(nm))
            if cands:
                break
        if strong is not None and not cands:
            sm = self.model_of(strong)
            if sm is not None:
                cands.append(self.assignment(sm))
        if m is not None:
            cands.append(self.assignment(m))
        self.failures.append((label, cands))

    def stronger(self, t):
        """negation of t with a visible margin: the equalities that hold up to rounding are replaced by coarse ones"""
        sub = [(a, b) for a, b in self.margins.values()]
        if not sub:
            return None
        r = z3.substitute(t, *sub)
        return None if z3.eq(r, t) else z3.Not(r)

    def model_of(self, extra):
        self.solver.push()
        try:
            self.solver.add(extra)
            self.solver.add(*self.anchors)
            self.solver.set('timeout', min(4000, self.timeout_ms))
            r = self.check()
            return self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
            self.solver.set('timeout', self.timeout_ms)

    def nice_model(self, extra=None, grid=8, generic=False):
        """a model whose real inputs are multiples of 1/grid (exactly representable), if quickly found; generic: distinct and non-zero"""
        cons, ks = [], []
        for i, nm in enumerate(self.input_order):
            s = self.inputs[nm]
            if s.k == 'R':
                k = z3.Int('nice!%d' % i)
                cons.append(s.t * grid == z3.ToReal(k))
                ks.append(k)
        if generic:
            if not 1 <= len(ks) <= 24:
                return None
            cons += [k != 0 for k in ks]
            if len(ks) > 1:
                cons.append(z3.Distinct(*ks))
        self.solver.push()
        try:
            self.solver.set('timeout', min(2000, self.timeout_ms))
            if extra is not None:
                self.solver.add(extra)
            self.solver.add(*self.anchors)
            self.solver.add(*cons)
            r = self.check()
            return self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
            self.solver.set('timeout', self.timeout_ms)

    def assignment(self, m):
        out = {}
        for nm in self.input_order:
            s = self.inputs[nm]
            out[nm] = value_of(m, s)
        return out


def value_of(m, s):
    v = m.eval(s.t, model_completion=True)
    if s.k == 'B':
        return bool(z3.is_true(v))
    if s.k == 'I':
        return v.as_long()
    if s.k == 'R':
        if z3.is_rational_value(v):
            return _float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return _float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        raise Unsupported('value')
    if s.k == 'F':
        if z3.is_fp(v):
            bv = z3.simplify(z3.fpToIEEEBV(v))
            if z3.simplify(z3.fpIsNaN(v)).__bool__():
                return _float('nan')
            import struct
            return struct.unpack('<d', struct.pack('<Q', bv.as_long()))[0]
    raise Unsupported('value')
