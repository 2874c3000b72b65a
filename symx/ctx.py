"""The harness API, in two modes: symbolic (values are solver variables) and concrete (values come from a solver model;
numpy is unpatched and the code under test runs exactly as a user would run it)."""
import math
import numpy as np
from . import core, sarray
from .core import Sym, S, land, lor, lnot, ite, limplies


class ReplayInvalid(Exception):
    """the rounded model does not satisfy an assumption of the harness"""


class _Base(object):
    def __init__(self):
        self._patches = []

    def patch(self, obj, name, val):
        d = getattr(obj, '__dict__', {})
        missing = _Base
        old = d.get(name, missing)
        self._patches.append((obj, name, old))
        setattr(obj, name, val)

    def unpatch(self):
        for obj, name, old in reversed(self._patches):
            if old is _Base:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self._patches = []

    # arrays of values
    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            out[idx] = self.real('%s[%s]' % (name, ','.join(map(str, idx))), lo, hi)
        return self.arr(out)

    def between(self, x, lo, hi):
        return land(x >= lo, x <= hi)

    def isin(self, x, vals):
        return lor(*[x == v for v in vals])

    def all(self, seq):
        return land(*list(seq))

    def any(self, seq):
        return lor(*list(seq))

    def eqs(self, a, b, tol=1e-6):
        """arrays (or scalars) equal: same shape and entrywise equal up to tol"""
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        a = a.reshape(-1) if a.ndim else [a[()]]
        b = b.reshape(-1) if b.ndim else [b[()]]
        return land(*[self.eq(x, y, tol) for x, y in zip(a, b)])

    def eqv(self, a, b, tol=1e-6):
        """same entries irrespective of shape"""
        a, b = np.asarray(a), np.asarray(b)
        if a.size != b.size:
            return False
        return self.eqs(a.reshape(-1), b.reshape(-1), tol)

    def numbers(self, text):
        """the numbers in a text, in order"""
        import re
        out = []
        for t in re.findall(r'#S\d+#|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?inf|nan', text):
            out.append(self.e.tokens[t] if t.startswith('#S') else np.float64(t))
        return out

    def raises(self, exc, f, /, *a, **k):
        try:
            f(*a, **k)
        except exc as e:
            return e
        return None


class SymCtx(_Base):
    sym = True

    def __init__(self, eng):
        super().__init__()
        self.e = eng
        self.notes = []

    def _in(self, name, t, k):
        if name in self.e.inputs:
            raise RuntimeError('duplicate input ' + name)
        s = Sym(t, k)
        self.e.inputs[name] = s
        self.e.input_order.append(name)
        return s

    def real(self, name, lo=None, hi=None):
        import z3
        s = self._in(name, core.z3.Real(name), 'R')
        self._range(s, lo, hi)
        return s

    def _range(self, s, lo, hi):
        cs = []
        if lo is not None:
            cs.append(s >= lo)
        if hi is not None:
            cs.append(s <= hi)
        if cs:
            self.e.assume(land(*cs))

    def int(self, name, lo=None, hi=None):
        s = self._in(name, core.z3.Int(name), 'I')
        self._range(s, lo, hi)
        return s

    def bool(self, name):
        return self._in(name, core.z3.Bool(name), 'B')

    def fp(self, name):
        return self._in(name, core.z3.FP(name, core.FP), 'F')

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.e.concretise_int(i)]

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = land(*[core.boolify(x) for x in c.reshape(-1)])
        self.e.assume(c)

    def check(self, label, c):
        if isinstance(c, np.ndarray):
            c = land(*[core.boolify(x) for x in c.reshape(-1)])
        if c is None:
            c = False
        if core.is_bool(c):
            c = bool(c)
        return self.e.refute(label, c)

    def arr(self, o):
        return sarray.mk(o)

    def eq(self, a, b, tol=1e-6):
        if isinstance(a, np.ndarray) and a.size == 1:
            a = a.reshape(-1)[0]
        if isinstance(b, np.ndarray) and b.size == 1:
            b = b.reshape(-1)[0]
        if not S(a) and not S(b):
            return conc_eq(a, b, tol)
        if core.kindof(a) == 'F' or core.kindof(b) == 'F':
            return a == b
        if core.inf_of(a) or core.inf_of(b):
            return a == b
        if core.kindof(a) in 'IB' and core.kindof(b) in 'IB':
            return a == b
        d = core.z3.simplify(core.term(a, 'R') - core.term(b, 'R'), som=True)
        if core.z3.is_rational_value(d):
            return abs(d.numerator_as_long()) <= tol * d.denominator_as_long()
        if tol == 0:
            return core.mkbool(d == 0)
        # exact equality is the easier query; tolerance covers rounding of float constants
        e = self.e
        if e.ratzero(d):
            return True
        e.solver.set('timeout', min(3000, e.timeout_ms))
        r = e.check(d != 0)
        e.solver.set('timeout', e.timeout_ms)
        if r == core.z3.unsat:
            return True
        t = core.rv(tol)
        c = core.z3.And(d <= t, d >= -t)
        bt = core.term(b, 'R')
        w = core.rv(1e-3) * (1 + core.z3.If(bt >= 0, bt, -bt))
        e.margins[c.get_id()] = (c, core.z3.And(d <= w, d >= -w))
        return core.mkbool(c)

    def near(self, a, b, tol=1e-4):
        return self.eq(a, b)

    def diff(self, val, var):
        """partial derivative of a symbolic value with respect to an input"""
        if not S(val):
            return np.float64(0.0)
        return Sym(self.e.diff(core.term(val, 'R'), var.t), 'R')

    def grad(self, f, x, name=None):
        """partial derivatives of the scalar f at the vector x of inputs"""
        v = f(x)
        v = v.reshape(-1)[0] if isinstance(v, np.ndarray) else v
        return [self.diff(v, xi) for xi in x]

    def canonical(self):
        """compare rational terms by their normal form before asking the solver"""
        self.e.canonical = True

    def root2(self):
        """the exact square root of two (where the code uses the floating-point number for it)"""
        if self.e.root2 is None:
            self.e.root2 = self.e.root(2)
        return self.e.root2

    def implied(self, c):
        """is c implied by the path condition (does not fork)"""
        if not S(c):
            return bool(c)
        return self.e.check(core.z3.Not(core.truth(c))) == core.z3.unsat


def conc_eq(a, b, tol):
    try:
        if a != a or b != b:
            return bool(a != a and b != b)
        if math.isinf(a) or math.isinf(b):
            return bool(a == b)
        return bool(abs(a - b) <= tol * (1 + abs(b)))
    except TypeError:
        return a == b


class ConcCtx(_Base):
    sym = False

    def __init__(self, values):
        super().__init__()
        self.values = values
        self.failed = []
        self.passed = 0
        self.notes = []
        self.seen = set()

    def _get(self, name, default):
        return self.values.get(name, default)

    def real(self, name, lo=None, hi=None):
        v = float(self._get(name, 0.0 if lo is None else lo))
        if lo is not None and not S(lo) and v < lo:
            v = float(lo)
        if hi is not None and not S(hi) and v > hi:
            v = float(hi)
        return np.float64(v)

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self._get(name, False))

    def fp(self, name):
        return np.float64(self._get(name, 0.0))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, 0))]

    def assume(self, c):
        if not np.all(c):
            raise ReplayInvalid()

    def check(self, label, c):
        self.seen.add(label)
        c = bool(np.all(c)) if c is not None else False
        if c:
            self.passed += 1
        else:
            self.failed.append(label)
        return c

    def arr(self, o):
        return np.array(o, dtype=float)

    def eq(self, a, b, tol=1e-6):
        if isinstance(a, np.ndarray):
            a = a.reshape(-1)[0] if a.size == 1 else a
        if isinstance(b, np.ndarray):
            b = b.reshape(-1)[0] if b.size == 1 else b
        return conc_eq(a, b, max(tol, 1e-9))

    def grad(self, f, x, h=1e-5):
        out = []
        x = np.array(x, dtype=float)
        for i in range(len(x)):
            hp = h * max(1.0, abs(x[i]))
            a, b = x.copy(), x.copy()
            a[i] += hp
            b[i] -= hp
            va, vb = float(np.asarray(f(a)).reshape(-1)[0]), float(np.asarray(f(b)).reshape(-1)[0])
            out.append((va - vb) / (2 * hp))
        return out

    def near(self, a, b, tol=1e-4):
        """equality of a closed form with a finite difference"""
        return conc_eq(float(a), float(b), tol)

    def canonical(self):
        pass

    def root2(self):
        return np.float64(math.sqrt(2.0))

    def implied(self, c):
        return bool(c)
