"""Patches numpy's array constructors (and tuple/float in GPyOpt's modules) while code runs on symbolic values."""
import sys, math
import numpy as np
from . import core, sarray
from .core import Sym, S

PREFIXES = ('GPyOpt', 'checks', 'symx.env')
_tuple, _float = tuple, float


class _HMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _tuple)

    def __subclasscheck__(cls, o):
        return issubclass(o, _tuple)

    def __eq__(cls, o):
        return o is cls or o is _tuple

    def __hash__(cls):
        return hash(_tuple)


class HTuple(_tuple, metaclass=_HMeta):
    """tuple with a constant hash, so that sets of tuples compare their (symbolic) entries by =="""
    _real_type_ = _tuple

    def __hash__(self):
        return 11

    def __eq__(self, o):
        if not isinstance(o, _tuple):
            return False
        if len(self) != len(o):
            return False
        r = True
        for a, b in zip(self, o):
            r = core.land(r, core.boolify(a == b))
        return bool(r)

    def __ne__(self, o):
        return not self.__eq__(o)


class _FMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _float) or (S(o) and o.k in 'RF')

    def __call__(cls, v=0.0):
        if isinstance(v, np.ndarray) and v.size == 1:
            v = v.reshape(-1)[0]
        if S(v):
            return core.convert_dtype(v, np.float64)
        return _float(v)

    def __eq__(cls, o):
        return o is cls or o is _float

    def __hash__(cls):
        return hash(_float)


class SFloat(metaclass=_FMeta):
    _real_type_ = _float
    dtype = np.dtype(np.float64)


def _kind(dtype):
    if dtype is None:
        return 'f'
    if dtype is SFloat:
        return 'f'
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return 'O'


def _caller():
    g = sys._getframe(2).f_globals.get('__name__', '')
    return g.startswith(PREFIXES)


class Lift(object):
    """context manager"""

    def __init__(self):
        self.saved = []

    def set(self, obj, name, val):
        missing = object()
        d = obj.__dict__ if hasattr(obj, '__dict__') else {}
        old = d.get(name, missing)
        self.saved.append((obj, name, old, missing))
        setattr(obj, name, val)

    def __enter__(self):
        sarray.register_scipy()
        self._numpy()
        self._math()
        self._stats()
        for nm, m in list(sys.modules.items()):
            if nm.startswith('GPyOpt') and m is not None:
                self.set(m, 'tuple', HTuple)
                self.set(m, 'float', SFloat)
                self._from_imports(m)
        return self

    def __exit__(self, *a):
        for obj, name, old, missing in reversed(self.saved):
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.saved = []
        return False

    def _from_imports(self, m):
        """functions imported by name into a GPyOpt module (from numpy import zeros)"""
        for name, v in list(m.__dict__.items()):
            try:
                r = self.replaced.get(v)
            except TypeError:
                continue
            if r is not None:
                self.set(m, name, r)

    def _np(self, name, fn, mod=np):
        orig = getattr(mod, name)
        fn.__name__ = name
        fn._orig = orig
        try:
            self.replaced[orig] = fn
        except TypeError:
            pass
        self.set(mod, name, fn)

    def _math(self):
        for name, f in (('sqrt', core.sqrt), ('exp', core.exp), ('log', core.log), ('sin', core.sin), ('cos', core.cos), ('floor', lambda v: int(core.floor(v))),
                        ('ceil', lambda v: int(core.ceil(v))), ('erfc', core.erfc), ('erf', core.erf),
                        ('isnan', core.isnan), ('isinf', core.isinf), ('fabs', core.absv)):
            orig = getattr(math, name)

            def w(v, *a, _o=orig, _f=f):
                if isinstance(v, np.ndarray) and v.size == 1:
                    v = v.reshape(-1)[0]
                if S(v):
                    return _f(v)
                return _o(v, *a)
            self._np(name, w, math)

    def _stats(self):
        from scipy.stats import norm
        root2pi = math.sqrt(2 * math.pi)
        fs = dict(cdf=core.ncdf, pdf=lambda z: core.arith('/', core.exp(core.arith('*', -0.5, core.arith('*', z, z))), root2pi),
                  logcdf=lambda z: core.log(core.ncdf(z)), sf=lambda z: core.ncdf(core.neg(z)),
                  logpdf=lambda z: core.arith('-', core.arith('*', -0.5, core.arith('*', z, z)), math.log(root2pi)))
        for name, f in fs.items():
            orig = getattr(norm, name)

            def w(x, loc=0, scale=1, _o=orig, _f=f, _n=name):
                if sarray.contains_sym(x) or sarray.contains_sym(loc) or sarray.contains_sym(scale):
                    z = (np.asarray(x, dtype=object) - loc)
                    z = np.asarray(np.true_divide(sarray.mk(z), scale))
                    r = sarray.elementwise1(_f, z) if z.ndim else _f(z[()])
                    if _n == 'pdf' and not (isinstance(scale, int) and scale == 1):
                        r = r / scale
                    return r
                return _o(x, loc, scale)
            self.set(norm, name, w)

    def _numpy(self):
        self.replaced = {}
        o = {n: getattr(np, n) for n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'zeros', 'ones', 'empty',
                                         'full', 'eye', 'identity', 'linspace', 'atleast_1d', 'atleast_2d', 'vstack',
                                         'hstack', 'concatenate', 'column_stack', 'stack', 'isscalar', 'tile', 'repeat', 'row_stack',
                                         'append', 'insert', 'asarray_chkfinite', 'expand_dims', 'squeeze', 'reshape',
                                         'ravel', 'transpose', 'meshgrid', 'fromiter')}

        def strip(dt):
            return getattr(dt, '_real_type_', dt)

        def array(obj, dtype=None, *a, **k):
            if sarray.contains_sym(obj):
                r = sarray.mk(obj)
                if dtype is not None:
                    r = sarray.astype(r, strip(dtype))
                nd = k.get('ndmin', 0)
                while isinstance(r, np.ndarray) and r.ndim < nd:
                    r = r[None]
                return r
            return o['array'](obj, strip(dtype), *a, **k)

        def asarray(obj, dtype=None, *a, **k):
            if sarray.contains_sym(obj):
                r = obj if isinstance(obj, sarray.SArray) else sarray.mk(obj)
                if dtype is not None:
                    r = sarray.astype(r, strip(dtype))
                return r
            return o['asarray'](obj, strip(dtype), *a, **k)

        self._np('array', array)
        self._np('asarray', asarray)
        self._np('asanyarray', lambda obj, dtype=None, *a, **k: asarray(obj, dtype, *a, **k) if sarray.contains_sym(obj) else o['asanyarray'](obj, strip(dtype), *a, **k))
        self._np('ascontiguousarray', lambda obj, dtype=None, **k: asarray(obj, dtype) if sarray.contains_sym(obj) else o['ascontiguousarray'](obj, strip(dtype), **k))

        def mkctor(name, val):
            orig = o[name]

            def ctor(shape, dtype=None, *a, **k):
                if _caller() and _kind(dtype) == 'f':
                    if S(shape):
                        shape = shape.__index__()
                    elif isinstance(shape, (list, _tuple)):
                        shape = _tuple(s.__index__() if S(s) else s for s in shape)
                    return sarray.full(shape, np.float64(val))
                return orig(shape, *([strip(dtype)] if dtype is not None else []), *a, **k)
            return ctor
        self._np('zeros', mkctor('zeros', 0.0))
        self._np('ones', mkctor('ones', 1.0))
        self._np('empty', mkctor('empty', 0.0))

        def full(shape, fill_value, dtype=None, *a, **k):
            v = fill_value
            if (S(v) or _caller()) and _kind(dtype) == 'f' and not isinstance(v, (str, bool)):
                return sarray.full(shape, v)
            return o['full'](shape, v, strip(dtype), *a, **k)
        self._np('full', full)

        def eye(n, m=None, k=0, dtype=float, **kw):
            if _caller() and _kind(dtype) == 'f':
                return sarray.mk(o['eye'](n, m, k))
            return o['eye'](n, m, k, strip(dtype), **kw)
        self._np('eye', eye)
        self._np('identity', lambda n, dtype=None, **k: sarray.mk(o['identity'](n)) if _caller() else o['identity'](n, strip(dtype), **k))

        def linspace(a, b, num=50, endpoint=True, *r, **k):
            if sarray.contains_sym(a) or sarray.contains_sym(b):
                num = int(num)
                div = (num - 1) if endpoint else num
                out = sarray.full((num,), 0.0)
                for i in range(num):
                    out[i] = b if (endpoint and i == num - 1 and num > 1) else a + (b - a) * np.float64(i) / div if div else a
                return out
            return o['linspace'](a, b, num, endpoint, *r, **k)
        self._np('linspace', linspace)

        def wrapres(name):
            orig = o[name]

            def w(*a, **k):
                a = _tuple(_prep(x) for x in a)
                r = orig(*a, **k)
                return _post(r)
            return w

        def _prep(x):
            if S(x):
                return sarray.mk(x) if False else x
            return x

        def _post(r):
            if isinstance(r, list):
                return [_post(x) for x in r]
            if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, sarray.SArray) and sarray.contains_sym(r):
                return sarray.mk(r)
            return r
        for n in ('vstack', 'hstack', 'concatenate', 'column_stack', 'stack', 'tile', 'repeat', 'append', 'insert', 'row_stack',
                  'expand_dims', 'squeeze', 'reshape', 'ravel', 'transpose', 'meshgrid'):
            self._np(n, wrapres(n))

        def atl(n):
            orig = o['atleast_%dd' % n]

            def w(*xs):
                if len(xs) == 1 and sarray.contains_sym(xs[0]):
                    x = xs[0] if isinstance(xs[0], sarray.SArray) else sarray.mk(xs[0])
                    if x.ndim == 0 or not isinstance(x, np.ndarray):
                        x = sarray.mk([x if S(x) else x[()]])
                    while x.ndim < n:
                        x = x[None]
                    return x
                return orig(*xs)
            return w
        self._np('atleast_1d', atl(1))
        self._np('atleast_2d', atl(2))
        self._np('isscalar', lambda v: True if S(v) else o['isscalar'](v))
        # element-wise functions called on plain object arrays / lists containing symbols
        for name in ('isnan', 'isinf', 'isfinite', 'sqrt', 'exp', 'log', 'sin', 'cos', 'rint', 'floor', 'ceil'):
            orig = getattr(np, name)

            class U(object):
                def __init__(self, u):
                    self.u = u

                def __call__(self, x, *a, **k):
                    if isinstance(x, (list, _tuple)) and sarray.contains_sym(x):
                        x = sarray.mk(x)
                    elif isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, sarray.SArray):
                        x = sarray.mk(x)
                    return self.u(x, *a, **k)

                def __getattr__(self, n):
                    return getattr(self.u, n)
            w = U(orig)
            self.replaced[orig] = w
            self.set(np, name, w)
