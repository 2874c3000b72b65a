"""numpy object arrays of symbolic values: ndarray subclass whose ufuncs work elementwise on `Sym`."""
import math
import numpy as np
from . import core
from .core import Sym, S, Unsupported

_array = core._np_array
_empty = core._np_empty


class SArray(np.ndarray):
    __array_priority__ = 100.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func)
        if h is not None:
            r = h(*args, **kwargs)
            if r is not NotImplemented:
                return r
        return super().__array_function__(func, [t for t in types if issubclass(t, np.ndarray)], args, kwargs)

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        return astype(self, dtype)

    def __getitem__(self, idx):
        r = super().__getitem__(fix_index(idx))
        return r

    def __setitem__(self, idx, val):
        idx = fix_index(idx)
        if isinstance(val, np.ndarray) and val.dtype == object and val.ndim == 0:
            val = val[()]
        if isinstance(val, np.ndarray) and val.size == 1 and self.dtype == object:
            # numpy would store the scalar for float arrays
            try:
                tgt = super().__getitem__(idx)
            except Exception:
                tgt = None
            if not isinstance(tgt, np.ndarray):
                val = val.reshape(-1)[0]
        super().__setitem__(idx, val)

    def __float__(self):
        if self.size == 1:
            return float(self.reshape(-1).view(np.ndarray)[0])
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __str__(self):
        return _f_str(self)

    __repr__ = __str__

    def __format__(self, spec):
        return _f_str(self)

    def tolist(self):
        return np.ndarray.tolist(self)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        n = self.size if axis is None else _axlen(self, axis)
        return np.add.reduce(self, axis=_fixaxis(axis), keepdims=keepdims) / np.float64(n)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        n = self.size if axis is None else _axlen(self, axis)
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        return np.add.reduce(d * d, axis=_fixaxis(axis), keepdims=keepdims) / np.float64(n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return np.sqrt(self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return np.minimum.reduce(self, axis=_fixaxis(axis), keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return np.maximum.reduce(self, axis=_fixaxis(axis), keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return np.logical_or.reduce(self, axis=_fixaxis(axis), keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return np.logical_and.reduce(self, axis=_fixaxis(axis), keepdims=keepdims)

    def argmin(self, axis=None, out=None, **kw):
        return argext(self, axis, '<')

    def argmax(self, axis=None, out=None, **kw):
        return argext(self, axis, '>')

    def clip(self, min=None, max=None, out=None, **kw):
        return np_clip(self, min, max)

    def round(self, decimals=0, out=None):
        if decimals != 0:
            raise Unsupported('round to decimals')
        return np.rint(self)


def _fixaxis(a):
    return a


def _axlen(arr, axis):
    if isinstance(axis, tuple):
        n = 1
        for a in axis:
            n *= arr.shape[a]
        return n
    return arr.shape[axis]


def fix_index(idx):
    if isinstance(idx, tuple):
        if any(_needs(i) for i in idx):
            return tuple(_conc_index(i) for i in idx)
        return idx
    if _needs(idx):
        return _conc_index(idx)
    return idx


def _needs(i):
    if isinstance(i, Sym):
        return True
    if isinstance(i, np.ndarray) and i.dtype == object:
        return True
    if isinstance(i, slice):
        return S(i.start) or S(i.stop) or S(i.step)
    if isinstance(i, list):
        return any(S(x) or isinstance(x, np.bool_) for x in i)
    return False


def _conc_index(i):
    if isinstance(i, Sym):
        if i.k == 'B':
            return bool(i)
        return i.__index__()
    if isinstance(i, slice):
        f = lambda v: v.__index__() if S(v) else v
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, list):
        i = mk(i)
    if isinstance(i, np.ndarray) and i.dtype == object:
        flat = list(i.reshape(-1).view(np.ndarray))
        if all((S(x) and x.k == 'B') or core.is_bool(x) for x in flat) and flat:
            out = _array([bool(x) for x in flat], dtype=bool)
        else:
            vals = []
            for x in flat:
                if S(x):
                    if x.k not in 'IB':
                        raise IndexError('arrays used as indices must be of integer (or boolean) type')
                    vals.append(x.__index__())
                else:
                    if not isinstance(x, (int, np.integer)):
                        raise IndexError('arrays used as indices must be of integer (or boolean) type')
                    vals.append(int(x))
            out = _array(vals, dtype=int)
        return out.reshape(i.shape)
    return i


def box(v):
    """concrete numbers stored in object arrays keep numpy scalar semantics (division by zero, methods)"""
    if isinstance(v, Sym):
        return v
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, float):
        return np.float64(v)
    if type(v) is int:
        return np.int64(v) if -2 ** 62 < v < 2 ** 62 else v
    return v


def contains_sym(o, depth=0):
    if isinstance(o, Sym):
        return True
    if isinstance(o, np.ndarray):
        if o.dtype != object:
            return False
        return isinstance(o, SArray) or any(contains_sym(x, depth + 1) for x in o.reshape(-1))
    if isinstance(o, (list, tuple)) and depth < 6:
        return any(contains_sym(x, depth + 1) for x in o)
    return False


def mk(o, copy=True):
    """SArray of a nested list / array"""
    if isinstance(o, SArray):
        return o.copy() if copy else o
    a = _array(o, dtype=object)
    out = _empty(a.shape, dtype=object)
    if a.ndim == 0:
        out[()] = box(a[()])
    else:
        f = out.reshape(-1)
        src = a.reshape(-1)
        for i in range(src.size):
            v = src[i]
            if isinstance(v, np.ndarray) and v.size == 1:
                v = v.reshape(-1)[0]
            f[i] = box(v)
        out = f.reshape(a.shape)
    return out.view(SArray)


def finish(a, wantbool=True):
    """SArray result; all-concrete boolean arrays become native"""
    if a.ndim == 0:
        return a[()]
    flat = a.reshape(-1)
    if wantbool and flat.size and all(core.is_bool(x) for x in flat):
        return _array([bool(x) for x in flat], dtype=bool).reshape(a.shape)
    return a.view(SArray)


def elementwise1(f, a):
    a = a.view(np.ndarray) if isinstance(a, np.ndarray) else a
    if not isinstance(a, np.ndarray):
        return f(a)
    out = _empty(a.shape, dtype=object)
    o = out.reshape(-1)
    src = a.reshape(-1)
    for i in range(src.size):
        o[i] = f(src[i])
    out = o.reshape(a.shape)
    return finish(out)


def elementwise2(f, a, b):
    aa, bb = _asobj(a), _asobj(b)
    bc = core._np_broadcast(aa, bb)
    out = _empty(bc.shape, dtype=object)
    o = out.reshape(-1)
    for i, (x, y) in enumerate(bc):
        o[i] = f(x, y)
    out = o.reshape(bc.shape)
    return finish(out)


def _asobj(a):
    if isinstance(a, np.ndarray):
        a = a.view(np.ndarray)
        if a.dtype != object:
            b = _empty(a.shape, dtype=object)
            if a.ndim == 0:
                b[()] = a[()]
            else:
                bf = b.reshape(-1)
                af = a.reshape(-1)
                for i in range(af.size):
                    bf[i] = af[i]
                b = bf.reshape(a.shape)
            return b
        return a
    if isinstance(a, (list, tuple)):
        return _array(a, dtype=object)
    r = _empty((), dtype=object)
    r[()] = a
    return r


def _div(x, y):
    return core.arith('/', x, y)


def _sign(x):
    if not S(x):
        return np.sign(x)
    return core.ite(x > 0, np.float64(1.0), core.ite(x < 0, np.float64(-1.0), np.float64(0.0)))


def _logical(op):
    if op == 'and':
        return lambda x, y: core.land(core.boolify(x), core.boolify(y))
    return lambda x, y: core.lor(core.boolify(x), core.boolify(y))


def _bitand(x, y):
    if S(x) and x.k == 'B' or S(y) and y.k == 'B':
        return core.land(x, y)
    return x & y


def _bitor(x, y):
    if S(x) and x.k == 'B' or S(y) and y.k == 'B':
        return core.lor(x, y)
    return x | y


U1 = {
    np.negative: core.neg, np.positive: lambda x: x, np.absolute: core.absv, np.fabs: core.absv,
    np.sqrt: core.sqrt, np.exp: core.exp, np.log: core.log,
    np.square: lambda x: core.arith('*', x, x), np.reciprocal: lambda x: core.arith('/', 1.0, x),
    np.rint: core.rint, np.floor: core.floor, np.ceil: core.ceil, np.sign: _sign,
    np.trunc: lambda x: core.ite(x >= 0, core.floor(x), core.ceil(x)) if S(x) else np.trunc(x),
    np.isnan: core.isnan, np.isinf: core.isinf, np.signbit: lambda x: core.compare('<', x, 0.0) if S(x) else np.signbit(x),
    np.isfinite: lambda x: core.lnot(core.lor(core.isnan(x), core.isinf(x))),
    np.logical_not: lambda x: core.lnot(core.boolify(x)),
    np.invert: lambda x: ~x if S(x) else (not x if core.is_bool(x) else ~x),
    np.conjugate: lambda x: x,
    np.expm1: lambda x: core.arith('-', core.exp(x), 1.0),
    np.log1p: lambda x: core.log(core.arith('+', x, 1.0)),
    np.log10: lambda x: core.arith('/', core.log(x), math.log(10.0)) if S(x) else np.log10(x),
    np.log2: lambda x: core.arith('/', core.log(x), math.log(2.0)) if S(x) else np.log2(x),
    np.sin: core.sin, np.cos: core.cos, np.tan: core.tan,
    np.exp2: lambda x: core.exp(core.arith('*', x, math.log(2.0))),
}
U2 = {
    np.add: lambda x, y: core.arith('+', x, y), np.subtract: lambda x, y: core.arith('-', x, y),
    np.multiply: lambda x, y: core.arith('*', x, y), np.true_divide: _div,
    np.floor_divide: lambda x, y: core.arith('//', x, y), np.remainder: lambda x, y: core.arith('%', x, y),
    np.power: lambda x, y: core.arith('**', x, y), np.float_power: lambda x, y: core.arith('**', x, y),
    np.minimum: core.vmin, np.maximum: core.vmax, np.fmin: core.vmin, np.fmax: core.vmax,
    np.less: lambda x, y: core.compare('<', x, y), np.less_equal: lambda x, y: core.compare('<=', x, y),
    np.greater: lambda x, y: core.compare('>', x, y), np.greater_equal: lambda x, y: core.compare('>=', x, y),
    np.equal: lambda x, y: core.compare('==', x, y), np.not_equal: lambda x, y: core.compare('!=', x, y),
    np.logical_and: _logical('and'), np.logical_or: _logical('or'),
    np.logical_xor: lambda x, y: core.compare('!=', core.boolify(x), core.boolify(y)),
    np.bitwise_and: _bitand, np.bitwise_or: _bitor,
    np.bitwise_xor: lambda x, y: x ^ y,
    np.hypot: lambda x, y: core.sqrt(x * x + y * y),
}
NEED_BOOL_OUT = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal}
IDENT = {np.add: np.float64(0.0), np.multiply: np.float64(1.0), np.logical_and: True, np.logical_or: False}


def register_scipy():
    import scipy.special as sp
    U1[sp.erfc] = core.erfc
    U1[sp.erf] = core.erf
    U1[sp.ndtr] = core.ncdf
    U1[sp.log_ndtr] = lambda x: core.log(core.ncdf(x))
    if hasattr(sp, 'log1p'):
        U1[sp.log1p] = U1[np.log1p]
        U1[sp.expm1] = U1[np.expm1]


def handle_ufunc(ufunc, method, inputs, kw):
    out = kw.pop('out', None)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('subok', None)
    kw.pop('order', None)
    where = kw.pop('where', True)
    if method == '__call__':
        ins = []
        for v in inputs:
            v = v.view(np.ndarray) if isinstance(v, SArray) else v
            if isinstance(v, np.ndarray) and v.ndim == 0:
                v = v[()]
            ins.append(v)
        if where is not True:
            raise Unsupported('ufunc where=')
        if kw:
            raise Unsupported('ufunc kwargs %s' % list(kw))
        if len(ins) == 1 and ufunc in U1:
            res = elementwise1(U1[ufunc], ins[0])
        elif len(ins) == 2 and ufunc in U2:
            f = U2[ufunc]
            if not any(isinstance(v, (np.ndarray, list, tuple)) for v in ins):
                if not all(isinstance(v, Sym) or core.is_num(v) for v in ins):
                    # comparison with None / str ...
                    if ufunc is np.equal:
                        return False
                    if ufunc is np.not_equal:
                        return True
                    raise TypeError('unsupported operand type(s) for %s' % ufunc.__name__)
                res = f(ins[0], ins[1])
            else:
                res = elementwise2(f, ins[0], ins[1])
        elif ufunc is np.matmul:
            res = matmul(ins[0], ins[1])
        elif ufunc is np.modf or ufunc is np.divmod:
            raise Unsupported(ufunc.__name__)
        else:
            raise Unsupported('ufunc %s' % ufunc.__name__)
        if out is not None:
            o = out[0]
            if isinstance(o, np.ndarray):
                if o.dtype != object:
                    if any(S(x) for x in np.ravel(_asobj(res))):
                        raise Unsupported('in-place store of symbolic values in a native array')
                o[...] = res
                return o
        return res
    if method == 'reduce':
        a = inputs[0]
        axis = kw.pop('axis', 0)
        keepdims = kw.pop('keepdims', False)
        initial = kw.pop('initial', None)
        if initial is np._NoValue:
            initial = None
        if where is not True:
            raise Unsupported('reduce where=')
        return reduce(ufunc, a, axis, keepdims, initial)
    if method == 'accumulate':
        a = _asobj(inputs[0])
        axis = kw.pop('axis', 0)
        f = U2[ufunc]
        out_ = a.copy()
        m = np.moveaxis(out_, axis, 0)
        for i in range(1, m.shape[0]):
            m[i] = _asobj(elementwise2(f, m[i - 1], m[i])) if m.ndim > 1 else f(m[i - 1], m[i])
        return out_.view(SArray)
    if method == 'outer':
        a, b = _asobj(inputs[0]), _asobj(inputs[1])
        return elementwise2(U2[ufunc], a.reshape(a.shape + (1,) * b.ndim), b)
    raise Unsupported('ufunc method %s.%s' % (ufunc.__name__, method))


def reduce(ufunc, a, axis, keepdims=False, initial=None):
    a = _asobj(a)
    f = U2[ufunc]
    if a.ndim == 0:
        return a[()]
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        if not -a.ndim <= axis < a.ndim:
            raise np.AxisError(axis, a.ndim)
        axes = (axis % a.ndim,)
    rest = tuple(i for i in range(a.ndim) if i not in axes)
    t = a.transpose(axes + rest)
    n = 1
    for x in axes:
        n *= a.shape[x]
    rs = tuple(a.shape[i] for i in rest)
    t = t.reshape((n,) + rs)
    out = _empty(rs, dtype=object)
    of = out.reshape(-1)
    tf = t.reshape(n, -1)
    for j in range(tf.shape[1] if n else of.size):
        if n == 0:
            if initial is not None:
                acc = initial
            elif ufunc in IDENT:
                acc = IDENT[ufunc]
            else:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % ufunc.__name__)
        else:
            acc = tf[0, j]
            if initial is not None:
                acc = f(initial, acc)
            if ufunc in (np.logical_and, np.logical_or):
                acc = core.boolify(acc)
            for i in range(1, n):
                acc = f(acc, tf[i, j])
            if ufunc is np.add and core.is_bool(acc):
                acc = int(acc)
        of[j] = acc
    out = of.reshape(rs)
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    return finish(out) if out.ndim else out[()]


def matmul(a, b):
    a, b = _asobj(a), _asobj(b)
    return dot(a, b)


def dot(a, b, out=None):
    a, b = _asobj(a), _asobj(b)
    if a.ndim == 0 or b.ndim == 0:
        return handle_ufunc(np.multiply, '__call__', (a, b), {})
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('dot of >2d arrays')
    A = a.reshape(1, -1) if a.ndim == 1 else a
    B = b.reshape(-1, 1) if b.ndim == 1 else b
    if A.shape[1] != B.shape[0]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    out = _empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            acc = np.float64(0.0)
            for k in range(A.shape[1]):
                acc = core.arith('+', acc, core.arith('*', A[i, k], B[k, j]))
            out[i, j] = acc
    if a.ndim == 1 and b.ndim == 1:
        return out[0, 0]
    if a.ndim == 1:
        out = out[0]
    elif b.ndim == 1:
        out = out[:, 0]
    return out.view(SArray)


def astype(a, dt):
    try:
        d = np.dtype(dt)
    except TypeError:
        d = np.dtype(getattr(dt, '_real_type_', object))
    if a.dtype != object:
        return np.ndarray.astype(a.view(np.ndarray), d)
    flat = [core.convert_dtype(x, d) for x in a.reshape(-1).view(np.ndarray)]
    if not any(S(x) for x in flat) and d.kind in 'iub':
        return _array(flat, dtype=d).reshape(a.shape)
    out = _empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        out[i] = x
    return out.reshape(a.shape).view(SArray)


# ---- numpy functions which do not go through ufuncs ------------------------------------------
FUNCS = {}


def implements(*fs):
    def dec(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return dec


@implements(np.dot)
def _f_dot(a, b, out=None):
    return dot(a, b)


@implements(np.inner)
def _f_inner(a, b):
    b = _asobj(b)
    return dot(a, b.T if b.ndim == 2 else b)


@implements(np.einsum)
def _f_einsum(spec, *ops, **kw):
    return mk(np.einsum(spec, *[np.asarray(_asobj(o)).view(np.ndarray) for o in ops]))


def _eliminate(A, B):
    """solution of A Z = B by elimination; a pivot which may be zero forks the path"""
    n = len(A)
    A, B = [list(r) for r in A], [list(r) for r in B]
    for k in range(n):
        p = next((i for i in range(k, n) if core.compare('!=', A[i][k], 0.0)), None)
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        A[k], A[p], B[k], B[p] = A[p], A[k], B[p], B[k]
        for i in range(n):
            if i != k:
                f = core.arith('/', A[i][k], A[k][k])
                A[i] = [core.arith('-', a, core.arith('*', f, b)) for a, b in zip(A[i], A[k])]
                B[i] = [core.arith('-', a, core.arith('*', f, b)) for a, b in zip(B[i], B[k])]
    return [[core.arith('/', b, A[k][k]) for b in B[k]] for k in range(n)]


def _square(a):
    a = _asobj(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    return a


@implements(np.linalg.solve)
def _f_solve(a, b):
    a, b = _square(a), _asobj(b)
    r = _eliminate(a, b.reshape(-1, 1) if b.ndim == 1 else b)
    return mk([x[0] for x in r]) if b.ndim == 1 else mk(r).reshape(b.shape)


@implements(np.linalg.inv)
def _f_inv(a):
    a = _square(a)
    return mk(_eliminate(a, np.eye(len(a)).tolist())).reshape(a.shape)


@implements(np.linalg.cholesky)
def _f_cholesky(a):
    a = _square(a)
    n = len(a)
    L = [[np.float64(0.0)] * n for _ in range(n)]
    for j in range(n):
        d = a[j, j]
        for k in range(j):
            d = core.arith('-', d, core.arith('*', L[j][k], L[j][k]))
        if core.compare('<=', d, 0.0):
            raise np.linalg.LinAlgError('Matrix is not positive definite')
        L[j][j] = core.sqrt(d)
        for i in range(j + 1, n):
            v = a[i, j]
            for k in range(j):
                v = core.arith('-', v, core.arith('*', L[i][k], L[j][k]))
            L[i][j] = core.arith('/', v, L[j][j])
    return mk(L).reshape(a.shape)


@implements(np.where)
def _f_where(c, *xy):
    if not xy:
        c = _conc_index(c) if isinstance(c, np.ndarray) and c.dtype == object else c
        if isinstance(c, np.ndarray):
            c = c.view(np.ndarray)
        return np.ndarray.nonzero(c)
    x, y = _asobj(xy[0]), _asobj(xy[1])
    c = _asobj(c)
    bc = core._np_broadcast(c, x, y)
    out = _empty(bc.shape, dtype=object)
    o = out.reshape(-1)
    for i, (cc, xx, yy) in enumerate(bc):
        o[i] = core.ite(core.boolify(cc), xx, yy)
    return finish(o.reshape(bc.shape))


@implements(np.nonzero)
def _f_nonzero(a):
    c = a.reshape(-1).view(np.ndarray)
    m = _array([bool(core.boolify(x)) for x in c], dtype=bool).reshape(a.shape)
    return m.nonzero()


@implements(np.clip)
def np_clip(a, a_min=None, a_max=None, out=None, **kw):
    r = a
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


@implements(np.isclose)
def _f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return np.less_equal(np.absolute(a - b), atol + rtol * np.absolute(b))


@implements(np.allclose)
def _f_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.logical_and.reduce(_f_isclose(mk(a), mk(b), rtol, atol), axis=None))


@implements(np.array_equal)
def _f_array_equal(a, b, equal_nan=False):
    a, b = mk(a), mk(b)
    if a.shape != b.shape:
        return False
    return bool(np.logical_and.reduce(np.equal(a, b), axis=None))


@implements(np.round, np.around)
def _f_round(a, decimals=0, out=None):
    if decimals:
        raise Unsupported('round decimals')
    return np.rint(a)


@implements(np.linalg.norm)
def _f_norm(x, ord=None, axis=None, keepdims=False):
    if ord in (None, 2) and (axis is not None or x.ndim == 1 or ord is None):
        return np.sqrt(np.add.reduce(x * x, axis=axis, keepdims=keepdims))
    if ord == 1 and (axis is not None or x.ndim == 1):
        return np.add.reduce(np.absolute(x), axis=axis, keepdims=keepdims)
    raise Unsupported('norm')


@implements(np.median)
def _f_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = _asobj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = np.sort(a.view(SArray), axis=axis)
    n = b.shape[axis]
    h = n // 2
    if n % 2:
        return np.take(b, h, axis=axis)
    return (np.take(b, h - 1, axis=axis) + np.take(b, h, axis=axis)) / 2.0


@implements(np.zeros_like)
def _f_zeros_like(a, dtype=None, **kw):
    return full(a.shape, np.float64(0.0))


@implements(np.ones_like)
def _f_ones_like(a, dtype=None, **kw):
    return full(a.shape, np.float64(1.0))


@implements(np.full_like)
def _f_full_like(a, v, dtype=None, **kw):
    return full(a.shape, v)


@implements(np.empty_like)
def _f_empty_like(a, dtype=None, **kw):
    return full(a.shape, np.float64(0.0))


@implements(np.nan_to_num)
def _f_nan_to_num(x, **kw):
    return x


@implements(np.isreal)
def _f_isreal(x):
    return np.ones(x.shape, dtype=bool)


@implements(np.array2string, np.array_repr, np.array_str)
def _f_str(a, *k, **kw):
    if a.ndim == 0:
        return str(a[()])
    return '[' + ' '.join(_f_str(x) if isinstance(x, np.ndarray) else str(x) for x in a) + ']'


@implements(np.argwhere)
def _f_argwhere(a):
    return np.transpose(_f_nonzero(a))


@implements(np.count_nonzero)
def _f_cnz(a, axis=None, keepdims=False):
    if axis is None:
        return sum(1 for x in a.reshape(-1).view(np.ndarray) if bool(core.boolify(x)))
    raise Unsupported('count_nonzero axis')


def full(shape, v):
    out = _empty(shape, dtype=object)
    out.fill(box(v))
    return out.view(SArray)


def argext(a, axis, op):
    """index of the first smallest/largest entry, as a symbolic integer"""
    a = _asobj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if a.shape[axis] == 0:
        raise ValueError('attempt to get arg%s of an empty sequence' % ('min' if op == '<' else 'max'))
    t = np.moveaxis(a, axis, -1)
    out = _empty(t.shape[:-1], dtype=object)
    for idx in np.ndindex(*t.shape[:-1]):
        v = t[idx]
        best, k = v[0], np.int64(0)
        for i in range(1, len(v)):
            c = core.compare(op, v[i], best)
            k = core.ite(c, np.int64(i), k)
            best = core.ite(c, v[i], best)
        out[idx] = k
    return out[()] if out.ndim == 0 else finish(out)


@implements(np.argmin)
def _f_argmin(a, axis=None, out=None, **kw):
    return argext(a, axis, '<')


@implements(np.argmax)
def _f_argmax(a, axis=None, out=None, **kw):
    return argext(a, axis, '>')
