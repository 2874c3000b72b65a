"""Environment stubs: random numbers, quasi-random sequences, clocks, numerical optimizers.  Every stub returns an arbitrary
value allowed by the documented contract of the function it replaces (a solver variable), in replays the value of the model."""
import numpy as np
from .core import S, Sym, land, lor, lnot, ite
from . import core


def some(n, idx):
    """a fixed number in [0,1), different for different draws"""
    return ((n * 131 + sum((i + 1) * (389 + 2 * j) for j, i in enumerate(idx))) % 1021) / 1024.0


class Rand(object):
    """np.random"""

    def __init__(self, ctx, tag='rnd', spread=None, few=None, tile=None):
        # few: only the draws whose first index is listed are arbitrary, the others are fixed values of the documented range
        # tile: hundreds of draws at once repeat this many arbitrary ones
        self.few = few
        self.tile = tile
        self.ctx = ctx
        self.tag = tag
        self.n = 0
        self.calls = []
        self.normals = []
        self.spread = spread
        for nm in ('uniform', 'choice', 'randint', 'rand', 'random_sample', 'random', 'randn', 'normal', 'seed', 'permutation', 'shuffle', 'sample', 'ranf', 'random_integers', 'standard_normal'):
            ctx.patch(np.random, nm, getattr(self, nm))

    def _name(self, kind):
        self.n += 1
        return '%s.%s%d' % (self.tag, kind, self.n - 1)

    def _free(self, idx):
        return self.few is None or not idx or idx[0] in self.few

    def _shape(self, size):
        if size is None:
            return None
        if isinstance(size, (list, tuple)):
            return tuple(int(s) for s in size)
        return (int(size),)

    def _fill(self, size, f):
        sh = self._shape(size)
        if sh is None:
            return f(())
        out = np.empty(sh, dtype=object)
        tile = self.tile if self.tile and sh[0] >= 100 else None
        for idx in np.ndindex(*sh):
            out[idx] = out[(idx[0] % tile,) + idx[1:]] if tile and idx[0] >= tile else f(idx)
        return self.ctx.arr(out)

    def uniform(self, low=0.0, high=1.0, size=None):
        self.calls.append('uniform')
        ctx = self.ctx
        if size is None and (isinstance(low, np.ndarray) or isinstance(high, np.ndarray)):
            size = np.broadcast(np.asarray(low), np.asarray(high)).shape
        nm = self._name('u')
        lowa = np.broadcast_to(np.asarray(low, dtype=object), self._shape(size) or ())
        higha = np.broadcast_to(np.asarray(high, dtype=object), self._shape(size) or ())

        def f(idx):
            lo, hi = lowa[idx] if lowa.ndim else lowa[()], higha[idx] if higha.ndim else higha[()]
            if not self._free(idx):
                return lo + (hi - lo) * some(self.n, idx)
            return ctx.real('%s[%s]' % (nm, ','.join(map(str, idx))), lo, hi)
        return self._fill(size, f)

    def _unit(self, size):
        return self.uniform(0.0, 1.0, size)

    def rand(self, *dims):
        return self._unit(dims if dims else None)

    def random_sample(self, size=None):
        return self._unit(size)

    random = sample = ranf = random_sample

    def randint(self, low, high=None, size=None, dtype=int):
        ctx = self.ctx
        self.calls.append('randint')
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError('low >= high')
        nm = self._name('i')
        sh = self._shape(size)
        if sh is None:
            return ctx.int(nm, low, high - 1)
        out = np.empty(sh, dtype=object)
        for idx in np.ndindex(*sh):
            out[idx] = ctx.int('%s[%s]' % (nm, ','.join(map(str, idx))), low, high - 1) if self._free(idx) else low + int(some(self.n, idx) * (high - low))
        if ctx.sym:
            return ctx.arr(out)
        return out.astype(int)

    random_integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        ctx = self.ctx
        self.calls.append('choice')
        if not replace:
            raise core.Unsupported('choice without replacement')
        vals = list(range(int(a))) if np.ndim(a) == 0 else list(np.asarray(a, dtype=object))
        if not vals:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        nm = self._name('c')
        isint = all(isinstance(v, (int, np.integer)) for v in vals)

        def f(idx):
            i = ctx.int('%s[%s]' % (nm, ','.join(map(str, idx))), 0, len(vals) - 1) if self._free(idx) else int(some(self.n, idx) * len(vals))
            if not S(i):
                return vals[i]
            r = vals[-1]
            for j in range(len(vals) - 2, -1, -1):
                r = ite(i == j, vals[j], r)
            return r
        r = self._fill(size, f)
        return r if ctx.sym or not isint or size is None else np.asarray(r).astype(int)

    def normal(self, loc=0.0, scale=1.0, size=None):
        ctx = self.ctx
        self.calls.append('normal')
        nm = self._name('n')
        if size is None and (isinstance(loc, np.ndarray) or isinstance(scale, np.ndarray)):
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        sh = self._shape(size) or ()
        la = np.broadcast_to(np.asarray(loc, dtype=object), sh)
        sa = np.broadcast_to(np.asarray(scale, dtype=object), sh)

        def f(idx):
            z = ctx.real('%s[%s]' % (nm, ','.join(map(str, idx))), *( (-self.spread, self.spread) if self.spread else (None, None)))
            l, s = (la[idx], sa[idx]) if sh else (la[()], sa[()])
            self.normals.append(l + s * z)
            return l + s * z
        return self._fill(size, f)

    def randn(self, *dims):
        return self.normal(0.0, 1.0, dims if dims else None)

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def seed(self, *a, **k):
        return None

    def permutation(self, x):
        raise core.Unsupported('np.random.permutation')

    def shuffle(self, x):
        raise core.Unsupported('np.random.shuffle')


def low_discrepancy(ctx, few=None):
    """sobol_seq.i4_sobol_generate and pyDOE.lhs: any array of the requested shape in [0,1]"""
    import sobol_seq, pyDOE
    st = dict(n=0, calls=[])

    def unit(kind, rows, cols):
        st['n'] += 1
        st['calls'].append((kind, rows, cols))
        nm = '%s%d' % (kind, st['n'])
        a = ctx.arr([[ctx.real('%s[%d,%d]' % (nm, i, j), 0, 1) if few is None or i in few else some(st['n'], (i, j)) for j in range(int(cols))] for i in range(int(rows))])
        st['last'] = a
        return a.copy()

    def i4_sobol_generate(dim_num, n, skip=1):
        return unit('sobol', n, dim_num)

    def lhs(n, samples=None, criterion=None, iterations=None, **k):
        return unit('lhs', samples if samples is not None else n, n)
    ctx.patch(sobol_seq, 'i4_sobol_generate', i4_sobol_generate)
    ctx.patch(pyDOE, 'lhs', lhs)
    return st


def cap_designs(ctx, cap):
    """internally generated designs (1000..25000 anchor candidates) are reduced to `cap` points"""
    from GPyOpt.experiment_design import RandomDesign, SobolDesign, LatinDesign
    seen = []
    for cls in (RandomDesign, SobolDesign, LatinDesign):
        orig = cls.get_samples

        def get_samples(self, n, *a, _o=orig, **k):
            r = _o(self, min(n, cap), *a, **k)
            seen.append(np.array(r, dtype=object).copy())
            return r
        ctx.patch(cls, 'get_samples', get_samples)
    return seen


class Clock(object):
    """time.time: arbitrary non-decreasing instants"""

    def __init__(self, ctx, mods, step=None):
        import time
        self.ctx = ctx
        self.n = 0
        self.now = None
        self.reads = []
        self.step = step
        ctx.patch(time, 'time', self.time)

    def time(self):
        v = self.ctx.real('t%d' % self.n, 0)
        self.n += 1
        if self.now is not None:
            self.ctx.assume(v >= self.now)
        self.now = v
        self.reads.append(v)
        return v


class Lbfgs(object):
    """scipy.optimize.fmin_l_bfgs_b: any point (inside the bounds unless `inside` is False), the value of the objective there"""

    def __init__(self, ctx, inside=True, evaluate=True, failures=False, maxcalls=None):
        import scipy.optimize
        self.ctx, self.inside, self.evaluate, self.failures = ctx, inside, evaluate, failures
        self.calls = []
        self.maxcalls = maxcalls
        ctx.patch(scipy.optimize, 'fmin_l_bfgs_b', self.fmin_l_bfgs_b)

    def fmin_l_bfgs_b(self, func, x0, fprime=None, args=(), approx_grad=0, bounds=None, maxiter=15000, **kw):
        ctx = self.ctx
        n = len(self.calls)
        x0 = np.asarray(x0).reshape(-1)
        d = x0.shape[0]
        rec = dict(func=func, x0=x0, bounds=bounds, approx_grad=approx_grad, maxiter=maxiter, kw=kw)
        self.calls.append(rec)
        if bounds is not None and len(bounds) != d:
            raise ValueError('length of x0 != length of bounds')
        ok = True if not self.failures else ctx.choice('lbfgs%d.ok' % n, [True, False])
        if not ok:
            x = np.array([np.nan] * d)
            rec['x'] = x
            return x, np.nan, dict(task='ABNORMAL_TERMINATION_IN_LNSRCH', warnflag=2, funcalls=20, nit=0, grad=np.zeros(d))
        x = []
        for i in range(d):
            lo, hi = bounds[i] if bounds is not None and self.inside else (None, None)
            x.append(ctx.real('lbfgs%d.x%d' % (n, i), lo, hi))
        x = ctx.arr(x)
        rec['x'] = x
        f = np.float64(0.0)
        if self.evaluate:
            v = func(x)
            if not approx_grad and fprime is None:
                v, g = v
                rec['g'] = g
            rec['fval'] = v
            f = np.asarray(v).reshape(-1)[0]
        return x.copy(), f, dict(task='CONVERGENCE: REL_REDUCTION_OF_F_<=_FACTR*EPSMCH', warnflag=0, funcalls=1, nit=1, grad=np.zeros(d))
