"""Stub models and oracles for the acquisition functions."""
from checks.common import *
import math
from GPyOpt.models.base import BOModel
from GPyOpt.acquisitions import (AcquisitionEI, AcquisitionEI_MCMC, AcquisitionMPI, AcquisitionMPI_MCMC, AcquisitionLCB, AcquisitionLCB_MCMC, AcquisitionLP, select_acquisition)

ROOT2PI = math.sqrt(2 * math.pi)
CLASSES = dict(EI=AcquisitionEI, MPI=AcquisitionMPI, LCB=AcquisitionLCB, EI_MCMC=AcquisitionEI_MCMC, MPI_MCMC=AcquisitionMPI_MCMC, LCB_MCMC=AcquisitionLCB_MCMC)


def npdf(z):
    return np.exp(-0.5 * z * z) / ROOT2PI if not S(z) else core.exp(-0.5 * (z * z)) / ROOT2PI


def ncdf(z):
    return core.ncdf(z)


def key(row):
    return tuple(v.t.sexpr() if S(v) else float(v) for v in row)


class TableModel(BOModel):
    """prediction at every point: any mean, any standard deviation >= smin, any derivatives"""
    analytical_gradient_prediction = True

    def __init__(self, ctx, samples=None, smin=1e-3, smax=K, tag=''):
        self.ctx, self.n, self.smin, self.smax = ctx, samples, smin, smax
        self.MCMC_sampler = samples is not None
        self.rows = {}
        self.tag = tag
        self.fmins = [ctx.real('%sfmin%d' % (tag, i), -K, K) for i in range(samples or 1)]

    def at(self, row, i=0):
        r = self.rows.setdefault(key(row), {})
        if i not in r:
            nm = self.tag + 'p%d.%d' % (list(self.rows).index(key(row)), i)
            m = self.ctx.real(nm + '.m', -K, K)
            s = self.ctx.real(nm + '.s', self.smin, self.smax)
            g = [[self.ctx.real('%s.%s%d' % (nm, a, j), -K, K) for j in range(len(row))] for a in ('dm', 'ds')]
            r[i] = (m, s, g[0], g[1])
        return r[i]

    def _col(self, X, i, j):
        out = [[self.at(r, i)[j]] if j < 2 else self.at(r, i)[j] for r in np.atleast_2d(X)]
        return self.ctx.arr(out)

    def get_fmin(self):
        return list(self.fmins) if self.MCMC_sampler else self.fmins[0]

    def predict(self, X, with_noise=True):
        if not self.MCMC_sampler:
            return self._col(X, 0, 0), self._col(X, 0, 1)
        return [self._col(X, i, 0) for i in range(self.n)], [self._col(X, i, 1) for i in range(self.n)]

    def predict_withGradients(self, X):
        if not self.MCMC_sampler:
            return tuple(self._col(X, 0, j) for j in range(4))
        return tuple([self._col(X, i, j) for i in range(self.n)] for j in range(4))

    def updateModel(self, *a):
        pass


class LinearModel(BOModel):
    """mean and standard deviation are affine in the location (arbitrary coefficients): arbitrary first-order behaviour"""
    analytical_gradient_prediction = True

    def __init__(self, ctx, dim, samples=None, smin=1e-2, x=None, ref=None):
        self.ctx, self.n, self.d = ctx, samples, dim
        self.MCMC_sampler = samples is not None
        R = 20
        self.c = []
        for i in range(samples or 1):
            m0, s0 = ctx.real('m0_%d' % i, -R, R), ctx.real('s0_%d' % i, smin, R)
            a = [ctx.real('a%d_%d' % (i, j), -R, R) for j in range(dim)]
            b = [ctx.real('b%d_%d' % (i, j), -R, R) for j in range(dim)]
            self.c.append((m0, s0, a, b))
        self.fmins = [ctx.real('fmin%d' % i, -R, R) for i in range(samples or 1)]
        self.ref = ref if ref is not None else [0.0] * dim

    def at(self, row, i=0):
        m0, s0, a, b = self.c[i]
        m, s = m0, s0
        for j in range(self.d):
            m = m + a[j] * (row[j] - self.ref[j])
            s = s + b[j] * (row[j] - self.ref[j])
        return m, s

    def _col(self, X, i, j):
        if j < 2:
            return self.ctx.arr([[self.at(r, i)[j]] for r in np.atleast_2d(X)])
        return self.ctx.arr([list(self.c[i][j]) for r in np.atleast_2d(X)])

    get_fmin = TableModel.get_fmin
    predict = TableModel.predict
    predict_withGradients = TableModel.predict_withGradients

    def updateModel(self, *a):
        pass


def formula(name, par, fmin, m, s):
    """published value (to be maximized)"""
    base = name.split('_')[0]
    if base == 'LCB':
        return -m + par * s
    u = (fmin - m - par) / s
    if base == 'MPI':
        return ncdf(u)
    return (fmin - m - par) * ncdf(u) + s * npdf(u)


def ei_mcmc_as_found(par, fmin, m, s):
    """recorded finding: the jitter enters the improvement with the opposite sign"""
    u = (fmin - m - par) / s
    return (fmin - m + par) * ncdf(u) + s * npdf(u)
