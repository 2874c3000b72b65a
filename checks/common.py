"""Builders shared by the harnesses."""
import numpy as np
from symx.runner import harness
from symx.core import S, Sym, land, lor, lnot, ite, limplies
from symx import core
import GPyOpt
from GPyOpt.core.task.space import Design_space

K = 1000.0


def make_space(ctx, kinds, sym_domain=True, named=True, fp=False, prefix='', ordered=False):
    """kinds: list of strings  c / cN (continuous of dimensionality N) / dK[xN] (discrete, K values) / kK[xN] (categorical, K
    categories) / bM,D[l] (bandit, M arms of dimension D, l: as a list of tuples).  Domains are symbolic unless sym_domain is False; ordered: values ascending, arms fixed."""
    space = []
    for i, kd in enumerate(kinds):
        nm = '%sv%d' % (prefix, i)
        d = {}
        if named:
            d['name'] = nm
        t = kd[0]
        num = (lambda n: ctx.fp(n)) if fp else (lambda n: ctx.real(n, -K, K))
        if t == 'c':
            d['type'] = 'continuous'
            if sym_domain:
                lo, hi = num(nm + '.lo'), num(nm + '.hi')
                if fp:
                    ctx.assume(land(lnot(np.isnan(lo)), lnot(np.isnan(hi)), lnot(np.isinf(lo)), lnot(np.isinf(hi))))
                ctx.assume(lo <= hi)
            else:
                lo, hi = -1.0 - i, 2.0 + i
            d['domain'] = (lo, hi)
            if kd[1:]:
                d['dimensionality'] = int(kd[1:])
        elif t == 'd':
            k, _, n = kd[1:].partition('x')
            d['type'] = 'discrete'
            if sym_domain:
                vals = [num('%s.d%d' % (nm, j)) for j in range(int(k))]
                if fp:
                    ctx.assume(land(*[land(lnot(np.isnan(v)), lnot(np.isinf(v))) for v in vals]))
                if ordered:
                    ctx.assume(land(*[a < b for a, b in zip(vals, vals[1:])]))
            else:
                vals = [float(j * j - i) for j in range(int(k))]
            d['domain'] = tuple(vals)
            if n:
                d['dimensionality'] = int(n)
        elif t == 'k':
            k, _, n = kd[1:].partition('x')
            d['type'] = 'categorical'
            d['domain'] = tuple(range(int(k)))
            if n:
                d['dimensionality'] = int(n)
        elif t == 'b':
            m, dd = kd[1:].rstrip('l').split(',')
            d['type'] = 'bandit'
            if ordered:
                dom = ctx.arr([[float(j * (l + 1) % 23) + l for l in range(int(dd))] for j in range(int(m))])
            elif sym_domain:
                dom = ctx.reals(nm + '.arm', (int(m), int(dd)), -K, K)
            else:
                dom = np.array([[float((j + 1) * (l + 2) % 5) for l in range(int(dd))] for j in range(int(m))])
            d['domain'] = [tuple(a) for a in dom] if kd[-1] == 'l' else dom
        space.append(d)
    return space


def columns(space):
    """expected layout: list of (kind, domain, name, number of model columns) per objective column"""
    out = []
    for i, d in enumerate(space):
        nm = d.get('name', 'var_%d' % i)
        n = d.get('dimensionality', 1)
        if d['type'] == 'bandit':
            out.append(('bandit', d['domain'], nm, np.asarray(d['domain']).shape[1]))
            continue
        for j in range(n):
            name = nm if n == 1 else '%s_%d' % (nm, j + 1)
            w = len(d['domain']) if d['type'] == 'categorical' else 1
            out.append((d['type'], d['domain'], name, w))
    return out


def model_dim(space):
    return sum(c[3] for c in columns(space))


def obj_dim(space):
    return sum(c[3] if c[0] == 'bandit' else 1 for c in columns(space))


def in_model_domain(ctx, space, x, tol=0.0):
    """x: model-space row is a point of the domain"""
    k = 0
    conds = []
    for typ, dom, nm, w in columns(space):
        seg = [x[k + j] for j in range(w)]
        k += w
        if typ == 'continuous':
            conds.append(land(seg[0] >= dom[0] - tol, seg[0] <= dom[1] + tol) if tol else land(seg[0] >= dom[0], seg[0] <= dom[1]))
        elif typ == 'discrete':
            conds.append(lor(*[seg[0] == v for v in dom]))
        elif typ == 'categorical':
            conds.append(lor(*[land(*[seg[j] == (1 if j == i else 0) for j in range(w)]) for i in range(w)]))
        else:
            conds.append(lor(*[land(*[seg[j] == a[j] for j in range(w)]) for a in dom]))
    return land(*conds)


def in_objective_domain(ctx, space, x, tol=0.0):
    """x: objective-space row is a point of the domain"""
    conds = []
    k = 0
    for typ, dom, nm, w in columns(space):
        if typ == 'continuous':
            conds.append(land(x[k] >= dom[0] - tol, x[k] <= dom[1] + tol) if tol else land(x[k] >= dom[0], x[k] <= dom[1]))
            k += 1
        elif typ in ('discrete', 'categorical'):
            conds.append(lor(*[x[k] == v for v in dom]))
            k += 1
        else:
            conds.append(lor(*[land(*[x[k + j] == a[j] for j in range(w)]) for a in dom]))
            k += w
    if k != len(x):
        return False
    return land(*conds)


def loop_point(ctx, space, name):
    """as domain_point, without forking: discrete values stay symbolic, categories alternate"""
    return domain_point(ctx, space, name, fork=False)


def domain_point(ctx, space, name, fork=True):
    """an arbitrary objective-space point of the domain (symbolic), as a list"""
    x = []
    for i, (typ, dom, nm, w) in enumerate(columns(space)):
        if typ == 'continuous':
            v = ctx.real('%s.%d' % (name, i))
            ctx.assume(land(v >= dom[0], v <= dom[1]))
            x.append(v)
        elif typ == 'discrete' and not fork:
            v = ctx.real('%s.%d' % (name, i))
            ctx.assume(ctx.isin(v, dom))
            x.append(v)
        elif typ == 'categorical' and not fork:
            x.append(float(dom[sum(map(ord, name)) % len(dom)]))
        elif typ in ('discrete', 'categorical'):
            j = ctx.choice('%s.%d' % (name, i), list(range(len(dom))))
            v = dom[j]
            x.append(v if S(v) else float(v))
        else:
            j = ctx.choice('%s.%d' % (name, i), list(range(len(dom)))) if fork is not None else sum(map(ord, name)) % len(dom)
            x += [dom[j][l] for l in range(w)]
    return x


def encode(space, x):
    """oracle: model-space row of an objective-space row"""
    out = []
    k = 0
    for typ, dom, nm, w in columns(space):
        if typ == 'categorical':
            for j in range(w):
                out.append(ite(x[k] == dom[j], 1.0, 0.0))
            k += 1
        elif typ == 'bandit':
            out += [x[k + j] for j in range(w)]
            k += w
        else:
            out.append(x[k])
            k += 1
    return out


def arr2(ctx, rows):
    return ctx.arr(rows)


def same_arr(ctx, a, b):
    return ctx.eqs(a, b)


def snapshot(a):
    return np.array(a, dtype=object).copy() if a is not None else None


def unchanged(a, snap):
    """array still holds the very same values"""
    a = np.asarray(a)
    if a.shape != snap.shape:
        return False
    return land(*[x == y for x, y in zip(a.reshape(-1), snap.reshape(-1))])
