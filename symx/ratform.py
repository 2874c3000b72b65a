"""Normal form of real terms as quotients of polynomials over atoms; decides identities which hold wherever the denominators
are non-zero (division by zero is forked away when the division is executed)."""
from fractions import Fraction
from .core import z3


class TooBig(Exception):
    pass


LIMIT = 4000


def padd(a, b, c=1):
    r = dict(a)
    for m, v in b.items():
        n = r.get(m, 0) + c * v
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, p in b:
        d[k] = d.get(k, 0) + p
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 40 * LIMIT:
        raise TooBig()
    r = {}
    for m, v in a.items():
        for n, w in b.items():
            k = mmul(m, n)
            x = r.get(k, 0) + v * w
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


ONE = {(): Fraction(1)}


class Rat(object):
    """numerator polynomial over a product of polynomial factors"""

    def __init__(self, defs):
        self.defs = defs
        self.memo = {}
        self.atoms = {}
        self.keep = []
        self.factors = {}

    def atom(self, t):
        i = t.get_id()
        self.atoms[i] = t
        return ({((i, 1),): Fraction(1)}, {})

    def factor(self, p):
        """p as (constant, {factor: power}); monomials are split into their atoms"""
        if len(p) == 1:
            (m, v), = p.items()
            out = {}
            for a, e in m:
                q = {((a, 1),): Fraction(1)}
                f = tuple(sorted(q.items()))
                self.factors[f] = q
                out[f] = e
            return v, out
        lead = p[max(p)]
        q = {m: v / lead for m, v in p.items()}
        f = tuple(sorted(q.items()))
        self.factors[f] = q
        return lead, {f: 1}

    def times(self, n, den):
        for f, e in den.items():
            for _ in range(e):
                n = self.mul(n, self.factors[f])
        return n

    def mul(self, a, b):
        return self.reduce(pmul(a, b), constants=True)

    def of(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._of(t)
            self.memo[k] = r
            self.keep.append(t)
        return r

    def _of(self, t):
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): f} if f else {}, {})
        if z3.is_int_value(t):
            f = Fraction(t.as_long())
            return ({(): f} if f else {}, {})
        if not z3.is_app(t):
            raise TooBig()
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            parts = [self.of(c) for c in ch]
            den = {}
            for _, d in parts:
                for f, e in d.items():
                    den[f] = max(den.get(f, 0), e)
            n = {}
            for i, (n2, d2) in enumerate(parts):
                n2 = self.times(n2, {f: e - d2.get(f, 0) for f, e in den.items()})
                n = padd(n, n2, -1 if i and k == z3.Z3_OP_SUB else 1)
            return n, den if n else {}
        if k == z3.Z3_OP_UMINUS:
            n, d = self.of(ch[0])
            return {m: -v for m, v in n.items()}, d
        if k == z3.Z3_OP_MUL:
            n, d = self.of(ch[0])
            for c in ch[1:]:
                n, d = self.product((n, d), self.of(c))
            return n, d
        if k == z3.Z3_OP_DIV:
            n2, d2 = self.of(ch[1])
            if not n2:
                raise TooBig()
            c, fs = self.factor(n2)
            return self.product(self.of(ch[0]), ({(): 1 / c}, fs), d2)
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 8:
            r = (ONE, {})
            for _ in range(ch[1].numerator_as_long()):
                r = self.product(r, self.of(ch[0]))
            return r
        return self.atom(t)

    def product(self, a, b, up=None):
        """a * b, times the factors `up`; factors are cancelled against the denominator, whole numerators where they are one"""
        den = dict(a[1])
        for f, e in b[1].items():
            den[f] = den.get(f, 0) + e
        n = ONE
        for p in (a[0], b[0]):
            if not p:
                return {}, {}
            if den and len(p) > 1:
                c, fs = self.factor(p)
                f, = fs
                if den.get(f, 0) > 0:
                    den[f] -= 1
                    p = {(): c}
            n = self.mul(n, p)
        rest = {}
        for f, e in (up or {}).items():
            x = min(e, den.get(f, 0))
            if x:
                den[f] -= x
            if e > x:
                rest[f] = e - x
        return self.times(n, rest), {f: e for f, e in den.items() if e}

    def reduce(self, p, constants=False):
        """replace squares of square-root atoms; returns a polynomial which is zero iff p is (denominators non-zero)"""
        for _ in range(12):
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2:
                        t = self.atoms[a]
                        d = self.defs.get(t.decl().name()) if t.num_args() == 0 else None
                        if d is not None and d[0] == 'sqrt' and not (constants and not z3.is_rational_value(d[1])):
                            hit = (a, d[1])
                            break
                if hit:
                    break
            if not hit:
                return p
            a, arg = hit
            n, d = self.of(arg)
            d = self.times(ONE, d)
            top = max((e for m in p for b, e in m if b == a), default=0) // 2
            out = {}
            pn, pd = [ONE], [ONE]
            for _ in range(top):
                pn.append(pmul(pn[-1], n))
                pd.append(pmul(pd[-1], d))
            for m, v in p.items():
                e = dict(m).get(a, 0)
                q = e // 2
                rest = tuple((b, x) for b, x in m if b != a)
                if e % 2:
                    rest = mmul(rest, ((a, 1),))
                out = padd(out, pmul({rest: v}, pmul(pn[q], pd[top - q])))
            p = out
        return p


def is_zero(t, defs):
    """True when t is identically zero wherever its denominators are non-zero"""
    r = Rat(defs)
    try:
        n, _ = r.of(t)
        n = r.reduce(n)
        if not n:
            return True
        # coefficients which come from rounding of float constants
        return False
    except TooBig:
        return False


def constant(t, defs):
    """the value of t if it is the same constant wherever its denominators are non-zero, else None"""
    r = Rat(defs)
    try:
        n, d = r.of(t)
        n, d = r.reduce(n), r.times(ONE, d)
        if not n:
            return Fraction(0)
        m = next(iter(n))
        if m in d:
            c = n[m] / d[m]
            if not r.reduce(padd(n, {k: -c * v for k, v in d.items()})):
                return c
    except TooBig:
        pass
    return None
