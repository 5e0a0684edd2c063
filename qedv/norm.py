"""Rational-function normaliser: decides equalities of real terms as identities of rational functions over atoms.

Atoms are variables, uninterpreted applications and transcendental functions, with the relations sqrt(x)^2 = x,
sin^2 + cos^2 = 1, exp(a+b) = exp(a)exp(b) and oddness/evenness of the trigonometric functions. Equal up to a relative
1e-10 per coefficient (decimal constants).  Domain caveat (reported): identities hold where the divisors are non-zero."""
import cmath
import math
import random
from fractions import Fraction
from .terms import *

TOL = Fraction(1, 10 ** 10)


def cf_(x):
    """coefficient: a plain integer where possible (much faster than Fraction)"""
    return x.numerator if isinstance(x, Fraction) and x.denominator == 1 else x


def cdiv(a, b):
    if b == 1:
        return a
    if b == -1:
        return -a
    return cf_(Fraction(a) / b)


class TooBig(Exception):
    pass


LIMIT = 60000


def padd(a, b, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(a, k):
    return {m: cf_(c * k) for m, c in a.items()} if k != 0 else {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            r.append((a[i][0], a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            r.append(a[i])
            i += 1
        else:
            r.append(b[j])
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def pmul(a, b):
    if len(a) * len(b) > LIMIT * 8:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    r = {m: c for m, c in r.items() if c != 0}
    if len(r) > LIMIT:
        raise TooBig()
    return r


def mdiv(a, b):
    """monomial a / b or None"""
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) - e
        if v < 0:
            return None
        if v == 0:
            d.pop(x)
        else:
            d[x] = v
    return tuple(sorted(d.items()))


def mkey(m):
    # graded lexicographic order
    return (sum(e for _, e in m), [(-a, e) for a, e in m])


def plead(p):
    return max(p, key=mkey)


def pdiv_exact(n, f, limit=20000):
    if len(n) * len(f) > limit:
        return None
    lf = plead(f)
    cf = f[lf]
    q = {}
    n = dict(n)
    # cheap necessary condition
    if mdiv(plead(n), lf) is None:
        return None
    steps = 0
    while n:
        ln = plead(n)
        m = mdiv(ln, lf)
        if m is None:
            return None
        c = cdiv(n[ln], cf)
        q[m] = c
        for mf, c2 in f.items():
            mm = mmul(m, mf)
            v = n.get(mm, 0) - c * c2
            if v == 0:
                n.pop(mm, None)
            else:
                n[mm] = v
        steps += 1
        if steps > 3000:
            return None
    return q


def psqrt(n):
    """p with p^2 == n, or None"""
    if not n or len(n) > 1500:
        return None
    lm = plead(n)
    lc = Fraction(n[lm])
    if lc <= 0 or any(e % 2 for _, e in lm):
        return None
    a, b = math.isqrt(lc.numerator), math.isqrt(lc.denominator)
    if a * a != lc.numerator or b * b != lc.denominator:
        return None
    lm = tuple((x, e // 2) for x, e in lm)
    lc = cf_(Fraction(a, b))
    p = {lm: lc}
    r = dict(n)
    r.pop(plead(n))
    steps = 0
    while r:
        lr = plead(r)
        m = mdiv(lr, lm)
        if m is None:
            return None
        c = cdiv(r[lr], 2 * lc)
        for m2, c2 in p.items():
            mm = mmul(m, m2)
            v = r.get(mm, 0) - 2 * c * c2
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = v
        mm = mmul(m, m)
        v = r.get(mm, 0) - c * c
        if v == 0:
            r.pop(mm, None)
        else:
            r[mm] = v
        if m in p:
            return None
        p[m] = c
        steps += 1
        if steps * steps > 4 * len(n) + 400 or len(p) > 200:
            return None
    return p


def pcontent(p):
    from math import gcd
    num = 0
    den = 1
    for c in p.values():
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    return Fraction(num, den)


class RF:
    __slots__ = ('n', 'd', 'val')     # d: dict factor(frozenset items) -> exponent

    def __init__(self, n, d):
        self.n = n
        self.d = d
        self.val = None


P1 = {(): 1}


class Norm:
    def __init__(self, nonneg=(), seed=1, lazy=False, pos=()):
        self.pos = list(pos)       # pairs (a, b) of terms known to satisfy a <= b
        self.posrf = None
        self.lazy = lazy           # square roots stay atoms (no s*s = x), much smaller forms
        self.toobig = False
        self.memo = {}
        self.atoms = []            # (name, args, info)
        self.vals = []
        self.byname = {}
        self.sq = {}               # atom -> RF of its square
        self.rnd = random.Random(seed)
        self.nonneg_terms = set(nonneg)
        self.nn = set()
        self.aterms = {}
        self.diffs = {}

    # ------------------------------------------------ atoms
    def newatom(self, key, val, nn=False):
        i = len(self.atoms)
        self.atoms.append(key)
        self.vals.append(val)
        if nn:
            self.nn.add(i)
        return i

    def pval(self, p):
        s = 0
        for m, c in p.items():
            v = float(c)
            for a, e in m:
                v *= self.vals[a] ** e
            s += v
        return s

    def val(self, r):
        if r.val is None:
            v = self.pval(r.n)
            for f, e in r.d.items():
                dv = self.pval(dict(f))
                if dv == 0:
                    dv = 1e-30
                v /= dv ** e
            r.val = v
        return r.val

    def func(self, name, rargs, extra=()):
        """find or make the atom name(extra; rargs)"""
        key = (name, extra, len(rargs))
        vals = [self.val(r) for r in rargs]
        for i, ra, va in self.byname.setdefault(key, []):
            if all(abs(x - y) <= 1e-7 * (abs(x) + abs(y) + 1e-12) for x, y in zip(vals, va)):
                if all(self.equal(x, y) for x, y in zip(rargs, ra)):
                    return i
        v = None
        try:
            if name == 'sqrt':
                v = cmath.sqrt(vals[0])
            elif name in ('sin', 'cos', 'exp', 'log', 'tan', 'atan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'log10'):
                v = getattr(cmath, name)(vals[0])
            elif name == 'pow':
                v = vals[0] ** vals[1]
        except Exception:
            v = None
        if v is None or v != v:
            v = self.rnd.uniform(0.3, 2.0)
        if isinstance(v, complex) and abs(v.imag) < 1e-14 * abs(v.real):
            v = v.real
        i = self.newatom((name, extra, rargs), v, nn=name in ('sqrt', 'exp', 'cosh'))
        self.byname[key].append((i, rargs, vals))
        return i

    def var(self, t):
        key = ('var', t)
        lst = self.byname.setdefault(key, [])
        if lst:
            return lst[0][0]
        i = self.newatom(('var', t, ()), self.rnd.uniform(0.3, 2.0), nn=t in self.nonneg_terms)
        lst.append((i, (), ()))
        return i

    # ------------------------------------------------ RF arithmetic
    def const(self, c):
        return RF({(): cf_(c)} if c != 0 else {}, {})

    def atomrf(self, i):
        return RF({((i, 1),): 1}, {})

    def reduce(self, p):
        """replace squares of reducible atoms -> RF"""
        for m in p:
            for a, e in m:
                if e >= 2 and a in self.sq:
                    break
            else:
                continue
            break
        else:
            return RF(p, {})
        groups = {}
        for m, c in p.items():
            q = 0
            if any(x == a and e >= 2 for x, e in m):
                mm = []
                for x, e in m:
                    if x == a:
                        q = e // 2
                        if e % 2:
                            mm.append((x, 1))
                    else:
                        mm.append((x, e))
                m = tuple(mm)
            g = groups.setdefault(q, {})
            v = g.get(m, 0) + c
            if v == 0:
                g.pop(m, None)
            else:
                g[m] = v
        r = None
        s = self.sq[a]
        for q, g in sorted(groups.items()):
            if not g:
                continue
            x = self.reduce(g)
            for _ in range(q):
                x = self.mul(x, s)
            r = x if r is None else self.add(r, x)
        return r if r is not None else RF({}, {})

    def cancel(self, n, d):
        if not n:
            return RF({}, {})
        if not d:
            return RF(n, d)
        d = dict(d)
        for f in list(d):
            items = list(f)
            if len(items) == 1:
                # single atom factor
                a = items[0][0][0][0]
                e = d[f]
                mn = min((dict(m).get(a, 0) for m in n), default=0)
                k = min(mn, e)
                if k:
                    n2 = {}
                    for m, c in n.items():
                        mm = tuple((x, y - k) if x == a else (x, y) for x, y in m)
                        n2[tuple(t for t in mm if t[1])] = c
                    n = n2
                    if e == k:
                        del d[f]
                    else:
                        d[f] = e - k
            else:
                fp = dict(f)
                while f in d:
                    q = pdiv_exact(n, fp)
                    if q is None:
                        break
                    n = q
                    if d[f] == 1:
                        del d[f]
                    else:
                        d[f] -= 1
        return RF(n, d)

    def mul(self, a, b):
        if not a.n or not b.n:
            return RF({}, {})
        x = self.reduce(pmul(a.n, b.n))
        d = dict(a.d)
        for f, e in b.d.items():
            d[f] = d.get(f, 0) + e
        for f, e in x.d.items():
            d[f] = d.get(f, 0) + e
        return self.cancel(x.n, d)

    def fpow(self, f, e):
        r = RF(P1, {})
        for _ in range(e):
            r = RF(pmul(r.n, dict(f)), {})
        return r.n

    def add(self, a, b, k=1):
        if not a.n:
            return RF(pscale(b.n, k), b.d)
        if not b.n:
            return a
        if a.d == b.d:
            n = padd(a.n, b.n, k)
            return self.cancel(n, a.d) if n else RF({}, {})
        d = dict(a.d)
        for f, e in b.d.items():
            d[f] = max(d.get(f, 0), e)
        na, nb = RF(a.n, {}), RF(b.n, {})
        for f, e in d.items():
            ea = e - a.d.get(f, 0)
            eb = e - b.d.get(f, 0)
            fr = RF(dict(f), {})
            for _ in range(ea):
                na = self.mulraw(na, fr)
            for _ in range(eb):
                nb = self.mulraw(nb, fr)
        if na.d or nb.d:
            # reduction produced denominators: bring in
            x = self.add(na, nb, k)
            dd = dict(d)
            for f, e in x.d.items():
                dd[f] = dd.get(f, 0) + e
            return self.cancel(x.n, dd)
        n = padd(na.n, nb.n, k)
        return self.cancel(n, d)

    def mulraw(self, a, b):
        x = self.reduce(pmul(a.n, b.n))
        d = dict(a.d)
        for f, e in b.d.items():
            d[f] = d.get(f, 0) + e
        for f, e in x.d.items():
            d[f] = d.get(f, 0) + e
        return RF(x.n, d)

    def inv(self, a):
        """1/a"""
        if not a.n:
            return None
        num = RF(P1, {})
        for f, e in a.d.items():
            fr = RF(dict(f), {})
            for _ in range(e):
                num = self.mulraw(num, fr)
        # factor a.n: monomial content and rest
        n = a.n
        common = None
        for m in n:
            dm = dict(m)
            if common is None:
                common = dm
            else:
                common = {x: min(e, dm[x]) for x, e in common.items() if x in dm}
            if not common:
                break
        d = {}
        if common:
            n = {tuple((x, e - common.get(x, 0)) for x, e in m if e - common.get(x, 0)): c for m, c in n.items()}
        lead = n[plead(n)]
        n = pscale(n, cdiv(1, lead))
        num = RF(pscale(num.n, cdiv(1, lead)), num.d)
        if common:
            for x, e in common.items():
                if x in self.sq and False:
                    pass
                d[frozenset([(((x, 1),), 1)])] = e
        if n != P1:
            d[frozenset(n.items())] = d.get(frozenset(n.items()), 0) + 1
        # sqrt atoms in the denominator: s -> 1/s = s / s^2 (rationalise single atoms)
        for f in list(d):
            it = list(f)
            if len(it) == 1:
                x = it[0][0][0][0]
                if x in self.sq and len(self.sq[x].n) <= 12:
                    e = d.pop(f)
                    s2 = self.sq[x]
                    i2 = self.inv(s2)
                    q, r = divmod(e, 2)
                    if r:
                        num = self.mulraw(num, self.atomrf(x))
                        q += 1
                    for _ in range(q):
                        num = self.mulraw(num, i2)
        dd = dict(num.d)
        for f, e in d.items():
            dd[f] = dd.get(f, 0) + e
        return self.cancel(num.n, dd)

    def equal(self, a, b):
        """a == b as rational functions"""
        va, vb = self.val(a), self.val(b)
        if abs(va - vb) > 1e-6 * (abs(va) + abs(vb) + 1e-9) and not self.illcond(a) and not self.illcond(b):
            return False
        if a.d == b.d:
            return self.pequal(a.n, b.n)
        d = dict(a.d)
        for f, e in b.d.items():
            d[f] = max(d.get(f, 0), e)
        na, nb = RF(a.n, {}), RF(b.n, {})
        for f, e in d.items():
            fr = RF(dict(f), {})
            for _ in range(e - a.d.get(f, 0)):
                na = self.mulraw(na, fr)
            for _ in range(e - b.d.get(f, 0)):
                nb = self.mulraw(nb, fr)
        if na.d or nb.d:
            x = self.add(na, nb, -1)
            return not x.n
        return self.pequal(na.n, nb.n)

    def illcond(self, r):
        s = self.pval({m: abs(c) for m, c in r.n.items()}) if False else sum(
            abs(float(c)) * math.prod(abs(self.vals[a]) ** e for a, e in m) for m, c in r.n.items())
        return abs(self.pval(r.n)) < 1e-7 * s

    def pequal(self, a, b):
        for m in a.keys() | b.keys():
            x, y = a.get(m, 0), b.get(m, 0)
            if x == y:
                continue
            if abs(x - y) > TOL * max(abs(x), abs(y)):
                return False
        return True

    # ------------------------------------------------ terms
    def rf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.rf0(t)
            self.memo[t] = r
        return r

    def sign(self, r):
        """+1/-1 canonical sign of an RF"""
        if not r.n:
            return 1
        lead = r.n[plead(r.n)]
        return 1 if lead > 0 else -1

    def neg(self, r):
        return RF(pscale(r.n, -1), r.d)

    def rf0(self, t):
        op = t.op
        if op == 'c':
            return self.const(t.args[0])
        if op == 'radd':
            # flatten long sums
            parts = []
            st = [t]
            while st:
                x = st.pop()
                if x.op == 'radd':
                    st.extend(x.args)
                else:
                    parts.append(self.rf(x))
            r = RF({}, {})
            groups = {}
            for x in parts:
                k = frozenset(x.d.items())
                groups[k] = self.add(groups[k], x) if k in groups else x
            for x in groups.values():
                r = self.add(r, x)
            return r
        if op == 'rneg':
            return self.neg(self.rf(t.args[0]))
        if op == 'rmul':
            return self.mul(self.rf(t.args[0]), self.rf(t.args[1]))
        if op == 'rdiv':
            b = self.inv(self.rf(t.args[1]))
            if b is None:
                return self.atomrf(self.var(t))
            return self.mul(self.rf(t.args[0]), b)
        if op == 'app':
            name = t.args[0]
            if len(t.args) == 1:
                return self.atomrf(self.var(t))
            if name in REALFN:
                return self.realfn(name, t)
            extra = []
            rargs = []
            for x in t.args[1:]:
                if isinstance(x, T) and x.sort == 'R':
                    rargs.append(self.rf(x))
                    extra.append(None)
                else:
                    extra.append(x)
            if not rargs:
                return self.atomrf(self.var(t))
            i = self.func('uf:' + name, tuple(rargs), tuple(extra))
            if t in self.nonneg_terms:
                self.nn.add(i)
            return self.atomrf(i)
        if op == 'ite':
            a, b = self.rf(t.args[1]), self.rf(t.args[2])
            if self.equal(a, b):
                return a
            return self.atomrf(self.func('ite', (a, b), (t.args[0],)))
        if op == 'toreal':
            return self.atomrf(self.var(t))
        if op == 'sum':
            return self.rfsum(t)
        if op == 'lam':
            return self.atomrf(self.func('lam', (self.rf(t.args[3]),), t.args[:3]))
        return self.atomrf(self.var(t))

    def mdep(self, a, v, memo):
        r = memo.get(a)
        if r is None:
            k = self.atoms[a]
            r = False
            if k[0] == 'var':
                r = isinstance(k[1], T) and v in free(k[1])
            else:
                for x in k[1] if isinstance(k[1], tuple) else ():
                    if isinstance(x, T) and v in free(x):
                        r = True
                for x in k[2]:
                    if any(self.mdep(q, v, memo) for m in x.n for q, _ in m) or \
                       any(self.mdep(q, v, memo) for f in x.d for m, _ in f for q, _ in m):
                        r = True
            memo[a] = r
        return r

    def rfsum(self, t):
        v, lo, hi, body = t.args
        b = self.rf(body)
        memo = {}
        if any(self.mdep(q, v, memo) for f in b.d for m, _ in f for q, _ in m):
            return self.atomrf(self.func('sum', (b,), (lo, hi)))
        r = RF({}, {})
        groups = {}
        for m, c in b.n.items():
            ins = tuple(x for x in m if self.mdep(x[0], v, memo))
            outs = tuple(x for x in m if not self.mdep(x[0], v, memo))
            g = groups.setdefault(ins, {})
            g[outs] = g.get(outs, 0) + c
        for ins, co in groups.items():
            if not ins:
                a = self.rf(toreal(cntrange(lo, hi)))
            else:
                a = self.atomrf(self.func('sum', (RF({ins: 1}, {}),), (lo, hi)))
            r = self.add(r, self.mul(RF(co, {}), a))
        return self.mul(r, RF(P1, b.d))

    def intpow(self, r, n):
        x = RF(P1, {})
        if n < 0:
            r = self.inv(r)
            n = -n
            if r is None:
                return None
        for _ in range(n):
            x = self.mul(x, r)
        return x

    def monoroot(self, n):
        """n = m^2 * rest with m a monomial of non-negative atoms and a rational; -> (coef, mono, rest)"""
        c = pcontent(n)
        k = 1
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            k = cf_(Fraction(a, b))
            n = pscale(n, cdiv(1, c))
        common = None
        for m in n:
            dm = dict(m)
            common = dm if common is None else {x: min(e, dm[x]) for x, e in common.items() if x in dm}
        mono = tuple((x, e // 2) for x, e in sorted(common.items()) if x in self.nn and e >= 2)
        if mono:
            cut = {x: 2 * e for x, e in mono}
            n = {tuple((x, e - cut.get(x, 0)) for x, e in m if e - cut.get(x, 0)): c2 for m, c2 in n.items()}
        return k, mono, n

    def psign(self, p):
        """+1/-1 when p is a sum of non-negative/non-positive monomials"""
        s = 0
        for m, c in p.items():
            if any(e % 2 and x not in self.nn for x, e in m):
                return 0
            t = 1 if c > 0 else -1
            if s and s != t:
                return 0
            s = t
        return s

    def knownroot(self, a, strict=False):
        """e with e^2 == a for a difference e known to be non-negative"""
        if self.lazy or len(a.n) < 2 or not self.pos:
            return None
        if self.posrf is None:
            self.posrf = []
            out = []
            for x, y, st in self.pos:
                try:
                    x, y = self.rf(x), self.rf(y)
                    e = self.add(y, x, -1)
                    if len(e.n) > 1:
                        out.append((e, st))
                    out += [(z, False) for z in (x, y) if z.n and self.psign(z.n) > 0 and all(self.psign(dict(f)) > 0 for f in z.d)]
                except (TooBig, OverflowError, ZeroDivisionError):
                    pass
            self.posrf = out + [(self.const(1), True)]
        v = self.val(a)
        for e, st in self.posrf:
            if strict and not st:
                continue
            w = self.val(e) ** 2
            if abs(v - w) <= 1e-7 * (abs(v) + abs(w) + 1e-12):
                try:
                    if self.equal(a, self.mul(e, e)):
                        return e
                except (TooBig, OverflowError, ZeroDivisionError):
                    pass
        return None

    def realfn(self, name, t):
        a = self.rf(t.args[1])
        if name == 'sqrt':
            if not a.n:
                return a
            e = self.knownroot(a)
            if e is not None:
                return e
            k, mono, n = self.monoroot(a.n)
            # perfect squares of non-negative polynomials come out
            if len(n) > 1:
                p = psqrt(n)
                s = self.psign(p) if p else 0
                if s:
                    mono, n = None, P1
                    pout = pmul({m: c * k * s for m, c in p.items()}, {self.monoroot(a.n)[1]: 1})
            # denominator: even powers of non-negative factors come out
            d = {}
            dout = {}
            for f, e in a.d.items():
                if e >= 2 and self.psign(dict(f)) > 0:
                    dout[f] = e // 2
                    if e % 2:
                        d[f] = 1
                else:
                    d[f] = e
            out = RF({mono: k} if mono is not None else pout, dout)
            if n == P1 and not d:
                return out
            if d and all(e == 1 and len(f) <= 12 and self.psign(dict(f)) > 0 for f, e in d.items()):
                # sqrt(n / d) = sqrt(n) / sqrt(d)
                for f in d:
                    i = self.func('sqrt', (RF(dict(f), {}),))
                    if not self.lazy:
                        self.sq.setdefault(i, RF(dict(f), {}))
                    out = self.mul(out, self.inv(self.atomrf(i)))
                d = {}
                if n == P1:
                    return out
            inner = RF(n, d)
            i = self.func('sqrt', (inner,))
            if not self.lazy:
                self.sq.setdefault(i, inner)
            return self.mul(out, self.atomrf(i))
        if name in ('sin', 'tan', 'atan', 'sinh', 'tanh', 'asin'):
            if not a.n:
                return a
            s = self.sign(a)
            if s < 0:
                a = self.neg(a)
            if name == 'sin':
                j = self.func('cos', (a,))
                i = self.func('sin', (a,))
                if i not in self.sq:
                    cj = self.atomrf(j)
                    self.sq[i] = self.add(self.const(1), RF(pmul(cj.n, cj.n), {}), -1)
            else:
                i = self.func(name, (a,))
            r = self.atomrf(i)
            return r if s > 0 else self.neg(r)
        if name in ('cos', 'cosh'):
            if not a.n:
                return self.const(1)
            if self.sign(a) < 0:
                a = self.neg(a)
            return self.atomrf(self.func(name, (a,)))
        if name == 'exp':
            if not a.n:
                return self.const(1)
            if len(a.n) > 8:
                if self.sign(a) < 0:
                    return self.atomrf(self.func('exp', (a,)))
                return self.inv(self.atomrf(self.func('exp', (self.neg(a),))))
            r = RF(P1, {})
            for m, c in sorted(a.n.items()):
                base = self.cancel({m: cf_(Fraction(1, c.denominator))}, a.d)
                i = self.func('exp', (base,))
                r = self.mul(r, self.intpow(self.atomrf(i), c.numerator)) if abs(c.numerator) <= 40 else None
                if r is None:
                    break
            if r is None:
                return self.atomrf(self.func('exp', (a,)))
            return r
        if name == 'pow':
            b = self.rf(t.args[2])
            if not b.d and set(b.n) <= {()}:
                q = b.n.get((), 0)
                if q.denominator == 1 and abs(q) <= 20:
                    r = self.intpow(a, int(q))
                    if r is not None:
                        return r
                if q < 0:
                    i = self.func('pow', (a, self.neg(b)))
                    return self.inv(self.atomrf(i))
            return self.atomrf(self.func('pow', (a, b)))
        rargs = tuple(self.rf(x) for x in t.args[1:])
        return self.atomrf(self.func(name, rargs))

    # back to terms
    def pterm(self, p):
        r = R(0)
        for m, c in p.items():
            x = R(c)
            for a, e in m:
                at = self.aterm(a)
                for _ in range(e):
                    x = rmul(x, at)
            r = radd(r, x)
        return r

    def rfterm(self, r):
        t = self.pterm(r.n)
        for f, e in r.d.items():
            ft = self.pterm(dict(f))
            for _ in range(e):
                t = rdiv(t, ft)
        return t

    def aterm(self, i):
        r = self.aterms.get(i)
        if r is None:
            name, extra, rargs = self.atoms[i]
            if name == 'var':
                r = extra
            elif name in REALFN:
                r = app(name, tuple(self.rfterm(x) for x in rargs), 'R')
            else:
                r = app('nf!%d' % i, (), 'R')
            self.aterms[i] = r
        return r

    def cmpform(self, a, b):
        """polynomial term p with p >= 0 iff a <= b (p > 0 iff a < b, p == 0 iff a == b), or None"""
        r = self.add(self.rf(b), self.rf(a), -1)
        n = r.n
        for f, e in r.d.items():
            if e % 2 == 0:
                continue
            s = self.psign(dict(f))
            if not s:
                n = pmul(n, dict(f))
            elif s < 0:
                n = pscale(n, -1)
        if len(n) > 60:
            return None
        return self.pterm(n)

    def same(self, a, b):
        try:
            return self.equal(self.rf(a), self.rf(b))
        except (TooBig, OverflowError, ZeroDivisionError):
            self.toobig = True
            return False

    def iszero(self, a):
        try:
            r = self.rf(a)
        except (TooBig, OverflowError, ZeroDivisionError):
            return False
        return not r.n


def real_conditions(t, out=None):
    """conditions of the real/int ites below t, outermost first"""
    return [x.args[0] for x in collect(t, lambda x: x.op == 'ite')]
