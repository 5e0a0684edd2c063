"""Hash-consed terms: mathematical integers, reals, booleans and strings.

Integers are kept as canonical polynomials over atoms, booleans over integers in canonical `p <= 0` / `p == 0`
form, reals as a lightly simplified DAG (normalised later, see norm.py)."""
from fractions import Fraction

_table = {}
_count = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_h', '_fv')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    # python operators build terms (used by the specifications)
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return rdiv(self, o)
    def __rtruediv__(self, o): return rdiv(o, self)
    def __neg__(self): return neg(self)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)
    def __pow__(self, n):
        if isinstance(n, int) and n >= 1:
            r = self
            for _ in range(n - 1):
                r = mul(r, self)
            return r
        raise TypeError
    def __bool__(self):
        raise TypeError('symbolic truth value of %r' % (self,))


def mk(op, args, sort):
    k = (op, args, sort)
    t = _table.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.sort = sort
        _count[0] += 1
        t.id = _count[0]
        t._h = hash(k)
        t._fv = None
        _table[k] = t
    return t


def I(n): return mk('c', (int(n),), 'I')
def R(x): return mk('c', (x if isinstance(x, Fraction) else Fraction(x),), 'R')
TRUE = mk('c', (True,), 'B')
FALSE = mk('c', (False,), 'B')
def S(s): return mk('c', (s,), 'S')
ZERO = I(0)
ONE = I(1)
RZERO = R(0)
RONE = R(1)


def rat(x):
    """A double constant as the rational it stands for: the shortest decimal, or a simple fraction within 1 ulp."""
    if x == 0:
        return Fraction(0)
    if abs(x) < 1e-50:
        return Fraction(0)      # regularisation constants (1e-99): treated as zero, see DESIGN.md
    f = Fraction(repr(x))
    if f.denominator < 10 ** 6:
        return f
    ex = Fraction(x)
    import math
    ulp = Fraction(math.ulp(x))
    g = ex.limit_denominator(100000)
    if g != 0 and abs(g - ex) <= ulp and g.denominator < 5000:
        return g
    return f


def lift(x, like=None):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return R(x) if like == 'R' else I(x)
    if isinstance(x, Fraction):
        return R(x)
    if isinstance(x, float):
        return R(rat(x))
    if isinstance(x, str):
        return S(x)
    raise TypeError(repr(x))


def lift2(a, b):
    sa = a.sort if isinstance(a, T) else None
    sb = b.sort if isinstance(b, T) else None
    a = lift(a, sb)
    b = lift(b, sa)
    if a.sort == 'I' and b.sort == 'R':
        a = toreal(a)
    elif a.sort == 'R' and b.sort == 'I':
        b = toreal(b)
    return a, b


INPUTS = set()      # harness inputs: trailing zero indices are dropped, so that x(0) is x


def app(name, args, sort):
    if name in INPUTS:
        args = tuple(args)
        while args and args[-1] is ZERO:
            args = args[:-1]
    return mk('app', (name,) + tuple(args), sort)


def var(name, sort): return app(name, (), sort)


_fresh = [0]


def freshvar(base, sort):
    _fresh[0] += 1
    return app('%s!%d' % (base, _fresh[0]), (), sort)


# ---------------------------------------------------------------- integers as polynomials
# 'ip' args: (const, ((mono, coef), ...)) with mono a tuple of atoms sorted by id
def ipoly(t):
    """-> (const, dict mono->coef)"""
    if t.op == 'c':
        return t.args[0], {}
    if t.op == 'ip':
        return t.args[0], dict(t.args[1])
    return 0, {(t,): 1}


def from_ipoly(c, d):
    items = [(m, k) for m, k in d.items() if k != 0]
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    items.sort(key=lambda mk_: tuple(a.id for a in mk_[0]))
    return mk('ip', (c, tuple(items)), 'I')


def iadd(a, b, kb=1):
    ca, da = ipoly(a)
    cb, db = ipoly(b)
    da = dict(da)
    for m, k in db.items():
        da[m] = da.get(m, 0) + kb * k
    return from_ipoly(ca + kb * cb, da)


def imul(a, b):
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        k = b.args[0]
        ca, da = ipoly(a)
        return from_ipoly(ca * k, {m: v * k for m, v in da.items()})
    if a.op == 'ite' and len(a.args) == 3 and (a.args[1].op == 'c' and a.args[2].op == 'c'):
        return ite(a.args[0], imul(a.args[1], b), imul(a.args[2], b))
    if b.op == 'ite' and (b.args[1].op == 'c' and b.args[2].op == 'c'):
        return ite(b.args[0], imul(b.args[1], a), imul(b.args[2], a))
    ca, da = ipoly(a)
    cb, db = ipoly(b)
    r = {}
    c = ca * cb
    la = list(da.items()) + ([((), ca)] if ca else [])
    lb = list(db.items()) + ([((), cb)] if cb else [])
    for m1, k1 in la:
        for m2, k2 in lb:
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            if m:
                r[m] = r.get(m, 0) + k1 * k2
    return from_ipoly(c, r)


def idiv(a, n):
    """floor division by a positive constant"""
    n = n.args[0] if isinstance(n, T) else n
    if n == 1:
        return a
    c, d = ipoly(a)
    q = {m: k // n for m, k in d.items() if k % n == 0}
    r = {m: k for m, k in d.items() if k % n != 0}
    if not r:
        return from_ipoly(c // n, q)
    rest = from_ipoly(c % n, r)
    # non-negative remainder part bounded below n?
    at = mk('idiv', (rest, n), 'I')
    return iadd(from_ipoly(c // n, q), at)


def imod(a, n):
    n = n.args[0] if isinstance(n, T) else n
    c, d = ipoly(a)
    r = {m: k % n for m, k in d.items() if k % n != 0}
    if not r:
        return I(c % n)
    return mk('imod', (from_ipoly(c % n, r), n), 'I')


# ---------------------------------------------------------------- generic arithmetic
def add(a, b):
    a, b = lift2(a, b)
    if a.sort == 'I':
        return iadd(a, b)
    return radd(a, b)


def sub(a, b):
    a, b = lift2(a, b)
    if a.sort == 'I':
        return iadd(a, b, -1)
    return radd(a, rneg(b))


def mul(a, b):
    a, b = lift2(a, b)
    if a.sort == 'I':
        return imul(a, b)
    return rmul(a, b)


def neg(a):
    a = lift(a)
    if a.sort == 'I':
        return imul(a, I(-1))
    return rneg(a)


def radd(a, b):
    if a.op == 'c' and b.op == 'c':
        return R(a.args[0] + b.args[0])
    if a is RZERO:
        return b
    if b is RZERO:
        return a
    return mk('radd', (a, b), 'R')


def rneg(a):
    if a.op == 'c':
        return R(-a.args[0])
    if a.op == 'rneg':
        return a.args[0]
    return mk('rneg', (a,), 'R')


def rmul(a, b):
    if a.op == 'c' and b.op == 'c':
        return R(a.args[0] * b.args[0])
    if a is RZERO or b is RZERO:
        return RZERO
    if a is RONE:
        return b
    if b is RONE:
        return a
    if a.op == 'c' and a.args[0] == -1:
        return rneg(b)
    if b.op == 'c' and b.args[0] == -1:
        return rneg(a)
    return mk('rmul', (a, b), 'R')


def rdiv(a, b):
    a = lift(a, 'R')
    b = lift(b, 'R')
    if a.sort == 'I':
        a = toreal(a)
    if b.sort == 'I':
        b = toreal(b)
    if b.op == 'c' and b.args[0] != 0:
        return rmul(a, R(1 / b.args[0]))
    if a is RZERO and b.op != 'c':
        return RZERO
    return mk('rdiv', (a, b), 'R')


def toreal(a):
    if a.sort == 'R':
        return a
    if a.op == 'c':
        return R(a.args[0])
    if a.op == 'ite':
        return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    if a.op == 'ip':
        r = None
        for m, k in a.args[1]:
            x = R(k)
            for at in m:
                x = rmul(x, toreal(at))
            r = x if r is None else radd(r, x)
        if a.args[0]:
            r = radd(r, R(a.args[0]))
        return r
    if a.op == 'sum':
        v, lo, hi, body = a.args
        return mk('sum', (v, lo, hi, toreal(body)), 'R')
    return mk('toreal', (a,), 'R')


def trunc(a):
    """C conversion of a real to an integer"""
    if a.op == 'c':
        return I(int(a.args[0]))
    if a.op == 'toreal':
        return a.args[0]
    ai = as_int(a)
    if ai is not None:
        return ai
    return app('trunc', (a,), 'I')


def as_int(a):
    if a.op == 'toreal':
        return a.args[0]
    if a.op == 'c':
        return I(a.args[0].numerator) if a.args[0].denominator == 1 else None
    if a.op in ('radd', 'rmul', 'rneg'):
        xs = [as_int(x) for x in a.args]
        if any(x is None for x in xs):
            return None
        return iadd(*xs) if a.op == 'radd' else imul(*xs) if a.op == 'rmul' else imul(xs[0], I(-1))
    if a.op == 'ite':
        x, y = as_int(a.args[1]), as_int(a.args[2])
        if x is None or y is None:
            return None
        return ite(a.args[0], x, y)
    if a.op == 'sum':
        b = as_int(a.args[3])
        return None if b is None else sum_(a.args[0], a.args[1], a.args[2], b)
    return None


FOLD = {}


def fn(name, *args):
    """real function application"""
    args = tuple(toreal(lift(a, 'R')) for a in args)
    if name == 'sqrt' and args[0].op == 'c':
        q = args[0].args[0]
        if q >= 0:
            import math
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator:
                return R(Fraction(n, d))
    if args and args[0].op == 'c':
        q = args[0].args[0]
        if q == 0:
            if name in ('sin', 'atan', 'tan', 'sinh', 'asin'):
                return RZERO
            if name in ('cos', 'exp', 'cosh'):
                return RONE
        if q == 1 and name in ('log', 'log10'):
            return RZERO
    if args and args[0].op == 'app':
        g = args[0].args
        if name == 'log10' and g[0] == 'pow' and g[1].op == 'c' and g[1].args[0] == 10:
            return g[2]
        if name == 'log' and g[0] == 'exp':
            return g[1]
    if name == 'fabs':
        a = args[0]
        return ite(lt(a, RZERO), rneg(a), a)
    if name == 'pow' and args[1].op == 'c':
        q = args[1].args[0]
        if q.denominator == 1 and 0 <= q.numerator <= 12:
            r = RONE
            for _ in range(q.numerator):
                r = rmul(r, args[0])
            return r
        if q == Fraction(1, 2):
            return fn('sqrt', args[0])
    return app(name, args, 'R')


# ---------------------------------------------------------------- booleans
def not_(a):
    a = lift(a)
    if a.op == 'c':
        return FALSE if a.args[0] else TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ile':
        return ile0(iadd(I(1), a.args[0], -1))
    if a.op == 'rlt':
        return rle(a.args[1], a.args[0])
    if a.op == 'rle':
        return rlt(a.args[1], a.args[0])
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'ite':
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        x = lift(x)
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        ys = x.args if x.op == 'and' else (x,)
        for y in ys:
            if y in seen:
                continue
            if not_raw(y) in seen:
                return FALSE
            seen.add(y)
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', tuple(out), 'B')


def not_raw(y):
    if y.op == 'and' or y.op == 'or':
        return None
    return not_(y)


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        x = lift(x)
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        ys = x.args if x.op == 'or' else (x,)
        for y in ys:
            if y in seen:
                continue
            if not_raw(y) in seen:
                return TRUE
            seen.add(y)
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # absorb: (a & b) | (a & !b) -> a
    if len(out) == 2:
        a = set(out[0].args) if out[0].op == 'and' else {out[0]}
        b = set(out[1].args) if out[1].op == 'and' else {out[1]}
        if a <= b:
            return out[0]
        if b <= a:
            return out[1]
        da, db = a - b, b - a
        if len(da) == 1 and len(db) == 1 and not_raw(next(iter(da))) is next(iter(db)):
            return and_(*(a & b))
        if len(da) == 1 and not_raw(next(iter(da))) in db:
            return or_(out[0], and_(*(b - {not_raw(next(iter(da)))})))
        if len(db) == 1 and not_raw(next(iter(db))) in da:
            return or_(and_(*(a - {not_raw(next(iter(db)))})), out[1])
    else:
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                a = set(out[i].args) if out[i].op == 'and' else {out[i]}
                b = set(out[j].args) if out[j].op == 'and' else {out[j]}
                da, db = a - b, b - a
                if not da or not db or (len(da) == 1 and len(db) == 1 and not_raw(next(iter(da))) is next(iter(db))):
                    m = or_(out[i], out[j])
                    return or_(m, *[out[x] for x in range(len(out)) if x not in (i, j)])
    out.sort(key=lambda t: t.id)
    return mk('or', tuple(out), 'B')


def implies(a, b): return or_(not_(a), b)


def ile0(p):
    """p <= 0"""
    if p.op == 'c':
        return TRUE if p.args[0] <= 0 else FALSE
    c, d = ipoly(p)
    from math import gcd
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        # g*q + c <= 0  <=>  q <= floor(-c/g)  <=> q + ceil(c/g) <= 0
        p = from_ipoly(-((-c) // g), {m: k // g for m, k in d.items()})
    return mk('ile', (p,), 'B')


def ieq0(p):
    if p.op == 'c':
        return TRUE if p.args[0] == 0 else FALSE
    c, d = ipoly(p)
    from math import gcd
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if c % g:
        return FALSE
    first = min(d.items(), key=lambda mk_: tuple(a.id for a in mk_[0]))[1]
    if first < 0:
        g = -g
    if g != 1:
        p = from_ipoly(c // g, {m: k // g for m, k in d.items()})
    return mk('ieq', (p,), 'B')


def push_ite_cmp(f, a, b):
    """compare through an ite of constants"""
    if a.op == 'ite' and b.op == 'c' and (leafconst(a)):
        return ite(a.args[0], push_ite_cmp(f, a.args[1], b), push_ite_cmp(f, a.args[2], b))
    if b.op == 'ite' and a.op == 'c' and leafconst(b):
        return ite(b.args[0], push_ite_cmp(f, a, b.args[1]), push_ite_cmp(f, a, b.args[2]))
    return f(a, b)


def leafconst(t):
    while t.op == 'ite':
        if t.args[1].op == 'ite':
            if not leafconst(t.args[1]):
                return False
        elif t.args[1].op != 'c':
            return False
        t = t.args[2]
    return t.op == 'c'


def lt(a, b):
    a, b = lift2(a, b)
    if a.sort == 'I':
        return push_ite_cmp(lambda x, y: ile0(iadd(iadd(x, y, -1), ONE)), a, b)
    return rlt(a, b)


def le(a, b):
    a, b = lift2(a, b)
    if a.sort == 'I':
        return push_ite_cmp(lambda x, y: ile0(iadd(x, y, -1)), a, b)
    return rle(a, b)


def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)


def rcmp_int(a, b):
    ia, ib = as_int(a), as_int(b)
    if ia is not None and ib is not None:
        return ia, ib
    return None


def rlt(a, b):
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.args[0] < b.args[0] else FALSE
    if (a.op == 'ite' and leafconst(a) and b.op == 'c') or (b.op == 'ite' and leafconst(b) and a.op == 'c'):
        return push_ite_cmp(rlt, a, b)
    ab = rcmp_int(a, b)
    if ab:
        return lt(*ab)
    return mk('rlt', (a, b), 'B')


def rle(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if (a.op == 'ite' and leafconst(a) and b.op == 'c') or (b.op == 'ite' and leafconst(b) and a.op == 'c'):
        return push_ite_cmp(rle, a, b)
    ab = rcmp_int(a, b)
    if ab:
        return le(*ab)
    return mk('rle', (a, b), 'B')


def eq(a, b):
    a, b = lift2(a, b)
    if a is b:
        return TRUE
    if a.sort == 'I':
        return push_ite_cmp(lambda x, y: ieq0(iadd(x, y, -1)), a, b)
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.sort == 'R':
        if (a.op == 'ite' and leafconst(a) and b.op == 'c') or (b.op == 'ite' and leafconst(b) and a.op == 'c'):
            return push_ite_cmp(eq, a, b)
        ab = rcmp_int(a, b)
        if ab:
            return eq(*ab)
        if a.id > b.id:
            a, b = b, a
        return mk('req', (a, b), 'B')
    if a.sort == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == 'S':
        return seq_eq(a, b)
    raise TypeError(a.sort)


def ne(a, b): return not_(eq(a, b))


def ite(c, a, b):
    c = lift(c)
    if not (isinstance(a, T) and isinstance(b, T) and a.sort == b.sort):
        a, b = lift2(a, b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    # nested with the same condition
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if b.op == 'ite' and b.args[1] is a:        # ite(c,a,ite(d,a,e)) -> ite(c|d,a,e)
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a is b:
        return a
    nc = not_(c)
    if nc.id < c.id and nc.op != 'not':
        c, a, b = nc, b, a
    return mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------- strings
def sconcat(*xs):
    parts = []
    for x in xs:
        x = lift(x)
        ys = x.args if x.op == 'sconcat' else (x,)
        for y in ys:
            if y.op == 'c' and y.args[0] == '':
                continue
            if parts and parts[-1].op == 'c' and y.op == 'c':
                parts[-1] = S(parts[-1].args[0] + y.args[0])
            else:
                parts.append(y)
    if not parts:
        return S('')
    if len(parts) == 1:
        return parts[0]
    return mk('sconcat', tuple(parts), 'S')


def tostr(i):
    i = lift(i)
    if i.op == 'c':
        return S(str(i.args[0]))
    return mk('tostr', (i,), 'S')


def slower(s):
    if s.op == 'c':
        return S(s.args[0].lower())
    if s.op == 'slower':
        return s
    if s.op == 'sconcat':
        return sconcat(*[slower(x) for x in s.args])
    if s.op == 'tostr':
        return s
    return mk('slower', (s,), 'S')


def seq_eq(a, b):
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.args[0] == b.args[0] else FALSE
    pa = list(a.args) if a.op == 'sconcat' else [a]
    pb = list(b.args) if b.op == 'sconcat' else [b]
    pa = [y for y in pa if not (y.op == 'c' and y.args[0] == '')]
    pb = [y for y in pb if not (y.op == 'c' and y.args[0] == '')]
    # strip common prefix / suffix
    while pa and pb and pa[0] is pb[0]:
        pa.pop(0)
        pb.pop(0)
    while pa and pb and pa[-1] is pb[-1]:
        pa.pop()
        pb.pop()
    if pa and pb and pa[0].op == 'c' and pb[0].op == 'c':
        x, y = pa[0].args[0], pb[0].args[0]
        n = min(len(x), len(y))
        if x[:n] != y[:n]:
            return FALSE
        pa[0], pb[0] = S(x[n:]), S(y[n:])
        if not x[n:]:
            pa.pop(0)
        if not y[n:]:
            pb.pop(0)
        return seq_eq(sconcat(*pa), sconcat(*pb))
    if pa and pb and pa[-1].op == 'c' and pb[-1].op == 'c':
        x, y = pa[-1].args[0], pb[-1].args[0]
        n = min(len(x), len(y))
        if x[len(x) - n:] != y[len(y) - n:]:
            return FALSE
        pa[-1], pb[-1] = S(x[:len(x) - n]), S(y[:len(y) - n])
        return seq_eq(sconcat(*pa), sconcat(*pb))
    if not pa and not pb:
        return TRUE
    if not pa or not pb:
        for y in (pa or pb):
            if (y.op == 'c' and y.args[0]) or y.op == 'tostr':
                return FALSE
    if len(pa) == 1 and len(pb) == 1 and pa[0].op == 'tostr' and pb[0].op == 'tostr':
        return eq(pa[0].args[0], pb[0].args[0])
    if len(pa) == 1 and len(pb) == 1:
        for x, y in ((pa[0], pb[0]), (pb[0], pa[0])):
            if x.op == 'tostr' and y.op == 'c':
                s = y.args[0]
                import re
                if re.fullmatch(r'0|-?[1-9][0-9]*', s):
                    return eq(x.args[0], I(int(s)))
                return FALSE
            if x.op == 'slower' and y.op == 'c' and y.args[0].lower() != y.args[0]:
                return FALSE
    # a literal part with a non-digit can never be inside digits
    for x, y in ((pa, pb), (pb, pa)):
        if len(x) == 1 and x[0].op == 'tostr':
            if any(z.op == 'c' and not all(ch.isdigit() or ch == '-' for ch in z.args[0]) for z in y):
                return FALSE
    a, b = sconcat(*pa), sconcat(*pb)
    if a.id > b.id:
        a, b = b, a
    return mk('seq', (a, b), 'B')


# ---------------------------------------------------------------- binders
# bound variables are canonical per nesting depth: !b<depth>
BINDERS = ('sum', 'forall', 'lam')


def binder_depth(t, memo={}):
    r = memo.get(t)
    if r is not None:
        return r
    d = 0
    for x in t.args:
        if isinstance(x, T):
            d = max(d, binder_depth(x))
        elif isinstance(x, tuple):
            for m, k in x:
                for at in m:
                    d = max(d, binder_depth(at))
    if t.op in BINDERS:
        d += 1
    memo[t] = d
    return d


def bound(d): return app('!b%d' % d, (), 'I')


def mkbinder(op, v, lo, hi, body, sort):
    d = binder_depth(body)
    b = bound(d)
    if b is not v:
        body2 = subst(body, {v: b})
        body = body2
    return mk(op, (b, lo, hi, body), sort)


def forall(v, lo, hi, body):
    """for all v with lo <= v < hi: body"""
    lo, hi = lift(lo), lift(hi)
    if body is TRUE:
        return TRUE
    if le(hi, lo) is TRUE:
        return TRUE
    if v not in free(body) and False:
        return or_(le(hi, lo), body)
    if body.op == 'and':
        return and_(*[forall(v, lo, hi, x) for x in body.args])
    return mkbinder('forall', v, lo, hi, body, 'B')


def lamarr(v, lo, hi, body):
    """the contents body of an array for lo <= v < hi, as an opaque value: equal only for equal contents"""
    return mkbinder('lam', v, lift(lo), lift(hi), lift(body), 'R')


def exists(v, lo, hi, body):
    return not_(forall(v, lo, hi, not_(body)))


def onepoint(cnd, v):
    """conjunction with an equation that fixes v: (value, other conjuncts)"""
    conj = cnd.args if cnd.op == 'and' else (cnd,)
    for k, c in enumerate(conj):
        if c.op != 'ieq':
            continue
        c0, d = ipoly(c.args[0])
        kv = d.get((v,))
        if kv not in (1, -1) or any(m != (v,) and any(v in free(a) for a in m) for m in d):
            continue
        return imul(from_ipoly(c0, {m: q for m, q in d.items() if m != (v,)}), I(-kv)), conj[:k] + conj[k + 1:]
    return None


def indicator(t):
    """nested choices between 0 and 1 as one condition"""
    z = ZERO
    while t.op == 'ite':
        c, x, y = t.args
        if y is z and x.op != 'ite' and c.op != 'and' and c.op != 'not':
            return t
        if x is z and y.op == 'ite' and y.args[2] is z:
            t2 = ite(cases_and(not_(c), y.args[0]), y.args[1], z)
        elif y is z and x.op == 'ite' and x.args[2] is z:
            t2 = ite(cases_and(c, x.args[0]), x.args[1], z)
        elif y is z and c.op == 'and':
            t2 = ite(cases_and(c), x, z)
        else:
            return t
        if t2 is t:
            return t
        t = t2
    return t


def cases_and(*cs):
    """conjunction in which p = 2 makes p != 1 superfluous"""
    xs = []
    for c in cs:
        for y in (c.args if c.op == 'and' else (c,)):
            if y.op == 'not' and y.args[0].op == 'or':
                xs += [not_(z) for z in y.args[0].args]
            else:
                xs.append(y)
    eqs = [y.args[0] for y in xs if y.op == 'ieq']
    out = []
    for y in xs:
        if y.op == 'not' and y.args[0].op == 'ieq' and any(iadd(y.args[0].args[0], e, -1).op == 'c' and y.args[0].args[0] is not e for e in eqs):
            continue
        out.append(y)
    return and_(*out)


def sum_(v, lo, hi, body):
    """sum of body for lo <= v < hi (zero when hi <= lo)"""
    lo, hi = lift(lo), lift(hi)
    body = lift(body)
    if hi.op == 'c' and lo.op == 'c':
        if hi.args[0] <= lo.args[0]:
            return I(0) if body.sort == 'I' else RZERO
        if hi.args[0] - lo.args[0] <= 8:
            r = I(0) if body.sort == 'I' else RZERO
            for k in range(lo.args[0], hi.args[0]):
                r = add(r, subst(body, {v: I(k)}))
            return r
    if lo is hi:
        return I(0) if body.sort == 'I' else RZERO
    if body.op == 'c' and body.args[0] == 0:
        return body
    if body.op == 'ite' and body.sort == 'I':
        body = indicator(body)
    if body.op == 'ite':
        # one point: a sum with a single index satisfying an equation
        cnd, x, y = body.args
        if cnd.op == 'or' and onepoint(cnd.args[0], v) is not None:
            return sum_(v, lo, hi, ite(cnd.args[0], x, ite(or_(*cnd.args[1:]), x, y)))
        r = onepoint(cnd, v)
        if r is not None:
            e, rest = r
            m = {v: e}
            z = I(0) if body.sort == 'I' else RZERO
            return add(ite(and_(le(lo, e), lt(e, hi), *[subst(c, m) for c in rest]), sub(subst(x, m), subst(y, m)), z), sum_(v, lo, hi, y))
    if body.sort == 'I':
        # linear: split the polynomial, pull out v-free coefficients
        c, d = ipoly(body)
        if len(d) + (1 if c else 0) > 1 or (len(d) == 1 and next(iter(d.values())) != 1):
            r = I(0)
            if c:
                r = iadd(r, imul(I(c), cntrange(lo, hi)))
            for m, k in d.items():
                r = iadd(r, imul(I(k), sum_(v, lo, hi, from_ipoly(0, {m: 1}))))
            return r
        if not d:
            return imul(I(c), cntrange(lo, hi))
        if v not in free(body):
            return imul(body, cntrange(lo, hi))
        m = next(iter(d))
        ins = tuple(a for a in m if v in free(a))
        outs = tuple(a for a in m if v not in free(a))
        if outs:
            return imul(from_ipoly(0, {outs: 1}), sum_(v, lo, hi, from_ipoly(0, {ins: 1})))
        if len(m) == 1 and m[0] is v:
            # sum of v: keep symbolic
            pass
        # indicator ite(v < e, 1, 0)
        if len(m) == 1 and m[0].op == 'ite' and m[0].args[1].op == 'c' and m[0].args[2].op == 'c':
            cnd, x, y = m[0].args
            if y.args[0] != 0 :
                k = y.args[0]
                return iadd(imul(I(k), cntrange(lo, hi)), sum_(v, lo, hi, ite(cnd, I(x.args[0] - k), I(0))))
            if x.args[0] != 1:
                return imul(x, sum_(v, lo, hi, ite(cnd, I(1), I(0))))
        if len(m) == 1 and m[0].op == 'ite' and m[0].args[2].op == 'c' and m[0].args[2].args[0] == 0 and False:
            pass
    else:
        if body.op == 'radd':
            return radd(sum_(v, lo, hi, body.args[0]), sum_(v, lo, hi, body.args[1]))
        if body.op == 'rneg':
            return rneg(sum_(v, lo, hi, body.args[0]))
        if body.op == 'rmul':
            for x, y in (body.args, body.args[::-1]):
                if v not in free(x):
                    return rmul(x, sum_(v, lo, hi, y))
        if body.op == 'rdiv' and v not in free(body.args[1]):
            return rdiv(sum_(v, lo, hi, body.args[0]), body.args[1])
        if v not in free(body):
            return rmul(body, toreal(cntrange(lo, hi)))
    # shift the lower bound to zero
    if not (lo.op == 'c' and lo.args[0] == 0):
        body = subst(body, {v: iadd(v, lo)})
        hi = iadd(hi, lo, -1)
        lo = ZERO
        return sum_(v, lo, hi, body)
    return mkbinder('sum', v, lo, hi, body, body.sort)


def cntrange(lo, hi):
    """hi - lo when hi >= lo (all uses have that as a path fact or take the max)"""
    d = iadd(hi, lo, -1)
    if d.op == 'c':
        return I(max(0, d.args[0]))
    return imax0(d)


NONNEG = set()      # terms declared non-negative (sizes, counters)


def nonneg(t):
    if t.op == 'c':
        return t.args[0] >= 0
    if t in NONNEG:
        return True
    if t.op == 'ip':
        return t.args[0] >= 0 and all(k > 0 and all(nonneg(a) for a in m) for m, k in t.args[1])
    if t.op == 'sum':
        return nonneg(t.args[3])
    if t.op == 'ite':
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op == 'imod':
        return True
    if t.op == 'app' and t.args[0] == 'max0':
        return True
    if t.op == 'app' and t.args[0].startswith('!b'):
        return True        # bound variables always range from zero upwards (sum_ shifts; forall uses lo)
    if t.op == 'app' and t.args[0] in NNAMES:
        return True
    return False


NNAMES = set()


def imax0(d):
    if nonneg(d):
        return d
    return app('max0', (d,), 'I')


# ---------------------------------------------------------------- traversal
def subterms(t):
    for x in t.args:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for m, k in x:
                for at in m:
                    yield at


_empty = frozenset()


def free(t):
    """all application terms without arguments (variables) in t, bound ones excluded"""
    f = t._fv
    if f is None:
        if t.op == 'app' and len(t.args) == 1:
            f = frozenset((t,))
        else:
            f = _empty
            for x in subterms(t):
                f = f | free(x)
            if t.op in BINDERS:
                f = (f - {t.args[0]})
                # bounds are outside the binder
                f = f | free(t.args[1]) | free(t.args[2])
        t._fv = f
    return f


def rebuild(t, g):
    op = t.op
    a = t.args
    if op == 'c':
        return t
    if op == 'ip':
        r = I(a[0])
        for m, k in a[1]:
            x = I(k)
            for at in m:
                x = imul(x, g(at))
            r = iadd(r, x)
        return r
    if op == 'app':
        if len(a) == 1:
            return t
        args = tuple(g(x) if isinstance(x, T) else x for x in a[1:])
        if t.sort == 'R' and a[0] in REALFN:
            return fn(a[0], *args)
        if a[0] == 'max0':
            return imax0(args[0])
        if a[0] == 'trunc':
            return trunc(args[0])
        return app(a[0], args, t.sort)
    if op == 'radd': return radd(g(a[0]), g(a[1]))
    if op == 'rmul': return rmul(g(a[0]), g(a[1]))
    if op == 'rdiv': return rdiv(g(a[0]), g(a[1]))
    if op == 'rneg': return rneg(g(a[0]))
    if op == 'toreal': return toreal(g(a[0]))
    if op == 'not': return not_(g(a[0]))
    if op == 'and': return and_(*[g(x) for x in a])
    if op == 'or': return or_(*[g(x) for x in a])
    if op == 'ile': return ile0(g(a[0]))
    if op == 'ieq': return ieq0(g(a[0]))
    if op == 'rlt': return rlt(g(a[0]), g(a[1]))
    if op == 'rle': return rle(g(a[0]), g(a[1]))
    if op == 'req': return eq(g(a[0]), g(a[1]))
    if op == 'ite': return ite(g(a[0]), g(a[1]), g(a[2]))
    if op == 'idiv': return idiv(g(a[0]), a[1])
    if op == 'imod': return imod(g(a[0]), a[1])
    if op == 'sconcat': return sconcat(*[g(x) for x in a])
    if op == 'tostr': return tostr(g(a[0]))
    if op == 'slower': return slower(g(a[0]))
    if op == 'seq': return seq_eq(g(a[0]), g(a[1]))
    raise AssertionError(op)


REALFN = {'sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'log10', 'pow', 'atan', 'atan2', 'fabs', 'acos', 'asin', 'floor', 'ceil',
          'sinh', 'cosh', 'tanh', 'cbrt', 'hypot', 'fmax', 'fmin', 'exp2', 'log2', 'fmod', 'round'}


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
        keys = frozenset(m)
        simple = all(k.op == 'app' and len(k.args) == 1 for k in keys)
        memo['__k'] = keys if simple else None

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        ks = memo['__k']
        if ks is not None and not (free(t) & ks):
            memo[t] = t
            return t
        if t.op in BINDERS:
            v, lo, hi, body = t.args
            lo, hi = go(lo), go(hi)
            # capture avoidance: go through a fresh variable
            fv = freshvar('s', 'I')
            if t.op == 'sum' or True:
                NNAMES.add(fv.args[0])
            b2 = subst(subst(body, {v: fv}), m)
            r = sum_(fv, lo, hi, b2) if t.op == 'sum' else forall(fv, lo, hi, b2) if t.op == 'forall' else lamarr(fv, lo, hi, b2)
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


def contains(t, pred, memo=None):
    if memo is None:
        memo = set()
    if t in memo:
        return False
    memo.add(t)
    if pred(t):
        return True
    return any(contains(x, pred, memo) for x in subterms(t))


def collect(t, pred, out=None, memo=None):
    if out is None:
        out = []
        memo = set()
    if t in memo:
        return out
    memo.add(t)
    if pred(t):
        out.append(t)
    for x in subterms(t):
        collect(x, pred, out, memo)
    return out


def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if depth > 12:
        return '...'
    op, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if op == 'c':
        if t.sort == 'R':
            f = a[0]
            return str(f) if f.denominator < 1000 and abs(f.numerator) < 10 ** 6 else repr(float(f)) if abs(f) < 10**300 else str(f)
        if t.sort == 'S':
            return repr(a[0])
        return str(a[0])
    if op == 'ip':
        r = []
        for m, k in a[1]:
            r.append(('' if k == 1 else '%d*' % k) + '*'.join(s(x) for x in m))
        if a[0]:
            r.append(str(a[0]))
        return '(' + '+'.join(r) + ')'
    if op == 'app':
        return a[0] + ('(' + ','.join(s(x) for x in a[1:]) + ')' if len(a) > 1 else '')
    if op == 'radd': return '(%s+%s)' % (s(a[0]), s(a[1]))
    if op == 'rmul': return '%s*%s' % (s(a[0]), s(a[1]))
    if op == 'rdiv': return '(%s/%s)' % (s(a[0]), s(a[1]))
    if op == 'rneg': return '-%s' % s(a[0])
    if op == 'toreal': return s(a[0])
    if op == 'ile': return '%s<=0' % s(a[0])
    if op == 'ieq': return '%s==0' % s(a[0])
    if op == 'rlt': return '%s<%s' % (s(a[0]), s(a[1]))
    if op == 'rle': return '%s<=%s' % (s(a[0]), s(a[1]))
    if op in ('req', 'seq'): return '%s==%s' % (s(a[0]), s(a[1]))
    if op == 'not': return '!(%s)' % s(a[0])
    if op == 'and': return '(' + ' && '.join(s(x) for x in a) + ')'
    if op == 'or': return '(' + ' || '.join(s(x) for x in a) + ')'
    if op == 'ite': return 'ite(%s,%s,%s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'sum': return 'sum(%s in %s..%s: %s)' % tuple(s(x) for x in a)
    if op == 'forall': return 'forall(%s in %s..%s: %s)' % tuple(s(x) for x in a)
    if op == 'lam': return 'lam(%s in %s..%s: %s)' % tuple(s(x) for x in a)
    if op == 'sconcat': return '+'.join(s(x) for x in a)
    return op + '(' + ','.join(s(x) for x in a) + ')'
