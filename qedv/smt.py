"""SMT back end: z3 (and cvc5 through SMT-LIB) on the terms of terms.py."""
import subprocess
import tempfile
import time
import os
import z3
from .terms import *
from .norm import Norm

STAT = {'z3': 0, 'z3_time': 0.0, 'cvc5': 0, 'norm': 0, 'norm_time': 0.0, 'syn': 0}
Str = z3.DeclareSort('Str')
SORT = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'S': Str}


IDXD = set()        # inputs used with an index anywhere


class Enc:
    def __init__(self, light=False, norm=None):
        self.memo = {}
        self.ax = []
        self.light = light          # abstract non-linear real arithmetic
        self.norm = norm
        self.strs = {}
        self.sums = {}
        self.abs = {}
        self.inst = set()
        self.tostrs = []

    def fn(self, name, sorts, out):
        return z3.Function(name + '/' + ''.join(sorts) + out, *[SORT[s] for s in sorts], SORT[out]) if sorts else \
            z3.Const(name + '/' + out, SORT[out])

    def enc(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.enc0(t)
            self.memo[t] = r
        return r

    def once(self, t):
        if t in self.inst:
            return False
        self.inst.add(t)
        return True

    def isbound(self, t):
        return any(v.args[0].startswith('!b') or v.args[0].startswith('!q') for v in free(t))

    def abstract(self, t):
        """light mode: a real term as an opaque function of its free bound variables"""
        bv = sorted([v for v in free(t) if v.args[0].startswith('!b')], key=lambda v: v.id)
        f = z3.Function('nl!%d' % t.id, *[z3.IntSort() for _ in bv], z3.RealSort()) if bv else z3.Real('nl!%d' % t.id)
        return f(*[self.enc(v) for v in bv]) if bv else f

    def enc0(self, t):
        op, a = t.op, t.args
        e = self.enc
        if op == 'c':
            v = a[0]
            if t.sort == 'I':
                return z3.IntVal(v)
            if t.sort == 'R':
                return z3.RealVal(str(v))
            if t.sort == 'B':
                return z3.BoolVal(v)
            c = z3.Const('str!%d' % t.id, Str)
            self.strs[v] = c
            return c
        if op == 'ip':
            r = [z3.IntVal(a[0])] if a[0] else []
            for m, k in a[1]:
                x = e(m[0])
                for at in m[1:]:
                    x = x * e(at)
                r.append(x if k == 1 else k * x)
            return z3.Sum(*r) if len(r) > 1 else r[0]
        if op == 'radd':
            return e(a[0]) + e(a[1])
        if op == 'rneg':
            return -e(a[0])
        if op == 'rmul':
            if a[0].op == 'c' or a[1].op == 'c' or not self.light:
                return e(a[0]) * e(a[1])
            return self.abstract(t)
        if op == 'rdiv':
            if self.light:
                return self.abstract(t)
            q = None
            if not self.isbound(t):
                # q * b == a when b != 0
                q = z3.Real('div!%d' % t.id)
                if self.once(t):
                    b = e(a[1])
                    self.ax.append(z3.Implies(b != 0, q * b == e(a[0])))
                return q
            return e(a[0]) / e(a[1])
        if op == 'toreal':
            return z3.ToReal(e(a[0]))
        if op == 'ite':
            return z3.If(e(a[0]), e(a[1]), e(a[2]))
        if op == 'not':
            return z3.Not(e(a[0]))
        if op == 'and':
            return z3.And(*[e(x) for x in a])
        if op == 'or':
            return z3.Or(*[e(x) for x in a])
        if op == 'ile':
            return e(a[0]) <= 0
        if op == 'ieq':
            return e(a[0]) == 0
        if op == 'rlt':
            return e(a[0]) < e(a[1])
        if op == 'rle':
            return e(a[0]) <= e(a[1])
        if op in ('req', 'seq'):
            return e(a[0]) == e(a[1])
        if op == 'idiv':
            return e(a[0]) / z3.IntVal(a[1])
        if op == 'imod':
            return e(a[0]) % z3.IntVal(a[1])
        if op == 'forall':
            xs, cs = [], []
            body = t
            while body.op == 'forall':
                v, lo, hi, body = body.args
                x = e(v)
                if any(x.eq(y) for y in xs):
                    return z3.ForAll(xs, z3.Implies(z3.And(*cs), e(mk('forall', (v, lo, hi, body), 'B'))))
                xs.append(x)
                cs += [x >= e(lo), x < e(hi)]
            return z3.ForAll(xs, z3.Implies(z3.And(*cs), e(body)))
        if op == 'sum':
            return self.encsum(t)
        if op == 'lam':
            # opaque: equal only when the contents are the same term
            b, lo, hi, body = a
            fv = sorted([x for x in free(body) if x is not b], key=lambda x: x.id)
            f = z3.Function('lam!%d' % body.id, z3.IntSort(), z3.IntSort(), *[SORT[x.sort] for x in fv], z3.RealSort())
            return f(e(lo), e(hi), *[e(x) for x in fv])
        if op == 'tostr':
            f = z3.Function('tostr', z3.IntSort(), Str)
            g = z3.Function('tostr_inv', Str, z3.IntSort())
            x = f(e(a[0]))
            if not self.isbound(t):
                self.ax.append(g(x) == e(a[0]))
            return x
        if op == 'slower':
            return z3.Function('slower', Str, Str)(e(a[0]))
        if op == 'sconcat':
            return z3.Function('sconcat%d' % len(a), *[Str] * len(a), Str)(*[e(x) for x in a])
        if op == 'app':
            return self.encapp(t)
        raise AssertionError(op)

    def encapp(self, t):
        name = t.args[0]
        e = self.enc
        if name in INPUTS:
            ts = list(t.args[1:]) + [ZERO] * (3 - len(t.args[1:]))
            if len(ts) == 3 and self.indexed(name, t):
                f = self.fn(name, ['I', 'I', 'I'], t.sort)
                r = f(*[e(x) for x in ts])
                if t.sort == 'I' and name in NNAMES and not self.isbound(t):
                    self.ax.append(r >= 0)
                return r
        if len(t.args) == 1:
            r = z3.Const(name + '/' + t.sort, SORT[t.sort])
            if t.sort == 'I' and name in NNAMES and not name.startswith('!'):
                self.ax.append(r >= 0)
            return r
        if name == 'max0':
            d = e(t.args[1])
            return z3.If(d >= 0, d, z3.IntVal(0))
        if t.sort == 'R' and name in REALFN and self.light and not all(x.op == 'c' for x in t.args[1:]):
            r = self.abstract(t)
            self.fnax(t, r, name, None)
            return r
        ts = [x for x in t.args[1:] if isinstance(x, T)]
        ex = [str(x) for x in t.args[1:] if not isinstance(x, T)]
        f = self.fn('|'.join([name] + ex), [x.sort for x in ts], t.sort)
        r = f(*[e(x) for x in ts])
        if t.sort == 'I' and name in NNAMES:
            if not self.isbound(t):
                self.ax.append(r >= 0)
            elif ('nn', name) not in self.inst:
                self.inst.add(('nn', name))
                xs = [z3.Const('nn!%d' % i, SORT[x.sort]) for i, x in enumerate(ts)]
                self.ax.append(z3.ForAll(xs, f(*xs) >= 0, patterns=[f(*xs)]))
        if t.sort == 'R' and name in REALFN:
            self.fnax(t, r, name, [e(x) for x in ts])
        if name == 'trunc' and not self.isbound(t):
            x = e(ts[0])
            self.ax.append(z3.Implies(x >= 0, z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1, r >= 0)))
            self.ax.append(z3.Implies(x <= 0, z3.And(z3.ToReal(r) >= x, x > z3.ToReal(r) - 1, r <= 0)))
        return r

    def indexed(self, name, t):
        if len(t.args) > 1:
            IDXD.add(name)
        return name in IDXD

    def fnax(self, t, r, name, xs):
        if self.isbound(t):
            return
        if name == 'sqrt':
            self.ax.append(r >= 0)
            if xs:
                self.ax.append(z3.Implies(xs[0] >= 0, r * r == xs[0]))
                self.ax.append(z3.Implies(xs[0] > 0, r > 0))
        elif name in ('exp', 'cosh', 'exp2'):
            self.ax.append(r > 0)
            if name == 'exp' and xs:
                self.ax.append(z3.Implies(xs[0] <= 0, r <= 1))
                self.ax.append(z3.Implies(xs[0] >= 0, r >= 1))
                self.ax.append(z3.Implies(xs[0] < 0, r < 1))
                self.ax.append(z3.Implies(xs[0] > 0, r > 1))
        elif name in ('sin', 'cos'):
            self.ax.append(z3.And(r >= -1, r <= 1))
        elif name in ('log', 'log10') and xs:
            self.ax.append(z3.Implies(xs[0] > 1, r > 0))
            self.ax.append(z3.Implies(xs[0] >= 1, r >= 0))
            self.ax.append(z3.Implies(z3.And(xs[0] < 1, xs[0] > 0), r < 0))
            self.ax.append(z3.Implies(z3.And(xs[0] <= 1, xs[0] > 0), r <= 0))
        elif name == 'pow' and xs:
            self.ax.append(z3.Implies(xs[0] > 0, r > 0))
            self.ax.append(z3.Implies(z3.And(xs[0] >= 1, xs[1] <= 0), r <= 1))
            self.ax.append(z3.Implies(z3.And(xs[0] >= 1, xs[1] >= 0), r >= 1))
            self.ax.append(z3.Implies(z3.And(xs[0] >= 0, xs[0] <= 1, xs[1] >= 0), z3.And(r >= 0, r <= 1)))
        elif name == 'floor' and xs:
            i = z3.Int('floor!%d' % t.id)
            self.ax.append(z3.And(r == z3.ToReal(i), r <= xs[0], xs[0] < r + 1))
        elif name == 'atan':
            pass

    def encsum(self, t):
        v, lo, hi, body = t.args
        fv = sorted([x for x in free(body) if x is not v], key=lambda x: x.id)
        key = body
        f = z3.Function('sum!%d' % body.id, z3.IntSort(), *[SORT[x.sort] for x in fv], SORT[t.sort])
        r = f(self.enc(hi), *[self.enc(x) for x in fv])
        if not self.isbound(t):
            zero = z3.IntVal(0) if t.sort == 'I' else z3.RealVal(0)
            h = self.enc(hi)
            self.ax.append(z3.Implies(h <= 0, r == zero))
            nn = nonneg(body)
            if nn:
                self.ax.append(r >= zero)
            lst = self.sums.setdefault(key, [])
            for h2, r2 in lst:
                d = iadd(hi, h2, -1)
                if d.op == 'c':
                    n = d.args[0]
                    if 0 < n <= 3 and le(ZERO, h2) is not FALSE:
                        self.ax.append(z3.Implies(self.enc(h2) >= 0, r == r2 + sum(
                            self.enc(subst(body, {v: iadd(h2, I(j))})) for j in range(n))))
                    elif -3 <= n < 0:
                        self.ax.append(z3.Implies(h >= 0, r2 == r + sum(
                            self.enc(subst(body, {v: iadd(hi, I(j))})) for j in range(-n))))
                elif nn:
                    hh = self.enc(h2)
                    self.ax.append(z3.Implies(z3.And(h < hh, h >= 0), r + self.enc(subst(body, {v: hi})) <= r2))
                    self.ax.append(z3.Implies(z3.And(hh < h, hh >= 0), r2 + self.enc(subst(body, {v: h2})) <= r))
            lst.append((hi, r))
            c = shift_of(body, v)
            if c and nonneg(hi) is not None and self.once(('shift', t)):
                b2 = subst(body, {v: iadd(v, I(-c))})
                r2 = self.enc(sum_(v, ZERO, iadd(hi, I(c)), b2)) + 0
                for i in range(c):
                    r2 = r2 - self.enc(subst(b2, {v: I(i)}))
                self.ax.append(z3.Implies(h >= 0, r == r2))
        return r

    def finish(self):
        ax = list(self.ax)
        if len(self.strs) > 1:
            ax.append(z3.Distinct(*self.strs.values()))
        return ax


def shift_of(body, v):
    """c > 0 when v occurs in body only as v + c' inside arguments with minimal c' == c <= 4"""
    cs = set()

    def go(t):
        if t is v:
            cs.add(0)
            return
        if v not in free(t):
            return
        if t.op == 'ip':
            c, d = ipoly(t)
            if d.get((v,)) == 1 and not any(v in free(a) for m in d if m != (v,) for a in m):
                cs.add(c)
                return
            cs.add(0)
            return
        if t.op in BINDERS:
            cs.add(0)
            return
        for a in t.args:
            if isinstance(a, T):
                go(a)
    go(body)
    c = min(cs) if cs else 0
    return c if 0 < c <= 4 else 0


_cache = {}


def check(hyps, goal, timeout=4000, light=False, want_model=False, canon=None):
    """'unsat' when hyps imply goal"""
    key = (tuple(hyps), goal, light)
    if not want_model and key in _cache and (_cache[key][0] != 'unknown' or _cache[key][1] >= timeout):
        return _cache[key][0], None
    t0 = time.time()
    enc = Enc(light)
    s = z3.Solver()
    s.set('timeout', int(timeout))
    fs = [enc.enc(h) for h in hyps] + [enc.enc(not_(goal))]
    s.add(*fs)
    s.add(*enc.finish())
    r = s.check()
    STAT['z3'] += 1
    STAT['z3_time'] += time.time() - t0
    res = 'unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'
    _cache[key] = (res, timeout)
    model = None
    if res == 'sat' and want_model:
        model = s.model()
    return res, model


def check_cvc5(hyps, goal, timeout=8000):
    enc = Enc(False)
    s = z3.Solver()
    s.add(*[enc.enc(h) for h in hyps], enc.enc(not_(goal)))
    s.add(*enc.finish())
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split('\n')[0]
    except Exception:
        out = 'unknown'
    os.unlink(f.name)
    STAT['cvc5'] += 1
    STAT['cvc5_time'] = STAT.get('cvc5_time', 0.0) + time.time() - t0
    return out if out in ('sat', 'unsat') else 'unknown'
