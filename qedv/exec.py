"""Symbolic execution of LLVM IR over mathematical integers and reals, with loops summarised by verified invariants."""
import struct
import time
from fractions import Fraction
from .terms import *
from .values import *
from .prove import Facts, prove
from .norm import Norm, TooBig
from . import smt

NNAMES.add('max0')


class Restart(Exception):
    pass


class Unsupported(Exception):
    pass


def loops_any(v, pred):
    """does the predicate hold for some term in the value?"""
    if isinstance(v, T):
        return contains(v, pred)
    if isinstance(v, (Ptr, PIte, Undef, Lam, Agg, Str8)):
        return any(loops_any(getattr(v, a), pred) for a in v.__slots__ if hasattr(v, a)) if hasattr(type(v), '__slots__') else True
    if isinstance(v, Obj):
        return any(loops_any(i, pred) for i in v.idx)
    if isinstance(v, W):
        return any(loops_any(h, pred) for b, h in v.bvs) or loops_any(v.guard, pred) or loops_any(v.idx, pred) or loops_any(v.val, pred)
    if isinstance(v, Arr):
        return loops_any(v.dflt, pred) or loops_any(v.ws, pred)
    if isinstance(v, D):
        return v.kind == 'u' or loops_any(v.a, pred)
    if isinstance(v, (tuple, list)):
        return any(loops_any(i, pred) for i in v)
    if isinstance(v, dict):
        return any(loops_any(i, pred) for i in v.values())
    return False


class PathEnd(Exception):
    """the current path ends (exit, throw, failed assertion)"""


class State:
    __slots__ = ('facts', 'mem', 'occ', 'dead', 'flags')

    def __init__(self):
        self.facts = Facts([])
        self.mem = {}
        self.occ = {}
        self.dead = frozenset()
        self.flags = {}

    def copy(self):
        s = State()
        s.facts = Facts([])
        s.facts.lst = list(self.facts.lst)
        s.facts.set = set(self.facts.set)
        s.mem = dict(self.mem)
        s.occ = dict(self.occ)
        s.dead = self.dead
        s.flags = dict(self.flags)
        return s

    def fact(self, c):
        self.facts.addf(c)
        self.facts.norms = None
        self.facts.lazy = None

    def set(self, base, res, v):
        d = self.mem.get(base)
        d = dict(d) if d is not None else {}
        d[res] = v
        self.mem[base] = d


class Ob:
    def __init__(self, name, hyps, goal, where, kind='spec'):
        self.name, self.hyps, self.goal, self.where, self.kind = name, hyps, goal, where, kind


class Frame:
    __slots__ = ('fn', 'allocas', 'tag')

    def __init__(self, fn):
        self.fn = fn
        self.allocas = []


def bits_double(h):
    return struct.unpack('>d', bytes.fromhex(h))[0]


class Exec:
    def cmpcanon(self, t):
        """a real comparison, replaced by an earlier one whose difference is the same rational function (norm.py)"""
        if t.op not in ('rlt', 'rle'):
            return t
        r = self.cmps.get(t)
        if r is not None:
            return r
        a, b = t.args if t.op == 'rlt' else t.args[::-1]
        r = t
        if contains(t, lambda x: x.op == 'rdiv' or x.op == 'app' and x.args[0] in REALFN) and not contains(t, lambda x: x.op in ('ite', 'sum')):
            try:
                if self.cmpnorm is None:
                    self.cmpnorm = Norm(())
                n = self.cmpnorm
                d = n.rf(radd(b, rneg(a)))
                v = n.val(d)
                for w, d2, (x, y) in self.cmplist:
                    if abs(v - w) <= 1e-7 * (abs(v) + abs(w)) and n.equal(d, d2):
                        r = rlt(x, y) if t.op == 'rlt' else rle(y, x)
                        break
                else:
                    self.cmplist.append((v, d, (a, b)))
            except (TooBig, OverflowError, ZeroDivisionError):
                r = t
        self.cmps[t] = r
        return r

    def __init__(self, prog, case=''):
        self.prog = prog
        self.obs = []
        self.iters = ()
        self.stride = {}
        self.case = case
        self.covered = {}
        self.notes = []
        self.stack = []
        self.modelcache = {}
        self.deadline = None
        self.paths = 0
        self.divcheck = False
        self.axioms = set()     # declared ranges of inputs
        self.contracts = set()
        self.exits = 0
        self.cmps = {}
        self.cmplist = []
        self.cmpnorm = None
        self.loopinfo = {}
        self.readcache = {}
        self.deferred, self.deferids, self.closedmemo = {}, {}, {}
        from . import models
        self.models = models

    # ------------------------------------------------------------ obligations
    def where(self):
        return ' < '.join(f.short for f in reversed(self.stack[-4:])) if self.stack else ''

    def oblige(self, st, name, goal, kind='spec'):
        goal = lift(goal)
        if goal is TRUE:
            self.obs.append(Ob(name, (), TRUE, self.where(), kind))
            return
        self.obs.append(Ob(name, tuple(st.facts.lst), goal, self.where(), kind))
        if goal is FALSE:
            raise PathEnd()
        n = len(st.facts.lst)
        st.fact(goal)
        # what has been proved on the way does not tell paths apart
        if kind == 'safety' and len(st.facts.lst) > n:
            st.flags['proved'] = st.flags.get('proved', frozenset()) | frozenset(st.facts.lst[n:])

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    # ------------------------------------------------------------ naming
    def occ(self, st, site):
        n = st.occ.get(site, 0)
        st.occ[site] = n + 1
        return '%s#%d' % (site, n) if n else site

    def fresh(self, st, base, sort):
        return app(self.occ(st, base), self.iters, sort)

    # ------------------------------------------------------------ memory
    def alloc(self, st, site, size=None, dflt=None, kind='heap'):
        base = self.occ(st, site)
        o = Obj(base, self.iters)
        d = {'kind': kind}
        if size is not None:
            d['size'] = lam(self.iters, lift(size))
        if dflt is not None:
            d['dflt'] = lam(self.iters, dflt)
        old = st.mem.get(base)
        if old is not None and self.iters:
            # the members of this family made by earlier iterations stay
            for r, v in old.items():
                if isinstance(v, Arr):
                    d[r] = v
        st.mem[base] = d
        if base in st.dead:
            st.dead = st.dead - {base}
        return Ptr(o)

    def stride_of(self, base, off, size):
        """-> (element index or None, residue)"""
        s = self.stride.get(base)
        c, d = ipoly(off)
        if not d:
            if s is None:
                return None, c
            return I(c // s), c % s
        from math import gcd
        g = 0
        for k in d.values():
            g = gcd(g, k)
        if s is None:
            self.stride[base] = g
            raise Restart()
        if g % s:
            self.stride[base] = gcd(g, s)
            raise Restart()
        e = from_ipoly(c // s, {m: k // s for m, k in d.items()})
        return e, c % s

    def bounds(self, st, p, size):
        base = p.obj.base
        if p.obj is NULLOBJ:
            self.oblige(st, 'memory safety: no null pointer access', FALSE, 'safety')
        if base in st.dead:
            self.oblige(st, 'memory safety: no use after free', FALSE, 'safety')
        inner = st.mem.get(base)
        if inner is None:
            return
        sz = inner.get('size')
        if sz is None:
            return
        sz = sz.at(p.obj.idx)
        if p.off.op == 'c' and sz.op == 'c':
            if p.off.args[0] < 0 or p.off.args[0] + size > sz.args[0]:
                self.oblige(st, 'memory safety: access within the object', FALSE, 'safety')
            return
        g = and_(le(ZERO, p.off), le(iadd(p.off, I(size)), sz))
        if st.facts.quick(g) is True:
            return
        self.oblige(st, 'memory safety: access within the object', g, 'safety')

    def cellinfo(self, st, p, size):
        e, res = self.stride_of(p.obj.base, p.off, size)
        idx = p.obj.idx + ((e,) if e is not None else ())
        return idx, res

    def dflt_of(self, st, base, idx):
        inner = st.mem.get(base)
        if inner is not None and 'dflt' in inner:
            return inner['dflt'].at(idx)
        if base.startswith('g:'):
            return D('glob', base[2:])
        if base.startswith('ghost:'):
            return D('zero')
        return D('undef')

    def default_read(self, st, base, res, tup, ty, oidx):
        d = self.dflt_of(st, base, oidx)
        return self.dread(st, d, base, res, tup, ty, len(oidx))

    def dread(self, st, d, base, res, tup, ty, noidx):
        if d.kind == 'undef':
            if ty == 'ptr' or ty == 'S?':
                return Undef('%s:%s' % (base, res), tup)
            return app('undef:%s:%s' % (base, res), tup, sort_of(ty))
        if d.kind == 'zero':
            return zero_of(ty)
        if d.kind == 'sym':         # D('sym', name, shiftindex...)
            if ty == 'ptr':
                return Undef('%s:%s' % (d.a[0], res), tup)
            return app(d.a[0], tuple(d.a[1:]) + tup[noidx:], sort_of(ty))
        if d.kind == 'glob':
            return self.globread(d.a[0], res, tup, ty)
        if d.kind == 'copy':
            # contents copied from another object: D('copy', inner dict, srcbase, srcidx, srcoff, size)
            inner, sbase, sidx, soff = d.a[:4]
            e = tup[noidx:]
            if e:
                off = iadd(imul(e[0], I(self.stride[base])), I(res))
            else:
                off = I(res)
            off = iadd(off, soff)
            return self.read_inner(st, inner, sbase, sidx, off, ty)
        if d.kind == 'fill':        # every element has this value
            return d.a[0]
        if d.kind == 'ite':
            return pite(d.a[0], self.dread(st, d.a[1], base, res, tup, ty, noidx),
                        self.dread(st, d.a[2], base, res, tup, ty, noidx))
        if d.kind == 'u':
            # unknown contents in the middle of a loop: D('u', name, args, init)
            if ty in ('ptr', 'S?'):
                init = d.a[2]
                return self.arr_read(st, init, tup, ty, base, res, noidx)
            return app(d.a[0], d.a[1] + tup, sort_of(ty))
        raise Unsupported('default ' + d.kind)

    def read_inner(self, st, inner, base, idx, off, ty):
        e, res = self.stride_of(base, off, 8)
        tup = idx + ((e,) if e is not None else ())
        v = inner.get(res)
        if v is None:
            d = inner['dflt'].at(idx) if 'dflt' in inner else (D('glob', base[2:]) if base.startswith('g:') else D('undef'))
            return self.dread(st, d, base, res, tup, ty, len(idx))
        if isinstance(v, Arr):
            return self.arr_read(st, v, tup, ty, base, res, len(idx))
        return v

    def globread(self, name, res, tup, ty):
        g = self.gmap[name]
        if tup:
            e = tup[-1]
            if e.op == 'c':
                res = res + e.args[0] * self.stride['g:' + name]
            else:
                if ty == 'ptr':
                    raise Unsupported('symbolic index into a pointer table')
                return app('glob:%s:%d' % (name, res), tup, sort_of(ty))
        if 'init' not in g:
            return Undef('glob:%s:%d' % (name, res)) if ty == 'ptr' else app('glob:%s:%d' % (name, res), (), sort_of(ty))
        v = self.const_at(g['init'], res, ty, g['mod'])
        if v is None:
            return zero_of(ty)
        return v

    def const_at(self, c, off, ty, mod):
        k = c[0]
        if k == 'agg':
            best = None
            for o, x in c[1]:
                if o <= off and (best is None or o >= best[0]):
                    best = (o, x)
            if best is None:
                return zero_of(ty)
            return self.const_at(best[1], off - best[0], ty, mod)
        if k == 'z':
            return zero_of(ty)
        if k == 's':
            return I(ord(c[1][off])) if off < len(c[1]) else ZERO
        if off == 0:
            return self.operand(c, None, mod)
        return zero_of(ty)

    def gptr(self, mod, name):
        g = self.prog.glob(mod, name)
        if g is None:
            return Ptr(Obj('g:' + name))
        nm = g['name']
        if not hasattr(self, 'gmap'):
            self.gmap = {}
        self.gmap[nm] = g
        return Ptr(Obj('g:' + nm))

    def load(self, st, p, size, ty):
        if isinstance(p, PIte):
            d = st.facts.decide(p.c)
            if d is not None:
                return self.load(st, p.a if d else p.b, size, ty)
            a = self.guarded_load(st, p.c, p.a, size, ty)
            b = self.guarded_load(st, not_(p.c), p.b, size, ty)
            if a is None:
                st.fact(not_(p.c))
                return b
            if b is None:
                st.fact(p.c)
                return a
            return pite(p.c, a, b)
        if isinstance(p, Str8):
            return self.models.str_char(self, st, p.s, p.off)
        if not isinstance(p, Ptr):
            self.oblige(st, 'memory safety: pointer is initialised (%r)' % (p,), FALSE, 'safety')
        self.bounds(st, p, size)
        idx, res = self.cellinfo(st, p, size)
        inner = st.mem.get(p.obj.base)
        v = inner.get(res) if inner is not None else None
        if v is None:
            v = self.default_read(st, p.obj.base, res, idx, ty, p.obj.idx)
        elif isinstance(v, Arr):
            v = self.arr_read(st, v, idx, ty, p.obj.base, res, len(p.obj.idx))
        elif idx:
            raise Unsupported('plain cell in array %s' % p.obj.base)
        return self.coerce(v, ty)

    def guarded_load(self, st, c, p, size, ty):
        s2 = st.copy()
        s2.fact(c)
        try:
            return self.load(s2, p, size, ty)
        except PathEnd:
            return None

    def coerce(self, v, ty):
        if isinstance(v, T):
            if ty == 'double' or ty == 'float':
                if v.sort == 'I':
                    return toreal(v)
                if v.sort == 'B':
                    return ite(v, RONE, RZERO)
                return v
            if ty == 'i1':
                return v if v.sort == 'B' else ne(v, ZERO)
            if ty.startswith('i') and ty[1:].isdigit():
                if v.sort == 'B':
                    return ite(v, ONE, ZERO)
                if v.sort == 'R':
                    return app('bits', (v,), 'I')
                return v
            if ty == 'ptr':
                if v is ZERO:
                    return NULL
                return Undef('int2ptr', (v,))
        if isinstance(v, Undef) and ty not in ('ptr', 'S?'):
            return app('undef:' + v.name, v.idx, sort_of(ty))
        return v

    def store(self, st, p, size, v, guard=TRUE):
        if isinstance(p, PIte):
            d = st.facts.decide(p.c)
            if d is not None:
                return self.store(st, p.a if d else p.b, size, v, guard)
            self.store(st, p.a, size, v, and_(guard, p.c))
            self.store(st, p.b, size, v, and_(guard, not_(p.c)))
            return
        if not isinstance(p, Ptr):
            self.oblige(st, 'memory safety: pointer is initialised (%r)' % (p,), not_(guard), 'safety')
            return
        if p.obj is NULLOBJ and guard is not TRUE:
            self.oblige(st, 'memory safety: no null pointer access', not_(guard), 'safety')
            return
        self.bounds(st, p, size)
        base = p.obj.base
        idx, res = self.cellinfo(st, p, size)
        inner = st.mem.get(base)
        if not idx:
            if guard is not TRUE:
                old = self.load(st, p, size, type_like(v))
                v = pite(guard, v, old)
            st.set(base, res, v)
            return
        arr = inner.get(res) if inner is not None else None
        if arr is None:
            arr = Arr(D('cell'))
        elif not isinstance(arr, Arr):
            raise Unsupported('plain cell in array %s' % base)
        st.set(base, res, self.arr_store(st, arr, idx, v, guard))

    def arr_store(self, st, arr, idx, v, guard=TRUE):
        ws = arr.ws
        # overwrite the same index
        if guard is TRUE and ws and not ws[-1].bvs and ws[-1].idx == idx and not ws[-1].add:
            ws = ws[:-1]
        return Arr(arr.dflt, ws + (W((), guard, idx, v),))

    # ------------------------------------------------------------ array reads
    def arr_read(self, st, arr, tup, ty, base, res, noidx):
        key = (id(arr), tup, ty, base, res, tuple(st.facts.lst))
        c = self.readcache.get(key)
        if c is not None and c[0] is arr:
            return c[1]
        v = self.arr_read0(st, arr, tup, ty, base, res, noidx)
        if self.deferred and isinstance(v, T) and v.sort == 'R':
            for t in collect(v, lambda t: t.op == 'app' and t.args[0] in self.deferred):
                d = self.deferred[t.args[0]]
                if d[0] is arr and tuple(t.args[1:]) == tuple(tup):
                    continue
                w = self.arr_read(st, d[0], tuple(t.args[1:]), *d[1:])
                if w is not t:
                    v = subst(v, {t: w})
        self.readcache[key] = (arr, v)
        return v

    def arr_read0(self, st, arr, tup, ty, base, res, noidx):
        out = []        # (cond, value)
        adds = []       # (position in out, term)
        for w in reversed(arr.ws):
            if w.add:
                t = self.add_read(st, w, tup)
                if t is not RZERO and t is not ZERO:
                    adds.append((len(out), t))
                continue
            m = self.match(st, w, tup)
            if m is None:
                continue
            if m == 'fail' and ty == 'double' and self.closed(arr):
                # a definite function of the index that cannot be told yet: told when the index is known better
                nm = self.deferids.get((id(arr), base, res))
                if nm is None:
                    nm = self.deferids[(id(arr), base, res)] = 'defer:%d' % len(self.deferred)
                    self.deferred[nm] = (arr, ty, base, res, noidx)
                out = out + [(TRUE, app(nm, tup, 'R'))]
                break
            if m == 'fail':
                self.note('array read of %s not resolved' % base)
                v = app('opaque:%s:%s' % (base, res), tup, sort_of(ty)) if ty not in ('ptr', 'S?') else Undef('opaque:%s' % base, tup)
                out.append((TRUE, v))
                break
            c, v = m
            out.append((c, v))
            if c is TRUE:
                break
        else:
            if arr.dflt.kind == 'cell':
                d = self.default_read(st, base, res, tup, ty, tup[:noidx])
            else:
                d = self.dread(st, arr.dflt, base, res, tup, ty, noidx)
            out.append((TRUE, d))
        v = out[-1][1]
        n = len(out) - 1
        for pos, t in [a for a in adds if a[0] == n]:
            v = add(v, t)
        for i in range(n - 1, -1, -1):
            v = pite(out[i][0], self.tosame(out[i][1], v), self.tosame(v, out[i][1]))
            for pos, t in [a for a in adds if a[0] == i]:
                v = add(v, t)
        return v

    def closed(self, arr):
        r = self.closedmemo.get(id(arr))
        if r is None or r[0] is not arr:
            pend = lambda t: t.op == 'app' and isinstance(t.args[0], str) and t.args[0].startswith(('k:', 'u:'))
            ok = not any(loops_any(q, pend) for q in ([arr.dflt] + list(arr.ws)))
            r = self.closedmemo[id(arr)] = (arr, ok)
        return r[1]

    def tosame(self, a, b):
        if isinstance(a, Undef) and isinstance(b, T):
            return app('undef:' + a.name, a.idx, b.sort)
        return a

    def add_read(self, st, w, tup):
        cond = w.guard
        for x, y in zip(w.idx, tup):
            cond = and_(cond, eq(x, y))
        z = RZERO if w.val.sort == 'R' else ZERO
        t = ite(cond, w.val, z)
        for b, hi in reversed(w.bvs):
            t = sum_(b, ZERO, hi, t)
        return t

    def dec(self, st, c):
        """simplify a condition with the facts: TRUE, FALSE or c"""
        if c.op == 'c':
            return c
        d = st.facts.quick(c)
        if d is None:
            d = st.facts.decide(c, 1000)
        return c if d is None else (TRUE if d else FALSE)

    def match(self, st, w, tup):
        """does write w define index tup?  None / (cond, value) / 'fail'"""
        if not w.bvs:
            c = w.guard
            for x, y in zip(w.idx, tup):
                if x is y:
                    continue
                if x.sort != y.sort:
                    raise Unsupported('index sorts')
                c = and_(c, eq(x, y))
                if c is FALSE:
                    return None
            c = self.dec(st, c)
            if c is FALSE:
                return None
            return c, w.val
        bvs = dict(w.bvs)
        m = {}
        exact = True
        pend = list(zip(w.idx, tup))
        conds = []
        progress = True
        while pend and progress:
            progress = False
            rest = []
            for x, y in pend:
                x = subst(x, m) if m else x
                fv = [b for b in bvs if b in free(x) and b not in m]
                if not fv:
                    c = eq(x, y)
                    if c is FALSE:
                        return None
                    conds.append(c)
                    progress = True
                    continue
                s = self.solve(st, x, y, fv, {b: (subst(h, m) if m else h) for b, h in bvs.items()})
                if s is None:
                    rest.append((x, y))
                    continue
                if s == 'no':
                    return None
                mm, cs, ex = s
                m.update(mm)
                conds += cs
                exact = exact and ex
                progress = True
            pend = rest
        if pend:
            # maybe disjoint altogether: prove no instance matches
            issum = lambda t: t.op == 'sum'
            if any(contains(x, issum) and not contains(y, issum) for x, y in pend):
                return 'fail'
            if self.disjoint(st, w, tup):
                return None
            return 'fail'
        left = [b for b in bvs if b not in m]
        for b, h in w.bvs:
            hh = subst(h, m)
            if b in m:
                conds.append(le(ZERO, m[b]))
                conds.append(lt(m[b], hh))
        g = subst(w.guard, m)
        if left:
            # the index does not determine these: any instance; only if guard/value do not depend on them the write is
            # repeated with the same value
            v = vsubst(w.val, m)
            if any(b in free(g) or b in vfree(v) for b in left):
                return 'fail'
            for b, h in w.bvs:
                if b in left:
                    conds.append(lt(ZERO, subst(h, m)))
        c = self.dec(st, and_(g, *conds))
        if c is FALSE:
            if exact:
                return None
            return None if self.disjoint(st, w, tup) else 'fail'
        if not exact and c is not TRUE:
            return 'fail'
        return c, vsubst(w.val, m)

    def disjoint(self, st, w, tup):
        cs = []
        for b, h in w.bvs:
            cs += [le(ZERO, b), lt(b, h)]
        cs.append(w.guard)
        goal = or_(*[ne(x, y) for x, y in zip(w.idx, tup)])
        f = Facts(st.facts.lst + cs)
        return f.decide(goal, 1500) is True

    def solve(self, st, x, y, fv, bvs):
        """solve x(fv) == y for bound variables -> (map, conditions, exact) | None | 'no'"""
        if x.sort == 'S':
            return self.solve_str(st, x, y, fv, bvs)
        cx, dx = ipoly(x)
        cy, dy = ipoly(y)
        if len(fv) == 1:
            b = fv[0]
            lin = dx.get((b,))
            others = [m for m in dx if m != (b,) and any(b in free(a) for a in m)]
            if lin is not None and not others:
                rest = from_ipoly(cx, {m: k for m, k in dx.items() if m != (b,)})
                d = iadd(y, rest, -1)
                if lin < 0:
                    d = imul(d, I(-1))
                    lin = -lin
                if lin == 1:
                    return {b: d}, [], True
                cd, dd = ipoly(d)
                if all(k % lin == 0 for k in dd.values()):
                    if cd % lin:
                        return 'no'
                    return {b: idiv(d, lin)}, [], True
                return {b: idiv(d, lin)}, [eq(imod(d, lin), ZERO)], True
        # structural matching of monomials: products i*m and prefix sums
        r = self.solve_struct(x, y, fv, bvs)
        if r is not None:
            return r, [], False
        return None

    def solve_struct(self, x, y, fv, bvs):
        cx, dx = ipoly(x)
        cy, dy = ipoly(y)
        m = {}
        # the variable with the largest stride first: what it accounts for is taken off before the next
        for b in sorted(fv, key=lambda b: -max([len(mo) for mo in dx if b in mo] or [0])):
            cand = None
            for mono, k in dx.items():
                if b in mono and len(mono) > 1:
                    restm = tuple(a for a in mono if a is not b)
                    # find the polynomial coefficient of restm in y
                    co = {}
                    c0 = 0
                    for my, ky in dy.items():
                        l = list(my)
                        ok = True
                        for a in restm:
                            if a in l:
                                l.remove(a)
                            else:
                                ok = False
                        if ok and ky % k == 0:
                            if l:
                                co[tuple(l)] = ky // k
                            else:
                                c0 = ky // k
                    cand = from_ipoly(c0, co)
                    if len(restm) > 1:
                        t = imul(cand, I(k))
                        for a in restm:
                            t = imul(t, a)
                        dy = ipoly(iadd(from_ipoly(0, dy), t, -1))[1]
                    break
                if len(mono) == 1 and mono[0].op == 'sum' and b in free(mono[0].args[2]) and b not in free(mono[0].args[3]):
                    sx = mono[0]
                    for my, ky in dy.items():
                        if len(my) == 1 and my[0].op == 'sum' and my[0].args[3] is sx.args[3] and ky == k:
                            h = iadd(sx.args[2], b, -1)
                            if b not in free(h):
                                cand = iadd(my[0].args[2], h, -1)
                            break
                    else:
                        if self.sum_at_zero(sx, b) is not None:
                            cand = self.sum_at_zero(sx, b)
                    break
            if cand is not None:
                m[b] = cand
        left = [b for b in fv if b not in m]
        if len(left) > 1:
            return None
        if left:
            b = left[0]
            k = dx.get((b,))
            if k is None:
                return None
            rest = subst(from_ipoly(cx, {mo: q for mo, q in dx.items() if mo != (b,)}), m)
            if b in free(rest):
                return None
            d = iadd(y, rest, -1)
            if abs(k) != 1:
                cd, dd = ipoly(d)
                if cd % k or any(q % k for q in dd.values()):
                    return None
                d = from_ipoly(cd // k, {mo: q // k for mo, q in dd.items()})
            elif k == -1:
                d = imul(d, I(-1))
            m[b] = d
        else:
            if subst(x, m) is not y:
                return None
        return m

    def sum_at_zero(self, sx, b):
        h = iadd(sx.args[2], b, -1)
        if b not in free(h):
            return imul(h, I(-1))
        return None

    def solve_str(self, st, x, y, fv, bvs):
        px = list(x.args) if x.op == 'sconcat' else [x]
        py = list(y.args) if y.op == 'sconcat' else [y]
        if len(fv) != 1:
            return None
        b = fv[0]
        # x = pre + tostr(e(b)) + post with literals
        while px and py and px[0] is py[0]:
            px.pop(0)
            py.pop(0)
        while px and py and px[-1] is py[-1]:
            px.pop()
            py.pop()
        if len(px) == 1 and px[0].op == 'tostr' and len(py) == 1 and py[0].op == 'tostr':
            return self.solve(st, px[0].args[0], py[0].args[0], fv, bvs)
        # different constants
        c = eq(x, y)
        if c is FALSE:
            return 'no'
        ys = y.args if y.op == 'sconcat' else (y,)
        if px and px[0].op == 'tostr' and len(py) >= 1 and all(p.op == 'c' for p in py):
            import re
            s = ''.join(p.args[0] for p in py)
            post = ''.join(p.args[0] for p in px[1:] if p.op == 'c')
            if all(p.op == 'c' for p in px[1:]) and s.endswith(post):
                mid = s[:len(s) - len(post)] if post else s
                if re.fullmatch(r'0|-?[1-9][0-9]*', mid):
                    return self.solve(st, px[0].args[0], I(int(mid)), fv, bvs)
                return 'no'
        return None

    # ------------------------------------------------------------ operands
    def operand(self, o, env, mod):
        k = o[0]
        if k == 'v':
            return env[o[1]]
        if k == 'n':
            if o[1] == 1:
                return FALSE if o[2] == '0' else TRUE
            return I(int(o[2]))
        if k == 'f':
            d = bits_double(o[1])
            if d != d or d in (float('inf'), float('-inf')):
                return app('nan' if d != d else 'inf' if d > 0 else 'minusinf', (), 'R')
            return R(rat(d))
        if k == 'null':
            return NULL
        if k == 'undef':
            return Undef('undef')
        if k == 'fn':
            return FnPtr(o[1])
        if k == 'g':
            return self.gptr(mod, o[1])
        if k == 'gep':
            p = self.operand(o[1], env, mod)
            return self.geppy(p, o, env, mod)
        if k == 'z':
            return NULL if o[1] == 8 else Undef('zero')
        if k == 'cast':
            return self.operand(o[2], env, mod)
        if k == 'ce':
            return Undef('constexpr')
        if k in ('agg',):
            return Agg({i: self.operand(x[1], env, mod) for i, x in enumerate(o[1])})
        return Undef('operand')

    def geppy(self, p, g, env, mod):
        if g[2] is None:
            return Undef('gep')
        off = I(g[2])
        for o, s in g[3]:
            i = self.operand(o, env, mod)
            if isinstance(i, Undef):
                i = app('undef:' + i.name, i.idx, 'I')
            if i.sort == 'B':
                i = ite(i, ONE, ZERO)
            off = iadd(off, imul(i, I(s)))
        return padd_(p, off)

    # ------------------------------------------------------------ calls
    def call(self, fn, args, st):
        """-> [(state, value)]"""
        if len(self.stack) > 60:
            raise Unsupported('recursion ' + ' '.join(f.short for f in self.stack[-8:]))
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit of the symbolic execution')
        env = {}
        for i, a in enumerate(args):
            env[i] = a
        fr = Frame(fn)
        self.stack.append(fn)
        key = fn.dem
        self.covered[key] = self.covered.get(key, 0) + 1
        try:
            outs = self.run_region(fr, fn.entry, None, st, env, None, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            s, v = o[1], o[2]
            for b in fr.allocas:
                if b in s.mem:
                    del s.mem[b]
            res.append((s, v))
        return res

    # ------------------------------------------------------------ regions
    def run_region(self, fr, start, prev, st, env, blocks, header):
        """execute from start until leaving blocks / returning / coming back to header.
        -> [('ret', st, val) | ('exit', st, env, frm, to) | ('back', st, env, frm)]"""
        outs = []
        stack = [(start, prev, 0, st, env, start == header)]
        fn = fr.fn
        while stack:
            blk, prev, idx, st, env, first = stack.pop()
            if not first:
                if blocks is not None and blk not in blocks:
                    outs.append(('exit', st, env, prev, blk))
                    continue
                if blk == header:
                    outs.append(('back', st, env, prev))
                    continue
                if idx == 0 and blk in fn.loops:
                    for o in self.run_loop(fr, blk, prev, st, env):
                        if o[0] == 'ret':
                            outs.append(o)
                        else:
                            stack.append((o[4], o[3], 0, o[1], o[2], False))
                    continue
            ins = fn.blocks[blk]
            try:
                self.run_block(fr, blk, prev, idx, st, env, first, ins, stack, outs)
            except PathEnd:
                continue
        return outs

    def phis(self, fn, blk):
        return [i for i in fn.blocks[blk] if i['op'] == 'phi']

    def run_block(self, fr, blk, prev, idx, st, env, first, ins, stack, outs):
        fn = fr.fn
        mod = fn.mod
        if idx == 0 and ins and ins[0]['op'] == 'phi':
            if not first:
                vals = []
                for i in ins:
                    if i['op'] != 'phi':
                        break
                    for b, o in i['in']:
                        if b == prev:
                            vals.append((i['id'], self.operand(o, env, mod)))
                            break
                env = dict(env)
                for k, v in vals:
                    env[k] = v
            while idx < len(ins) and ins[idx]['op'] == 'phi':
                idx += 1
        n = len(ins)
        while idx < n:
            i = ins[idx]
            op = i['op']
            if op == 'br':
                ops = i['ops']
                if len(ops) == 1:
                    stack.append((ops[0][1], blk, 0, st, env, False))
                    return
                c = self.tobool(self.operand(ops[0], env, mod))
                # llvm operand order: cond, false, true
                for s2, val in self.fork(st, c):
                    stack.append((ops[2][1] if val else ops[1][1], blk, 0, s2, env if val is None else dict(env), False))
                return
            if op == 'switch':
                v = self.operand(i['ops'][0], env, mod)
                cur = st
                for cv, tgt in i['cases']:
                    c = eq(v, self.operand(cv, env, mod))
                    fs = self.fork(cur, c)
                    cur = None
                    for s2, val in fs:
                        if val:
                            stack.append((tgt, blk, 0, s2, dict(env), False))
                        else:
                            cur = s2
                    if cur is None:
                        return
                stack.append((i['default'], blk, 0, cur, env, False))
                return
            if op == 'ret':
                v = self.operand(i['ops'][0], env, mod) if i['ops'] else None
                outs.append(('ret', st, v))
                return
            if op == 'unreachable':
                return
            if op == 'call':
                rs = self.do_call(fr, i, st, env)
                if i.get('noreturn') and not rs:
                    return
                if not rs:
                    return
                idx += 1
                if len(rs) == 1:
                    st, v = rs[0]
                    env[i['id']] = v
                    continue
                for s2, v in rs:
                    e2 = dict(env)
                    e2[i['id']] = v
                    stack.append((blk, prev, idx, s2, e2, first or True))
                return
            env[i['id']] = self.step(fr, i, op, st, env, mod)
            idx += 1

    def tobool(self, v):
        if isinstance(v, Undef):
            return app('undef:' + v.name, v.idx, 'B')
        if v.sort == 'I':
            return ne(v, ZERO)
        return v

    def fork(self, st, c):
        if c is TRUE:
            return [(st, True)]
        if c is FALSE:
            return [(st, False)]
        d = st.facts.decide(c)
        if d is True:
            st.fact(c)
            return [(st, True)]
        if d is False:
            st.fact(not_(c))
            return [(st, False)]
        self.paths += 1
        if self.paths > 4000:
            raise Unsupported('too many paths')
        s2 = st.copy()
        st.fact(c)
        s2.fact(not_(c))
        return [(st, True), (s2, False)]

    def step(self, fr, i, op, st, env, mod):
        if op == 'load':
            return self.load(st, self.operand(i['ops'][0], env, mod), i['sz'], i['ty'])
        if op == 'store':
            v = self.operand(i['ops'][0], env, mod)
            self.store(st, self.operand(i['ops'][1], env, mod), i['sz'], v)
            return None
        if op == 'alloca':
            cnt = self.operand(i['ops'][0], env, mod)
            size = imul(cnt, I(i['size']))
            p = self.alloc(st, '%s.%d' % (fr.fn.name, i['id']), size, kind='alloca')
            fr.allocas.append(p.obj.base)
            return p
        if op == 'getelementptr':
            p = self.operand(i['gep'][1], env, mod)
            return self.geppy(p, i['gep'], env, mod)
        ops = i['ops']
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.intop(op, self.num(self.operand(ops[0], env, mod), i['ty']), self.num(self.operand(ops[1], env, mod), i['ty']), i['ty'])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = self.num(self.operand(ops[0], env, mod), 'double')
            b = self.num(self.operand(ops[1], env, mod), 'double')
            if op == 'fadd':
                return radd(a, b)
            if op == 'fsub':
                return radd(a, rneg(b))
            if op == 'fmul':
                return rmul(a, b)
            if op == 'fdiv':
                if st.flags.get('div') and b.op != 'c':
                    self.oblige(st, 'division by a non-zero value', ne(b, RZERO), 'safety')
                if b is RZERO:
                    self.note('division by constant zero')
                    return self.fresh(st, 'divzero', 'R')
                return rdiv(a, b)
            return fn('fmod', a, b)
        if op == 'fneg':
            return rneg(self.num(self.operand(ops[0], env, mod), 'double'))
        if op == 'icmp':
            return self.icmp(i['pred'], self.operand(ops[0], env, mod), self.operand(ops[1], env, mod), i['cty'])
        if op == 'fcmp':
            a = self.num(self.operand(ops[0], env, mod), 'double')
            b = self.num(self.operand(ops[1], env, mod), 'double')
            p = i['pred'][1:] if i['pred'][0] in 'ou' and i['pred'] not in ('ord', 'uno') else i['pred']
            if p == 'eq':
                return eq(a, b)
            if p == 'ne':
                return ne(a, b)
            if p == 'lt':
                return self.cmpcanon(rlt(a, b))
            if p == 'le':
                return self.cmpcanon(rle(a, b))
            if p == 'gt':
                return self.cmpcanon(rlt(b, a))
            if p == 'ge':
                return self.cmpcanon(rle(b, a))
            if p in ('ord', 'true'):
                return TRUE
            return FALSE
        if op == 'select':
            c = self.tobool(self.operand(ops[0], env, mod))
            c = self.dec(st, c) if c.op != 'c' else c
            return pite(c, self.operand(ops[1], env, mod), self.operand(ops[2], env, mod))
        if op in ('zext', 'sext', 'trunc'):
            v = self.operand(ops[0], env, mod)
            if isinstance(v, Undef):
                return app('undef:' + v.name, v.idx, sort_of(i['ty']))
            if not isinstance(v, T):
                return v
            if i['ty'] == 'i1':
                return v if v.sort == 'B' else ne(v, ZERO)
            if v.sort == 'B':
                return ite(v, ONE if op != 'sext' else I(-1), ZERO)
            if op == 'zext' and v.op == 'c' and v.args[0] < 0:
                return I(v.args[0] % (1 << int(i['sty'][1:])))
            return v
        if op in ('sitofp', 'uitofp'):
            v = self.num(self.operand(ops[0], env, mod), 'i64')
            return toreal(v)
        if op in ('fptosi', 'fptoui'):
            return trunc(self.num(self.operand(ops[0], env, mod), 'double'))
        if op in ('fpext', 'fptrunc', 'freeze', 'bitcast', 'addrspacecast'):
            return self.operand(ops[0], env, mod)
        if op == 'ptrtoint':
            p = self.operand(ops[0], env, mod)
            return self.ptrint(p)
        if op == 'inttoptr':
            v = self.operand(ops[0], env, mod)
            return NULL if v is ZERO else Undef('inttoptr')
        if op == 'extractvalue':
            a = self.operand(ops[0], env, mod)
            if isinstance(a, Agg):
                return a.f.get(i['idx'][0], Undef('extract'))
            return Undef('extract')
        if op == 'insertvalue':
            a = self.operand(ops[0], env, mod)
            f = dict(a.f) if isinstance(a, Agg) else {}
            f[i['idx'][0]] = self.operand(ops[1], env, mod)
            return Agg(f)
        raise Unsupported('instruction ' + op)

    def num(self, v, ty):
        if isinstance(v, Undef):
            return app('undef:' + v.name, v.idx, sort_of(ty))
        if isinstance(v, (Ptr, PIte, Str8)):
            return self.ptrint(v)
        return self.coerce(v, ty)

    def ptrint(self, p):
        if isinstance(p, Ptr):
            if p.obj is NULLOBJ:
                return p.off
            return iadd(app('addr:' + p.obj.base, p.obj.idx, 'I'), p.off)
        if isinstance(p, PIte):
            return ite(p.c, self.ptrint(p.a), self.ptrint(p.b))
        if isinstance(p, Undef):
            return app('undef:' + p.name, p.idx, 'I')
        if isinstance(p, Str8):
            return iadd(app('addr:str', (p.s,), 'I'), p.off)
        return app('addr?', (), 'I')

    def intop(self, op, a, b, ty):
        if ty == 'i1':
            a, b = self.tobool(a), self.tobool(b)
            if op == 'and' or op == 'mul':
                return and_(a, b)
            if op == 'or':
                return or_(a, b)
            if op in ('xor', 'add', 'sub'):
                return not_(eq(a, b)) if b.op != 'c' else (not_(a) if b is TRUE else a)
        if a.sort == 'B':
            a = ite(a, ONE, ZERO)
        if b.sort == 'B':
            b = ite(b, ONE, ZERO)
        if op == 'add':
            return iadd(a, b)
        if op == 'sub':
            return iadd(a, b, -1)
        if op == 'mul':
            return imul(a, b)
        bc = b.args[0] if b.op == 'c' else None
        if op in ('sdiv', 'udiv') and bc and bc > 0:
            if a.op == 'c':
                q = abs(a.args[0]) // bc
                return I(q if a.args[0] >= 0 else -q)
            c, d = ipoly(a)
            if nonneg(a) or (c % bc == 0 and all(k % bc == 0 for k in d.values())):
                return idiv(a, bc)
            q = idiv(a, bc)
            return ite(le(ZERO, a), q, imul(I(-1), idiv(imul(a, I(-1)), bc)))
        if op in ('srem', 'urem') and bc and bc > 0:
            if a.op == 'c':
                q = abs(a.args[0]) % bc
                return I(q if a.args[0] >= 0 else -q)
            if nonneg(a) or op == 'urem':
                return imod(a, bc)
            return ite(le(ZERO, a), imod(a, bc), imul(I(-1), imod(imul(a, I(-1)), bc)))
        if op == 'shl' and bc is not None:
            return imul(a, I(1 << bc))
        if op == 'lshr' and bc is not None:
            return idiv(a, 1 << bc)
        if op == 'ashr' and bc is not None:
            return idiv(a, 1 << bc)
        if a.op == 'c' and b.op == 'c':
            x, y = a.args[0], b.args[0]
            return I({'and': x & y, 'or': x | y, 'xor': x ^ y}.get(op, 0))
        if op in ('and', 'or', 'xor'):
            # widened truth values
            p, q = asbool(a), asbool(b)
            if p is not None and q is not None:
                c = and_(p, q) if op == 'and' else or_(p, q) if op == 'or' else or_(and_(p, not_(q)), and_(not_(p), q))
                return ite(c, ONE, ZERO)
        if op == 'and' and bc is not None and bc >= 0 and (bc + 1) & bc == 0:
            return imod(a, bc + 1)
        return app('int_' + op, (a, b), 'I')

    def icmp(self, pred, a, b, cty):
        if cty == 'ptr' or isinstance(a, (Ptr, PIte, FnPtr, Str8)) or isinstance(b, (Ptr, PIte, FnPtr, Str8)):
            return self.ptrcmp(pred, a, b)
        a = self.num(a, cty)
        b = self.num(b, cty)
        if cty == 'i1':
            e = eq(a, b)
            return e if pred == 'eq' else not_(e)
        if pred[0] == 'u':
            if b.op == 'c' and b.args[0] < 0:
                b = I(b.args[0] % (1 << int(cty[1:])))
            if a.op == 'c' and a.args[0] < 0:
                a = I(a.args[0] % (1 << int(cty[1:])))
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return ne(a, b)
        p = pred[1:]
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[p](a, b)

    def ptrcmp(self, pred, a, b):
        if isinstance(a, PIte):
            return ite(a.c, self.ptrcmp(pred, a.a, b), self.ptrcmp(pred, a.b, b))
        if isinstance(b, PIte):
            return ite(b.c, self.ptrcmp(pred, a, b.a), self.ptrcmp(pred, a, b.b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj.base != b.obj.base:
                if pred in ('eq', 'ne'):
                    return FALSE if pred == 'eq' else TRUE
            else:
                same = and_(*[eq(x, y) for x, y in zip(a.obj.idx, b.obj.idx)])
                if pred in ('eq', 'ne'):
                    e = and_(same, eq(a.off, b.off))
                    return e if pred == 'eq' else not_(e)
                if same is TRUE:
                    return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a.off, b.off)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = TRUE if a == b else FALSE
            return e if pred == 'eq' else not_(e)
        if isinstance(a, Undef) or isinstance(b, Undef):
            r = eq(self.ptrint(a), self.ptrint(b))
            return r if pred == 'eq' else not_(r)
        x, y = self.ptrint(a), self.ptrint(b)
        e = eq(x, y)
        return {'eq': e, 'ne': not_(e)}.get(pred, app('ptrcmp', (x, y), 'B'))

    # ------------------------------------------------------------ call instructions
    def do_call(self, fr, i, st, env):
        mod = fr.fn.mod
        c = i['callee']
        if c[0] == 'asm':
            return [(st, Undef('asm'))]
        args = [self.operand(a, env, mod) for a in i['args']]
        if c[0] != 'fn':
            f = self.operand(c, env, mod)
            return self.call_ptr(fr, i, f, args, st)
        return self.call_named(fr, i, c[1], args, st, mod)

    def call_ptr(self, fr, i, f, args, st):
        if isinstance(f, PIte):
            out = []
            for s2, val in self.fork(st, f.c):
                out += self.call_ptr(fr, i, f.a if val else f.b, args, s2)
            return out
        if isinstance(f, FnPtr):
            if f.name == '__cxa_pure_virtual':
                self.oblige(st, 'no pure virtual call', FALSE, 'safety')
            return self.call_named(fr, i, f.name, args, st, fr.fn.mod)
        self.oblige(st, 'call through a valid function pointer (%r)' % (f,), FALSE, 'safety')

    def call_named(self, fr, i, name, args, st, mod):
        fn = self.prog.fn(mod, name)
        dem = fn.dem if fn else name
        if dem in self.prog.replace:
            r = self.prog.fns[self.prog.replace[dem]]
            if r not in self.stack:
                fn = r
                name = r.name
                dem = r.dem
        m = self.modelcache.get(name)
        if m is None:
            m = self.models.lookup(name, dem, fn)
            self.modelcache[name] = m or False
        if m:
            cx = Ctx(self, fr, i, fn, name, dem)
            try:
                return m(cx, st, args)
            except PathEnd:
                return []
        if fn is None or not fn.defined:
            if i.get('noreturn'):
                return []
            if any(isinstance(v, (Ptr, PIte)) for v in args):
                raise Unsupported('call of a function without contract or model: %s' % dem)
            self.note('unmodelled external function %s' % dem)
            return [(st, self.havoc(st, i['ty'], 'ext:' + dem.split('(')[0]))]
        if 'byval' in i:
            args = list(args)
            for n, sz in enumerate(i['byval']):
                if sz:
                    p = self.alloc(st, 'byval:%s.%d.%d' % (fr.fn.name, i['id'], n), I(sz), kind='alloca')
                    fr.allocas.append(p.obj.base)
                    self.memcpy(st, p, args[n], sz)
                    args[n] = p
        return self.call(fn, args, st)

    def havoc(self, st, ty, name):
        if ty == 'void':
            return None
        if ty == 'ptr' or ty.startswith('{') or ty.startswith('%'):
            return Undef(self.occ(st, name), self.iters)
        return self.fresh(st, name, sort_of(ty))

    # ------------------------------------------------------------ block copies
    def memcpy(self, st, dst, src, size):
        """copy a constant number of bytes"""
        if isinstance(src, PIte) or isinstance(dst, PIte):
            p = src if isinstance(src, PIte) else dst
            d = st.facts.decide(p.c)
            if d is not None:
                q = p.a if d else p.b
                return self.memcpy(st, dst, q, size) if p is src else self.memcpy(st, q, src, size)
            if p is src:
                # via a generic walk over 8 byte cells of the first alternative
                cells = self.cells_in(st, leafptr(src), size)
                for r, ty in cells:
                    self.store(st, padd_(dst, I(r)), 8, self.load(st, padd_(src, I(r)), 8, ty))
                return
            raise Unsupported('copy to conditional pointer')
        if not isinstance(src, Ptr) or not isinstance(dst, Ptr):
            self.oblige(st, 'memory safety: copy between valid pointers', FALSE, 'safety')
        self.bounds(st, src, size)
        self.bounds(st, dst, size)
        for r, ty in self.cells_in(st, src, size):
            v = self.load(st, padd_(src, I(r)), 1, ty)
            self.store(st, padd_(dst, I(r)), 1, v)

    def cells_in(self, st, src, size):
        """offsets (relative to src) of the cells in [src, src+size) with a value, and their type"""
        inner = st.mem.get(src.obj.base, {})
        e, res = self.stride_of(src.obj.base, src.off, 8)
        s = self.stride.get(src.obj.base)
        out = []
        keys = [k for k in inner if isinstance(k, int)]
        d = self.dflt_of(st, src.obj.base, src.obj.idx)
        if d.kind == 'glob' and s is None:
            g = self.gmap[d.a[0]]
            keys += glob_cells(g.get('init'), 0)
        elif d.kind == 'copy':
            keys += [k for k in d.a[0] if isinstance(k, int)]
        elif d.kind in ('sym', 'zero', 'fill', 'u') and not keys:
            keys += list(range(0, s or size, 8))
        keys = sorted(set(keys))
        for k in keys:
            if s is None:
                if res <= k < res + size:
                    out.append((k - res, self.celltype(st, inner, k)))
            else:
                n = 0
                while True:
                    o = k + n * s - res
                    if o >= size:
                        break
                    if o >= 0:
                        out.append((o, self.celltype(st, inner, k)))
                    n += 1
        return out

    def celltype(self, st, inner, k):
        v = inner.get(k)
        if isinstance(v, Arr):
            for w in v.ws:
                return type_like(w.val)
            return 'double'
        if v is None:
            return 'double'
        return type_like(v)

    # ------------------------------------------------------------ loops
    def run_loop(self, fr, header, prev, st, env):
        from .loops import run_loop
        return run_loop(self, fr, header, prev, st, env)


def asbool(t):
    """c for ite(c, 1, 0)"""
    if t is ONE or t is ZERO:
        return TRUE if t is ONE else FALSE
    if t.op == 'ite' and t.args[1] is ONE and t.args[2] is ZERO:
        return t.args[0]
    if t.op == 'ite' and t.args[1] is ZERO and t.args[2] is ONE:
        return not_(t.args[0])
    return None


class Ctx:
    __slots__ = ('x', 'fr', 'i', 'fn', 'name', 'dem')

    def __init__(self, x, fr, i, fn, name, dem):
        self.x, self.fr, self.i, self.fn, self.name, self.dem = x, fr, i, fn, name, dem

    @property
    def site(self):
        return '%s.%d' % (self.fr.fn.name, self.i['id'])


def glob_cells(c, off):
    if c is None:
        return []
    if c[0] == 'agg':
        r = []
        for o, x in c[1]:
            r += glob_cells(x, off + o)
        return r
    if c[0] == 'z':
        return list(range(off, off + c[1], 8))
    return [off]


def leafptr(p):
    while isinstance(p, PIte):
        p = p.a
    return p


def padd_(p, off):
    if off is ZERO:
        return p
    if isinstance(p, Ptr):
        return Ptr(p.obj, iadd(p.off, off))
    if isinstance(p, PIte):
        return pite(p.c, padd_(p.a, off), padd_(p.b, off))
    if isinstance(p, Str8):
        return Str8(p.s, iadd(p.off, off))
    return p


def sort_of(ty):
    if ty in ('double', 'float'):
        return 'R'
    if ty == 'i1':
        return 'B'
    if ty == 'S?':
        return 'S'
    return 'I'


def zero_of(ty):
    if ty in ('double', 'float'):
        return RZERO
    if ty == 'i1':
        return FALSE
    if ty == 'ptr':
        return NULL
    if ty == 'S?':
        return S('')
    return ZERO


def type_like(v):
    if isinstance(v, T):
        return {'R': 'double', 'I': 'i64', 'B': 'i1', 'S': 'S?'}[v.sort]
    return 'ptr'
