"""Run-time values of the symbolic executor besides terms: pointers, arrays, lambdas."""
from .terms import *


class Obj:
    """an object (family member): base name and the index tuple of the loop iterations that created it"""
    __slots__ = ('base', 'idx', '_h')
    _t = {}

    def __new__(cls, base, idx=()):
        k = (base, idx)
        o = cls._t.get(k)
        if o is None:
            o = object.__new__(cls)
            o.base = base
            o.idx = idx
            o._h = hash(k)
            cls._t[k] = o
        return o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return self.base + (repr(list(self.idx)) if self.idx else '')


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=ZERO):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off is o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return '&%r+%r' % (self.obj, self.off)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PIte) and self.c is o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return 'ite(%r,%r,%r)' % (self.c, self.a, self.b)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '@' + self.name


class Str8:
    """a char pointer to the text of a string term (plus offset)"""
    __slots__ = ('s', 'off')

    def __init__(self, s, off=ZERO):
        self.s = s
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Str8) and self.s is o.s and self.off is o.off

    def __hash__(self):
        return hash((self.s, self.off))

    def __repr__(self):
        return 'cstr(%r+%r)' % (self.s, self.off)


class Undef:
    """an unspecified value; named so that equal places give equal values"""
    __slots__ = ('name', 'idx')

    def __init__(self, name, idx=()):
        self.name = name
        self.idx = idx

    def __eq__(self, o):
        return isinstance(o, Undef) and self.name == o.name and self.idx == o.idx

    def __hash__(self):
        return hash((self.name, self.idx))

    def __repr__(self):
        return 'undef(%s)' % self.name


class W:
    """a generalised array write: for all values of bvs with guard: A[idx] = val  (or += val)"""
    __slots__ = ('bvs', 'guard', 'idx', 'val', 'add')

    def __init__(self, bvs, guard, idx, val, add=False):
        self.bvs, self.guard, self.idx, self.val, self.add = bvs, guard, idx, val, add

    def key(self):
        return (self.bvs, self.guard, self.idx, self.val, self.add)

    def __eq__(self, o):
        return isinstance(o, W) and self.key() == o.key()

    def __hash__(self):
        return hash((self.guard, self.idx, self.val))

    def __repr__(self):
        return 'W(%r if %r: [%r] %s %r)' % (self.bvs, self.guard, self.idx, '+=' if self.add else '=', self.val)


class Arr:
    """array contents: a default and a list of writes, later ones win"""
    __slots__ = ('dflt', 'ws')

    def __init__(self, dflt, ws=()):
        self.dflt = dflt
        self.ws = ws

    def __eq__(self, o):
        return isinstance(o, Arr) and self.dflt == o.dflt and self.ws == o.ws

    def __hash__(self):
        return hash((self.dflt, len(self.ws)))

    def __repr__(self):
        return 'Arr(%r; %s)' % (self.dflt, ', '.join(map(repr, self.ws)))


class D:
    """array default: kind and parameters"""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, *a):
        self.kind = kind
        self.a = a

    def __eq__(self, o):
        return isinstance(o, D) and self.kind == o.kind and self.a == o.a

    def __hash__(self):
        return hash((self.kind, self.a[0] if self.a and not isinstance(self.a[0], dict) else None))

    def __repr__(self):
        return '%s%r' % (self.kind, self.a if self.kind not in ('copy',) else '')


class Lam:
    """a value as a function of the object index"""
    __slots__ = ('ps', 'v')

    def __init__(self, ps, v):
        self.ps, self.v = ps, v

    def __eq__(self, o):
        return isinstance(o, Lam) and self.ps == o.ps and self.v == o.v

    def __hash__(self):
        return hash(self.ps)

    def __repr__(self):
        return '\\%r.%r' % (self.ps, self.v)

    def at(self, idx):
        return vsubst(self.v, dict(zip(self.ps, idx))) if self.ps else self.v


def lam(iters, v):
    if not iters:
        return Lam((), v)
    ps = tuple(app('!p%d' % i, (), 'I') for i in range(len(iters)))
    return Lam(ps, vsubst(v, dict(zip(iters, ps))))


class Agg:
    """first-class aggregate"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, Agg) and self.f == o.f

    def __hash__(self):
        return 7


def vsubst(v, m, memo=None):
    if not m:
        return v
    if memo is None:
        memo = {}
        ks = frozenset(m)
        memo['__k'] = ks if all(k.op == 'app' and len(k.args) == 1 for k in ks) else None
    return _vs(v, m, memo)


def _tuple(t, m, memo):
    return tuple(_vs(x, m, memo) for x in t)


def _vs(v, m, memo):
    if isinstance(v, T):
        return subst(v, m, memo)
    if isinstance(v, Ptr):
        o = v.obj
        if o.idx:
            idx = _tuple(o.idx, m, memo)
            if idx != o.idx:
                o = Obj(o.base, idx)
        off = subst(v.off, m, memo)
        return v if o is v.obj and off is v.off else Ptr(o, off)
    if isinstance(v, PIte):
        return pite(_vs(v.c, m, memo), _vs(v.a, m, memo), _vs(v.b, m, memo))
    if isinstance(v, Str8):
        return Str8(subst(v.s, m, memo), subst(v.off, m, memo))
    if isinstance(v, Undef):
        return Undef(v.name, _tuple(v.idx, m, memo)) if v.idx else v
    if isinstance(v, Arr):
        ks = memo.get('__k')
        if ks is not None and not (vfree(v) & ks):
            return v
        ws = tuple(_wsub(w, m, memo) for w in v.ws)
        d = _dsub(v.dflt, m, memo)
        return Arr(d, tuple(w for w in ws if w.guard is not FALSE))
    if isinstance(v, D):
        return _dsub(v, m, memo)
    if isinstance(v, Lam):
        return Lam(v.ps, _vs(v.v, {a: b for a, b in m.items() if a not in v.ps}, {'__k': memo.get('__k')}) if v.ps
                   and any(p in m for p in v.ps) else _vs(v.v, m, memo))
    if isinstance(v, Agg):
        return Agg({k: _vs(x, m, memo) for k, x in v.f.items()})
    if isinstance(v, tuple):
        return _tuple(v, m, memo)
    if isinstance(v, dict):
        return {k: _vs(x, m, memo) for k, x in v.items()}
    return v


def _wsub(w, m, memo):
    # bound variables of writes are globally unique names, no capture
    return W(tuple((b, subst(h, m, memo)) for b, h in w.bvs), subst(w.guard, m, memo), _tuple(w.idx, m, memo),
             _vs(w.val, m, memo), w.add)


def _dsub(d, m, memo):
    if not d.a:
        return d
    return D(d.kind, *[_vs(x, m, memo) if not isinstance(x, str) else x for x in d.a])


_vf = {}


def vfree(v):
    if isinstance(v, T):
        return free(v)
    if isinstance(v, Ptr):
        r = free(v.off)
        for x in v.obj.idx:
            r = r | free(x)
        return r
    if isinstance(v, PIte):
        return free(v.c) | vfree(v.a) | vfree(v.b)
    if isinstance(v, Str8):
        return free(v.s) | free(v.off)
    if isinstance(v, Undef):
        r = frozenset()
        for x in v.idx:
            r = r | vfree(x)
        return r
    if isinstance(v, (Arr, W, D)):
        k = id(v)
        r = _vf.get(k)
        if r is not None and r[0] is v:
            return r[1]
        if isinstance(v, Arr):
            r = vfree(v.dflt)
            for w in v.ws:
                r = r | vfree(w)
        elif isinstance(v, W):
            r = free(v.guard) | vfree(v.val)
            for x in v.idx:
                r = r | vfree(x)
            for b, h in v.bvs:
                r = r | free(h)
            r = r - {b for b, h in v.bvs}
        else:
            r = frozenset()
            for x in v.a:
                r = r | vfree(x)
        _vf[k] = (v, r)
        return r
    if isinstance(v, Lam):
        return vfree(v.v) - set(v.ps)
    if isinstance(v, Agg):
        r = frozenset()
        for x in v.f.values():
            r = r | vfree(x)
        return r
    if isinstance(v, tuple):
        r = frozenset()
        for x in v:
            r = r | vfree(x)
        return r
    if isinstance(v, dict):
        r = frozenset()
        for x in v.values():
            r = r | vfree(x)
        return r
    return frozenset()


NULLOBJ = Obj('null')
NULL = Ptr(NULLOBJ)


def pite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort:
            a, b = unify_sorts(a, b)
        return ite(c, a, b)
    if a == b:
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj.base == b.obj.base and a.obj is not NULLOBJ and \
            len(a.obj.idx) == len(b.obj.idx):
        return Ptr(Obj(a.obj.base, tuple(ite(c, x, y) for x, y in zip(a.obj.idx, b.obj.idx))), ite(c, a.off, b.off))
    if isinstance(a, Agg) and isinstance(b, Agg):
        return Agg({k: pite(c, a.f[k], b.f[k]) for k in a.f if k in b.f})
    if isinstance(a, Undef) and isinstance(b, T):
        return ite(c, app('undef:' + a.name, a.idx, b.sort), b)
    if isinstance(b, Undef) and isinstance(a, T):
        return ite(c, a, app('undef:' + b.name, b.idx, a.sort))
    if isinstance(a, Str8) and isinstance(b, Str8):
        return Str8(ite(c, a.s, b.s), ite(c, a.off, b.off))
    return PIte(c, a, b)


def unify_sorts(a, b):
    if a.sort == 'B' and b.sort == 'I':
        return ite(a, ONE, ZERO), b
    if a.sort == 'I' and b.sort == 'B':
        return a, ite(b, ONE, ZERO)
    if a.sort == 'I' and b.sort == 'R':
        return toreal(a), b
    if a.sort == 'R' and b.sort == 'I':
        return a, toreal(b)
    return a, b
