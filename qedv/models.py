"""Contracts of the functions outside the code under verification: harness primitives, libm, the C++ library."""
import re
from fractions import Fraction
from .terms import *
from .values import *
from .exec import PathEnd, Unsupported, padd_, type_like, sort_of, zero_of, leafptr, Restart
from .prove import Facts

REG = []            # (regex, function)
EXACT = {}


def model(*names):
    def deco(f):
        for n in names:
            EXACT[n] = f
        return f
    return deco


def rx(pattern):
    def deco(f):
        REG.append((re.compile(pattern), f))
        return f
    return deco


def lookup(name, dem, fn):
    if name in EXACT:
        return EXACT[name]
    if name.startswith('llvm.'):
        return llvm(name)
    for r, f in REG:
        if r.match(dem):
            return f
    return None


def one(f):
    """model returning a single value"""
    def g(cx, st, a):
        return [(st, f(cx, st, a))]
    return g


# ---------------------------------------------------------------- helpers
def cstring(cx, st, p):
    """the string term a char pointer points to"""
    x = cx.x if hasattr(cx, 'x') else cx
    if isinstance(p, Str8):
        if p.off is ZERO:
            return p.s
        return app('substr', (p.s, p.off), 'S')
    if isinstance(p, PIte):
        d = st.facts.decide(p.c)
        if d is not None:
            return cstring(cx, st, p.a if d else p.b)
        for q, c in ((p.a, not_(p.c)), (p.b, p.c)):
            if isinstance(q, Ptr) and q.obj is NULLOBJ:
                x.oblige(st, 'memory safety: no null pointer access', c, 'safety')
                return cstring(cx, st, p.b if q is p.a else p.a)
        return ite(p.c, cstring(cx, st, p.a), cstring(cx, st, p.b))
    if isinstance(p, Ptr) and p.obj.base.startswith('g:'):
        g = x.gmap.get(p.obj.base[2:])
        if g and 'init' in g and p.off.op == 'c':
            c = g['init']
            if c[0] == 's':
                return S(c[1][p.off.args[0]:].split('\0')[0])
            if c[0] == 'z':
                return S('')
    if isinstance(p, Ptr):
        inner = st.mem.get(p.obj.base)
        if inner is not None and '#str' in inner and p.off is ZERO:
            return inner['#str']
    return None


def pystr(cx, st, p):
    s = cstring(cx, st, p)
    if s is None or s.op != 'c':
        raise Unsupported('constant string expected')
    return s.args[0]


def sget(cx, st, p):
    """the term of a std::string object"""
    v = cx.x.load(st, p, 8, 'S?')
    if isinstance(v, Undef):
        return app('undef:' + v.name, v.idx, 'S')
    if not isinstance(v, T) or v.sort != 'S':
        raise Unsupported('string object expected')
    return v


def sput(cx, st, p, s):
    cx.x.store(st, p, 8, s)


# ---------------------------------------------------------------- harness primitives
def sym(cx, st, a, sort, n0=1):
    name = pystr(cx, st, a[0])
    idx = [z for z in a[n0:] if isinstance(z, T)]
    INPUTS.add(name)
    if any(z is not ZERO for z in idx):
        from . import smt
        smt.IDXD.add(name)
    return name, tuple(idx)


@model('qv_real')
@one
def _(cx, st, a):
    name, idx = sym(cx, st, a, 'R')
    return app(name, idx, 'R')


@model('qv_pos')
@one
def _(cx, st, a):
    name, idx = sym(cx, st, a, 'R')
    v = app(name, idx, 'R')
    declare(cx, st, rlt(RZERO, v))
    return v


@model('qv_range')
@one
def _(cx, st, a):
    name, idx = sym(cx, st, a, 'R', 3)
    v = app(name, idx, 'R')
    declare(cx, st, rle(a[1], v))
    declare(cx, st, rle(v, a[2]))
    return v


def declare(cx, st, c):
    st.fact(c)
    for x in (c.args if c.op == 'and' else (c,)):
        cx.x.axioms.add(x)


BIG = 1 << 40


@model('qv_int')
@one
def _(cx, st, a):
    name, idx = sym(cx, st, a, 'I', 3)
    v = app(name, idx, 'I')
    if a[1].op == 'c' and a[1].args[0] >= 0:
        NNAMES.add(name)
    declare(cx, st, le(a[1], v))
    if not (a[2].op == 'c' and a[2].args[0] >= BIG):
        declare(cx, st, le(v, a[2]))
    if a[1].op == 'c' and a[2].op == 'c' and a[1].args[0] == a[2].args[0]:
        return a[1]
    return v


@model('qv_index')
@one
def _(cx, st, a):
    name, idx = sym(cx, st, a, 'I', 2)
    v = app(name, idx, 'I')
    NNAMES.add(name)
    declare(cx, st, lt(v, a[1]))
    return v


@model('qv_bool')
@one
def _(cx, st, a):
    name, idx = sym(cx, st, a, 'B')
    return app(name, idx, 'B')


@model('qv_choose')
def _(cx, st, a):
    """case split over 0..n-1 (n constant)"""
    name, idx = sym(cx, st, a, 'I', 2)
    v = app(name, idx, 'I')
    NNAMES.add(name)
    out = []
    n = a[1].args[0]
    for i in range(n):
        s2 = st.copy()
        if s2.facts.decide(eq(v, I(i))) is False:
            continue
        s2.fact(eq(v, I(i)))
        out.append((s2, I(i)))
    return out


@model('qv_fun1', 'qv_fun2', 'qv_fun3', 'qv_fun4', 'qv_fun5', 'qv_fun6')
@one
def _(cx, st, a):
    return app(pystr(cx, st, a[0]), tuple(a[1:]), 'R')


@model('qv_rfun')
@one
def _(cx, st, a):
    return app(pystr(cx, st, a[0]), tuple(a[1:]), 'R')


@model('qv_str')
@one
def _(cx, st, a):
    name, idx = sym(cx, st, a, 'S')
    return Str8(app(name, idx, 'S'))


def arr_input(name):
    from . import smt
    INPUTS.add(name)
    smt.IDXD.add(name)


@model('qv_array')
@one
def _(cx, st, a):
    name = pystr(cx, st, a[0])
    arr_input(name)
    p = cx.x.alloc(st, 'in:' + name, imul(a[1], I(8)), D('sym', name, *cx.x.iters))
    cx.x.stride.setdefault(p.obj.base, 8)
    return p


@model('qv_sorted')
@one
def _(cx, st, a):
    x = cx.x
    name = pystr(cx, st, a[0])
    arr_input(name)
    p = x.alloc(st, 'in:' + name, imul(a[1], I(8)), D('sym', name, *x.iters))
    x.stride.setdefault(p.obj.base, 8)
    i, j = app('!i', (), 'I'), app('!j', (), 'I')
    f = lambda q: app(name, x.iters + (q,), 'R')
    st.fact(forall(i, ZERO, a[1], forall(j, ZERO, i, rlt(f(j), f(i)))))
    return p


@model('qv_ordered')
@one
def _(cx, st, a):
    x = cx.x
    name = pystr(cx, st, a[0])
    arr_input(name)
    p = x.alloc(st, 'in:' + name, imul(a[1], I(8)), D('sym', name, *x.iters))
    x.stride.setdefault(p.obj.base, 8)
    i, j = app('!i', (), 'I'), app('!j', (), 'I')
    f = lambda q: app(name, x.iters + (q,), 'R')
    st.fact(forall(i, ZERO, a[1], forall(j, ZERO, i, rle(f(j), f(i)))))
    return p


@model('qv_assume')
def _(cx, st, a):
    c = cx.x.tobool(a[0])
    if c is FALSE or st.facts.quick(c) is False:
        return []
    st.fact(c)
    return [(st, None)]


@model('qv_check')
@one
def _(cx, st, a):
    cx.x.oblige(st, pystr(cx, st, a[1]), cx.x.tobool(a[0]))


@model('qv_eq')
@one
def _(cx, st, a):
    cx.x.oblige(st, pystr(cx, st, a[2]), eq(cx.x.num(a[0], 'double'), cx.x.num(a[1], 'double')))


@model('qv_eqs')
@one
def _(cx, st, a):
    """string equality: (const std::string&, const std::string&, name)"""
    cx.x.oblige(st, pystr(cx, st, a[2]), eq(sget(cx, st, a[0]), sget(cx, st, a[1])))


@model('qv_may_exit')
@one
def _(cx, st, a):
    st.flags['exitok'] = cx.x.tobool(a[0])


@model('qv_divcheck')
@one
def _(cx, st, a):
    st.flags['div'] = a[0] is TRUE or (a[0].op == 'c' and a[0].args[0] != 0)


@model('qv_lemma')
def _(cx, st, a):
    """a mathematical fact taken from the trusted lemma list"""
    cx.x.note('trusted lemma: ' + pystr(cx, st, a[1]))
    st.fact(cx.x.tobool(a[0]))
    return [(st, None)]


def gbase(cx, st, a):
    return 'ghost:' + pystr(cx, st, a[0])


def gidx(cx, st, p):
    s = cstring(cx, st, p)
    if s is None:
        raise Unsupported('ghost map key')
    return (s,)


def gcell(st, base, res, dflt):
    inner = st.mem.get(base)
    if inner is None or res not in inner:
        return Arr(dflt)
    return inner[res]


def gput(cx, st, base, res, idx, v, dflt):
    arr = gcell(st, base, res, dflt)
    st.set(base, res, cx.x.arr_store(st, arr, idx, v))


def gadd(cx, st, base, res, idx, v, dflt):
    arr = gcell(st, base, res, dflt)
    st.set(base, res, Arr(arr.dflt, arr.ws + (W((), TRUE, idx, v, True),)))


def gread(cx, st, base, res, idx, ty, dflt):
    arr = gcell(st, base, res, dflt)
    return cx.x.arr_read(st, arr, idx, ty, base, res, 0)


DZ = D('zero')


@model('qv_put')
@one
def _(cx, st, a):
    b = gbase(cx, st, a)
    k = gidx(cx, st, a[1])
    gput(cx, st, b, '#v', k, cx.x.num(a[2], 'double'), DZ)
    gadd(cx, st, b, '#n', k, ONE, DZ)


@model('qv_get')
@one
def _(cx, st, a):
    return gread(cx, st, gbase(cx, st, a), '#v', gidx(cx, st, a[1]), 'double', DZ)


@model('qv_count')
@one
def _(cx, st, a):
    return gread(cx, st, gbase(cx, st, a), '#n', gidx(cx, st, a[1]), 'i64', DZ)


def whole(st, p, n):
    """the last write of an array of n elements, if it is a row-major fill of all of it"""
    if not isinstance(p, Ptr) or p.off is not ZERO:
        return None
    a = st.mem.get(p.obj.base, {}).get(0)
    if not isinstance(a, Arr) or not a.ws:
        return None
    w = a.ws[-1]
    if len(w.bvs) < 2 or w.add or w.guard is not TRUE or w.idx[:-1] != p.obj.idx:
        return None
    e, t = ZERO, ONE
    for v, h in w.bvs:
        if any(u in free(h) for u, _ in w.bvs):
            return None
        e, t = iadd(imul(e, h), v), imul(t, h)
    return w if e is w.idx[-1] and t is n else None


@model('qv_putarr')
@one
def _(cx, st, a):
    """snapshot of n doubles under a key"""
    x = cx.x
    b = gbase(cx, st, a)
    k = gidx(cx, st, a[1])
    n = a[3]
    gadd(cx, st, b, '#n', k, ONE, DZ)
    gput(cx, st, b, '#len', k, n, DZ)
    if n.op == 'c' and n.args[0] <= 16:
        for i in range(n.args[0]):
            v = x.load(st, padd_(a[2], I(8 * i)), 8, 'double')
            gput(cx, st, b, '#a', k + (I(i),), v, DZ)
        return
    p = a[2]
    if isinstance(p, Ptr) and x.stride.get(p.obj.base) != 8 and not (p.obj.base.startswith('g:')):
        x.stride[p.obj.base] = 8
        raise Restart()
    w = whole(st, p, n)
    if w is not None:
        arr = gcell(st, b, '#a', DZ)
        st.set(b, '#a', Arr(arr.dflt, arr.ws + (W(w.bvs, TRUE, k + (w.idx[-1],), w.val),)))
        return
    v = app('snap:%s' % x.occ(st, cx.site), (), 'I')
    NNAMES.add(v.args[0])
    s2 = st.copy()
    s2.fact(lt(v, n))
    nobs = len(x.obs)
    val = x.load(s2, padd_(p, imul(v, I(8))), 8, 'double')
    arr = gcell(st, b, '#a', DZ)
    st.set(b, '#a', Arr(arr.dflt, arr.ws + (W(((v, n),), TRUE, k + (v,), val),)))


@model('qv_getarr')
@one
def _(cx, st, a):
    return gread(cx, st, gbase(cx, st, a), '#a', gidx(cx, st, a[1]) + (a[2],), 'double', DZ)


@model('qv_len')
@one
def _(cx, st, a):
    return gread(cx, st, gbase(cx, st, a), '#len', gidx(cx, st, a[1]), 'i64', DZ)


# ghost arrays indexed by up to three integers
@model('qv_gset')
@one
def _(cx, st, a):
    gput(cx, st, gbase(cx, st, a), '#i', tuple(a[1:4]), cx.x.num(a[4], 'double'), DZ)


@model('qv_gadd')
@one
def _(cx, st, a):
    gadd(cx, st, gbase(cx, st, a), '#i', tuple(a[1:4]), cx.x.num(a[4], 'double'), DZ)


@model('qv_gget')
@one
def _(cx, st, a):
    return gread(cx, st, gbase(cx, st, a), '#i', tuple(a[1:4]), 'double', DZ)


@model('qv_tostring')
@one
def _(cx, st, a):
    # (sret) std::string of an integer
    sput(cx, st, a[0], tostr(a[1]))


@model('qv_addr')
@one
def _(cx, st, a):
    return cx.x.ptrint(a[0])


# contract abstraction: an uninterpreted function of array contents
@model('qv_lamint')
@one
def _(cx, st, a):
    r = lamfun(cx, st, a)
    NNAMES.add(r.args[0])
    return app(r.args[0], r.args[1:], 'I')


@model('qv_lamindex')
@one
def _(cx, st, a):
    """an index into the table: 0 <= r < n"""
    r = lamfun(cx, st, a)
    NNAMES.add(r.args[0])
    v = app(r.args[0], r.args[1:], 'I')
    declare(cx, st, lt(v, a[3]))
    return v


@model('qv_lamfun')
@one
def _(cx, st, a):
    return lamfun(cx, st, a)


def lamfun(cx, st, a):
    """qv_lamfun(name, const double* A, const double* B, n, q): function of the contents of A and B on 0..n-1, of n and q"""
    x = cx.x
    name = pystr(cx, st, a[0])
    v = app('!lam', (), 'I')
    NNAMES.add('!lam')
    parts = []
    for p in a[1:3]:
        if isinstance(p, Ptr) and p.obj is NULLOBJ:
            parts.append(RZERO)
            continue
        s2 = st.copy()
        s2.fact(lt(v, a[3]))
        parts.append(x.load(s2, padd_(p, imul(v, I(8))), 8, 'double'))
    lamt = [lamarr(v, ZERO, lift(a[3]), t) for t in parts]
    return app(name, tuple(lamt) + (a[3], a[4]), 'R')


# ---------------------------------------------------------------- C library
for _n in ('sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'log10', 'atan', 'acos', 'asin', 'sinh', 'cosh', 'tanh', 'cbrt', 'floor', 'ceil', 'round', 'exp2', 'log2'):
    def _mk(n):
        @one
        def f(cx, st, a):
            return fn(n, cx.x.num(a[0], 'double'))
        return f
    EXACT[_n] = _mk(_n)
for _n in ('pow', 'atan2', 'fmod', 'hypot'):
    def _mk(n):
        @one
        def f(cx, st, a):
            return fn(n, cx.x.num(a[0], 'double'), cx.x.num(a[1], 'double'))
        return f
    EXACT[_n] = _mk(_n)


@model('fabs')
@one
def _(cx, st, a):
    return fn('fabs', a[0])


@model('fmin')
@one
def _(cx, st, a):
    return ite(rlt(a[1], a[0]), a[1], a[0])


@model('fmax')
@one
def _(cx, st, a):
    return ite(rlt(a[0], a[1]), a[1], a[0])


@model('abs', 'labs')
@one
def _(cx, st, a):
    return ite(lt(a[0], ZERO), neg(a[0]), a[0])


def llvm(name):
    n = name.split('.')[1]
    if n in ('sqrt', 'sin', 'cos', 'exp', 'log', 'log10', 'pow', 'fabs', 'floor', 'ceil', 'exp2', 'log2', 'round'):
        return EXACT[n]
    if n == 'fmuladd':
        return one(lambda cx, st, a: radd(rmul(a[0], a[1]), a[2]))
    if n in ('maxnum', 'minnum'):
        return EXACT['fmax' if n == 'maxnum' else 'fmin']
    if n in ('memcpy', 'memmove'):
        return EXACT['memcpy']
    if n == 'memset':
        return EXACT['memset']
    if n == 'stacksave':
        return one(lambda cx, st, a: NULL)
    if n == 'umax' or n == 'smax':
        return one(lambda cx, st, a: ite(lt(a[0], a[1]), a[1], a[0]))
    if n == 'umin' or n == 'smin':
        return one(lambda cx, st, a: ite(lt(a[1], a[0]), a[1], a[0]))
    if n == 'abs':
        return EXACT['abs']
    if n == 'umul':     # with.overflow
        return one(lambda cx, st, a: Agg({0: imul(a[0], a[1]), 1: FALSE}))
    if n == 'uadd':
        return one(lambda cx, st, a: Agg({0: iadd(a[0], a[1]), 1: FALSE}))
    if n == 'is':
        return one(lambda cx, st, a: FALSE)
    if n == 'objectsize':
        return one(lambda cx, st, a: I(-1))
    return one(lambda cx, st, a: None)


@model('memcpy', 'memmove')
@one
def _(cx, st, a):
    n = a[2]
    x = cx.x
    if n.op == 'c':
        if n.args[0]:
            x.memcpy(st, a[0], a[1], n.args[0])
        return a[0]
    copy_range(cx, st, a[0], a[1], n)
    return a[0]


def copy_range(cx, st, dst, src, nbytes, esize=None):
    """copy of a symbolic number of bytes"""
    x = cx.x
    if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
        x.oblige(st, 'memory safety: copy between valid pointers', FALSE, 'safety')
    s = esize or x.stride.get(src.obj.base) or x.stride.get(dst.obj.base) or 8
    for o in (src, dst):
        if x.stride.get(o.obj.base) is None:
            x.stride[o.obj.base] = s
            raise Restart()
    n = idiv(nbytes, s)
    v = app('cp:%s' % x.occ(st, cx.site), (), 'I')
    NNAMES.add(v.args[0])
    inner = st.mem.get(src.obj.base, {})
    keys = [k for k in inner if isinstance(k, int)] or [0]
    for k in keys:
        s2 = st.copy()
        s2.fact(lt(v, n))
        off = iadd(imul(v, I(s)), I(k))
        val = x.load(s2, padd_(src, off), 8, x.celltype(st, inner, k))
        e, res = x.stride_of(dst.obj.base, iadd(dst.off, off), 8)
        di = st.mem.get(dst.obj.base, {})
        arr = di.get(res, Arr(D('cell')))
        st.set(dst.obj.base, res, Arr(arr.dflt, arr.ws + (W(((v, n),), TRUE, dst.obj.idx + (e,), val),)))


@model('memset')
@one
def _(cx, st, a):
    x = cx.x
    p = a[0]
    if a[1] is not ZERO:
        raise Unsupported('memset with a non-zero byte')
    n = a[2]
    if isinstance(p, Ptr):
        inner = dict(st.mem.get(p.obj.base, {}))
        if p.off is ZERO and not p.obj.idx:
            sz = inner.get('size')
            if sz is not None and sz.at(p.obj.idx) is n or n.op == 'c' and sz is not None and sz.at(()).op == 'c' and sz.at(()).args[0] == n.args[0]:
                st.mem[p.obj.base] = {k: v for k, v in inner.items() if not isinstance(k, int)}
                st.set(p.obj.base, 'dflt', lam(p.obj.idx, D('zero')))
                return p
        if n.op == 'c' and n.args[0] <= 4096:
            for r in range(0, n.args[0] - 7, 8):
                x.store(st, padd_(p, I(r)), 8, ZERO)
            return p
        # symbolic range of zero doubles
        if x.stride.get(p.obj.base) is None:
            x.stride[p.obj.base] = 8
            raise Restart()
        s = x.stride[p.obj.base]
        v = app('ms:%s' % x.occ(st, cx.site), (), 'I')
        NNAMES.add(v.args[0])
        e, res = x.stride_of(p.obj.base, iadd(p.off, imul(v, I(s))), 8)
        arr = inner.get(res, Arr(D('cell')))
        st.set(p.obj.base, res, Arr(arr.dflt, arr.ws + (W(((v, idiv(n, s)),), TRUE, p.obj.idx + (e,), RZERO),)))
    return p


def do_exit(cx, st, a):
    if st.flags.get('exitok') is not TRUE:
        cx.x.oblige(st, 'the input is not refused (no exit)', lift(st.flags.get('exitok', FALSE)))
    cx.x.exits += 1
    return []


for _n in ('exit', '_exit', 'abort', '_ZSt9terminatev', 'quick_exit', '__cxa_throw', '_ZSt20__throw_length_errorPKc',
           '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '_ZSt17__throw_bad_allocv', '__cxa_rethrow',
           '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_invalid_argumentPKc', '_ZSt25__throw_bad_function_callv'):
    EXACT[_n] = do_exit


@model('__assert_fail')
def _(cx, st, a):
    cx.x.oblige(st, 'assertion holds: %s' % (pystr(cx, st, a[0])), FALSE, 'safety')
    return []


@model('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
@one
def _(cx, st, a):
    n = a[0]
    return cx.x.alloc(st, 'new:' + cx.site, n)


@model('calloc')
@one
def _(cx, st, a):
    return cx.x.alloc(st, 'new:' + cx.site, imul(a[0], a[1]), D('zero'))


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free')
def _(cx, st, a):
    return free_ptr(cx, st, a[0])


def free_ptr(cx, st, p):
    x = cx.x
    if isinstance(p, PIte):
        out = []
        for s2, v in x.fork(st, p.c):
            out += free_ptr(cx, s2, p.a if v else p.b)
        return out
    if isinstance(p, Ptr):
        if p.obj is NULLOBJ:
            return [(st, None)]
        if not p.obj.idx:
            if p.obj.base in st.dead:
                x.oblige(st, 'memory safety: no double free', FALSE, 'safety')
            st.dead = st.dead | {p.obj.base}
            # contents are gone
        return [(st, None)]
    if isinstance(p, Undef):
        x.oblige(st, 'memory safety: only allocated memory is freed (%r)' % (p,), FALSE, 'safety')
    return [(st, None)]


@model('__cxa_guard_acquire')
@one
def _(cx, st, a):
    return ONE


@model('__cxa_guard_release')
@one
def _(cx, st, a):
    cx.x.store(st, a[0], 1, ONE)
    return ZERO


@model('__cxa_atexit', '__cxa_guard_abort', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev',
       '__cxa_begin_catch', '__cxa_end_catch', '__cxa_free_exception', 'printf', 'puts', 'putchar', 'fprintf', 'fflush')
@one
def _(cx, st, a):
    return ZERO


@model('__cxa_allocate_exception')
@one
def _(cx, st, a):
    return cx.x.alloc(st, 'exc:' + cx.site, a[0])


@model('getenv')
@one
def _(cx, st, a):
    s = cstring(cx, st, a[0])
    return pite(app('envset', (s,), 'B'), Str8(app('env', (s,), 'S')), NULL)


@model('strcmp')
@one
def _(cx, st, a):
    x, y = cstring(cx, st, a[0]), cstring(cx, st, a[1])
    return ite(eq(x, y), ZERO, ONE)


@model('strlen')
@one
def _(cx, st, a):
    s = cstring(cx, st, a[0])
    return slen(s)


@model('tolower')
@one
def _(cx, st, a):
    return app('tolower', (a[0],), 'I')


@model('__dynamic_cast')
@one
def _(cx, st, a):
    return dyncast(cx, st, a[0], a[2])


def dyncast(cx, st, p, target):
    x = cx.x
    if isinstance(p, PIte):
        return pite(p.c, dyncast(cx, st, p.a, target), dyncast(cx, st, p.b, target))
    if not isinstance(p, Ptr) or p.obj is NULLOBJ:
        return NULL if isinstance(p, Ptr) else Undef('dyncast')
    vp = x.load(st, p, 8, 'ptr')
    return dyn2(cx, st, p, vp, target)


def dyn2(cx, st, p, vp, target):
    x = cx.x
    if isinstance(vp, PIte):
        return pite(vp.c, dyn2(cx, st, p, vp.a, target), dyn2(cx, st, p, vp.b, target))
    if not isinstance(vp, Ptr):
        return Undef('dyncast')
    ti = x.load(st, padd_(vp, I(-8)), 8, 'ptr')
    seen = 0
    while isinstance(ti, Ptr) and seen < 10:
        if tiname(ti) == tiname(target):
            return p
        g = x.gmap.get(ti.obj.base[2:])
        if not g or 'init' not in g:
            return NULL
        # single inheritance: third word is the base type info
        try:
            ti = x.const_at(g['init'], 16, 'ptr', g['mod'])
        except Exception:
            return NULL
        seen += 1
    return NULL


def tiname(p):
    return p.obj.base.split('@')[0] if isinstance(p, Ptr) else None


# ---------------------------------------------------------------- streams
@rx(r'std::basic_ifstream<.*>::(is_open|good)\(|std::basic_ios<.*>::(good|operator bool|operator void|operator!|fail)')
@one
def _(cx, st, a):
    ok = app('fileok', (fname(cx, st, a[0]),), 'B')
    return not_(ok) if re.search('operator!|fail', cx.dem) else ok


@rx(r'std::ostream::operator<<|std::basic_ostream<|std::ostream::|std::operator<< <|std::basic_ostream<char.*operator<<|std::basic_ios<|std::operator<<|std::_Setw|std::setw|std::setprecision|std::endl|std::flush')
@one
def _(cx, st, a):
    return a[0] if a and cx.i['ty'] == 'ptr' else (cx.x.havoc(st, cx.i['ty'], 'io'))


@rx(r'std::basic_ofstream<|std::ofstream::')
@one
def _(cx, st, a):
    if cx.i['ty'] == 'ptr':
        return a[0]
    return cx.x.havoc(st, cx.i['ty'], 'ofs')


@rx(r'std::basic_ifstream<.*>::basic_ifstream\(')
@one
def _(cx, st, a):
    x = cx.x
    p = a[0]
    if len(a) < 2:
        return None
    if 'string' in cx.dem.split('basic_ifstream(')[-1]:
        name = sget(cx, st, a[1])
    else:
        name = cstring(cx, st, a[1])
    fopen(cx, st, p, name)


@rx(r'std::basic_ifstream<.*>::open\(')
@one
def _(cx, st, a):
    name = sget(cx, st, a[1]) if 'string' in cx.dem.split('::open(')[-1] else cstring(cx, st, a[1])
    fopen(cx, st, a[0], name)


def fopen(cx, st, p, name):
    x = cx.x
    # the virtual table's offset to the virtual base is zero here: the stream is its own base
    if 'vt:stream' not in st.mem:
        st.mem['vt:stream'] = {'kind': 'global', 0: ZERO}
    x.store(st, p, 8, Ptr(Obj('vt:stream'), I(24)))
    x.store(st, padd_(p, I(8)), 8, ZERO)
    x.store(st, padd_(p, I(16)), 8, name)


def fbase(cx, st, p):
    return p


def fname(cx, st, p):
    return sget(cx, st, padd_(p, I(16)))


@rx(r'std::istream::operator>>\(double&\)|std::basic_istream<.*>::operator>>\(double&\)|std::istream::operator>>\((unsigned )?(int|long)&\)')
@one
def _(cx, st, a):
    x = cx.x
    b = fbase(cx, st, a[0])
    nm = fname(cx, st, b)
    pos = x.load(st, padd_(b, I(8)), 8, 'i64')
    if 'double' in cx.dem:
        x.store(st, a[1], 8, app('tok', (nm, pos), 'R'))
    else:
        x.store(st, a[1], 4, app('toki', (nm, pos), 'I'))
    x.store(st, padd_(b, I(8)), 8, iadd(pos, ONE))
    return a[0]


@model('qv_tok')
@one
def _(cx, st, a):
    return app('tok', (cstring(cx, st, a[0]), a[1]), 'R')


@model('qv_toki')
@one
def _(cx, st, a):
    return app('toki', (cstring(cx, st, a[0]), a[1]), 'I')


@model('qv_fileok')
@one
def _(cx, st, a):
    return app('fileok', (cstring(cx, st, a[0]),), 'B')


def _stored(name, sort):
    """(kind, section, option, default): what is stored under two names, else the default"""
    @model(name)
    @one
    def _(cx, st, a):
        k = (cstring(cx, st, a[1]), cstring(cx, st, a[2]))
        d = cstring(cx, st, a[3]) if sort == 'S' else cx.x.tobool(a[3]) if sort == 'B' else a[3]
        t = ite(app('stored', k, 'B'), app(pystr(cx, st, a[0]), k, sort), d)
        return Str8(t) if sort == 'S' else t


for _n, _s in (('qv_sreal', 'R'), ('qv_sint', 'I'), ('qv_sbool', 'B'), ('qv_sstr', 'S')):
    _stored(_n, _s)


@model('qv_stored')
@one
def _(cx, st, a):
    return app('stored', (cstring(cx, st, a[0]), cstring(cx, st, a[1])), 'B')


@model('qv_slisted')
@one
def _(cx, st, a):
    return app('listed', (cstring(cx, st, a[0]),), 'B')


@rx(r'.*std::find<.*basic_string<char')
@one
def _(cx, st, a):
    """a name in a list of names: found (at some place) or not; the list is the same for every call"""
    k = sget(cx, st, a[2]) if re.search(r'basic_string<char, std::char_traits<char>, std::allocator<char>>\s*>\(|basic_string<char, std::char_traits<char>, std::allocator<char>> const&\)$', cx.dem) else cstring(cx, st, a[2])
    cx.x.note('std::find in a list of names by contract')
    return pite(app('listed', (k,), 'B'), a[0], a[1])


@rx(r'.*std::count<.*basic_string<char')
@one
def _(cx, st, a):
    """occurrences of a name in a list of names: at least one exactly when it is listed"""
    k = sget(cx, st, a[2]) if re.search(r'basic_string<char, std::char_traits<char>, std::allocator<char>>\s*>\(|basic_string<char, std::char_traits<char>, std::allocator<char>> const&\)$', cx.dem) else cstring(cx, st, a[2])
    cx.x.note('std::count in a list of names by contract')
    more = app('repeats', (k,), 'I')
    return ite(app("listed", (k,), "B"), iadd(ONE, ite(ge(more, ZERO), more, ZERO)), ZERO)


@rx(r'std::basic_ofstream<.*>::(basic_ofstream|~basic_ofstream|close)\(')
@one
def _(cx, st, a):
    return None


@rx(r'std::basic_ifstream<.*>::(close|~basic_ifstream)\(')
@one
def _(cx, st, a):
    return None


# ---------------------------------------------------------------- std::string
BS = r'std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>'


@rx(r'std::allocator<|std::__new_allocator<|__gnu_cxx::new_allocator<|std::_Alloc')
@one
def _(cx, st, a):
    return None


@rx(BS + r'::basic_string(<[^()]*>)?\(')
@one
def _(cx, st, a):
    sig = re.search(r'::basic_string(?:<[^()]*>)?\((.*)', cx.dem).group(1)
    if len(a) == 1 or (sig.startswith('std::allocator') and len(a) == 2):
        sput(cx, st, a[0], S(''))
    elif sig.startswith('char const*, std::allocator') or sig.startswith('char const*)') or sig.startswith('char const*, std::alloc'):
        s = cstring(cx, st, a[1])
        if s is None:
            raise Unsupported('string from character buffer')
        sput(cx, st, a[0], s)
    elif sig.startswith('std::__cxx11::basic_string') or sig.startswith('std::basic_string'):
        s = sget(cx, st, a[1])
        if len(a) >= 4 and isinstance(a[2], T):
            s = ssubstr(s, a[2], a[3])
        sput(cx, st, a[0], s)
    elif sig.startswith('char const*, unsigned long'):
        s = cstring(cx, st, a[1])
        sput(cx, st, a[0], ssubstr(s, ZERO, a[2]))
    else:
        sput(cx, st, a[0], app('strctor', tuple(v for v in a[1:] if isinstance(v, T)), 'S'))


def slen(s):
    if s.op == 'c':
        return I(len(s.args[0]))
    NNAMES.add('slen')
    if s.op == 'sconcat':
        r = ZERO
        for q in s.args:
            r = iadd(r, slen(q))
        return r
    return app('slen', (s,), 'I')


def ssubstr(s, pos, n):
    if s.op == 'c' and pos.op == 'c' and n.op == 'c':
        k = n.args[0]
        p = pos.args[0]
        return S(s.args[0][p:] if k < 0 or k >= BIG else s.args[0][p:p + k])
    if pos is ZERO and (n is slen(s) or (n.op == 'c' and n.args[0] == -1)):
        return s
    return app('substr', (s, pos, n), 'S')


@rx(BS + r'::~basic_string\(')
@one
def _(cx, st, a):
    return None


@rx(BS + r'::(operator=|assign)\(')
@one
def _(cx, st, a):
    sig = re.search(r'::(?:operator=|assign)\((.*)', cx.dem).group(1)
    if sig.startswith('char const*'):
        s = cstring(cx, st, a[1])
        if len(a) > 2:
            s = ssubstr(s, ZERO, a[2])
    elif sig.startswith('char)'):
        s = chr1(a[1])
    else:
        s = sget(cx, st, a[1])
    sput(cx, st, a[0], s)
    return a[0]


def chr1(c):
    if c.op == 'c':
        return S(chr(c.args[0] % 256))
    return app('chr', (c,), 'S')


@rx(BS + r'::(operator\+=|append|push_back)\(')
@one
def _(cx, st, a):
    sig = re.search(r'::(?:operator\+=|append|push_back)\((.*)', cx.dem).group(1)
    if sig.startswith('char const*'):
        s = cstring(cx, st, a[1])
        if len(a) > 2:
            s = ssubstr(s, ZERO, a[2])
    elif sig.startswith('char)'):
        s = chr1(a[1])
    elif sig.startswith('unsigned long'):
        s = app('strfill', (a[1], a[2]), 'S')
    else:
        s = sget(cx, st, a[1])
    sput(cx, st, a[0], sconcat(sget(cx, st, a[0]), s))
    return a[0]


@rx(BS + r'::(size|length)\(')
@one
def _(cx, st, a):
    return slen(sget(cx, st, a[0]))


@rx(BS + r'::empty\(')
@one
def _(cx, st, a):
    return eq(sget(cx, st, a[0]), S(''))


@rx(BS + r'::clear\(')
@one
def _(cx, st, a):
    sput(cx, st, a[0], S(''))


@rx(BS + r'::(c_str|data)\(')
@one
def _(cx, st, a):
    return Str8(sget(cx, st, a[0]))


@rx(BS + r'::substr\(')
@one
def _(cx, st, a):
    sput(cx, st, a[0], ssubstr(sget(cx, st, a[1]), a[2], a[3]))


@rx(BS + r'::(operator\[\]|at|back|front)\(')
@one
def _(cx, st, a):
    s = sget(cx, st, a[0])
    i = a[1] if len(a) > 1 else (ZERO if '::front(' in cx.dem else iadd(slen(s), I(-1)))
    return Str8(s, i)


def str_char(x, st, s, off):
    if s.op == 'c' and off.op == 'c':
        t = s.args[0]
        i = off.args[0]
        return I(ord(t[i])) if 0 <= i < len(t) else ZERO
    return app('charat', (s, off), 'I')


@rx(BS + r'::compare\(')
@one
def _(cx, st, a):
    if len(a) == 2:
        o = cstring(cx, st, a[1]) if 'compare(char const*' in cx.dem else sget(cx, st, a[1])
        s = sget(cx, st, a[0])
        return ite(eq(s, o), ZERO, app('strcmp', (s, o), 'I')) if not (s.op == 'c' and o.op == 'c') else \
            I((s.args[0] > o.args[0]) - (s.args[0] < o.args[0]))
    return app('strcompare', tuple(v for v in a[1:] if isinstance(v, T)) + (sget(cx, st, a[0]),), 'I')


@rx(BS + r'::(find|rfind|find_first_of|find_last_of|find_first_not_of|find_last_not_of)\(')
@one
def _(cx, st, a):
    m = re.search(r'::(r?find\w*)\((.*)', cx.dem)
    s = sget(cx, st, a[0])
    if m.group(2).startswith('char const*'):
        o = cstring(cx, st, a[1])
    elif m.group(2).startswith('char'):
        o = chr1(a[1])
    else:
        o = sget(cx, st, a[1])
    pos = a[2]
    if s.op == 'c' and o.op == 'c' and pos.op == 'c' and m.group(1) in ('find', 'rfind'):
        t = s.args[0]
        if m.group(1) == 'find':
            r = t.find(o.args[0], pos.args[0])
        else:
            r = t.rfind(o.args[0])
        return I(r if r >= 0 else (1 << 64) - 1)
    return app('s' + m.group(1), (s, o, pos), 'I')


@rx(r'(bool )?std::operator==.*basic_string|.*bool std::operator==<char')
@one
def _(cx, st, a):
    return eq(sarg(cx, st, 0, a), sarg(cx, st, 1, a))


@rx(r'(bool )?std::operator!=.*basic_string|.*bool std::operator!=<char')
@one
def _(cx, st, a):
    return ne(sarg(cx, st, 0, a), sarg(cx, st, 1, a))


@rx(r'(bool )?std::operator<\b.*basic_string|.*bool std::operator< <char')
@one
def _(cx, st, a):
    x, y = sarg(cx, st, 0, a), sarg(cx, st, 1, a)
    if x.op == 'c' and y.op == 'c':
        return TRUE if x.args[0] < y.args[0] else FALSE
    return app('strless', (x, y), 'B')


def params(dem):
    """top-level parameter types of a demangled signature"""
    d = 0
    end = len(dem)
    if not dem.endswith(')'):
        end = dem.rindex(')') + 1
    i = end - 1
    depth = 0
    # find the matching '(' of the last ')'
    while i >= 0:
        if dem[i] == ')':
            depth += 1
        elif dem[i] == '(':
            depth -= 1
            if depth == 0:
                break
        i -= 1
    s = dem[i + 1:end - 1]
    out = []
    cur = ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def sarg(cx, st, n, a, off=0):
    ps = params(cx.dem)
    t = ps[n]
    v = a[n + off]
    if t.startswith('char const*'):
        return cstring(cx, st, v)
    if t == 'char':
        return chr1(v)
    return sget(cx, st, v)


@rx(r'.*std::operator\+<char|std::operator\+<char')
@one
def _(cx, st, a):
    sput(cx, st, a[0], sconcat(sarg(cx, st, 0, a, 1), sarg(cx, st, 1, a, 1)))


@rx(r'std::(__cxx11::)?to_string\(')
@one
def _(cx, st, a):
    if params(cx.dem)[0] in ('double', 'float'):
        sput(cx, st, a[0], app('dtostr', (a[1],), 'S'))
    else:
        sput(cx, st, a[0], tostr(a[1]))


@rx(r'std::sto[dfil]+\(|std::(__cxx11::)?sto[dfil]+\(')
@one
def _(cx, st, a):
    s = sget(cx, st, a[0])
    return app('parse_real' if 'stod' in cx.dem or 'stof' in cx.dem else 'parse_int', (s,), sort_of(cx.i['ty']))


# ---------------------------------------------------------------- std::vector
VEC = r'std::vector<'


def vec_elem(cx):
    """element type text and size from the demangled name"""
    m = cx.dem.index('std::vector<') + len('std::vector<')
    d = 0
    i = m
    while True:
        ch = cx.dem[i]
        if ch in '<(':
            d += 1
        elif ch in '>)':
            if d == 0:
                break
            d -= 1
        elif ch == ',' and d == 0:
            break
        i += 1
    t = cx.dem[m:i].strip()
    return t, tsize(cx.x, t)


def tsize(x, t):
    t = t.strip()
    if t.endswith('*'):
        return 8
    if t in ('double', 'long', 'unsigned long', 'long int', 'long long', 'unsigned long long'):
        return 8
    if t in ('int', 'unsigned int', 'float', 'unsigned'):
        return 4
    if t in ('short', 'unsigned short'):
        return 2
    if t in ('char', 'unsigned char', 'bool', 'signed char'):
        return 1
    if t.startswith('std::__cxx11::basic_string<') or t.startswith('std::string'):
        return 32
    if t.startswith('std::vector<'):
        return 24
    for pre in ('class.', 'struct.'):
        if pre + t in x.prog.structs:
            return x.prog.structs[pre + t]['size']
    raise Unsupported('size of ' + t)


def prim(t):
    if t.endswith('*'):
        return 'ptr'
    return {'double': 'double', 'float': 'double', 'int': 'i32', 'unsigned int': 'i32', 'long': 'i64', 'unsigned long': 'i64', 'bool': 'i8',
            'char': 'i8', 'unsigned char': 'i8'}.get(t)


def vlen(cx, st, p):
    v = cx.x.load(st, padd_(p, I(8)), 8, 'i64')
    return v


def vdata(cx, st, p):
    return cx.x.load(st, p, 8, 'ptr')


def vinit(cx, st, p, data, n):
    cx.x.store(st, p, 8, data)
    cx.x.store(st, padd_(p, I(8)), 8, n)


def vnew(cx, st, dflt=None):
    return cx.x.alloc(st, 'vec:' + cx.site, None, dflt)


def copy_elem(cx, st, t, size, dst, src):
    x = cx.x
    pt = prim(t)
    if pt:
        x.store(st, dst, size, x.load(st, src, size, pt))
    elif size == 32 and 'basic_string' in t:
        sput(cx, st, dst, sget(cx, st, src))
    elif t.startswith('std::vector<'):
        vcopy(cx, st, dst, src)
    else:
        x.memcpy(st, dst, src, size)


def vcopy(cx, st, dst, src):
    x = cx.x
    if isinstance(src, PIte):
        d = st.facts.decide(src.c)
        if d is not None:
            return vcopy(cx, st, dst, src.a if d else src.b)
        raise Unsupported('copy of a conditional vector')
    n = vlen(cx, st, src)
    data = vdata(cx, st, src)
    p = vcopy_data(cx, st, data)
    vinit(cx, st, dst, p, n)


def vcopy_data(cx, st, data):
    x = cx.x
    if isinstance(data, PIte):
        raise Unsupported('copy of conditional vector data')
    if not isinstance(data, Ptr) or data.obj is NULLOBJ:
        return vnew(cx, st, D('zero'))
    inner = st.mem.get(data.obj.base, {})
    p = vnew(cx, st)
    st.set(p.obj.base, 'dflt', lam(x.iters, D('copy', inner, data.obj.base, data.obj.idx, data.off)))
    s = x.stride.get(data.obj.base)
    if s is not None:
        if x.stride.get(p.obj.base) is None:
            x.stride[p.obj.base] = s
    return p


def vempty(cx, st, data, n, t, sz):
    """a known number of empty vectors as elements"""
    if t.startswith('std::vector<') and n.op == 'c' and n.args[0] <= 8:
        for i in range(n.args[0]):
            vinit(cx, st, padd_(data, I(i * sz)), cx.x.alloc(st, 'vec:%s:%d' % (cx.site, i), None, D('zero')), ZERO)


@rx(VEC + r'.*>::vector\(')
@one
def _(cx, st, a):
    x = cx.x
    t, sz = vec_elem(cx)
    ps = params(cx.dem)
    if not ps or ps[0].startswith('std::allocator'):
        vinit(cx, st, a[0], vnew(cx, st, D('zero')), ZERO)
    elif ps[0] == 'unsigned long':
        n = a[1]
        if len(ps) >= 2 and not ps[1].startswith('std::allocator'):
            pt = prim(t)
            if pt:
                d = D('fill', x.load(st, a[2], sz, pt))
            elif 'basic_string' in t and sz == 32:
                d = D('fill', sget(cx, st, a[2]))
            else:
                raise Unsupported('vector of %s filled' % t)
        else:
            d = D('zero')
        data = vnew(cx, st, d)
        vinit(cx, st, a[0], data, n)
        vempty(cx, st, data, n, t, sz)
    elif ps[0].startswith('std::vector<') and ps[0].endswith('const&'):
        vcopy(cx, st, a[0], a[1])
    elif ps[0].startswith('std::vector<') and '&&' in ps[0]:
        vinit(cx, st, a[0], vdata(cx, st, a[1]), vlen(cx, st, a[1]))
        vinit(cx, st, a[1], vnew(cx, st, D('zero')), ZERO)
    elif ps[0].startswith('std::initializer_list'):
        data = vnew(cx, st)
        n = a[2]
        if n.op != 'c':
            raise Unsupported('initializer list')
        for i in range(n.args[0]):
            copy_elem(cx, st, t, sz, padd_(data, I(i * sz)), padd_(a[1], I(i * sz)))
        vinit(cx, st, a[0], data, n)
    elif len(ps) >= 2:
        # iterator range
        first, last = a[1], a[2]
        n = idiv(iadd(cx.x.ptrint(last), cx.x.ptrint(first), -1), sz)
        data = vnew(cx, st)
        vinit(cx, st, a[0], data, n)
        append_range(cx, st, data, ZERO, first, n, t, sz)
    else:
        raise Unsupported('vector constructor ' + cx.dem)


def append_range(cx, st, data, at, first, n, t, sz):
    if n.op == 'c' and n.args[0] <= 32:
        for i in range(n.args[0]):
            copy_elem(cx, st, t, sz, padd_(data, iadd(imul(at, I(sz)), I(i * sz))), padd_(first, I(i * sz)))
        return
    x = cx.x
    if x.stride.get(data.obj.base) is None:
        x.stride[data.obj.base] = sz
        raise Restart()
    copy_range(cx, st, padd_(data, imul(at, I(sz))), first, imul(n, I(sz)), sz)


@rx(VEC + r'.*>::~vector\(')
@one
def _(cx, st, a):
    return None


@rx(VEC + r'.*>::operator=\(')
@one
def _(cx, st, a):
    ps = params(cx.dem)
    if ps and ps[0].startswith('std::initializer_list'):
        t, sz = vec_elem(cx)
        data = vnew(cx, st)
        for i in range(a[2].args[0]):
            copy_elem(cx, st, t, sz, padd_(data, I(i * sz)), padd_(a[1], I(i * sz)))
        vinit(cx, st, a[0], data, a[2])
        return a[0]
    if ps and '&&' in ps[0]:
        vinit(cx, st, a[0], vdata(cx, st, a[1]), vlen(cx, st, a[1]))
    else:
        vcopy(cx, st, a[0], a[1])
    return a[0]


@rx(VEC + r'.*>::(size|length)\(')
@one
def _(cx, st, a):
    return vlen(cx, st, a[0])


@rx(VEC + r'.*>::empty\(')
@one
def _(cx, st, a):
    return eq(vlen(cx, st, a[0]), ZERO)


@rx(VEC + r'.*>::(operator\[\]|at)\(')
@one
def _(cx, st, a):
    t, sz = vec_elem(cx)
    n = vlen(cx, st, a[0])
    cx.x.oblige(st, 'memory safety: vector index in range', and_(le(ZERO, a[1]), lt(a[1], n)), 'safety')
    return padd_(vdata(cx, st, a[0]), imul(a[1], I(sz)))


@rx(VEC + r'.*>::(begin|cbegin|data|front)\(')
@one
def _(cx, st, a):
    return vdata(cx, st, a[0])


@rx(VEC + r'.*>::(end|cend)\(')
@one
def _(cx, st, a):
    t, sz = vec_elem(cx)
    return padd_(vdata(cx, st, a[0]), imul(vlen(cx, st, a[0]), I(sz)))


@rx(VEC + r'.*>::back\(')
@one
def _(cx, st, a):
    t, sz = vec_elem(cx)
    n = vlen(cx, st, a[0])
    cx.x.oblige(st, 'memory safety: vector index in range', lt(ZERO, n), 'safety')
    return padd_(vdata(cx, st, a[0]), imul(iadd(n, I(-1)), I(sz)))


@rx(r'(.* )?' + VEC + r'.*>::(push_back|emplace_back)(<.*>)?\(')
@one
def _(cx, st, a):
    t, sz = vec_elem(cx)
    n = vlen(cx, st, a[0])
    d = vdata(cx, st, a[0])
    dst = padd_(d, imul(n, I(sz)))
    copy_elem(cx, st, t, sz, dst, a[1])
    cx.x.store(st, padd_(a[0], I(8)), 8, iadd(n, ONE))
    return dst


@rx(VEC + r'.*>::(clear)\(')
@one
def _(cx, st, a):
    cx.x.store(st, padd_(a[0], I(8)), 8, ZERO)


@rx(VEC + r'.*>::(pop_back)\(')
@one
def _(cx, st, a):
    n = vlen(cx, st, a[0])
    cx.x.store(st, padd_(a[0], I(8)), 8, iadd(n, I(-1)))


@rx(VEC + r'.*>::(reserve|shrink_to_fit)\(')
@one
def _(cx, st, a):
    return None


@rx(VEC + r'.*>::(capacity)\(')
@one
def _(cx, st, a):
    return cx.x.fresh(st, 'capacity', 'I')


@rx(VEC + r'.*>::(resize|assign)\(')
@one
def _(cx, st, a):
    x = cx.x
    t, sz = vec_elem(cx)
    old = vlen(cx, st, a[0])
    n = a[1]
    val = None
    if len(a) > 2:
        if 'vector<' in t:
            if vlen(cx, st, a[2]) is not ZERO:
                raise Unsupported('assign of non-empty vectors')
        else:
            val = x.load(st, a[2], sz, prim(t) or 'S?')
    if '::assign(' in cx.dem or old is ZERO:
        data = vnew(cx, st, D('fill', val) if val is not None else D('zero'))
        vinit(cx, st, a[0], data, n)
        vempty(cx, st, data, n, t, sz)
        return
    data = vdata(cx, st, a[0])
    v = app('rs:%s' % x.occ(st, cx.site), (), 'I')
    NNAMES.add(v.args[0])
    if x.stride.get(data.obj.base) is None:
        x.stride[data.obj.base] = sz
        raise Restart()
    ty = prim(t)
    if ty is None:
        raise Unsupported('resize of vector of ' + t)
    e, res = x.stride_of(data.obj.base, iadd(data.off, imul(iadd(old, v), I(sz))), sz)
    arr = st.mem.get(data.obj.base, {}).get(res, Arr(D('cell')))
    st.set(data.obj.base, res, Arr(arr.dflt, arr.ws + (W(((v, imax0(iadd(n, old, -1))),), TRUE, data.obj.idx + (e,),
                                                        val if val is not None else zero_of(ty)),)))
    x.store(st, padd_(a[0], I(8)), 8, n)


@rx(VEC + r'.*>::insert')
@one
def _(cx, st, a):
    raise Unsupported('vector::insert')


# ---------------------------------------------------------------- <random>
def gen_state(cx, st, p):
    x = cx.x
    if not isinstance(p, Ptr):
        raise Unsupported('generator pointer')
    return x.load(st, p, 8, 'i64'), x.load(st, padd_(p, I(8)), 8, 'i64')


@rx(r'std::mersenne_twister_engine<.*>::(mersenne_twister_engine|seed)\(unsigned long\)')
@one
def _(cx, st, a):
    cx.x.store(st, a[0], 8, a[1])
    cx.x.store(st, padd_(a[0], I(8)), 8, ZERO)


@rx(r'std::mersenne_twister_engine<.*>::mersenne_twister_engine\(\)')
@one
def _(cx, st, a):
    cx.x.store(st, a[0], 8, I(5489))
    cx.x.store(st, padd_(a[0], I(8)), 8, ZERO)


def draw(cx, st, g):
    s, n = gen_state(cx, st, g)
    cx.x.store(st, padd_(g, I(8)), 8, iadd(n, ONE))
    return s, n


@rx(r'(double )?std::uniform_real_distribution<double>::operator\(\)<std::mersenne')
@one
def _(cx, st, a):
    x = cx.x
    s, n = draw(cx, st, a[1])
    lo, hi = x.load(st, a[0], 8, 'double'), x.load(st, padd_(a[0], I(8)), 8, 'double')
    u = app('std_uniform', (s, n), 'R')
    st.fact(rle(RZERO, u))
    st.fact(rlt(u, RONE))
    return radd(lo, rmul(radd(hi, rneg(lo)), u))


@rx(r'(double )?std::normal_distribution<double>::operator\(\)<std::mersenne')
@one
def _(cx, st, a):
    x = cx.x
    s, n = draw(cx, st, a[1])
    m, w = x.load(st, a[0], 8, 'double'), x.load(st, padd_(a[0], I(8)), 8, 'double')
    return radd(m, rmul(w, app('std_normal', (s, n), 'R')))


@rx(r'std::poisson_distribution<unsigned int>::poisson_distribution\(double\)')
@one
def _(cx, st, a):
    cx.x.store(st, a[0], 8, a[1])


@rx(r'(unsigned int )?std::poisson_distribution<unsigned int>::operator\(\)<std::mersenne')
@one
def _(cx, st, a):
    s, n = draw(cx, st, a[1])
    NNAMES.add('std_poisson')
    return app('std_poisson', (s, n, cx.x.load(st, a[0], 8, 'double')), 'I')


@rx(r'(int )?std::(uniform_int_distribution|bernoulli_distribution|exponential_distribution|discrete_distribution|lognormal_distribution|gamma_distribution)<.*>::operator\(\)<std::mersenne')
@one
def _(cx, st, a):
    raise Unsupported('distribution ' + cx.dem.split('(')[0])
