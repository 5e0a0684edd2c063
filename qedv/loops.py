"""Loops: a generic iteration k is executed, the loop-carried values get closed forms in k (the loop invariant), the
closed forms are verified to be inductive by a second execution, and the loop is replaced by its state at exit."""
from .terms import *
from .values import *
from .prove import Facts, prove, resolve
from . import exec as X

UNROLL = 24


def run_loop(x, fr, header, prev, st, env):
    blocks, parent = fr.fn.loops[header]
    phis = x.phis(fr.fn, header)
    init = {}
    for p in phis:
        for b, o in p['in']:
            if b == prev:
                init[p['id']] = x.operand(o, env, fr.fn.mod)
    r = try_unroll(x, fr, header, blocks, phis, st, env, init)
    key = '%s:%d' % (fr.fn.dem, header)
    if r is not None:
        x.loopinfo.setdefault(key, 'unrolled completely')
        return r
    l = Loop(x, fr, header, blocks, phis, st, env, init)
    r = l.run()
    if x.loopinfo.get(key) != 'invariant with havocked values':
        x.loopinfo[key] = 'invariant with havocked values' if l.havocked else 'inductive invariant'
    return r


def try_unroll(x, fr, header, blocks, phis, st, env, init):
    nobs, npaths, nnotes = len(x.obs), x.paths, len(x.notes)
    saved = x.covered.copy()
    env0 = dict(env)
    env0.update(init)
    cur = [(st.copy(), env0)]
    done = []
    for n in range(UNROLL):
        nxt = []
        for s, e in cur:
            outs = x.run_region(fr, header, None, s, e, blocks, header)
            backs = [o for o in outs if o[0] == 'back']
            exits = [o for o in outs if o[0] != 'back']
            if backs and exits:
                break_ = True
                del x.obs[nobs:]
                del x.notes[nnotes:]
                x.paths = npaths
                x.covered = saved
                return None
            done += exits
            for o in backs:
                e2 = dict(o[2])
                vals = {}
                for p in phis:
                    for b, op in p['in']:
                        if b == o[3]:
                            vals[p['id']] = x.operand(op, o[2], fr.fn.mod)
                e2.update(vals)
                nxt.append((o[1], e2))
        if not nxt:
            return done
        if len(nxt) > 40:
            break
        cur = nxt
    del x.obs[nobs:]
    del x.notes[nnotes:]
    x.paths = npaths
    x.covered = saved
    return None


class Loop:
    def __init__(self, x, fr, header, blocks, phis, st, env, init):
        self.x, self.fr, self.header, self.blocks, self.phis = x, fr, header, blocks, phis
        self.st, self.env, self.init = st, env, init
        self.site = x.occ(st, 'L%s.%d' % (fr.fn.name, header))
        self.k = app('k:' + self.site, (), 'I')
        NNAMES.add('k:' + self.site)
        self.names = set()
        self.havocked = False

    # slots: ('phi', id) or ('cell', base, res)
    def uname(self, slot):
        n = 'u:%s:%s' % (self.site, ':'.join(map(str, slot)))
        self.names.add(n)
        return n

    def unknown(self, slot, init, sample):
        n = self.uname(slot)
        args = self.x.iters
        v = init if init is not None and not isinstance(init, Undef) else sample
        if isinstance(v, T):
            if isinstance(sample, T) and sample.sort != v.sort:
                v = sample
            return app(n, args, v.sort)
        if isinstance(v, Arr):
            if init is None:
                # what an unknown array started from only matters for the pointers in it
                while v.dflt.kind == 'u' and not v.ws and isinstance(v.dflt.a[2], Arr):
                    v = v.dflt.a[2]
                if all(isinstance(w.val, T) for w in v.ws):
                    v = Arr(D('cell'))
            return Arr(D('u', n, args, v))
        if isinstance(v, Ptr):
            if isinstance(sample, Ptr) and sample.obj is not v.obj or isinstance(sample, PIte):
                return Undef(n, args)
            return Ptr(v.obj, app(n, args, 'I'))
        return Undef(n, args)

    def hasu(self, v, names=None):
        names = names if names is not None else self.names
        return mentions(v, names)

    def initial(self, slot):
        if slot[0] == 'phi':
            return self.init[slot[1]]
        inner = self.st.mem.get(slot[1])
        return inner.get(slot[2]) if inner else None

    def run(self):
        x = self.x
        x.iters = x.iters + (self.k,)
        try:
            return self.run1()
        finally:
            x.iters = x.iters[:-1]

    def start_state(self, vals, facts=()):
        s = self.st.copy()
        s.occ = dict(self.st.occ)
        e = dict(self.env)
        e.update(self.init)
        s.fact(le(ZERO, self.k))
        for f in facts:
            s.fact(f)
        for slot, v in vals.items():
            if slot[0] == 'phi':
                e[slot[1]] = v
            elif slot[1] in s.mem or v is not None:
                if slot[1] not in s.mem:
                    s.mem[slot[1]] = dict(self.meta.get(slot[1], {}))
                s.set(slot[1], slot[2], v)
        for base, m in self.meta.items():
            # objects made by earlier iterations, with contents given as a whole
            if base not in s.mem and 'dflt' in m:
                s.mem[base] = dict(m)
        return s, e

    def execute(self, vals, facts=()):
        x = self.x
        nobs, nn, np = len(x.obs), len(x.notes), x.paths
        s, e = self.start_state(vals, facts)
        self.base = len(s.facts.lst)
        mem0 = s.mem
        self.mem0 = dict(mem0)
        outs = x.run_region(self.fr, self.header, None, s, e, self.blocks, self.header)
        self.obs_new = x.obs[nobs:]
        self.notes_new = x.notes[nn:]
        del x.obs[nobs:]
        del x.notes[nn:]
        backs = [o for o in outs if o[0] == 'back']
        exits = [o for o in outs if o[0] != 'back']
        for o in backs:
            # names used in the loop are taken once it has been left
            for e in exits:
                for site, n in o[1].occ.items():
                    if n > e[1].occ.get(site, 0):
                        e[1].occ[site] = n
            for base, inner in o[1].mem.items():
                if base not in self.st.mem:
                    self.meta[base] = {r: v for r, v in inner.items() if not isinstance(r, int)}
        return backs, exits

    def suffix(self, o):
        proved = o[1].flags.get('proved', ())
        return and_(*[f for f in o[1].facts.lst[self.base:] if f not in proved])

    def newvals(self, o):
        """loop-carried values at the end of an iteration, over all cells that differ"""
        r = {}
        for p in self.phis:
            for b, op in p['in']:
                if b == o[3]:
                    r[('phi', p['id'])] = self.x.operand(op, o[2], self.fr.fn.mod)
        st = o[1]
        for base, inner in st.mem.items():
            old = self.mem0.get(base)
            if old is inner:
                continue
            for res, v in inner.items():
                if not isinstance(res, int) and not (isinstance(res, str) and res.startswith('#')):
                    continue
                if old is None or res not in old or old[res] != v:
                    r[('cell', base, res)] = v
                else:
                    r.setdefault(('cell', base, res), v) if ('cell', base, res) in self.vals else None
        for slot in self.vals:
            if slot[0] == 'cell' and slot not in r:
                inner = st.mem.get(slot[1])
                if inner is not None and slot[2] in inner:
                    r[slot] = inner[slot[2]]
        return r

    def merge(self, backs):
        """merged new values and the continue condition"""
        x = self.x
        conts = [self.suffix(o) for o in backs]
        vals = [self.newvals(o) for o in backs]
        slots = {}
        for v in vals:
            for s in v:
                slots[s] = 1
        res = {}
        # what all paths of a completed iteration have in common does not tell them apart
        parts = [list(c.args) if c.op == 'and' else [c] for c in conts]
        common = set(parts[0]).intersection(*parts[1:]) if len(parts) > 1 else set()
        # nor does the declared range of an input
        common |= {q for p in parts for q in p if q in x.axioms}
        guards = [and_(*[q for q in p if q not in common]) for p in parts] if common else conts
        for s in slots:
            items = []
            for v, c, o in zip(vals, guards, backs):
                if s in v:
                    items.append((c, v[s]))
                elif s[0] == 'cell':
                    if s[1] in o[1].mem:
                        y = o[1].mem[s[1]].get(s[2])
                        if y is None and self.mem0.get(s[1]) is not None:
                            y = self.mem0[s[1]].get(s[2])
                        items.append((c, y))
                    else:
                        continue    # object does not exist on this path
            res[s] = merge_values(items)
        # common part of the conditions
        return res, or_(*conts)

    def run1(self):
        x = self.x
        self.meta = {}
        self.guessed = set()
        self.vals = {('phi', p['id']): None for p in self.phis}
        # discovery
        samples = {}
        backs = exits = None
        for p in self.phis:
            self.vals[('phi', p['id'])] = self.unknown(('phi', p['id']), self.init[p['id']], None)
        for rnd in range(12):
            backs, exits = self.execute(self.vals)
            if not backs:
                # the loop never iterates twice: the exits are exact for k = 0
                return self.once()
            nxt, cont = self.merge(backs)
            new = [s for s in nxt if s not in self.vals]
            chg = False
            for s in new:
                self.vals[s] = self.unknown(s, self.initial(s), nxt[s])
                chg = True
            # sort changes
            for s in list(self.vals):
                u = self.vals[s]
                if isinstance(u, Ptr) and s in nxt and not (isinstance(nxt[s], Ptr) and nxt[s].obj is u.obj):
                    self.vals[s] = Undef(self.uname(s), x.iters)
                    chg = True
                elif isinstance(u, T) and s in nxt and isinstance(nxt[s], T) and nxt[s].sort != u.sort and \
                        {u.sort, nxt[s].sort} == {'I', 'R'} and u.op == 'app' and u.args[0] in self.names and u.sort == 'I':
                    self.vals[s] = app(self.uname(s), x.iters, nxt[s].sort)
                    chg = True
            if not chg:
                break
            # solve what can be solved already: later passes see closed forms
            if not new:
                self.solve_pass(nxt)
        else:
            raise X.Unsupported('loop does not stabilise')
        # alternate solving and executing
        for rnd in range(8):
            if not self.solve_pass(nxt) and not self.guess_pass(nxt, cont):
                break
            backs, exits = self.execute(self.vals)
            if not backs:
                return self.once()
            nxt, cont = self.merge(backs)
            for s in nxt:
                if s not in self.vals:
                    self.vals[s] = self.unknown(s, self.initial(s), nxt[s])
        # verification pass with the history of the loop condition
        cont0 = cont
        hist = []
        j = app('!h', (), 'I')
        NNAMES.add('!h')
        bound, rest = self.bound_of(cont)
        ks = frozenset([self.k])
        if rest is not TRUE:
            hist.append(forall(j, ZERO, self.k, subst(cont, {self.k: j})))
        bad = set()
        for rnd in range(4):
            backs, exits = self.execute(self.vals, hist)
            if not backs:
                return self.once()
            nxt, cont = self.merge(backs)
            f = Facts(self.st.facts.lst + [le(ZERO, self.k)] + hist + [cont])
            ok = True
            for s in nxt:
                if s not in self.vals:
                    self.vals[s] = self.unknown(s, self.initial(s), nxt[s])
                    ok = False
                    continue
                if s in bad:
                    continue
                if not self.inductive(s, nxt[s], f):
                    if DEBUG:
                        print('not inductive', self.site, s, '\n  have', self.vals[s], '\n  next', nxt[s])
                    bad.add(s)
                    self.havoc(s, nxt[s])
                    ok = False
            if ok:
                break
            bound, rest = self.bound_of(cont)
            hist = [forall(j, ZERO, self.k, subst(cont, {self.k: j}))] if rest is not TRUE else []
        else:
            raise X.Unsupported('loop invariant of %s not found' % self.site)
        return self.finish(exits, cont, nxt, bad)

    def once(self):
        """the loop body never comes back: treat as straight-line code"""
        x = self.x
        it = x.iters
        x.iters = it[:-1]
        try:
            s = self.st.copy()
            e = dict(self.env)
            e.update(self.init)
            outs = x.run_region(self.fr, self.header, None, s, e, self.blocks, self.header)
            if any(o[0] == 'back' for o in outs):
                raise X.Unsupported('loop analysis inconsistent: no second iteration of the loop in %s (%s)' % (self.fr.fn.short, '; '.join(o.name for o in self.obs_new if o.goal is FALSE)[:300]))
            return outs
        finally:
            x.iters = it

    def havoc(self, s, nxt):
        self.havocked = True
        n = self.uname(s)
        args = self.x.iters
        self.x.note('no closed form for a loop-carried value in %s (%s)' % (self.fr.fn.short, ':'.join(map(str, s))))
        if isinstance(nxt, T):
            self.vals[s] = app(n, args, nxt.sort)
        elif isinstance(nxt, Arr):
            self.vals[s] = Arr(D('u', n, args, nxt if not self.hasu(nxt) else Arr(D('undef'))))
        elif isinstance(nxt, Ptr) and isinstance(self.vals[s], Ptr) and self.vals[s].obj is nxt.obj:
            self.vals[s] = Ptr(nxt.obj, app(n, args, 'I'))
        else:
            self.vals[s] = Undef(n, args)

    # ------------------------------------------------------------ solving
    def is_unknown(self, s):
        u = self.vals[s]
        n = self.uname(s)
        if isinstance(u, T):
            return u.op == 'app' and u.args[0] == n
        if isinstance(u, Ptr):
            return u.off.op == 'app' and u.off.args[0] == n
        if isinstance(u, Arr):
            return u.dflt.kind == 'u' and u.dflt.a[0] == n
        if isinstance(u, Undef):
            return u.name == n
        return False

    def solve_pass(self, nxt):
        progress = False
        sol = {}        # substitution for solved unknowns (terms)
        again = True
        while again:
            again = False
            for s in list(self.vals):
                if s not in nxt or not self.is_unknown(s):
                    continue
                n = nxt[s]
                if sol:
                    n = vsubst(n, sol)
                    nxt[s] = n
                u = self.vals[s]
                cf = self.solve(s, u, n)
                if cf is not None:
                    self.vals[s] = cf
                    if isinstance(u, T):
                        sol[u] = cf
                    elif isinstance(u, Ptr) and isinstance(cf, Ptr) and cf.obj is u.obj:
                        sol[u.off] = cf.off
                    progress = again = True
                    if DEBUG:
                        print('  solved', self.site, s, cf)
        return progress

    def guess_pass(self, nxt, cont):
        """counters that step under a condition on themselves: u' = c(u) ? u + d : u (verified by the inductive check)"""
        k = self.k
        for s in list(self.vals):
            if s not in nxt or not self.is_unknown(s) or s in self.guessed:
                continue
            u, n = self.vals[s], nxt[s]
            init = self.initial(s)
            if not (isinstance(u, T) and isinstance(n, T) and isinstance(init, T)) or n.op != 'ite' or u.sort != 'I' or init.sort != 'I':
                continue
            unk = self.others() - {self.uname(s)}
            if mentions(n, unk):
                continue
            c, a, b = n.args
            for cc, x, y in ((c, a, b), (not_(c), b, a)):
                d = strip(u, x)
                if y is not u or d is None or d.op != 'c' or d is ZERO:
                    continue
                simple = iadd(init, imul(d, k))
                f = Facts(self.st.facts.lst + [le(ZERO, k), subst(cont, {u: simple})])
                cf = None
                if f.decide(subst(cc, {u: simple})) is True:
                    cf = simple
                elif d is ONE:
                    # saturating: c(u) is u < C
                    C = saturation(cc, u)
                    if C is not None and k not in free(C) and self.st.facts.decide(le(init, C)) is True:
                        cf = ite(le(simple, C), simple, C)
                if cf is not None:
                    if DEBUG:
                        print('  guessed', self.site, s, cf)
                    self.guessed.add(s)
                    self.vals[s] = cf
                    return True
        return False

    def others(self):
        return {self.uname(s) for s in self.vals if self.is_unknown(s)}

    def prevk(self, v):
        return vsubst(v, {self.k: iadd(self.k, ONE, -1)})

    def solve(self, s, u, n):
        k = self.k
        init = self.initial(s)
        if init is None and s[0] == 'cell' and not isinstance(n, Arr):
            init = Undef('%s:%s' % (s[1], s[2]), self.x.iters[:-1])
        unk = self.others()
        if isinstance(u, Arr):
            if not isinstance(n, Arr):
                return None
            return self.solve_arr(s, u, n, init, unk)
        if isinstance(n, Arr):
            return None
        if isinstance(u, Ptr):
            if n == u:
                return init
            if isinstance(n, Ptr) and n.obj is u.obj and isinstance(init, Ptr) and init.obj is u.obj:
                c = self.solve_scalar(u.off, n.off, init.off, unk)
                return Ptr(u.obj, c) if c is not None else None
            if not mentions(n, unk):
                return pite(eq(k, ZERO), init, self.prevk(n))
            return None
        if isinstance(u, Undef):
            if n == u:
                return init
            if not mentions(n, unk):
                return pite(eq(k, ZERO), init, self.prevk(n))
            return None
        if not isinstance(n, T):
            if not mentions(n, unk):
                return pite(eq(k, ZERO), init, self.prevk(n))
            return None
        if isinstance(init, Undef):
            init = app('undef:' + init.name, init.idx, u.sort)
        if not isinstance(init, T):
            return None
        if init.sort != u.sort:
            init, _ = unify_sorts(init, u)
            if init.sort != u.sort:
                return None
        return self.solve_scalar(u, n, init, unk)

    def solve_scalar(self, u, n, init, unk):
        k = self.k
        if n is u:
            return init
        if not mentions(n, unk):
            if n.sort != init.sort:
                n, init = unify_sorts(n, init)
            # n(k-1) for k > 0; if that formula also gives init at 0, use it directly
            p = self.prevk(n)
            if subst(p, {k: ZERO}) is init:
                return p
            return ite(eq(k, ZERO), init, p)
        j = app('j:' + self.site, (), 'I')
        NNAMES.add('j:' + self.site)
        if u.sort == 'B':
            f1, f0 = subst(n, {u: TRUE}), subst(n, {u: FALSE})
            if mentions(f1, unk) or mentions(f0, unk):
                return None
            if f1 is TRUE:
                return or_(init, not_(forall(j, ZERO, k, not_(subst(f0, {k: j})))))
            if f0 is FALSE:
                return and_(init, forall(j, ZERO, k, subst(f1, {k: j})))
            return None
        if u.sort == 'S':
            return None
        d = strip(u, n)
        if d is not None and not mentions(d, unk):
            return add(init, sum_(j, ZERO, k, subst(d, {k: j})))
        return None

    def solve_arr(self, s, u, n, init, unk):
        k = self.k
        if n.dflt != u.dflt:
            # not based on the previous contents: fresh contents every iteration
            if not mentions(n, unk) and not isinstance(init, Arr):
                return None
            return None
        if init is None:
            init = Arr(D('cell'))
        if not n.ws:
            return init
        fams = []
        for i, w in enumerate(n.ws):
            f = None
            if len(n.ws) == 1:
                f = self.scan(s, w, init, unk)
            if f is None:
                f = self.family(self.inplace(s, w, init), k, i)
            if f is None:
                return None
            fams.append(f)
        if any(mentions(f, unk) for f in fams):
            return None
        fams = [under_guard(f) for f in fams]
        # several writes per iteration: interleaving matters only if they may overlap across iterations
        if len(fams) > 1 and not self.compatible(fams):
            return None
        return Arr(init.dflt, init.ws + tuple(fams))

    def scan(self, s, w, init, unk):
        """A[k + c] = A[k + c - 1] + d(k): prefix sums built in place"""
        k = self.k
        if w.bvs or w.add or w.guard is not TRUE or not w.idx or not isinstance(w.val, T):
            return None
        if s[1] not in self.x.stride:
            return None
        head, e = w.idx[:-1], w.idx[-1]
        if any(k in vfree(t) for t in head):
            return None
        c = iadd(e, k, -1)
        if k in free(c):
            return None
        name = self.uname(s)
        prev = head + (iadd(e, ONE, -1),)
        cands = collect(w.val, lambda t: t.op == 'app' and t.args[0] == name and tuple(t.args[-len(w.idx):]) == prev)
        if not cands:
            return None
        d = strip(cands[0], w.val)
        if d is None or mentions(d, unk):
            return None
        ty = 'i64' if d.sort == 'I' else 'double'
        base = self.x.arr_read(self.st, init, head + (iadd(c, ONE, -1),), ty, s[1], s[2], len(head))
        if not isinstance(base, T):
            return None
        b = app('w:%s:0' % self.site, (), 'I')
        NNAMES.add(b.args[0])
        j = app('j:' + self.site, (), 'I')
        NNAMES.add(j.args[0])
        val = add(base, sum_(j, ZERO, iadd(b, ONE), subst(d, {k: j})))
        return W(((b, k),), TRUE, head + (iadd(b, c),), val)

    def inplace(self, s, w, init):
        """A[e(k)] = f(A[e(k)]): the old contents are those before the loop (verified by the inductive check)"""
        if w.add or w.bvs or not isinstance(w.val, T) or not any(self.k in vfree(t) for t in w.idx) or self.accum(w) is not None:
            return w
        name = self.uname(s)
        cands = collect(w.val, lambda t: t.op == 'app' and t.args[0] == name and tuple(t.args[-len(w.idx):]) == tuple(w.idx))
        m = {}
        for c in cands:
            ty = 'i64' if c.sort == 'I' else 'double'
            v = self.x.arr_read(self.st, init, w.idx, ty, s[1], s[2], len(w.idx) - (1 if s[1] in self.x.stride else 0))
            if not isinstance(v, T):
                return w
            m[c] = v
        return W(w.bvs, w.guard, w.idx, subst(w.val, m), False) if m else w

    def compatible(self, fams):
        return True     # re-verified by the inductive check and by match() order (see inductive)

    def family(self, w, k, i):
        b = app('w:%s:%d' % (self.site, i), (), 'I')
        NNAMES.add(b.args[0])
        # accumulate:  A[idx] = A[idx] + d
        val = w.val
        addw = w.add
        if not addw and isinstance(val, T):
            me = self.accum(w)
            if me is not None:
                val, addw = me, True
        dep = lambda v: k in vfree(v)
        idx = w.idx
        if not addw and not any(dep(t) for t in idx):
            # same place every iteration: the last one stays
            inner = [bb for bb, h in w.bvs]
            if dep(w.guard) or any(dep(h) for bb, h in w.bvs):
                return None
            m = {k: iadd(k, ONE, -1)}
            return W(w.bvs, and_(w.guard, lt(ZERO, k)), idx, vsubst(val, m))
        m = {k: b}
        # rename inner bound variables to depend on nothing else (names are unique per site)
        return W(((b, k),) + tuple((bb, subst(h, m)) for bb, h in w.bvs), subst(w.guard, m), vsubst(idx, m), vsubst(val, m), addw)

    def accum(self, w):
        """delta if the written value is the old contents at the same index plus something"""
        cands = collect(w.val, lambda t: t.op == 'app' and isinstance(t.args[0], str) and t.args[0] in self.names
                        and len(t.args) > 1 and tuple(t.args[-len(w.idx):]) == tuple(w.idx))
        for u in cands:
            d = strip(u, w.val)
            if d is not None:
                return d
        return None

    # ------------------------------------------------------------ verification
    def inductive(self, s, n, facts):
        v = self.vals[s]
        k1 = {self.k: iadd(self.k, ONE)}
        if self.is_unknown(s):
            return True
        want = vsubst(v, k1)
        return self.same(want, n, v, facts, s)

    def same(self, a, b, cur, facts, s):
        if a == b:
            return True
        if isinstance(a, T) and isinstance(b, T):
            if a.sort != b.sort:
                a, b = unify_sorts(a, b)
                if a.sort != b.sort:
                    return False
            return prove(None, eq(a, b), 20, facts=facts, timeout=3000).ok
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj.base == b.obj.base:
            return prove(None, and_(eq(a.off, b.off), *[eq(p, q) for p, q in zip(a.obj.idx, b.obj.idx)]), 10, facts=facts, timeout=2000).ok
        if isinstance(a, PIte):
            d = facts.decide(a.c)
            if d is not None:
                return self.same(a.a if d else a.b, b, cur, facts, s)
            return self.same(a.a, b, cur, Facts(facts.lst + [a.c]), s) and self.same(a.b, b, cur, Facts(facts.lst + [not_(a.c)]), s)
        if isinstance(b, PIte):
            return self.same(b, a, cur, facts, s)
        if isinstance(a, Undef) and isinstance(b, Undef):
            return a == b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.same_arr(a, b, cur, facts, s)
        return False

    def same_arr(self, a, b, cur, facts, s):
        """a: closed form at k+1; b: contents after iteration k started from the closed form cur at k"""
        if a.dflt != b.dflt:
            return False
        n = len(cur.ws)
        init = self.initial(s)
        ninit = len(init.ws) if isinstance(init, Arr) else 0
        if b.ws[:n] != cur.ws:
            # overwrite of the last constant-index write
            return False
        new = list(b.ws[n:])
        fams = cur.ws[ninit:]
        if len(new) != len(fams):
            return False
        for f, w in zip(fams, new):
            if f.bvs and f.bvs[0][0].args[0].startswith('w:' + self.site + ':') and f.bvs[0][1] is self.k:
                m = {f.bvs[0][0]: self.k}
                inst = W(tuple((bb, subst(h, m)) for bb, h in f.bvs[1:]), subst(f.guard, m), vsubst(f.idx, m), vsubst(f.val, m), f.add)
                ww = w
                if f.add and not w.add:
                    d = self.accum_closed(cur, w, f)
                    if d is None:
                        return False
                    ww = W(w.bvs, w.guard, w.idx, d, True)
                if not self.same_write(inst, ww, facts, s):
                    return False
            else:
                # last-iteration write
                inst = W(f.bvs, f.guard, f.idx, f.val, f.add)
                inst = vsubst_w(inst, {self.k: iadd(self.k, ONE)})
                if not self.same_write(inst, w, facts, s):
                    return False
        return True

    def accum_closed(self, cur, w, f):
        # the value written is (contents of cur at w.idx) + d ; cur is the closed form, so its read is a term
        key = None
        for kk, (arr, v) in list(self.x.readcache.items())[::-1]:
            if arr is cur or arr == cur:
                if kk[1] == w.idx and isinstance(v, T):
                    d = strip(v, w.val)
                    if d is not None:
                        return d
        return None

    def same_write(self, a, b, facts, s):
        if len(a.bvs) != len(b.bvs) or a.add != b.add:
            return False
        f = facts
        if a.bvs:
            f = Facts(facts.lst)
        m = {}
        for (v1, h1), (v2, h2) in zip(a.bvs, b.bvs):
            if v1 is not v2:
                m[v1] = v2
            h1 = subst(h1, m) if m else h1
            if h1 is not h2 and not prove(None, eq(h1, h2), 5, facts=f, timeout=1000).ok:
                return False
            f.addf(le(ZERO, v2))
            f.addf(lt(v2, h2))
        g1 = subst(a.guard, m) if m else a.guard
        if g1 is not b.guard:
            if not (prove(None, implies(g1, b.guard), 5, facts=f, timeout=1000).ok and
                    prove(None, implies(b.guard, g1), 5, facts=f, timeout=1000).ok):
                return False
        f = Facts(f.lst + [b.guard])
        for p, q in zip(a.idx, b.idx):
            p = vsubst(p, m)
            if p is not q and not prove(None, eq(p, q), 5, facts=f, timeout=1000).ok:
                return False
        return self.same(vsubst(a.val, m), b.val, None, f, s)

    # ------------------------------------------------------------ exit
    def bound_of(self, cont):
        """cont == (k < n) and rest -> (n, rest)"""
        parts = list(cont.args) if cont.op == 'and' else [cont]
        if cont.op == 'or':         # the conditions common to all ways round the loop
            alts = [list(a.args) if a.op == 'and' else [a] for a in cont.args]
            common = [c for c in alts[0] if all(c in a for a in alts[1:])]
            if common:
                parts = common + [or_(*[and_(*[c for c in a if c not in common]) for a in alts])]
        k = self.k
        for i, c in enumerate(parts):
            n = None
            if c.op == 'ile':
                c0, d = ipoly(c.args[0])
                co = d.get((k,))
                if co is not None and co > 0 and not any(k in free(a) for m in d if m != (k,) for a in m):
                    r = from_ipoly(c0, {m: v for m, v in d.items() if m != (k,)})
                    # co*k + r <= 0
                    n = iadd(idiv(imul(r, I(-1)), co), ONE)
            elif c.op == 'not' and c.args[0].op == 'ieq':
                c0, d = ipoly(c.args[0].args[0])
                co = d.get((k,))
                if co in (1, -1) and not any(k in free(a) for m in d if m != (k,) for a in m):
                    r = from_ipoly(c0, {m: v for m, v in d.items() if m != (k,)})
                    n = imul(r, I(-co))
                    f = Facts(self.st.facts.lst)
                    if f.decide(le(ZERO, n)) is not True:
                        n = None
            if n is not None:
                rest = [p for j, p in enumerate(parts) if j != i and p is not le(ZERO, k)]
                return (n, c), and_(*rest)
        return None, cont

    def finish(self, exits, cont, nxt, bad):
        x = self.x
        k = self.k
        out = []
        bound, rest = self.bound_of(cont)
        j = app('!h', (), 'I')
        x.obs.extend(self.obs_new)
        for n in self.notes_new:
            x.note(n)
        recur = []
        for s in self.vals:
            u = self.vals[s]
            if self.is_unknown(s) and isinstance(u, T) and s in nxt and isinstance(nxt[s], T) and nxt[s].sort == u.sort:
                uk1 = subst(u, {k: iadd(k, ONE)})
                recur.append((u, eq(uk1, nxt[s]), self.initial(s)))
        K = None
        if bound is not None:
            K = imax0(bound[0])
            if K.op == 'app' and K.args[0] == 'max0' and self.st.facts.decide(le(ZERO, bound[0])) is True:
                K = bound[0]
        for o in exits:
            suf = self.suffix(o)
            parts = set(suf.args) if suf.op == 'and' else {suf}
            st = o[1]
            if bound is not None and not_(bound[1]) in parts:
                kx = K
                extra = []
                if rest is not TRUE:
                    extra.append(forall(j, ZERO, K, subst(rest, {k: j})))
            else:
                kx = app('kx:%s:%d' % (self.site, len(out)), x.iters[:-1], 'I')
                NNAMES.add(kx.args[0])
                extra = [forall(j, ZERO, kx, subst(cont, {k: j})), le(ZERO, kx)]
                if bound is not None:
                    extra.append(le(kx, K))
            for u, rec, ini in recur:
                extra.append(forall(j, ZERO, kx, subst(rec, {k: j})))
                if isinstance(ini, T):
                    extra.append(eq(subst(u, {k: ZERO}), ini))
            m = {k: kx}
            memo = {'__k': frozenset([k])}
            ns = st.copy()
            ns.facts = Facts(self.st.facts.lst)
            for e in extra:
                ns.fact(e)
            for f in st.facts.lst[self.base:]:
                if f in (extra):
                    continue
                ns.fact(subst(f, m))
            if FALSE in ns.facts.set:
                continue
            memd = {}
            for base, inner in ns.mem.items():
                if self.st.mem.get(base) is inner:
                    memd[base] = inner
                    continue
                ni = None
                for r, v in inner.items():
                    if k in vfree(v):
                        if ni is None:
                            ni = dict(inner)
                        ni[r] = vsubst(v, m)
                memd[base] = ni if ni is not None else inner
            ns.mem = memd
            if o[0] == 'ret':
                v = o[2]
                out.append(('ret', ns, vsubst(v, m) if v is not None else None))
            else:
                env = {}
                for i, v in o[2].items():
                    env[i] = vsubst(v, m) if v is not None and k in vfree(v) else v
                out.append(('exit', ns, env, o[3], o[4]))
        return out


DEBUG = False


def vsubst_w(w, m):
    return W(tuple((b, subst(h, m)) for b, h in w.bvs), subst(w.guard, m), vsubst(w.idx, m), vsubst(w.val, m), w.add)


_ment = {}


def mentions(v, names):
    """does the value mention an application whose name is in names?"""
    if isinstance(v, T):
        return contains(v, lambda t: t.op == 'app' and t.args[0] in names)
    if isinstance(v, Ptr):
        return mentions(v.off, names) or any(mentions(i, names) for i in v.obj.idx)
    if isinstance(v, PIte):
        return mentions(v.c, names) or mentions(v.a, names) or mentions(v.b, names)
    if isinstance(v, Arr):
        return mentions(v.dflt, names) or any(mentions(w, names) for w in v.ws)
    if isinstance(v, W):
        return mentions(v.guard, names) or mentions(v.val, names) or any(mentions(i, names) for i in v.idx) or \
            any(mentions(h, names) for b, h in v.bvs)
    if isinstance(v, D):
        if v.kind == 'u':
            return v.a[0] in names
        return any(mentions(a, names) for a in v.a)
    if isinstance(v, Undef):
        return v.name in names or any(mentions(i, names) for i in v.idx)
    if isinstance(v, Str8):
        return mentions(v.s, names) or mentions(v.off, names)
    if isinstance(v, (tuple, list)):
        return any(mentions(i, names) for i in v)
    if isinstance(v, dict):
        return any(mentions(i, names) for i in v.values())
    if isinstance(v, Agg):
        return any(mentions(i, names) for i in v.f.values())
    if isinstance(v, Lam):
        return mentions(v.v, names)
    return False


def strip(u, t):
    """d with t == u + d and d free of u, or None"""
    if t is u:
        return RZERO if u.sort == 'R' else ZERO
    if t.op == 'radd':
        a, b = t.args
        hu = lambda q: contains(q, lambda z: z is u)
        ha, hb = hu(a), hu(b)
        if ha and not hb:
            d = strip(u, a)
            return None if d is None else radd(d, b)
        if hb and not ha:
            d = strip(u, b)
            return None if d is None else radd(a, d)
        return None
    if t.op == 'ite':
        c, a, b = t.args
        if contains(c, lambda z: z is u):
            return None
        a, b = strip(u, a), strip(u, b)
        if a is None or b is None:
            return None
        return ite(c, a, b)
    if t.op == 'ip' and u.sort == 'I':
        c, d = ipoly(t)
        # u itself or one ite atom containing u
        if (u,) in d:
            r = iadd(t, u, -1)
            if not contains(r, lambda z: z is u):
                return r
            return None
        for m, k in d.items():
            if len(m) == 1 and k == 1 and m[0].op == 'ite':
                a = strip(u, m[0])
                if a is not None:
                    r = iadd(t, m[0], -1)
                    if not contains(r, lambda z: z is u):
                        return iadd(a, r)
    return None


def saturation(c, u):
    """C with c equivalent to u < C, or None"""
    if c.op != 'ile' or c.args[1] is not ZERO:
        return None
    d = strip(u, c.args[0])         # u + d <= 0
    if d is None or contains(d, lambda t: t is u):
        return None
    return iadd(ONE, d, -1)


def under_guard(w):
    """the write with the conditionals decided by its own guard resolved"""
    cs = list(w.guard.args) if w.guard.op == 'and' else [w.guard]
    cs = [c for c in cs if c is not TRUE]
    if not cs:
        return w
    idx, val = list(w.idx), w.val
    for c in cs:
        idx = [resolve(i, c, True) for i in idx]
        if isinstance(val, T):
            val = resolve(val, c, True)
    return W(w.bvs, w.guard, tuple(idx), val, w.add)


def merge_values(items):
    """[(cond, value)] with disjoint exhaustive conditions -> value"""
    items = [(c, v) for c, v in items]
    vals = [v for c, v in items if v is not None]
    if not vals:
        return None
    if all(v == vals[0] for v in vals) and len(vals) == len(items):
        return vals[0]
    if any(isinstance(v, Arr) for v in vals):
        arrs = [(c, v if v is not None else Arr(D('cell'))) for c, v in items]
        if any(not isinstance(v, Arr) for c, v in arrs):
            raise X.Unsupported('merge of array and scalar')
        d = arrs[0][1].dflt
        if any(a.dflt != d for c, a in arrs):
            raise X.Unsupported('merge of arrays with different origin')
        n = 0
        while all(len(a.ws) > n for c, a in arrs) and all(a.ws[n] == arrs[0][1].ws[n] for c, a in arrs):
            n += 1
        ws = list(arrs[0][1].ws[:n])
        # identical index writes in all branches: merge the values
        sufs = [(c, list(a.ws[n:])) for c, a in arrs]
        while all(s for c, s in sufs) and all(not s[0].bvs and s[0].guard is TRUE and s[0].idx == sufs[0][1][0].idx and
                                              not s[0].add for c, s in sufs):
            ws.append(W((), TRUE, sufs[0][1][0].idx, merge_values([(c, s[0].val) for c, s in sufs])))
            for c, s in sufs:
                s.pop(0)
        for c, s in sufs:
            for w in s:
                ws.append(W(w.bvs, and_(c, w.guard), w.idx, w.val, w.add))
        return Arr(d, tuple(ws))
    r = None
    for c, v in reversed(items):
        if v is None:
            v = Undef('merge')
        if r is None:
            r = v
        else:
            r = pite(c, v, r)
    return r
