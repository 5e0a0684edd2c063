"""Discharging obligations: syntactic simplification, rational-function normalisation, then SMT."""
import time
from fractions import Fraction
from .terms import *
from .norm import Norm, TooBig
from . import smt

DEBUG = False


def relevant(hyps, goal, extra=()):
    """hypotheses connected with the goal through shared variables/applications"""
    fv = set(free(goal))
    hs = [(h, free(h)) for h in hyps]
    keep = set()
    ch = True
    while ch:
        ch = False
        for i, (h, f) in enumerate(hs):
            if i not in keep and (not f or f & fv):
                keep.add(i)
                fv |= f
                ch = True
    return [hs[i][0] for i in sorted(keep)]


_idle = {}


def idle(h):
    """a fact for all of a range that says nothing about the size of an integer: it equates reals, or
    is three quantifiers deep"""
    r = _idle.get(h)
    if r is None:
        d, b = 0, h
        while b.op == 'forall':
            d, b = d + 1, b.args[-1]
        r = _idle[h] = d > 2 or d > 0 and b.op == 'req'
    return r


class Facts:
    """a conjunction of known booleans with quick look-ups"""

    def __init__(self, hyps):
        self.lst = []
        self.set = set()
        self.undecided = set()
        for h in hyps:
            self.addf(h)
        self.norms = None
        self.lazy = None

    def addf(self, h):
        if h.op == 'and':
            for x in h.args:
                self.addf(x)
            return
        if h is TRUE or h in self.set:
            return
        self.set.add(h)
        self.lst.append(h)

    def quick(self, c):
        if c.op == 'c':
            return c.args[0]
        if c in self.set:
            return True
        n = not_(c)
        if n in self.set:
            return False
        if c.op == 'and':
            rs = [self.quick(x) for x in c.args]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        elif c.op == 'or':
            rs = [self.quick(x) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        elif c.op == 'ile':
            if nonneg(imul(c.args[0], I(-1))):
                return True
            if nonneg(iadd(c.args[0], ONE, -1)):
                return False
            if self.monotone(c.args[0]):
                return True
        elif c.op == 'rle':
            if rlt(c.args[0], c.args[1]) in self.set:
                return True
        elif c.op == 'req':
            if rlt(c.args[0], c.args[1]) in self.set or rlt(c.args[1], c.args[0]) in self.set:
                return False
        return None

    def decide(self, c, timeout=1500, hard=False):
        """True / False / None"""
        q = self.quick(c)
        if q is not None:
            return q
        hy = relevant(self.lst, c)
        if c.op in ('ile', 'ieq'):
            hy = [h for h in hy if not idle(h)]
        for light in ((True, False) if hard else (True,)):
            if smt.check(hy, c, timeout, light=light)[0] == 'unsat':
                return True
            if smt.check(hy, not_(c), timeout, light=light)[0] == 'unsat':
                return False
        if c.op in ('rle', 'rlt', 'req'):
            return self.normdecide(c)
        if c.op == 'not' and c.args[0].op in ('rle', 'rlt', 'req'):
            r = self.normdecide(c.args[0])
            return None if r is None else not r
        return None

    def monotone(self, p):
        """a * (sum up to h - sum up to g) + r <= 0 for sums of the same non-negative terms with h <= g"""
        c, d = ipoly(p)
        ss = [(m[0], k) for m, k in d.items() if len(m) == 1 and m[0].op == 'sum']
        if len(ss) > 2:
            # what only makes it smaller is left out
            for t, k in ss:
                if k < 0 and nonneg(t) and self.monotone(from_ipoly(c, {m: q for m, q in d.items() if m != (t,)})):
                    return True
        if len(d) != 2 or len(ss) != 2 or ss[0][1] + ss[1][1]:
            return False
        (s, k), (t, _) = ss if ss[0][1] > 0 else ss[::-1]
        if s.args[1] is not t.args[1] or s.args[3] is not t.args[3] or not nonneg(s.args[3]):
            return False
        h, g = s.args[2], t.args[2]
        if c <= 0:
            return self.decide(le(h, g)) is True
        if self.decide(lt(h, g)) is not True or self.decide(le(s.args[1], h)) is not True:
            return False
        b = subst(s.args[3], {s.args[0]: h})
        while b.op == 'ite':
            r = self.decide(b.args[0])
            if r is None:
                return False
            b = b.args[1] if r else b.args[2]
        return b.op == 'c' and c <= k * b.args[0]

    def normdecide(self, c):
        """a comparison whose two sides differ by a constant"""
        if c in self.undecided:
            return None
        n = norm_for(self)
        try:
            d = n.rf(radd(c.args[1], rneg(c.args[0])))
        except (TooBig, OverflowError, ZeroDivisionError):
            self.undecided.add(c)
            return None
        if not d.n:
            return c.op != 'rlt'
        if not d.d and set(d.n) == {()} and isinstance(d.n[()], (int, Fraction)):
            if c.op == 'req':
                return False
            return d.n[()] > 0
        if c.op == 'req':
            for e in (d, n.neg(d)):
                if n.knownroot(e, True) is not None:
                    return False
        r = self.hypmatch(n, c, d)
        if r is not None:
            return r
        # the comparison with its fractions cleared
        try:
            p = n.cmpform(c.args[0], c.args[1])
        except (TooBig, OverflowError, ZeroDivisionError):
            p = None
        if p is not None:
            z = R(0)
            g = {'rle': rle, 'rlt': rlt, 'req': eq}[c.op](z, p)
            if g is not c:
                if g.op == 'c':
                    return g.args[0]
                hy = relevant(self.lst, g)
                hy = [h for h in hy if len(str(show(h))) < 4000] if len(hy) > 6 else hy
                if smt.check(hy, g, 600)[0] == 'unsat':
                    return True
                if smt.check(hy, not_(g), 600)[0] == 'unsat':
                    return False
        self.undecided.add(c)
        return None

    def hypmatch(self, n, c, d):
        """a known comparison with the same (or the opposite) difference of sides"""
        for h in self.lst:
            pos = h.op != 'not'
            g = h if pos else h.args[0]
            if g.op not in ('rle', 'rlt') or (g.args[0].op == 'c' and g.args[1].op == 'app' and len(g.args[1].args) == 1):
                continue
            k = (g.args[0], g.args[1])
            if k not in n.diffs:
                try:
                    n.diffs[k] = n.rf(radd(k[1], rneg(k[0])))
                except (TooBig, OverflowError, ZeroDivisionError):
                    n.diffs[k] = None
            e = n.diffs[k]
            if e is None or not e.n:
                continue
            try:
                for sgn in (1, -1):
                    if n.equal(d, e if sgn > 0 else n.neg(e)):
                        # the fact: sgn*d >= 0 (rle), > 0 (rlt), or the negation
                        strict = (g.op == 'rlt') == pos
                        if not pos:
                            sgn = -sgn
                        # now: sgn*d > 0 (strict) or >= 0
                        if c.op == 'req':
                            if strict:
                                return False
                            break
                        if sgn > 0:
                            if strict or c.op == 'rle':
                                return True
                        elif strict or c.op == 'rlt':
                            return False
                        break
            except (TooBig, OverflowError, ZeroDivisionError):
                continue
        return None

    def clash(self):
        """two comparisons that contradict each other in normal form"""
        n = norm_for(self)
        for h in self.lst:
            g = h.args[0] if h.op == 'not' else h
            if g.op not in ('rle', 'rlt'):
                continue
            try:
                d = n.rf(radd(g.args[1], rneg(g.args[0])))
                if d.n and self.hypmatch(n, g, d) is (g is not h):
                    return True
                # the fact itself comes first in the list: compare with the others
                rest = Facts([x for x in self.lst if x is not h])
                rest.norms = self.norms
                if d.n and rest.hypmatch(n, g, d) is (g is not h):
                    return True
            except (TooBig, OverflowError, ZeroDivisionError):
                continue
        return False

    def ordered(self):
        """pairs (a, b) known to satisfy a <= b, neither of them zero"""
        out = []
        for h in self.lst:
            g = h.args[0] if h.op == 'not' else h
            if g.op in ('rlt', 'rle') and g.args[0].op != 'c' and g.args[1].op != 'c':
                strict = (g.op == 'rlt') == (g is h)
                out.append((g.args[0], g.args[1], strict) if g is h else (g.args[1], g.args[0], strict))
        return out

    def nonneg_terms(self):
        out = []
        for h in self.lst:
            if h.op in ('rlt', 'rle') and h.args[0].op == 'c' and h.args[0].args[0] >= 0:
                out.append(h.args[1])
        return out


def norm_for(facts):
    if facts.norms is None:
        facts.norms = Norm(facts.nonneg_terms(), pos=facts.ordered())
    return facts.norms


def outer_ite(t):
    """one condition of an ite in t whose condition contains no ite itself"""
    xs = collect(t, lambda x: x.op == 'ite')
    if not xs:
        return None
    best = None
    for x in xs:
        c = x.args[0]
        if collect(c, lambda y: y.op == 'ite'):
            continue
        if any(v.args[0].startswith('!b') for v in free(c)):
            continue
        k = len(collect(t, lambda y: y.op == 'ite' and y.args[0] is c))
        if best is None or k > best[0]:
            best = (k, c)
    return best[1] if best else None


def resolve(t, cond, val):
    """t with every ite on cond (or its negation) resolved"""
    memo = {}
    nc = not_(cond)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'ite' and x.args[0] is cond:
            r = go(x.args[1] if val else x.args[2])
        elif x.op == 'ite' and x.args[0] is nc:
            r = go(x.args[2] if val else x.args[1])
        elif x.op == 'c' or not any(True for _ in subterms(x)):
            r = x
        elif x.op == 'sum':
            v, lo, hi, body = x.args
            r = mk('sum', (v, go(lo), go(hi), go(body)), x.sort)
        elif x.op in ('forall', 'lam'):
            v, lo, hi, body = x.args
            r = mk(x.op, (v, go(lo), go(hi), go(body)), x.sort)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


class Result:
    def __init__(self, ok, how, detail='', hyps=None, goal=None):
        self.ok = ok
        self.how = how
        self.detail = detail
        self.hyps = hyps
        self.goal = goal


def prove(hyps, goal, budget=40.0, depth=0, timeout=6000, facts=None, skc=None):
    """-> Result"""
    t0 = time.time()
    if skc is None:
        skc = [0]
    goal = lift(goal)
    if goal is TRUE:
        smt.STAT['syn'] += 1
        return Result(True, 'simplification')
    facts = facts or Facts(hyps)
    if FALSE in facts.set:
        return Result(True, 'simplification')
    if facts.quick(goal) is True:
        smt.STAT['syn'] += 1
        return Result(True, 'simplification')
    if goal.op == 'and':
        hows = []
        for g in goal.args:
            r = prove(None, g, budget - (time.time() - t0), depth, timeout, facts, skc)
            if not r.ok:
                return r
            hows.append(r.how)
        return Result(True, max(hows, key=len))
    if goal.op == 'forall':
        v, lo, hi, body = goal.args
        skc[0] += 1
        sk = app('sk%d' % skc[0], (), 'I')
        if nonneg(lo):
            NNAMES.add(sk.args[0])
        f2 = Facts(facts.lst + [le(lo, sk), lt(sk, hi)])
        return prove(None, subst(body, {v: sk}), budget, depth, timeout, f2, skc)
    if goal.op == 'or':
        # move all but one disjunct to the hypotheses
        args = list(goal.args)
        main = None
        for x in args:
            if x.op in ('req', 'and', 'forall'):
                main = x
        if main is None:
            main = args[-1]
        f2 = Facts(facts.lst + [not_(x) for x in args if x is not main])
        return prove(None, main, budget, depth, timeout, f2, skc)
    # conditionals
    n = 0
    while True:
        c = outer_ite(goal)
        if c is None:
            break
        d = facts.decide(c, 800)
        if d is None:
            d = facts.decide(c, 1500, hard=True) if n < 30 else None
        if d is None:
            if depth >= 14:
                return Result(False, 'too many cases', hyps=facts.lst, goal=goal)
            hows = []
            for val in (True, False):
                f2 = Facts(facts.lst + [c if val else not_(c)])
                left = budget - (time.time() - t0)
                if left < 0:
                    return Result(False, 'budget', hyps=facts.lst, goal=goal)
                r = prove(None, resolve(goal, c, val), left, depth + 1, timeout, f2, skc)
                if not r.ok:
                    return r
                hows.append(r.how)
            return Result(True, max(hows, key=len))
        goal = resolve(goal, c, d)
        if facts.quick(c) is None and (c.op in ('ieq', 'req') if d else c.op == 'not'):
            facts = Facts(facts.lst + [c if d else not_(c)])
        n += 1
        if goal.op in ('and', 'or', 'forall') or goal is TRUE:
            return prove(None, goal, budget - (time.time() - t0), depth, timeout, facts, skc)
    if goal is TRUE:
        return Result(True, 'simplification')
    if goal.op == 'req':
        ok, how = prove_req(facts, goal)
        if ok:
            return Result(True, how)
        zs = zerosquares(facts)
        if zs:
            g2 = subst(goal, zs)
            if g2 is not goal:
                if g2 is TRUE or prove_req(facts, g2)[0]:
                    return Result(True, 'normalisation')
    elif goal.op in ('rle', 'rlt'):
        n_ = norm_for(facts)
        try:
            d = n_.rf(radd(goal.args[1], rneg(goal.args[0])))
            if not d.n and goal.op == 'rle':
                return Result(True, 'normalisation')
            if not d.d and set(d.n) == {()} and d.n[()] > 0:
                return Result(True, 'normalisation')
        except (TooBig, OverflowError, ZeroDivisionError):
            pass
    if goal is FALSE and facts.clash():
        return Result(True, 'normalisation')
    hy = relevant(facts.lst, goal)
    for light, to in ((True, min(timeout, 3000)), (False, timeout)):
        r, _ = smt.check(hy, goal, to, light=light)
        if r == 'unsat':
            return Result(True, 'z3')
    # facts alone contradictory?
    if smt.check_cvc5(hy, goal, min(timeout, 6000)) == 'unsat':
        return Result(True, 'cvc5')
    # with explicit instances of the quantified facts
    h2 = instances(hy, goal)
    if h2:
        r, _ = smt.check(hy + h2, goal, timeout)
        if r == 'unsat':
            return Result(True, 'z3')
    # with the equal subterms of the goal rewritten by equational facts
    g2 = rewrite_eqs(facts, goal)
    if g2 is not goal:
        r = prove(None, g2, budget - (time.time() - t0), depth + 1, timeout, facts, skc) if depth < 14 else None
        if r and r.ok:
            return r
    return Result(False, 'z3: ' + r.how if hasattr(r, 'how') else 'z3: no proof', hyps=facts.lst, goal=goal)


def instances(hyps, goal):
    ts = {}
    for t in collect(goal, lambda t: t.op == 'sum'):
        ts[t.args[2]] = 1
    for v in free(goal):
        if v.sort == 'I' and v.op == 'app' and len(v.args) == 1:
            ts[v] = 1
    out = []
    for h in hyps:
        if h.op != 'forall':
            continue
        v, lo, hi, body = h.args
        if body.op == 'forall':
            continue
        for t in [iadd(hi, ONE, -1)] + list(ts)[:6]:
            f = or_(not_(le(lo, t)), not_(lt(t, hi)), subst(body, {v: t}))
            if f is not TRUE and f not in out:
                out.append(f)
    return out[:60]


def zerosquares(facts):
    """x = 0 for every x of a known 0 == x*x + y*y + ..."""
    m = {}
    for h in facts.lst:
        if h.op != 'req' or h.args[0] is not RZERO:
            continue
        todo, xs = [h.args[1]], []
        while todo:
            t = todo.pop()
            if t.op == 'radd':
                todo += t.args
            elif t.op == 'rmul' and len(t.args) == 2 and t.args[0] is t.args[1]:
                xs.append(t.args[0])
            else:
                xs = []
                break
        for x in xs:
            m[x] = RZERO
    return m


def rewrite_eqs(facts, goal):
    m = {}
    for h in facts.lst:
        if h.op == 'req':
            a, b = h.args
            for x, y in ((a, b), (b, a)):
                if x.op == 'app' and not contains(y, lambda t: t is x) and x not in m:
                    m[x] = y
                    break
        elif h.op == 'ieq':
            c, d = ipoly(h.args[0])
            for mono, k in d.items():
                if len(mono) == 1 and abs(k) == 1 and mono[0].op == 'app' and mono[0] not in m:
                    rest = from_ipoly(c, {q: w for q, w in d.items() if q != mono})
                    if not contains(rest, lambda t: t is mono[0]):
                        m[mono[0]] = imul(rest, I(-k))
                        break
    if not m:
        return goal
    g = goal
    for _ in range(3):
        g3 = subst(g, m)
        if g3 is g:
            break
        g = g3
    return g


def prove_req(facts, goal):
    t0 = time.time()
    n = norm_for(facts)
    a, b = goal.args
    n.toobig = False
    ok = n.same(a, b)
    if not ok and n.toobig:
        if facts.lazy is None:
            facts.lazy = Norm(facts.nonneg_terms(), lazy=True)
        ok = facts.lazy.same(a, b)
    smt.STAT['norm'] += 1
    smt.STAT['norm_time'] += time.time() - t0
    return ok, 'normalisation'
