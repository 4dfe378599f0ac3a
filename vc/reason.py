"""Fast sound reasoning used before the general solvers:

 * Bounds   interval analysis of real terms under the path condition
 * Linear   refutation in linear arithmetic over monomials (each nonlinear
            monomial is an unknown with the sign its factors imply)
 * Split    equality of piecewise rational functions: comparison atoms are
            brought to a canonical polynomial form, regions are enumerated and
            every region is normalised exactly
"""
import time
from fractions import Fraction
import z3
import terms as tm
from terms import T, R, TRUE, FALSE
import field

INF = None
FULL = (None, False, None, False)       # lo, lo_strict, hi, hi_strict


def meet(a, b):
    lo, ls, hi, hs = a
    l2, ls2, h2, hs2 = b
    if l2 is not None and (lo is None or l2 > lo):
        lo, ls = l2, ls2
    elif l2 is not None and l2 == lo:
        ls = ls or ls2
    if h2 is not None and (hi is None or h2 < hi):
        hi, hs = h2, hs2
    elif h2 is not None and h2 == hi:
        hs = hs or hs2
    return (lo, ls, hi, hs)


def iadd(a, b):
    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
    hi = None if a[2] is None or b[2] is None else a[2] + b[2]
    return (lo, lo is not None and (a[1] or b[1]), hi, hi is not None and (a[3] or b[3]))


def ineg(a):
    return (None if a[2] is None else -a[2], a[3], None if a[0] is None else -a[0], a[1])


def _mulend(x, xs, y, ys):
    """product of two end points (None = infinite with sign given by caller) -> (value, strict)"""
    if x == 0 and not xs:
        return (Fraction(0), False)
    if y == 0 and not ys:
        return (Fraction(0), False)
    return (x * y, xs or ys)


def imul(a, b):
    # handle by sign classes to deal with infinities
    def nonneg(i):
        return i[0] is not None and i[0] >= 0

    def nonpos(i):
        return i[2] is not None and i[2] <= 0 and not (i[0] is not None and i[0] >= 0)
    if nonpos(a):
        return ineg(imul(ineg(a), b))
    if nonpos(b):
        return ineg(imul(a, ineg(b)))
    if nonneg(a) and nonneg(b):
        lo, ls = _mulend(a[0], a[1], b[0], b[1])
        if a[2] is None or b[2] is None:
            z = (a[2] == 0 and a[2] is not None) or (b[2] == 0 and b[2] is not None)
            hi, hs = (Fraction(0), False) if z else (None, False)
        else:
            hi, hs = a[2] * b[2], (a[3] or b[3])
        return (lo, ls, hi, hs)
    if nonneg(b):
        a, b = b, a
    if nonneg(a):
        # a in [0..], b mixed
        if a[2] is None or b[0] is None:
            lo, ls = None, False
        else:
            lo, ls = a[2] * b[0], False
        if a[2] is None or b[2] is None:
            hi, hs = None, False
        else:
            hi, hs = a[2] * b[2], False
        return (lo, ls, hi, hs)
    if None in (a[0], a[2], b[0], b[2]):
        return FULL
    xs = [a[0] * b[0], a[0] * b[2], a[2] * b[0], a[2] * b[2]]
    return (min(xs), False, max(xs), False)


def iinv(a):
    lo, ls, hi, hs = a
    if lo is not None and hi is not None and (lo > hi or lo == hi == 0):
        return FULL         # empty, or the inverse of 0
    if lo is not None and (lo > 0 or (lo == 0 and ls)):
        nlo = Fraction(0) if hi is None else 1 / hi
        nls = True if hi is None else hs
        nhi = None if lo == 0 else 1 / lo
        return (nlo, nls, nhi, False if nhi is None else ls)
    if hi is not None and (hi < 0 or (hi == 0 and hs)):
        return ineg(iinv(ineg(a)))
    return FULL


def positive(i):
    return i[0] is not None and (i[0] > 0 or (i[0] == 0 and i[1]))


def nonnegative(i):
    return i[0] is not None and i[0] >= 0


def isqrt_lo(q):
    """a rational lower bound of sqrt(q)"""
    if q <= 0:
        return Fraction(0)
    import math
    n = q.numerator * q.denominator
    r = math.isqrt(n)
    return Fraction(r, q.denominator)


class Bounds:
    def __init__(self, pc):
        self.known = {}
        self.memo = {}
        self.empty = False
        for c in pc:
            self.learn(c)

    def note(self, t, iv):
        self.known[t.id] = meet(self.known.get(t.id, FULL), iv)

    def learn(self, c):
        if c.op == 'and':
            for a in c.args:
                self.learn(a)
            return
        if c.op in ('<', '<='):
            a, b = c.args
            if a.sort != 'R':
                return
            st = c.op == '<'
            if a.op == 'c':
                self.note(b, (a.args[0], st, None, False))
            elif b.op == 'c':
                self.note(a, (None, False, b.args[0], st))
            else:
                d = tm.sub(b, a)
                self.note(d, (Fraction(0), st, None, False))
                self.note(tm.neg(d), (None, False, Fraction(0), st))
        elif c.op == '=' and c.args[0].sort == 'R':
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                if x.op == 'c':
                    self.note(y, (x.args[0], False, x.args[0], False))
        elif c.op == 'not' and c.args[0].op in ('<', '<='):
            x = c.args[0]
            self.learn(tm.le(x.args[1], x.args[0]) if x.op == '<' else tm.lt(x.args[1], x.args[0]))
        elif c.op == 'not' and c.args[0].op == '=' and c.args[0].args[0].sort == 'R':
            x = c.args[0]
            for p, q in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                if p.op == 'c':
                    cur = self.known.get(q.id, FULL)
                    if cur[0] == p.args[0]:
                        self.note(q, (cur[0], True, None, False))

    def iv(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        for x in tm.subterms([t]):
            if x.sort == 'R' and x.id not in self.memo:
                v = self._iv(x)
                k = self.known.get(x.id)
                if k:
                    v = meet(v, k)
                    if v[0] is not None and v[2] is not None and (v[0] > v[2] or (v[0] == v[2] and (v[1] or v[3]))):
                        self.empty = True       # the constraints contradict each other
                        v = k
                self.memo[x.id] = v
        return self.memo[t.id]

    def _iv(self, x):
        op, a = x.op, x.args
        m = self.memo
        if op == 'c':
            return (a[0], False, a[0], False)
        if op == 'v':
            if a[0] == 'pi':
                return (Fraction(314159265, 100000000), True, Fraction(314159266, 100000000), True)
            return FULL
        if op == '+':
            r = (Fraction(0), False, Fraction(0), False)
            for y in a:
                r = iadd(r, m[y.id])
            return r
        if op == '*':
            cnt = {}
            for y in a:
                cnt[y] = cnt.get(y, 0) + 1
            r = (Fraction(1), False, Fraction(1), False)
            for y, k in cnt.items():
                v = m[y.id]
                if k % 2 == 0:
                    sq = self.square(v)
                    for _ in range(k // 2):
                        r = imul(r, sq)
                else:
                    r = imul(r, v)
                    sq = self.square(v)
                    for _ in range(k // 2):
                        r = imul(r, sq)
            return r
        if op == '/':
            v = imul(m[a[0].id], iinv(m[a[1].id]))
            # x / (c + x) with x >= 0, c > 0  lies in [0, 1)
            d = a[1]
            if d.op == '+' and nonnegative(m[a[0].id]):
                rest = tm.sub(d, a[0])
                if not (rest.op == '+' and len(rest.args) > len(d.args)):
                    ri = self.iv(rest)
                    if positive(ri):
                        v = meet(v, (Fraction(0), False, Fraction(1), True))
            return v
        if op == 'sqrt':
            v = m[a[0].id]
            lo = Fraction(0)
            ls = positive(v)
            if v[0] is not None and v[0] > 0:
                lo = isqrt_lo(v[0])
                ls = lo == 0 or v[1]
                if lo * lo != v[0]:
                    ls = False if lo > 0 else True
            hi = None
            if v[2] is not None and v[2] >= 0:
                h = isqrt_lo(v[2])
                hi = h if h * h == v[2] else h + 1
            return (lo, ls, hi, v[3] if hi is not None and hi * hi == v[2] else False)
        if op == 'ite':
            p, q = m[a[1].id], m[a[2].id]
            lo = None if p[0] is None or q[0] is None else min(p[0], q[0])
            ls = False
            if lo is not None:
                ls = all(i[1] for i in (p, q) if i[0] == lo)
            hi = None if p[2] is None or q[2] is None else max(p[2], q[2])
            hs = False
            if hi is not None:
                hs = all(i[3] for i in (p, q) if i[2] == hi)
            return (lo, ls, hi, hs)
        if op == 'uf':
            n = a[0]
            one = Fraction(1)
            if n in ('exp', 'exp2', 'exp10'):
                return (Fraction(0), True, None, False)
            if n in ('sin', 'cos'):
                return (-one, False, one, False)
            if n == 'tanh':
                return (-one, True, one, True)
            if n == 'cosh':
                return (one, False, None, False)
            if n == 'pow' and positive(m[a[1].id]):
                return (Fraction(0), True, None, False)
            if n in ('log', 'log10', 'log2'):
                v = m[a[1].id]
                if v[0] is not None and v[0] >= 1:
                    return (Fraction(0), v[1] or v[0] > 1, None, False)
            if n == 'cbrt' and positive(m[a[1].id]):
                return (Fraction(0), True, None, False)
            return FULL
        if op == 'to_real':
            lo, hi = tm.ival(a[0])
            return (None if lo is None else Fraction(lo), False, None if hi is None else Fraction(hi), False)
        return FULL

    def square(self, v):
        if nonnegative(v) or (v[2] is not None and v[2] <= 0):
            return imul(v, v)
        hi = None
        if v[0] is not None and v[2] is not None:
            hi = max(v[0] * v[0], v[2] * v[2])
        nz = False
        return (Fraction(0), nz, hi, False)

    def holds(self, g):
        """True if the interval analysis proves g"""
        op = g.op
        if g is TRUE:
            return True
        if op == 'and':
            return all(self.holds(x) for x in g.args)
        if op == 'or':
            return any(self.holds(x) for x in g.args)
        if op in ('<', '<=') and g.args[0].sort == 'R':
            a, b = g.args
            va, vb = self.iv(a), self.iv(b)
            if va[2] is not None and vb[0] is not None:
                if va[2] < vb[0]:
                    return True
                if va[2] == vb[0] and (op == '<=' or va[3] or vb[1]):
                    return True
            d = self.iv(tm.sub(b, a))
            return positive(d) if op == '<' else nonnegative(d)
        if op == 'not':
            x = g.args[0]
            if x.op == '=' and x.args[0].sort == 'R':
                a, b = x.args
                if self.apart(self.iv(a), self.iv(b)):
                    return True
                d = self.iv(tm.sub(a, b))
                if positive(d) or positive(ineg(d)):
                    return True
                # a product is nonzero when its factors are
                z = b if a.op == 'c' and a.args[0] == 0 else (a if b.op == 'c' and b.args[0] == 0 else None)
                if z is not None and z.op == '*':
                    return all(self.holds(tm.not_(tm.eq(f, R(0)))) for f in z.args)
                return False
            if x.op == '<':
                return self.holds(tm.le(x.args[1], x.args[0]))
            if x.op == '<=':
                return self.holds(tm.lt(x.args[1], x.args[0]))
            if x.op == 'and':
                return any(self.holds(tm.not_(y)) for y in x.args)
            if x.op == 'or':
                return all(self.holds(tm.not_(y)) for y in x.args)
        return False

    def apart(self, p, q):
        for a, b in ((p, q), (q, p)):
            if a[2] is not None and b[0] is not None and (a[2] < b[0] or (a[2] == b[0] and (a[3] or b[1]))):
                return True
        return False


# ---------------------------------------------------------------- linear arithmetic over monomials
def linear_unsat(cs, bounds, rev, timeout_ms=2500):
    """cs: purified constraints (no division/sqrt/uf).  True if already unsatisfiable when every
    nonlinear monomial is an independent unknown with the interval implied by its factors.
    rev: purification variable id -> original term"""
    ctx = field.Ctx(limit=20000)
    zv = {}
    side = []
    one = (Fraction(1), False, Fraction(1), False)

    def atom_iv(i):
        t = ctx.atoms[i]
        t = rev.get(t.id, t)
        return bounds.iv(t)

    def mono(m):
        v = zv.get(m)
        if v is not None:
            return v
        v = z3.Real('m%d' % len(zv))
        zv[m] = v
        iv = one
        i = 0
        k = m
        while k:
            e = k & field.MASK
            if e:
                a = atom_iv(i)
                sq = bounds.square(a)
                for _ in range(e // 2):
                    iv = imul(iv, sq)
                if e % 2:
                    iv = imul(iv, a)
            k >>= field.SH
            i += 1
        if iv[0] is not None:
            q = z3.RealVal(iv[0])
            side.append(v > q if iv[1] else v >= q)
        if iv[2] is not None:
            q = z3.RealVal(iv[2])
            side.append(v < q if iv[3] else v <= q)
        return v

    memo = {}

    def poly(t):
        n, d = ctx.ratio(t)
        if len(d) != 1 or 0 not in d:
            raise field.TooBig()
        dc = d[0]
        terms = []
        for m, c in n.items():
            q = z3.RealVal(Fraction(c) / dc)
            terms.append(q if m == 0 else q * mono(m))
        return z3.Sum(terms) if terms else z3.RealVal(0)

    def conv(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        op, a = t.op, t.args
        if op == 'c':
            r = z3.BoolVal(a[0])
        elif op == 'v':
            r = z3.Bool(a[0])
        elif op == 'and':
            r = z3.And(*[conv(x) for x in a])
        elif op == 'or':
            r = z3.Or(*[conv(x) for x in a])
        elif op == 'not':
            r = z3.Not(conv(a[0]))
        elif op == 'ite' and t.sort == 'B':
            r = z3.If(conv(a[0]), conv(a[1]), conv(a[2]))
        elif op in ('<', '<=', '='):
            if a[0].sort == 'B':
                r = conv(a[0]) == conv(a[1])
            elif a[0].sort == 'R':
                d = poly(tm.sub(a[0], a[1]))
                r = d < 0 if op == '<' else (d <= 0 if op == '<=' else d == 0)
            else:
                raise ValueError('int')
        else:
            raise ValueError(op)
        memo[t.id] = r
        return r

    ites = []
    seen = set()
    try:
        zs = []
        for c in cs:
            zs.append(conv(c))
            for x in tm.subterms([c]):
                if x.op == 'ite' and x.sort == 'R' and x.id not in seen:
                    seen.add(x.id)
                    ites.append(x)
        for x in ites:
            v = poly(x)
            cnd = conv(x.args[0])
            zs.append(z3.Implies(cnd, v == poly(x.args[1])))
            zs.append(z3.Implies(z3.Not(cnd), v == poly(x.args[2])))
    except (ValueError, field.TooBig):
        return False
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', timeout_ms)
    for z in zs + side:
        s.add(z)
    return s.check() == z3.unsat


# ---------------------------------------------------------------- piecewise equality
class GiveUp(Exception):
    pass


class Split:
    def __init__(self, pc, deadline, unsat):
        self.pc = pc
        self.deadline = deadline
        self.unsat = unsat              # callback: list of constraints -> bool
        self.ctx = field.Ctx()
        self.bounds = Bounds(pc)
        self.keys = {}                  # canonical polynomial -> index
        self.reps = []                  # index -> term whose sign it is
        self.bmemo = {}
        self.tmemo = {}
        self.lifts = 0
        self.leaves = 0
        self.facts = None

    # sign of a polynomial by intervals of its atoms
    def poly_sign(self, p):
        tot = (Fraction(0), False, Fraction(0), False)
        for m, c in p.items():
            iv = (Fraction(c), False, Fraction(c), False)
            i = 0
            k = m
            while k:
                e = k & field.MASK
                if e:
                    a = self.bounds.iv(self.ctx.atoms[i])
                    sq = self.bounds.square(a)
                    for _ in range(e // 2):
                        iv = imul(iv, sq)
                    if e % 2:
                        iv = imul(iv, a)
                k >>= field.SH
                i += 1
            tot = iadd(tot, iv)
            if tot[0] is None and tot[2] is None:
                return 0
        if positive(tot):
            return 1
        if positive(ineg(tot)):
            return -1
        return 0

    def reduce_simple(self, p):
        """sqrt(x)^2 -> x for radicands that are polynomials"""
        ctx = self.ctx
        for i in sorted(ctx.rel, reverse=True):
            num, den = ctx.rel[i]
            if den != {0: 1}:
                continue
            sh = field.SH * i
            if not any(((m >> sh) & field.MASK) >= 2 for m in p):
                continue
            out = {}
            for m, c in p.items():
                e = (m >> sh) & field.MASK
                z = {m - ((e - e % 2) << sh): c}
                for _ in range(e // 2):
                    z = ctx.pmul(z, num)
                out = ctx.padd(out, z)
            p = out
        return p

    def cmp(self, op, a, b):
        """canonical form of a op b (ite-free)"""
        diff = tm.sub(b, a)
        n, d = self.ctx.ratio(diff)
        n = self.reduce_simple(n)
        if not n:
            return tm.B(op != '<')
        if d != {0: 1}:
            s = self.poly_sign(d)
            if s == 0:
                n = self.ctx.pmul(n, d)
            elif s < 0:
                n = {m: -c for m, c in n.items()}
        if len(n) == 1 and 0 in n:
            v = n[0]
            return tm.B(v > 0 if op in ('<', '<=') else False)
        s = self.poly_sign(n)
        if s:
            return tm.B(s > 0 if op in ('<', '<=') else False)
        lm = max(n)
        lc = n[lm]
        sg = 1 if lc > 0 else -1
        k = frozenset((m, Fraction(c) / lc) for m, c in n.items())
        i = self.keys.get(k)
        if i is None:
            i = len(self.reps)
            self.keys[k] = i
            self.reps.append(diff if sg > 0 else tm.neg(diff))
        P, N = tm.var('!P%d' % i, 'B'), tm.var('!N%d' % i, 'B')
        if sg < 0:
            P, N = N, P
        if op == '<':
            return P
        if op == '<=':
            return tm.not_(N)
        return tm.and_(tm.not_(P), tm.not_(N))

    def lift(self, op, a, b):
        x = None
        for y in tm.subterms([a, b]):
            if y.op == 'ite':
                x = y
                break
        if x is None:
            return self.cmp(op, a, b)
        self.lifts += 1
        if self.lifts > 400 or time.time() > self.deadline:
            raise GiveUp()
        c, t, e = x.args
        if c is TRUE or c is FALSE:
            y = t if c is TRUE else e
            return self.lift(op, tm.subst(a, {x: y}), tm.subst(b, {x: y}))
        return tm.ite(c, self.lift(op, self.assume_in(tm.subst(a, {x: t}), c, True), self.assume_in(tm.subst(b, {x: t}), c, True)),
                      self.lift(op, self.assume_in(tm.subst(a, {x: e}), c, False), self.assume_in(tm.subst(b, {x: e}), c, False)))

    def assume_in(self, t, c, val):
        if c.op == 'v':
            return tm.subst(t, {c: tm.B(val)})
        if c.op == 'not' and c.args[0].op == 'v':
            return tm.subst(t, {c.args[0]: tm.B(not val)})
        return t

    def canon(self, t):
        """rewrite every comparison of reals inside t into canonical sign atoms"""
        for x in tm.subterms([t]):
            if x.id in self.tmemo:
                continue
            if x.op in ('<', '<=', '=') and x.args[0].sort == 'R':
                a, b = (self.tmemo[y.id] for y in x.args)
                r = self.lift(x.op, a, b)
            elif x.op == 'ite' and x.sort == 'R':
                c, p, q = (self.tmemo[y.id] for y in x.args)
                r = tm.ite(self.continuous(c, p, q), p, q)
            elif x.args and any(isinstance(y, T) for y in x.args):
                r = tm.rebuild(x, [self.tmemo[y.id] if isinstance(y, T) else y for y in x.args])
            else:
                r = x
            self.tmemo[x.id] = r
        return self.tmemo[t.id]

    def continuous(self, c, p, q):
        """for min/max-like choices (the branches agree where the condition switches) use the P form of the
        condition, so that a < b ? b : a and b < a ? a : b become the same term"""
        neg = False
        v = c
        if v.op == 'not':
            neg, v = True, v.args[0]
        if v.op != 'v' or v.args[0][:2] != '!N':
            return c
        if any(y.op == 'ite' for y in tm.subterms([p, q])):
            return c
        i = int(v.args[0][2:])
        n, d = self.ctx.ratio(tm.sub(p, q))
        n = self.reduce_simple(n)
        if not n:
            return c
        if d != {0: 1}:
            if self.poly_sign(d) == 0:
                return c
        lc = n[max(n)]
        k = frozenset((m, Fraction(z) / lc) for m, z in n.items())
        if self.keys.get(k) != i:
            return c
        P = tm.var('!P%d' % i, 'B')
        return P if neg else tm.not_(P)

    def find_split(self, ts):
        for x in tm.subterms(ts):
            if x.op == 'ite':
                for y in tm.subterms([x.args[0]]):
                    if y.op == 'v' and y.sort == 'B':
                        return y
        return None

    def prove(self, a, b):
        r = self.leaf(a, b, [], [])
        if r:
            return True
        a2, b2 = self.canon(a), self.canon(b)
        self.allp = {y.args[0] for y in tm.subterms([a2, b2]) if y.op == 'v' and y.args[0][:2] in ('!P', '!N')}
        return self.rec(a2, b2, [], [], 0)

    def rec(self, a, b, lits, zeros, depth):
        if a is b:
            return True
        if time.time() > self.deadline or self.leaves > 3000:
            raise GiveUp()
        v = self.find_split([a, b])
        if v is None:
            self.leaves += 1
            if self.leaf(a, b, zeros, lits):
                return True
            if lits and self.unsat(self.pc + lits):
                return True
            return False
        name = v.args[0]
        if name[:2] not in ('!P', '!N'):
            cases = [({v: TRUE}, [v], []), ({v: FALSE}, [tm.not_(v)], [])]
        else:
            i = int(name[2:])
            P, N = tm.var('!P%d' % i, 'B'), tm.var('!N%d' % i, 'B')
            rep = self.reps[i]
            both = ('!P%d' % i) in self.allp and ('!N%d' % i) in self.allp
            if both:
                cases = [({P: TRUE, N: FALSE}, [tm.lt(R(0), rep)], []),
                         ({P: FALSE, N: TRUE}, [tm.lt(rep, R(0))], []),
                         ({P: FALSE, N: FALSE}, [tm.eq(rep, R(0))], [rep])]
            elif name[1] == 'P':
                cases = [({P: TRUE}, [tm.lt(R(0), rep)], []), ({P: FALSE}, [tm.le(rep, R(0))], [])]
            else:
                cases = [({N: TRUE}, [tm.lt(rep, R(0))], []), ({N: FALSE}, [tm.le(R(0), rep)], [])]
        for m, l, z in cases:
            if depth >= 3 and depth % 2 == 1 and self.unsat(self.pc + lits + l):
                continue
            if not self.rec(tm.subst(a, m), tm.subst(b, m), lits + l, zeros + z, depth + 1):
                return False
        return True

    def leaf(self, a, b, zeros, lits):
        self.ctx.work = 0
        facts = [c.args for c in self.pc + lits if c.op == '=' and c.args[0].sort == 'R']
        return field.prove_eq_in(self.ctx, a, b, facts + [(z, R(0)) for z in zeros])


# ---------------------------------------------------------------- linear arithmetic over canonical leaves
def abstract_unsat(cs, timeout_ms=2500, deadline=None):
    """True if cs is unsatisfiable when every nonlinear summand is an independent unknown.  Summands are
    identified up to exact equality of rational functions (and a constant factor), so syntactically different
    but equal quotients become the same unknown."""
    deadline = deadline or time.time() + 6
    ctx = field.Ctx(limit=30000)
    ctx.deadline, ctx.maxn = deadline, 300000
    bounds = Bounds(cs)
    sp = Split(cs, deadline, None)
    sp.ctx = ctx
    sp.bounds = bounds
    zmono, ratios, side = {}, [], []
    memo, bmemo = {}, {}
    cnt = [0]

    def bound(v, iv):
        if iv[0] is not None:
            q = z3.RealVal(iv[0])
            side.append(v > q if iv[1] else v >= q)
        if iv[2] is not None:
            q = z3.RealVal(iv[2])
            side.append(v < q if iv[3] else v <= q)

    def mono(m):
        v = zmono.get(m)
        if v is not None:
            return v
        v = z3.Real('m%d' % len(zmono))
        zmono[m] = v
        iv = (Fraction(1), False, Fraction(1), False)
        i, k = 0, m
        while k:
            e = k & field.MASK
            if e:
                a = bounds.iv(ctx.atoms[i])
                sq = bounds.square(a)
                for _ in range(e // 2):
                    iv = imul(iv, sq)
                if e % 2:
                    iv = imul(iv, a)
            k >>= field.SH
            i += 1
        bound(v, iv)
        return v

    def poly(n, dc):
        terms = []
        for m, c in n.items():
            q = z3.RealVal(Fraction(c) / dc)
            terms.append(q if m == 0 else q * mono(m))
        return z3.Sum(terms) if terms else z3.RealVal(0)

    def lin(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if time.time() > deadline:
            raise GiveUp()
        op, a = t.op, t.args
        if op == 'c':
            r = z3.RealVal(a[0])
        elif op == '+':
            r = z3.Sum([lin(x) for x in a])
        elif op == '*' and len(a) == 2 and a[0].op == 'c':
            r = z3.RealVal(a[0].args[0]) * lin(a[1])
        else:
            x = None
            if op == 'ite':
                x = t
            else:
                for y in tm.subterms([t]):
                    if y.op == 'ite':
                        x = y
                        break
            if x is not None:
                cnt[0] += 1
                if cnt[0] > 300:
                    raise GiveUp()
                r = z3.Real('i%d' % cnt[0])
                c = conv(x.args[0])
                tt = x.args[1] if x is t else tm.subst(t, {x: x.args[1]})
                ee = x.args[2] if x is t else tm.subst(t, {x: x.args[2]})
                side.append(z3.Implies(c, r == lin(tt)))
                side.append(z3.Implies(z3.Not(c), r == lin(ee)))
            else:
                n, d = ctx.ratio(t)
                n = sp.reduce_simple(n)
                d = sp.reduce_simple(d)
                if len(d) == 1 and 0 in d:
                    r = poly(n, d[0])
                elif not n:
                    r = z3.RealVal(0)
                else:
                    for n0, d0, v in ratios:
                        p, q = sp.reduce_simple(ctx.pmul(n, d0)), sp.reduce_simple(ctx.pmul(n0, d))
                        if len(p) == len(q) and p.keys() == q.keys():
                            m = max(p)
                            k = Fraction(p[m]) / q[m]
                            if all(Fraction(p[x]) == k * q[x] for x in p):
                                r = z3.RealVal(k) * v
                                bound(r, bounds.iv(t))
                                break
                    else:
                        r = z3.Real('q%d' % len(ratios))
                        ratios.append((n, d, r))
                        bound(r, bounds.iv(t))
                        if len(ratios) > 60:
                            raise GiveUp()
        memo[t.id] = r
        return r

    def conv(t):
        r = bmemo.get(t.id)
        if r is not None:
            return r
        op, a = t.op, t.args
        if op == 'c':
            r = z3.BoolVal(a[0])
        elif op == 'v':
            r = z3.Bool(a[0])
        elif op == 'and':
            r = z3.And(*[conv(x) for x in a])
        elif op == 'or':
            r = z3.Or(*[conv(x) for x in a])
        elif op == 'not':
            r = z3.Not(conv(a[0]))
        elif op == 'ite' and t.sort == 'B':
            r = z3.If(conv(a[0]), conv(a[1]), conv(a[2]))
        elif op in ('<', '<=', '='):
            if a[0].sort == 'B':
                r = conv(a[0]) == conv(a[1])
            elif a[0].sort == 'R':
                d = lin(a[0]) - lin(a[1])
                r = d < 0 if op == '<' else (d <= 0 if op == '<=' else d == 0)
            else:
                r = z3.Bool('int%d' % t.id)
        else:
            r = z3.Bool('op%d' % t.id)
        bmemo[t.id] = r
        return r

    try:
        zs = [conv(c) for c in cs]
    except (GiveUp, field.TooBig):
        return False
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', timeout_ms)
    for z in zs + side:
        s.add(z)
    return s.check() == z3.unsat
