"""Field back end: decides equalities between rational functions (with square
roots and opaque atoms) by exact polynomial normalisation over Q."""
import time
from fractions import Fraction
import terms as tm
from terms import T, R, TRUE, FALSE

SH = 12            # bits per exponent field
MASK = (1 << SH) - 1


class TooBig(Exception):
    pass


class Ctx:
    def __init__(self, limit=150000):
        self.atoms = []         # index -> term (representative)
        self.index = {}         # term id -> index
        self.memo = {}
        self.rel = {}           # atom index -> (num poly, den poly): atom^2 = num/den   (sqrt)
        self.limit = limit
        self.fnkeys = {}        # (name) -> list of (args canonical list, index)
        self.work = 0
        self.deadline = None
        self.maxn = 4000000

    # polynomials: dict monomial(int) -> coefficient
    def padd(self, a, b, k=1):
        if len(a) < len(b) and k == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def pmul(self, a, b):
        if not a or not b:
            return {}
        n = len(a) * len(b)
        self.work += n
        if n > self.maxn or self.work > 40000000 or (self.deadline and time.time() > self.deadline):
            raise TooBig()
        if len(a) > len(b):
            a, b = b, a
        r = {}
        get = r.get
        for m, c in a.items():
            for m2, c2 in b.items():
                k = m + m2
                r[k] = get(k, 0) + c * c2
        r = {m: c for m, c in r.items() if c != 0}
        if len(r) > self.limit:
            raise TooBig()
        return r

    def pconst(self, q):
        if q == 0:
            return {}
        return {0: int(q) if Fraction(q).denominator == 1 else Fraction(q)}

    def patom(self, i):
        return {1 << (SH * i): 1}

    def ppow(self, a, k):
        r = {0: 1}
        for _ in range(k):
            r = self.pmul(r, a)
        return r

    def new_atom(self, t):
        i = len(self.atoms)
        if i > 400:
            raise TooBig()
        self.atoms.append(t)
        return i

    def atom(self, t):
        i = self.index.get(t.id)
        if i is None:
            i = self.new_atom(t)
            self.index[t.id] = i
        return i

    def same(self, x, y):
        return self.iszero(self.padd(self.pmul(x[0], y[1]), self.pmul(y[0], x[1]), -1))

    def iszero(self, p):
        if not p:
            return True
        try:
            return not self.reduce(p)
        except TooBig:
            raise

    def fn_atom(self, t, name, args):
        """atom for an uninterpreted application, identified up to provable equality of real arguments"""
        key = (name, len(args), tuple(a.sort for a in args))
        rs = []
        for a in args:
            rs.append(self.ratio(a) if a.sort == 'R' else a)
        for old, i in self.fnkeys.setdefault(key, []):
            ok = True
            for x, y in zip(old, rs):
                if isinstance(x, T):
                    if x is not y:
                        ok = False
                        break
                elif not self.same(x, y):
                    ok = False
                    break
            if ok:
                return i
        i = self.new_atom(t)
        self.fnkeys[key].append((rs, i))
        if name == 'sqrt':
            self.rel[i] = rs[0]
        return i

    def ratio(self, t):
        """-> (num, den) polynomials"""
        for x in tm.subterms([t]):
            if x.id not in self.memo and x.sort == 'R':
                self.memo[x.id] = self._ratio(x)
        return self.memo[t.id]

    def _ratio(self, x):
        op = x.op
        a = x.args
        one = {0: 1}
        if op == 'c':
            return (self.pconst(a[0]), one)
        if op == 'v':
            return (self.patom(self.atom(x)), one)
        if op == '+':
            # group by denominators
            groups = {}
            for y in a:
                n, d = self.memo[y.id]
                k = frozenset(d.items())
                if k in groups:
                    groups[k] = (self.padd(groups[k][0], n), d)
                else:
                    groups[k] = (n, d)
            acc = None
            for n, d in groups.values():
                if acc is None:
                    acc = (n, d)
                elif d == one:
                    acc = (self.padd(acc[0], self.pmul(n, acc[1])), acc[1])
                elif acc[1] == one:
                    acc = (self.padd(self.pmul(acc[0], d), n), d)
                else:
                    acc = (self.padd(self.pmul(acc[0], d), self.pmul(n, acc[1])), self.pmul(acc[1], d))
            return self.simp(*acc)
        if op == '*':
            n, d = {0: 1}, {0: 1}
            for y in a:
                n2, d2 = self.memo[y.id]
                if d == n2 and len(d) > 1:
                    d, n2 = {0: 1}, {0: 1}
                if n == d2 and len(n) > 1:
                    n, d2 = {0: 1}, {0: 1}
                n = self.pmul(n, n2)
                d = self.pmul(d, d2)
            return self.simp(n, d)
        if op == '/':
            n1, d1 = self.memo[a[0].id]
            n2, d2 = self.memo[a[1].id]
            if not n2:
                # division by something normalising to zero: opaque
                return (self.patom(self.atom(x)), one)
            if d1 == d2:
                return self.simp(n1, n2)
            return self.simp(self.pmul(n1, d2), self.pmul(d1, n2))
        if op == 'sqrt':
            n, d = self.memo[a[0].id]
            sq = self.perfect(n, d)
            if sq is not None:
                return sq
            return (self.patom(self.fn_atom(x, 'sqrt', [a[0]])), one)
        if op == 'uf':
            return (self.patom(self.fn_atom(x, a[0], a[1:])), one)
        return (self.patom(self.atom(x)), one)

    def perfect(self, n, d):
        return None

    def simp(self, n, d):
        """cancel common monomial factors and constant factors"""
        if not n:
            return ({}, {0: 1})
        if n == d:
            return ({0: 1}, {0: 1})
        if d == {0: 1}:
            return (n, d)
        g = None
        for p in (n, d):
            for m in p:
                g = m if g is None else mono_gcd(g, m)
                if g == 0:
                    break
            if g == 0:
                break
        if g:
            n = {m - g: c for m, c in n.items()}
            d = {m - g: c for m, c in d.items()}
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                n = {k: norm_c(Fraction(v) / c) for k, v in n.items()}
                d = {m: 1}
        else:
            # try exact division n/d or d/n for modest sizes
            if len(n) >= len(d) and len(n) * len(d) < 20000:
                q = self.pdiv(n, d)
                if q is not None:
                    return (q, {0: 1})
            elif len(d) > len(n) and len(n) * len(d) < 20000 and len(n) > 1:
                q = self.pdiv(d, n)
                if q is not None:
                    return ({0: 1}, q)
        return (n, d)

    def pdiv(self, a, b):
        """exact division or None"""
        lb = max(b)
        cb = b[lb]
        r = dict(a)
        q = {}
        steps = 0
        while r:
            steps += 1
            if steps > 3000:
                return None
            la = max(r)
            if not mono_divides(lb, la):
                return None
            m = la - lb
            c = norm_c(Fraction(r[la]) / cb)
            q[m] = c
            for m2, c2 in b.items():
                k = m + m2
                v = r.get(k, 0) - c * c2
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = v
        return q

    def reduce(self, p):
        """eliminate squares of sqrt atoms: returns a polynomial that is zero iff p is zero
        modulo atom^2 = num/den (after multiplying by powers of den)"""
        for i in sorted(self.rel, reverse=True):
            num, den = self.rel[i]
            sh = SH * i
            maxe = 0
            for m in p:
                e = (m >> sh) & MASK
                if e > maxe:
                    maxe = e
            if maxe < 2:
                continue
            K = maxe // 2
            byexp = {}
            for m, c in p.items():
                e = (m >> sh) & MASK
                byexp.setdefault(e, {})[m - (e << sh)] = c
            npow = [{0: 1}]
            dpow = [{0: 1}]
            for _ in range(K):
                npow.append(self.pmul(npow[-1], num))
                dpow.append(self.pmul(dpow[-1], den))
            out = {}
            for e, q in byexp.items():
                k = e // 2
                z = self.pmul(self.pmul(q, npow[k]), dpow[K - k])
                if e % 2:
                    z = {m + (1 << sh): c for m, c in z.items()}
                out = self.padd(out, z)
            p = out
            if not p:
                break
        return p


def norm_c(c):
    return c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c


def mono_gcd(a, b):
    r = 0
    sh = 0
    while a and b:
        x = min(a & MASK, b & MASK)
        r |= x << sh
        a >>= SH
        b >>= SH
        sh += SH
    return r


def mono_divides(b, a):
    while b:
        if (b & MASK) > (a & MASK):
            return False
        a >>= SH
        b >>= SH
    return True


def solvable(q):
    """(atom index, polynomial) if q = 0 can be solved for an atom occurring linearly and nowhere else in q"""
    best = None
    for m, c in q.items():
        if m == 0:
            continue
        i = (m.bit_length() - 1) // SH
        if m != 1 << (SH * i):
            continue
        if any(k != m and (k >> (SH * i)) & MASK for k in q):
            continue
        if best is None or i > best:
            best = i
    if best is None:
        return None
    m = 1 << (SH * best)
    c = Fraction(q[m])
    return best, {k: norm_c(-Fraction(v) / c) for k, v in q.items() if k != m}


def subst_atom(ctx, p, i, r):
    sh = SH * i
    if not any((m >> sh) & MASK for m in p):
        return p
    by = {}
    for m, c in p.items():
        e = (m >> sh) & MASK
        by.setdefault(e, {})[m - (e << sh)] = c
    out = {}
    pw = {0: 1}
    for e in range(max(by) + 1):
        if e in by:
            out = ctx.padd(out, ctx.pmul(by[e], pw))
        pw = ctx.pmul(pw, r)
    return out


def rewrite_by(ctx, p, rels):
    """reduce p by polynomial relations (each a polynomial that equals zero)"""
    changed = True
    rounds = 0
    while changed and p:
        changed = False
        rounds += 1
        if rounds > 60:
            break
        for q in rels:
            lm = max(q, key=lambda m: (mdeg(m), m))
            cq = q[lm]
            hit = [m for m in p if mono_divides(lm, m)]
            if not hit:
                continue
            for m in hit:
                if m not in p:
                    continue
                c = Fraction(p[m]) / cq
                mm = m - lm
                for m2, c2 in q.items():
                    k = mm + m2
                    v = p.get(k, 0) - c * c2
                    if v == 0:
                        p.pop(k, None)
                    else:
                        p[k] = norm_c(v) if isinstance(v, Fraction) else v
            changed = True
            if len(p) > ctx.limit:
                raise TooBig()
    return p


def mdeg(m):
    d = 0
    while m:
        d += m & MASK
        m >>= SH
    return d


def prove_eq(a, b, facts=(), extra_rels=()):
    """True if a = b follows by field normalisation (facts: equalities assumed, list of (x,y))"""
    return prove_eq_in(Ctx(), a, b, facts)


def prove_eq_in(ctx, a, b, facts=()):
    try:
        n1, d1 = ctx.ratio(a)
        n2, d2 = ctx.ratio(b)
        if d1 == d2:
            p = ctx.padd(n1, n2, -1)
        else:
            p = ctx.padd(ctx.pmul(n1, d2), ctx.pmul(n2, d1), -1)
        if not p:
            return True
        p0 = p
        p = ctx.reduce(p)
        if not p:
            return True
        if facts:
            p1 = p0
            qs = []
            for x, y in facts:
                nx, dx = ctx.ratio(x)
                ny, dy = ctx.ratio(y)
                qs.append(ctx.padd(ctx.pmul(nx, dy), ctx.pmul(ny, dx), -1))
            left = []
            for k in range(len(qs)):
                e = solvable(qs[k])
                if e is None:
                    if qs[k]:
                        left.append(qs[k])
                    continue
                p1 = subst_atom(ctx, p1, *e)
                for j in range(k + 1, len(qs)):
                    qs[j] = subst_atom(ctx, qs[j], *e)
            if p1 is not p0:
                p1 = ctx.reduce(p1)
                if not p1:
                    return True
                if left:
                    p1 = rewrite_by(ctx, dict(p1), left)
                    if p1:
                        p1 = ctx.reduce(p1)
                    if not p1:
                        return True
        rels = []
        for x, y in facts:
            nx, dx = ctx.ratio(x)
            ny, dy = ctx.ratio(y)
            q = ctx.padd(ctx.pmul(nx, dy), ctx.pmul(ny, dx), -1)
            q = ctx.reduce(q)
            if q:
                rels.append(q)
        # sin^2 + cos^2 = 1 for matching arguments
        for key, lst in list(ctx.fnkeys.items()):
            if key[0] == 'sin':
                for args, i in lst:
                    for args2, j in ctx.fnkeys.get(('cos',) + key[1:], []):
                        if ctx.same(args[0], args2[0]):
                            rels.append({2 << (SH * i): 1, 2 << (SH * j): 1, 0: -1})
            if key[0] == 'sinh':
                for args, i in lst:
                    for args2, j in ctx.fnkeys.get(('cosh',) + key[1:], []):
                        if ctx.same(args[0], args2[0]):
                            rels.append({2 << (SH * j): 1, 2 << (SH * i): -1, 0: -1})
        if rels:
            p = rewrite_by(ctx, dict(p), rels)
            if p:
                p = ctx.reduce(p)
        return not p
    except TooBig:
        return None
