"""Discharging obligations: simplifier, field back end, z3, cvc5."""
import math
import os
import random
import subprocess
import tempfile
import time
from fractions import Fraction
import z3
import terms as tm
from terms import T, R, I, TRUE, FALSE
import smt
import field
import reason


# ---------------------------------------------------------------- definedness
_def = {}


def defined(t):
    """condition under which the real-valued reading of t involves no division by
    zero, no root of a negative number and no library call outside its domain"""
    if t.id in _def:
        return _def[t.id]
    for x in tm.subterms([t]):
        if x.id in _def:
            continue
        a = [y for y in x.args if isinstance(y, T)]
        if x.op == 'ite':
            d = tm.and_(_def[a[0].id], tm.ite(a[0], _def[a[1].id], _def[a[2].id]))
        elif x.op == 'and':
            d = TRUE
            pre = []
            for y in a:
                dy = _def[y.id]
                if dy is not TRUE:
                    d = tm.and_(d, tm.implies(tm.and_(*pre) if pre else TRUE, dy))
                pre.append(y)
        elif x.op == 'or':
            d = TRUE
            pre = []
            for y in a:
                dy = _def[y.id]
                if dy is not TRUE:
                    d = tm.and_(d, tm.implies(tm.and_(*pre) if pre else TRUE, dy))
                pre.append(tm.not_(y))
        else:
            d = tm.and_(*[_def[y.id] for y in a]) if a else TRUE
            if x.op == '/':
                d = tm.and_(d, tm.not_(tm.eq(a[1], R(0))))
            elif x.op == 'sqrt':
                d = tm.and_(d, tm.le(R(0), a[0]))
            elif x.op == 'uf':
                n = x.args[0]
                if n in ('log', 'log10', 'log2'):
                    d = tm.and_(d, tm.lt(R(0), a[0]))
                elif n in ('asin', 'acos'):
                    d = tm.and_(d, tm.le(R(-1), a[0]), tm.le(a[0], R(1)))
                elif n == 'pow':
                    d = tm.and_(d, tm.or_(tm.lt(R(0), a[0]), tm.and_(tm.eq(a[0], R(0)), tm.lt(R(0), a[1]))))
        _def[x.id] = d
    return _def[t.id]


# ---------------------------------------------------------------- numeric evaluation
class EvalError(Exception):
    pass


FN = {'exp': math.exp, 'log': math.log, 'log10': math.log10, 'log2': math.log2, 'sin': math.sin, 'cos': math.cos,
      'tan': math.tan, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'asin': math.asin, 'acos': math.acos,
      'atan': math.atan, 'atan2': math.atan2, 'pow': math.pow, 'exp2': lambda x: 2.0 ** x, 'exp10': lambda x: 10.0 ** x,
      'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3.), x), 'expm1': math.expm1, 'log1p': math.log1p}


def evaluate(ts, env, ufseed=0):
    """float evaluation of terms"""
    memo = {}
    for x in tm.subterms(ts):
        memo[x.id] = _ev(x, memo, env, ufseed)
    return [memo[t.id] for t in ts]


def _ev(x, m, env, ufseed):
    op = x.op
    a = x.args
    if op == 'c':
        return float(a[0]) if x.sort == 'R' else a[0]
    if op == 'v':
        if a[0] == 'pi':
            return math.pi
        return env[a[0]]
    if op == '+':
        return sum(m[y.id] for y in a)
    if op == '*':
        r = 1
        for y in a:
            r = r * m[y.id]
        return r
    try:
        if op == '/':
            return m[a[0].id] / m[a[1].id]
        if op == 'sqrt':
            return math.sqrt(m[a[0].id])
        if op == 'uf':
            if a[0] in FN:
                return FN[a[0]](*[m[y.id] for y in a[1:]])
            h = random.Random(repr((ufseed, a[0]) + tuple(m[y.id] for y in a[1:]))).random()
            return (h * 4 - 2) if x.sort == 'R' else int(h * 100)
        if op == 'idiv':
            return m[a[0].id] // m[a[1].id]
        if op == 'mod':
            return m[a[0].id] % m[a[1].id]
        if op == 'sdiv' or op == 'srem':
            p, q = m[a[0].id], m[a[1].id]
            d = abs(p) // abs(q)
            d = d if (p < 0) == (q < 0) else -d
            return d if op == 'sdiv' else p - d * q
        if op == 'floor':
            return math.floor(m[a[0].id])
    except (ZeroDivisionError, ValueError, OverflowError):
        return math.nan
    if op == 'not':
        return not m[a[0].id]
    if op == 'and':
        return all(m[y.id] for y in a)
    if op == 'or':
        return any(m[y.id] for y in a)
    if op == 'ite':
        return m[a[1].id] if m[a[0].id] else m[a[2].id]
    if op == '<':
        return m[a[0].id] < m[a[1].id]
    if op == '<=':
        return m[a[0].id] <= m[a[1].id]
    if op == '=':
        p, q = m[a[0].id], m[a[1].id]
        if isinstance(p, float) or isinstance(q, float):
            return abs(p - q) <= 1e-9 * (1 + abs(p) + abs(q))
        return p == q
    if op == 'to_real':
        return float(m[a[0].id])
    raise EvalError(op)


# ---------------------------------------------------------------- purification for z3
class Purifier:
    """replaces division, roots and library functions by fresh variables plus their
    defining axioms, giving quantifier-free polynomial arithmetic"""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.apps = {}
        self.orig = {}
        self.n = 0

    def rev(self):
        """purification variable -> original term"""
        return {self.memo[i].id: t for i, t in self.orig.items()}

    def fresh(self, sort, base):
        self.n += 1
        return tm.var('!%s%d' % (base, self.n), sort)

    def go(self, t):
        for x in tm.subterms([t]):
            if x.id in self.memo:
                continue
            args = [self.memo[y.id] if isinstance(y, T) else y for y in x.args]
            if x.op in ('/', 'sqrt', 'uf'):
                self.orig[x.id] = x
            if x.op == '/':
                q = self.fresh('R', 'q')
                n, d = args
                self.side.append(tm.or_(tm.eq(d, R(0)), tm.eq(tm.mul(q, d), n)))
                self.memo[x.id] = q
            elif x.op == 'sqrt':
                s = self.fresh('R', 's')
                self.side.append(tm.or_(tm.lt(args[0], R(0)), tm.and_(tm.le(R(0), s), tm.eq(tm.mul(s, s), args[0]))))
                # congruence
                for a2, s2 in self.apps.setdefault('sqrt', []):
                    self.side.append(tm.implies(tm.and_(tm.le(R(0), args[0]), tm.lt(args[0], a2[0])), tm.lt(s, s2)))
                    self.side.append(tm.implies(tm.and_(tm.le(R(0), a2[0]), tm.lt(a2[0], args[0])), tm.lt(s2, s)))
                    self.side.append(tm.implies(tm.eq(a2[0], args[0]), tm.eq(s2, s)))
                self.apps['sqrt'].append((args, s))
                self.memo[x.id] = s
            elif x.op == 'uf':
                name = args[0]
                xs = args[1:]
                v = self.fresh(x.sort, 'u')
                lst = self.apps.setdefault((name, tuple(y.sort for y in xs)), [])
                same = None
                for ys, w in lst:
                    c = tm.and_(*[tm.eq(p, q) for p, q in zip(xs, ys)])
                    if c is TRUE:
                        same = w
                        break
                    if c is not FALSE:
                        self.side.append(tm.implies(c, tm.eq(v, w)))
                    self.mono(name, xs, v, ys, w)
                if same is not None:
                    self.memo[x.id] = same
                    continue
                lst.append((xs, v))
                self.axioms(name, xs, v)
                self.memo[x.id] = v
            else:
                self.memo[x.id] = tm.rebuild(x, args) if x.args and any(isinstance(y, T) for y in x.args) else x
        return self.memo[t.id]

    def mono(self, name, xs, v, ys, w):
        if name in ('exp', 'log', 'log10', 'log2', 'sinh', 'tanh', 'atan', 'asin', 'exp2', 'exp10', 'cbrt'):
            a, b = xs[0], ys[0]
            self.side.append(tm.implies(tm.lt(a, b), tm.lt(v, w)))
            self.side.append(tm.implies(tm.lt(b, a), tm.lt(w, v)))

    def axioms(self, name, xs, v):
        ad = self.side.append
        if name in ('exp', 'exp2', 'exp10'):
            ad(tm.lt(R(0), v))
        elif name == 'pow':
            ad(tm.implies(tm.lt(R(0), xs[0]), tm.lt(R(0), v)))
            ad(tm.implies(tm.eq(xs[0], R(1)), tm.eq(v, R(1))))
            ad(tm.implies(tm.eq(xs[1], R(0)), tm.eq(v, R(1))))
            ad(tm.implies(tm.eq(xs[1], R(1)), tm.eq(v, xs[0])))
        elif name in ('sin', 'cos'):
            ad(tm.le(R(-1), v))
            ad(tm.le(v, R(1)))
            other = 'cos' if name == 'sin' else 'sin'
            for ys, w in self.apps.get((other, ('R',)), []):
                if ys[0] is xs[0]:
                    ad(tm.eq(tm.add(tm.mul(v, v), tm.mul(w, w)), R(1)))
        elif name == 'tanh':
            ad(tm.lt(R(-1), v))
            ad(tm.lt(v, R(1)))
            ad(tm.implies(tm.lt(R(0), xs[0]), tm.lt(R(0), v)))
            ad(tm.implies(tm.lt(xs[0], R(0)), tm.lt(v, R(0))))
        elif name == 'cosh':
            ad(tm.le(R(1), v))
        elif name == 'acos':
            ad(tm.le(R(0), v))
            ad(tm.le(v, tm.var('pi', 'R')))
        elif name in ('log', 'log10', 'log2'):
            ad(tm.implies(tm.lt(R(1), xs[0]), tm.lt(R(0), v)))
            ad(tm.implies(tm.lt(xs[0], R(1)), tm.lt(v, R(0))))
            ad(tm.implies(tm.eq(xs[0], R(1)), tm.eq(v, R(0))))
        elif name == 'atan2':
            pi = tm.var('pi', 'R')
            ad(tm.le(tm.neg(pi), v))
            ad(tm.le(v, pi))


def pure_real(ts):
    for x in tm.subterms(ts):
        if x.sort == 'I':
            return False
    return True


class Result:
    __slots__ = ('status', 'backend', 'time', 'model', 'note')

    def __init__(self, status, backend, time_, model=None, note=''):
        self.status = status      # proved / refuted / unknown
        self.backend = backend
        self.time = time_
        self.model = model
        self.note = note


def facts_of(pc):
    out = []
    for c in pc:
        if c.op == '=' and c.args[0].sort == 'R':
            out.append((c.args[0], c.args[1]))
    return out


def has_ite(ts):
    for x in tm.subterms(ts):
        if x.op == 'ite' and x.sort == 'R':
            return x
    return None


def innermost_ite(ts):
    for x in tm.subterms(ts):       # children first
        if x.op == 'ite' and has_cond_atom(x.args[0]):
            return x
    return None


def has_cond_atom(c):
    return True


def first_atom(c):
    """an atomic condition inside c that contains no ite itself"""
    for x in tm.subterms([c]):
        if x.sort == 'B' and x.op in ('<', '<=', '=', 'v'):
            if x.op == '=' and x.args[0].sort == 'B':
                continue
            return x
    return None


def subst_bool(t, atom, val):
    """assume boolean atom == val inside t"""
    m = {atom: tm.B(val)}
    n = tm.not_(atom)
    if n.op != 'not':
        m[n] = tm.B(not val)
    return tm.subst(t, m)


def quick_unsat(cs, bounds=None):
    """fast refutation: intervals, linear arithmetic over monomials, then a short z3 run"""
    bd = reason.Bounds(cs)
    for c in cs:
        if bd.holds(tm.not_(c)) or bd.empty:
            return True
    p = Purifier()
    pcs = [p.go(c) for c in cs]
    if not pure_real(pcs + p.side):
        return z3_unsat(cs, 1500)
    if reason.abstract_unsat(cs) or reason.linear_unsat(pcs + p.side, bd, p.rev()):
        return True
    return z3_unsat(cs, 1200)


def opaque_unsat(pc, goal, k, ms):
    """refutation of pc and not goal with only the k outermost layers of quotients and roots of the goal
    defined; deeper ones are unknowns restricted to their interval"""
    neg = tm.not_(goal)
    depth = {}
    work = [(neg, 0)]
    while work:
        t, d = work.pop()
        o = depth.get(t.id)
        if o is not None and o <= d:
            continue
        depth[t.id] = d
        for y in t.args:
            if isinstance(y, T):
                work.append((y, d + 1 if t.op in ('/', 'sqrt') else d))
    bd = reason.Bounds(pc + [neg])
    p = Purifier()
    hidden = {}

    def hide(ts):
        for x in tm.subterms(ts):
            if x.op in ('/', 'sqrt', 'uf') and x.sort == 'R' and depth.get(x.id, 99) >= k and x.id not in p.memo:
                v = p.fresh('R', 'o')
                p.memo[x.id] = v
                hidden[v.id] = True
                lo, ls, hi, hs = bd.iv(x)
                if lo is not None:
                    p.side.append(tm.lt(R(lo), v) if ls else tm.le(R(lo), v))
                if hi is not None:
                    p.side.append(tm.lt(v, R(hi)) if hs else tm.le(v, R(hi)))
    hide(pc + [neg])
    if not hidden:
        return False
    g = p.go(neg)
    cs = [p.go(c) for c in pc]
    # keep the constraints connected to the goal
    allc = [(c, {x.id for x in tm.subterms([c]) if x.op == 'v' and x.sort == 'R'}) for c in cs + p.side]
    reach = {x.id for x in tm.subterms([g]) if x.op == 'v' and x.sort == 'R'}
    for rounds in (1, 3):
        r = opaque_try(allc, g, set(reach), rounds, ms)
        if r is not None:
            return r
    return False


def opaque_try(allc, g, reach, rounds, ms):
    for _ in range(rounds):
        nxt = set(reach)
        for c, vs in allc:
            if vs & reach and len(vs) <= 6:
                nxt |= vs
        if nxt == reach:
            break
        reach = nxt
    keep = [c for c, vs in allc if vs <= reach]
    if not pure_real(keep + [g]):
        return None
    for tac in ('nlsat', 'z3'):
        s = z3.Tactic('qfnra').solver() if tac == 'nlsat' else z3.Solver()
        s.set('timeout', ms)
        for c in keep + [g]:
            s.add(smt.to_z3(c))
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return None
    return None


def field_split(a, b, pc, deadline):
    """equality of piecewise rational functions; True or None"""
    sp = reason.Split(pc, deadline, quick_unsat)
    try:
        return True if sp.prove(a, b) else None
    except (reason.GiveUp, field.TooBig):
        return None


def z3_unsat(pc, ms):
    p = Purifier()
    cs = [p.go(c) for c in pc]
    s = z3.Solver()
    s.set('timeout', ms)
    for c in cs + p.side:
        s.add(smt.to_z3(c))
    return s.check() == z3.unsat


def z3_small(pc, goal, ms):
    p = Purifier()
    cs = [p.go(c) for c in pc]
    g = p.go(goal)
    s = z3.Solver()
    s.set('timeout', ms)
    for c in cs + p.side:
        s.add(smt.to_z3(c))
    s.add(z3.Not(smt.to_z3(g)))
    r = s.check()
    return True if r == z3.unsat else (False if r == z3.sat else None)


def model_env(m, consts):
    env = {}
    for d in m.decls():
        if d.arity() != 0:
            continue
        v = m[d]
        n = d.name()
        try:
            if z3.is_int_value(v):
                env[n] = v.as_long()
            elif z3.is_rational_value(v):
                env[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            elif z3.is_algebraic_value(v):
                a = v.approx(20)
                env[n] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            elif z3.is_true(v) or z3.is_false(v):
                env[n] = bool(z3.is_true(v))
        except Exception:
            pass
    return env


PI_BOUNDS = [tm.lt(R(Fraction(314159265, 100000000)), tm.var('pi', 'R')),
             tm.lt(tm.var('pi', 'R'), R(Fraction(314159266, 100000000)))]


def uses_pi(ts):
    return any(x.op == 'v' and x.args[0] == 'pi' for x in tm.subterms(ts))


def discharge(pc, goal, eq, cfg):
    """-> Result"""
    t0 = time.time()
    if goal is TRUE:
        return Result('proved', 'simplifier', 0.0)
    if goal in set(pc):
        return Result('proved', 'simplifier', 0.0)
    binds = bound_names(pc, goal)
    if binds:
        g2 = tm.subst(goal, binds)
        if g2 is TRUE or g2 in set(pc):
            return Result('proved', 'simplifier', time.time() - t0)
        if g2.op == '=' and g2.args[0].sort == 'R' and general_eq(*g2.args):
            return Result('proved', 'field', time.time() - t0)
    # conjunctions: prove each part
    if goal.op == 'and':
        worst = None
        backs = set()
        for g in goal.args:
            r = discharge(pc, g, (g.args if g.op == '=' and g.args[0].sort == 'R' else None), cfg)
            backs.add(r.backend)
            if r.status != 'proved':
                return Result(r.status, r.backend, time.time() - t0, r.model, r.note)
        return Result('proved', '+'.join(sorted(backs)), time.time() - t0)
    if eq is None and goal.op == '=' and goal.args[0].sort == 'R':
        eq = goal.args
    if eq is not None and general_eq(*eq):
        return Result('proved', 'field', time.time() - t0)
    pc = list(pc)
    if uses_pi(pc + [goal]):
        pc = pc + PI_BOUNDS
    bd = reason.Bounds(pc)
    if bd.holds(goal) or bd.empty:
        return Result('proved', 'interval', time.time() - t0)
    if pure_real(pc + [goal]):
        pf = Purifier()
        cs0 = [pf.go(c) for c in pc] + [pf.go(tm.not_(goal))]
        if reason.linear_unsat(cs0 + pf.side, reason.Bounds(pc + [tm.not_(goal)]), pf.rev()):
            return Result('proved', 'linear', time.time() - t0)
    big = len(list(tm.subterms(pc + [goal]))) > 150
    if big and opaque_unsat(pc, goal, 0, 400):
        return Result('proved', 'z3-abstract', time.time() - t0)
    if big and eq is not None:
        try:
            if field_split(eq[0], eq[1], pc, t0 + 4):
                return Result('proved', 'field', time.time() - t0)
        except RecursionError:
            pass
    if reason.abstract_unsat(pc + [tm.not_(goal)]):
        return Result('proved', 'linear', time.time() - t0)
    if eq is not None:
        v = None
        try:
            v = field_split(eq[0], eq[1], pc, t0 + cfg.get('field_s', 25))
        except RecursionError:
            v = None
        if v is True:
            return Result('proved', 'field', time.time() - t0)
    for k in (0, 1, 2):
        if opaque_unsat(pc, goal, k, 1000):
            return Result('proved', 'z3-abstract', time.time() - t0)
    # z3
    ms = int(cfg.get('z3_s', 20) * 1000)
    p = Purifier()
    cs = [p.go(c) for c in pc]
    g = p.go(goal)
    allc = cs + p.side
    neg = tm.not_(g)
    real_only = pure_real(allc + [neg])
    tries = []
    if real_only:
        tries.append(('z3', ms // 4))
        tries.append(('nlsat', ms))
        tries.append(('cvc5', ms))
        tries.append(('z3', ms))
    else:
        tries.append(('z3', ms // 2))
        tries.append(('cvc5', ms))
        tries.append(('z3', ms))
    model = None
    for be, t in tries:
        if be == 'cvc5':
            r = run_cvc5(allc + [neg], t)
            if r == 'unsat':
                return Result('proved', 'cvc5', time.time() - t0)
            continue
        if be == 'z3':
            s = z3.Solver()
        else:
            s = z3.Then(z3.With('simplify', som=False), 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify',
                        'tseitin-cnf', 'nlsat').solver() if False else z3.Tactic('qfnra').solver()
        s.set('timeout', t)
        for c in allc:
            s.add(smt.to_z3(c))
        s.add(smt.to_z3(neg))
        try:
            r = s.check()
        except z3.Z3Exception as e:
            continue
        if r == z3.unsat:
            return Result('proved', be if be == 'z3' else 'z3-nlsat', time.time() - t0)
        if r == z3.sat:
            try:
                model = model_env(s.model(), None)
            except Exception:
                model = {}
            return Result('refuted', be if be == 'z3' else 'z3-nlsat', time.time() - t0, model)
    return Result('unknown', 'portfolio', time.time() - t0, note='no solver decided the obligation in time')


def bound_names(pc, goal):
    vs = {x for x in tm.subterms([goal]) if x.op == 'v' and '@' in str(x.args[0])}
    m = {}
    if vs:
        for c in pc:
            if c.op == '=' and c.args[0].sort == 'R':
                for x, y in (c.args, c.args[::-1]):
                    if x in vs and x not in m and not any(z.op == 'v' and '@' in str(z.args[0]) for z in tm.subterms([y])):
                        m[x] = y
    return m


def general_eq(a, b):
    """equality by field algebra with roots, conditionals and denominators of a and b
    generalised to unknowns (the same term, the same unknown)"""
    m = {}
    seen = set()
    dens = []
    work = [a, b]
    while work:
        t = work.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op in ('+', '*'):
            work.extend(t.args)
        elif t.op == '/':
            work.append(t.args[0])
            if t.args[1].op not in ('c', 'v'):
                dens.append(t.args[1])
        elif t.op in ('ite', 'sqrt', 'uf'):
            m[t] = tm.var('g%d' % t.id, 'R')
    for t in dens:
        m[t] = tm.var('g%d' % t.id, 'R')
    if not m:
        return False

    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            r = m.get(t)
            if r is None:
                if t.op == '+':
                    r = tm.add(*[go(x) for x in t.args])
                elif t.op == '*':
                    r = tm.mul(*[go(x) for x in t.args])
                elif t.op == '/':
                    r = tm.rdiv(go(t.args[0]), go(t.args[1]))
                else:
                    r = t
            memo[t.id] = r
        return r
    ctx = field.Ctx(limit=3000)
    ctx.maxn = 20000
    return field.prove_eq_in(ctx, go(a), go(b)) is True


def run_cvc5(cs, ms):
    s = z3.Solver()
    for c in cs:
        s.add(smt.to_z3(c))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    txt = txt.replace('; benchmark generated from python API\n', '').replace('(set-info :status unknown)\n', '')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        out = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--nl-cov' if False else '--lang=smt2', fn],
                             capture_output=True, text=True, timeout=ms / 1000 + 5).stdout
        return out.split('\n')[0].strip()
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(fn)


# ---------------------------------------------------------------- confirmation of native failures
def _mix(h, x):
    M = (1 << 64) - 1
    h ^= (x + 0x9e3779b97f4a7c15 + ((h << 6) & M) + (h >> 2)) & M
    h ^= h >> 33
    h = (h * 0xff51afd7ed558ccd) & M
    h ^= h >> 33
    h = (h * 0xc4ceb9fe1a85ec53) & M
    h ^= h >> 33
    return h


def native_uf(kind, name, args, seed):
    """the interpretation native.cpp gives to vc_uf / vc_ufi / vc_ufr"""
    import struct
    h = seed
    for ch in name.encode():
        h = _mix(h, ch)
    for a in args:
        if kind == 'ur':
            d = float(a)
            h = _mix(h, struct.unpack('<Q', struct.pack('<d', d if d != 0 else 0.0))[0])
        else:
            h = _mix(h, int(a) & ((1 << 64) - 1))
    if kind == 'ui':
        return h % 1000
    return Fraction(h % 8001, 1000) - 4


def false_at(obligations, vals, ufseed, digits=60):
    """names of obligations whose path condition holds and whose goal is false at the given input,
    evaluated in multi-precision arithmetic; None if nothing could be evaluated"""
    import mpmath
    mpmath.mp.dps = digits
    mpf = mpmath.mpf
    env = dict(vals)
    memo = {}
    FNS = {n: getattr(mpmath, n) for n in ('exp', 'log', 'log10', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos',
                                           'atan', 'atan2', 'cbrt', 'expm1', 'log1p')}
    FNS['pow'] = mpmath.power
    FNS['log2'] = lambda x: mpmath.log(x, 2)
    FNS['exp2'] = lambda x: mpmath.power(2, x)
    FNS['exp10'] = lambda x: mpmath.power(10, x)

    class Bad(Exception):
        pass

    def ev(x):
        op, a = x.op, x.args
        g = lambda i: val(a[i])
        if op == 'c':
            return mpf(a[0].numerator) / a[0].denominator if x.sort == 'R' else a[0]
        if op == 'v':
            if a[0] == 'pi':
                return mpmath.pi + 0
            if a[0] not in env:
                raise Bad(a[0])
            v = env[a[0]]
            return mpf(v) if x.sort == 'R' else (int(v) if x.sort == 'I' else bool(v))
        if op == 'ite':
            return g(1) if g(0) else g(2)
        if op == 'and':
            return all(val(y) for y in a)
        if op == 'or':
            return any(val(y) for y in a)
        if op == 'not':
            return not g(0)
        if op == '+':
            r = val(a[0])
            for y in a[1:]:
                r = r + val(y)
            return r
        if op == '*':
            r = val(a[0])
            for y in a[1:]:
                r = r * val(y)
            return r
        if op == '/':
            d = g(1)
            return mpmath.nan if d == 0 else g(0) / d
        if op == 'sqrt':
            z = g(0)
            return mpmath.nan if z < 0 else mpmath.sqrt(z)
        if op == 'uf':
            xs = [val(y) for y in a[1:]]
            n = a[0]
            for k in ('u_', 'ui_', 'ur_'):
                if n.startswith(k):
                    r = native_uf(k[:-1], n[len(k):], xs, ufseed)
                    return mpf(r.numerator) / r.denominator if x.sort == 'R' else int(r)
            if n in FNS:
                r = FNS[n](*xs)
                return mpmath.nan if isinstance(r, mpmath.mpc) else r
            raise Bad(n)
        if op in ('idiv', 'mod', 'sdiv', 'srem'):
            p, q = g(0), g(1)
            if q == 0:
                raise Bad(op)
            if op == 'idiv':
                return p // q
            if op == 'mod':
                return p % q
            d = abs(p) // abs(q)
            d = d if (p < 0) == (q < 0) else -d
            return d if op == 'sdiv' else p - d * q
        if op == 'floor':
            return int(mpmath.floor(g(0)))
        if op == 'to_real':
            return mpf(g(0))
        if op == '<':
            return g(0) < g(1)
        if op == '<=':
            return g(0) <= g(1)
        if op == '=':
            p, q = g(0), g(1)
            if x.args[0].sort == 'R':
                return abs(p - q) <= mpf(10) ** -9 * (1 + abs(p) + abs(q))
            return p == q
        raise Bad(op)

    def val(t):
        r = memo.get(t.id)
        if r is None:
            for x in tm.subterms([t]):
                if x.id not in memo and x.op != 'ite':
                    try:
                        memo[x.id] = ev(x)
                    except Bad as e:
                        memo[x.id] = e
                elif x.op == 'ite' and x.id not in memo:
                    try:
                        c = memo[x.args[0].id]
                        memo[x.id] = c if isinstance(c, Exception) else memo[x.args[1 if c else 2].id]
                    except Bad as e:
                        memo[x.id] = e
            r = memo[t.id]
        if isinstance(r, Exception):
            raise r
        return r

    evaluated = 0
    bad = []
    for o in obligations:
        try:
            if not all(val(c) for c in o.pc):
                evaluated += 1
                continue
            if o.eq is not None:
                p, q = val(o.eq[0]), val(o.eq[1])
                ok = abs(p - q) <= mpf(10) ** -10 * (abs(p) + abs(q)) + mpf(10) ** -11
            else:
                ok = val(o.goal)
                if not ok and o.goal.op in ('<', '<=') and o.goal.args[0].sort == 'R':
                    p, q = val(o.goal.args[0]), val(o.goal.args[1])
                    ok = p - q <= mpf(10) ** -9 * (abs(p) + abs(q) + 1)
            evaluated += 1
            if not ok:
                bad.append(o.name)
        except Bad:
            pass
    if not bad and evaluated < len(obligations):
        return None
    return bad
