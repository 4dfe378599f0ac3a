"""Translation of terms to z3 and quick feasibility checks."""
import z3
import terms as tm
from terms import T, TRUE, FALSE

_cache = {}
_uf = {}


def zsort(s):
    return {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}[s]


def to_z3(t):
    """memoised translation; sqrt / uf become uninterpreted functions"""
    r = _cache.get(t.id)
    if r is not None:
        return r
    for x in tm.subterms([t]):
        if x.id in _cache:
            continue
        _cache[x.id] = _conv(x)
    return _cache[t.id]


def _conv(x):
    op = x.op
    a = x.args
    g = lambda y: _cache[y.id]
    if op == 'c':
        if x.sort == 'R':
            return z3.RealVal(a[0])
        if x.sort == 'I':
            return z3.IntVal(a[0])
        return z3.BoolVal(a[0])
    if op == 'v':
        return z3.Const(a[0], zsort(x.sort))
    if op == '+':
        return z3.Sum([g(y) for y in a])
    if op == '*':
        return z3.Product([g(y) for y in a])
    if op == '/':
        return g(a[0]) / g(a[1])
    if op == 'idiv':
        return g(a[0]) / g(a[1])
    if op == 'mod':
        return g(a[0]) % g(a[1])
    if op == 'sdiv':
        p, q = g(a[0]), g(a[1])
        ap, aq = z3.If(p < 0, -p, p), z3.If(q < 0, -q, q)
        d = ap / aq
        return z3.If((p < 0) == (q < 0), d, -d)
    if op == 'srem':
        p, q = g(a[0]), g(a[1])
        ap, aq = z3.If(p < 0, -p, p), z3.If(q < 0, -q, q)
        d = ap % aq
        return z3.If(p < 0, -d, d)
    if op == 'not':
        return z3.Not(g(a[0]))
    if op == 'and':
        return z3.And(*[g(y) for y in a])
    if op == 'or':
        return z3.Or(*[g(y) for y in a])
    if op == 'ite':
        return z3.If(g(a[0]), g(a[1]), g(a[2]))
    if op == '<':
        return g(a[0]) < g(a[1])
    if op == '<=':
        return g(a[0]) <= g(a[1])
    if op == '=':
        return g(a[0]) == g(a[1])
    if op == 'to_real':
        return z3.ToReal(g(a[0]))
    if op == 'floor':
        return z3.ToInt(g(a[0]))
    if op == 'sqrt':
        f = _uf.setdefault('sqrt', z3.Function('sqrt', z3.RealSort(), z3.RealSort()))
        return f(g(a[0]))
    if op == 'uf':
        name = a[0]
        xs = a[1:]
        key = (name, tuple(y.sort for y in xs), x.sort)
        f = _uf.get(key)
        if f is None:
            f = z3.Function('%s_%s' % (name, ''.join(key[1])), *([zsort(y.sort) for y in xs] + [zsort(x.sort)]))
            _uf[key] = f
        return f(*[g(y) for y in xs])
    raise ValueError('smt: ' + op)


class Feasibility:
    def __init__(self, timeout_ms=250):
        self.timeout = timeout_ms
        self.memo = {}
        self.calls = 0
        self.time = 0.0

    def feasible(self, pc, c):
        """False only if pc /\\ c is proved unsatisfiable"""
        if c is FALSE:
            return False
        # relevance: only constraints sharing variables transitively with c
        rel = relevant(pc, c)
        key = (frozenset(x.id for x in rel), c.id)
        r = self.memo.get(key)
        if r is not None:
            return r
        import time
        t0 = time.time()
        self.calls += 1
        s = z3.Solver()
        s.set('timeout', self.timeout)
        for x in rel:
            s.add(to_z3(x))
        if c is not TRUE:
            s.add(to_z3(c))
        r = s.check() != z3.unsat
        self.time += time.time() - t0
        self.memo[key] = r
        return r


_vars = {}


def term_vars(t):
    """free variables and uninterpreted applications (as opaque names)"""
    r = _vars.get(t.id)
    if r is None:
        acc = set()
        for x in tm.subterms([t]):
            if x.op == 'v':
                acc.add(x.id)
            elif x.op == 'uf' and len(x.args) == 1:
                acc.add(x.id)
        r = frozenset(acc)
        _vars[t.id] = r
    return r


def relevant(pc, c):
    if c is TRUE:
        return list(pc)
    vs = set(term_vars(c))
    rest = list(pc)
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for x in rest:
            xv = term_vars(x)
            if xv & vs or not xv:
                out.append(x)
                vs |= xv
                changed = True
            else:
                nxt.append(x)
        rest = nxt
    return out
