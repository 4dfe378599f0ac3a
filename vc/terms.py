"""Hash-consed term language used by the VC generator.

Sorts: 'R' (mathematical real), 'I' (mathematical integer), 'B' (boolean).
A term is an immutable node; structurally equal terms are the same object.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)

_table = {}
_count = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'iv')

    def __repr__(self):
        return show(self)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _count[0] += 1
        t.id = _count[0]
        t.iv = None
        _table[key] = t
    return t


def show(t, depth=6):
    if t.op == 'c':
        return str(t.args[0])
    if t.op == 'v':
        return t.args[0]
    if depth == 0:
        return '...'
    return '(' + ' '.join([t.op] + [show(a, depth - 1) if isinstance(a, T) else str(a) for a in t.args]) + ')'


def R(x):
    return mk('c', (Fraction(x),), 'R')


def I(x):
    return mk('c', (int(x),), 'I')


TRUE = mk('c', (True,), 'B')
FALSE = mk('c', (False,), 'B')


def B(x):
    return TRUE if x else FALSE


def isc(t):
    return t.op == 'c'


def cv(t):
    return t.args[0]


# name -> (lo, hi) declared bounds of integer inputs (used for interval reasoning)
var_bounds = {}


def var(name, sort, lo=None, hi=None):
    t = mk('v', (name,), sort)
    if sort == 'I' and (lo is not None or hi is not None):
        var_bounds[name] = (lo, hi)
        t.iv = (lo, hi)
    return t


def uf(name, args, sort):
    return mk('uf', (name,) + tuple(args), sort)


# ---------------------------------------------------------------- intervals
def _addb(a, b):
    return None if a is None or b is None else a + b


def ival(t):
    """Interval (lo, hi) of an integer term, None = unbounded."""
    if t.iv is not None:
        return t.iv
    op = t.op
    lo = hi = None
    if op == 'c':
        lo = hi = t.args[0]
    elif op == 'v':
        lo, hi = var_bounds.get(t.args[0], (None, None))
    elif op == '+':
        lo = hi = 0
        for a in t.args:
            l, h = ival(a)
            lo = _addb(lo, l)
            hi = _addb(hi, h)
    elif op == '*':
        lo, hi = ival(t.args[0])
        for a in t.args[1:]:
            l, h = ival(a)
            if None in (lo, hi, l, h):
                if lo is not None and lo >= 0 and l is not None and l >= 0:
                    lo = lo * l
                    hi = None
                elif isc(t.args[0]) and len(t.args) == 2:
                    c = cv(t.args[0])
                    if c >= 0:
                        lo, hi = (None if l is None else c * l), (None if h is None else c * h)
                    else:
                        lo, hi = (None if h is None else c * h), (None if l is None else c * l)
                else:
                    lo = hi = None
            else:
                xs = [lo * l, lo * h, hi * l, hi * h]
                lo, hi = min(xs), max(xs)
    elif op == 'ite':
        l1, h1 = ival(t.args[1])
        l2, h2 = ival(t.args[2])
        lo = None if l1 is None or l2 is None else min(l1, l2)
        hi = None if h1 is None or h2 is None else max(h1, h2)
    elif op == 'mod':
        l, h = ival(t.args[1])
        la, ha = ival(t.args[0])
        if l is not None and l > 0:
            lo = 0
            hi = None if h is None else h - 1
            if la is not None and la >= 0 and ha is not None:
                hi = ha if hi is None else min(hi, ha)
    elif op == 'idiv':
        l, h = ival(t.args[0])
        dl, dh = ival(t.args[1])
        if dl is not None and dl > 0:
            if l is not None:
                lo = l // dl if l < 0 else (0 if dh is None else l // dh)
            if h is not None:
                hi = h // dl if h >= 0 else -1
    t.iv = (lo, hi)
    return t.iv


# ---------------------------------------------------------------- constructors
def add(*xs):
    sort = xs[0].sort
    c = 0
    coef = {}
    order = []
    work = list(xs)
    flat = []
    for x in work:
        if x.op == '+':
            flat.extend(x.args)
        else:
            flat.append(x)
    for x in flat:
        if x.op == 'c':
            c += x.args[0]
            continue
        k = 1
        y = x
        if x.op == '*' and x.args[0].op == 'c':
            k = x.args[0].args[0]
            rest = x.args[1:]
            y = rest[0] if len(rest) == 1 else mk('*', rest, sort)
        if y in coef:
            coef[y] += k
        else:
            coef[y] = k
            order.append(y)
    out = []
    for y in order:
        k = coef[y]
        if k == 0:
            continue
        out.append(y if k == 1 else mul(const(k, sort), y))
    if c != 0:
        out.append(const(c, sort))
    if not out:
        return const(0, sort)
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('+', tuple(out), sort)


def const(k, sort):
    return R(k) if sort == 'R' else I(k)


def mul(*xs):
    sort = xs[0].sort
    c = 1
    flat = []
    for x in xs:
        if x.op == '*':
            flat.extend(x.args)
        else:
            flat.append(x)
    out = []
    for x in flat:
        if x.op == 'c':
            c *= x.args[0]
        else:
            out.append(x)
    if c == 0:
        return const(0, sort)
    if not out:
        return const(c, sort)
    if len(out) == 1 and c != 1 and out[0].op == '+' and all(
            a.op == 'c' or True for a in out[0].args) and sort == 'I':
        # distribute integer constants over sums (keeps linear terms linear and canonical)
        return add(*[mul(const(c, sort), a) for a in out[0].args])
    out.sort(key=lambda t: t.id)
    if c != 1:
        out.insert(0, const(c, sort))
    if len(out) == 1:
        return out[0]
    return mk('*', tuple(out), sort)


def neg(x):
    return mul(const(-1, x.sort), x)


def sub(a, b):
    if a is b:
        return const(0, a.sort)
    return add(a, neg(b))


def rdiv(a, b):
    if isc(b) and cv(b) != 0:
        return mul(R(Fraction(1) / cv(b)), a)
    if isc(a) and cv(a) == 0 and isc(b):
        return a
    return mk('/', (a, b), 'R')


def exact_quotient(a, b):
    """the integer q with a = q * b where b is syntactically a factor of a (b not zero)"""
    if a is b:
        return I(1)
    if a.op == '*' and not isc(b) and b in a.args:
        xs = list(a.args)
        xs.remove(b)
        return mul(*xs) if len(xs) > 1 else xs[0]
    return None


def idiv(a, b):
    """floor division; meaningful for b > 0"""
    if isc(b) and cv(b) == 1:
        return a
    if isc(a) and isc(b) and cv(b) != 0:
        return I(cv(a) // cv(b))
    la, ha = ival(a)
    lb, hb = ival(b)
    if la is not None and la >= 0 and ha is not None and lb is not None and ha < lb:
        return I(0)
    if lb is not None and lb > 0:
        q = exact_quotient(a, b)
        if q is not None:
            return q
    if isc(b) and cv(b) > 0 and a.op == '+':
        ins, outs = [], []
        for x in a.args:
            if isc(x) and cv(x) % cv(b) == 0:
                outs.append(I(cv(x) // cv(b)))
            elif x.op == '*' and isc(x.args[0]) and cv(x.args[0]) % cv(b) == 0:
                outs.append(mul(I(cv(x.args[0]) // cv(b)), *x.args[1:]))
            else:
                ins.append(x)
        if outs:
            rest = idiv(add(*ins), b) if ins else I(0)
            return add(rest, *outs)
    if isc(b) and cv(b) > 0 and a.op == '*' and isc(a.args[0]) and cv(a.args[0]) % cv(b) == 0:
        return mul(I(cv(a.args[0]) // cv(b)), *a.args[1:])
    return mk('idiv', (a, b), 'I')


def imod(a, b):
    if isc(a) and isc(b) and cv(b) != 0:
        return I(cv(a) % cv(b))
    if isc(b) and cv(b) == 1:
        return I(0)
    la, ha = ival(a)
    lb, hb = ival(b)
    if la is not None and la >= 0 and ha is not None and lb is not None and ha < lb:
        return a
    if isc(b) and cv(b) > 0:
        if a.op == '+':
            ins = [x for x in a.args if not (
                (isc(x) and cv(x) % cv(b) == 0) or
                (x.op == '*' and isc(x.args[0]) and cv(x.args[0]) % cv(b) == 0))]
            if len(ins) < len(a.args):
                return imod(add(*ins), b) if ins else I(0)
        if a.op == '*' and isc(a.args[0]) and cv(a.args[0]) % cv(b) == 0:
            return I(0)
    return mk('mod', (a, b), 'I')


def not_(a):
    if isc(a):
        return B(not cv(a))
    if a.op == 'not':
        return a.args[0]
    if a.op == '<':
        return mk('<=', (a.args[1], a.args[0]), 'B')
    if a.op == '<=':
        return mk('<', (a.args[1], a.args[0]), 'B')
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == 'and' else (x,)):
            if y is TRUE or y in seen:
                continue
            if y is FALSE:
                return FALSE
            seen.add(y)
            out.append(y)
    for y in out:
        if not_(y) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == 'or' else (x,)):
            if y is FALSE or y in seen:
                continue
            if y is TRUE:
                return TRUE
            seen.add(y)
            out.append(y)
    for y in out:
        if not_(y) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), 'B')


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), a.sort)


def _small_ite(t):
    """ite tree whose leaves are all constants"""
    n = 0
    stack = [t]
    while stack:
        x = stack.pop()
        n += 1
        if n > 80:
            return False
        if x.op == 'ite':
            stack.append(x.args[1])
            stack.append(x.args[2])
        elif x.op != 'c':
            return False
    return True


def _root(a):
    """square of the root of a nonnegative constant (None: not of that form)"""
    if a.op == 'sqrt' and isc(a.args[0]) and cv(a.args[0]) >= 0:
        return cv(a.args[0])
    if isc(a) and a.sort == 'R' and cv(a) >= 0:
        return cv(a) * cv(a)
    return None


def _roots(a, b):
    """signs and squares, if both are constants or roots of constants"""
    if a.op != 'sqrt' and b.op != 'sqrt':
        return None
    if isc(a) and cv(a) < 0 and _root(b) is not None:
        return -1, 0
    if isc(b) and cv(b) < 0 and _root(a) is not None:
        return 0, -1
    x, y = _root(a), _root(b)
    return None if x is None or y is None else (x, y)


def lt(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return B(cv(a) < cv(b))
    if a.sort == 'R':
        r = _roots(a, b)
        if r is not None:
            return B(r[0] < r[1])
    if a.sort == 'I':
        la, ha = ival(a)
        lb, hb = ival(b)
        if ha is not None and lb is not None and ha < lb:
            return TRUE
        if la is not None and hb is not None and la >= hb:
            return FALSE
    if a.op == 'ite' and isc(b) and _small_ite(a):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == 'ite' and isc(a) and _small_ite(b):
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    if a.sort == 'I' and isc(b):      # canonical  a < c  ==  a <= c-1
        return mk('<=', (a, I(cv(b) - 1)), 'B')
    if a.sort == 'I' and isc(a):
        return mk('<=', (I(cv(a) + 1), b), 'B')
    return mk('<', (a, b), 'B')


def le(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return B(cv(a) <= cv(b))
    if a.sort == 'R':
        r = _roots(a, b)
        if r is not None:
            return B(r[0] <= r[1])
    if a.sort == 'I':
        la, ha = ival(a)
        lb, hb = ival(b)
        if ha is not None and lb is not None and ha <= lb:
            return TRUE
        if la is not None and hb is not None and la > hb:
            return FALSE
    if a.op == 'ite' and isc(b) and _small_ite(a):
        return ite(a.args[0], le(a.args[1], b), le(a.args[2], b))
    if b.op == 'ite' and isc(a) and _small_ite(b):
        return ite(b.args[0], le(a, b.args[1]), le(a, b.args[2]))
    return mk('<=', (a, b), 'B')


def eq(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return B(cv(a) == cv(b))
    if a.sort == 'B':
        if isc(a):
            return b if cv(a) else not_(b)
        if isc(b):
            return a if cv(b) else not_(a)
    if a.sort == 'I':
        la, ha = ival(a)
        lb, hb = ival(b)
        if ha is not None and lb is not None and ha < lb:
            return FALSE
        if la is not None and hb is not None and la > hb:
            return FALSE
    if a.op == 'ite' and isc(b) and _small_ite(a):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and isc(a) and _small_ite(b):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.id > b.id:
        a, b = b, a
    return mk('=', (a, b), 'B')


def to_real(a):
    if isc(a):
        return R(cv(a))
    if a.op == 'ite' and _small_ite(a):
        return ite(a.args[0], to_real(a.args[1]), to_real(a.args[2]))
    if a.op == '+':
        return add(*[to_real(x) for x in a.args])
    if a.op == '*':
        return mul(*[to_real(x) for x in a.args])
    return mk('to_real', (a,), 'R')


def floor_(a):
    if isc(a):
        return I(cv(a).numerator // cv(a).denominator)
    if a.op == 'to_real':
        return a.args[0]
    if a.op == '+' and all(x.op in ('to_real', 'c') or (x.op == '*' and all(
            y.op in ('to_real', 'c') for y in x.args)) for x in a.args):
        try:
            return _floor_int(a)
        except ValueError:
            pass
    return mk('floor', (a,), 'I')


def _floor_int(a):
    if isc(a):
        if cv(a).denominator != 1:
            raise ValueError
        return I(cv(a))
    if a.op == 'to_real':
        return a.args[0]
    if a.op == '+':
        return add(*[_floor_int(x) for x in a.args])
    if a.op == '*':
        return mul(*[_floor_int(x) for x in a.args])
    raise ValueError


def trunc_(a):
    """truncation toward zero, real -> int"""
    if isc(a):
        q = cv(a)
        return I(abs(q.numerator) // q.denominator * (1 if q >= 0 else -1))
    f = floor_(a)
    if f.op != 'floor':
        return f
    return ite(le(R(0), a), f, neg(floor_(neg(a))))


def min_(a, b):
    return ite(lt(b, a), b, a)


def max_(a, b):
    return ite(lt(a, b), b, a)


def abs_(a):
    if isc(a):
        return const(abs(cv(a)), a.sort)
    return ite(lt(a, const(0, a.sort)), neg(a), a)


def sqrt_(a):
    if isc(a):
        q = cv(a)
        if q >= 0:
            import math
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator:
                return R(Fraction(n, d))
    return mk('sqrt', (a,), 'R')


def subst(t, m, memo=None):
    """Substitute terms (dict T->T) rebuilding with simplification."""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x in m:
            memo[x] = m[x]
            stack.pop()
            continue
        kids = [a for a in x.args if isinstance(a, T)]
        todo = [a for a in kids if a not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[x] = rebuild(x, [memo[a] if isinstance(a, T) else a for a in x.args]) if kids else x
        stack.pop()
    return memo[t]


def rebuild(x, args):
    if all(a is b for a, b in zip(args, x.args)):
        return x
    op = x.op
    if op == '+':
        return add(*args)
    if op == '*':
        return mul(*args)
    if op == '/':
        return rdiv(*args)
    if op == 'idiv':
        return idiv(*args)
    if op == 'mod':
        return imod(*args)
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'ite':
        return ite(*args)
    if op == '<':
        return lt(*args)
    if op == '<=':
        return le(*args)
    if op == '=':
        return eq(*args)
    if op == 'to_real':
        return to_real(*args)
    if op == 'floor':
        return floor_(*args)
    if op == 'sqrt':
        return sqrt_(*args)
    return mk(op, tuple(args), x.sort)


def subterms(ts):
    """All subterms, children first."""
    seen = set()
    out = []
    stack = [(t, False) for t in ts]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t in seen:
            continue
        seen.add(t)
        stack.append((t, True))
        for a in t.args:
            if isinstance(a, T) and a not in seen:
                stack.append((a, False))
    return out
