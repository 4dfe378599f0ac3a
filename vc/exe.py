r"""Verification-condition generation: symbolic execution of LLVM IR over
mathematical reals and integers.  Every path through a proof function yields
named obligations (path condition /\ assumptions |- goal)."""
import math
import random
import re
import time
from fractions import Fraction
import terms as tm
from terms import T, R, I, B, TRUE, FALSE
import ir
import smt


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class P:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off          # python int or T

    def __repr__(self):
        return 'P(%s,%s)' % (self.obj, self.off)


NULL = P(0, 0)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class RBits:
    """integer view of the bits of a double"""
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r


class Comp:
    """concatenation of cells (value wider than one cell)"""
    __slots__ = ('cells', 'size')

    def __init__(self, cells, size):
        self.cells = cells      # [(reloff,size,val)]
        self.size = size


class Inf:
    """non-finite floating constant"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k              # 'inf' '-inf' 'nan'

    def __repr__(self):
        return self.k


class Obj:
    __slots__ = ('id', 'size', 'cells', 'zr', 'owner', 'name', 'alive', 'base', 'ro')

    def __init__(self, id, size, name, base):
        self.id = id
        self.size = size
        self.cells = {}
        self.zr = []
        self.owner = None
        self.name = name
        self.alive = True
        self.base = base
        self.ro = False

    def copy(self, owner):
        o = Obj(self.id, self.size, self.name, self.base)
        o.cells = dict(self.cells)
        o.zr = list(self.zr)
        o.alive = self.alive
        o.owner = owner
        o.ro = self.ro
        return o


class Frame:
    __slots__ = ('fn', 'label', 'idx', 'regs', 'ret', 'allocas', 'cuts')

    def __init__(self, fn):
        self.fn = fn
        self.label = fn.entry
        self.idx = 0
        self.regs = {}
        self.ret = None         # (instr) of the caller
        self.allocas = []
        self.cuts = {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.label = self.label
        f.idx = self.idx
        f.regs = dict(self.regs)
        f.ret = self.ret
        f.allocas = list(self.allocas)
        f.cuts = dict(self.cuts)
        return f


class Obligation:
    __slots__ = ('proof', 'name', 'pc', 'goal', 'kind', 'eq', 'tol')

    def __init__(self, proof, name, pc, goal, kind, eq=None):
        self.proof = proof
        self.name = name
        self.pc = pc
        self.goal = goal
        self.kind = kind
        self.eq = eq


class State:
    _n = 0

    def __init__(self):
        State._n += 1
        self.sid = State._n
        self.frames = []
        self.mem = {}
        self.pc = []
        self.nobj = 1
        self.addr = 0x100000
        self.names = {}
        self.contracts = {}
        self.globals = {}
        self.exc = []
        self.steps = 0
        self.trace = []
        self.cut = False

    def fork(self):
        s = State.__new__(State)
        State._n += 1
        s.sid = State._n
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.nobj = self.nobj
        s.addr = self.addr
        s.names = dict(self.names)
        s.contracts = dict(self.contracts)
        s.globals = dict(self.globals)
        s.exc = list(self.exc)
        s.steps = self.steps
        s.trace = list(self.trace)
        s.cut = self.cut
        State._n += 1
        self.sid = State._n      # both lose ownership of shared objects
        return s

    def new_obj(self, size, name):
        oid = self.nobj
        self.nobj += 1
        sz = size if isinstance(size, int) else (1 << 32)
        o = Obj(oid, size, name, self.addr)
        self.addr += (sz + 63) // 16 * 16 + 64
        o.owner = self.sid
        self.mem[oid] = o
        return P(oid, 0)

    def wobj(self, oid):
        o = self.mem.get(oid)
        if o is None:
            raise Unsupported('write through invalid pointer')
        if o.owner != self.sid:
            o = o.copy(self.sid)
            self.mem[oid] = o
        return o


PI = tm.var('pi', 'R')
_pi_fr = Fraction(math.pi)


def real_const(d):
    if isinstance(d, Fraction):
        return R(d)
    if math.isinf(d):
        return Inf('inf' if d > 0 else '-inf')
    if math.isnan(d):
        return Inf('nan')
    ex = Fraction(d)
    if ex.denominator <= (1 << 24) and abs(ex) < (1 << 53):
        return R(ex)
    f = ex.limit_denominator(1000000)
    if f != 0 and float(f) == d and abs(ex) < (1 << 53):
        return R(f)
    q = (ex / _pi_fr).limit_denominator(720)
    if q != 0 and abs(q) < 1000:
        v = float(q * _pi_fr)
        if abs(v - d) <= abs(d) * 4.5e-16:
            return tm.mul(R(q), PI)
    # square roots of small rationals (folded by the compiler)
    q = (ex * ex).limit_denominator(64)
    if q != 0 and q < 1000 and q.denominator <= 64 and abs(d) == math.sqrt(q.numerator) / math.sqrt(q.denominator) and abs(float(ex * ex / q) - 1) < 5e-16:
        v = tm.sqrt_(R(q))
        return v if d > 0 else tm.neg(v)
    rp = repr(d)
    digits = re.sub(r'e.*', '', rp).replace('.', '').replace('-', '').strip('0')
    if len(digits) <= 12:
        return R(Fraction(rp))
    return R(ex)


# hierarchy of the standard exceptions (typeinfo symbols outside the module)
STD_BASES = {
    '@_ZTISt12out_of_range': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt16invalid_argument': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt12length_error': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt12domain_error': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt11logic_error': ['@_ZTISt9exception'],
    '@_ZTISt13runtime_error': ['@_ZTISt9exception'],
    '@_ZTISt11range_error': ['@_ZTISt13runtime_error', '@_ZTISt9exception'],
    '@_ZTISt14overflow_error': ['@_ZTISt13runtime_error', '@_ZTISt9exception'],
    '@_ZTISt9bad_alloc': ['@_ZTISt9exception'],
}


class Limits:
    max_steps = 8000000
    max_paths = 4000
    max_time = 240.0


class Executor:
    def __init__(self, mod, contracts=None, limits=None):
        self.mod = mod
        self.obligations = []
        self.covers = {}           # name -> list of pc
        self.lim = limits or Limits()
        self.contract_table = contracts or {}
        self.fn_executed = set()
        self.assumed_axioms = set()
        self.wrap_assumed = 0
        self.inputs = {}           # name -> dict(kind, sort, hints)
        self.paths = 0
        self.ended = 0
        self.pruned = 0
        self.contracts_used = set()
        self.loops_cut = []
        self.feas = smt.Feasibility()
        self.proof = None
        self.throws_ok = False
        self.assume_defined = False
        self.opaque_text = False
        self.simplify_branches = False
        self.fresh_n = 0
        self.loopinfo = {}
        self.assumption_notes = set()
        self.candidates = {}

    # ------------------------------------------------------------ driver
    def run(self, proof):
        """symbolically execute @vc_proof_<proof>; collects obligations"""
        self.proof = proof
        self.t0 = time.time()
        f = self.mod.functions['@vc_proof_' + proof].parse()
        st = State()
        st.frames.append(Frame(f))
        work = [st]
        total = 0
        while work:
            s = work.pop()
            self.paths += 1
            if self.paths > self.lim.max_paths:
                raise Unsupported('path limit exceeded')
            try:
                base = s.steps
                while True:
                    s.steps += 1
                    if (s.steps & 1023) == 0:
                        total += 1024
                        if total > self.lim.max_steps:
                            raise Unsupported('step limit exceeded')
                        if time.time() - self.t0 > self.lim.max_time:
                            raise Unsupported('time limit exceeded in symbolic execution')
                    more = self.step(s)
                    if more:
                        work.extend(more)
            except PathEnd:
                pass
        return self.obligations

    def assume(self, s, c):
        if c is TRUE:
            return
        if c is FALSE:
            raise PathEnd()
        if c.op == 'and':
            for a in c.args:
                self.assume(s, a)
            return
        s.pc.append(c)

    def fork_on(self, s, cond):
        """-> list of (state, truth)"""
        if cond is TRUE:
            return [(s, True)]
        if cond is FALSE:
            return [(s, False)]
        ncond = tm.not_(cond)
        pcset = set(s.pc)
        if cond in pcset:
            return [(s, True)]
        if ncond in pcset:
            return [(s, False)]
        ft = self.feas.feasible(s.pc, cond)
        ff = self.feas.feasible(s.pc, ncond)
        if ft and ff and self.simplify_branches:
            k = self.constant_condition(cond)
            if k is None:
                k = self.known_condition(s, cond)
            if k is not None:
                self.assume(s, cond if k else ncond)      # kept on the path: its definedness is checked
                return [(s, k)]
        if ft and ff:
            s2 = s.fork()
            self.assume(s, cond)
            self.assume(s2, ncond)
            return [(s, True), (s2, False)]
        if ft:
            self.assume(s, cond)
            return [(s, True)]
        if ff:
            self.assume(s, ncond)
            return [(s, False)]
        raise PathEnd()

    def known_condition(self, s, cond):
        """truth value of an inequality that field algebra identifies with one
        already on the path (facts x - y of the same value)"""
        import prove
        import field
        if cond.op == 'not':
            k = self.known_condition(s, cond.args[0])
            return None if k is None else not k
        if cond.op == '=' and cond.args[0].sort == 'R':
            x, y = cond.args
            if y.op == 'c':
                x, y = y, x
            if x.op == 'c' and x.args[0] == 0 and y.op == 'sqrt':
                x, y = R(0), y.args[0]
            for k in ((x, y), (y, x)):
                if self.known_condition(s, tm.lt(*k)) is True:
                    return False
            return None
        if cond.op not in ('<=', '<') or cond.args[0].sort != 'R':
            return None
        fs = [c for c in s.pc if c.op in ('<=', '<') and c.args[0].sort == 'R']
        if not fs or len(fs) > 200:
            return None
        d = tm.sub(cond.args[1], cond.args[0])
        ds = [tm.sub(c.args[1], c.args[0]) for c in fs]
        try:
            ev = []
            for k in (1, 2, 3):
                rng = random.Random(k)
                env = {x.args[0]: rng.uniform(0.5, 2) if x.sort == 'R' else rng.randint(1, 9)
                       for x in tm.subterms([d] + ds) if x.op == 'v'}
                ev.append(prove.evaluate([d] + ds, env, k))
        except Exception:
            return None

        def near(a, b):
            return a != a or b != b or abs(a - b) <= 1e-9 * (1 + abs(a))
        for k, c in enumerate(fs):
            for sign in (1, -1):
                try:
                    e2 = ds[k] if sign == 1 else tm.neg(ds[k])
                    if all(near(e[0], sign * e[k + 1]) for e in ev) and (field.prove_eq(d, e2) or (
                            any(x.op == 'sqrt' for x in tm.subterms([d, e2]))
                            and prove.field_split(d, e2, s.pc, time.time() + 3))):
                        if sign == 1:
                            # path: diff >= 0 (or > 0)
                            if c.op == '<' or cond.op == '<=':
                                return True
                        elif c.op == '<' or cond.op == '<':
                            # path: -diff >= 0 or > 0
                            return False
                except Exception:
                    pass
        return None

    def constant_condition(self, cond):
        """truth value of a condition whose real subterms reduce to constants by
        field algebra (wherever they are defined)"""
        import prove
        import field
        import random
        vs = [x for x in tm.subterms([cond]) if x.op == 'var' and x.sort == 'R']
        ts = [x for x in tm.subterms([cond]) if x.sort == 'R' and x.op in ('+', '*', '/') and not tm.isc(x)]
        rnd = random.Random(1)
        got = []
        for _ in range(3):
            env = {v.args[0]: rnd.uniform(0.5, 2.0) for v in vs}
            try:
                got.append(prove.evaluate(ts, env))
            except Exception:
                return None
        m = {}
        for k, t in enumerate(ts):
            a = [g[k] for g in got]
            if max(a) - min(a) < 1e-9 * (1 + abs(a[0])):
                c = R(Fraction(a[0]).limit_denominator(1000))
                try:
                    if field.prove_eq(t, c):
                        m[t] = c
                except Exception:
                    pass
        if not m:
            return None
        q = tm.subst(cond, m)
        return True if q is TRUE else False if q is FALSE else None

    def oblige(self, s, name, goal, kind, eq=None):
        if s.cut and any(c[0] == 'any' for fr in s.frames for c in fr.cuts.values()):
            return          # raised again in the pass that follows (see loop_cut)
        self.obligations.append(Obligation(self.proof, name, list(s.pc), goal, kind, eq))

    # ------------------------------------------------------------ operands
    def const(self, s, ty, v):
        """evaluate a constant operand"""
        k = v[0]
        if k == 'c':
            t = v[1]
            if t[0] == 'int':
                if t[1] == 1:
                    return B(v[2])
                return I(norm(v[2], t[1]))
            return real_const(v[2])
        if k == 'glob':
            return self.globaddr(s, v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.const(s, t, x) for t, x in v[2]]
        if k == 'bytes':
            return [I(norm(b, 8)) for b in v[1]]
        if k == 'gep':
            ops = [(t, self.const(s, t, x)) for t, x in v[2]]
            return self.gep(s, v[1], ops)
        if k == 'ccast':
            return self.cast(s, v[1], v[2], self.const(s, v[2], v[3]), v[4], ())
        if k == 'cbin':
            return self.binop(s, v[1], v[2], self.const(s, v[2], v[3]), self.const(s, v[2], v[4]), ())
        if k == 'cicmp':
            return self.icmp(s, v[1], v[2], self.const(s, v[2], v[3]), self.const(s, v[2], v[4]))
        raise Unsupported('constant ' + k)

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if k == 'int':
            return FALSE if ty[1] == 1 else I(0)
        if k in ('double', 'float', 'x86_fp80'):
            return R(0)
        if k == 'ptr':
            return NULL
        if k == 'struct':
            return [self.zero(t) for t in ty[1]]
        if k in ('array', 'vec'):
            return [self.zero(ty[2]) for _ in range(ty[1])]
        raise Unsupported('zero of ' + str(ty))

    def val(self, s, ty, v):
        if v[0] == 'loc':
            return s.frames[-1].regs[v[1]]
        return self.const(s, ty, v)

    def globaddr(self, s, name):
        if name in self.mod.functions:
            return Fn(name)
        p = s.globals.get(name)
        if p is not None:
            return p
        g = self.mod.glob(name)
        if g is None:
            return Fn(name)              # declared function
        if g['kind'] == 'alias':
            return self.const(s, ('ptr',), g['target'])
        if g['kind'] != 'var':
            raise Unsupported('global ' + name)
        try:
            size = self.mod.size(g['type'])
        except NotImplementedError:
            size = 64
        p = s.new_obj(size, name)
        s.globals[name] = p
        o = s.mem[p.obj]
        if g['init'] is not None:
            init = g['init']
            if init[0] == 'zero':
                o.zr.append((0, size))
            elif init[0] != 'undef':
                v = self.const(s, g['type'], init)
                self.store_value(s, o, 0, g['type'], v)
        elif name == '@__libc_single_threaded':
            o.cells[0] = (1, I(1))
        else:
            o.name = name + ' (external)'
        o.ro = g['const']
        return p

    # ------------------------------------------------------------ memory
    def store_value(self, s, o, off, ty, v):
        ty = self.mod.resolve(ty)
        if isinstance(v, list):
            if ty[0] == 'struct':
                for i, t in enumerate(ty[1]):
                    self.store_value(s, o, off + self.mod.field_offset(ty, i), t, v[i])
            else:
                es = self.mod.size(ty[2])
                for i in range(ty[1]):
                    self.store_value(s, o, off + i * es, ty[2], v[i])
            return
        if v is UNDEF:
            self.clear(o, off, self.mod.size(ty))
            return
        size = self.mod.size(ty)
        if isinstance(v, Comp):
            self.clear(o, off, size)
            for ro, sz, x in v.cells:
                if ro < size:
                    o.cells[off + ro] = (sz, x)
            return
        if isinstance(v, T) and v.sort == 'B':
            v = tm.ite(v, I(1), I(0))
        self.clear(o, off, size)
        o.cells[off] = (size, v)

    def clear(self, o, off, size):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            return
        end = off + size
        if size <= 64:
            rng = range(off - 16, end)
            keys = [k for k in rng if k in cells]
        else:
            keys = [k for k in cells if off - 16 <= k < end]
        for k in keys:
            sz, v = cells[k]
            if k + sz <= off:
                continue
            del cells[k]
            if k < off or k + sz > end:
                # split
                parts = self.split(v, sz)
                if parts is not None:
                    for j, b in enumerate(parts):
                        if k + j < off or k + j >= end:
                            cells[k + j] = (1, b)

    def split(self, v, sz):
        if isinstance(v, T) and v.sort == 'I' and tm.isc(v):
            x = tm.cv(v) & ((1 << (8 * sz)) - 1)
            return [I(norm((x >> (8 * j)) & 255, 8)) for j in range(sz)]
        if v is NULL or (isinstance(v, P) and v.obj == 0 and v.off == 0):
            return [I(0)] * sz
        return None

    def undefined(self, s, what):
        self.oblige(s, 'undefined-behaviour(%s)' % what, FALSE, 'safety')
        raise PathEnd()

    def check_access(self, s, p, size, what):
        if p is UNDEF:
            self.undefined(s, '%s through an indeterminate pointer' % what)
        if not isinstance(p, P):
            raise Unsupported('%s through non-pointer %r' % (what, p))
        if p.obj == 0:
            self.oblige(s, 'memory-safety(null %s)' % what, FALSE, 'safety')
            raise PathEnd()
        o = s.mem.get(p.obj)
        if o is None or not o.alive:
            self.oblige(s, 'memory-safety(use after free: %s)' % what, FALSE, 'safety')
            raise PathEnd()
        if isinstance(p.off, int) and isinstance(o.size, int):
            if p.off < 0 or p.off + size > o.size:
                if 'external' in (o.name or ''):
                    raise Unsupported('access to external object ' + o.name)
                self.oblige(s, 'memory-safety(out of bounds %s)' % what, FALSE, 'safety')
                raise PathEnd()
        return o

    def load(self, s, p, ty):
        ty = self.mod.resolve(ty)
        size = self.mod.size(ty)
        o = self.check_access(s, p, size, 'load')
        off = p.off
        if isinstance(off, T):
            if tm.isc(off):
                off = tm.cv(off)
            else:
                return self.load_sym(s, o, off, ty, size)
        return self.load_at(s, o, off, ty, size)

    def load_at(self, s, o, off, ty, size):
        k = ty[0]
        if k == 'struct':
            return [self.load_at(s, o, off + self.mod.field_offset(ty, i), self.mod.resolve(t), self.mod.size(t))
                    for i, t in enumerate(ty[1])]
        if k in ('array', 'vec'):
            es = self.mod.size(ty[2])
            return [self.load_at(s, o, off + i * es, self.mod.resolve(ty[2]), es) for i in range(ty[1])]
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.retype(s, c[1], ty)
        if c is None and not any((off + j) in o.cells for j in range(1, size)):
            # uninitialised or zero
            for a, b in o.zr:
                if a <= off and off + size <= b:
                    # covered by an earlier wider cell?
                    if not self._covered(o, off):
                        return self.zero(ty)
            w = self._covered(o, off)
            if w:
                return self.partial(w, off, size, ty)
            if 'external' in (o.name or ''):
                raise Unsupported('read of external object ' + o.name)
            return UNDEF
        # assemble
        cells = []
        i = 0
        while i < size:
            c = o.cells.get(off + i)
            if c is None:
                w = self._covered(o, off + i)
                if w:
                    parts = self.split(w[2], w[1])
                    if parts is None:
                        raise Unsupported('partial load')
                    cells.append((i, 1, parts[off + i - w[0]]))
                    i += 1
                    continue
                z = any(a <= off + i < b for a, b in o.zr)
                cells.append((i, 1, I(0) if z else UNDEF))
                i += 1
                continue
            if i + c[0] > size:
                parts = self.split(c[1], c[0])
                if parts is None:
                    if size == i + c[0]:
                        pass
                    if k == 'int':
                        r = self.partial((off + i, c[0], c[1]), off + i, size - i, ('int', 8 * (size - i)))
                        cells.append((i, size - i, r))
                        i = size
                        continue
                    raise Unsupported('partial load')
                for j in range(size - i):
                    cells.append((i + j, 1, parts[j]))
                i = size
                continue
            cells.append((i, c[0], c[1]))
            i += c[0]
        return self.join(cells, size, ty)

    def _covered(self, o, off):
        for k in range(off - 15, off):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off:
                return (k, c[0], c[1])
        return None

    def partial(self, w, off, size, ty):
        k, sz, v = w
        if isinstance(v, T) and v.sort == 'I' and ty[0] == 'int':
            if tm.isc(v):
                x = tm.cv(v) >> (8 * (off - k))
                return I(norm(x, 8 * size))
            # symbolic extract
            x = v if off == k else tm.idiv(v, I(1 << (8 * (off - k))))
            return wrapi(x, 8 * size)
        parts = self.split(v, sz)
        if parts is not None:
            return self.join([(j, 1, parts[off - k + j]) for j in range(size)], size, ty)
        raise Unsupported('partial load of %r' % (v,))

    def join(self, cells, size, ty):
        if all(isinstance(c[2], T) and c[2].sort == 'I' and tm.isc(c[2]) for c in cells):
            x = 0
            for ro, sz, v in cells:
                x |= (tm.cv(v) & ((1 << (8 * sz)) - 1)) << (8 * ro)
            if ty[0] == 'int':
                return I(norm(x, 8 * size))
            if ty[0] == 'ptr' and x == 0:
                return NULL
            if ty[0] == 'double':
                import struct
                return real_const(struct.unpack('<d', x.to_bytes(8, 'little'))[0])
        if all(c[2] is UNDEF for c in cells):
            return UNDEF
        if ty[0] == 'int' and all(isinstance(c[2], T) and c[2].sort == 'I' for c in cells) and size <= 8:
            acc = I(0)
            for idx, (ro, sz, v) in enumerate(cells):
                if idx < len(cells) - 1:
                    v = unsigned(v, 8 * sz)
                acc = tm.add(acc, tm.mul(I(1 << (8 * ro)), v))
            return acc
        return Comp(cells, size)

    def retype(self, s, v, ty):
        k = ty[0]
        if v is UNDEF:
            return v
        if k == 'int':
            if isinstance(v, T):
                if v.sort == 'R':
                    if tm.isc(v) and tm.cv(v) == 0:
                        return I(0)
                    return RBits(v)
                if ty[1] == 1 and v.sort == 'I':
                    return tm.eq(tm.imod(v, I(2)), I(1))
                return v
            if isinstance(v, P):
                return self.ptrtoint(s, v)
            if isinstance(v, (RBits, Comp)):
                return v
            if isinstance(v, Inf):
                return RBits(v)
            if isinstance(v, Fn):
                return v
        elif k == 'double':
            if isinstance(v, T):
                if v.sort == 'R':
                    return v
                if tm.isc(v):
                    import struct
                    return real_const(struct.unpack('<d', (tm.cv(v) & (2**64 - 1)).to_bytes(8, 'little'))[0])
                raise Unsupported('integer bits as double')
            if isinstance(v, RBits):
                return v.r
            if isinstance(v, Inf):
                return v
            if isinstance(v, P) and v.obj == 0:
                return R(0)
        elif k == 'ptr':
            if isinstance(v, (P, Fn)):
                return v
            if isinstance(v, T) and v.sort == 'I':
                return self.inttoptr(s, v)
            if isinstance(v, T) and v.sort == 'R':
                return UNDEF                                # speculated load of the other variant alternative; any use is an obligation
        elif k in ('float', 'x86_fp80'):
            if isinstance(v, T) and v.sort == 'R':
                return v
        raise Unsupported('retype %r as %s' % (v, ty))

    def load_sym(self, s, o, off, ty, size):
        cands = []
        for k in sorted(o.cells):
            sz, v = o.cells[k]
            if sz == size:
                e = tm.eq(off, I(k))
                if e is not FALSE:
                    cands.append((e, v, k))
        # zero-initialised part
        for a, b in o.zr:
            for k in range(a, b - size + 1, size):
                if k not in o.cells and not self._covered(o, k):
                    e = tm.eq(off, I(k))
                    if e is not FALSE:
                        cands.append((e, self.zero(ty), k))
        if len(cands) > 600:
            raise Unsupported('symbolic load over large object')
        if not cands:
            self.oblige(s, 'memory-safety(out of bounds load)', FALSE, 'safety')
            raise PathEnd()
        live = cands
        if len(cands) > 1 and len(cands) <= 64 or any(not isinstance(v, T) for _, v, _ in cands):
            live = [c for c in cands if self.feas.feasible(s.pc, c[0])]
        guard = tm.or_(*[c[0] for c in live]) if live else FALSE
        self.oblige(s, 'memory-safety(in-bounds load)', guard, 'safety')
        if not live:
            raise PathEnd()
        self.assume(s, guard)
        vals = [self.retype(s, v, ty) for _, v, _ in live]
        if not all(isinstance(v, T) for v in vals):
            if len(live) == 1:
                return vals[0]
            raise NeedFork(live, off)
        r = vals[-1]
        for (e, _, _), v in zip(reversed(live[:-1]), reversed(vals[:-1])):
            r = tm.ite(e, v, r)
        return r

    def store(self, s, p, ty, v):
        ty = self.mod.resolve(ty)
        size = self.mod.size(ty)
        o = self.check_access(s, p, size, 'store')
        off = p.off
        if isinstance(off, T):
            if tm.isc(off):
                off = tm.cv(off)
            else:
                return self.store_sym(s, o, off, ty, size, v)
        o = s.wobj(p.obj)
        self.store_value(s, o, off, ty, v)

    def store_sym(self, s, o, off, ty, size, v):
        if isinstance(v, T) and v.sort == 'B':
            v = tm.ite(v, I(1), I(0))
        # candidate slots
        if not isinstance(o.size, int):
            raise Unsupported('symbolic store into symbolic-size object')
        lo, hi = tm.ival(off)
        slots = []
        al = size
        start = 0
        for k in range(start, o.size - size + 1, al):
            e = tm.eq(off, I(k))
            if e is not FALSE:
                slots.append((e, k))
        if len(slots) > 600:
            raise Unsupported('symbolic store over large object')
        live = [c for c in slots if len(slots) > 64 or self.feas.feasible(s.pc, c[0])]
        guard = tm.or_(*[c[0] for c in live]) if live else FALSE
        self.oblige(s, 'memory-safety(in-bounds store)', guard, 'safety')
        if not live:
            raise PathEnd()
        self.assume(s, guard)
        if len(live) == 1:
            o = s.wobj(o.id)
            self.store_value(s, o, live[0][1], ty, v)
            return
        if not isinstance(v, T):
            raise NeedFork([(e, None, k) for e, k in live], off)
        olds = []
        for e, k in live:
            old = self.load_at(s, o, k, ty, size)
            if not isinstance(old, T):
                if old is UNDEF:
                    raise NeedFork([(e, None, k) for e, k in live], off)
                raise Unsupported('symbolic store over non-scalar')
            if old.sort == 'B':
                old = tm.ite(old, I(1), I(0))
            olds.append(old)
        o = s.wobj(o.id)
        for (e, k), old in zip(live, olds):
            self.store_value(s, o, k, ty, tm.ite(e, v, old))

    def values_of(self, s, x):
        """all feasible values of a bounded integer term, or None"""
        k = conc(x)
        if k is not None:
            return [k]
        if not isinstance(x, T):
            return None
        lo, hi = tm.ival(x)
        if lo is None or hi is None or hi - lo > 4096:
            return None
        return [k for k in range(lo, hi + 1) if self.feas.feasible(s.pc, tm.eq(x, I(k)))]

    def conc1(self, s, x):
        k = conc(x)
        if k is None:
            v = self.values_of(s, x)
            if v is not None and len(v) == 1:
                return v[0]
        return k

    def memcpy(self, s, d, src, n):
        n = self.conc1(s, n)
        if n is None:
            raise Unsupported('memcpy with symbolic size')
        if n == 0:
            return
        so = self.check_access(s, src, n, 'memcpy')
        self.check_access(s, d, n, 'memcpy')
        for q in (src, d):
            if conc(q.off) is None:
                vals = self.values_of(s, q.off)
                if vals is None:
                    raise Unsupported('memcpy with symbolic offset')
                if not vals:
                    raise PathEnd()
                raise NeedFork([(tm.eq(q.off, I(k)), None, k) for k in vals], q.off)
        so_off, d_off = conc(src.off), conc(d.off)
        if so_off is None or d_off is None:
            raise Unsupported('memcpy with symbolic offset')
        cells = []
        end = so_off + n
        if n <= 256:
            keys = [k for k in range(so_off - 15, end) if k in so.cells]
        else:
            keys = [k for k in so.cells if so_off - 16 < k < end]
        for k in keys:
            sz, v = so.cells[k]
            if k + sz <= so_off:
                continue
            if k < so_off or k + sz > end:
                parts = self.split(v, sz)
                if parts is None:
                    if isinstance(v, T) and v.sort == 'I':
                        parts = [wrapi(tm.idiv(v, I(1 << (8 * j))), 8) for j in range(sz)]
                    else:
                        raise Unsupported('memcpy splits a cell')
                for j in range(sz):
                    if so_off <= k + j < end:
                        cells.append((k + j - so_off, 1, parts[j]))
            else:
                cells.append((k - so_off, sz, v))
        zr = [(max(a, so_off) - so_off, min(b, end) - so_off) for a, b in so.zr if a < end and b > so_off]
        do = s.wobj(d.obj)
        self.clear(do, d_off, n)
        for k in [k for k in do.cells if d_off <= k < d_off + n]:
            del do.cells[k]
        do.zr = self._zr_minus(do.zr, d_off, d_off + n) + [(a + d_off, b + d_off) for a, b in zr]
        for ro, sz, v in cells:
            do.cells[d_off + ro] = (sz, v)

    def _zr_minus(self, zr, a, b):
        out = []
        for x, y in zr:
            if y <= a or x >= b:
                out.append((x, y))
            else:
                if x < a:
                    out.append((x, a))
                if y > b:
                    out.append((b, y))
        return out

    def memset(self, s, d, c, n):
        n = self.conc1(s, n)
        if n is None:
            raise Unsupported('memset with symbolic size')
        if n == 0:
            return
        self.check_access(s, d, n, 'memset')
        off = conc(d.off)
        cc = conc(c)
        if off is None:
            raise Unsupported('memset with symbolic offset')
        o = s.wobj(d.obj)
        self.clear(o, off, n)
        for k in [k for k in o.cells if off <= k < off + n]:
            del o.cells[k]
        o.zr = self._zr_minus(o.zr, off, off + n)
        if cc == 0:
            o.zr = o.zr + [(off, off + n)]
        elif cc is not None and n <= 4096:
            for k in range(n):
                o.cells[off + k] = (1, I(norm(cc, 8)))
        else:
            raise Unsupported('memset')

    def ptrtoint(self, s, p):
        if isinstance(p, Fn):
            return p
        if p.obj == 0:
            return asI(p.off)
        return tm.add(I(s.mem[p.obj].base), asI(p.off))

    def inttoptr(self, s, v):
        if isinstance(v, (Fn, RBits)):
            return v
        if tm.isc(v):
            a = tm.cv(v)
            if a == 0:
                return NULL
            for o in s.mem.values():
                sz = o.size if isinstance(o.size, int) else (1 << 32)
                if o.base <= a <= o.base + sz:
                    return P(o.id, a - o.base)
            return P(0, a)
        c = 0
        if v.op == '+':
            for x in v.args:
                if tm.isc(x):
                    c = tm.cv(x)
        for o in s.mem.values():
            sz = o.size if isinstance(o.size, int) else (1 << 32)
            if o.base <= c <= o.base + sz:
                return P(o.id, tm.sub(v, I(o.base)))
        raise Unsupported('inttoptr of symbolic value')

    def gep(self, s, bt, ops):
        base = ops[0][1]
        if base is UNDEF:
            return UNDEF
        if isinstance(base, Fn):
            raise Unsupported('gep on function')
        if not isinstance(base, P):
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        t = bt
        coff = 0
        sym = None
        for i, (ity, iv) in enumerate(ops[1:]):
            if i == 0:
                sz = self.mod.size(t)
            else:
                t = self.mod.resolve(t)
                if t[0] == 'struct':
                    k = conc(iv)
                    coff += self.mod.field_offset(t, k)
                    t = t[1][k]
                    continue
                t = t[2]
                sz = self.mod.size(t)
            if iv is UNDEF:
                return UNDEF
            k = conc(iv)
            if k is not None:
                coff += k * sz
            else:
                x = tm.mul(I(sz), iv)
                sym = x if sym is None else tm.add(sym, x)
        if isinstance(off, int) and sym is None:
            return P(base.obj, off + coff)
        r = tm.add(asI(off), I(coff), sym if sym is not None else I(0))
        if tm.isc(r):
            return P(base.obj, tm.cv(r))
        return P(base.obj, r)

    # ------------------------------------------------------------ scalar ops
    def icmp(self, s, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (P, Fn)) or isinstance(b, (P, Fn)):
            return self.pcmp(s, pred, a, b)
        if isinstance(a, RBits) or isinstance(b, RBits) or isinstance(a, Comp):
            # sign test on the bits of a double: x < 0 (signed zero identified with +0)
            if isinstance(a, RBits) and isinstance(b, T) and tm.isc(b) and isinstance(a.r, T):
                c = tm.cv(b)
                if (pred == 'slt' and c == 0) or (pred == 'sle' and c == -1):
                    return tm.lt(a.r, R(0))
                if (pred == 'sgt' and c == -1) or (pred == 'sge' and c == 0):
                    return tm.le(R(0), a.r)
            if isinstance(a, RBits) and isinstance(b, RBits) and pred in ('eq', 'ne') and \
                    isinstance(a.r, T) and isinstance(b.r, T):
                e = tm.eq(a.r, b.r)
                return e if pred == 'eq' else tm.not_(e)
            raise Unsupported('icmp on float bits')
        if a.sort == 'B':
            if pred == 'eq':
                return tm.eq(a, b)
            if pred == 'ne':
                return tm.not_(tm.eq(a, b))
            # i1 comparisons: unsigned 0/1, signed 0/-1
            ua, ub = tm.ite(a, I(1), I(0)), tm.ite(b, I(1), I(0))
            if pred[0] == 's':
                ua, ub = tm.neg(ua), tm.neg(ub)
            a, b = ua, ub
            pred = {'u': 's'}.get(pred[0], pred[0]) + pred[1:]
        if pred == 'eq':
            return tm.eq(a, b)
        if pred == 'ne':
            return tm.not_(tm.eq(a, b))
        if pred[0] == 's' and isinstance(a, T) and isinstance(b, T) and tm.isc(b) and a.op == 'uf' and a.args[0] == 'xor':
            neg = tm.not_(tm.eq(tm.lt(a.args[1], I(0)), tm.lt(a.args[2], I(0))))
            c = tm.cv(b)
            if (pred == 'slt' and c == 0) or (pred == 'sle' and c == -1):
                return neg
            if (pred == 'sgt' and c == -1) or (pred == 'sge' and c == 0):
                return tm.not_(neg)
        n = ty[1] if ty[0] == 'int' else 64
        if pred[0] == 'u':
            a, b = unsigned(a, n), unsigned(b, n)
        k = pred[1:]
        if k == 'lt':
            return tm.lt(a, b)
        if k == 'le':
            return tm.le(a, b)
        if k == 'gt':
            return tm.lt(b, a)
        if k == 'ge':
            return tm.le(b, a)
        raise Unsupported('icmp ' + pred)

    def pcmp(self, s, pred, a, b):
        if isinstance(a, T):
            a = self.inttoptr(s, a)
        if isinstance(b, T):
            b = self.inttoptr(s, b)
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            if pred == 'eq':
                return B(same)
            if pred == 'ne':
                return B(not same)
            raise Unsupported('order on functions')
        if a.obj == b.obj:
            x, y = asI(a.off), asI(b.off)
        else:
            if pred == 'eq':
                return FALSE
            if pred == 'ne':
                return TRUE
            x, y = self.ptrtoint(s, a), self.ptrtoint(s, b)
        if pred == 'eq':
            return tm.eq(x, y)
        if pred == 'ne':
            return tm.not_(tm.eq(x, y))
        k = pred[1:]
        return {'lt': tm.lt, 'le': tm.le}[k](x, y) if k in ('lt', 'le') else \
            {'gt': tm.lt, 'ge': tm.le}[k](y, x)

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return TRUE
        if pred == 'false':
            return FALSE
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Inf) or isinstance(b, Inf):
            def num(x):
                return {'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}[x.k] if isinstance(x, Inf) else 0.0
            x, y = num(a), num(b)
            uno = math.isnan(x) or math.isnan(y)
            if pred == 'uno':
                return B(uno)
            if pred == 'ord':
                return B(not uno)
            if uno:
                return B(pred[0] == 'u')
            k = pred[1:]
            return B({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k])
        if pred == 'uno':
            return FALSE
        if pred == 'ord':
            return TRUE
        k = pred[1:]
        if k == 'eq':
            return tm.eq(a, b)
        if k == 'ne':
            return tm.not_(tm.eq(a, b))
        if k == 'lt':
            return tm.lt(a, b)
        if k == 'le':
            return tm.le(a, b)
        if k == 'gt':
            return tm.lt(b, a)
        if k == 'ge':
            return tm.le(b, a)
        raise Unsupported('fcmp ' + pred)

    def fbin(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Inf) or isinstance(b, Inf):
            return self.finf(op, a, b)
        if op == 'fadd':
            return tm.add(a, b)
        if op == 'fsub':
            return tm.sub(a, b)
        if op == 'fmul':
            return tm.mul(a, b)
        if op == 'fdiv':
            if tm.isc(b) and tm.cv(b) == 0:
                if tm.isc(a):
                    return Inf('nan' if tm.cv(a) == 0 else 'inf' if tm.cv(a) > 0 else '-inf')
                return Inf('nan')
            return tm.rdiv(a, b)
        if op == 'frem':
            if a is R(0):
                return a
            q = tm.trunc_(tm.rdiv(a, b))
            return tm.sub(a, tm.mul(b, tm.to_real(q)))
        raise Unsupported(op)

    def finf(self, op, a, b):
        def num(x):
            if isinstance(x, Inf):
                return {'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}[x.k]
            if tm.isc(x):
                return float(tm.cv(x))
            return None
        x, y = num(a), num(b)
        if (x is not None and math.isnan(x)) or (y is not None and math.isnan(y)):
            return Inf('nan')
        if op in ('fadd', 'fsub'):
            if isinstance(a, Inf) and not isinstance(b, Inf):
                return a
            if isinstance(b, Inf) and not isinstance(a, Inf):
                return b if op == 'fadd' else Inf({'inf': '-inf', '-inf': 'inf'}[b.k])
        if x is not None and y is not None:
            try:
                r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
                if math.isfinite(r):
                    return R(Fraction(r))
                return Inf('nan' if math.isnan(r) else 'inf' if r > 0 else '-inf')
            except ZeroDivisionError:
                return Inf('nan')
        if op == 'fdiv' and isinstance(b, Inf) and not isinstance(a, Inf):
            return R(0)
        raise Unsupported('arithmetic on infinity')

    def binop(self, s, op, ty, a, b, flags):
        if isinstance(a, list) or isinstance(b, list):
            et = ty[2]
            return [self.binop(s, op, et, x, y, flags) for x, y in zip(a, b)]
        if op[0] == 'f':
            return self.fbin(op, a, b)
        if a is UNDEF or b is UNDEF:
            if op == 'and' and ((isinstance(a, T) and tm.isc(a) and not tm.cv(a)) or
                                (isinstance(b, T) and tm.isc(b) and not tm.cv(b))):
                return FALSE if ty == ('int', 1) else I(0)
            return UNDEF
        n = ty[1]
        if isinstance(a, RBits) or isinstance(b, RBits):
            return self.bits(op, a, b)
        if isinstance(a, Fn) or isinstance(b, Fn) or isinstance(a, Comp) or isinstance(b, Comp):
            if isinstance(a, Fn) and op == 'and' and isinstance(b, T) and tm.isc(b) and tm.cv(b) == 1:
                return I(0)
            raise Unsupported('integer op on %r' % (a,))
        if n == 1 or a.sort == 'B':
            if op == 'and':
                return tm.and_(a, b)
            if op == 'or':
                return tm.or_(a, b)
            if op in ('xor', 'add', 'sub'):
                return tm.not_(tm.eq(a, b))
            if op == 'mul':
                return tm.and_(a, b)
            raise Unsupported('i1 ' + op)
        ca, cb = conc(a), conc(b)
        M = 1 << n
        if ca is not None and cb is not None:
            ua, ub = ca % M, cb % M
            if op == 'add':
                r = ca + cb
            elif op == 'sub':
                r = ca - cb
            elif op == 'mul':
                r = ca * cb
            elif op == 'and':
                r = ua & ub
            elif op == 'or':
                r = ua | ub
            elif op == 'xor':
                r = ua ^ ub
            elif op == 'shl':
                r = ua << ub if ub < n else None
            elif op == 'lshr':
                r = ua >> ub if ub < n else None
            elif op == 'ashr':
                r = ca >> ub if ub < n else None
            elif op in ('udiv', 'urem'):
                if ub == 0:
                    self.oblige(s, 'division-by-zero(integer)', FALSE, 'safety')
                    raise PathEnd()
                r = ua // ub if op == 'udiv' else ua % ub
            else:
                if cb == 0:
                    self.oblige(s, 'division-by-zero(integer)', FALSE, 'safety')
                    raise PathEnd()
                q = abs(ca) // abs(cb) * (1 if (ca >= 0) == (cb >= 0) else -1)
                r = q if op == 'sdiv' else ca - q * cb
            if r is None:       # shift by the width or more: poison
                return UNDEF
            return I(norm(r, n))
        if op == 'add':
            return self.ovf(tm.add(a, b), n)
        if op == 'sub':
            return self.ovf(tm.sub(a, b), n)
        if op == 'mul':
            if cb is not None and cb == -1:
                return self.ovf(tm.neg(a), n)
            return self.ovf(tm.mul(a, b), n)
        if op == 'shl':
            if cb is not None:
                r = tm.mul(I(1 << cb), a)
                return self.ovf(r, n) if 'nsw' in flags or 'nuw' in flags else wrapi(r, n)
            lo, hi = tm.ival(b)
            if lo is not None and hi is not None and lo >= 0 and hi < 64 and hi - lo <= 64:
                r = tm.mul(I(1 << hi), a)
                for k in range(hi - 1, lo - 1, -1):
                    r = tm.ite(tm.eq(b, I(k)), tm.mul(I(1 << k), a), r)
                return self.ovf(r, n)
            raise Unsupported('shl by unbounded symbolic amount')
        if op in ('lshr', 'ashr'):
            x = unsigned(a, n) if op == 'lshr' else a
            if cb is not None:
                return tm.idiv(x, I(1 << cb))
            lo, hi = tm.ival(b)
            if lo is not None and hi is not None and lo >= 0 and hi < 64:
                r = tm.idiv(x, I(1 << hi))
                for k in range(hi - 1, lo - 1, -1):
                    r = tm.ite(tm.eq(b, I(k)), tm.idiv(x, I(1 << k)), r)
                return r
            raise Unsupported('shift by symbolic amount')
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op[0] == 'u':
                a, b = unsigned(a, n), unsigned(b, n)
            if conc(b) is None:
                lo, hi = tm.ival(b)
                if not ((lo is not None and lo > 0) or (hi is not None and hi < 0)):
                    nz = tm.not_(tm.eq(b, I(0)))
                    self.oblige(s, 'division-by-zero(integer)', nz, 'safety')
                    self.assume(s, nz)
            elif conc(b) == 0:
                self.oblige(s, 'division-by-zero(integer)', FALSE, 'safety')
                raise PathEnd()
            if op[0] == 'u':
                return tm.idiv(a, b) if op == 'udiv' else tm.imod(a, b)
            q = sdiv(a, b)
            if op == 'sdiv':
                return q
            if conc(b) is not None and conc(b) > 0 and (tm.ival(a)[0] or -1) >= 0:
                return tm.imod(a, b)
            return srem(a, b)
        if op == 'and':
            for x, c in ((a, cb), (b, ca)):
                if c is not None:
                    u = c % M
                    if u == M - 1:
                        return x
                    if u == 0:
                        return I(0)
                    if (u & (u + 1)) == 0:
                        return tm.imod(x, I(u + 1))
                    low = (u & -u)
                    hi = u // low
                    if (hi & (hi + 1)) == 0:
                        k = low.bit_length() - 1
                        if u == M - low:      # mask of high bits:  x - x mod low
                            return tm.sub(x, tm.imod(x, I(low)))
                        return tm.mul(I(low), tm.imod(tm.idiv(x, I(low)), I(hi + 1)))
            return self.bitwise('and', a, b, n)
        if op == 'or':
            if 'disjoint' in flags:
                return tm.add(a, b)
            for x, c in ((a, cb), (b, ca)):
                if c is not None:
                    u = c % M
                    if u == 0:
                        return x
                    if (u & (u - 1)) == 0 and u < M // 2:
                        return tm.add(x, tm.mul(I(u), tm.sub(I(1), tm.imod(tm.idiv(x, I(u)), I(2)))))
            return self.bitwise('or', a, b, n)
        if op == 'xor':
            for x, c in ((a, cb), (b, ca)):
                if c is not None:
                    if c % M == M - 1:
                        return tm.sub(I(-1), x)
                    if c == 1:
                        bit = tm.imod(x, I(2))
                        return tm.add(x, tm.sub(I(1), tm.mul(I(2), bit)))
            return self.bitwise('xor', a, b, n)
        raise Unsupported('binop ' + op)

    def bitwise(self, op, a, b, n):
        """and/or/xor of two small non-negative integers, bit by bit"""
        la, ha = tm.ival(a)
        lb, hb = tm.ival(b)
        if la is None or lb is None or la < 0 or lb < 0 or ha is None or hb is None:
            if op == 'and' and (la is not None and la >= 0 and ha is not None and ha <= 1):
                return tm.mul(a, tm.imod(b, I(2)))
            if op == 'and' and (lb is not None and lb >= 0 and hb is not None and hb <= 1):
                return tm.mul(b, tm.imod(a, I(2)))
            if op == 'xor':
                # only the sign is interpreted (see icmp)
                return tm.uf('xor', (a, b), 'I')
            raise Unsupported('bitwise %s of unbounded integers' % op)
        if op == 'or' and la == 0 and lb == 0:
            # disjoint by structure: a multiple of 2^k with b < 2^k
            for x, y, hy in ((a, b, hb), (b, a, ha)):
                if x.op == '*' and tm.isc(x.args[0]):
                    c = tm.cv(x.args[0])
                    if (c & (c - 1)) == 0 and hy < c:
                        return tm.add(x, y)
        k = max(ha, hb).bit_length()
        if k > 24:
            raise Unsupported('bitwise %s of wide integers' % op)
        out = []
        for j in range(k):
            x = tm.eq(tm.imod(tm.idiv(a, I(1 << j)), I(2)), I(1))
            y = tm.eq(tm.imod(tm.idiv(b, I(1 << j)), I(2)), I(1))
            z = {'and': tm.and_(x, y), 'or': tm.or_(x, y), 'xor': tm.not_(tm.eq(x, y))}[op]
            out.append(tm.ite(z, I(1 << j), I(0)))
        return tm.add(*out)

    def ovf(self, t, n):
        lo, hi = tm.ival(t)
        if lo is None or hi is None or lo < -(1 << (n - 1)) or hi >= (1 << (n - 1)):
            self.wrap_assumed += 1
        return t

    def bits(self, op, a, b):
        if isinstance(b, RBits):
            a, b = b, a
        if isinstance(b, T) and tm.isc(b):
            c = tm.cv(b) % (1 << 64)
            if op == 'and' and c == (1 << 63) - 1:
                return RBits(tm.abs_(a.r))
            if op == 'xor' and c == (1 << 63):
                return RBits(tm.neg(a.r))
            if op == 'or' and c == (1 << 63):
                return RBits(tm.neg(tm.abs_(a.r)))
        raise Unsupported('bit operation on a double')

    def cast(self, s, op, t1, v, t2, flags):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, list):
            if op in ('bitcast',):
                raise Unsupported('vector bitcast')
            return [self.cast(s, op, t1[2], x, t2[2], flags) for x in v]
        if op == 'trunc':
            n = t2[1]
            if isinstance(v, Comp):
                out = [c for c in v.cells if c[0] < n // 8]
                return self.join(out, n // 8, t2)
            if isinstance(v, (RBits, Fn)):
                raise Unsupported('trunc of bits')
            if n == 1:
                if v.sort == 'B':
                    return v
                if v.op == 'ite' and tm._small_ite(v):
                    return tm.ite(v.args[0], self.cast(s, op, t1, v.args[1], t2, ()),
                                  self.cast(s, op, t1, v.args[2], t2, ()))
                return tm.eq(tm.imod(v, I(2)), I(1))
            return wrapi(v, n)
        if op == 'zext':
            if t1[1] == 1:
                return tm.ite(v, I(1), I(0))
            if isinstance(v, (RBits, Comp)):
                raise Unsupported('zext of bits')
            if 'nneg' in flags:
                return v
            return unsigned(v, t1[1])
        if op == 'sext':
            if t1[1] == 1:
                return tm.ite(v, I(-1), I(0))
            return v
        if op in ('sitofp', 'uitofp'):
            if t1[1] == 1:
                return tm.ite(v, R(1 if op[0] == 'u' else -1), R(0))
            if op == 'uitofp':
                v = unsigned(v, t1[1])
            return tm.to_real(v)
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, Inf):
                raise Unsupported('conversion of non-finite to integer')
            return tm.trunc_(v)
        if op in ('fpext', 'fptrunc'):
            return v
        if op == 'ptrtoint':
            return self.ptrtoint(s, v)
        if op == 'inttoptr':
            return self.inttoptr(s, v)
        if op in ('bitcast', 'addrspacecast'):
            if t1[0] == 'double' and t2[0] == 'int':
                return self.retype(s, v, t2)
            if t1[0] == 'int' and t2[0] == 'double':
                return self.retype(s, v, t2)
            return v
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ stepping
    def goto(self, s, label):
        f = s.frames[-1]
        prev = f.label
        blk = f.fn.block(label)
        vals = []
        i = 0
        for ins in blk:
            if ins.op != 'phi':
                break
            v = ins.a.get(prev)
            if v is None:
                raise Unsupported('phi without incoming edge')
            vals.append((ins.res, self.val(s, ins.ty, v)))
            i += 1
        f.label = label
        f.idx = i
        if s.cut or f.cuts:
            vals = self.loop_cut(s, f, label, prev, vals, blk)
        for r, v in vals:
            f.regs[r] = v
        return None

    def step(self, s):
        f = s.frames[-1]
        ins = f.fn.block(f.label)[f.idx]
        f.idx += 1
        op = ins.op
        regs = f.regs
        if op in ir.BIN:
            a = self.val(s, ins.ty, ins.a[0])
            b = self.val(s, ins.ty, ins.a[1])
            regs[ins.res] = self.binop(s, op, ins.ty, a, b, ins.flags)
            return None
        if op in ir.CASTS:
            v = self.val(s, ins.a[0], ins.a[1])
            regs[ins.res] = self.cast(s, op, ins.a[0], v, ins.ty, ins.flags)
            return None
        h = getattr(self, 'i_' + op, None)
        if h is None:
            raise Unsupported('instruction ' + op + ' ' + str(ins.a)[:100])
        try:
            return h(s, f, ins)
        except NeedFork as nf:
            # fork on the feasible concrete offsets
            out = []
            f.idx -= 1
            first = True
            states = []
            for e, v, k in nf.cands:
                s2 = s.fork()
                s2.pc.append(e)
                self.rewrite_off(s2, nf.off, k)
                states.append(s2)
            s.frames = []
            return self.adopt(s, states)

    def adopt(self, s, states):
        """continue with states[0] in s, queue the others"""
        first = states[0]
        for a in ('frames', 'mem', 'pc', 'nobj', 'addr', 'names', 'contracts', 'globals', 'exc', 'trace'):
            setattr(s, a, getattr(first, a))
        s.sid = first.sid
        return states[1:]

    def rewrite_off(self, s, off, k):
        f = s.frames[-1]
        for r, v in list(f.regs.items()):
            if isinstance(v, P) and v.off is off:
                f.regs[r] = P(v.obj, k)
            elif v is off:
                f.regs[r] = I(k)

    def i_fneg(self, s, f, ins):
        v = self.val(s, ins.ty, ins.a[0])
        if isinstance(v, Inf):
            v = Inf({'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}[v.k])
        elif v is not UNDEF:
            v = tm.neg(v)
        f.regs[ins.res] = v

    def i_icmp(self, s, f, ins):
        a = self.val(s, ins.ty, ins.a[1])
        b = self.val(s, ins.ty, ins.a[2])
        f.regs[ins.res] = self.icmp(s, ins.a[0], ins.ty, a, b)

    def i_fcmp(self, s, f, ins):
        a = self.val(s, ins.ty, ins.a[1])
        b = self.val(s, ins.ty, ins.a[2])
        f.regs[ins.res] = self.fcmp(ins.a[0], a, b)

    def i_load(self, s, f, ins):
        p = self.val(s, ('ptr',), ins.a[0])
        f.regs[ins.res] = self.load(s, p, ins.ty)

    def i_store(self, s, f, ins):
        v = self.val(s, ins.ty, ins.a[0])
        p = self.val(s, ('ptr',), ins.a[1])
        self.store(s, p, ins.ty, v)

    def i_getelementptr(self, s, f, ins):
        ops = [(t, self.val(s, t, v)) for t, v in ins.a]
        f.regs[ins.res] = self.gep(s, ins.ty, ops)

    def i_alloca(self, s, f, ins):
        n = 1
        if ins.a[0] is not None:
            n = conc(self.val(s, ins.a[0][0], ins.a[0][1]))
            if n is None:
                raise Unsupported('symbolic alloca')
        p = s.new_obj(self.mod.size(ins.ty) * n, ins.res)
        f.allocas.append(p.obj)
        f.regs[ins.res] = p

    def i_nop(self, s, f, ins):
        return None

    def i_freeze(self, s, f, ins):
        v = self.val(s, ins.ty, ins.a[0])
        if v is UNDEF:
            v = self.zero(ins.ty)
        f.regs[ins.res] = v

    def i_jmp(self, s, f, ins):
        return self.goto(s, ins.a[0])

    def i_br(self, s, f, ins):
        c = self.val(s, ('int', 1), ins.a[0])
        if c is UNDEF:
            self.undefined(s, 'branch on an indeterminate value')
        rs = self.fork_on(s, c)
        if len(rs) > 1 and s.cut:
            for st, tv in rs:
                self.mark_symbolic_exit(st.frames[-1], (ins.a[1], ins.a[2]))
        more = []
        for st, tv in rs:
            m = None
            if st is s:
                continue
            try:
                m = self.goto(st, ins.a[1] if tv else ins.a[2])
                more.append(st)
                if m:
                    more.extend(m)
            except PathEnd:
                pass
        for st, tv in rs:
            if st is s:
                try:
                    m = self.goto(s, ins.a[1] if tv else ins.a[2])
                    if m:
                        more.extend(m)
                except PathEnd:
                    if more:
                        nxt = more.pop()
                        self.adopt(s, [nxt])
                    else:
                        raise
        return more

    def i_switch(self, s, f, ins):
        v = self.val(s, ins.ty, ins.a[0])
        d = ins.a[1]
        if v is UNDEF:
            self.undefined(s, 'switch on an indeterminate value')
        n = ins.ty[1]
        c = conc(v)
        if c is not None:
            for k, lb in ins.a[2]:
                if norm(k, n) == c:
                    return self.goto(s, lb)
            return self.goto(s, d)
        states = []
        cur = s
        # group by label
        groups = {}
        order = []
        for k, lb in ins.a[2]:
            e = tm.eq(v, I(norm(k, n)))
            if lb not in groups:
                groups[lb] = []
                order.append(lb)
            groups[lb].append(e)
        opts = [(tm.or_(*groups[lb]), lb) for lb in order]
        opts.append((tm.and_(*[tm.not_(o[0]) for o in opts]), d))
        live = [(c, lb) for c, lb in opts if c is not FALSE and self.feas.feasible(s.pc, c)]
        if not live:
            raise PathEnd()
        more = []
        for c, lb in live[1:]:
            s2 = s.fork()
            self.assume(s2, c)
            m = self.goto(s2, lb)
            more.append(s2)
            if m:
                more.extend(m)
        self.assume(s, live[0][0])
        m = self.goto(s, live[0][1])
        if m:
            more.extend(m)
        return more

    def i_select(self, s, f, ins):
        c = self.val(s, ('int', 1), ins.a[0])
        a = self.val(s, ins.ty, ins.a[1])
        b = self.val(s, ins.ty, ins.a[2])
        if c is UNDEF:
            f.regs[ins.res] = UNDEF
            return
        if isinstance(c, list):
            f.regs[ins.res] = [x if cc is TRUE else y if cc is FALSE else tm.ite(cc, x, y) for cc, x, y in zip(c, a, b)]
            return
        if c is TRUE:
            f.regs[ins.res] = a
            return
        if c is FALSE:
            f.regs[ins.res] = b
            return
        if self.simplify_branches and isinstance(c, T) and any(x.sort == 'R' for x in tm.subterms([c])):
            k = self.known_condition(s, c)
            if k is not None:
                self.assume(s, c if k else tm.not_(c))
                f.regs[ins.res] = a if k else b
                return
        if isinstance(a, T) and isinstance(b, T):
            f.regs[ins.res] = tm.ite(c, a, b)
            return
        if isinstance(a, P) and isinstance(b, P) and a.obj == b.obj:
            f.regs[ins.res] = P(a.obj, tm.ite(c, asI(a.off), asI(b.off)))
            return
        if isinstance(a, RBits) and isinstance(b, RBits) and isinstance(a.r, T) and isinstance(b.r, T):
            f.regs[ins.res] = RBits(tm.ite(c, a.r, b.r))
            return
        rs = self.fork_on(s, c)
        more = []
        for st, tv in rs:
            st.frames[-1].regs[ins.res] = a if tv else b
            if st is not s:
                more.append(st)
        return more

    def i_extractvalue(self, s, f, ins):
        v = self.val(s, ins.ty, ins.a[0])
        for i in ins.a[1]:
            if v is UNDEF:
                break
            v = v[i]
        f.regs[ins.res] = v

    def i_insertvalue(self, s, f, ins):
        v = self.val(s, ins.ty, ins.a[0])
        x = self.val(s, ins.a[1], ins.a[2])

        def ins_(v, ty, idx):
            ty = self.mod.resolve(ty)
            if not idx:
                return x
            if v is UNDEF:
                n = len(ty[1]) if ty[0] == 'struct' else ty[1]
                v = [UNDEF] * n
            v = list(v)
            sub = ty[1][idx[0]] if ty[0] == 'struct' else ty[2]
            v[idx[0]] = ins_(v[idx[0]], sub, idx[1:])
            return v
        f.regs[ins.res] = ins_(v, ins.ty, ins.a[3])

    def i_extractelement(self, s, f, ins):
        v = self.val(s, ins.ty, ins.a[0])
        i = conc(self.val(s, ('int', 64), ins.a[1]))
        f.regs[ins.res] = UNDEF if v is UNDEF else v[i]

    def i_insertelement(self, s, f, ins):
        v = self.val(s, ins.ty, ins.a[0])
        x = self.val(s, ins.ty[2], ins.a[1])
        i = conc(self.val(s, ('int', 64), ins.a[2]))
        v = [UNDEF] * ins.ty[1] if v is UNDEF else list(v)
        v[i] = x
        f.regs[ins.res] = v

    def i_shufflevector(self, s, f, ins):
        a = self.val(s, ins.ty, ins.a[0])
        b = self.val(s, ins.ty, ins.a[1])
        m = ins.a[2]
        n = ins.ty[1]
        a = [UNDEF] * n if a is UNDEF else a
        b = [UNDEF] * n if b is UNDEF else b
        both = list(a) + list(b)
        if m[0] == 'zero':
            raise Unsupported('shuffle splat mask')
        out = []
        for t, x in m[2]:
            out.append(UNDEF if x[0] == 'undef' else both[x[2]])
        f.regs[ins.res] = out

    def i_atomicrmw(self, s, f, ins):
        k, pv, v = ins.a
        p = self.val(s, ('ptr',), pv)
        x = self.val(s, ins.ty, v)
        old = self.load(s, p, ins.ty)
        if k == 'xchg':
            new = x
        else:
            new = self.binop(s, k, ins.ty, old, x, ())
        self.store(s, p, ins.ty, new)
        f.regs[ins.res] = old

    def i_cmpxchg(self, s, f, ins):
        raise Unsupported('cmpxchg')

    def i_unreachable(self, s, f, ins):
        self.oblige(s, 'safety(unreachable code reached)', FALSE, 'safety')
        raise PathEnd()

    def i_unsupported(self, s, f, ins):
        raise Unsupported(str(ins.a[0])[:120])

    # ------------------------------------------------------------ calls
    def i_call(self, s, f, ins):
        cal, args = ins.a
        return self.do_call(s, f, ins, cal, args)

    def i_invoke(self, s, f, ins):
        cal, args, n1, n2 = ins.a
        return self.do_call(s, f, ins, cal, args)

    def do_call(self, s, f, ins, cal, args):
        if cal[0] == 'loc':
            fp = f.regs[cal[1]]
        else:
            fp = self.globaddr(s, cal[1])
        if not isinstance(fp, Fn):
            raise Unsupported('call through %r' % (fp,))
        name = fp.name
        if name.startswith('@llvm.dbg') or name.startswith('@llvm.lifetime') or \
           name.startswith('@llvm.experimental.noalias'):
            return None
        vals = [self.val(s, t, v) for t, v in args]
        key = name
        if s.contracts and name in s.contracts:
            stub, below = s.contracts[name]
            # 'below': induction hypothesis, for calls made while the function itself is being verified
            if not below or any(fr.fn.name == name for fr in s.frames):
                self.contracts_used.add(name)
                name = stub
        if self.opaque_text and ('to_stringB5cxx11' in name or name.startswith('@_ZNSt7__cxx119to_stringE')):
            _str_set(self, s, vals[0], [I(63)])         # unspecified text
            return self.goto(s, ins.a[2]) if ins.op == 'invoke' else None
        fn = self.mod.functions.get(name)
        if fn is not None and not name.startswith('@vc_'):
            if len(s.frames) > 400:
                raise Unsupported('call depth')
            fn.parse()
            self.fn_executed.add(name)
            for k, t in fn.byval.items():
                n = self.mod.size(t)
                q = s.new_obj(n, 'byval')
                self.memcpy(s, q, vals[k], n)
                vals[k] = q
            nf = Frame(fn)
            nf.ret = ins
            for (t, nm), v in zip(fn.params, vals):
                nf.regs[nm] = v
            s.frames.append(nf)
            return None
        r = self.external(s, f, ins, name, vals, args)
        if isinstance(r, Throw):
            return self.unwind(s, r)
        if isinstance(r, ForkResult):
            more = []
            for st, v in r.items:
                fr = st.frames[-1]
                if ins.res is not None:
                    fr.regs[ins.res] = v
                if ins.op == 'invoke':
                    m = self.goto(st, ins.a[2])
                    if m:
                        more.extend(m)
                if st is not s:
                    more.append(st)
            return more
        if ins.res is not None:
            f.regs[ins.res] = r
        if ins.op == 'invoke':
            return self.goto(s, ins.a[2])
        return None

    def i_ret(self, s, f, ins):
        v = None
        if ins.a[0] is not None:
            v = self.val(s, ins.ty, ins.a[0])
        if any(c[0] == 'any' for c in f.cuts.values()):
            raise PathEnd()
        s.frames.pop()
        for o in f.allocas:
            s.mem.pop(o, None)
        if not s.frames:
            self.ended += 1
            self.covers.setdefault('#end', []).append(list(s.pc))
            raise PathEnd()
        call = f.ret
        cf = s.frames[-1]
        if call.res is not None:
            cf.regs[call.res] = v
        if call.op == 'invoke':
            return self.goto(s, call.a[2])
        return None

    # ------------------------------------------------------------ exceptions
    def unwind(self, s, th):
        s.exc.append(th)
        # the current frame executed the call
        while s.frames:
            f = s.frames[-1]
            ins = f.fn.block(f.label)[f.idx - 1]
            if ins.op == 'invoke':
                return self.goto(s, ins.a[3])
            if any(c[0] == 'any' for c in f.cuts.values()):
                raise PathEnd()
            s.frames.pop()
            for o in f.allocas:
                s.mem.pop(o, None)
        self.oblige(s, 'no-exception-escapes', FALSE, 'safety')
        raise PathEnd()

    def typeinfo_bases(self, ti):
        out = [ti]
        if ti in STD_BASES:
            return out + STD_BASES[ti]
        g = self.mod.glob(ti)
        if g and g.get('init') and g['init'][0] == 'agg':
            for t, v in g['init'][2]:
                if v[0] == 'glob' and v[1].startswith('@_ZTI'):
                    out += self.typeinfo_bases(v[1])
        return out

    def typeid(self, ti):
        self.ti = getattr(self, 'ti', {})
        return self.ti.setdefault(ti, len(self.ti) + 1)

    def i_landingpad(self, s, f, ins):
        th = s.exc[-1]
        bases = self.typeinfo_bases(th.ti) if th.ti else []
        sel = 0
        for c in ins.a:
            if c[0] == 'cleanup':
                continue
            if c[0] == 'catch':
                v = c[1]
                if v[0] == 'null':
                    sel = self.typeid('null')
                    break
                if v[0] == 'glob' and v[1] in bases:
                    sel = self.typeid(v[1])
                    break
        if sel == 0 and not any(c[0] == 'cleanup' for c in ins.a):
            # no handler here: continue unwinding
            s.frames.pop()
            s.exc.pop()
            return self.unwind(s, th)
        f.regs[ins.res] = [th.p, I(sel)]

    def i_resume(self, s, f, ins):
        th = s.exc.pop()
        s.frames.pop()
        for o in f.allocas:
            s.mem.pop(o, None)
        return self.unwind(s, th)

    # ------------------------------------------------------------ externals
    def cstr(self, s, p):
        o = s.mem[p.obj]
        off = conc(p.off)
        out = []
        while True:
            c = self.load_at(s, o, off, ('int', 8), 1)
            k = conc(c)
            if k is None:
                raise Unsupported('symbolic string')
            if k == 0:
                break
            out.append(chr(k & 255))
            off += 1
        return ''.join(out)

    def fresh_name(self, s, name):
        n = s.names.get(name, 0)
        s.names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def external(self, s, f, ins, name, v, args):
        n = name[1:]
        h = EXT.get(n)
        if h is not None:
            return h(self, s, v, args)
        if n.startswith('vc_'):
            return getattr(self, 'x_' + n)(s, v, args)
        if n.startswith('llvm.'):
            return self.intrinsic(s, n, v, args, ins)
        m = MATH.get(n)
        if m is not None:
            if any(x is UNDEF for x in v):
                return UNDEF
            if any(isinstance(x, Inf) for x in v):
                return self.mathinf(n, v)
            return m(self, s, *v)
        raise Unsupported('external function ' + n)

    def mathinf(self, n, v):
        if n in ('fmin', 'fmax', 'fminl', 'fmaxl'):
            a, b = v
            if isinstance(a, Inf) and isinstance(b, T):
                a, b = b, a
            if isinstance(b, Inf) and isinstance(a, T):
                if b.k == 'nan':
                    return a
                big = (b.k == 'inf')
                return b if big == (n == 'fmax') else a
        if n == 'fabs' and v[0].k != 'nan':
            return Inf('inf')
        raise Unsupported('math function %s of non-finite value' % n)

    def intrinsic(self, s, n, v, args, ins):
        base = re.sub(r'(\.(f64|f32|f80|i\d+|p0|v\d+\w+))+$', '', n)[5:]
        if base in ('memcpy', 'memmove'):
            self.memcpy(s, v[0], v[1], v[2])
            return None
        if base == 'memset':
            self.memset(s, v[0], v[1], v[2])
            return None
        if base in ('assume', 'prefetch', 'donothing', 'stacksave', 'stackrestore', 'va_start', 'va_end',
                    'invariant.start', 'invariant.end'):
            return NULL
        if base in ('expect', 'launder.invariant.group', 'strip.invariant.group', 'expect.with.probability',
                    'ssa.copy', 'threadlocal.address'):
            return v[0]
        if base == 'eh.typeid.for':
            t, op = args[0]
            nm = op[1] if op[0] == 'glob' else 'null'
            return I(self.typeid(nm))
        if base == 'trap':
            self.oblige(s, 'safety(trap)', FALSE, 'safety')
            raise PathEnd()
        if any(x is UNDEF for x in v):
            return UNDEF
        if base in ('smax', 'smin', 'umax', 'umin', 'abs'):
            w = args[0][0][1]
            if isinstance(v[0], RBits):
                raise Unsupported('int min/max on bits')
            a = v[0]
            if base == 'abs':
                return tm.ite(tm.lt(a, I(0)), tm.neg(a), a)
            b = v[1]
            if base[0] == 'u':
                c = tm.lt(unsigned(a, w), unsigned(b, w))
            else:
                c = tm.lt(a, b)
            return tm.ite(c, b, a) if base.endswith('max') else tm.ite(c, a, b)
        m = {'fabs': 'fabs', 'sqrt': 'sqrt', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'pow': 'pow', 'exp': 'exp',
             'log': 'log', 'sin': 'sin', 'cos': 'cos', 'minnum': 'fmin', 'maxnum': 'fmax', 'copysign': 'copysign',
             'log10': 'log10', 'round': 'round', 'rint': 'rint', 'exp2': 'exp2', 'log2': 'log2', 'powi': 'powi',
             'ldexp': 'ldexp'}.get(base)
        if m:
            if any(isinstance(x, Inf) for x in v):
                return self.mathinf(m, v)
            return MATH[m](self, s, *v)
        if base == 'fmuladd' or base == 'fma':
            return self.fbin('fadd', self.fbin('fmul', v[0], v[1]), v[2])
        if base in ('uadd.with.overflow', 'sadd.with.overflow', 'usub.with.overflow', 'ssub.with.overflow',
                    'umul.with.overflow', 'smul.with.overflow'):
            w = args[0][0][1]
            a, b = v
            if base[0] == 'u':
                a, b = unsigned(a, w), unsigned(b, w)
                lo, hi = 0, (1 << w) - 1
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            r = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul}[base[1:4]](a, b)
            o = tm.or_(tm.lt(r, I(lo)), tm.lt(I(hi), r))
            return [tm.ite(o, wrapi(r, w), wrapi(r, w)) if o is not FALSE else r, o]
        if base in ('uadd.sat', 'usub.sat'):
            w = args[0][0][1]
            a, b = unsigned(v[0], w), unsigned(v[1], w)
            if base == 'usub.sat':
                return tm.ite(tm.lt(a, b), I(0), tm.sub(a, b))
            return tm.add(a, b)
        if base == 'ctpop':
            a = v[0]
            lo, hi = tm.ival(a)
            if lo is not None and lo >= 0 and hi is not None and hi < (1 << 24):
                return tm.add(I(0), *[tm.imod(tm.idiv(a, I(1 << j)), I(2)) for j in range(hi.bit_length())])
            raise Unsupported('ctpop')
        if base in ('cttz', 'ctlz'):
            c = conc(v[0])
            w = args[0][0][1]
            if c is not None:
                c %= (1 << w)
                if base == 'cttz':
                    return I(w if c == 0 else (c & -c).bit_length() - 1)
                return I(w - c.bit_length())
            lo, hi = tm.ival(v[0])
            raise Unsupported(base)
        if base in ('fshl', 'fshr'):
            w = args[0][0][1]
            k = conc(v[2])
            if k is not None and v[0] is v[1]:
                k %= w
                u = unsigned(v[0], w)
                if base == 'fshl':
                    k = (w - k) % w
                # rotate right by k
                r = tm.add(tm.idiv(u, I(1 << k)), tm.mul(I(1 << (w - k)), tm.imod(u, I(1 << k))))
                return r
            raise Unsupported(base)
        if base == 'is.constant':
            return FALSE
        if base == 'objectsize':
            return I(-1)
        if base == 'is.fpclass':
            return FALSE
        if base.startswith('vector.reduce'):
            raise Unsupported(n)
        raise Unsupported('intrinsic ' + n)

    # ---- contract primitives
    def x_vc_real(self, s, v, args):
        name = self.fresh_name(s, self.cstr(s, v[0]))
        self.inputs.setdefault(name, ('R',))
        return tm.var(name, 'R')

    def x_vc_int(self, s, v, args):
        name = self.fresh_name(s, self.cstr(s, v[0]))
        lo, hi = conc(v[1]), conc(v[2])
        self.inputs.setdefault(name, ('I', lo, hi))
        if lo is not None and lo == hi:
            return I(lo)
        t = tm.var(name, 'I', lo, hi)
        if lo is not None:
            s.pc.append(tm.mk('<=', (I(lo), t), 'B'))
        else:
            self.assume(s, tm.le(v[1], t))
        if hi is not None:
            s.pc.append(tm.mk('<=', (t, I(hi)), 'B'))
        else:
            self.assume(s, tm.le(t, v[2]))
        return t

    def x_vc_bool(self, s, v, args):
        name = self.fresh_name(s, self.cstr(s, v[0]))
        self.inputs.setdefault(name, ('B',))
        return tm.var(name, 'B')

    def x_vc_choose(self, s, v, args):
        """integer input enumerated concretely (complete case split over lo..hi)"""
        name = self.fresh_name(s, self.cstr(s, v[0]))
        lo, hi = conc(v[1]), conc(v[2])
        if lo is None or hi is None:
            raise Unsupported('vc_choose bounds')
        self.inputs.setdefault(name, ('I', lo, hi))
        var = tm.var(name, 'I', lo, hi)
        items = []
        for k in range(lo, hi + 1):
            st = s if k == hi else s.fork()
            st.pc.append(tm.mk('=', (I(k), var), 'B'))
            items.append((st, I(k)))
        return ForkResult(items)

    def x_vc_concretize(self, s, v, args):
        x = v[0]
        if conc(x) is not None:
            return x
        lo, hi = tm.ival(x)
        if lo is None or hi is None or hi - lo > 4096:
            raise Unsupported('vc_concretize of unbounded value')
        items = []
        live = [k for k in range(lo, hi + 1) if self.feas.feasible(s.pc, tm.eq(x, I(k)))]
        if not live:
            raise PathEnd()
        for k in live:
            st = s if k == live[-1] else s.fork()
            self.assume(st, tm.eq(x, I(k)))
            items.append((st, I(k)))
        return ForkResult(items)

    def x_vc_assume(self, s, v, args):
        c = v[0]
        if c is UNDEF:
            raise Unsupported('assume undef')
        self.assume(s, c)
        if c.op not in ('c',):
            if not self.feas.feasible(s.pc, TRUE):
                raise PathEnd()

    def x_vc_assert(self, s, v, args):
        name = self.cstr(s, v[0])
        c = v[1]
        if c is UNDEF:
            self.oblige(s, name, FALSE, 'assert')
            return
        if isinstance(c, T) and c.sort == 'I':
            c = tm.not_(tm.eq(c, I(0)))
        self.oblige(s, name, c, 'assert')

    def x_vc_assert_eq(self, s, v, args):
        name = self.cstr(s, v[0])
        a, b = v[1], v[2]
        if a is UNDEF or b is UNDEF or isinstance(a, Inf) or isinstance(b, Inf):
            self.oblige(s, name, B(isinstance(a, Inf) and isinstance(b, Inf) and a.k == b.k), 'assert')
            return
        self.oblige(s, name, tm.eq(a, b), 'eq', (a, b))

    def x_vc_lemma(self, s, v, args):
        self.x_vc_assert(s, v, args)
        self.assume(s, self.obligations[-1].goal)

    def x_vc_lemma_eq(self, s, v, args):
        self.x_vc_assert_eq(s, v, args)
        g = self.obligations[-1].goal
        self.assume(s, g)

    def x_vc_record(self, s, v, args):
        return None

    def x_vc_assert_le(self, s, v, args):
        name = self.cstr(s, v[0])
        a, b = v[1], v[2]
        if a is UNDEF or b is UNDEF:
            self.oblige(s, name, FALSE, 'assert')
            return
        if isinstance(a, Inf) or isinstance(b, Inf):
            self.oblige(s, name, self.fcmp('ole', a, b), 'assert')
            return
        self.oblige(s, name, tm.le(a, b), 'assert')

    def x_vc_assert_ieq(self, s, v, args):
        name = self.cstr(s, v[0])
        a, b = v[1], v[2]
        if a is UNDEF or b is UNDEF:
            self.oblige(s, name, FALSE, 'assert')
            return
        self.oblige(s, name, tm.eq(a, b), 'assert')

    def x_vc_uf(self, s, v, args):
        name = self.cstr(s, v[0])
        n = conc(v[1])
        xs = v[2:2 + n]
        return tm.uf('u_' + name, xs, 'R')

    def x_vc_ufi(self, s, v, args):
        name = self.cstr(s, v[0])
        n = conc(v[1])
        t = tm.uf('ui_' + name, v[2:2 + n], 'I')
        if t.op == 'uf':                                    # its values are machine integers
            for c in (tm.mk('<=', (I(-2**63), t), 'B'), tm.mk('<=', (t, I(2**63 - 1)), 'B')):
                if not any(c is x for x in s.pc):
                    s.pc.append(c)
        return t

    def x_vc_ufr(self, s, v, args):
        name = self.cstr(s, v[0])
        n = conc(v[1])
        return tm.uf('ur_' + name, v[2:2 + n], 'R')

    def x_vc_cover(self, s, v, args):
        name = self.cstr(s, v[0])
        self.covers.setdefault(name, []).append(list(s.pc))

    def x_vc_use_contract(self, s, v, args):
        name = self.cstr(s, v[0])
        t = self.contract_table.get(name)
        if t is None:
            raise Unsupported('no contract named ' + name)
        s.contracts[t[0]] = (t[1], False)

    def x_vc_use_hypothesis(self, s, v, args):
        name = self.cstr(s, v[0])
        t = self.contract_table.get(name)
        if t is None:
            raise Unsupported('no contract named ' + name)
        s.contracts[t[0]] = (t[1], True)

    def x_vc_drop_contract(self, s, v, args):
        name = self.cstr(s, v[0])
        t = self.contract_table.get(name)
        s.contracts.pop(t[0], None)

    def x_vc_is_proof(self, s, v, args):
        return I(1)

    def x_vc_axiom(self, s, v, args):
        """lemma-free assumption about an uninterpreted function (listed as trusted)"""
        self.assumption_notes.add(self.cstr(s, v[0]))
        self.assume(s, v[1])

    def x_vc_bind(self, s, v, args):
        self.fresh_n += 1
        t = tm.var('%s@%d' % (self.cstr(s, v[0]), self.fresh_n), 'R')
        self.assume(s, tm.eq(t, v[1]))
        return t

    def x_vc_note(self, s, v, args):
        self.assumption_notes.add(self.cstr(s, v[0]))

    # ------------------------------------------------------------ loop cuts
    # A loop whose exit depends on symbolic values is cut: every exit of the loop
    # happens either in its first iteration (executed as it is), or in an iteration
    # that begins in the state some iteration before it left behind.  So after the
    # first iteration everything the loop modifies is replaced by arbitrary values,
    # one iteration runs from there to the loop header (phase 'any': exits and
    # obligations are those of the first iteration or of the next phase), and one
    # more iteration runs to every exit (phase 'last').  No unrolling bound.
    def loops_of(self, fn):
        li = self.loopinfo.get(fn.name)
        if li is not None:
            return li
        succ = {}
        for lb in fn.order:
            t = fn.block(lb)[-1]
            if t.op == 'br':
                succ[lb] = [t.a[1], t.a[2]]
            elif t.op == 'jmp':
                succ[lb] = [t.a[0]]
            elif t.op == 'switch':
                succ[lb] = [t.a[1]] + [x for _, x in t.a[2]]
            elif t.op == 'invoke':
                succ[lb] = [t.a[2], t.a[3]]
            else:
                succ[lb] = []
        entry = fn.entry
        pred = {lb: [] for lb in succ}
        for a, bs in succ.items():
            for b in bs:
                pred[b].append(a)
        every = set(succ)
        dom = {lb: set(every) for lb in succ}
        dom[entry] = {entry}
        change = True
        while change:
            change = False
            for lb in fn.order:
                if lb == entry:
                    continue
                ps = [dom[q] for q in pred[lb]]
                d = set.intersection(*ps) if ps else set()
                d = d | {lb}
                if d != dom[lb]:
                    dom[lb] = d
                    change = True
        loops = {}
        for a, bs in succ.items():
            for h in bs:
                if h in dom[a]:
                    body = loops.setdefault(h, {h})
                    stack = [a]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(pred[x])
        self.loopinfo[fn.name] = loops
        return loops

    def snapshot(self, s):
        State._n += 1
        s.sid = State._n            # later writes go to copies
        return dict(s.mem)

    def changed(self, s, snap):
        out = {}
        for oid, o in snap.items():
            n = s.mem.get(oid)
            if n is None or n is o:
                continue
            if n.zr != o.zr or n.alive != o.alive:
                raise Unsupported('loop cut: memory cleared or freed in the loop')
            for off in set(o.cells) | set(n.cells):
                x, y = o.cells.get(off), n.cells.get(off)
                if x is not y and not (x is not None and y is not None and x[0] == y[0] and same_value(x[1], y[1])):
                    out.setdefault(oid, set()).add(off)
        return out

    def arbitrary(self, s, ty, v, what):
        self.fresh_n += 1
        name = '%s~%d' % (what, self.fresh_n)
        if ty[0] == 'double' or (ty[0] == 'cell' and isinstance(v, T) and v.sort == 'R'):
            return tm.var(name, 'R')
        n = ty[1] * 8 if ty[0] == 'cell' else ty[1] if ty[0] == 'int' else None
        if ty[0] == 'int' and n == 1 or (isinstance(v, T) and v.sort == 'B'):
            return tm.var(name, 'B')
        if n is not None and isinstance(v, T) and v.sort == 'I':
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
            t = tm.var(name, 'I', lo, hi)
            s.pc.append(tm.mk('<=', (I(lo), t), 'B'))
            s.pc.append(tm.mk('<=', (t, I(hi)), 'B'))
            return t
        raise Unsupported('loop cut: a modified value of type %r' % (ty,))

    def loop_cut(self, s, f, label, prev, vals, blk):
        loops = self.loops_of(f.fn)
        for h in list(f.cuts):
            if label not in loops[h]:
                if f.cuts[h][0] == 'any':
                    raise PathEnd()
                if f.cuts[h][0] == 'last':
                    self.check_modified(s, f.cuts[h])
                del f.cuts[h]
        if label not in loops:
            return vals
        inside = prev in loops[label]
        if not inside:
            f.cuts[label] = ('first', self.snapshot(s), dict(vals), False)
            return vals
        c = f.cuts.get(label)
        if c is None:
            return vals                     # the loop was entered before cutting was asked for
        if c[0] == 'first':
            if not c[3]:
                return vals
            ch = self.changed(s, c[1])
            tys = {ins.res: ins.ty for ins in blk if ins.op == 'phi'}
            new, kept = [], {}
            for r, v in vals:
                if same_value(v, c[2][r]):
                    new.append((r, v))
                    kept[r] = v
                else:
                    new.append((r, self.arbitrary(s, tys[r], v, r.strip('%'))))
            for oid, offs in ch.items():
                o = s.wobj(oid)
                for off in offs:
                    cell = o.cells.get(off)
                    if cell is None:
                        raise Unsupported('loop cut: memory deallocated in the loop')
                    o.cells[off] = (cell[0], self.arbitrary(s, ('cell', cell[0]), cell[1], 'm'))
            self.loops_cut.append((f.fn.name, label))
            f.cuts[label] = ('any', self.snapshot(s), kept, ch)
            return new
        self.check_modified(s, c)
        for r, v in vals:
            if r in c[2] and not same_value(v, c[2][r]):
                raise Unsupported('loop cut: a value changed only after the first iteration')
        if c[0] == 'any':
            f.cuts[label] = ('last',) + c[1:]
            return vals
        raise PathEnd()

    def check_modified(self, s, c):
        for oid, offs in self.changed(s, c[1]).items():
            if not offs <= c[3].get(oid, set()):
                raise Unsupported('loop cut: memory modified only after the first iteration')

    def mark_symbolic_exit(self, f, targets):
        loops = self.loops_of(f.fn)
        for h, c in f.cuts.items():
            if c[0] == 'first' and not c[3] and f.label in loops[h] and any(t not in loops[h] for t in targets):
                f.cuts[h] = c[:3] + (True,)

    def x_vc_simplify_branches(self, s, v, args):
        self.simplify_branches = True

    def x_vc_opaque_text(self, s, v, args):
        self.opaque_text = True
        self.assumption_notes.add('text made by to_string is unspecified')

    def x_vc_assume_defined(self, s, v, args):
        self.assume_defined = True
        self.assumption_notes.add('defined arithmetic assumed: ' + self.cstr(s, v[0]))

    def x_vc_cut_loops(self, s, v, args):
        s.cut = True


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, P) and isinstance(b, P):
        return a.obj == b.obj and same_value(asI(a.off), asI(b.off))
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.name == b.name
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return False


class NeedFork(Exception):
    def __init__(self, cands, off):
        self.cands = cands
        self.off = off


class Throw:
    def __init__(self, p, ti):
        self.p = p
        self.ti = ti


class ForkResult:
    def __init__(self, items):
        self.items = items


# ---------------------------------------------------------------- helpers
def norm(x, n):
    """centre an integer constant into [-2^(n-1), 2^(n-1))"""
    m = 1 << n
    x %= m
    return x - m if x >= (m >> 1) and n > 1 else x


def conc(v):
    if isinstance(v, int):
        return v
    if isinstance(v, T) and v.op == 'c' and v.sort != 'R':
        return int(v.args[0])
    return None


def asI(x):
    return I(x) if isinstance(x, int) else x


def unsigned(t, n):
    lo, hi = tm.ival(t)
    if lo is not None and lo >= 0:
        return t
    if tm.isc(t):
        return I(tm.cv(t) % (1 << n))
    if hi is not None and hi < 0:
        return tm.add(t, I(1 << n))
    if t.op == '+':
        # a word packed from two parts: low + 2^k * high
        for x in t.args:
            if x.op == '*' and tm.isc(x.args[0]) and tm.cv(x.args[0]) > 1 and tm.cv(x.args[0]) & (tm.cv(x.args[0]) - 1) == 0:
                c = tm.cv(x.args[0])
                k = c.bit_length() - 1
                rest = tm.sub(t, x)
                l, h = tm.ival(rest)
                if k < n and l is not None and h is not None and l >= 0 and h < c:
                    return tm.add(rest, tm.mul(I(c), unsigned(tm.mul(*x.args[1:]) if len(x.args) > 2 else x.args[1], n - k)))
    r = tm.ite(tm.lt(t, I(0)), tm.add(t, I(1 << n)), t)
    if lo is not None and hi is not None and lo >= -(1 << (n - 1)) and hi < (1 << (n - 1)):
        r.iv = (0, (1 << n) - 1)
        _signed_of[r.id] = (t, n)
    return r


_signed_of = {}             # u -> (t, n): u is t read as an unsigned n-bit number, t within the signed range


def wrapi(t, n):
    lo, hi = tm.ival(t)
    q = _signed_of.get(t.id)
    if q is not None and q[1] == n:
        return q[0]
    if tm.isc(t):
        return I(norm(tm.cv(t), n))
    h = 1 << (n - 1)
    if lo is not None and hi is not None and lo >= -h and hi < h:
        return t
    r = tm.imod(t, I(1 << n))
    q = _signed_of.get(r.id)
    if q is not None and q[1] == n:
        return q[0]
    if r.op == '*' and len(r.args) == 2 and tm.isc(r.args[0]):
        # 2^k * (the unsigned reading of an (n - k)-bit number)
        q = _signed_of.get(r.args[1].id)
        if q is not None and tm.cv(r.args[0]) == 1 << (n - q[1]):
            return tm.mul(r.args[0], q[0])
    return tm.ite(tm.lt(r, I(h)), r, tm.sub(r, I(1 << n)))


def sdiv(a, b):
    la, _ = tm.ival(a)
    lb, _ = tm.ival(b)
    an = la is not None and la >= 0
    bp = lb is not None and lb >= 0
    if lb is not None and lb > 0:
        q = tm.exact_quotient(a, b)
        if q is not None:
            return q
    if an and bp:
        return tm.idiv(a, b)
    if bp:
        return tm.ite(tm.le(I(0), a), tm.idiv(a, b), tm.neg(tm.idiv(tm.neg(a), b)))
    return tm.mk('sdiv', (a, b), 'I')


def srem(a, b):
    la, _ = tm.ival(a)
    lb, _ = tm.ival(b)
    an = la is not None and la >= 0
    bp = lb is not None and lb >= 0
    if an and bp:
        return tm.imod(a, b)
    if bp:
        return tm.ite(tm.le(I(0), a), tm.imod(a, b), tm.neg(tm.imod(tm.neg(a), b)))
    return tm.mk('srem', (a, b), 'I')


# ---------------------------------------------------------------- math library
def _fn(name):
    def h(ex, s, *v):
        return tm.uf(name, v, 'R')
    return h


def _pow(ex, s, x, y):
    if tm.isc(y):
        q = tm.cv(y)
        if q.denominator == 1 and abs(q) <= 16:
            k = abs(q.numerator)
            r = R(1)
            for _ in range(k):
                r = tm.mul(r, x)
            return r if q >= 0 else tm.rdiv(R(1), r)
        if q.denominator == 2 and abs(q) <= 8:
            r = tm.sqrt_(x)
            k = int(abs(q) - Fraction(1, 2))
            for _ in range(k):
                r = tm.mul(r, x)
            return r if q >= 0 else tm.rdiv(R(1), r)
    if tm.isc(x) and tm.cv(x) == 1:
        return R(1)
    if isinstance(x, T) and isinstance(y, T):
        import reason
        if x.op in ('/', 'c') and reason.positive(reason.Bounds(s.pc).iv(y)) and is_zero(ex, s, x):
            return R(0)
        # exponent laws, for positive bases: (a b)^y = a^y b^y, x^(-y) = 1 / x^y
        if not tm.isc(x):
            bounds = reason.Bounds(s.pc)
            pos = lambda t: (tm.isc(t) and tm.cv(t) > 0) or (not tm.isc(t) and reason.positive(bounds.iv(t)))
            if x.op == '/' and pos(x.args[0]) and pos(x.args[1]):
                return tm.rdiv(_pow(ex, s, x.args[0], y), _pow(ex, s, x.args[1], y))
            if x.op == '*' and all(pos(f) for f in x.args):
                r = R(1)
                for f in x.args:
                    r = tm.mul(r, _pow(ex, s, f, y))
                return r
            if negated(y) and pos(x):
                return tm.rdiv(R(1), tm.uf('pow', (x, tm.neg(y)), 'R'))
    return tm.uf('pow', (x, y), 'R')


def negated(y):
    if tm.isc(y):
        return tm.cv(y) < 0
    if y.op == '*':
        return sum(1 for f in y.args if tm.isc(f) and tm.cv(f) < 0) % 2 == 1
    if y.op == '/':
        return negated(y.args[0])
    return False


def _powi(ex, s, x, k):
    c = conc(k)
    if c is None:
        return tm.uf('pow', (x, tm.to_real(k)), 'R')
    return _pow(ex, s, x, R(c))


def _floor(ex, s, x):
    return tm.to_real(tm.floor_(x))


def _ceil(ex, s, x):
    return tm.neg(tm.to_real(tm.floor_(tm.neg(x))))


def _trunc(ex, s, x):
    return tm.to_real(tm.trunc_(x))


def _round(ex, s, x):
    return tm.ite(tm.le(R(0), x), tm.to_real(tm.floor_(tm.add(x, R(Fraction(1, 2))))),
                  tm.neg(tm.to_real(tm.floor_(tm.add(tm.neg(x), R(Fraction(1, 2)))))))


def _copysign(ex, s, a, b):
    if tm.isc(b):
        return tm.abs_(a) if tm.cv(b) >= 0 else tm.neg(tm.abs_(a))
    m = tm.abs_(a)
    return tm.ite(tm.lt(b, R(0)), tm.neg(m), m)


def _fmod(ex, s, a, b):
    if a is R(0):
        return a
    q = tm.trunc_(tm.rdiv(a, b))
    return tm.sub(a, tm.mul(b, tm.to_real(q)))


def _zero_at(name, value):
    def h(ex, s, x):
        if is_zero(ex, s, x):
            return R(value)
        return tm.uf(name, (x,), 'R')
    return h


def is_zero(ex, s, x):
    """the constant 0, or 0 / y (kept on the path: its definedness is checked)"""
    if tm.isc(x):
        return tm.cv(x) == 0
    y = x
    while y.op == '/':
        y = y.args[0]
    if y is not x and tm.isc(y) and tm.cv(y) == 0:
        ex.assume(s, tm.eq(x, R(0)))
        return True
    return False


def _summands(x):
    return list(x.args) if x.op == '+' else [x]


def _phase(x):
    """x = sign * rest + q * pi with q a multiple of 1/2 and a canonical sign of rest -> (rest, sign, q)"""
    q = Fraction(0)
    rest = []
    for y in _summands(x):
        m = pi_multiple(y)
        if m is not None and (2 * m).denominator == 1:
            q += m
        else:
            rest.append(y)
    if not rest:
        return None, 1, q
    r = tm.add(*rest) if len(rest) > 1 else rest[0]
    neg = 0
    lead = min(rest, key=lambda y: (y.args[1] if y.op == '*' and len(y.args) == 2 and tm.isc(y.args[0]) else y).id)
    if (lead.op == '*' and tm.isc(lead.args[0]) and tm.cv(lead.args[0]) < 0) or (tm.isc(lead) and tm.cv(lead) < 0):
        return tm.neg(r), -1, q
    return r, 1, q


def _trig(x, kind):
    """sin (kind 0) or cos (kind 1) in a normal form: sin(-x) = -sin(x), sin(x + pi/2) = cos(x), ..."""
    r, sg, q = _phase(x)
    n = int(2 * q) % 4                      # quarter turns
    if kind == 1:                           # cos(x) = sin(x + pi/2)
        n = (n + 1) % 4
    # sin(sg * r + n * pi / 2)
    if r is None:
        return R((0, 1, 0, -1)[n])
    m = pi_multiple(r)
    if m is not None:
        t = {0: {Fraction(1, 6): Fraction(1, 2), Fraction(5, 6): Fraction(1, 2)},
             1: {Fraction(1, 3): Fraction(1, 2), Fraction(2, 3): Fraction(-1, 2)}}[n % 2].get(m % 1)
        if t is not None:
            half = int(m // 1) % 2
            t = -t if half else t
            u = R(t)
        else:
            u = tm.uf('sin' if n % 2 == 0 else 'cos', (r,), 'R')
    else:
        u = tm.uf('sin' if n % 2 == 0 else 'cos', (r,), 'R')
    s = (sg if n % 2 == 0 else 1) * (1 if n < 2 else -1)
    return u if s == 1 else tm.neg(u)


def _sin(ex, s, x):
    return _trig(x, 0)


def _cos(ex, s, x):
    return _trig(x, 1)


def _tan(ex, s, x):
    c = _trig(x, 1)
    if c.op == 'uf' or c.args:
        # no double is an odd multiple of pi / 2: the tangent of a double is finite
        ex.assumption_notes.add('tangents are not taken at their poles (which are not doubles)')
        ex.assume(s, tm.not_(tm.eq(c, R(0))))
    return tm.rdiv(_trig(x, 0), c)


def pi_multiple(x):
    if x is PI:
        return Fraction(1)
    if tm.isc(x) and tm.cv(x) == 0:
        return Fraction(0)
    if x.op == '*' and len(x.args) == 2 and tm.isc(x.args[0]) and x.args[1] is PI:
        return tm.cv(x.args[0])
    return None


def _hypot(ex, s, a, b):
    return tm.sqrt_(tm.add(tm.mul(a, a), tm.mul(b, b)))


def _sincos(ex, s, x, p1, p2):
    ex.store(s, p1, ('double',), _sin(ex, s, x))
    ex.store(s, p2, ('double',), _cos(ex, s, x))
    return None


def _sqrt(ex, s, x):
    """square root; where the contract asked for simplification, the root of a
    value that field algebra identifies with a known square r * r > 0, r >= 0"""
    if ex.simplify_branches and isinstance(x, T) and x.op in ('+', '*', '/', 'v'):
        import field
        import prove
        import reason
        for c in s.pc:
            if c.op == '<' and c.args[0].op == 'c' and c.args[0].args[0] == 0 and c.args[1].op == '*' and len(c.args[1].args) == 2 \
                    and c.args[1].args[0] is c.args[1].args[1]:
                r = c.args[1].args[0]
                if not reason.nonnegative(reason.Bounds(s.pc).iv(r)):
                    continue
                try:
                    same = field.prove_eq(x, c.args[1])
                except field.TooBig:
                    same = None
                if same:
                    ex.assume(s, tm.eq(x, c.args[1]))       # kept on the path: its definedness is checked
                    return r
    return tm.sqrt_(x)


MATH = {
    'sqrt': _sqrt, 'fabs': lambda ex, s, x: tm.abs_(x),
    'floor': _floor, 'ceil': _ceil, 'trunc': _trunc, 'round': _round, 'rint': _round, 'nearbyint': _round,
    'pow': _pow, 'powi': _powi,
    'exp': _zero_at('exp', 1), 'sin': _sin, 'cos': _cos, 'tan': _tan,
    'sinh': _zero_at('sinh', 0), 'cosh': _zero_at('cosh', 1), 'tanh': _zero_at('tanh', 0),
    'asin': _zero_at('asin', 0), 'acos': _fn('acos'), 'atan': _zero_at('atan', 0), 'atan2': _fn('atan2'),
    'log': _fn('log'), 'log10': _fn('log10'), 'log2': _fn('log2'), 'exp2': _fn('exp2'), 'cbrt': _fn('cbrt'),
    'exp10': _fn('exp10'), 'expm1': _fn('expm1'), 'log1p': _fn('log1p'),
    'fmin': lambda ex, s, a, b: tm.min_(a, b), 'fmax': lambda ex, s, a, b: tm.max_(a, b),
    'copysign': _copysign, 'fmod': _fmod, 'hypot': _hypot, 'sincos': _sincos,
    'lround': lambda ex, s, x: tm.trunc_(_round(ex, s, x)),
    '__exp10_finite': _fn('exp10'),
}


# ---------------------------------------------------------------- library externals
def _new(ex, s, v, args):
    vals = ex.values_of(s, v[0])
    if vals is None:
        raise Unsupported('allocation of symbolic size')
    if not vals:
        raise PathEnd()
    if len(vals) == 1:
        return s.new_obj(vals[0], 'heap')
    items = []
    for k in vals:
        st = s if k == vals[-1] else s.fork()
        ex.assume(st, tm.eq(v[0], I(k)))
        items.append((st, st.new_obj(k, 'heap')))
    return ForkResult(items)


def _delete(ex, s, v, args):
    p = v[0]
    if isinstance(p, P) and p.obj != 0:
        o = s.wobj(p.obj)
        if not o.alive:
            ex.oblige(s, 'memory-safety(double free)', FALSE, 'safety')
            raise PathEnd()
        o.alive = False
        o.cells = {}
    return None


def _exc_object(ex, s, p):
    """what the constructor of a standard exception leaves behind: a vtable
    pointer through which what() can be called"""
    vt = s.new_obj(64, 'vtable of a standard exception')
    for k in (0, 8):
        ex.store(s, P(vt.obj, k), ('ptr',), Fn('@_vc_exception_destructor'))
    ex.store(s, P(vt.obj, 16), ('ptr',), Fn('@_vc_exception_what'))
    ex.store(s, p, ('ptr',), vt)
    return None


def _exc_ctor(ex, s, v, args):
    return _exc_object(ex, s, v[0])


def _exc_what(ex, s, v, args):
    p = s.new_obj(8, 'exception message')
    ex.store(s, p, ('int', 8), I(0))
    return p


def _throw_std(ti):
    def h(ex, s, v, args):
        p = s.new_obj(64, 'exception')
        _exc_object(ex, s, p)
        return Throw(p, ti)
    return h


def _cxa_throw(ex, s, v, args):
    t, op = args[1]
    ti = op[1] if op[0] == 'glob' else None
    if ti is None:
        p = v[1]
        if isinstance(p, Fn):
            ti = p.name
        elif isinstance(p, P):
            for nm, q in s.globals.items():
                if q.obj == p.obj:
                    ti = nm
        if ti is None:
            raise Unsupported('throw of an unknown type')
    return Throw(v[0], ti)


def _begin_catch(ex, s, v, args):
    return v[0]


def _end_catch(ex, s, v, args):
    if s.exc:
        s.exc.pop()
    return None


def _rethrow(ex, s, v, args):
    th = s.exc.pop() if s.exc else Throw(NULL, None)
    return th


def _nop(ex, s, v, args):
    return None


def _zero(ex, s, v, args):
    return I(0)


def _one(ex, s, v, args):
    return I(1)


def _strlen(ex, s, v, args):
    return I(len(ex.cstr(s, v[0])))


def _memcmp(ex, s, v, args):
    n = conc(v[2])
    if n is None:
        raise Unsupported('memcmp of symbolic length')
    a = [conc(ex.load_at(s, s.mem[v[0].obj], conc(v[0].off) + i, ('int', 8), 1)) for i in range(n)]
    b = [conc(ex.load_at(s, s.mem[v[1].obj], conc(v[1].off) + i, ('int', 8), 1)) for i in range(n)]
    if None in a or None in b:
        raise Unsupported('memcmp of symbolic bytes')
    for x, y in zip(a, b):
        if x != y:
            return I(-1 if (x & 255) < (y & 255) else 1)
    return I(0)


def _memchr(ex, s, v, args):
    n = conc(v[2])
    c = conc(v[1])
    for i in range(n):
        k = conc(ex.load_at(s, s.mem[v[0].obj], conc(v[0].off) + i, ('int', 8), 1))
        if k is None:
            raise Unsupported('memchr of symbolic bytes')
        if (k & 255) == (c & 255):
            return P(v[0].obj, conc(v[0].off) + i)
    return NULL


def _terminate(ex, s, v, args):
    ex.oblige(s, 'safety(terminate called)', FALSE, 'safety')
    raise PathEnd()


def _memfn(ex, s, v, args):
    ex.memcpy(s, v[0], v[1], v[2])
    return v[0]


# std::string (out-of-line members of the explicit instantiation in libstdc++):
# pointer, length, then 16 bytes of local buffer or the capacity
def _str_get(ex, s, p):
    q = ex.load(s, p, ('ptr',))
    n = conc(ex.load(s, P(p.obj, p.off + 8), ('int', 64)))
    if n is None:
        raise Unsupported('string of symbolic length')
    return _bytes_at(ex, s, q, n)


def _bytes_at(ex, s, q, n):
    if n is None:
        raise Unsupported('string of symbolic length')
    return [ex.load(s, P(q.obj, q.off + i), ('int', 8)) for i in range(n)]


def _str_set(ex, s, p, bs):
    if len(bs) < 16:
        q = P(p.obj, p.off + 16)
    else:
        q = s.new_obj(len(bs) + 1, 'heap')
        ex.store(s, P(p.obj, p.off + 16), ('int', 64), I(len(bs)))
    for i, b in enumerate(bs + [I(0)]):
        ex.store(s, P(q.obj, q.off + i), ('int', 8), b)
    ex.store(s, p, ('ptr',), q)
    ex.store(s, P(p.obj, p.off + 8), ('int', 64), I(len(bs)))
    return p


def _str_replace(ex, s, v, args):
    a = _str_get(ex, s, v[0])
    i, n = conc(v[1]), conc(v[2])
    if i is None or n is None:
        raise Unsupported('string replace at a symbolic position')
    return _str_set(ex, s, v[0], a[:i] + _bytes_at(ex, s, v[3], conc(v[4])) + a[i + n:])


def _str_erase(ex, s, v, args):
    a = _str_get(ex, s, v[0])
    i, n = conc(v[1]), conc(v[2])
    if i is None or n is None:
        raise Unsupported('string erase at a symbolic position')
    _str_set(ex, s, v[0], a[:i] + a[i + n:])


def _str_append(ex, s, v, args):
    return _str_set(ex, s, v[0], _str_get(ex, s, v[0]) + _bytes_at(ex, s, v[1], conc(v[2])))


def _str_assign(ex, s, v, args):
    _str_set(ex, s, v[0], _str_get(ex, s, v[1]))


def _str_create(ex, s, v, args):
    n = conc(ex.load(s, v[1], ('int', 64)))
    if n is None:
        raise Unsupported('string of symbolic length')
    return s.new_obj(n + 1, 'heap')


def _str_resize_fill(ex, s, v, args):
    # _M_replace_aux(pos, n1, n2, c)
    a = _str_get(ex, s, v[0])
    i, n, m = conc(v[1]), conc(v[2]), conc(v[3])
    if i is None or n is None or m is None:
        raise Unsupported('string replace at a symbolic position')
    return _str_set(ex, s, v[0], a[:i] + [v[4]] * m + a[i + n:])


def _str_construct_fill(ex, s, v, args):
    n = conc(v[1])
    if n is None:
        raise Unsupported('string of symbolic length')
    _str_set(ex, s, v[0], [v[2]] * n)


def _str_dispose(ex, s, v, args):
    return None


def _vsnprintf(ex, s, v, args):
    # a formatted number: unspecified text (only ever part of a message)
    ex.store(s, v[0], ('int', 8), I(63))
    ex.store(s, P(v[0].obj, v[0].off + 1), ('int', 8), I(0))
    return I(1)


def _str_find(ex, s, v, args):
    # find(char, from) / find(text, from, length)
    a = [conc(x) for x in _str_get(ex, s, v[0])]
    if isinstance(v[1], P):
        b = [conc(x) for x in _bytes_at(ex, s, v[1], conc(v[3]))]
    else:
        b = [conc(v[1])]
    i = conc(v[2])
    if i is None or None in a or None in b:
        raise Unsupported('search in symbolic text')
    a = [x & 255 for x in a]
    b = [x & 255 for x in b]
    for k in range(i, len(a) - len(b) + 1):
        if a[k:k + len(b)] == b:
            return I(k)
    return I(-1)


def _errno(ex, s, v, args):
    if 'errno' not in s.globals:
        s.globals['errno'] = s.new_obj(4, 'heap')
        ex.store(s, s.globals['errno'], ('int', 32), I(0))
    return s.globals['errno']


def _strtol(ex, s, v, args):
    t = ex.cstr(s, v[0])
    m = re.match(r'\s*[-+]?\d+', t)
    base = conc(v[2])
    if base != 10:
        raise Unsupported('strtol base')
    if not (isinstance(v[1], P) and v[1].obj is NULL.obj):
        ex.store(s, v[1], ('ptr',), P(v[0].obj, v[0].off + (m.end() if m else 0)))
    return I(int(m.group()) if m else 0)


def _strtod(ex, s, v, args):
    t = ex.cstr(s, v[0])
    m = re.match(r'\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?', t)
    if not (isinstance(v[1], P) and v[1].obj is NULL.obj):
        ex.store(s, v[1], ('ptr',), P(v[0].obj, v[0].off + (m.end() if m else 0)))
    return real_const(float(m.group())) if m else R(0)


def _first(ex, s, v, args):
    return v[0]


_S = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
EXT = {
    _S + '10_M_replaceEmmPKcm': _str_replace, _S + '8_M_eraseEmm': _str_erase, _S + '9_M_appendEPKcm': _str_append,
    _S + '9_M_assignERKS4_': _str_assign, _S + '9_M_createERmm': _str_create,
    _S + '14_M_replace_auxEmmmc': _str_resize_fill, _S + '12_M_constructEmc': _str_construct_fill, _S + '10_M_disposeEv': _str_dispose,
    _S + '7reserveEm': _nop, _S + 'D1Ev': _nop, _S + 'D2Ev': _nop,
    _S.replace('_ZN', '_ZNK') + '4findEcm': _str_find, _S.replace('_ZN', '_ZNK') + '4findEPKcmm': _str_find,
    '__errno_location': _errno, 'strtol': _strtol, '__isoc23_strtol': _strtol, 'strtod': _strtod,
    '_Znwm': _new, '_Znam': _new, 'malloc': _new,
    '_ZnwmSt11align_val_t': _new, '_ZdlPvmSt11align_val_t': _delete,
    '_ZdlPv': _delete, '_ZdaPv': _delete, '_ZdlPvm': _delete, '_ZdaPvm': _delete, 'free': _delete,
    '__cxa_allocate_exception': lambda ex, s, v, a: s.new_obj(64, 'exception'),
    '__cxa_free_exception': _nop, '__cxa_throw': _cxa_throw, '__cxa_begin_catch': _begin_catch,
    '__cxa_end_catch': _end_catch, '__cxa_rethrow': _rethrow, '__cxa_atexit': _zero,
    '__cxa_guard_acquire': _one, '__cxa_guard_release': _nop, '__cxa_guard_abort': _nop,
    '_ZSt9terminatev': _terminate, '__clang_call_terminate': _terminate, 'abort': _terminate,
    '__cxa_pure_virtual': _terminate, '__assert_fail': _terminate,
    '_ZSt17__throw_bad_allocv': _throw_std('@_ZTISt9bad_alloc'),
    '_ZSt28__throw_bad_array_new_lengthv': _throw_std('@_ZTISt9bad_alloc'),
    '_ZSt20__throw_length_errorPKc': _throw_std('@_ZTISt12length_error'),
    '_ZSt20__throw_out_of_rangePKc': _throw_std('@_ZTISt12out_of_range'),
    '_ZSt24__throw_out_of_range_fmtPKcz': _throw_std('@_ZTISt12out_of_range'),
    '_ZSt19__throw_logic_errorPKc': _throw_std('@_ZTISt11logic_error'),
    '_ZSt24__throw_invalid_argumentPKc': _throw_std('@_ZTISt16invalid_argument'),
    '_ZSt25__throw_bad_function_callv': _throw_std('@_ZTISt9exception'),
    '_ZSt27__throw_bad_optional_accessv': _throw_std('@_ZTISt9exception'),
    '_vc_exception_destructor': _nop, '_vc_exception_what': _exc_what,
    '_ZNSt12out_of_rangeC1EPKc': _exc_ctor, '_ZNSt12out_of_rangeD1Ev': _nop,
    '_ZNSt16invalid_argumentC1EPKc': _exc_ctor, '_ZNSt16invalid_argumentD1Ev': _nop,
    '_ZNSt11logic_errorC1EPKc': _exc_ctor, '_ZNSt11logic_errorD1Ev': _nop, '_ZNSt11logic_errorC2EPKc': _exc_ctor,
    '_ZNSt13runtime_errorC1EPKc': _exc_ctor, '_ZNSt13runtime_errorD1Ev': _nop,
    '_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': _exc_ctor,
    '_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': _exc_ctor,
    '_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': _exc_ctor,
    '_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': _exc_ctor,
    'vsnprintf': _vsnprintf, 'strlen': _strlen, 'memcmp': _memcmp, 'bcmp': _memcmp, 'memcpy': _memfn, 'memmove': _memfn, 'memchr': _memchr,
    'pthread_mutex_lock': _zero, 'pthread_mutex_unlock': _zero, '__pthread_key_create': _zero,
    '__gxx_personality_v0': _zero,
    '_ZNSt6localeC1Ev': _nop, '_ZNSt6localeD1Ev': _nop,
    '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': _first, '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_': _first, '_ZNSo3putEc': _first, '_ZNSo5flushEv': _first,
    '_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l': _first,
    'printf': _zero, 'puts': _zero, 'putchar': _zero, 'fflush': _zero,  # text printed on the terminal is not specified
}
