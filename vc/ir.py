"""Parser for the textual LLVM IR that clang/opt 18 print (opaque pointers)."""
import re
import struct
from fractions import Fraction

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_.][-a-zA-Z0-9_.$]*)
 | (?P<ell>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|])
 | (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('IR token: ' + s[pos:pos + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append(m.group())
        pos = m.end()
    return out


# Types: ('int',n) ('double',) ('float',) ('ptr',) ('void',) ('array',n,t) ('struct',[..],packed)
#        ('vec',n,t) ('named',name) ('label',) ('metadata',) ('x86_fp80',)
ATTRS = set('''noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg returned immarg
 writable dead_on_unwind nofree nest swiftself swifterror noreturn nounwind allocptr local_unnamed_addr
 unnamed_addr dso_local dso_preemptable internal private linkonce_odr linkonce weak weak_odr external available_externally
 common appending extern_weak hidden protected default thread_local externally_initialized fastcc ccc coldcc tail musttail notail
 nnan ninf nsz arcp contract afn reassoc fast noinline alwaysinline'''.split())


class Parser:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ''

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise SyntaxError('expected %s at %s' % (x, ' '.join(self.t[max(0, self.i - 5):self.i + 8])))
        self.i += 1

    # ------------------------------------------------------------ types
    def type(self):
        x = self.next()
        if x == 'ptr':
            t = ('ptr',)
            if self.peek() == 'addrspace':
                self.i += 4
        elif x in ('double', 'float', 'void', 'label', 'metadata', 'token', 'x86_fp80', 'half', 'opaque', 'fp128'):
            t = (x,)
        elif re.fullmatch(r'i\d+', x):
            t = ('int', int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('array', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = ('struct', tuple(self._types('}')), True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x == '{':
            t = ('struct', tuple(self._types('}')), False)
        elif x.startswith('%'):
            t = ('named', x)
        else:
            raise SyntaxError('type? ' + x + ' in ' + ' '.join(self.t[:20]))
        # function type "ret (args)" only occurs in call instrs; handled there
        while self.peek() == '*':
            self.next()
            t = ('ptr',)
        return t

    def _types(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            out.append(self.type())
            if self.accept(','):
                continue
            self.expect(end)
            return out

    def skip_attrs(self):
        """parameter / return attributes"""
        while True:
            x = self.peek()
            if x in ATTRS:
                self.i += 1
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'byref',
                       'inalloca', 'range', 'nofpclass', 'allocalign', 'memory', 'captures', 'initializes', 'cc', 'allockind'):
                self.i += 1
                if x == 'byval' and self.peek() == '(':
                    self.i += 1
                    self.byval = self.type()
                    self.expect(')')
                elif self.peek() == '(':
                    self._balanced()
                elif x in ('align', 'cc'):
                    self.i += 1
            elif x.startswith('#') or (x.startswith('"') and self.peek(1) == '='):
                self.i += 1
                if self.peek() == '=':
                    self.i += 2
            else:
                return

    def _balanced(self):
        d = 0
        while True:
            x = self.next()
            if x in '([{<':
                d += 1
            elif x in ')]}>':
                d -= 1
                if d == 0:
                    return

    # ------------------------------------------------------------ values
    def value(self, ty):
        """operand: ('loc',name) ('glob',name) ('c',type,python) ('undef',) ('zero',ty) ('agg',ty,[ops])
           ('cexpr',op,...)"""
        x = self.next()
        if x.startswith('%'):
            return ('loc', x)
        if x.startswith('@'):
            return ('glob', x)
        if x == 'true':
            return ('c', ('int', 1), 1)
        if x == 'false':
            return ('c', ('int', 1), 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x in ('zeroinitializer', 'none'):
            return ('zero', ty)
        if x.startswith('c"'):
            return ('bytes', unescape(x[2:-1]))
        if x[0].isdigit() or x[0] == '-':
            if ty[0] in ('double', 'float'):
                return ('c', ty, fp(x, ty))
            if ty[0] == 'x86_fp80':
                return ('c', ty, fp80(x))
            return ('c', ty, int(x))
        if x in ('[', '{', '<'):
            packed = False
            if x == '<' and self.peek() == '{':
                self.next()
                packed = True
                end = '}'
            else:
                end = {'[': ']', '{': '}', '<': '>'}[x]
            elems = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    elems.append((t, self.value(t)))
                    if self.accept(','):
                        continue
                    self.expect(end)
                    break
            if packed:
                self.expect('>')
            return ('agg', ty, elems)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            if self.peek() == 'inrange':
                self.next()
                if self.peek() == '(':
                    self._balanced()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                if self.peek() == 'inrange':
                    self.next()
                    if self.peek() == '(':
                        self._balanced()
                t = self.type()
                ops.append((t, self.value(t)))
                if self.accept(','):
                    continue
                self.expect(')')
                break
            return ('gep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', x, t, v, t2)
        if x in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            while self.peek() != '(':
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cbin', x, t, a, b)
        if x == 'icmp':
            p = self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cicmp', p, t, a, b)
        if x == 'dso_local_equivalent':
            return self.value(ty)
        raise SyntaxError('value? ' + x + ' in ' + ' '.join(self.t[:30]))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        if t == ('metadata',):
            # swallow a metadata operand
            if self.peek().startswith('!'):
                x = self.next()
                if self.peek() == '(' or self.peek() == '{':
                    self._balanced()
                return (t, ('undef',))
            t2 = self.type()
            self.value(t2)
            return (t, ('undef',))
        return (t, self.value(t))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


def fp(x, ty):
    if x.startswith('0x'):
        d = struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
    else:
        d = float(x)
    return d


def fp80(x):
    assert x.startswith('0xK'), x
    h = int(x[3:], 16)
    se = h >> 64
    man = h & ((1 << 64) - 1)
    s = -1 if se >> 15 else 1
    e = (se & 0x7fff) - 16383 - 63
    return s * (Fraction(man) * (Fraction(2) ** e))


class Instr:
    __slots__ = ('res', 'op', 'ty', 'a', 'text', 'flags')

    def __init__(self, res, op, ty, a, flags=()):
        self.res = res
        self.op = op
        self.ty = ty
        self.a = a
        self.flags = flags


class Function:
    def __init__(self, mod, name, header, body):
        self.mod = mod
        self.name = name
        self.header = header
        self.body = body
        self.parsed = False

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        mod = self.mod
        # --- header
        h = self.header
        toks = tokenize(h)
        p = Parser(toks, mod)
        p.expect('define')
        while p.peek() in ATTRS or p.peek() in ('comdat',):
            p.next()
        p.skip_attrs()
        self.rettype = p.type()
        while not p.peek().startswith('@'):
            p.next()
        p.next()
        p.expect('(')
        self.params = []
        self.byval = {}
        n = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')')
                    break
                t = p.type()
                p.byval = None
                p.skip_attrs()
                if p.byval is not None:
                    self.byval[n] = p.byval
                if p.peek().startswith('%'):
                    nm = p.next()
                else:
                    nm = '%' + str(n)
                n += 1
                self.params.append((t, nm))
                if p.accept(','):
                    continue
                p.expect(')')
                break
        # --- blocks
        self.blocks = {}
        self.order = []
        cur = None
        label = None
        lines = self.body
        i = 0
        first = True
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):(\s|$)', ln)
            if m:
                label = '%' + m.group(1)
                cur = []
                self.blocks[label] = cur
                self.order.append(label)
                first = False
                continue
            if first:
                label = '%' + str(n)
                cur = []
                self.blocks[label] = cur
                self.order.append(label)
                first = False
            # join multi-line (switch, landingpad, invoke)
            if s.startswith('switch ') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            elif ' landingpad ' in s:
                while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            elif re.match(r'^(%\S+ = )?invoke ', s):
                while ' unwind ' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            cur.append(s)
        self.entry = self.order[0]
        self.code = {}
        return self

    def block(self, label):
        b = self.code.get(label)
        if b is None:
            b = [parse_instr(s, self.mod) for s in self.blocks[label]]
            self.code[label] = b
        return b


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}


def parse_instr(s, mod):
    toks = tokenize(s)
    p = Parser(toks, mod)
    res = None
    if p.peek(1) == '=' and p.peek().startswith('%'):
        res = p.next()
        p.next()
    op = p.next()
    flags = []
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN or op == 'fneg':
        while p.peek() in ATTRS or p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            flags.append(p.next())
        t = p.type()
        a = p.value(t)
        if op == 'fneg':
            return Instr(res, op, t, (a,), flags)
        p.expect(',')
        b = p.value(t)
        return Instr(res, op, t, (a, b), flags)
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            flags.append(p.next())
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        return Instr(res, op, t2, (t, a), flags)
    if op in ('icmp', 'fcmp'):
        while p.peek() in ATTRS:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(res, op, t, (pred, a, b))
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        p.expect(',')
        pt, pv = p.tv()
        return Instr(res, op, t, (pv,))
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt, pv = p.tv()
        return Instr(res, op, t, (v, pv))
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        p.expect(',')
        ops = []
        while True:
            if p.peek().startswith('!'):
                break
            ops.append(p.tv())
            if not p.accept(','):
                break
        return Instr(res, op, bt, ops)
    if op == 'alloca':
        if p.peek() == 'inalloca':
            p.next()
        t = p.type()
        n = None
        if p.accept(',') and p.peek() != 'align':
            n = p.tv()
        return Instr(res, op, t, (n,))
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr(None, 'jmp', None, (p.next(),))
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return Instr(None, 'br', None, (c, a, b))
    if op == 'switch':
        t, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cvv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cvv[2], p.next()))
        return Instr(None, 'switch', t, (v, d, cases))
    if op == 'ret':
        t = p.type()
        if t == ('void',):
            return Instr(None, 'ret', t, (None,))
        return Instr(None, 'ret', t, (p.value(t),))
    if op == 'phi':
        while p.peek() in ATTRS:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            lb = p.next()
            p.expect(']')
            inc[lb] = v
            if not p.accept(','):
                break
            if p.peek().startswith('!'):
                break
        return Instr(res, 'phi', t, inc)
    if op == 'select':
        while p.peek() in ATTRS:
            p.next()
        ct, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        return Instr(res, 'select', t, (c, a, b))
    if op in ('call', 'invoke'):
        while p.peek() in ATTRS or p.peek() in ('cc', 'fastcc'):
            p.next()
        p.skip_attrs()
        t = p.type()
        # optional function type "(args...)" for varargs
        if p.peek() == '(':
            # e.g. i32 (ptr, ...) @printf(
            p._balanced()
        callee = p.next()
        if callee == 'asm':
            return Instr(res, 'unsupported', None, ('inline asm',))
        cal = ('glob', callee) if callee.startswith('@') else ('loc', callee)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                args.append(p.tv())
                if p.accept(','):
                    continue
                p.expect(')')
                break
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            n1 = p.next()
            p.expect('unwind')
            p.expect('label')
            n2 = p.next()
            return Instr(res, 'invoke', t, (cal, args, n1, n2))
        return Instr(res, 'call', t, (cal, args))
    if op == 'unreachable':
        return Instr(None, op, None, ())
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.accept(','):
            if p.peek().startswith('!'):
                break
            idx.append(int(p.next()))
        return Instr(res, op, t, (v, idx))
    if op == 'insertvalue':
        t, v = p.tv()
        p.expect(',')
        t2, v2 = p.tv()
        idx = []
        while p.accept(','):
            if p.peek().startswith('!'):
                break
            idx.append(int(p.next()))
        return Instr(res, op, t, (v, t2, v2, idx))
    if op == 'landingpad':
        t = p.type()
        clauses = []
        while p.i < len(toks):
            k = p.next()
            if k == 'cleanup':
                clauses.append(('cleanup',))
            elif k in ('catch', 'filter'):
                ct, c = p.tv()
                clauses.append((k, c))
            else:
                break
        return Instr(res, op, t, clauses)
    if op == 'resume':
        t, v = p.tv()
        return Instr(None, op, t, (v,))
    if op == 'freeze':
        t, v = p.tv()
        return Instr(res, op, t, (v,))
    if op == 'atomicrmw':
        while p.peek() == 'volatile':
            p.next()
        k = p.next()
        pt, pv = p.tv()
        p.expect(',')
        t, v = p.tv()
        return Instr(res, op, t, (k, pv, v))
    if op == 'cmpxchg':
        while p.peek() in ('weak', 'volatile'):
            p.next()
        pt, pv = p.tv()
        p.expect(',')
        t, c = p.tv()
        p.expect(',')
        t2, n = p.tv()
        return Instr(res, op, t, (pv, c, n))
    if op == 'fence':
        return Instr(None, 'nop', None, ())
    if op == 'extractelement':
        t, v = p.tv()
        p.expect(',')
        it, iv = p.tv()
        return Instr(res, op, t, (v, iv))
    if op == 'insertelement':
        t, v = p.tv()
        p.expect(',')
        t2, v2 = p.tv()
        p.expect(',')
        it, iv = p.tv()
        return Instr(res, op, t, (v, v2, iv))
    if op == 'shufflevector':
        t, v = p.tv()
        p.expect(',')
        t2, v2 = p.tv()
        p.expect(',')
        it, iv = p.tv()
        return Instr(res, op, t, (v, v2, iv))
    return Instr(res, 'unsupported', None, (s,))


class Module:
    def __init__(self, text):
        self.functions = {}
        self.globals = {}     # name -> raw line
        self.gparsed = {}
        self.types = {}
        self.aliases = {}
        self._layout = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                name = '@' + m.group(1)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.functions[name] = Function(self, name, ln[:ln.rindex('{')], lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('%'):
                m = re.match(r'^(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'^(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
                if m:
                    self.globals[m.group(1)] = m.group(2)
            i += 1

    def named(self, name):
        t = self.types.get(name)
        if isinstance(t, str):
            if t == 'opaque':
                t = ('opaque',)
            else:
                t = Parser(tokenize(t), self).type()
            self.types[name] = t
        return t

    def glob(self, name):
        """-> dict(kind, type, init, const)"""
        g = self.gparsed.get(name)
        if g is not None:
            return g
        raw = self.globals.get(name)
        if raw is None:
            return None
        toks = tokenize(raw)
        p = Parser(toks, self)
        ext = False
        while True:
            x = p.peek()
            if x in ATTRS:
                if x in ('external', 'extern_weak'):
                    ext = True
                p.next()
                if x == 'thread_local' and p.peek() == '(':
                    p._balanced()
            else:
                break
        k = p.next()
        if k == 'alias':
            t = p.type()
            p.expect(',')
            t2 = p.type()
            v = p.value(t2)
            g = dict(kind='alias', target=v)
        elif k in ('global', 'constant'):
            t = p.type()
            init = None
            if not ext and p.i < len(toks) and p.peek() != ',':
                init = p.value(t)
            g = dict(kind='var', type=t, init=init, const=(k == 'constant'), ext=ext)
        else:
            g = dict(kind='other')
        self.gparsed[name] = g
        return g

    # ------------------------------------------------------------ layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.named(t[1])
        return t

    def size_align(self, t):
        r = self._layout.get(t)
        if r:
            return r
        k = t[0]
        if k == 'int':
            n = t[1]
            b = 1
            while b * 8 < n:
                b *= 2
            if n > 64:
                b = (n + 127) // 128 * 16
            r = (b, min(b, 16))
        elif k == 'double':
            r = (8, 8)
        elif k == 'float':
            r = (4, 4)
        elif k == 'x86_fp80':
            r = (16, 16)
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'array':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif k == 'struct':
            off = 0
            al = 1
            offs = []
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
            self._layout[('offs', t)] = offs
        elif k == 'named':
            r = self.size_align(self.named(t[1]))
        else:
            raise NotImplementedError('size of ' + str(t))
        self._layout[t] = r
        return r

    def size(self, t):
        return self.size_align(t)[0]

    def field_offset(self, t, i):
        t = self.resolve(t)
        self.size_align(t)
        return self._layout[('offs', t)][i]
