"""Textual LLVM-IR (clang-18, opaque pointers) reader.  Bodies are parsed lazily."""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<hex>0x[0-9A-Fa-fKLMHR]+)
 | (?P<word>[a-zA-Z$._][-a-zA-Z$._0-9]*:?)
 | (?P<dots>\.\.\.)
 | (?P<punct>[(){}\[\]<>,=*|:])
''', re.X)
HEX0 = re.compile(r'0x[0-9A-Fa-fKLMHR]+')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in ' \t\n':
            i += 1
            continue
        if c == ';':
            j = s.find('\n', i)
            if j < 0:
                break
            i = j
            continue
        if c == '0' and s.startswith('0x', i):
            m = HEX0.match(s, i)
            out.append(m.group())
            i = m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('IR token at: ' + s[i:i + 60])
        out.append(m.group())
        i = m.end()
    return out


class T:
    """Types are interned tuples."""


def ty_int(n):
    return ('i', n)


PTR = ('ptr',)
VOID = ('void',)
FLOAT = ('float',)
DOUBLE = ('double',)
LDOUBLE = ('x86_fp80',)


class Module:
    def __init__(self, text):
        self.named = {}      # type name -> type
        self.globals = {}    # name -> dict(ty, init tokens, const, external)
        self.fn_src = {}     # name -> (header, body lines)
        self.decls = {}      # name -> header
        self._fn = {}
        self.aliases = {}
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                body = []
                h = l
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                name = self._fname(h)
                self.fn_src[name] = (h, body)
            elif l.startswith('declare '):
                self.decls[self._fname(l)] = l
            elif l.startswith('%') and ' = type ' in l:
                p = Parser(self, tokenize(l))
                nm = p.next()
                p.next(); p.next()
                if p.peek() == 'opaque':
                    self.named[nm] = ('opaque', nm)
                else:
                    self.named[nm] = p.type()
            elif l.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                self.globals[m.group(1)] = m.group(2)
                m2 = re.match(r'.*\balias\b.*, ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', l)
                if m2 and ' alias ' in l:
                    self.aliases[m.group(1)] = m2.group(1)
            i += 1

    @staticmethod
    def _fname(h):
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', h)
        return m.group(1)

    def fn(self, name):
        name = self.aliases.get(name, name)
        if name not in self._fn:
            if name not in self.fn_src:
                return None
            self._fn[name] = Function(self, name, *self.fn_src[name])
        return self._fn[name]

    # ---- layout -------------------------------------------------------
    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            for a in (1, 2, 4, 8, 16):
                if b <= a:
                    return a
            return 16
        if k == 'ptr':
            return 8
        if k == 'float':
            return 4
        if k == 'double':
            return 8
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] + [1])
        raise ValueError(t)

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'float':
            return 4
        if k == 'double':
            return 8
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'struct':
            off = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    off = (off + a - 1) // a * a
                off += self.size(x)
            if not t[2]:
                a = self.align(t)
                off = (off + a - 1) // a * a
            return off
        raise ValueError(t)

    def field(self, t, i):
        """offset and type of aggregate element i"""
        t = self.resolve(t)
        if t[0] in ('arr', 'vec'):
            return i * self.size(t[2]), t[2]
        off = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            if j == i:
                return off, x
            off += self.size(x)
        raise IndexError


ATTR_WORDS = set('''noundef nonnull zeroext signext inreg noalias nocapture readonly readnone writeonly returned
 immarg nofree nest swiftself noreturn dead_on_unwind writable nounwind byval_ sret_ allocptr'''.split())
LINK = set('''dso_local linkonce_odr weak_odr weak linkonce internal private external available_externally
 unnamed_addr local_unnamed_addr hidden protected default comdat fastcc ccc coldcc constant global
 externally_initialized dso_preemptable appending common tail musttail notail'''.split())


class Parser:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r near %s' % (x, y, ' '.join(self.t[max(0, self.i - 12):self.i + 6])))

    # types
    def type(self):
        w = self.next()
        if w == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif re.fullmatch(r'i\d+', w):
            t = ('i', int(w[1:]))
        elif w in ('void', 'float', 'double', 'x86_fp80', 'label', 'metadata', 'token', 'half', 'fp128'):
            t = (w,)
        elif w == '[':
            n = int(self.next()); self.expect('x')
            e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif w == '{':
            t = self._struct(False)
        elif w == '<':
            if self.peek() == '{':
                self.next()
                t = self._struct(True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x')
                e = self.type(); self.expect('>')
                t = ('vec', n, e)
        elif w.startswith('%'):
            t = ('named', w)
        else:
            raise SyntaxError('type? %r near %s' % (w, ' '.join(self.t[max(0, self.i - 12):self.i + 6])))
        while self.peek() == '(' :
            # function type
            self.next()
            ps = []
            va = False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    ps.append(self.type())
                    self.skip_attrs()
                self.accept(',')
            t = ('fn', t, tuple(ps), va)
        return t

    def _struct(self, packed):
        el = []
        while not self.accept('}'):
            el.append(self.type())
            self.accept(',')
        return ('struct', tuple(el), packed)

    def skip_attrs(self):
        while True:
            w = self.peek()
            if w is None:
                return
            if w in ATTR_WORDS:
                self.next()
            elif w == 'align':
                self.next()
                if self.peek() == '(':
                    self.paren()
                else:
                    self.next()
            elif w in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'inalloca', 'byref',
                       'captures', 'range', 'initializes', 'nofpclass', 'elementtype', 'preallocated', 'memory',
                       'allocsize', 'allockind'):
                self.next()
                if self.peek() == '(':
                    self.paren()
            else:
                return

    def paren(self):
        self.expect('(')
        d = 1
        while d:
            w = self.next()
            if w == '(':
                d += 1
            elif w == ')':
                d -= 1

    # constants / operands.  Result: ('const', int) ('local', name) ('global', name) ('null',) ('undef',) ('zero',)
    # ('agg', [ (ty,val) ]) ('str', bytes) ('cexpr', op, ...) ('fp', text)
    def value(self, ty):
        w = self.next()
        if w[0] == '%':
            return ('local', w)
        if w[0] == '@':
            return ('global', w)
        if w == 'true':
            return ('const', 1)
        if w == 'false':
            return ('const', 0)
        if w == 'null':
            return ('null',)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w == 'zeroinitializer':
            return ('zero',)
        if w == 'none':
            return ('none',)
        if w.startswith('c"'):
            return ('str', unescape(w[2:-1]))
        if w[0] == '0' and w.startswith('0x'):
            return ('fp', w)
        if re.fullmatch(r'-?\d+', w):
            return ('const', int(w))
        if re.match(r'-?\d+\.', w):
            return ('fp', w)
        if w in ('{', '[', '<'):
            packed = False
            if w == '<' and self.peek() == '{':
                self.next()
                packed = True
                close = '}'
            else:
                close = {'{': '}', '[': ']', '<': '>'}[w]
            el = []
            while not self.accept(close):
                t = self.type()
                el.append((t, self.value(t)))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', el)
        if w == 'getelementptr':
            self.gep_flags()
            self.expect('(')
            bt = self.type(); self.expect(',')
            ops = []
            while not self.accept(')'):
                self.accept('inrange')
                t = self.type()
                ops.append((t, self.value(t)))
                self.accept(',')
            return ('cexpr', 'gep', bt, ops)
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('cexpr', w, t, v, t2)
        if w in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type(); a = self.value(t); self.expect(',')
            t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cexpr', w, t, a, b)
        raise SyntaxError('value? %r near %s' % (w, ' '.join(self.t[max(0, self.i - 12):self.i + 6])))

    def gep_flags(self):
        while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            w = self.next()
            if self.peek() == '(' and w == 'inrange':
                self.paren()


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'text')

    def __init__(self, op, res, ty, a, text):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.text = text


class Block:
    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.succ = []


BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext ptrtoint inttoptr bitcast fptoui fptosi uitofp sitofp fptrunc fpext addrspacecast'.split())


class Function:
    def __init__(self, mod, name, header, body):
        self.m = mod
        self.name = name
        self.header = header
        p = Parser(mod, tokenize(header))
        p.expect('define')
        while p.peek() in LINK or p.peek() in ATTR_WORDS or p.peek() in ('dereferenceable', 'align', 'range', 'dereferenceable_or_null'):
            if p.peek() in LINK:
                p.next()
            else:
                p.skip_attrs()
        self.ret = p.type()
        assert p.next() == name
        p.expect('(')
        self.params = []
        while not p.accept(')'):
            if p.accept('...'):
                continue
            t = p.type()
            p.skip_attrs()
            nm = p.next() if p.peek() and p.peek()[0] == '%' else '%' + str(len(self.params))
            self.params.append((nm, t))
            p.accept(',')
        self.nounwind_hdr = False
        self._parse_body(body)
        self._analyze()

    def _parse_body(self, body):
        self.blocks = {}
        self.order = []
        cur = None
        i = 0
        n = len(body)
        while i < n:
            l = body[i]
            i += 1
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^((?:"[^"]*"|[-a-zA-Z$._0-9]+)):', l)
            if m:
                cur = Block('%' + m.group(1))
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
                continue
            # multi-line: switch [ ... ], invoke ... to label, landingpad clauses
            if re.match(r'switch ', s):
                while not body[i].strip().startswith(']'):
                    s += ' ' + body[i].strip()
                    i += 1
                s += ' ' + body[i].strip()
                i += 1
            elif re.search(r'(^|= )invoke ', s) and ' unwind label ' not in s:
                s += ' ' + body[i].strip()
                i += 1
            elif ' landingpad ' in ' ' + s:
                while i < n and re.match(r'^\s+(cleanup|catch|filter)\b', body[i]):
                    s += ' ' + body[i].strip()
                    i += 1
            if cur is None:
                cur = Block('%0')
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
            ins = self._instr(s)
            if ins is None:
                continue
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        self.entry = self.order[0]

    def _instr(self, s):
        mpos = re.search(r', ![a-zA-Z]', s)
        if mpos:
            s = s[:mpos.start()]
        p = Parser(self.m, tokenize(s))
        res = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            res = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        I = lambda ty, a: Instr(op, res, ty, a, s)
        if op in BINOPS:
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'reassoc', 'contract', 'arcp', 'afn'):
                fl.append(p.next())
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return I(t, (a, b, fl))
        if op in ('icmp', 'fcmp'):
            pred = p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return I(t, (pred, a, b))
        if op in CASTS:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return I(t2, (t, a))
        if op == 'phi':
            t = p.type()
            inc = []
            while p.peek() == '[':
                p.next(); v = p.value(t); p.expect(','); b = p.next(); p.expect(']'); p.accept(',')
                inc.append((v, b))
            return I(t, inc)
        if op == 'select':
            ct = p.type(); c = p.value(ct); p.expect(',')
            t = p.type(); a = p.value(t); p.expect(',')
            t2 = p.type(); b = p.value(t2)
            return I(t, (c, a, b))
        if op == 'freeze':
            t = p.type(); return I(t, p.value(t))
        if op == 'fneg':
            t = p.type(); return I(t, p.value(t))
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            n = ('const', 1)
            if p.accept(',') and p.peek() != 'align':
                nt = p.type(); n = p.value(nt)
            return I(t, n)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type(); p.expect(','); pt = p.type(); v = p.value(pt)
            return I(t, v)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); q = p.value(pt)
            return I(t, (v, q))
        if op == 'getelementptr':
            p.gep_flags()
            t = p.type(); p.expect(',')
            pt = p.type(); b = p.value(pt)
            idx = []
            while p.accept(','):
                it = p.type(); idx.append((it, p.value(it)))
            return I(t, (b, idx))
        if op == 'extractvalue':
            t = p.type(); v = p.value(t)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            return I(t, (v, ix))
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.expect(',')
            t2 = p.type(); e = p.value(t2)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            return I(t, (v, t2, e, ix))
        if op in ('call', 'invoke'):
            while p.peek() in LINK or p.peek() in ATTR_WORDS or p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'fast', 'nnan', 'ninf', 'nsz', 'nofpclass'):
                if p.peek() in ATTR_WORDS or p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
                    p.skip_attrs()
                else:
                    p.next()
            t = p.type()
            if t[0] == 'fn':
                t = t[1]
            if p.peek() == 'asm':
                return Instr('asm', res, t, None, s)
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                if at == ('metadata',):
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        w = p.next()
                        d += w in '({[' if len(w) == 1 else 0
                        d -= w in ')}]' if len(w) == 1 else 0
                    args.append((at, ('undef',)))
                else:
                    p.skip_attrs()
                    args.append((at, p.value(at)))
                p.accept(',')
            normal = unwind = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next(); p.expect('label'); normal = p.next(); p.expect('unwind'); p.expect('label'); unwind = p.next()
            return I(t, (callee, args, normal, unwind))
        if op == 'ret':
            t = p.type()
            if t == VOID:
                return I(t, None)
            return I(t, p.value(t))
        if op == 'br':
            if p.accept('label'):
                return I(None, (None, p.next(), None))
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            return I(None, (c, a, b))
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cs = []
            while not p.accept(']'):
                ct = p.type(); c = p.value(ct); p.expect(','); p.expect('label'); cs.append((c[1], p.next()))
            return I(t, (v, d, cs))
        if op == 'landingpad':
            t = p.type()
            cleanup = False
            clauses = []
            while p.peek() is not None:
                w = p.next()
                if w == 'cleanup':
                    cleanup = True
                elif w == 'catch':
                    ct = p.type(); clauses.append(('catch', p.value(ct)))
                elif w == 'filter':
                    ct = p.type(); clauses.append(('filter', p.value(ct)))
            return I(t, (cleanup, clauses))
        if op == 'resume':
            t = p.type()
            return I(t, p.value(t))
        if op == 'unreachable':
            return I(None, None)
        return Instr('unsupported:' + op, res, None, None, s)

    def _analyze(self):
        for b in self.blocks.values():
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = [x for x in t.a[1:] if x]
            elif t.op == 'switch':
                b.succ = [t.a[1]] + [x for _, x in t.a[2]]
            elif t.op == 'invoke':
                b.succ = [t.a[2], t.a[3]]
        # dominators-free natural loop detection through DFS back edges (reducible CFGs from clang)
        color = {}
        back = []
        stack = [(self.entry, iter(self.blocks[self.entry].succ))]
        color[self.entry] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    stack.append((s, iter(self.blocks[s].succ)))
                    break
                if c == 1:
                    back.append((n, s))
            else:
                color[n] = 2
                stack.pop()
        pred = {}
        for b in self.blocks.values():
            for s in b.succ:
                pred.setdefault(s, set()).add(b.name)
        self.loops = {}
        for u, h in back:
            body = self.loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(pred.get(x, ()))
