"""Random .proto schemas (with the noise the language allows) and schemas that break a rule, for C22."""
import ref
from ref import F, T, Msg, Oneof, Enum

SC = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'bool', 'float', 'double', 'string', 'bytes']
KEYS = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'bool', 'string']
WORD = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'mu', 'nu', 'xi', 'pi', 'rho', 'sigma', 'tau', 'phi', 'chi', 'psi']
STORE = {'int32': ['int8', 'int16'], 'sint32': ['int8', 'int16'], 'sfixed32': ['int8', 'int16'], 'uint32': ['uint8', 'uint16'], 'fixed32': ['uint8', 'uint16'],
         'uint64': ['uint8', 'uint16', 'uint32'], 'fixed64': ['uint8', 'uint16', 'uint32'], 'sint64': ['int8', 'int16', 'int32'], 'sfixed64': ['int8', 'int16', 'int32']}


class Namer:
    def __init__(self, r):
        self.r = r
        self.used = set()

    def __call__(self, cap=False):
        while True:
            k = self.r.randrange(6)
            w = self.r.choice(WORD)
            if k == 0:
                w += '_' + self.r.choice(WORD)
            elif k == 1:
                w += str(self.r.randrange(100))
            elif k == 2:
                w = '%s_%s_%d' % (w, self.r.choice(WORD), self.r.randrange(10))
            elif k == 3 and not cap:
                w = self.r.choice(sorted(ref.KEYWORDS))
            elif k == 4 and not cap:
                w = w + self.r.choice(WORD).capitalize()
            if cap:
                w = ''.join(x.capitalize() for x in w.split('_'))
            if w.lower().replace('_', '') not in self.used:
                self.used.add(w.lower().replace('_', ''))
                return w


class Numbers:
    def __init__(self, r):
        self.r = r
        self.used = set()

    def __call__(self):
        while True:
            n = self.r.choice([self.r.randrange(1, 16), self.r.randrange(1, 40), self.r.randrange(16, 3000), self.r.choice([1, 15, 16, 2047, 2048, 18999, 20000, 262143, 536870911])])
            if n not in self.used:
                self.used.add(n)
                return n


def rand_enum(r, name, proto3):
    nm = Namer(r)
    vals = {}
    pre = name.upper()
    first = True
    for _ in range(r.randrange(1, 7)):
        v = 0 if first else r.choice([r.randrange(1, 10), r.randrange(-5, 1000), -2147483648, 2147483647, -1, 255, r.getrandbits(31)])
        first = False
        if v in vals.values():
            continue
        vals['%s_%s' % (pre, nm(True).upper())] = v
    ct = 'int32'
    if r.randrange(4) == 0:
        lo, hi = min(vals.values()), max(vals.values())
        cs = [c for c, a, b in [('int8', -128, 127), ('uint8', 0, 255), ('int16', -32768, 32767), ('uint16', 0, 65535)] if lo >= a and hi <= b]
        if cs:
            ct = r.choice(cs)
    return Enum(name, vals, ct)


class Scope:
    """a message with its nested types, in proto order"""
    def __init__(self, name, parent):
        self.name = name
        self.parent = parent
        self.enums = []
        self.subs = []
        self.msg = None

    def path(self):
        return (self.parent.path() if self.parent else []) + [self.name]


def rand_default(r, t):
    k = t.kind
    if k == 'bool':
        return r.choice(['true', 'false'])
    if k == 'string':
        return '"%s"' % r.choice(['x', 'hello world', 'a//b', "it's", '/* no */', '{;}'])
    if k == 'enum':
        return r.choice(list(t.ref.vals))
    if k in ('float', 'double'):
        return r.choice(['1.5', '-0.25', '1024.0', '0.0', '-3.0', '1e3'])
    lo, hi = ref.rng(t)
    # the most negative 32/64-bit literals are no C++ literals of their own type
    x = r.choice([0, 1, hi, max(lo + 1, -hi), r.randrange(max(lo + 1, -hi), hi + 1), 42 % (hi + 1)])
    return str(x)


def rand_field(r, pool, nm, nums, proto3, inone=False, nested=False):
    name, num = nm(), nums()
    k = r.randrange(10)
    ref_t = None
    if k < 3 and pool:
        o = r.choice(pool)
        t = T('enum', ref=o) if isinstance(o, Enum) else T('msg', ref=o)
        ref_t = o
    else:
        t = T(r.choice(SC))
    if inone:
        label = 'req'
    else:
        label = r.choice(['opt', 'opt', 'req', 'rep', 'map'] if not proto3 else ['opt', 'opt', 'rep', 'map'])
    if label == 'rep' and t.scalar() and (proto3 or r.randrange(2)):
        label = 'pack'
    f = F(num, name, label, t)
    if label == 'map':
        f.key = T(r.choice(KEYS))
        return f
    if t.kind in STORE and r.randrange(5) == 0:
        t.c = r.choice(STORE[t.kind])
        if label == 'req' and not inone and r.randrange(2):
            t.bits = r.randrange(1 if t.c[0] == 'u' else 2, int(t.c.lstrip('uint')) + 1)
    if r.randrange(6) == 0:
        f.json = r.choice(['j' + name, 'with space %d' % num, name.upper() + '$', 'x-%d' % num, 'é%d' % num])
    #- C++ cannot use a nested struct with default member initializers inside of the enclosing one
    if label in ('opt', 'req') and not inone and not nested and t.kind not in ('msg', 'bytes') and r.randrange(4) == 0:
        f.default = rand_default(r, t)
    if t.kind in ('string', 'bytes') and f.default is None and r.randrange(6) == 0:
        f.max_size = r.choice([1, 3, 17])
    if label in ('rep', 'pack') and r.randrange(6) == 0:
        f.max_count = r.choice([1, 2, 5])
    if r.randrange(12) == 0 and not inone:
        f.opts.append('deprecated = ' + r.choice(['true', 'false']))
    return f


def rand_messages(r, pkg, proto3, imported, budget):
    """top level enums and scopes; fields refer to types declared anywhere earlier (and to themselves through repeated)"""
    top = Namer(r)
    enums = [rand_enum(r, top(True), proto3) for _ in range(r.randrange(0, 3))]
    for e in enums:
        e.full = [pkg, e.name]
        e.scope = []
    scopes = []
    allmsgs = []
    pool = list(imported) + enums

    def build(name, parent, depth):
        s = Scope(name, parent)
        s.msg = Msg(name, [])
        m = s.msg
        path = s.path()
        m.scope = path[:-1]
        m.full = [pkg] + path
        m.name = '_'.join(path)
        m.cpp = '::'.join(x for y in m.full for x in y.split('.'))
        inner = top         # no type hides another one: sprotoc does not resolve the longer names that would be needed
        for _ in range(r.choice([0, 0, 1])):
            e = rand_enum(r, inner(True), proto3)
            e.scope = path
            e.full = [pkg] + path + [e.name]
            s.enums.append(e)
            pool.append(e)
        if depth < 2:
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                n = inner(True)
                top.used.add(n.lower())
                s.subs.append(build(n, s, depth + 1))
        nums, nm = Numbers(r), Namer(r)
        m.reserved = []
        if r.randrange(3) == 0:
            a = r.randrange(5000, 6000)
            m.reserved = ['reserved %d, %d to %d, %d to max' % (a, a + 1, a + 9, 530000000)]
            nums.used.add(536870911)
        if r.randrange(4) == 0:
            m.reserved.append('reserved "%s", "zz_%d"' % (nm(), r.randrange(9)))
        for _ in range(r.randrange(0, 8)):
            m.fields.append(rand_field(r, pool, nm, nums, proto3, False, parent is not None))
        for _ in range(r.choice([0, 0, 1, 2])):
            fs = [rand_field(r, pool, nm, nums, proto3, True) for _ in range(r.randrange(1, 5))]
            m.fields.append(Oneof(nm(), fs))
        if r.randrange(5) == 0:
            m.fields.append(F(nums(), nm(), r.choice(['ptr', 'rep']), T('msg', ref=m)))
        pool.append(m)
        allmsgs.append(m)
        return s
    for _ in range(r.randrange(2, budget)):
        scopes.append(build(top(True), None, 0))
    KNOWN.update(tuple(x.full) for x in pool if x.full[0] == pkg)
    return enums, scopes, allmsgs


# ---------------------------------------------------------------- text
class Out:
    def __init__(self, r):
        self.r = r
        self.t = []

    def sp(self):
        r = self.r
        k = r.randrange(14)
        if k == 0:
            return '\n\t'
        if k == 1:
            return '  '
        if k == 2:
            return ' \r\n '
        return ' '

    def comment(self):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            return '// c%d "x\' { } ; = [ /* \n' % r.randrange(100)
        if k == 1:
            return '/* message X { int32 a = 1; } // %d\n * "\' */' % r.randrange(100)
        return ''

    def stmt(self, *toks):
        self.t.append(self.comment())
        self.t.append(self.sp().join(str(x) for x in toks))
        self.t.append(self.r.choice(['\n', ' ', '\n\n']))


def num(r, n):
    k = r.randrange(6)
    s = '-' if n < 0 else ''
    a = abs(n)
    if k == 0:
        return '%s0x%x' % (s, a)
    if k == 1:
        return '%s0X%X' % (s, a)
    if k == 2 and a:
        return '%s0%o' % (s, a)
    return '%s%d' % (s, a)


KNOWN = set()


def type_ref(r, t, m, pkg):
    if t.kind not in ('enum', 'msg'):
        return t.kind
    o = t.ref
    if o.full[0] != pkg:
        return '.'.join(o.full)
    # relative: drop the scope the two have in common
    path = o.full[1:]
    here = m.full[1:]
    keep = 0
    k = 0
    while k < len(path) - 1 and k < len(here) and path[k] == here[k]:
        k += 1
    # ... unless an inner scope declares something of that name: then a longer name that means the type
    for keep in range(k, -1, -1):
        for n in range(len(here), -1, -1):
            if tuple([pkg] + here[:n] + [path[keep]]) in KNOWN:
                if n == keep:
                    return '.'.join(path[keep:])
                break
    return '.'.join(o.full)


def field_text(r, o, f, m, pkg, proto3, inone):
    l = ref.field_line(f, inone)
    # label
    head = []
    if not inone and f.label != 'map':
        if f.label in ('rep', 'pack'):
            head = ['repeated']
        elif f.label == 'req':
            head = ['required']
        else:
            head = ['optional'] if not proto3 or r.randrange(2) else []
    opts = l[l.index(' = %d' % f.num) + len(' = %d' % f.num):].rstrip(';').strip()
    if opts.startswith('['):
        opts = opts[1:-1]
    if f.label == 'pack' and proto3 and r.randrange(2):
        opts = ', '.join(x for x in opts.split(', ') if x != 'packed = true')
    if f.label == 'rep' and proto3 and f.t.scalar():
        opts = ', '.join([opts] * bool(opts) + ['packed = false'])
    t = type_ref(r, f.t, m, pkg)
    if f.label == 'map':
        t = 'map%s<%s%s%s,%s%s>' % (r.choice(['', ' ']), o.sp(), f.key.kind, r.choice(['', ' ']), o.sp(), t)
    toks = head + [t, f.name, '=', num(r, f.num)]
    if opts:
        toks += ['[', opts, ']']
    o.stmt(*toks, ';')


def enum_text(r, o, e):
    o.stmt('enum', e.name, '{')
    if e.ctype != 'int32':
        o.stmt('option', '(spb_enumopt).type', '=', '"%s"' % e.ctype, ';')
    for n, v in e.vals.items():
        o.stmt(n, '=', num(r, v), ';')
    if r.randrange(5) == 0:
        o.stmt('reserved', '100000 to 100010, 0x7ffffff0', ';')
    o.t.append('}' + r.choice(['', ';']) + '\n')


def msg_text(r, o, s, pkg, proto3):
    m = s.msg
    o.stmt('message', s.name, '{')
    parts = []
    for e in s.enums:
        parts.append(lambda e=e: enum_text(r, o, e))
    for x in s.subs:
        parts.append(lambda x=x: msg_text(r, o, x, pkg, proto3))
    for x in m.reserved:
        parts.append(lambda x=x: o.stmt(x, ';'))
    if r.randrange(5) == 0 and not proto3:
        parts.append(lambda: o.stmt('extensions', '40000', 'to', '40100', ';'))
    if r.randrange(6) == 0:
        parts.append(lambda: o.t.append(';\n'))
    r.shuffle(parts)
    cut = r.randrange(len(parts) + 1)
    for p in parts[:cut]:
        p()
    for f in m.fields:
        if isinstance(f, Oneof):
            o.stmt('oneof', f.name, '{')
            for x in f.fields:
                field_text(r, o, x, m, pkg, proto3, True)
            o.t.append('}\n')
        else:
            field_text(r, o, f, m, pkg, proto3, False)
    for p in parts[cut:]:
        p()
    o.t.append('}\n')


def schema(r, name, budget=6):
    """-> [(file name, package, items, text)] with imports first"""
    KNOWN.clear()
    files = []
    imported = []
    imp = []
    if r.randrange(2) == 0:
        proto3 = r.randrange(2) == 1
        pkg = name + 'imp' + ('.sub' if r.randrange(2) else '')
        en, sc, ms = rand_messages(r, pkg, proto3, [], 4)
        files.append((name + '_imp', pkg, en, sc, ms, proto3, []))
        imported = [x for x in en + ms]
        imp = [name + '_imp.proto']
    proto3 = r.randrange(2) == 1
    pkg = name + ('.p.q' if r.randrange(3) == 0 else '')
    en, sc, ms = rand_messages(r, pkg, proto3, imported, budget)
    files.append((name, pkg, en, sc, ms, proto3, imp))
    out = []
    for fn, pkg, en, sc, ms, proto3, imp in files:
        o = Out(r)
        o.stmt('syntax', '=', '"proto%d"' % (3 if proto3 else 2), ';')
        o.stmt('package', pkg, ';')
        o.stmt('import', '"spb.proto"', ';')
        for i in imp:
            o.stmt('import', '"%s"' % i, ';')
        if r.randrange(3) == 0:
            o.stmt('option', 'java_package', '=', '"com.x"', ';')
        tops = [(enum_text, e) for e in en] + [(msg_text, s) for s in sc]
        r.shuffle(tops)
        for fn_, x in tops:
            if fn_ is enum_text:
                enum_text(r, o, x)
            else:
                msg_text(r, o, x, pkg, proto3)
        for m in ms:
            #- the generated code writes fields, then maps, then oneofs
            fs = m.fields
            m.fields = [f for f in fs if isinstance(f, F) and f.label != 'map'] + [f for f in fs if isinstance(f, F) and f.label == 'map'] + \
                [f for f in fs if isinstance(f, Oneof)]
        out.append((fn, pkg, en + ms, ''.join(o.t)))
    return out


# ---------------------------------------------------------------- schemas that have to be rejected
H2 = 'syntax = "proto2";\nimport "spb.proto";\npackage x;\n'
BAD = [
    ('unknown type', 'message M { optional Missing a = 1; }'),
    ('unknown nested type', 'message N { } message M { optional N.X a = 1; }'),
    ('type of an inner scope', 'message N { message X { } } message M { optional X a = 1; }'),
    ('unknown map value type', 'message M { map<int32, Missing> a = 1; }'),
    ('unknown map key type', 'message M { map<Missing, int32> a = 1; }'),
    ('bad syntax version', None),
    ('incompatible type option', 'message M { optional uint32 a = 1 [(spb_opt).type = "int8"]; }'),
    ('incompatible wide type option', 'message M { optional int32 a = 1 [(spb_opt).type = "int64"]; }'),
    ('type option of unknown type', 'message M { optional int32 a = 1 [(spb_opt).type = "int9"]; }'),
    ('bit-field optional', 'message M { optional int32 a = 1 [(spb_opt).type = "int32:4"]; }'),
    ('bit-field repeated', 'message M { repeated int32 a = 1 [(spb_opt).type = "int32:4"]; }'),
    ('bit-field in oneof', 'message M { oneof o { int32 a = 1 [(spb_opt).type = "int32:4"]; } }'),
    ('invalid enum type', 'enum E { option (spb_enumopt).type = "float"; A = 0; }'),
    ('messages containing each other', 'message A { required B b = 1; } message B { required A a = 1; }'),
    ('no field number', 'message M { optional int32 a; }'),
    ('no name', 'message M { optional int32 = 1; }'),
    ('number is a word', 'message M { optional int32 a = one; }'),
    ('no semicolon', 'message M { optional int32 a = 1 }'),
    ('no closing brace', 'message M { optional int32 a = 1;'),
    ('extra closing brace', 'message M { } }'),
    ('no opening brace', 'message M optional int32 a = 1; }'),
    ('field number too large', 'message M { optional int32 a = 4294967297; }'),
    ('negative field number word', 'message M { optional int32 a = - ; }'),
    ('unterminated option list', 'message M { optional int32 a = 1 [packed = true; }'),
    ('unterminated string', 'message M { optional int32 a = 1 [json_name = "x]; }'),
    ('unterminated comment', 'message M { } /* abc'),
    ('map without value type', 'message M { map<int32> a = 1; }'),
    ('map not closed', 'message M { map<int32, int32 a = 1; }'),
    ('enum without value', 'enum E { A; }'),
    ('enum value too large', 'enum E { A = 0; B = 2147483648; }'),
    ('enum value too small', 'enum E { A = 0; B = -2147483649; }'),
    ('enum value not octal', 'enum E { A = 0; B = 09; }'),
    ('enum without brace', 'enum E A = 0; }'),
    ('oneof without brace', 'message M { oneof o int32 a = 1; } }'),
    ('garbage at top level', 'foo bar;'),
    ('import not closed', 'import "spb.proto;'),
    ('import of a missing file', 'import "does-not-exist.proto";'),
    ('package without name', 'package ;'),
    ('message without name', 'message { }'),
]
