"""C12, C13: spb/utf8.h against the definition of UTF-8 (Unicode, D92 and table 3-7)."""
from .common import *
from irv.run import Task

HARNESS = {'utf8': ('/verif/harness/utf8.cpp', [])}

# the state of a reader of UTF-8: between characters, broken, or what the next byte has to be
OK, ERR, T1, T2, T3, AE0, AED, AF0, AF4 = range(9)
# the numbering utf8.h uses for these states
NUM = {OK: 0, ERR: 1, T1: 2, T2: 3, AE0: 4, AED: 5, AF0: 6, T3: 7, AF4: 8}
US = z3.Function('utf8_state_before', z3.BitVecSort(64), z3.BitVecSort(8))


def rng(b, lo, hi):
    return z3.And(z3.UGE(b, lo), z3.ULE(b, hi))


def c8(x):
    return BVV(x, 8)


def delta(s, b):
    """table 3-7 of the Unicode standard"""
    s, b = bv(s, 8), bv(b, 8)
    lead = z3.If(z3.ULE(b, 0x7f), c8(OK), z3.If(rng(b, 0xc2, 0xdf), c8(T1), z3.If(b == 0xe0, c8(AE0), z3.If(b == 0xed, c8(AED), z3.If(
        rng(b, 0xe1, 0xef), c8(T2), z3.If(b == 0xf0, c8(AF0), z3.If(rng(b, 0xf1, 0xf3), c8(T3), z3.If(b == 0xf4, c8(AF4), c8(ERR)))))))))

    def nxt(lo, hi, to):
        return z3.If(rng(b, lo, hi), c8(to), c8(ERR))
    r = c8(ERR)
    for st, e in ((OK, lead), (T1, nxt(0x80, 0xbf, OK)), (T2, nxt(0x80, 0xbf, T1)), (T3, nxt(0x80, 0xbf, T2)), (AE0, nxt(0xa0, 0xbf, T1)),
                  (AED, nxt(0x80, 0x9f, T1)), (AF0, nxt(0x90, 0xbf, T2)), (AF4, nxt(0x80, 0x8f, T2))):
        r = z3.If(s == st, e, r)
    return r


def num(s, w=32):
    r = BVV(1, w)
    for k, v in NUM.items():
        if k != ERR:
            r = z3.If(bv(s, 8) == k, BVV(v, w), r)
    return r


def utf8_input(ver, st, n):
    """text of n bytes, with the definition of US at every byte that is looked at"""
    data = st.new_region('text', n, const=True, arr=IN)
    st.assume(US(BVV(0, 64)) == OK)

    def hook(s, off):
        off = bv(off, 64)
        s.assume(z3.Implies(z3.ULT(off, bv(n, 64)), US(off + 1) == delta(US(off), in_byte(off))))
        # a broken text stays broken: a consequence of the definition, by induction over the rest
        s.assume(z3.Implies(z3.And(z3.ULE(off, bv(n, 64)), US(off) == ERR), US(bv(n, 64)) == ERR))
    ver.load_hooks[data] = hook
    return data


def cands(v, st, inst, key):
    out = []
    regs = [r for r in v.load_hooks]

    def off(r):
        def f(s):
            x = s.frames[-1].env[r]
            return bv(x.off if isinstance(x, Ptr) else x, 64)
        return f
    phis = list(v.loop_phis)
    for r in phis:
        x = st.frames[-1].env[r]
        w = None
        if isinstance(x, Ptr) and x.reg in regs:
            out.append(('no character is open at ' + r, (lambda g: lambda s: US(g(s)) == OK)(off(r))))
            out.append(('the text is not broken before ' + r, (lambda g: lambda s: US(g(s)) != ERR)(off(r))))
            for q in phis:
                y = st.frames[-1].env[q]
                if not isinstance(y, Ptr):
                    out.append(('%s = the state at %s' % (q, r), (lambda g, q: lambda s: eq(s.frames[-1].env[q], num(US(g(s)), width_(s.frames[-1].env[q])), width_(s.frames[-1].env[q])))(off(r), q)))
            for c in v.loop_cells:
                if c[2] in (1, 4):
                    out.append(('state cell = the state at ' + r, (lambda g, c: lambda s: eq(v._cell(s, *c), num(US(g(s)), 8 * c[2]), 8 * c[2]))(off(r), c)))
    return out


def width_(x):
    return x.size() if z3.is_bv(x) else 32


def t_valid(fn):
    def t(ver):
        lib.install_all(ver)
        ver.max_unroll = 0
        ver.custom_cands = [cands]
        st = State()
        n = BV('n', 64)
        st.assume(z3.ULE(n, 1 << 46))
        data = utf8_input(ver, st, n)
        ver.witness = witness_of(n=n, **{'b%d' % i: in_byte(i) for i in range(10)})
        good = US(n) == OK
        for o in ver.run('@' + fn, [Ptr(data, 0), n], st):
            if fn == 'u_valid':
                ver.prove(o.st, o.kind == 'return', 'utf8: is_valid always answers')
                if o.kind == 'return':
                    ver.prove(o.st, z3.Implies(frombool_(o.value) == 1, good), 'utf8: text that is not UTF-8 is never called valid')
                    ver.prove(o.st, z3.Implies(good, frombool_(o.value) == 1), 'utf8: every UTF-8 text is called valid')
            elif o.kind == 'return':
                ver.prove(o.st, good, 'utf8: validate throws for text that is not UTF-8')
            else:
                ver.prove(o.st, z3.Not(good), 'utf8: validate throws for nothing else')
    return t


def frombool_(v):
    if isinstance(v, bool):
        return BVV(int(v), 8)
    if isint(v):
        return BVV(v & 1, 8)
    if z3.is_bool(v):
        return z3.If(v, BVV(1, 8), BVV(0, 8))
    return z3.ZeroExt(7, z3.Extract(0, 0, v))


def enc(cp, k):
    """the k bytes of UTF-8 of code point cp (Unicode table 3-6), all bits of the value in order"""
    cp = bv(cp, 32)

    def six(i):
        return z3.Concat(BVV(2, 2), z3.Extract(6 * i + 5, 6 * i, cp))
    if k == 1:
        return [z3.Extract(7, 0, cp)]
    if k == 2:
        return [z3.Concat(BVV(6, 3), z3.Extract(10, 6, cp)), six(0)]
    if k == 3:
        return [z3.Concat(BVV(14, 4), z3.Extract(15, 12, cp)), six(1), six(0)]
    return [z3.Concat(BVV(30, 5), z3.Extract(20, 18, cp)), six(2), six(1), six(0)]


def elen(cp):
    cp = bv(cp, 32)
    return z3.If(z3.ULT(cp, 0x80), BVV(1, 32), z3.If(z3.ULT(cp, 0x800), BVV(2, 32), z3.If(z3.ULT(cp, 0x10000), BVV(3, 32), BVV(4, 32))))


def scalar(cp):
    return z3.And(z3.ULE(cp, 0x10ffff), z3.Not(rng(cp, 0xd800, 0xdfff)))


def t_encode(ver):
    lib.install_all(ver)
    st = State()
    cp = BV('cp', 32)
    ver.witness = witness_of(code_point=cp)
    d = st.new_region('utf8', 4)
    for o in ver.run('@u_encode', [cp, Ptr(d, 0)], st):
        ver.prove(o.st, o.kind == 'return', 'utf8: encode_point returns for every number')
        ver.prove(o.st, eq(o.value, z3.If(scalar(cp), elen(cp), BVV(0, 32)), 32), 'utf8: encode_point gives the number of bytes of the character, 0 for a number that is none')
        for k in range(1, 5):
            s = o.st.copy()
            s.assume(z3.And(scalar(cp), elen(cp) == k))
            if ver.feasible(s):
                got = [ver._load_byte(s, d, i) for i in range(k)]
                ver.prove(s, and_(*[eq(a, b, 8) for a, b in zip(got, enc(cp, k))]), 'utf8: encode_point writes the UTF-8 bytes of the character')


def t_decode(ver):
    """one byte: the state becomes that of table 3-7 and the bits of the character are collected"""
    lib.install_all(ver)
    for s0 in (OK, T1, T2, T3, AE0, AED, AF0, AF4, ERR):
        st = State()
        b, cp0 = BV('b', 8), BV('cp', 32)
        ver.witness = witness_of(state=NUM[s0], byte=b, collected=cp0)
        r = st.new_region('state', 4)
        c = st.new_region('codep', 4)
        ver.poke(st, Ptr(r, 0), 4, NUM[s0])
        ver.poke(st, Ptr(c, 0), 4, cp0)
        d = delta(s0, b)
        for o in ver.run('@u_decode', [Ptr(r, 0), Ptr(c, 0), b], st):
            ver.prove(o.st, o.kind == 'return', 'utf8: decode_point returns for every byte')
            ver.prove(o.st, and_(eq(o.value, num(d), 32), eq(ver._cell(o.st, r, 0, 4), num(d), 32)), 'utf8: decode_point accepts exactly the bytes the Unicode standard allows next')
            s = o.st.copy()
            s.assume(d != ERR)
            if not ver.feasible(s):
                continue
            if s0 == OK:
                lead = z3.If(z3.ULT(b, 0x80), b, z3.If(z3.ULT(b, 0xe0), b & 0x1f, z3.If(z3.ULT(b, 0xf0), b & 0x0f, b & 0x07)))
                want = z3.ZeroExt(24, lead)
            else:
                want = (cp0 << 6) | z3.ZeroExt(24, b & 0x3f)
            ver.prove(s, eq(ver._cell(s, c, 0, 4), want, 32), 'utf8: decode_point collects the bits of the character')


def t_lemma(ver):
    """the state machine accepts exactly the encodings of Unicode scalar values, one after another"""
    st = State()
    b = [BV('b%d' % i, 8) for i in range(4)]
    s = [c8(OK)]
    for x in b:
        s.append(delta(s[-1], x))
    cp = BV('cp', 32)
    for k in range(1, 5):
        closes = z3.And(s[k] == OK, *[z3.And(s[i] != OK, s[i] != ERR) for i in range(1, k)])
        val = [z3.ZeroExt(24, b[0] & {1: 0x7f, 2: 0x1f, 3: 0x0f, 4: 0x07}[k])]
        v = val[0]
        for x in b[1:k]:
            v = (v << 6) | z3.ZeroExt(24, x & 0x3f)
        ver.prove(st, z3.Implies(closes, z3.And(scalar(v), elen(v) == k, *[x == y for x, y in zip(b, enc(v, k))])),
                  'utf8: (lemma) bytes accepted as one character are the encoding of a Unicode scalar value')
        ver.prove(st, z3.Implies(z3.And(scalar(cp), elen(cp) == k, *[x == y for x, y in zip(b, enc(cp, k))]), closes),
                  'utf8: (lemma) the encoding of every Unicode scalar value is accepted as one character')
    ver.prove(st, z3.Implies(z3.And(*[s[i] != OK for i in range(1, 5)]), s[4] == ERR), 'utf8: (lemma) no character is longer than four bytes')


VALID = [Task('utf8', 'utf8::is_valid', t_valid('u_valid')), Task('utf8', 'utf8::validate', t_valid('u_validate'))]
CODE = [Task('utf8', 'utf8::decode_point', t_decode), Task('utf8', 'utf8::encode_point', t_encode), Task('utf8', 'utf8 (lemma)', t_lemma)]
TASKS = {'C12': VALID + CODE[:1] + CODE[2:], 'C13': CODE}
