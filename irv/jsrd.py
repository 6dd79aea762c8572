"""Contract of the JSON input stream V::js (met by the real streams: specs/js_stream.py) and the ghost functions that define JSON text.

The data is IN[0..END).  A ghost function is given by its recurrence; the instance at position p is assumed when byte p is looked at
(define).  FAIL stands for: there is no such text here."""
import z3
from .core import *
from .core import DIVERGE
from . import lib
from .lib import in_byte, IN, END, W64

FAIL = (1 << 64) - 1
F = z3.BitVecVal(FAIL, 64)
RD = z3.Bool('stream_is_a_reader')


def fun(n):
    return z3.Function(n, W64, W64)


WS = fun('after_white_space')       # first position >= p that is no white space
STR = fun('after_string_from')      # p inside a string literal: the position behind its closing quote
VAL = fun('after_value')            # behind the value that starts at p and the white space after it
KV = fun('after_member')            # behind key : value
OBJ = fun('after_members')          # p at a key: behind the closing brace (and white space)
ARR = fun('after_elements')         # p at an element: behind the closing bracket
NUM = fun('after_number')           # behind the number at p (as the C++ library reads it)
DEC = fun('after_text_from')        # like STR, FAIL when an escape sequence is malformed
PE = fun('last_special_before')     # position behind the last quote or backslash before p


def B(p):
    return in_byte(p)


def c8(c):
    return z3.BitVecVal(ord(c) if isinstance(c, str) else c, 8)


def inside(p):
    return z3.ULT(bv(p, 64), END)


def is_ws(b):
    return z3.Or(b == 32, z3.And(z3.UGE(b, 9), z3.ULE(b, 13)))


def is_word(b):
    return z3.Or(z3.And(z3.UGE(b, 48), z3.ULE(b, 57)), z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), z3.And(z3.UGE(b, 97), z3.ULE(b, 122)), b == 95)


def at(p, c):
    """character c stands at p"""
    return z3.And(inside(p), B(p) == c8(c))


def token(p, t):
    """the literal t stands at p"""
    p = bv(p, 64)
    n = len(t)
    return z3.And(z3.ULE(p, END), z3.UGE(END - p, n), *[B(p + i) == c8(c) for i, c in enumerate(t)],
                  z3.Not(z3.And(inside(p + n), is_word(B(p + n)))))


def step(c, p):
    """behind the expected character c and white space"""
    return z3.If(z3.And(p != F, at(p, c)), WS(p + 1), F)


def bound(f, p, strict=False):
    r = f(p)
    return z3.Or(r == F, z3.And(z3.ULE(r, END), (z3.ULT if strict else z3.ULE)(p, r)))


def lift(f, p):
    return z3.If(p == F, F, f(p))


def d_ws(p):
    return [WS(p) == z3.If(z3.And(inside(p), is_ws(B(p))), WS(p + 1), p), z3.Implies(z3.ULE(p, END), z3.And(z3.ULE(WS(p), END), z3.ULE(p, WS(p))))]


def d_str(p):
    return [STR(p) == z3.If(inside(p), z3.If(B(p) == 34, p + 1, z3.If(B(p) == 92, STR(p + 2), STR(p + 1))), F),
            bound(STR, p, True), z3.Implies(p == END, STR(p + 1) == F)]


def special(b):
    return z3.Or(b == 34, b == 92)


def d_pe(p):
    return [PE(p + 1) == z3.If(special(B(p)), p + 1, PE(p)), z3.ULE(PE(p), p), z3.ULE(PE(p + 1), p + 1)]


def hexv(b):
    """value of a hexadecimal digit, 255 for another character"""
    return z3.If(z3.And(z3.UGE(b, 48), z3.ULE(b, 57)), b - 48, z3.If(z3.And(z3.UGE(b, 97), z3.ULE(b, 102)), b - 87, z3.If(
        z3.And(z3.UGE(b, 65), z3.ULE(b, 70)), b - 55, z3.BitVecVal(255, 8))))


def hex4(p):
    """(four digits stand at p, their value as 32 bits)"""
    d = [hexv(B(p + i)) for i in range(4)]
    ok = z3.And(z3.ULE(p, END), z3.UGE(END - p, 4), *[x != 255 for x in d])
    v = z3.BitVecVal(0, 32)
    for x in d:
        v = v * 16 + z3.ZeroExt(24, x)
    return ok, v


SIMPLE = {'"': 34, '\\': 92, '/': 47, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}


def escape(p):
    """the escape sequence whose backslash stands at p: (well-formed, its length, the character)"""
    e = B(p + 1)
    ok1 = z3.And(inside(p + 1), z3.Or(*[e == ord(c) for c in SIMPLE]))
    ch = z3.BitVecVal(0, 32)
    for c, v in SIMPLE.items():
        ch = z3.If(e == ord(c), z3.BitVecVal(v, 32), ch)
    isu = z3.And(inside(p + 1), e == ord('u'))
    okh, hi = hex4(p + 2)
    okl, lo = hex4(p + 8)
    sur_hi = z3.And(z3.UGE(hi, 0xd800), z3.ULE(hi, 0xdbff))
    sur_lo = z3.And(z3.UGE(lo, 0xdc00), z3.ULE(lo, 0xdfff))
    pair = z3.And(sur_hi, at(p + 6, '\\'), at(p + 7, 'u'), okl, sur_lo)
    lone = z3.And(z3.UGE(hi, 0xd800), z3.ULE(hi, 0xdfff))
    ok = z3.If(isu, z3.And(okh, z3.Or(z3.Not(lone), pair)), ok1)
    n = z3.If(isu, z3.If(sur_hi, z3.BitVecVal(12, 64), z3.BitVecVal(6, 64)), z3.BitVecVal(2, 64))
    cp = z3.If(isu, z3.If(sur_hi, (hi - 0xd800) * 1024 + (lo - 0xdc00) + 0x10000, hi), ch)
    return ok, n, cp


EOK = z3.Function('escape_is_well_formed', W64, z3.BoolSort())
ELEN = fun('escape_length')
ECH = z3.Function('escape_character_bytes', W64, z3.BitVecSort(32))      # length of the UTF-8 of the character


def d_dec(p):
    """escape() defines these three; text only needs that they are functions of the position"""
    ok, n = EOK(p), ELEN(p)
    return [z3.Implies(ok, z3.And(z3.UGE(n, 2), z3.ULE(n, 12), z3.ULE(p + n, END), z3.ULE(p, p + n), z3.UGE(ECH(p), 1), z3.ULE(ECH(p), 4))),
            DEC(p) == z3.If(inside(p), z3.If(B(p) == 34, p + 1, z3.If(B(p) == 92, z3.If(ok, DEC(p + n), F), DEC(p + 1))), F), bound(DEC, p, True)]


def string_at(p):
    return z3.If(at(p, '"'), lift(WS, STR(p + 1)), F)


def d_val(p):
    def tok(t):
        return z3.If(token(p, t), WS(p + len(t)), F)
    b = B(p)
    e1 = WS(p + 1)
    r = lift(WS, NUM(p))
    r = z3.If(b == ord('t'), tok('true'), z3.If(b == ord('f'), tok('false'), z3.If(b == ord('n'), tok('null'), r)))
    r = z3.If(b == 34, string_at(p), r)
    r = z3.If(b == ord('['), z3.If(at(e1, ']'), WS(e1 + 1), ARR(e1)), r)
    r = z3.If(b == ord('{'), z3.If(at(e1, '}'), WS(e1 + 1), OBJ(e1)), r)
    return [VAL(p) == z3.If(inside(p), r, F), bound(VAL, p, True)]


def d_kv(p):
    return [KV(p) == lift(VAL, step(':', string_at(p))), bound(KV, p, True)]


def d_list(f, item, close):
    def d(p):
        e = item(p)
        return [f(p) == z3.If(e == F, F, z3.If(at(e, ','), f(WS(e + 1)), z3.If(at(e, close), WS(e + 1), F))), bound(f, p, True)]
    return d


d_obj = d_list(OBJ, KV, '}')
d_arr = d_list(ARR, VAL, ']')
DEFS = {'WS': d_ws, 'STR': d_str, 'PE': d_pe, 'DEC': d_dec, 'VAL': d_val, 'KV': d_kv, 'OBJ': d_obj, 'ARR': d_arr}


def define(v, st, p):
    """instances of the definitions at p"""
    p = bv(p, 64)
    for d in v.js_defs:
        for a in DEFS[d](p) if isinstance(d, str) else d(p):
            st.assume(a)


# ---------------------------------------------------------------- the stream
def jpos(st):
    return st.ghost['jp']


def new_js(v, st, pos):
    r = st.new_region('js', 8)
    st.ghost['jp'] = pos
    st.ghost['viewed'] = 0
    st.ghost['view'] = 0
    st.assume(z3.And(z3.ULE(bv(pos, 64), END), z3.ULE(END, 1 << 46)))
    v.view_n = getattr(v, 'view_n', 0)
    return Ptr(r, 0)


def move(st, to, viewed=0, keep=False):
    st.ghost['jp'] = to
    st.ghost['viewed'] = viewed
    if not keep:
        st.ghost['view'] = 0


def live_views(st):
    g = st.ghost.get('view')
    return [r for r in st.mem if r.name == 'view' and isint(g) and g == r.id]


def at_end(v, st):
    """the two reactions to the end of the data: (state where the caller sees 'no character', state that throws)"""
    a, b = st.copy(), st
    a.assume(z3.Not(RD))
    b.assume(RD)
    return (a if v.feasible(a) else None), (v.throw(b, 'eof') if v.feasible(b) else None)


def install_js(ver):
    C = ver.contract
    ver.js_defs = getattr(ver, 'js_defs', ['WS'])

    def split(v, st):
        """(state with a character, state at the end)"""
        return v.fork(st, inside(jpos(st)))

    @C(r'V::js::size\(\) const')
    def _(v, st, a, ins):
        return [(st, sub(END, jpos(st)))]

    @C(r'V::js::empty\(\) const')
    def _(v, st, a, ins):
        return [(st, frombool(eq(END, jpos(st))))]

    @C(r'V::js::skip\(unsigned long\)')
    def _(v, st, a, ins):
        n = a[1]
        v.prove(st, ule(n, st.ghost['viewed']), 'memory: no more is skipped than was seen')
        st.assume(zbool(ule(n, st.ghost['viewed'])))
        p = jpos(st)
        lib.step_lemma(st, p, END, n)
        move(st, add(p, n), sub(st.ghost['viewed'], n), keep=True)
        define(v, st, jpos(st))
        return [(st, None)]

    def consume(v, st, c, ws):
        p = jpos(st)
        ok, end = split(v, st)
        out = []
        if ok is not None:
            hit, miss = v.fork(ok, normb(B(p) == bv(c, 8)))
            if hit is not None:
                lib.step_lemma(hit, p, END, 1)
                define(v, hit, p)
                define(v, hit, bv(p, 64) + 1)
                q = add(p, 1)
                if ws:
                    q = norm(WS(bv(q, 64)))
                    define(v, hit, q)
                move(hit, q)
                out.append((hit, 1))
            if miss is not None:
                define(v, miss, p)
                miss.ghost['view'] = 0
                miss.ghost['viewed'] = 0
                out.append((miss, 0))
        if end is not None:
            x, t = at_end(v, end)
            if x is not None:
                define(v, x, p)
                out.append((x, 0))
            if t is not None:
                out.append((t, None))
        return out

    @C(r'V::js::consume\(char\)')
    def _(v, st, a, ins):
        return consume(v, st, a[1], False)

    @C(r'V::js::consume_and_skip_white_space\(char\)')
    def _(v, st, a, ins):
        return consume(v, st, a[1], True)

    @C(r'V::js::consume_and_skip_white_space\(std::basic_string_view<char, .*>\)')
    def _(v, st, a, ins):
        n, q = (a[1], a[2]) if isint(a[1]) else (a[2], a[1])
        if not isint(n) or n == 0:
            raise Unsupported('token')
        bs = v.load_bytes(st, q, n)
        if not all(isint(b) for b in bs):
            raise Unsupported('token is no constant')
        p = jpos(st)
        define(v, st, p)
        hit, miss = v.fork(st, normb(token(p, [chr(b) for b in bs])))
        out = []
        if hit is not None:
            q = bv(p, 64) + n
            define(v, hit, q)
            q = norm(WS(q))
            define(v, hit, q)
            move(hit, q)
            out.append((hit, 1))
        if miss is not None:
            miss.ghost['view'] = 0
            miss.ghost['viewed'] = 0
            out.append((miss, 0))
        return out

    @C(r'V::js::current_char\(\)')
    def _(v, st, a, ins):
        p = jpos(st)
        ok, end = split(v, st)
        out = []
        if ok is not None:
            define(v, ok, p)
            ok.ghost['view'] = 0
            ok.ghost['viewed'] = 1
            # a plain char or an unsigned one
            b = B(p)
            out.append((ok, norm(z3.If(RD, z3.SignExt(24, b), z3.ZeroExt(24, b)))))
        if end is not None:
            define(v, end, p)
            x, t = at_end(v, end)
            if x is not None:
                out.append((x, 0xffffffff))
            if t is not None:
                out.append((t, None))
        return out

    @C(r'V::js::skip_white_spaces\(\)')
    def _(v, st, a, ins):
        p = bv(jpos(st), 64)
        define(v, st, p)
        q = norm(WS(p))
        define(v, st, q)
        move(st, q)
        return [(st, None)]

    @C(r'V::js::consume_current_char\(bool\)')
    def _(v, st, a, ins):
        p = jpos(st)
        ws = a[1]
        ws = ws & 1 if isint(ws) else ws
        if not isint(ws):
            raise Unsupported('consume_current_char(symbolic)')
        ok, end = split(v, st)
        out = []
        if ok is not None:
            lib.step_lemma(ok, p, END, 1)
            define(v, ok, p)
            q = add(p, 1)
            define(v, ok, q)
            if ws:
                q = norm(WS(bv(q, 64)))
                define(v, ok, q)
            move(ok, q)
            out.append((ok, None))
        if end is not None:
            v.prove(end, z3.Not(RD), 'memory: no more is skipped than was seen')
            end.assume(z3.Not(RD))
            out.append((v.throw(end, 'eof'), None))
        return out

    @C(r'V::js::view\(unsigned long, unsigned long\)')
    def _(v, st, a, ins):
        mn, mx = bv(a[1], 64), bv(a[2], 64)
        p = bv(jpos(st), 64)
        define(v, st, p)
        av = END - p
        v.prove(st, ule(mn, 256), 'control: a stream is never asked for more than its buffer can hold')
        st.assume(z3.ULE(mn, 256))
        v.prove(st, ule(mn, mx), 'control: the smallest view wanted is not larger than the largest')
        ok, bad = v.fork(st, normb(z3.ULE(mn, av)))
        out = []
        if ok is not None:
            m = fresh(64, 'viewed')
            top = z3.If(z3.ULE(av, mx), av, mx)
            low = z3.If(z3.ULE(top, 256), top, z3.BitVecVal(256, 64))
            ok.assume(z3.And(z3.ULE(m, top), z3.ULE(low, m), z3.ULE(p, p + m), z3.ULE(p + m, END)))
            i = z3.BitVec(fresh_name('i'), 64)
            reg = ok.new_region('view', m, const=True, arr=z3.Lambda([i], z3.Select(IN, p + i)))
            reg.jbase = p
            ok.ghost['view'] = reg.id
            ok.ghost['viewed'] = m
            v.load_hooks[reg] = (lambda reg: lambda s, off: seen(v, s, reg, off))(reg)
            out.append((ok, Agg([m, Ptr(reg, 0)])))
        if bad is not None:
            out.append((v.throw(bad, 'eof'), None))
        return out


def seen(v, st, reg, off):
    g = st.ghost.get('view')
    v.prove(st, isint(g) and g == reg.id, 'memory: a view of the stream is not used after the stream has moved on')
    define(v, st, reg.jbase + bv(off, 64))
