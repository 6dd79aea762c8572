"""C13, C15, C16, C17, C18: lexical part of JSON reading over every stream that meets the contract of irv/jsrd.py."""
import re
from .common import *
from irv import jsrd as Q
from irv.jsrd import (WS, STR, VAL, KV, OBJ, ARR, NUM, DEC, PE, F, RD, jpos, define, string_at, lift, step as jstep, at as char_at, inside, token)
from irv.run import Task

HARNESS = {'js_lex': ('/verif/harness/js_lex.cpp', [])}
P0 = BV('pos', 64)


def once(ver, pat, fn):
    """a contract for the calls of a function from inside: the first call (that of the harness) runs its body"""
    @ver.contract(pat)
    def _(v, st, a, ins):
        if v.under_test and re.search(v.under_test, v.demangled(ins.a[0][1])) and not st.ghost.get('#entered'):
            st.ghost['#entered'] = True
            return NotImplemented
        return fn(v, st, a, ins)


def skipper(ver, name, fun, pre=None):
    """contract of a function that skips text: moves to fun(pos), or throws when that is FAIL"""
    def fn(v, st, a, ins):
        p = bv(jpos(st), 64)
        define(v, st, p)
        if pre:
            v.prove(st, pre(p), 'skip: called at the right place')
        e = fun(p)
        out = []
        ok, bad = v.fork(st, normb(e != F))
        if ok is not None:
            x = norm(e)
            ok.assume(z3.ULE(e, END))
            define(v, ok, x)
            Q.move(ok, x)
            out.append((ok, None))
        if bad is not None:
            out.append((v.throw(bad, 'skip'), None))
        return out
    once(ver, r'(void|auto) spb::json::detail::%s<V::js>\(V::js&\)' % name, fn)


def obj_at(p):
    e = WS(p + 1)
    return z3.If(char_at(p, '{'), z3.If(char_at(e, '}'), WS(e + 1), OBJ(e)), F)


def arr_at(p):
    e = WS(p + 1)
    return z3.If(char_at(p, '['), z3.If(char_at(e, ']'), WS(e + 1), ARR(e)), F)


def number_at(p):
    return lift(WS, NUM(p))


SKIP = {'ignore_string': (string_at, None), 'ignore_value': (VAL, None), 'ignore_object': (obj_at, lambda p: char_at(p, '{')),
        'ignore_array': (arr_at, lambda p: char_at(p, '[')), 'ignore_key_and_value': (KV, None)}
ALLDEFS = ['WS', 'STR', 'VAL', 'KV', 'OBJ', 'ARR']


def js_cands(funcs, rev=()):
    def f(v, st, inst, key):
        out = [('bound: position within the data', lambda s: ule(jpos(s), END))]
        p0 = jpos(st)
        for g in funcs:
            out.append(('jp keeps %s' % g.name(), lambda s, g=g: g(bv(jpos(s), 64)) == g(bv(p0, 64))))
        out.append(('jp moves on', lambda s: ule(p0, jpos(s))))
        views = Q.live_views(st)
        for r in views:
            out.append(('the view is alive', lambda s, r=r: eq(s.ghost['view'], r.id)))
            for q in v.loop_phis:
                x0 = st.frames[-1].env[q]
                if isinstance(x0, Ptr) and x0.reg is not r:
                    continue
                w = 64
                if not isinstance(x0, Ptr) and not (isint(x0) or (z3.is_bv(x0) and x0.size() == 64)):
                    continue

                def off(s, q=q):
                    x = s.frames[-1].env[q]
                    return bv(x.off if isinstance(x, Ptr) else x, 64)
                for g in funcs:
                    out.append(('%s keeps %s' % (q, g.name()), lambda s, g=g, off=off, o0=off(st), r=r: g(r.jbase + off(s)) == g(r.jbase + o0)))
                o0, sz = off(st), bv(r.size, 64)
                out.append(('bound: %s in the view' % q, lambda s, off=off, o0=o0, sz=sz: ule(off(s), z3.If(z3.ULE(o0, sz), sz, o0))))
                out.append(('bound: %s in the view + 1' % q, lambda s, off=off, sz=sz: ule(off(s), sz + 1)))
                if PE in rev:
                    out.append(('only plain characters before ' + q, lambda s, off=off, r=r: z3.ULE(PE(r.jbase + off(s)), r.jbase)))
        return out
    return f


def js_start(ver, defs, funcs=(), rev=()):
    lib.install_all(ver)
    ver.js_defs = defs
    Q.install_js(ver)
    use_numbers(ver)
    ver.no_cands = {'view', 'viewed'}
    ver.max_unroll = 0
    st = State()
    s = Q.new_js(ver, st, P0)
    define(ver, st, P0)
    ver.custom_cands = [js_cands(funcs, rev)]
    ver.measures = [('bytes left', lambda x: sub(END, jpos(x)))]
    ver.witness = witness_of(pos=P0, end=END, **{'b%d' % i: in_byte(P0 + i) for i in range(16)})
    return st, s


def use_numbers(ver):
    """std::from_chars of the C++ library (assumed): reads the number at p as far as it goes; value and end are functions of the text"""
    def fn(v, st, a, ins):
        d = v.demangled(ins.a[0][1])
        m = re.search(r'std::from_chars(?:<([\w ]+)(?:, void)?>)?\(char const\*, char const\*, ([\w ]+)&', d)
        if not m:
            raise Unsupported('from_chars: ' + d)
        ty = m.group(1) or m.group(2)
        first, last, dst = a[0], a[1], a[2]
        base = a[3] if len(a) > 3 and m.group(1) else 10
        fl = ty in ('float', 'double')
        w = {'float': 32, 'double': 64}.get(ty) or CT[ty][0]
        if not isint(base):
            raise Unsupported('from_chars base')
        if first.reg is None and last.reg is None:
            return [(st, Agg([NULL, 22]))]
        if first.reg is not last.reg:
            v.prove(st, False, 'memory: both ends of the text of a number are in one object')
            return [(st, DIVERGE)]
        n = norm(bv(sub(last.off, first.off), 64))
        v.prove(st, ule(first.off, last.off), 'memory: the text of a number ends behind its start')
        v.check_access(st, first, n, 'text of a number')
        out = []
        key = number_text(v, st, first, n)
        e, ok, val = number_model(v, st, key, ty, base, fl, w, n)
        good = st.copy()
        good.assume(ok)
        if v.feasible(good):
            v.poke(good, dst, w // 8, val)
            out.append((good, Agg([v.ptradd(first, e), 0])))
        bad = st
        bad.assume(z3.Not(ok))
        if v.feasible(bad):
            ec = fresh(32, 'errc')
            bad.assume(z3.Or(ec == 22, ec == 34))
            out.append((bad, Agg([v.ptradd(first, fresh_le(bad, n)), ec])))
        return out
    ver.contract(r'std::from_chars_result std::from_chars<.*>\(char const\*, char const\*, .*|std::from_chars\(char const\*, char const\*, (float|double)&, std::chars_format\)|.* std::from_chars<.*>\(char const\*, char const\*, .*')(fn)


def fresh_le(st, n):
    x = fresh(64, 'numend')
    st.assume(z3.ULE(x, bv(n, 64)))
    return x


_num = {}


def nfun(name, ty, base, rng):
    k = (name, ty, base)
    if k not in _num:
        _num[k] = z3.Function('%s_%s_%d' % (name, ty.replace(' ', '_'), base), W64, W64, rng)
    return _num[k]


W64 = z3.BitVecSort(64)


def number_text(v, st, first, n):
    """where in the input the text of the number stands; None when it is not a piece of the input"""
    if first.reg.name == 'view':
        Q.seen(v, st, first.reg, first.off)
        return norm(first.reg.jbase + bv(first.off, 64))
    src = st.ghost.get(('copied', first.reg.id))
    if src is not None:
        return norm(bv(src, 64) + bv(first.off, 64))
    return None


def number_model(v, st, key, ty, base, fl, w, n):
    """(length, read, value): for base 16 by definition, otherwise unknown functions of the text at key cut after n characters"""
    if base == 16 and not fl:
        if key is None or not (isint(n) and n == 4 or v._quick(st.pc, bv(n, 64) == 4)):
            raise Unsupported('hexadecimal number of unknown length')
        # digits as far as they go; four of them at most
        ok, val = Q.hex4(key)
        d = [Q.hexv(in_byte(key + i)) != 255 for i in range(4)]
        one = d[0]
        ln = z3.If(z3.And(*d), BVV(4, 64), z3.If(z3.And(*d[:3]), BVV(3, 64), z3.If(z3.And(*d[:2]), BVV(2, 64), BVV(1, 64))))
        x = fresh(w, 'hex')
        st.assume(z3.Implies(ok, x == (z3.Extract(w - 1, 0, val) if w <= 32 else z3.ZeroExt(w - 32, val))))
        return ln, one, x
    if key is None:
        raise Unsupported('number in a local buffer')
    n = bv(n, 64)
    e = nfun('number_length', ty, base, W64)(key, n)
    val = nfun('number_value', ty, base, z3.BitVecSort(w))(key, n)
    st.assume(z3.ULE(e, n))
    ok = e != 0
    return e, ok, val


def number_spec(ty, p, n, w, base=10):
    """(well-formed and in range, length, value) of the number whose text starts at p, at most n characters"""
    e = nfun('number_length', ty, base, W64)(bv(p, 64), bv(n, 64))
    return e != 0, e, nfun('number_value', ty, base, z3.BitVecSort(w))(bv(p, 64), bv(n, 64))


def cut32(p):
    av = END - p
    return z3.If(z3.ULE(av, 32), av, BVV(32, 64))


def d_num(p):
    """the number that is skipped: as a double, 32 characters at most"""
    ok, e, val = number_spec('double', p, cut32(p), 64)
    return [NUM(p) == z3.If(z3.And(inside(p), ok), p + e, F), z3.ULE(e, cut32(p))]


def t_skip(name, *extra):
    def t(ver):
        fun, pre = SKIP[name]
        fs = {'ignore_object': [OBJ], 'ignore_array': [ARR], 'ignore_string': [STR], 'ignore_value': [], 'ignore_key_and_value': []}[name]
        st, s = js_start(ver, ALLDEFS, fs)
        ver.under_test = name + '<'
        for k, (f, pr) in SKIP.items():
            skipper(ver, k, f, pr)
        if pre:
            st.assume(pre(P0))
        use_number_skip(ver)
        for o in ver.run('@k_' + name, [s], st):
            e = fun(P0)
            if o.kind == 'return':
                ver.prove(o.st, z3.And(e != F, bv(jpos(o.st), 64) == e), 'skip: exactly one well-formed %s is skipped' % name.replace('ignore_', '').replace('_', ' '))
            else:
                ver.prove(o.st, e == F, 'skip: an exception only for malformed JSON')
    return t


def use_number_skip(ver):
    """the unknown number is read as a double"""
    @ver.contract(r'void spb::json::detail::ignore_number<V::js>\(V::js&\)')
    def _(v, st, a, ins):
        p = bv(jpos(st), 64)
        for x in d_num(p):
            st.assume(x)
        return NotImplemented



def t_until(ver):
    st, s = js_start(ver, ALLDEFS, [STR])
    ver.under_test = 'ignore_string_until_double_quota'
    use_until(ver)
    for o in ver.run('@k_until', [s], st):
        e = until_at(P0)
        if o.kind == 'return':
            ver.prove(o.st, z3.And(e != F, bv(jpos(o.st), 64) == e), 'skip: exactly the rest of the string is skipped')
        else:
            ver.prove(o.st, e == F, 'skip: an exception only for malformed JSON')


def until_at(p):
    return lift(WS, STR(p))


def use_until(ver):
    skipper(ver, 'ignore_string_until_double_quota', until_at)


def sv_args(a):
    """std::string_view arguments arrive as (length, pointer)"""
    return a


# ---------------------------------------------------------------- raw text of a string into a buffer
def raw_len(p):
    """length of the raw text of the string at p (a string stands there)"""
    return STR(p + 1) - p - 2


def copy_notes(ver):
    """a copy of a piece of the input is remembered as such"""
    def hook(v, st, d, s, n):
        if s.reg is not None and s.reg.name == 'view':
            Q.seen(v, st, s.reg, s.off)
            if not (isint(n) and n <= 8):
                lib.copy_in(v, st, d, s.reg.jbase + bv(s.off, 64), n)
                if isint(d.off) and d.off == 0:
                    st.ghost[('copied', d.reg.id)] = s.reg.jbase + bv(s.off, 64)
                return True
        return False
    ver.copy_hook = hook


def use_buffer(ver):
    """contract of deserialize_string_to_buffer (task 'json deserialize_string_to_buffer')"""
    def fn(v, st, a, ins):
        mn, mx, b = bv(a[1], 64), bv(a[2], 64), a[3]
        p = bv(jpos(st), 64)
        define(v, st, p)
        define(v, st, p + 1)
        v.prove(st, z3.And(z3.ULT(mx, 256), z3.ULE(mn, mx)), 'control: a buffer for text is not larger than the buffer of a reader')
        v.check_access(st, b, mx, 'buffer for text', True)
        e = string_at(p)
        out = []
        ok, bad = v.fork(st, normb(e != F))
        if ok is not None:
            ln = raw_len(p)
            define(v, ok, e)
            Q.move(ok, norm(e))
            fit, no = v.fork(ok, normb(z3.And(z3.ULE(mn, ln), z3.ULE(ln, mx))))
            if fit is not None:
                lib.copy_in(v, fit, b, p + 1, norm(ln))
                fit.ghost[('copied', b.reg.id)] = norm(p + 1 - bv(b.off, 64))
                out.append((fit, Agg([norm(ln), b])))
            if no is not None:
                no.ghost[('copied', b.reg.id)] = None
                out.append((no, Agg([0, NULL])))
        if bad is not None:
            out.append((v.throw(bad, 'skip'), None))
        return out
    once(ver, r'.*spb::json::detail::deserialize_string_to_buffer<V::js>\(V::js&, unsigned long, unsigned long, char\*\)', fn)


def t_buffer(fname, after=None):
    def t(ver):
        st, s = js_start(ver, ALLDEFS, [STR])
        use_until(ver)
        copy_notes(ver)
        ver.under_test = 'deserialize_string_to_buffer' if after is None else 'deserialize_key'
        if after:
            use_buffer(ver)
        mn, mx = BV('min', 64), BV('max', 64)
        st.assume(z3.And(z3.ULT(mx, 256), z3.ULE(mn, mx)))
        define(ver, st, P0 + 1)
        b = st.new_region('buffer', mx)
        for o in ver.run('@' + fname, [s, mn, mx, Ptr(b, 0)], st):
            e = string_at(P0)
            if after:
                e = jstep(after, e)
            if o.kind == 'throw':
                ver.prove(o.st, e == F, 'key: an exception only for malformed JSON')
                continue
            ver.prove(o.st, z3.And(e != F, bv(jpos(o.st), 64) == e), 'key: exactly one string%s is read' % (' and its colon' if after else ''))
            n, q = o.value.el
            ln = raw_len(P0)
            fits = z3.And(z3.ULE(mn, ln), z3.ULE(ln, mx))
            if q.reg is None:
                ver.prove(o.st, eq(n, 0), 'key: no text without memory')
                ver.prove(o.st, z3.Not(z3.And(fits, ln != 0)), 'key: a string of a length that is allowed is handed over')
                continue
            ver.prove(o.st, q.reg is b and eq(q.off, 0), 'key: the text is in the buffer')
            ver.prove(o.st, and_(fits, eq(n, ln)), 'key: the text has the length of the string')
            x = o.st.copy()
            x.assume(z3.ULT(J, bv(n, 64)))
            ver.prove(x, eq(ver._load_byte(x, b, J), in_byte(P0 + 1 + J), 8), 'key: the text is that of the string')
    return t


J = BV('j', 64)


# ---------------------------------------------------------------- escapes
def use_hex(ver):
    pass


def t_hex(ver):
    st, s = js_start(ver, ['WS'])
    ok, v = Q.hex4(P0)
    for o in ver.run('@k_hex', [s], st):
        if o.kind == 'return':
            ver.prove(o.st, z3.And(ok, bv(jpos(o.st), 64) == P0 + 4), 'escape: four hexadecimal digits are read')
            ver.prove(o.st, eq(o.value, z3.Extract(15, 0, v), 16), 'escape: the value of the digits')
        else:
            ver.prove(o.st, z3.Not(ok), 'escape: an exception only when no four hexadecimal digits stand there')


def t_unescape(ver):
    from . import utf8 as U
    st, s = js_start(ver, ['WS'])
    q = P0 - 1
    st.assume(z3.UGE(P0, 1))
    ok, n, cp = Q.escape(q)
    b = st.new_region('utf8', 4)
    for o in ver.run('@k_unescape', [s, Ptr(b, 0)], st):
        if o.kind == 'return':
            ver.prove(o.st, z3.And(ok, bv(jpos(o.st), 64) == q + n), 'escape: exactly one well-formed escape sequence is read')
            ver.prove(o.st, eq(o.value, U.elen(cp), 32), 'escape: the character takes its UTF-8 length')
            for k in range(1, 5):
                x = o.st.copy()
                x.assume(U.elen(cp) == k)
                if ver.feasible(x):
                    ver.prove(x, and_(*[eq(ver._load_byte(x, b, i), e, 8) for i, e in enumerate(U.enc(cp, k))]), 'escape: the bytes are the UTF-8 of the character')
        else:
            ver.prove(o.st, z3.Not(ok), 'escape: an exception only for a malformed escape sequence')


def use_unescape(ver):
    """contract of unescape (task 'json unescape'): the character of the escape sequence whose backslash was just consumed"""
    @ver.contract(r'.*spb::json::detail::unescape<V::js>\(V::js&, char\*\)')
    def _(v, st, a, ins):
        q = bv(jpos(st), 64) - 1
        v.prove(st, z3.And(jpos(st) != 0, in_byte(q) == 92), 'string: an escape sequence starts with a backslash')
        v.check_access(st, a[1], 4, 'character', True)
        ok, n = Q.EOK(q), Q.ELEN(q)
        define(v, st, q)
        out = []
        g, bad = v.fork(st, normb(ok))
        if g is not None:
            ln = Q.ECH(q)
            bs = [fresh(8, 'ch') for i in range(4)]
            for i, x in enumerate(bs):
                v.poke(g, Ptr(a[1].reg, add(a[1].off, i)), 1, x)
            g.ghost['esc'] = (q, n, ln, tuple(bs), a[1])
            define(v, g, q + n)
            Q.move(g, norm(q + n))
            out.append((g, ln))
        if bad is not None:
            out.append((v.throw(bad, 'escape'), None))
        return out


# ---------------------------------------------------------------- strings
def piece(v, st, q, n):
    """n bytes are added to the value: they have to be the next characters of the text"""
    src = bv(st.ghost['src'], 64)
    if isint(n) and n == 0:
        st.ghost['want'] = None
        return
    if q.reg.name == 'view':
        Q.seen(v, st, q.reg, q.off) if not (isint(q.off) and q.off == 0) else None
        p = q.reg.jbase + bv(q.off, 64)
        v.prove(st, or_(eq(n, 0), z3.And(p == src, z3.ULE(PE(p + bv(n, 64)), p))), 'string: the next piece of text without escapes is added')
        st.ghost['src'] = norm(src + bv(n, 64))
        st.ghost['olen'] = add(st.ghost['olen'], n)
        st.ghost['want'] = None
        return
    e = st.ghost.get('esc')
    if e is None:
        v.prove(st, False, 'string: only text of the input is added')
        return
    eq_, en, eln, bs, where = e
    v.prove(st, and_(eq_ == src, eq(n, z3.ZeroExt(32, eln))), 'string: an escape sequence adds its character')
    for i in range(4):
        x = st.copy()
        x.assume(z3.UGT(bv(n, 64), i))
        if v.feasible(x):
            v.prove(x, eq(v._load_byte(x, q.reg, add(q.off, i)), bs[i], 8), 'string: the bytes of the character are added')
    st.ghost['src'] = norm(eq_ + en)
    st.ghost['olen'] = add(st.ghost['olen'], n)
    st.ghost['esc'] = None
    st.ghost['want'] = None


def use_string_parts(ver, val, maxs, fixed):
    use_unescape(ver)

    @ver.contract(r'V::seq<char, 0>::append\(char const\*, unsigned long\).*')
    def _(v, st, a, ins):
        p, q, n = a
        if not (isint(n) and n == 0):
            v.check_access(st, q, n, 'append')
        v.prove(st, p.reg is val.reg, 'string: only the value is changed')
        piece(v, st, q, n)
        nsz = add(lib.seq_size(st, p), n)
        st.ghost[('seqsize',) + lib.stream_id(p)] = nsz
        if maxs:
            v.prove(st, ule(nsz, maxs), 'limits: a longer string is rejected')
        return [(st, None)]

    @ver.contract(r".*'lambda'\(char const\*, unsigned long\)::operator\(\)\(char const\*, unsigned long\) const")
    def _(v, st, a, ins):
        st.ghost['want'] = a[2]
        return NotImplemented

    def hook(v, st, d, s, n):
        if d.reg is not None and d.reg.name == 'seqdata':
            v.prove(st, eq(d.off, st.ghost['olen']), 'string: a piece is put behind the one before')
            piece(v, st, s, n)
            return True
        return False
    ver.copy_hook = hook

    @ver.contract(r'spb::json::detail::check_size\(unsigned long, unsigned long\)')
    def _(v, st, a, ins):
        ok, bad = v.fork(st, normb(zbool(ule(a[0], a[1]))))
        out = []
        if ok is not None:
            out.append((ok, None))
        if bad is not None:
            bad.ghost['asked'] = a[0]
            out.append((v.throw(bad, 'length'), None))
        return out

    @ver.contract(r'spb::detail::utf8::validate\(std::basic_string_view<char, .*>\)')
    def _(v, st, a, ins):
        n, q = a
        v.prove(st, and_(q.reg is lib.seq_data(st, val), eq(q.off, 0), eq(n, lib.seq_size(st, val))), 'utf8: the whole string is checked')
        t = st.copy()
        t.ghost['notutf8'] = True
        st.ghost['checked'] = True
        return [(st, None), (v.throw(t, 'utf8'), None)]


def t_string(fname, maxs=0, fixed=False):
    def t(ver):
        st, s = js_start(ver, ['WS', 'DEC', 'PE'], [DEC], [PE])
        val = Ptr(st.new_region('value', 8), 0)
        size = BV('fixed_size', 64)
        if fixed:
            st.assume(z3.ULE(size, 1 << 40))
            lib.make_seq(ver, st, val, size)
        else:
            lib.make_seq(ver, st, val)
        use_string_parts(ver, val, maxs, fixed)
        st.ghost.update({'src': norm(P0 + 1), 'olen': 0, 'esc': None, 'want': None})
        define(ver, st, P0 + 1)
        base = ver.custom_cands

        def more(v, st0, inst, key):
            out = [('src = the position', lambda x: eq(x.ghost['src'], jpos(x))),
                   ('decoded bytes counted', lambda x: ule(x.ghost['olen'], sub(x.ghost['src'], P0 + 1)))]
            if not fixed:
                out.append(('size = bytes added', lambda x: eq(lib.seq_size(x, val), x.ghost['olen'])))
                if maxs:
                    out.append(('bound: size within the limit', lambda x: ule(x.ghost['olen'], maxs)))
            else:
                for c in list(v.loop_cells) + list(v.loop_phis):
                    g = (lambda c: lambda x: x.frames[-1].env[c] if isinstance(c, str) else v._cell(x, *c))(c)
                    try:
                        w = g(st0)
                    except KeyError:
                        continue
                    if isint(w) or (z3.is_bv(w) and w.size() == 64):
                        out.append(('index %s = bytes added' % (c,), lambda x, g=g: eq(g(x), x.ghost['olen'])))
                out.append(('bound: bytes within the size', lambda x: ule(x.ghost['olen'], size)))
            return out
        ver.custom_cands = base + [more]
        for o in ver.run('@' + fname, [s, val], st):
            g = o.st.ghost
            e = z3.If(char_at(P0, '"'), DEC(P0 + 1), F)
            src = bv(g['src'], 64)
            if o.kind == 'return':
                ver.prove(o.st, z3.And(e != F, e == src + 1), 'string: every character of the text is in the value')
                ver.prove(o.st, bv(jpos(o.st), 64) == WS(e), 'string: exactly the string is read')
                ver.prove(o.st, bool(g.get('checked')), 'utf8: a string that was read is valid UTF-8')
                if fixed:
                    ver.prove(o.st, eq(g['olen'], size), 'limits: a string of another size than the fixed one is rejected')
                else:
                    ver.prove(o.st, eq(lib.seq_size(o.st, val), g['olen']), 'string: nothing else is in the value')
                continue
            why = [e == F, bool(g.get('notutf8'))]
            if g.get('want') is not None:
                n = bv(g['want'], 64)
                lim = size if fixed else BVV(maxs, 64)
                plain = z3.And(z3.ULE(PE(src + n), src), z3.ULE(src + n, END), z3.ULE(src, src + n)) if maxs or fixed else False
                esc = False
                if g.get('esc'):
                    q, _, ln, _, _ = g['esc']
                    esc = z3.And(q == src, n == z3.ZeroExt(32, ln))
                why.append(and_(or_(plain, esc), z3.UGT(bv(g['olen'], 64) + n, lim)))
            if fixed:
                why.append(z3.And(in_byte(src) == 34, src + 1 == e, bv(g['olen'], 64) != size))
            ver.prove(o.st, or_(*why), 'accept: an exception only for text that is malformed or not allowed')
    return t


def jpos_end(r):
    return r.jbase + bv(r.size, 64)


# ---------------------------------------------------------------- numbers and bools
NTY = {'i8': ('signed char', 8), 'i16': ('short', 16), 'i32': ('int', 32), 'i64': ('long', 64), 'u8': ('unsigned char', 8), 'u16': ('unsigned short', 16),
       'u32': ('unsigned int', 32), 'u64': ('unsigned long', 64), 'float': ('float', 32), 'double': ('double', 64)}


def num_json(ty, w):
    """(a number of this type stands at P0, position behind it, value)"""
    q = in_byte(P0) == 34
    ln = raw_len(P0)
    ok1, e1, v1 = number_spec(ty, P0 + 1, ln, w)
    okq = z3.And(string_at(P0) != F, z3.UGE(ln, 1), z3.ULE(ln, 32), ok1, e1 == ln)
    ok2, e2, v2 = number_spec(ty, P0, cut32(P0), w)
    return z3.And(inside(P0), z3.If(q, okq, ok2)), z3.If(q, string_at(P0), WS(P0 + e2)), z3.If(q, v1, v2)


def t_num(nm, bits=False):
    def t(ver):
        ty, w = NTY[nm]
        st, s = js_start(ver, ['WS', 'STR'])
        ver.under_test = None
        use_buffer(ver)
        define(ver, st, P0 + 1)
        ok, e, val = num_json(ty, w)
        sg = nm[0] == 'i'
        if bits:
            nb = BV('bits', 32)
            st.assume(z3.And(z3.UGE(nb, 1), z3.ULE(nb, w)))
            fb = fits_bits(val, w, sg, z3.ZeroExt(32, nb))
            outs = ver.run('@k_bits_' + nm, [s, nb], st)
        else:
            d = st.new_region('field', w // 8)
            outs = ver.run('@k_num_' + nm, [s, Ptr(d, 0)], st)
            fb = z3.BoolVal(True)
        for o in outs:
            if o.kind == 'return':
                got = o.value if bits else ver._cell(o.st, d, 0, w // 8)
                ver.prove(o.st, z3.And(ok, fb), 'number: only a number that is representable in the field is accepted')
                ver.prove(o.st, bv(jpos(o.st), 64) == e, 'number: exactly the number is read')
                ver.prove(o.st, eq(got, val, w), 'number: the value stored is that of the text')
            else:
                ver.prove(o.st, z3.Not(z3.And(ok, fb)), 'number: every representable number is accepted')
    return t


def t_bool(ver):
    st, s = js_start(ver, ['WS'])
    d = st.new_region('field', 1)
    for o in ver.run('@k_bool', [s, Ptr(d, 0)], st):
        tr, fa = token(P0, 'true'), token(P0, 'false')
        if o.kind == 'return':
            ver.prove(o.st, bv(jpos(o.st), 64) == z3.If(tr, WS(P0 + 4), WS(P0 + 5)), 'bool: exactly the literal is read')
            ver.prove(o.st, z3.Or(tr, fa), 'bool: only true and false are accepted')
            ver.prove(o.st, eq(ver._cell(o.st, d, 0, 1), z3.If(tr, BVV(1, 8), BVV(0, 8)), 8), 'bool: the value stored is that of the literal')
        else:
            ver.prove(o.st, z3.Not(z3.Or(tr, fa)), 'bool: true and false are accepted')


SK = [Task('js_lex', 'json ' + k, t_skip(k), lean=True) for k in SKIP] + [Task('js_lex', 'json ignore_string_until_double_quota', t_until, lean=True)]
KEY = [Task('js_lex', 'json deserialize_string_to_buffer', t_buffer('k_buffer'), lean=True), Task('js_lex', 'json deserialize_key', t_buffer('k_key', ':'), lean=True)]
ESC = [Task('js_lex', 'json unicode_from_hex', t_hex), Task('js_lex', 'json unescape', t_unescape)]
STRS = [Task('js_lex', 'json string', t_string('k_str'), lean=True), Task('js_lex', 'json string with max_size', t_string('k_str_max', 10), lean=True),
        Task('js_lex', 'json string of fixed size', t_string('k_fstr', 0, True), lean=True)]
NUMS = [Task('js_lex', 'json number ' + k, t_num(k)) for k in NTY]
BITS = [Task('js_lex', 'json bit-field ' + k, t_num(k, True)) for k in NTY if k[0] in 'iu']
BOOL = [Task('js_lex', 'json bool', t_bool)]
TASKS = {'C03': BITS, 'C11': STRS[1:], 'C12': STRS, 'C13': ESC + STRS, 'C15': NUMS + BITS + BOOL, 'C16': KEY[1:], 'C17': SK, 'C18': SK + KEY + ESC + STRS + NUMS + BOOL,
         'C21': KEY}
