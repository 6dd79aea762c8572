"""C10, C11, C16, C18: structure of JSON input: containers, optionals, pointers, oneofs, maps and messages over every stream that
meets the contract of irv/jsrd.py.  The value of one element is a contract of its own (tasks of js_lex, or these tasks again)."""
import re
from .common import *
from irv import cont
from irv import jsrd as Q
from irv.jsrd import WS, F, RD, jpos, define, lift, step as jstep, at as char_at, inside, token, d_list, bound, fun
from irv.run import Task
from .js_lex import js_start, P0, once, J, W64

HARNESS = {'js_val': ('/verif/harness/js_val.cpp', [])}

EL = fun('after_element_value')      # behind the element at p (any type) and white space, FAIL when it is refused
ARRE = fun('after_array_elements')
KEYE = fun('after_map_key')
MAPE = fun('after_map_entries')
MEM = fun('after_member_of_message')
MEMS = fun('after_members_of_message')
EV = {w: z3.Function('element_value_%d' % w, W64, z3.BitVecSort(w)) for w in (8, 32, 64)}


def d_el(p):
    return [bound(EL, p, True)]


def d_key(p):
    return [bound(KEYE, p, True)]


def d_mem(p):
    return [bound(MEM, p, True)]


def entry(p):
    return lift(EL, jstep(':', KEYE(p)))


d_arre = d_list(ARRE, EL, ']')
d_mems = d_list(MEMS, MEM, '}')
_d_mape = d_list(MAPE, entry, '}')


def d_mape(p):
    k = KEYE(p)
    return [bound(KEYE, p, True), z3.Implies(k != F, bound(EL, WS(k + 1), True))] + Q.d_ws(k + 1) + _d_mape(p)


def follow(e):
    """position of the element behind the one that ends at e"""
    return z3.If(char_at(e, ','), WS(e + 1), F)


WIDTH = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'bool': 8, 'float': 32, 'double': 64}


def at_next(v, st, p):
    nx = st.ghost.get('next')
    if nx is not None:
        v.prove(st, bv(nx, 64) == p, 'structure: the elements are read one after the other')


def store_value(v, st, dst, ty, p):
    """the object dst of type ty now holds the element of position p"""
    w = WIDTH.get(ty)
    if w is None:
        st.ghost[('jsel',) + lib.stream_id(dst)] = norm(p)
        return
    x = EV[w](p)
    if ty == 'bool':
        st.assume(z3.ULE(x, 1))
    v.check_access(st, dst, w // 8, 'value', True)
    v.poke(st, dst, w // 8, x)


def holds(v, st, q, ty, p):
    """object q holds the element of position p"""
    w = WIDTH.get(ty)
    if w is None:
        x = st.ghost.get(('jsel',) + lib.stream_id(q))
        return False if x is None else eq(x, norm(p))
    return eq(bv(v._cell(st, q.reg, q.off, w // 8), w), EV[w](p), w)


def use_elements(ver, on=None):
    """contract of the deserialize function of an element"""
    def fn(v, st, a, ins):
        ty = re.search(r'\(V::js&, (.*)&\)$', v.demangled(ins.a[0][1])).group(1)
        dst = a[1]
        p = bv(jpos(st), 64)
        for x in d_el(p):
            st.assume(x)
        define(v, st, p)
        at_next(v, st, p)
        out = []
        ok, bad = v.fork(st, normb(EL(p) != F))
        if ok is not None:
            e = norm(EL(p))
            store_value(v, ok, dst, ty, p)
            Q.move(ok, e)
            define(v, ok, e)
            if on:
                on(v, ok, dst, ty, p)
            out.append((ok, None))
        if bad is not None:
            out.append((v.throw(bad, 'element'), None))
        return out
    once(ver, r'void spb::json::detail::deserialize<.*>\(V::js&, .*&\)', fn)


def use_key(ver):
    def fn(v, st, a, ins):
        ty = re.search(r'\(V::js&, (.*)&\)$', v.demangled(ins.a[0][1])).group(1)
        p = bv(jpos(st), 64)
        define(v, st, p)
        at_next(v, st, p)
        v.prove(st, eq(st.ghost['phase'], 0), 'structure: every entry has one key and one value')
        out = []
        ok, bad = v.fork(st, normb(KEYE(p) != F))
        if ok is not None:
            e = norm(KEYE(p))
            store_key(v, ok, a[1], ty, p)
            Q.move(ok, e)
            define(v, ok, e)
            ok.ghost.update({'phase': 1, 'klast': norm(p), 'next': norm(jstep(':', KEYE(p)))})
            out.append((ok, None))
        if bad is not None:
            out.append((v.throw(bad, 'key'), None))
        return out
    ver.contract(r'void spb::json::detail::deserialize_map_key<.*>\(V::js&, .*&\)')(fn)


KV = {w: z3.Function('key_value_%d' % w, W64, z3.BitVecSort(w)) for w in (8, 32, 64)}


def store_key(v, st, dst, ty, p):
    w = WIDTH.get(ty)
    if w is None:
        st.ghost[('jskey',) + lib.stream_id(dst)] = norm(p)
    else:
        v.check_access(st, dst, w // 8, 'key', True)
        v.poke(st, dst, w // 8, KV[w](p))


def holds_key(v, st, q, ty, p):
    w = WIDTH.get(ty)
    if w is None:
        x = st.ghost.get(('jskey',) + lib.stream_id(q))
        return False if x is None else eq(x, norm(p))
    return eq(bv(v._cell(st, q.reg, q.off, w // 8), w), KV[w](p), w)


def use_string(ver):
    """std::string as a key: construction, moves"""
    S = r'std::__cxx11::basic_string<char, .*>::'

    @ver.contract(S + r'basic_string\(\)|' + S + r'~basic_string\(\)')
    def _(v, st, a, ins):
        return [(st, None)]

    @ver.contract(S + r'basic_string\(std::__cxx11::basic_string<.*> ?&&\)')
    def _(v, st, a, ins):
        k = ('jskey',) + lib.stream_id(a[1])
        if k in st.ghost:
            st.ghost[('jskey',) + lib.stream_id(a[0])] = st.ghost[k]
        return [(st, None)]


def elements(ver, st, o, esize, limit, ty):
    """container o is filled: every new element is read into exactly once, before the next one is added"""
    g = st.ghost
    g.update({'cnt': fresh(64, 'count0'), 'open': 0, 'pend': 0, 'cleared': 0, 'last': BVV(0, 64), 'n': 0})
    st.assume(z3.ULE(g['cnt'], 1 << 30))
    n0 = g['cnt']

    def added(v, s):
        v.prove(s, and_(eq(s.ghost['open'], 0)), 'structure: every element of the container is read')
        s.ghost['cnt'] = add(s.ghost['cnt'], 1)
        if limit:
            v.prove(s, ule(s.ghost['cnt'], limit), 'limits: an element over the limit is rejected')

    @ver.contract(r'V::rep<.*>::clear\(\)')
    def _(v, s, a, ins):
        v.prove(s, a[0].reg is o.reg, 'structure: only the field is changed')
        s.ghost.update({'cnt': 0, 'cleared': 1})
        return [(s, None)]

    @ver.contract(r'V::rep<.*>::size\(\) const')
    def _(v, s, a, ins):
        return [(s, s.ghost['cnt'])]

    @ver.contract(r'V::rep<.*>::empty\(\) const')
    def _(v, s, a, ins):
        return [(s, frombool(eq(s.ghost['cnt'], 0)))]

    @ver.contract(r'V::rep<.*>::emplace_back\(\)')
    def _(v, s, a, ins):
        v.prove(s, eq(s.ghost['pend'], 0), 'structure: every element that is read is stored')
        added(v, s)
        r = s.new_region('elem', esize)
        if ty in WIDTH:
            s.mem[r].cells[0] = (esize, 0)
        s.ghost['open'] = r.id
        return [(s, Ptr(r, 0))]

    @ver.contract(r'V::rep<.*>::(emplace_back|push_back)\((.+)\).*')
    def _(v, s, a, ins):
        added(v, s)
        v.prove(s, eq(s.ghost['pend'], 1), 'structure: every element that is stored was read')
        w = WIDTH[ty]
        x = a[1]
        x = z3.If(zbool(tobool(x)), BVV(1, 8), BVV(0, 8)) if ty == 'bool' else bv(x, w)
        v.prove(s, eq(x, EV[w](s.ghost['last']), w), 'value: the element stored is the one that was read')
        s.ghost['pend'] = 0
        return [(s, None)]

    def on(v, s, dst, ty, p):
        gg = s.ghost
        if isint(gg['open']) and gg['open']:
            v.prove(s, dst.reg.id == gg['open'] and eq(dst.off, 0), 'structure: an element is read into the place that was added for it')
            gg['open'] = 0
        else:
            v.prove(s, eq(gg['pend'], 0), 'structure: every element that is read is stored')
            gg['pend'] = 1
        gg['last'] = norm(p)
        gg['n'] = add(gg['n'], 1)
        gg['next'] = norm(follow(EL(p)))
    use_elements(ver, on)
    return n0


def arr_spec(elems, close, opening):
    e = WS(P0 + 1)
    return z3.If(char_at(P0, opening), z3.If(char_at(e, close), WS(e + 1), elems(e)), F)


def chain_cands(v, st, inst, key):
    return [('next = the position', lambda s: eq(s.ghost['next'], jpos(s))), ('nothing is open', lambda s: and_(eq(s.ghost['open'], 0), eq(s.ghost['pend'], 0)))]


def t_rep(name, ty, esize, limit=0):
    def t(ver):
        st, s = js_start(ver, ['WS', d_el, d_arre], [ARRE])
        cont.install_cont(ver)
        ver.under_test = 'deserialize<'
        o = Ptr(st.new_region('rep', 8), 0)
        n0 = elements(ver, st, o, esize, limit, ty)
        e0 = WS(P0 + 1)
        st.ghost['next'] = norm(e0)
        ver.custom_cands = ver.custom_cands + [chain_cands]
        null = token(P0, 'null')
        spec = z3.If(null, WS(P0 + 4), arr_spec(ARRE, ']', '['))
        for x in ver.run('@k_' + name, [s, o], st):
            g = x.st.ghost
            if x.kind == 'throw':
                why = [spec == F]
                if limit:
                    why.append(and_(not_(ule(add(g['cnt'], 1), limit)), eq(bv(g['next'], 64), jpos(x.st)), not_(null)))
                ver.prove(x.st, or_(*why), 'accept: an exception only for text that is malformed or not allowed')
                continue
            ver.prove(x.st, z3.And(spec != F, bv(jpos(x.st), 64) == spec), 'structure: exactly the array is read')
            ver.prove(x.st, eq(g['cleared'], z3.If(null, BVV(1, 64), BVV(0, 64))), 'structure: null is the empty array, and an array does not remove what was read before')
            ver.prove(x.st, and_(eq(g['open'], 0), eq(g['pend'], 0)), 'structure: every element of the text is stored')
            ver.prove(x.st, or_(null, eq(g['cnt'], add(n0, g['n']))), 'structure: every element of the text is stored')
            last = EL(g['last'])
            ver.prove(x.st, or_(null, z3.And(char_at(last, ']'), bv(jpos(x.st), 64) == WS(last + 1)) if not (isint(g['n']) and g['n'] == 0) else
                                z3.And(char_at(e0, ']'), bv(jpos(x.st), 64) == WS(e0 + 1))), 'structure: every element of the text is read')
    return t


def t_frep(name, ty, n=20):
    def t(ver):
        st, s = js_start(ver, ['WS', d_el, d_arre], [ARRE])
        cont.install_cont(ver)
        ver.under_test = 'deserialize<'
        o = Ptr(st.new_region('frep', 8), 0)
        w = WIDTH[ty]
        reg = cont.frep_reg(st, o, n, w // 8)
        e0 = WS(P0 + 1)
        st.ghost.update({'next': norm(e0), 'n': 0, 'posj': BVV(0, 64), 'last': BVV(0, 64)})
        st.assume(z3.ULT(J, n))

        def on(v, x, dst, ty, p):
            g = x.ghost
            g['posj'] = norm(z3.If(bv(g['n'], 64) == J, p, bv(g['posj'], 64)))
            g['last'] = norm(p)
            g['n'] = add(g['n'], 1)
            g['next'] = norm(follow(EL(p)))
        use_elements(ver, on)

        def el(x):
            return bv(ver.load(x, Ptr(reg, mul(J, w // 8)), ('i', w), chk=False), w)

        def cands(v, st0, inst, key):
            out = [('next = the position', lambda x: eq(x.ghost['next'], jpos(x))), ('bound: n within the size', lambda x: ule(x.ghost['n'], n)),
                   ('element j is stored', lambda x: implies(ult(J, x.ghost['n']), eq(el(x), EV[w](bv(x.ghost['posj'], 64)), w)))]
            for c in list(v.loop_cells) + list(v.loop_phis):
                g = (lambda c: lambda x: x.frames[-1].env[c] if isinstance(c, str) else v._cell(x, *c))(c)
                try:
                    y = g(st0)
                except KeyError:
                    continue
                if isint(y) or (z3.is_bv(y) and y.size() == 64):
                    out.append(('%s = elements read' % (c,), lambda x, g=g: eq(g(x), x.ghost['n'])))
                    out.append(('bound: %s within the size' % (c,), lambda x, g=g: ule(g(x), n)))
                    out.append(('bound: %s below the size' % (c,), lambda x, g=g: ult(g(x), n)))
                    out.append(('element j is zero before %s' % (c,), lambda x, g=g: implies(ult(J, g(x)), eq(el(x), 0, w))))
            return out
        ver.custom_cands = ver.custom_cands + [cands]
        ver.no_cands = set(ver.no_cands) | {'posj', 'last', 'next'}
        null = token(P0, 'null')
        spec = z3.If(null, WS(P0 + 4), z3.If(char_at(P0, '['), ARRE(e0), F))
        for x in ver.run('@k_' + name, [s, o], st):
            g = x.st.ghost
            k = bv(g['n'], 64)
            # the array has another number of elements: the one at the position is one too many, or it ends early
            if x.kind == 'throw':
                last = EL(bv(g['last'], 64))
                why = [spec == F, and_(k == n, not_(char_at(last, ']')))]
                early = z3.And(z3.UGT(k, 0), z3.ULT(k, n), z3.Not(char_at(last, ',')))
                empty = z3.And(k == 0, char_at(e0, ']'))
                ver.prove(x.st, or_(early, empty, EL(jpos(x.st)) == F, *why), 'accept: an exception only for text that is malformed or not allowed')
                continue
            ver.prove(x.st, z3.And(spec != F, bv(jpos(x.st), 64) == spec), 'structure: exactly the array is read')
            ver.prove(x.st, z3.Or(null, k == n), 'limits: an array of another size than the fixed one is rejected')
            ver.prove(x.st, z3.If(null, el(x.st) == 0, el(x.st) == EV[w](bv(g['posj'], 64))), 'value: element j of the field is element j of the text')
    return t


def t_single(name, kind, ty):
    """optional, pointer, oneof member"""
    def t(ver):
        for has in ((False, True) if kind != 'var' else (False,)):
            st, s = js_start(ver, ['WS', d_el], [])
            cont.install_cont(ver)
            ver.under_test = 'deserialize<|deserialize_variant<'
            use_elements(ver)
            st.ghost['next'] = P0
            o = Ptr(st.new_region(kind, 8), 0)
            old = st.new_region('old', 8)
            if kind == 'opt':
                st.ghost[('has', o.reg.id)] = has
                st.ghost[('optval', o.reg.id)] = Ptr(old, 0)
                if ty in ('V::seq<char, 0>',):
                    lib.make_seq(ver, st, Ptr(old, 0))
            elif kind == 'ptr':
                st.mem[o.reg].cells[0] = (8, Ptr(old, 0) if has else NULL)
            st.ghost['active'] = -1

            @ver.contract(r'.* V::var<.*>::emplace<(\d)ul>\(\)')
            def _(v, x, a, ins):
                x.ghost['active'] = int(re.search(r'emplace<(\d)ul>', v.demangled(ins.a[0][1])).group(1))
                r = x.new_region('member', 8)
                x.ghost['member'] = Ptr(r, 0)
                return [(x, Ptr(r, 0))]
            null = token(P0, 'null') if kind != 'var' else z3.BoolVal(False)
            if kind == 'var':
                st.ghost['#entered'] = True     # the function under test is deserialize_variant
            spec = z3.If(null, WS(P0 + 4), EL(P0))
            for x in ver.run('@k_' + name, [s, o], st):
                if x.kind == 'throw':
                    ver.prove(x.st, spec == F, 'accept: an exception only for text that is malformed or not allowed')
                    continue
                g = x.st.ghost
                ver.prove(x.st, z3.And(spec != F, bv(jpos(x.st), 64) == spec), 'structure: exactly the value is read')
                if kind == 'opt':
                    h, q = g[('has', o.reg.id)], g[('optval', o.reg.id)]
                elif kind == 'ptr':
                    q = ver._cell(x.st, o.reg, 0, 8)
                    h = q.reg is not None
                else:
                    q = g.get('member')
                    h = g['active'] == int(name[-1])
                ver.prove(x.st, zbool(h) == z3.Not(null), 'value: a value is present after a value, none after null')
                y = x.st.copy()
                y.assume(z3.Not(null))
                if ver.feasible(y):
                    ver.prove(y, h if not (h is True) else holds(ver, y, q, ty, P0), 'value: the value stored is the one of the text')
    return t


def t_map(name, kty, vty):
    def t(ver):
        st, s = js_start(ver, ['WS', d_el, d_mape], [MAPE])
        cont.install_cont(ver)
        use_string(ver)
        ver.under_test = 'deserialize<'
        o = Ptr(st.new_region('map', 8), 0)
        e0 = WS(P0 + 1)
        st.ghost.update({'next': norm(e0), 'phase': 0, 'klast': BVV(0, 64), 'last': BVV(0, 64), 'n': 0, 'cleared': 0})

        def on(v, x, dst, ty, p):
            g = x.ghost
            v.prove(x, eq(g['phase'], 1), 'structure: every entry has one key and one value')
            g.update({'phase': 2, 'last': norm(p), 'next': norm(follow(EL(p)))})
        use_elements(ver, on)
        use_key(ver)

        def put(v, x, a, ins):
            g = x.ghost
            v.prove(x, and_(a[0].reg is o.reg, eq(g['phase'], 2)), 'structure: an entry is stored after its key and its value are read')
            v.prove(x, holds_key(v, x, a[1], kty, g['klast']), 'value: the key stored is the one of the text')
            v.prove(x, holds(v, x, a[2], vty, g['last']), 'value: the value stored is the one of the text')
            g['phase'] = 0
            g['n'] = add(g['n'], 1)
            return [(x, None)]
        ver.contract(r'V::map<.*>::(emplace|insert_or_assign)\(.*\)')(put)

        @ver.contract(r'V::map<.*>::clear\(\)')
        def _(v, x, a, ins):
            x.ghost['cleared'] = 1
            return [(x, None)]
        ver.custom_cands = ver.custom_cands + [lambda v, st, inst, key: [('next = the position', lambda x: eq(x.ghost['next'], jpos(x)))]]
        ver.no_cands = set(ver.no_cands) | {'klast', 'last', 'next'}
        null = token(P0, 'null')
        spec = z3.If(null, WS(P0 + 4), arr_spec(MAPE, '}', '{'))
        for x in ver.run('@k_' + name, [s, o], st):
            g = x.st.ghost
            if x.kind == 'throw':
                ver.prove(x.st, spec == F, 'accept: an exception only for text that is malformed or not allowed')
                continue
            ver.prove(x.st, z3.And(spec != F, bv(jpos(x.st), 64) == spec), 'structure: exactly the map is read')
            ver.prove(x.st, eq(g['phase'], 0), 'structure: every entry of the text is stored')
            ver.prove(x.st, eq(g['cleared'], z3.If(null, BVV(1, 64), BVV(0, 64))), 'structure: null is the empty map, and a map does not remove what was read before')
            last = EL(bv(g['last'], 64))
            ver.prove(x.st, or_(null, z3.And(char_at(last, '}'), bv(jpos(x.st), 64) == WS(last + 1)) if not (isint(g['n']) and g['n'] == 0) else
                                z3.And(char_at(e0, '}'), bv(jpos(x.st), 64) == WS(e0 + 1))), 'structure: every entry of the text is read')
    return t


def t_msg(ver):
    st, s = js_start(ver, ['WS', d_mem, d_mems], [MEMS])
    cont.install_cont(ver)
    o = Ptr(st.new_region('msg', 8), 0)
    e0 = WS(P0 + 1)
    st.ghost.update({'next': norm(e0), 'last': BVV(0, 64), 'n': 0})

    @ver.contract(r'void V::deserialize_value<V::js>\(V::js&, V::msg&\)')
    def _(v, x, a, ins):
        p = bv(jpos(x), 64)
        define(v, x, p)
        at_next(v, x, p)
        v.prove(x, a[1].reg is o.reg and eq(a[1].off, 0), 'structure: the members are read into the message')
        out = []
        ok, bad = v.fork(x, normb(MEM(p) != F))
        if ok is not None:
            e = norm(MEM(p))
            Q.move(ok, e)
            define(v, ok, e)
            ok.ghost.update({'last': norm(p), 'n': add(ok.ghost['n'], 1), 'next': norm(follow(MEM(p)))})
            out.append((ok, None))
        if bad is not None:
            out.append((v.throw(bad, 'member'), None))
        return out
    ver.custom_cands = ver.custom_cands + [lambda v, st, inst, key: [('next = the position', lambda x: eq(x.ghost['next'], jpos(x)))]]
    ver.no_cands = set(ver.no_cands) | {'last', 'next'}
    spec = arr_spec(MEMS, '}', '{')
    for x in ver.run('@k_msg', [s, o], st):
        g = x.st.ghost
        if x.kind == 'throw':
            ver.prove(x.st, spec == F, 'accept: an exception only for text that is malformed or not allowed')
            continue
        ver.prove(x.st, z3.And(spec != F, bv(jpos(x.st), 64) == spec), 'structure: exactly the message is read')
        last = MEM(bv(g['last'], 64))
        ver.prove(x.st, z3.And(char_at(last, '}'), bv(jpos(x.st), 64) == WS(last + 1)) if not (isint(g['n']) and g['n'] == 0) else
                  z3.And(char_at(e0, '}'), bv(jpos(x.st), 64) == WS(e0 + 1)), 'structure: every member of the text is read')


def t_int(ver):
    st, s = js_start(ver, ['WS', d_el], [])
    use_elements(ver)
    st.ghost.update({'#entered': True, 'next': P0})
    ver.under_test = 'deserialize<'
    for x in ver.run('@k_int', [s], st):
        if x.kind == 'throw':
            ver.prove(x.st, EL(P0) == F, 'accept: an exception only for text that is malformed or not allowed')
            continue
        ver.prove(x.st, z3.And(EL(P0) != F, bv(jpos(x.st), 64) == EL(P0)), 'structure: exactly the value is read')
        ver.prove(x.st, eq(x.value, EV[32](P0), 32), 'value: the value is the one of the text')


STR0, BYT0, MSG0 = 'V::seq<char, 0>', 'V::seq<std::byte, 0>', 'V::msg'
REP = {n: Task('js_val', 'json field ' + n, t_rep(n, ty, es, lim)) for n, ty, es, lim in (
    ('rep_i32', 'int', 4, 0), ('rep_double', 'double', 8, 0), ('rep_bool', 'bool', 1, 0), ('rep_str', STR0, 8, 0), ('rep_byt', BYT0, 8, 0),
    ('rep_msg', MSG0, 8, 0), ('rep_i32_max', 'int', 4, 5), ('rep_bool_max', 'bool', 1, 5), ('rep_msg_max', MSG0, 8, 5))}
FREP = {n: Task('js_val', 'json field ' + n, t_frep(n, ty)) for n, ty in (('frep_i32', 'int'), ('frep_u64', 'unsigned long'))}
SINGLE = {n: Task('js_val', 'json field ' + n, t_single(n, n[:3], ty)) for n, ty in (
    ('opt_i32', 'int'), ('opt_bool', 'bool'), ('opt_str', STR0), ('opt_msg', MSG0), ('ptr_msg', MSG0), ('var0', 'int'), ('var1', MSG0))}
MAPS = {'map_int': Task('js_val', 'json field map_int', t_map('map_int', 'int', MSG0)),
        'map_str': Task('js_val', 'json field map_str', t_map('map_str', 'std::string', 'int'))}
MSGT = [Task('js_val', 'json message', t_msg), Task('js_val', 'json deserialize_int', t_int)]
ALL = list(REP.values()) + list(FREP.values()) + list(SINGLE.values()) + list(MAPS.values()) + MSGT
TASKS = {'C11': [REP['rep_i32_max'], REP['rep_bool_max'], REP['rep_msg_max']] + list(FREP.values()), 'C16': ALL, 'C18': ALL}
