"""Shared specification functions: wire format, trace matching, contracts of functions proved in pb_scalar."""
import z3
from irv import core, lib, run
from irv.core import (State, Ptr, NULL, Agg, isint, bv, norm, normb, add, sub, mul, ult, ule, eq, and_, or_, not_, implies, ite, zbool,
                      fresh, mask, sgn, frombool, tobool, Unsupported, fresh_name)
from irv.lib import (vsz, varint_bytes, zigzag, unzigzag, new_ostream, trace, written, emit, in_byte, new_istream, is_pos, is_lim,
                     IN, END)

BV = z3.BitVec
BVV = z3.BitVecVal


def var(name, w):
    return z3.BitVec(name, w)


def witness_of(**vs):
    def f(m, st):
        out = {}
        for k, v in vs.items():
            if isint(v):
                out[k] = v
            else:
                e = m.eval(v, model_completion=True)
                out[k] = e.as_long() if z3.is_bv_value(e) else str(e)
        return out
    return f


def sext(v, w, to):
    if isint(v):
        return sgn(v, w) & mask(to)
    return norm(z3.SignExt(to - w, v)) if to > w else v


def zext(v, w, to):
    if isint(v):
        return v
    return norm(z3.ZeroExt(to - w, v)) if to > w else v


def le_bytes(v, n):
    v = bv(v, 8 * n)
    return [norm(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]


# ---------------------------------------------------------------- traces
# events: ('b', byte8)  ('v', u64) = the canonical varint of u64  ('m', Ptr, n) = n bytes of memory  ('loop', ..) = a loop's output
def match(ver, st, tr, exp, name, info=None):
    """prove that the trace is the expected event sequence"""
    if not tr and not exp:
        ver.prove(st, True, name)
        return
    if exp and exp[0][0] == 'each' and not (tr and tr[0][0] == 'loop'):
        # the loop was unrolled (or did not run): one case for every feasible number of elements
        n, fk = exp[0][1], exp[0][3]
        s = st
        k = 0
        while True:
            if isint(n):
                if n == k:
                    match(ver, s, tr, tuple(x for i in range(k) for x in fk(s, i)) + tuple(exp[1:]), name, info)
                    return
            else:
                e = normb(zbool(eq(n, k)))
                if ver.feasible(s, e):
                    s1 = s.copy()
                    s1.assume(e)
                    match(ver, s1, tr, tuple(x for i in range(k) for x in fk(s1, i)) + tuple(exp[1:]), name, info)
                s = s.copy()
                s.assume(not_(e))
                if not ver.feasible(s):
                    return
            k += 1
            if k > 32:
                ver.prove(s, False, name, info='%s: elements missing' % info)
                return
        return
    if not tr or not exp:
        # a path that cannot happen is no difference
        rest = tr or exp
        only_empty = and_(*[eq(e[2], 0) if e[0] == 'm' else False for e in rest])
        ver.prove(st, only_empty, name, info='%s: %d bytes/events %s' % (info, len(rest), 'too many' if tr else 'missing'))
        return
    a, b = tr[0], exp[0]
    if a[0] == 'v' and b[0] == 'v':
        if ver.prove(st, eq(a[1], b[1]), name, info):
            match(ver, st, tr[1:], exp[1:], name, info)
        return
    if a[0] == 'b' and b[0] == 'b':
        # compare a run of bytes at once
        i = 0
        while i < len(tr) and i < len(exp) and tr[i][0] == 'b' and exp[i][0] == 'b':
            i += 1
        if ver.prove(st, and_(*[eq(x[1], y[1], 8) for x, y in zip(tr[:i], exp[:i])]), name, info):
            match(ver, st, tr[i:], exp[i:], name, info)
        return
    if a[0] == 'm' and b[0] == 'm':
        ok = same_mem(ver, st, a, b)
        if ver.prove(st, ok, name, info):
            match(ver, st, tr[1:], exp[1:], name, info)
        return
    for side, other in ((0, 1), (1, 0)):
        x = (a, b)[side]
        y = (a, b)[other]
        if x[0] == 'v' and y[0] == 'b':
            n = lib.vsz_def(x[1])
            for k in range(1, 11):
                s = st.copy() if not isint(n) else st
                if isint(n):
                    if n != k:
                        continue
                else:
                    if not ver.feasible(s, zbool(eq(n, k))):
                        continue
                    s.assume(zbool(eq(n, k)))
                ex = tuple(('b', q) for q in varint_bytes(x[1], k))
                if side == 0:
                    match(ver, s, ex + tuple(tr[1:]), exp, name, info)
                else:
                    match(ver, s, tr, ex + tuple(exp[1:]), name, info)
            return
    if a[0] == 'm' or b[0] == 'm':
        x = a if a[0] == 'm' else b
        if isint(x[2]) and x[2] <= 64:
            ex = tuple(('b', q) for q in ver.load_bytes(st, x[1], x[2]))
            if x is a:
                return match(ver, st, ex + tuple(tr[1:]), exp, name, info)
            return match(ver, st, tr, ex + tuple(exp[1:]), name, info)
        z = normb(zbool(eq(x[2], 0)))
        if ver._quick(st.pc, z):
            return match(ver, st, tr[1:] if x is a else tr, exp[1:] if x is b else exp, name, info)
    if a[0] == 'msg' and b[0] == 'msg':
        ok = a[1].reg is b[1].reg and eq(a[1].off, b[1].off)
        if ver.prove(st, ok, name, info):
            match(ver, st, tr[1:], exp[1:], name, info)
        return
    if a[0] == 'loop' and b[0] == 'each':
        # the iterations of this loop wrote the elements (step_check); it ran once for every element
        ok = a[2] in b[2] and eq(st.ghost[('k', a[2])], b[1])
        if ver.prove(st, ok, name, 'iterations of the loop'):
            match(ver, st, tr[1:], exp[1:], name, info)
        return
    ver.prove(st, False, name, info='%s: %s instead of %s' % (info, a, b))


def same_mem(ver, st, a, b):
    """the same bytes: ('m', ptr, n)"""
    p, q = a[1], b[1]
    if isinstance(p, Ptr) and isinstance(q, Ptr) and p.reg is q.reg:
        return and_(eq(a[2], b[2]), or_(eq(a[2], 0), eq(p.off, q.off)))
    return and_(eq(a[2], 0), eq(b[2], 0))


def tlen(tr):
    n = 0
    for e in tr:
        n = add(n, 1 if e[0] == 'b' else vsz(e[1]) if e[0] == 'v' else e[2])
    return n


# ---------------------------------------------------------------- contracts proved elsewhere (pb_scalar)
PB = 'spb::pb::detail::'


def use_varint_writers(ver, uf=True):
    """contract of serialize_varint / serialize_varint_size (proved by the C01 tasks)"""
    C = ver.contract
    lib.UF[0] = uf
    ver.rewriting = uf
    ver.def_axioms = lib.def_axioms if uf else None

    @C(r'void spb::pb::detail::serialize_varint<V::os<(true|false)>>\(.*\)')
    def _(v, st, a, ins):
        emit(st, a[0], ('v', a[1]), vsz(a[1]))
        return [(st, None)]

    @C(r'void spb::pb::detail::serialize_varint<spb::pb::detail::ostream_size>\(.*\)')
    def _(v, st, a, ins):
        from irv import ir
        p = a[0]
        n = v.load(st, p, ('i', 64))
        v.store(st, p, ('i', 64), add(n, vsz(a[1])))
        return [(st, None)]

    @C(r'spb::pb::detail::serialize_varint_size\(unsigned long\)')
    def _(v, st, a, ins):
        return [(st, vsz(a[0]))]


# ---------------------------------------------------------------- decoding
def raw_varint(pos, k):
    """value of the k-byte varint at pos (bits above 64 dropped)"""
    acc = BVV(0, 64)
    for i in range(k):
        b = z3.ZeroExt(57, z3.Extract(6, 0, in_byte(add(pos, i))))
        acc = acc | (b << (7 * i))
    return acc


def term_at(pos, k):
    """a varint of exactly k bytes stands at pos"""
    cs = [z3.Extract(7, 7, in_byte(add(pos, i))) == 1 for i in range(k - 1)]
    cs.append(z3.Extract(7, 7, in_byte(add(pos, k - 1))) == 0)
    return z3.And(*cs)


def avail(pos, lim, n):
    return z3.And(z3.ULE(bv(n, 64), bv(lim, 64) - bv(pos, 64)), z3.ULE(bv(n, 64), END - bv(pos, 64)), z3.ULE(bv(pos, 64), END))


def representable(enc, w, signed, isbool, raw):
    """(must accept, value, must reject) of a decoded 64-bit varint for storage of w bits"""
    if isbool:
        return z3.ULE(raw, 1), z3.Extract(w - 1, 0, raw), z3.UGT(raw, 1)
    if enc == 'svarint':
        ok = z3.ULE(raw, BVV(mask(w), 64))
        r = z3.Extract(w - 1, 0, raw) if w < 64 else raw
        v = z3.LShR(r, 1) ^ (-(r & 1))
        return ok, v, z3.Not(ok)
    if w == 64:
        return z3.BoolVal(True), raw, z3.BoolVal(False)
    v = z3.Extract(w - 1, 0, raw)
    if not signed:
        ok = z3.ULE(raw, BVV(mask(w), 64))
        return ok, v, z3.Not(ok)
    v32 = z3.Extract(31, 0, raw)
    fits = z3.SignExt(32 - w, v) == v32 if w < 32 else z3.BoolVal(True)
    ok = z3.And(fits, z3.Or(raw == z3.SignExt(32, v32), raw == z3.ZeroExt(32, v32)))
    # int32 itself: other 64-bit values are left open (protobuf truncates them)
    return ok, v, (z3.Not(ok) if w < 32 else z3.BoolVal(False))


def fits_bits(v, w, signed, bits):
    """v (w bits) is representable in a bit-field of `bits` bits"""
    sh = BVV(w, 64) - bv(bits, 64)
    s = z3.Extract(w - 1, 0, sh) if w <= 64 else sh
    if signed:
        return ((v << s) >> s) == v
    return z3.LShR(v << s, s) == v


# ---------------------------------------------------------------- varint reader as a contract (proved by the C01 / C02 / C03 tasks)
VL = z3.Function('varint_length', z3.BitVecSort(64), z3.BitVecSort(64))     # 0: no varint stands here
VV = z3.Function('varint_value', z3.BitVecSort(64), z3.BitVecSort(64))


def vlen(st, pos):
    n = VL(bv(pos, 64))
    st.assume(z3.ULE(n, 10))
    return n


def framed(st, pos, lim):
    n = vlen(st, pos)
    return z3.And(z3.UGE(n, 1), avail(pos, lim, n))


CT = {'bool': (8, False), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False),
      'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'char': (8, True)}


def use_varint_readers(ver):
    import re as _re

    def at(v, st, p):
        pos = is_pos(v, st, p)
        v.prove(st, eq(pos, st.ghost['upos']), 'framing: a stream is read only at its own position')
        return pos

    @ver.contract(r'auto spb::pb::detail::read_varint<[\w ]+, V::is>\(V::is&\)|.* spb::pb::detail::read_varint<[\w ]+, V::is>\(V::is&\)')
    def _(v, st, a, ins):
        d = v.demangled(ins.a[0][1])
        t = _re.search(r'read_varint<([\w ]+), V::is>', d).group(1)
        w, sg = CT[t]
        p = a[0]
        pos, lim = at(v, st, p), is_lim(v, st, p)
        n = vlen(st, pos)
        raw = VV(bv(pos, 64))
        ok, val, bad = representable('varint', w, sg, t == 'bool', raw)
        if t == 'bool':
            ok, bad = z3.And(ok, n == 1), z3.And(bad, n == 1)
        fr = framed(st, pos, lim)
        out = []
        s = st.copy()
        c = normb(z3.And(fr, z3.Not(bad)))
        if v.feasible(s, c):
            s.assume(c)
            if z3.is_true(z3.simplify(ok)) or z3.is_false(z3.simplify(z3.And(z3.Not(ok), z3.Not(bad)))):
                x = norm(val)
            else:
                x = fresh(w, 'rv')
                s.assume(z3.Implies(ok, x == val))
            np = add(pos, n)
            lib.step_lemma(s, pos, lim, n)
            lib.step_lemma(s, pos, END, n)
            lib.is_set_pos(v, s, p, np)
            s.ghost['upos'] = np
            out.append((s, frombool(normb(x == 1)) if t == 'bool' else x))
        c = normb(z3.Not(z3.And(fr, ok)))
        if v.feasible(st, c):
            st.assume(c)
            out.append((v.throw(st, 'varint'), None))
        return out

    @ver.contract(r'.*spb::pb::detail::read_tag_or_eof<V::is>\(V::is&\)')
    def _(v, st, a, ins):
        p = a[0]
        pos, lim = at(v, st, p), is_lim(v, st, p)
        raw = VV(bv(pos, 64))
        n = vlen(st, pos)
        fr = framed(st, pos, lim)
        fits = z3.And(z3.ULT(raw, 1 << 32), z3.UGE(raw, 8))
        out = []
        s = st.copy()
        s.assume(z3.Not(avail(pos, lim, 1)))
        if v.feasible(s):
            s.ghost['eof'] = True
            out.append((s, 0))
        s = st.copy()
        s.assume(z3.And(fr, fits))
        if v.feasible(s):
            np = add(pos, n)
            lib.step_lemma(s, pos, lim, n)
            lib.step_lemma(s, pos, END, n)
            lib.is_set_pos(v, s, p, np)
            s.ghost['upos'] = np
            out.append((s, norm(z3.Extract(31, 0, raw))))
        st.assume(z3.And(avail(pos, lim, 1), z3.Not(z3.And(fr, fits, z3.ULE(n, 5)))))
        if v.feasible(st):
            out.append((v.throw(st, 'tag'), None))
        return out


# ---------------------------------------------------------------- utf8
UTF8 = z3.Function('utf8_valid', z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8)), z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())


def utf8_valid(ver, st, p, n):
    if isint(n) and n == 0:
        return z3.BoolVal(True)
    if p.reg is None:
        return eq(n, 0)
    src = lib.src_of(st, p.reg)
    if src is not None:
        return z3.Or(bv(n, 64) == 0, UTF8(IN, bv(add(src, p.off), 64), bv(n, 64)))
    ver.flush(st, p.reg)
    return z3.Or(bv(n, 64) == 0, UTF8(ver._arr(st, p.reg), bv(p.off, 64), bv(n, 64)))


def use_utf8(ver):
    """contract of utf8::validate / is_valid (proved by the C12 tasks)"""
    def sv(a):
        # std::string_view is passed as (length, pointer)
        return (a[1], a[0]) if isinstance(a[1], Ptr) else (a[0], a[1])

    @ver.contract(r'spb::detail::utf8::validate\(std::basic_string_view<char, .*>\)')
    def _(v, st, a, ins):
        p, n = sv(a)
        if not (isint(n) and n == 0):
            v.check_access(st, p, n, 'utf8 check')
        ok, bad = v.fork(st, normb(utf8_valid(v, st, p, n)))
        out = []
        if ok is not None:
            out.append((ok, None))
        if bad is not None:
            out.append((v.throw(bad, 'utf8'), None))
        return out

    @ver.contract(r'spb::detail::utf8::is_valid\(std::basic_string_view<char, .*>\)')
    def _(v, st, a, ins):
        p, n = sv(a)
        if not (isint(n) and n == 0):
            v.check_access(st, p, n, 'utf8 check')
        return [(st, frombool(normb(utf8_valid(v, st, p, n))))]


# ---------------------------------------------------------------- running sums over the elements of a container
def use_psum(ver, elen, const=None):
    """PS(k): size of the first k elements; ghost definition by its recurrence (const: all elements have this size)"""
    if const is None:
        PS = z3.Function('psum', z3.BitVecSort(64), z3.BitVecSort(64))
    else:
        def PS(k):
            return k * const
    ver.psum = lambda st, k: PS(bv(k, 64))
    ver.elen = elen
    from irv import lib as L

    def cands(v, st, inst, key):
        out = []
        for g in list(st.ghost):
            if isinstance(g, tuple) and g[0] == 'wr':
                out.append(('%s = start + sum of the sizes of k elements' % (g,),
                            lambda s, g=g, x0=st.ghost[g]: eq(s.ghost[g], add(x0, PS(bv(s.ghost[('k', inst)], 64))))))
        for reg, m in list(st.mem.items()):
            if reg.size == 8 and 0 in m.cells and m.cells[0][0] == 8 and (isint(m.cells[0][1]) or z3.is_bv(m.cells[0][1])):
                out.append(('%s+0 = start + sum of the sizes of k elements' % reg.name,
                            lambda s, reg=reg, x0=m.cells[0][1]: eq(v._cell(s, reg, 0, 8), add(x0, PS(bv(s.ghost[('k', inst)], 64))))))
        return out
    ver.custom_cands.append(cands)
    return PS
