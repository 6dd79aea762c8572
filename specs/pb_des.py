"""C02, C05, C06, C09, C10, C11, C12 (protobuf reading): container deserializers of spb/pb."""
from .common import *
from . import pb_scalar as S
from .pb_ser import Ty, Field, NAMES
from irv import cont
from irv.run import Task

HARNESS = {'pb_des': ('/verif/harness/pb_des.cpp', [])}
LEN = 2


def decode(st, ty, pos, lim):
    """(framed, must accept, value, must reject, length) of a number at pos"""
    w = S.width(ty.t)
    if ty.enc in ('varint', 'svarint', 'enum'):
        n = vlen(st, pos)
        raw = VV(bv(pos, 64))
        ok, v, bad = representable('svarint' if ty.enc == 'svarint' else 'varint', w, S.signed(ty.t), ty.t == 'bool', raw)
        if ty.t == 'bool':
            ok, bad = z3.And(ok, n == 1), z3.And(bad, n == 1)
        return framed(st, pos, lim), ok, v, bad, n
    n = 4 if ty.enc == 'i32' else 8
    x = z3.Concat(*[in_byte(add(pos, i)) for i in reversed(range(n))])
    v = x if w == 8 * n else z3.Extract(w - 1, 0, x)
    ok = z3.BoolVal(True) if w == 8 * n else (z3.SignExt(8 * n - w, v) if S.signed(ty.t) else z3.ZeroExt(8 * n - w, v)) == x
    return avail(pos, lim, n), ok, v, z3.Not(ok), n


def window_ok(ver, st, ty, pos, lim, fixed, max_size=0):
    """condition under which the bytes [pos, lim) must be accepted as a value of a length-delimited type"""
    n = sub(lim, pos)
    cs = [or_(eq(n, 0), avail(pos, lim, n))]
    if max_size:
        cs.append(ule(n, max_size))
    if ty.kind in ('str', 'fstr'):
        cs.append(or_(eq(n, 0), UTF8(IN, bv(pos, 64), bv(n, 64))))
    if ty.fixed:
        cs.append(eq(n, fixed))
    return and_(*cs)


def holds(ver, st, ty, p, pos, lim):
    """the object at p holds the value encoded in [pos, lim) / at pos"""
    if ty.kind == 'num':
        fr, ok, v, bad, n = decode(st, ty, pos, lim)
        return implies(and_(fr, ok), eq(bv(ver._cell(st, p.reg, p.off, ty.size), 8 * ty.size), v, 8 * ty.size))
    if ty.kind == 'msg':
        a, b = st.ghost.get(('msgpos',) + lib.stream_id(p)), st.ghost.get(('msglim',) + lib.stream_id(p))
        return False if a is None else and_(eq(a, pos), eq(b, lim))
    n = sub(lim, pos)
    d = st.ghost.get(('seqdata',) + lib.stream_id(p))
    if d is None:
        return False
    sz = lib.seq_size(st, p)
    src = lib.src_of(st, d)
    return and_(eq(sz, n), or_(eq(n, 0), eq(src, pos) if src is not None else False))


def use_message_reader(ver):
    """contract of deserialize<mode>(stream, message, type), proved by the task 'deserialize message'"""
    @ver.contract(r'void spb::pb::detail::deserialize<.*, V::is, V::msg>\(V::is&, V::msg&, spb::pb::detail::wire_type\)')
    def _(v, st, a, ins):
        s, m, ty = a
        pos, lim = is_pos(v, st, s), is_lim(v, st, s)
        v.prove(st, eq(pos, st.ghost['upos']), 'framing: a stream is read only at its own position')
        ok = st.copy()
        ok.assume(zbool(eq(ty, LEN, 8)))
        out = []
        if v.feasible(ok):
            e = z3.If(z3.ULE(bv(lim, 64), END), bv(lim, 64), END)
            np = fresh(64, 'mend')
            # everything up to the end of the window or of the data is read
            ok.assume(z3.And(z3.ULE(bv(pos, 64), np), z3.ULE(np, bv(lim, 64)), z3.Implies(z3.ULE(bv(lim, 64), END), np == bv(lim, 64)),
                             z3.Implies(z3.UGT(bv(lim, 64), END), z3.UGE(np, END))))
            lib.is_set_pos(v, ok, s, np)
            ok.ghost['upos'] = np
            ok.ghost[('msgpos',) + lib.stream_id(m)] = pos
            ok.ghost[('msglim',) + lib.stream_id(m)] = lim
            out.append((ok, None))
        st.ghost['nested'] = True
        out.append((v.throw(st, 'nested'), None))
        return out


def msg_copy(ver):
    """copies of V::msg objects keep the ghost of what was parsed into them"""
    def cp(st, a):
        for k in ('msgpos', 'msglim'):
            g = st.ghost.get((k,) + lib.stream_id(a[1]))
            if g is not None:
                st.ghost[(k,) + lib.stream_id(a[0])] = g

    @ver.contract(r'V::msg::msg\(V::msg ?(const&|&&)\)')
    def _(v, st, a, ins):
        cp(st, a)
        return [(st, None)]

    @ver.contract(r'V::msg::operator=\(V::msg ?(const&|&&)\)')
    def _(v, st, a, ins):
        cp(st, a)
        return [(st, a[0])]

    @ver.contract(r'V::msg::msg\(\)')
    def _(v, st, a, ins):
        for k in ('msgpos', 'msglim'):
            st.ghost[(k,) + lib.stream_id(a[0])] = fresh(64, k)
        return [(st, None)]


def start(ver, message=True):
    lib.install_all(ver)
    cont.install_cont(ver)
    use_varint_readers(ver)
    use_utf8(ver)
    if message:
        use_message_reader(ver)
    msg_copy(ver)
    ver.max_unroll = 0
    ver.fixed_size = BV('fixed_size', 64)
    st = State()
    st.assume(z3.And(z3.UGE(ver.fixed_size, 1), z3.ULE(ver.fixed_size, 1 << 30)))
    pos = BV('pos', 64)
    lim = BV('lim', 64)
    st.assume(z3.And(z3.ULE(pos, lim), z3.ULE(pos, END)))
    s = new_istream(ver, st, pos, lim)
    ty = BV('type', 8)
    ver.base_cands = lambda v, st, inst, key: [('upos = the position of the stream', lambda x: eq(x.ghost['upos'], is_pos(v, x, s))),
                                                ('bound: position within the window', lambda x: ule(is_pos(v, x, s), lim)),
                                                ('bound: position within the data', lambda x: ule(is_pos(v, x, s), END))]
    ver.custom_cands = [ver.base_cands]
    ver.measures = [('bytes left in the window', lambda x: sub(lim, is_pos(ver, x, s)))]
    ver.witness = witness_of(wire_type=ty, pos=pos, limit=lim, end=END, **{'b%d' % i: in_byte(pos + i) for i in range(12)})
    return st, s, pos, lim, ty


def new_obj(ver, st, ty, name='value'):
    r = st.new_region(name, ty.size)
    q = Ptr(r, 0)
    if ty.fixed:
        lib.make_seq(ver, st, q, ver.fixed_size)
    elif ty.kind in ('str', 'byt'):
        lib.make_seq(ver, st, q)
    elif ty.kind == 'num':
        st.mem[r].cells[0] = (ty.size, fresh(8 * ty.size, 'old'))
    return q


def check_value(ver, out, ty, p, pos, lim, s, wt, max_size):
    """a whole value: number at pos, or the window [pos, lim)"""
    st = out.st
    t = BV('type', 8)
    want = S.WT[ty.enc] if ty.kind == 'num' else LEN
    good = t == want
    if out.kind == 'return':
        ver.prove(st, good, 'wire type: a wrong wire type is rejected')
        np = is_pos(ver, st, s)
        if ty.kind == 'num':
            fr, ok, v, bad, n = decode(st, ty, pos, lim)
            ver.prove(st, and_(fr, not_(bad), eq(np, add(pos, n))), 'value: only a representable value is accepted, consuming exactly its bytes')
        elif ty.kind == 'msg':
            ver.prove(st, or_(eq(np, lim), and_(ult(END, lim), ule(END, np))), 'framing: a value takes up its whole window')
        else:
            ver.prove(st, eq(np, lim), 'framing: a value takes up its whole window')
            if max_size:
                ver.prove(st, ule(sub(lim, pos), max_size), 'limits: a longer value is rejected')
            if ty.fixed:
                ver.prove(st, eq(sub(lim, pos), ver.fixed_size), 'limits: a value of another size than the fixed one is rejected')
        ver.prove(st, holds(ver, st, ty, p, pos, lim), 'value: the value stored is the value encoded')
        if ty.kind in ('str', 'fstr'):
            d = cont.seq_ptr(ver, st, p)
            ver.prove(st, utf8_valid(ver, st, d, lib.seq_size(st, p)), 'utf8: a string that was read is valid UTF-8')
        return
    why = [not_(good), st.ghost.get('nested', False)]
    if ty.kind == 'num':
        fr, ok, v, bad, n = decode(st, ty, pos, lim)
        why.append(not_(and_(fr, ok)))
    elif ty.kind != 'msg':
        why.append(not_(window_ok(ver, st, ty, pos, lim, ver.fixed_size, max_size)))
    return why


def must_throw(ver, out, why):
    ver.prove(out.st, or_(*why), 'accept: an exception only for data that is malformed or not allowed')


def t_value(name):
    """plain, optional, pointer and one element of a repeated field"""
    F = Field(name)

    def tt(ver):
        st0, s, pos, lim, t = start(ver)
        starts = [st0]
        if F.label == 'ptr':
            starts.append(st0.copy())
        for i, st in enumerate(starts):
            n0 = None
            if F.label == 'req':
                o = new_obj(ver, st, F.ty)
            elif F.label == 'opt':
                o = Ptr(st.new_region('opt', 8), 0)
                st.ghost[('has', o.reg.id)] = z3.Bool('has')
                st.ghost[('optval', o.reg.id)] = new_obj(ver, st, F.ty, 'optval')
            elif F.label == 'ptr':
                o = Ptr(st.new_region('uptr', 8), 0)
                q = Ptr(st.new_region('heap', 8), 0)
                st.mem[o.reg].cells[0] = (8, q if i else NULL)
            else:
                o = cont.new_sink(ver, st)
                n0 = cont.sink_count(st, o)
            for out in ver.run('@d_' + name, [s, o, t], st):
                p = o
                many = False
                if F.label == 'rep' and F.max_count:
                    many = not_(ule(add(n0, 1), F.max_count))
                if out.kind == 'return':
                    if F.label == 'opt':
                        ver.prove(out.st, out.st.ghost[('has', o.reg.id)], 'value: an optional that was read has a value')
                        p = out.st.ghost[('optval', o.reg.id)]
                    elif F.label == 'ptr':
                        p = ver._cell(out.st, o.reg, 0, 8)
                        if p.reg is None:
                            ver.prove(out.st, False, 'value: a message that was read is not null')
                            continue
                    elif F.label == 'rep':
                        el = cont.sink_events(out.st, o)
                        ver.prove(out.st, len(el) == 1 and el[0][0] == 'elem' and eq(cont.sink_count(out.st, o), add(n0, 1)),
                                  'container: one occurrence of the field adds one element')
                        if not el or el[0][0] != 'elem':
                            continue
                        p = el[-1][1]
                        ver.prove(out.st, not_(many), 'limits: an element over the limit is rejected')
                w = check_value(ver, out, F.ty, p, pos, lim, s, t, F.max_size)
                if out.kind == 'throw':
                    must_throw(ver, out, w + [many])
    return tt


def t_packed(name):
    F = Field(name)

    def tt(ver):
        st, s, pos, lim, t = start(ver)
        if F.label == 'fix':
            r = st.new_region('frep', 8)
            o = Ptr(r, 0)
            ereg = cont.frep_reg(st, o, 20, F.ty.size)
            n0 = 0
        else:
            o = cont.new_sink(ver, st)
            n0 = cont.sink_count(st, o)
        loops = set()

        def step(v, h, b, key, inst):
            loops.add(inst)
            k = h.ghost[('k', inst)]
            p, np = h.ghost['upos'], b.ghost['upos']
            fr, ok, val, bad, n = decode(b, F.ty, p, lim)
            v.prove(b, and_(fr, not_(bad), eq(np, add(p, n))), 'value: only a representable value is accepted, consuming exactly its bytes')
            if F.label == 'fix':
                q = Ptr(ereg, mul(k, F.ty.size))
                x = v.load(b, q, ('i', 8 * F.ty.size), chk=False)
                v.prove(b, implies(and_(fr, ok), eq(bv(x, 8 * F.ty.size), val, 8 * F.ty.size)), 'value: the value stored is the value encoded')
                # what was stored before stays
                j = fresh(64, 'j')
                same = implies(and_(ult(j, mul(20, F.ty.size)), or_(ult(j, q.off), ule(add(q.off, F.ty.size), j))),
                               eq(v._load_byte(b, ereg, j), v._load_byte(h, ereg, j), 8))
                v.prove(b, same, 'container: other elements are left alone')
                return
            el = cont.sink_events(b, o)[len(cont.sink_events(h, o)):]
            v.prove(b, len(el) == 1 and el[0][0] == 'elem', 'container: one packed value adds one element')
            v.prove(b, eq(cont.sink_count(b, o), add(n0, add(k, 1))), 'container: elements are counted')
            if len(el) == 1 and el[0][0] == 'elem':
                v.prove(b, holds(v, b, F.ty, el[0][1], p, lim), 'value: the value stored is the value encoded')
            if F.max_count:
                v.prove(b, ule(cont.sink_count(b, o), F.max_count), 'limits: an element over the limit is rejected')
        ver.step_check = step
        if F.label == 'fix':
            ver.custom_cands = [ver.base_cands, lambda v, st, inst, key: [('k below the fixed size', lambda s: ule(s.ghost[('k', inst)], 20))]]
        for out in ver.run('@d_' + name, [s, o, t], st):
            st1 = out.st
            inst = st1.ghost.get('#inst')
            k = st1.ghost.get(('k', inst))
            if out.kind == 'return':
                ver.prove(st1, t == LEN, 'wire type: a wrong wire type is rejected')
                ver.prove(st1, eq(is_pos(ver, st1, s), lim), 'framing: all of the packed payload is read')
                if F.label == 'fix':
                    ver.prove(st1, k is not None and eq(k, 20), 'container: a fixed-size field has all its elements')
                elif k is not None:
                    ver.prove(st1, eq(cont.sink_count(st1, o), add(n0, k)), 'container: elements are counted')
                else:
                    ver.prove(st1, eq(pos, lim), 'framing: all of the packed payload is read')
                continue
            why = [t != LEN]
            if k is not None:
                p = st1.ghost[('hupos', inst)]
                fr, ok, val, bad, n = decode(st1, F.ty, p, lim)
                if F.label == 'fix':
                    why.append(and_(ult(k, 20), not_(and_(fr, ok))))
                    why.append(and_(eq(k, 20), not_(eq(p, lim))))
                else:
                    why.append(not_(and_(fr, ok)))
                    if F.max_count:
                        why.append(not_(ule(add(add(n0, k), 1), F.max_count)))
            must_throw(ver, out, why)
    return tt


def record(st, pos, lim):
    """a field record at pos: (readable, number, type, start of the value, window end or None-condition)"""
    n = vlen(st, pos)
    raw = VV(bv(pos, 64))
    okt = z3.And(framed(st, pos, lim), z3.ULT(raw, 1 << 32), z3.UGE(raw, 8), z3.ULE(n, 5))
    num = z3.LShR(z3.Extract(31, 0, raw), 3)
    typ = z3.Extract(7, 0, raw) & 7
    a = add(pos, n)
    m = vlen(st, a)
    size = VV(bv(a, 64))
    b = add(a, m)
    oks = z3.And(framed(st, a, lim), z3.ULT(size, 1 << 32), z3.ULE(size, bv(lim, 64) - bv(b, 64)))
    return okt, num, typ, a, oks, b, add(b, size)


def t_map(name):
    F = Field(name)

    def tt(ver):
        st, s, pos, lim, t = start(ver)
        o = cont.new_sink(ver, st, 'map')
        K, M = F.key, F.val
        st.ghost['seen1'] = False
        st.ghost['seen2'] = False
        for g in ('a1', 'b1', 'a2', 'b2'):
            st.ghost[g] = BVV(0, 64)
        pairs = []

        def window(h, b, p):
            okt, num, typ, a, oks, w0, w1 = record(b, p, lim)
            return okt, num, typ, a, oks, w0, w1

        def on_back(v, h, b, inst):
            okt, num, typ, a, oks, w0, w1 = window(h, b, is_pos(v, h, s))
            for i, ty in ((1, K), (2, M)):
                e = normb(num == i)
                if v._quick(b.pc, e):
                    e = z3.BoolVal(True)
                elif v._quick(b.pc, not_(e)):
                    e = z3.BoolVal(False)
                b.ghost['seen%d' % i] = normb(z3.Or(zbool(h.ghost['seen%d' % i]), e))
                b.ghost['a%d' % i] = norm(z3.If(e, bv(a if ty.kind == 'num' else w0, 64), bv(h.ghost['a%d' % i], 64)))
                b.ghost['b%d' % i] = norm(z3.If(e, bv(lim if ty.kind == 'num' else w1, 64), bv(h.ghost['b%d' % i], 64)))
        ver.on_back = on_back
        ver.no_cands = ('seen1', 'seen2', 'a1', 'b1', 'a2', 'b2')

        def cands(v, st, inst, key):
            out = []
            # flags
            for r in v.loop_phis:
                for i in (1, 2):
                    out.append(('%s iff field %d was seen' % (r, i), lambda s, r=r, i=i: zbool(tobool_any(s.frames[-1].env[r])) == zbool(s.ghost['seen%d' % i])))
            at = {(reg, off) for reg, off, n in v.loop_cells if n == 1}
            for reg, off in at:
                if (reg, off + 1) not in at and (reg, off - 1) not in at:
                    for i in (1, 2):
                        out.append(('%s+%d iff field %d was seen' % (reg.name, off, i),
                                    lambda s, reg=reg, off=off, i=i: zbool(tobool_any(v._cell(s, reg, off, 1))) == zbool(s.ghost['seen%d' % i])))
            # values
            for i, ty in ((1, K), (2, M)):
                if ty.kind == 'num':
                    for reg, off, n in v.loop_cells:
                            if off % ty.size == 0 and reg.size >= off + ty.size and reg is not s.reg:
                                out.append(('%s+%d is the value of field %d' % (reg.name, off, i),
                                            lambda s, reg=reg, off=off, i=i, ty=ty: implies(s.ghost['seen%d' % i],
                                                                                           holds(v, s, ty, Ptr(reg, off), s.ghost['a%d' % i], lim))))
                else:
                    key_ = 'msgpos' if ty.kind == 'msg' else 'seqdata'
                    for g in v.loop_ghosts:
                        if isinstance(g, tuple) and g[0] == key_ and isinstance(g[2], int):
                            reg = [r for r in st.mem if r.id == g[1]]
                            if reg:
                                out.append(('%s+%d is the value of field %d' % (reg[0].name, g[2], i),
                                            lambda s, q=Ptr(reg[0], g[2]), i=i, ty=ty: implies(
                                                s.ghost['seen%d' % i], holds(v, s, ty, q, s.ghost['a%d' % i], s.ghost['b%d' % i]))))
            return out
        ver.custom_cands = [ver.base_cands, cands]

        def accept(st1, p):
            okt, num, typ, a, oks, w0, w1 = window(None, st1, p)
            alts = []
            for i, ty in ((1, K), (2, M)):
                if ty.kind == 'num':
                    fr, ok, v, bad, n = decode(st1, ty, a, lim)
                    c = z3.And(typ == S.WT[ty.enc], fr, ok)
                else:
                    c = z3.And(typ == LEN, oks, zbool(window_ok(ver, st1, ty, w0, w1, ver.fixed_size)))
                alts.append(z3.And(num == i, c))
            return z3.And(okt, z3.Or(*alts))

        def step(v, h, b, key, inst):
            p, np = h.ghost['upos'], b.ghost['upos']
            okt, num, typ, a, oks, w0, w1 = window(h, b, p)
            for i, ty in ((1, K), (2, M)):
                w = z3.And(typ == (S.WT[ty.enc] if ty.kind == 'num' else LEN))
                v.prove(b, implies(num == i, w), 'wire type: a wrong wire type is rejected')
                if ty.kind == 'num':
                    fr, ok, val, bad, n = decode(b, ty, a, lim)
                    e = and_(fr, not_(bad), eq(np, add(a, n)))
                else:
                    e = and_(oks, eq(np, w1))
                v.prove(b, implies(num == i, e), 'framing: the fields of an entry follow one another')
        ver.step_check = step
        for out in ver.run('@d_' + name, [s, o, t], st):
            st1 = out.st
            inst = st1.ghost.get('#inst')
            if out.kind == 'return':
                ver.prove(st1, t == LEN, 'wire type: a wrong wire type is rejected')
                ver.prove(st1, eq(is_pos(ver, st1, s), lim), 'framing: all of the entry is read')
                el = cont.sink_events(st1, o)
                ver.prove(st1, len(el) == 1 and el[0][0] == 'put', 'container: an entry sets one key')
                if len(el) != 1 or el[0][0] != 'put':
                    continue
                kv, q = el[0][1], el[0][2]
                a1, b1, a2, b2 = (st1.ghost[g] for g in ('a1', 'b1', 'a2', 'b2'))
                if kv[0] == 'int':
                    fr, ok, v, bad, n = decode(st1, K, a1, lim)
                    e = implies(and_(fr, ok), eq(bv(kv[1], 8 * K.size), v, 8 * K.size))
                else:
                    src = lib.src_of(st1, kv[1])
                    e = and_(eq(kv[2], sub(b1, a1)), or_(eq(kv[2], 0), eq(src, a1) if src is not None else False))
                ver.prove(st1, implies(st1.ghost['seen1'], e), 'value: the key stored is the key encoded')
                ver.prove(st1, implies(st1.ghost['seen2'], holds(ver, st1, M, q, a2, b2 if M.kind != 'num' else lim)), 'value: the value stored is the value encoded')
                continue
            why = [t != LEN, st1.ghost.get('nested', False)]
            if inst is not None:
                p = st1.ghost[('hupos', inst)]
                why.append(and_(not_(eq(p, lim)), not_(accept(st1, p))))
                why.append(and_(eq(p, lim), not_(and_(st1.ghost['seen1'], st1.ghost['seen2']))))
            must_throw(ver, out, why)
    return tt


def tobool_any(v):
    if isinstance(v, (bool, z3.BoolRef)):
        return v
    if isint(v):
        return v != 0
    if z3.is_bv(v) and v.size() <= 8:
        return v != 0
    raise TypeError


def install_fields(ver):
    """contract of the generated deserialize_value: it reads some of its window and nothing else"""
    @ver.contract(r'void V::deserialize_value<V::is, .*>\(V::is&, V::msg&, .*\)')
    def _(v, st, a, ins):
        s, m, tag = a
        pos, lim = is_pos(v, st, s), is_lim(v, st, s)
        v.prove(st, eq(pos, st.ghost['upos']), 'framing: a field is read at the position of its stream')
        st.ghost['fields'] = st.ghost['fields'] + (('field', m, tag, pos, lim),)
        bad = st.copy()
        np = fresh(64, 'fend')
        st.assume(z3.And(z3.ULE(bv(pos, 64), np), z3.ULE(np, bv(lim, 64))))
        lib.is_set_pos(v, st, s, np)
        st.ghost['upos'] = np
        st.ghost['left'] = z3.And(bv(tag, 32) & 7 == LEN, np != bv(lim, 64))
        bad.ghost['nested'] = True
        return [(st, None), (v.throw(bad, 'nested'), None)]


def t_message(entry, typed):
    def tt(ver):
        st, s, pos, lim, t = start(ver, message=False)
        install_fields(ver)
        st.ghost['fields'] = ()
        st.ghost['left'] = False
        st.ghost['eof'] = False
        m = Ptr(st.new_region('msg', 8), 0)

        def step(v, h, b, key, inst):
            p, np = h.ghost['upos'], b.ghost['upos']
            okt, num, typ, a, oks, w0, w1 = record(b, p, lim)
            ev = b.ghost['fields'][len(h.ghost['fields']):]
            v.prove(b, len(ev) == 1, 'framing: every record is handed over exactly once')
            if len(ev) != 1:
                return
            _, mm, tag, p0, l0 = ev[0]
            v.prove(b, mm.reg is m.reg and eq(mm.off, m.off), 'framing: every record is handed over exactly once')
            v.prove(b, eq(z3.ZeroExt(32, bv(tag, 32)), VV(bv(p, 64))), 'framing: a record is handed over with its own tag')
            v.prove(b, z3.And(z3.UGE(bv(tag, 32), 8)), 'framing: field number zero is rejected')
            v.prove(b, implies(typ == LEN, and_(oks, eq(p0, w0), eq(l0, w1), eq(np, w1))),
                    'framing: a length-delimited field sees exactly its own bytes and must read all of them')
            v.prove(b, implies(typ != LEN, and_(eq(p0, a), eq(l0, lim))), 'framing: a field starts right after its tag')
        ver.step_check = step
        ver.custom_cands = [ver.base_cands, lambda v, st, inst, key: [('nothing left over', lambda s: not_(s.ghost['left'])), ('no end of data', lambda s: not_(s.ghost['eof']))]]
        for out in ver.run('@' + entry, [s, m] + ([t] if typed else []), st):
            st1 = out.st
            inst = st1.ghost.get('#inst')
            p = st1.ghost.get(('hupos', inst))
            if out.kind == 'return':
                if typed:
                    ver.prove(st1, t == LEN, 'wire type: a wrong wire type is rejected')
                if p is None:
                    ver.prove(st1, eq(pos, lim), 'framing: all of the message is read')
                    continue
                np = is_pos(ver, st1, s)
                ver.prove(st1, or_(eq(np, lim), not_(avail(np, lim, 1))), 'framing: all of the message is read')
                ver.prove(st1, eq(np, p), 'framing: every record is handed over exactly once')
                continue
            why = [st1.ghost.get('nested', False), st1.ghost.get('left', False)]
            if typed:
                why.append(t != LEN)
            if p is not None:
                okt, num, typ, a, oks, w0, w1 = record(st1, p, lim)
                why.append(and_(not_(eq(p, lim)), not_(and_(okt, or_(typ != LEN, oks)))))
            must_throw(ver, out, why)
    return tt


def t_skip(ver):
    st, s, pos, lim, t = start(ver)
    for out in ver.run('@p_skip', [s, t], st):
        st1 = out.st
        n = vlen(st1, pos)
        frv = framed(st1, pos, lim)
        whole = or_(eq(pos, lim), avail(pos, lim, sub(lim, pos)))
        if out.kind == 'return':
            np = is_pos(ver, st1, s)
            ver.prove(st1, or_(and_(t == 0, frv, eq(np, add(pos, n))), and_(t == 2, whole, eq(np, lim)),
                               and_(t == 5, avail(pos, lim, 4), eq(np, add(pos, 4))), and_(t == 1, avail(pos, lim, 8), eq(np, add(pos, 8)))),
                      'skip: an unknown field is passed over whole, and only if its wire type is known')
        else:
            ver.prove(st1, not_(or_(and_(t == 0, frv), and_(t == 2, whole), and_(t == 5, avail(pos, lim, 4)), and_(t == 1, avail(pos, lim, 8)))),
                      'skip: every well-formed unknown field is accepted')


def t_read_varint(t):
    """read_varint<T> for every T that is instantiated, against the varint at the start of the stream"""
    ty = Ty('varint_' + t)

    def tt(ver):
        lib.install_all(ver)
        st = State()
        s = new_istream(ver, st)
        lim = is_lim(ver, st, s)
        w = S.width(t)
        ver.witness = witness_of(limit=lim, end=END, **{'b%d' % i: in_byte(i) for i in range(10)})
        for o in ver.run('@p_read_' + t, [s], st):
            np = is_pos(ver, o.st, s)
            specs = [(k,) + S.spec_read('varint', t, 0, lim, k) for k in range(1, 11)]
            if o.kind == 'return':
                v = bv(frombool(o.value) if isinstance(o.value, z3.BoolRef) else o.value, w) if t != 'bool' else \
                    (z3.If(zbool(tobool(o.value)), BVV(1, 8), BVV(0, 8)))
                ver.prove(o.st, or_(*[and_(eq(np, k), fr, z3.Not(bad)) for k, fr, ok, x, bad in specs]),
                          'varint: only a representable value is accepted, consuming exactly its bytes')
                ver.prove(o.st, and_(*[z3.Implies(z3.And(fr, ok), v == x) for k, fr, ok, x, bad in specs]), 'varint: the value read is the one encoded')
            else:
                ver.prove(o.st, not_(or_(*[and_(fr, ok) for k, fr, ok, x, bad in specs])), 'varint: every representable value is accepted')
    return tt


VALUES = {n: Task('pb_des', 'deserialize field %s' % n, t_value(n), lean=True) for n in NAMES
          if Field(n).label in ('req', 'opt', 'ptr', 'rep') and n != 'msg'}
PACKED = {n: Task('pb_des', 'deserialize field %s' % n, t_packed(n), lean=True) for n in NAMES if Field(n).label in ('pak', 'fix')}
MAPS = {n: Task('pb_des', 'deserialize field %s' % n, t_map(n), lean=True) for n in NAMES if Field(n).label == 'map'}
MSG = [Task('pb_des', 'deserialize message', t_message('p_message', False), lean=True), Task('pb_des', 'deserialize sub-message', t_message('d_msg', True), lean=True)]
SKIP = [Task('pb_des', 'skip an unknown field', t_skip)]
RV = [Task('pb_des', 'read_varint %s' % t, t_read_varint(t)) for t in ('bool', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64')]
V, P, M = list(VALUES.values()), list(PACKED.values()), list(MAPS.values())
TASKS = {'C02': V + M, 'C05': V + P + M + MSG + SKIP + RV, 'C06': MSG + SKIP + M, 'C09': V + P + M + MSG + SKIP, 'C10': P + [t for n, t in VALUES.items() if n.startswith('rep')] + M,
         'C11': [t for n, t in {**VALUES, **PACKED}.items() if n.endswith('_max') or 'fstr' in n or 'fbyt' in n or n.startswith('fix')],
         'C12': [t for n, t in {**VALUES, **MAPS}.items() if 'str' in n]}
