"""C04, C05, C07, C08: the real input and output streams of spb/pb meet the contract of V::is / V::os, and the functions of
spb/pb.hpp (buffer, container, writer, reader; plain and delimited)."""
from .common import *
from irv.run import Task

HARNESS = {'pb_stream': ('/verif/harness/pb_stream.cpp', [])}
MAX = mask(64)
J = BV('j', 64)          # an arbitrary index: a statement about J is a statement about every byte


def prefix_ok(st, pos, lim):
    pass


# ------------------------------------------------------------------ istream_buffer
def buf(ver):
    """an istream_buffer over the window [pos, lim) of an input of END bytes"""
    lib.install_all(ver)
    st = State()
    pos, lim = BV('pos', 64), BV('lim', 64)
    st.assume(z3.And(z3.ULE(pos, lim), z3.ULE(lim, END), z3.ULE(END, 1 << 46)))
    data = st.new_region('input', END, const=True, arr=IN)
    s = Ptr(st.new_region('istream_buffer', 16), 0)
    outs = [o for o in ver.run('@b_new', [s, Ptr(data, pos), sub(lim, pos)], st)]
    for o in outs:
        ver.prove(o.st, o.kind == 'return', 'control: a buffer stream can be made of any bytes')
    ver.witness = witness_of(pos=pos, limit=lim, end=END)
    return outs[0].st, s, pos, lim


def buf_at(ver, st, s, pos, lim, name):
    """the stream stands at pos and ends at lim"""
    for o in ver.run('@b_size', [s], st.copy()):
        ver.prove(o.st, o.kind == 'return', 'buffer: ' + name + ': size is the rest of the window')
        if o.kind == 'return':
            ver.prove(o.st, eq(o.value, sub(lim, pos)), 'buffer: ' + name + ': size is the rest of the window')
    for o in ver.run('@b_empty', [s], st.copy()):
        ver.prove(o.st, o.kind == 'return' and eq(frombool_(o.value), frombool_(eq(pos, lim)), 8), 'buffer: ' + name + ': empty at the end of the window only')
    for o in ver.run('@b_peek', [s], st.copy()):
        exp = z3.If(bv(pos, 64) == bv(lim, 64), BVV(0xffffffff, 32), z3.ZeroExt(24, in_byte(pos)))
        ver.prove(o.st, o.kind == 'return' and eq(o.value, exp, 32), 'buffer: ' + name + ': the next byte is that of the position')


def frombool_(v):
    """i1 / bool value as 8 bits"""
    if isinstance(v, bool):
        return int(v)
    if isint(v):
        return v & 1
    if z3.is_bool(v):
        return z3.If(v, BVV(1, 8), BVV(0, 8))
    return z3.ZeroExt(7, z3.Extract(0, 0, v))


def t_buffer(op):
    def t(ver):
        st, s, pos, lim = buf(ver)
        n = BV('n', 64)
        ok = z3.ULE(n, lim - pos)
        if op == 'new':
            buf_at(ver, st, s, pos, lim, 'made')
            return
        if op in ('byte', 'eof'):
            for o in ver.run('@b_' + op, [s], st):
                if o.kind == 'throw':
                    ver.prove(o.st, op == 'byte' and eq(pos, lim), 'buffer: an exception only at the end of the window')
                    continue
                if op == 'eof':
                    exp = z3.If(pos == lim, BVV(0xffffffff, 32), z3.ZeroExt(24, in_byte(pos)))
                    ver.prove(o.st, eq(o.value, exp, 32), 'buffer: read_byte_or_eof gives the next byte or -1 at the end')
                    buf_at(ver, o.st, s, norm(z3.If(pos == lim, pos, pos + 1)), lim, 'read_byte_or_eof')
                else:
                    ver.prove(o.st, ult(pos, lim), 'buffer: nothing is read at the end of the window')
                    ver.prove(o.st, eq(o.value, in_byte(pos), 8), 'buffer: read_byte gives the next byte')
                    buf_at(ver, o.st, s, pos + 1, lim, 'read_byte')
            return
        if op == 'exact':
            cap = BV('cap', 64)
            st.assume(z3.And(z3.ULE(n, cap), z3.ULE(cap, 1 << 46)))
            d = st.new_region('destination', cap)
            old = ver._arr(st, d)
            args = [s, Ptr(d, 0), n]
        elif op == 'sub':
            sub_s = Ptr(st.new_region('sub', 16), 0)
            args = [s, n, sub_s]
        else:
            args = [s, n]
        for o in ver.run('@b_' + op, args, st):
            if o.kind == 'throw':
                ver.prove(o.st, z3.Not(ok), 'buffer: an exception only when the window is too short')
                continue
            ver.prove(o.st, ok, 'buffer: too short a window is an exception')
            buf_at(ver, o.st, s, pos + n, lim, op)
            if op == 'sub':
                buf_at(ver, o.st, sub_s, pos, pos + n, 'sub-stream')
            if op == 'exact':
                x = o.st.copy()
                x.assume(z3.ULT(J, cap))
                b = ver._load_byte(x, d, J)
                ver.prove(x, eq(b, z3.If(z3.ULT(J, n), in_byte(pos + J), z3.Select(old, J)), 8), 'buffer: exactly the bytes of the window are copied')
    return t


# ------------------------------------------------------------------ user reader
AV = BV('available', 64)        # bytes the user reader has not given yet when the proof starts


def rpos(st):
    """position of the user reader in its data"""
    return add(st.ghost['R0'], st.ghost['done'])


def data_left(st):
    return sub(AV, st.ghost['done'])


def use_reader(ver, chunk=None):
    """a user reader: gives some of the bytes asked for (at least one before the end of the data) or throws"""
    @ver.contract(r'V::rd::operator\(\)\(void\*, unsigned long\)')
    def _(v, st, a, ins):
        _, d, n = a
        v.prove(st, not_(eq(n, 0)), 'reader: the user reader is never asked for zero bytes')
        v.prove(st, d.reg is not None, 'reader: the user reader gets memory')
        if d.reg is None or not v.check_access(st, d, n, 'memory given to the user reader', True):
            return [(st, DIVERGE)]
        dn = st.ghost['done']
        rp = add(st.ghost['R0'], dn)
        rest = bv(sub(AV, dn), 64)
        out = [(v.throw(st.copy(), 'userthrow'), None)]
        out[0][0].ghost['userthrow'] = True
        m = fresh(64, 'given')
        st.assume(z3.ULE(m, bv(n, 64)))
        st.assume(z3.ULE(m, rest))
        st.assume((m == 0) == z3.Or(bv(n, 64) == 0, rest == 0))
        if isint(n) and n == 1 and isint(d.off):
            old = fresh(8, 'scribble')
            v.poke(st, d, 1, norm(z3.If(m == 1, in_byte(rp), old)))
        else:
            # bytes that were asked for and not given may hold anything
            sc = z3.Array(fresh_name('scribble'), z3.BitVecSort(64), z3.BitVecSort(8))
            lib.copy_in(v, st, d, 0, n, sc)
            lib.copy_in(v, st, d, rp, m)
        lib.step_lemma(st, dn, AV, m)
        if getattr(v, 'read_hook', None):
            v.read_hook(st, m)
        st.ghost['done'] = add(dn, m)
        out.append((st, m))
        return out


from irv.lib import DIVERGE     # noqa


def counts(ver, st, s):
    """(bytes left, consumed) as reported by the stream"""
    r = []
    for f in ('@r_size', '@r_consumed'):
        os_ = ver.run(f, [s], st.copy())
        assert len(os_) == 1 and os_[0].kind == 'return'
        r.append(os_[0].value)
    return r


def rdr(ver, sized=True):
    """an istream_reader with some bytes left and some consumed"""
    lib.install_all(ver)
    use_reader(ver)
    st = State()
    R0, L, C = BV('rpos', 64), BV('left', 64), BV('consumed', 64)
    st.assume(z3.And(z3.ULE(R0, 1 << 45), z3.ULE(AV, 1 << 45), END == R0 + AV))
    st.ghost['R0'], st.ghost['done'] = R0, 0
    u = Ptr(st.new_region('user_reader', 8), 0)
    s = Ptr(st.new_region('istream_reader', 32), 0)
    if sized:
        outs = ver.run('@r_new_n', [s, u, L], st)
    else:
        outs = ver.run('@r_new', [s, u], st)
    o = outs[0]
    for x in outs:
        ver.prove(x.st, x.kind == 'return', 'control: a reader stream can be made of any reader')
    st = o.st
    ver.prove(st, eq(st.ghost['done'], 0), 'reader: nothing is read before it is asked for')
    l0, c0 = counts(ver, st, s)
    ver.prove(st, and_(eq(l0, L if sized else MAX), eq(c0, 0)), 'reader: a new stream has its whole window left and nothing consumed')
    if sized:
        # any history: the counter of consumed bytes may stand anywhere
        cs = [(k, n) for k, (n, x) in st.mem[s.reg].cells.items() if n == 8 and isint(x) and x == 0]
        if len(cs) == 1:
            ver.poke(st, Ptr(s.reg, cs[0][0]), 8, C)
            l1, c1 = counts(ver, st, s)
            if not (z3.is_bv(c1) and z3.eq(z3.simplify(c1), C)):
                C = 0
                ver.poke(st, Ptr(s.reg, cs[0][0]), 8, 0)
        else:
            C = 0
    ver.witness = witness_of(reader_position=R0, left=L, consumed=C, end=END)
    return st, s, R0, L, C


def rdr_after(ver, st, s, R, L, C, name):
    """the stream stands at R with L bytes left and C consumed"""
    l1, c1 = counts(ver, st, s)
    ver.prove(st, eq(l1, L), 'reader: ' + name + ': bytes left go down by the bytes read')
    ver.prove(st, eq(c1, C), 'reader: ' + name + ': bytes consumed go up by the bytes read')
    ver.prove(st, eq(rpos(st), R), 'reader: ' + name + ': exactly the bytes needed are taken from the user reader')


def t_reader(op):
    def t(ver):
        if op == 'new':
            rdr(ver, False)
            return
        st, s, R, L, C = rdr(ver)
        n = BV('n', 64)
        if op in ('byte', 'eof'):
            ok = z3.And(L != 0, R != END)
            for o in ver.run('@r_' + op, [s], st):
                ut = o.st.ghost.get('userthrow', False)
                if o.kind == 'throw':
                    if not ut:
                        ver.prove(o.st, op == 'byte' and z3.Not(ok), 'reader: an exception only at the end of the data or of the window')
                    continue
                ver.prove(o.st, not ut, 'reader: an exception of the user reader is not swallowed')
                if op == 'eof':
                    ver.prove(o.st, eq(o.value, z3.If(ok, z3.ZeroExt(24, in_byte(R)), BVV(0xffffffff, 32)), 32), 'reader: read_byte_or_eof gives the next byte or -1 at the end')
                    one = norm(z3.If(ok, BVV(1, 64), BVV(0, 64)))
                    rdr_after(ver, o.st, s, add(R, one), sub(L, one), add(C, one), 'read_byte_or_eof')
                else:
                    ver.prove(o.st, ok, 'reader: nothing is read at the end')
                    ver.prove(o.st, eq(o.value, in_byte(R), 8), 'reader: read_byte gives the next byte')
                    rdr_after(ver, o.st, s, add(R, 1), sub(L, 1), add(C, 1), 'read_byte')
            return
        if op == 'sub':
            o2 = Ptr(st.new_region('sub', 32), 0)
            for o in ver.run('@r_sub', [s, n, o2], st):
                if o.kind == 'throw':
                    ver.prove(o.st, z3.UGT(n, L), 'reader: a sub-stream that fits is never refused')
                    continue
                ver.prove(o.st, z3.ULE(n, L), 'reader: a sub-stream longer than its parent is an exception')
                rdr_after(ver, o.st, s, R, sub(L, n), add(C, n), 'sub_stream (parent)')
                rdr_after(ver, o.st, o2, R, n, 0, 'sub-stream')
                # the sub-stream reads from the same user reader
                for q in ver.run('@r_byte', [o2], o.st):
                    if q.kind == 'return':
                        ver.prove(q.st, z3.And(n != 0, R != END), 'reader: nothing is read at the end of a sub-stream')
                        ver.prove(q.st, eq(q.value, in_byte(R), 8), 'reader: a sub-stream reads the bytes of its parent')
                        rdr_after(ver, q.st, o2, add(R, 1), sub(n, 1), 1, 'read_byte of a sub-stream')
                        rdr_after(ver, q.st, s, add(R, 1), sub(L, n), add(C, n), 'parent of a sub-stream that was read')
            return
        cap = BV('cap', 64)
        if op in ('read', 'exact'):
            st.assume(z3.And(z3.ULE(n, cap), z3.ULE(cap, 1 << 46)))
            d = st.new_region('destination', cap)
        if op == 'read':
            for o in ver.run('@r_read', [s, Ptr(d, 0), n], st):
                if o.kind == 'throw':
                    ver.prove(o.st, o.st.ghost.get('userthrow', False), 'reader: reading throws only what the user reader throws')
                    continue
                m = o.value
                ver.prove(o.st, and_(ule(m, n), ule(m, L), ule(m, sub(END, R))), 'reader: no more is read than asked for, left and there')
                ver.prove(o.st, implies(eq(m, 0), or_(eq(n, 0), eq(L, 0), eq(R, END))), 'reader: nothing is read only when nothing is asked for or left')
                x = o.st.copy()
                x.assume(z3.And(z3.ULT(J, n), z3.ULT(J, bv(m, 64))))
                ver.prove(x, eq(ver._load_byte(x, d, J), in_byte(add(R, J)), 8), 'reader: the bytes read are those at the position')
                rdr_after(ver, o.st, s, add(R, m), sub(L, m), add(C, m), 'read')
            return
        ok = z3.And(z3.ULE(n, L), z3.ULE(n, AV))
        ver.max_unroll = 0
        if op == 'exact':
            def cands(v, s0, inst, key):
                return [('the bytes read so far are those at the position',
                         lambda x: implies(ult(J, x.ghost['done']), eq(v._load_byte(x, d, J), in_byte(add(R, J)), 8)))] + base(v, s0, inst, key)
        else:
            cands = None

        def base(v, s0, inst, key):
            def sums(x):
                l1, c1 = counts(v, x, s)
                return l1, c1
            return [('bound: read at most the window', lambda x: ule(x.ghost['done'], L)),
                    ('bound: read at most the data', lambda x: ule(x.ghost['done'], AV)),
                    ('bound: what was read at most what was asked for', lambda x: ule(x.ghost['done'], n)),
                    ('left = what is left after what was read', lambda x: eq(sums(x)[0], sub(L, x.ghost['done']))),
                    ('consumed = start + what was read', lambda x: eq(sums(x)[1], add(C, x.ghost['done'])))] + nums(v, s0, n, R)
        ver.custom_cands = [cands or base]

        ver.rewriting = True

        def hook(x, m):
            D = bv(x.ghost['done'], 64)
            lib.step_lemma(x, D, n, m)
            lib.step_lemma(x, D, L, m)
            x.assume(z3.Implies(z3.And(z3.ULT(J, D), z3.ULE(D, 1 << 46)), z3.UGE(J - D, 1 << 62)))
            x.assume(z3.Implies(z3.And(z3.UGE(J, D), z3.ULT(J, D + m), z3.ULE(D, 1 << 46), z3.ULE(m, 1 << 46)), z3.ULT(J - D, m)))
        ver.read_hook = hook
        ver.measures = [('bytes still to read', lambda x: sub(n, x.ghost['done']))]
        if op == 'skip':
            use_exact(ver, s)
        args = [s, Ptr(d, 0), n] if op == 'exact' else [s, n]
        for o in ver.run('@r_' + op, args, st):
            ut = o.st.ghost.get('userthrow', False)
            if o.kind == 'throw':
                if not ut:
                    ver.prove(o.st, z3.Not(ok), 'reader: an exception only when the data or the window is too short')
                continue
            ver.prove(o.st, not ut, 'reader: an exception of the user reader is not swallowed')
            ver.prove(o.st, ok, 'reader: data or a window that is too short is an exception')
            rdr_after(ver, o.st, s, add(R, n), sub(L, n), add(C, n), op)
            if op == 'exact':
                x = o.st.copy()
                x.assume(z3.ULT(J, n))
                ver.prove(x, eq(ver._load_byte(x, d, J), in_byte(add(R, J)), 8), 'reader: exactly the bytes at the position are copied')
    return t


def nums(v, s0, n, R):
    """loop counters of the code: a 64-bit cell or register counts what is still to be read, a pointer follows what was read"""
    out = []

    def one(nm, x0, get):
        if isinstance(x0, Ptr):
            if x0.reg is not None:
                out.append(('%s = start + what was read' % nm, lambda x: eq(get(x).off, add(x0.off, x.ghost['done']))))
        elif isint(x0) or z3.is_bv(x0) and x0.size() == 64:
            out.append(('bound: %s at most what was asked for' % nm, lambda x: ule(get(x), n)))
            out.append(('%s = what is still to be read' % nm, lambda x: eq(get(x), sub(n, x.ghost['done']))))
            out.append(('%s = what was read' % nm, lambda x: eq(get(x), x.ghost['done'])))
    for reg, off, k in v.loop_cells:
        if k == 8:
            one('%s+%d' % (reg.name, off), v._cell(s0, reg, off, 8), lambda x, reg=reg, off=off: v._cell(x, reg, off, 8))
    for r in v.loop_phis:
        x0 = s0.frames[-1].env.get(r)
        if x0 is not None:
            one(r, x0, lambda x, r=r: x.frames[-1].env[r])
    return out


def use_exact(ver, s0):
    """contract of istream_reader::read_exact_or_throw, proved by the task 'reader exact'"""
    @ver.contract(r'spb::pb::detail::istream_reader::read_exact_or_throw\(void\*, unsigned long\)')
    def _(v, st, a, ins):
        s, d, n = a
        if not (isint(n) and n == 0) and not v.check_access(st, d, n, 'memory to read into', True):
            return [(st, DIVERGE)]
        l0, c0 = counts(v, st, s)
        thr = st.copy()
        thr.ghost['userthrow'] = True
        out = [(v.throw(thr, 'userthrow'), None)]
        ok, bad = v.fork(st, and_(ule(n, l0), ule(n, data_left(st))))
        if ok is not None:
            lib.step_lemma(ok, ok.ghost['done'], AV, n)
            if getattr(v, 'read_hook', None):
                v.read_hook(ok, bv(n, 64))
            lib.copy_in(v, ok, d, rpos(ok), n)
            ok.ghost['done'] = add(ok.ghost['done'], n)
            set_counts(v, ok, s, sub(l0, n), add(c0, n), l0, c0)
            out.append((ok, None))
        if bad is not None:
            out.append((v.throw(bad, 'eof'), None))
        return out


def set_counts(v, st, s, l, c, l0, c0):
    """store new counters: the cells that hold the old ones"""
    cl = [k for k, (n, x) in st.mem[s.reg].cells.items() if n == 8 and not isinstance(x, (Ptr,)) and same(x, l0)]
    cc = [k for k, (n, x) in st.mem[s.reg].cells.items() if n == 8 and not isinstance(x, (Ptr,)) and same(x, c0)]
    if len(cl) != 1 or len(cc) != 1 or cl == cc:
        raise Unsupported('layout of istream_reader')
    v.poke(st, Ptr(s.reg, cl[0]), 8, l)
    v.poke(st, Ptr(s.reg, cc[0]), 8, c)


def same(x, y):
    if isint(x) or isint(y):
        return isint(x) and isint(y) and x == y
    return z3.is_bv(x) and z3.is_bv(y) and z3.eq(z3.simplify(x), z3.simplify(y))


# ------------------------------------------------------------------ output
def use_writer(ver):
    """a user writer: takes all the bytes or throws.  ghost: log (array) and length"""
    @ver.contract(r'V::wr::operator\(\)\(void const\*, unsigned long\)')
    def _(v, st, a, ins):
        _, p, n = a
        if not (isint(n) and n == 0) and not v.check_access(st, p, n, 'memory given to the user writer'):
            return [(st, DIVERGE)]
        t = st.copy()
        t.ghost['userthrow'] = True
        append_log(v, st, p, n)
        return [(v.throw(t, 'userthrow'), None), (st, None)]


LOG = [None]


def append_log(v, st, p, n):
    """the log region is the output; appended at its current end"""
    reg, ln = st.ghost['log'], st.ghost['loglen']
    st.ghost['loglen'] = add(ln, n)
    if isint(n) and n == 0 or p.reg is None:
        return
    if isint(n) and n <= 16:
        bs = v.load_bytes(st, p, n)
        a = v._arr(st, reg)
        for k, b in enumerate(bs):
            a = z3.Store(a, bv(add(ln, k), 64), bv(b, 8))
        st.mem[reg].arr = a
        return
    v.flush(st, p.reg)
    src = v._arr(st, p.reg)
    old = v._arr(st, reg)
    i = z3.BitVec(fresh_name('i'), 64)
    st.mem[reg].arr = z3.Lambda([i], z3.If(z3.ULT(i - bv(ln, 64), bv(n, 64)), z3.Select(src, i - bv(ln, 64) + bv(p.off, 64)), z3.Select(old, i)))


MSG = z3.Array('MSG', z3.BitVecSort(64), z3.BitVecSort(8))
SZ = BV('message_size', 64)


def t_ostream(kind, op):
    """write appends the bytes and counts them"""
    def t(ver):
        lib.install_all(ver)
        use_writer(ver)
        st = State()
        o0, n, b = BV('o0', 64), BV('n', 64), BV('byte', 8)
        cap = BV('cap', 64)
        cnt = 1 if op == 'byte' else n
        st.assume(z3.And(z3.ULE(cap, 1 << 46), z3.ULE(o0, cap), z3.ULE(bv(cnt, 64), cap - o0)))
        src = st.new_region('source', n, const=True, arr=MSG)
        ver.witness = witness_of(offset=o0, size=n, byte=b)
        pre = {'buffer': 'ob', 'writer': 'ow', 'size': 'os'}[kind]
        args = [b] if op == 'byte' else [Ptr(src, 0), n]
        s = Ptr(st.new_region('ostream', 32), 0)
        out = st.new_region('output', cap)
        old = ver._arr(st, out)
        total0 = None
        if kind == 'buffer':
            st = ver.run('@ob_new', [s, Ptr(out, o0)], st)[0].st
        elif kind == 'writer':
            st.ghost['log'], st.ghost['loglen'] = out, o0
            u = Ptr(st.new_region('user_writer', 8), 0)
            st = ver.run('@ow_new', [s, u], st)[0].st
            r = ver.run('@ow_size', [s], st.copy())[0].value
            ver.prove(st, eq(r, 0), 'output: a new stream has counted nothing')
            total0 = BV('counted', 64)
            cs = [k for k, (w, x) in st.mem[s.reg].cells.items() if w == 8 and isint(x) and x == 0]
            if len(cs) == 1:
                ver.poke(st, Ptr(s.reg, cs[0]), 8, total0)
            else:
                total0 = 0
        else:
            total0 = BV('counted', 64)
            s = Ptr(st.new_region('ostream_size', 8), 0)
            ver.poke(st, s, 8, total0)
        for o in ver.run('@%s_%s' % (pre, op), [s] + args, st):
            ut = o.st.ghost.get('userthrow', False)
            if o.kind == 'throw':
                ver.prove(o.st, ut, 'output: writing throws only what the user writer throws')
                continue
            ver.prove(o.st, not ut, 'output: an exception of the user writer is not swallowed')
            if kind != 'size':
                x = o.st.copy()
                x.assume(z3.ULT(J, cap))
                got = ver._load_byte(x, out, J)
                exp = z3.If(z3.ULT(J - o0, bv(cnt, 64)), b if op == 'byte' else z3.Select(MSG, J - o0), z3.Select(old, J))
                ver.prove(x, eq(got, exp, 8), 'output: a write appends its bytes and changes nothing else')
            if kind == 'writer':
                ver.prove(o.st, eq(o.st.ghost['loglen'], add(o0, cnt)), 'output: the user writer gets every byte once')
            if kind == 'buffer':
                # the next byte goes behind it
                y = o.st.copy()
                y.assume(z3.ULT(bv(cnt, 64), cap - o0))
                if ver.feasible(y):
                    for q in ver.run('@ob_byte', [s, 0x5a], y):
                        z = q.st
                        ver.prove(z, eq(ver._load_byte(z, out, add(o0, cnt)), 0x5a, 8), 'output: writes follow each other')
            if total0 is not None:
                r = ver.run('@%s_size' % pre, [s], o.st.copy())[0].value
                ver.prove(o.st, eq(r, add(total0, cnt)), 'output: the bytes written are counted')
    return t


# ------------------------------------------------------------------ spb/pb.hpp
def use_blob(ver):
    @ver.contract(r'V::blob::bytes\(\) const')
    def _(v, st, a, ins):
        return [(st, Ptr(st.ghost['msg'], 0))]

    @ver.contract(r'V::blob::length\(\) const')
    def _(v, st, a, ins):
        return [(st, SZ)]


def api(ver):
    lib.install_all(ver)
    use_writer(ver)
    use_blob(ver)
    st = State()
    st.assume(z3.ULE(SZ, 1 << 40))
    st.ghost['msg'] = st.new_region('message', SZ, const=True, arr=MSG)
    m = Ptr(st.new_region('blob', 8), 0)
    ver.witness = witness_of(message_size=SZ)
    return st, m


def total(d):
    return add(vsz(SZ), SZ) if d else SZ


def out_byte(d, i):
    """byte i of the output"""
    if not d:
        return z3.Select(MSG, i)
    n = bv(vsz(SZ), 64)
    e = z3.Select(MSG, i - n)
    for k in range(6):      # sizes below 2^40 take at most six bytes
        g = z3.LShR(SZ, 7 * k)
        last = z3.ULT(g, 128)
        b = z3.If(last, z3.Extract(7, 0, g), z3.Extract(7, 0, g) | 128)
        e = z3.If(z3.And(i == k, z3.ULT(BVV(k, 64), n)), b, e)
    return e


def t_api_out(kind, d):
    nm = 'delimited' if d else 'api'

    def t(ver):
        st, m = api(ver)
        tot = total(d)
        if kind == 'size':
            for o in ver.run('@a_size', [m, d], st):
                ver.prove(o.st, o.kind == 'return', nm + ': serialize_size returns')
                ver.prove(o.st, eq(o.value, tot), nm + ': predicted size is that of the %smessage' % ('size prefix and the ' if d else ''))
            return
        if kind == 'buffer':
            out = st.new_region('output', tot)
            args = [m, Ptr(out, 0), d]
        elif kind == 'writer':
            out = st.new_region('log', 1 << 46)
            st.ghost['log'], st.ghost['loglen'] = out, 0
            args = [m, Ptr(st.new_region('user_writer', 8), 0), d]
        else:
            box = Ptr(st.new_region('box', 8), 0)
            n0 = BV('old_size', 64)
            st.assume(z3.ULE(n0, 1 << 40))
            st.ghost['boxdata'], st.ghost['boxsize'] = st.new_region('boxdata', n0), n0
            args = [m, box, d]

            @ver.contract(r'V::box::resize\(unsigned long\)')
            def _(v, s, a, ins):
                s.ghost['boxdata'], s.ghost['boxsize'] = s.new_region('boxdata', a[1]), a[1]
                return [(s, None)]

            @ver.contract(r'V::box::(data|begin)\(\)( const)?')
            def _(v, s, a, ins):
                return [(s, Ptr(s.ghost['boxdata'], 0))]

            @ver.contract(r'V::box::end\(\)( const)?')
            def _(v, s, a, ins):
                return [(s, Ptr(s.ghost['boxdata'], s.ghost['boxsize']))]

            @ver.contract(r'V::box::size\(\) const')
            def _(v, s, a, ins):
                return [(s, s.ghost['boxsize'])]
        for o in ver.run('@a_' + kind, args, st):
            ut = o.st.ghost.get('userthrow', False)
            if o.kind == 'throw':
                ver.prove(o.st, ut, nm + ': serialize throws only what the user writer throws')
                continue
            ver.prove(o.st, not ut, nm + ': an exception of the user writer is not swallowed')
            ver.prove(o.st, eq(o.value, tot), nm + ': serialize returns the number of bytes it wrote')
            r = o.st.ghost['boxdata'] if kind == 'box' else out
            if kind == 'box':
                ver.prove(o.st, eq(o.st.ghost['boxsize'], tot), nm + ': the container has exactly the size of the output')
            if kind == 'writer':
                ver.prove(o.st, eq(o.st.ghost['loglen'], tot), nm + ': the user writer gets exactly the output')
            x = o.st.copy()
            x.assume(z3.ULT(J, bv(tot, 64)))
            ver.prove(x, eq(ver._load_byte(x, r, J), out_byte(d, J), 8), nm + ': the bytes written are %sthe message' % ('the size of the message as a varint and ' if d else ''))
    return t


def prefix(pos, lim):
    """the varint at pos ends before lim: (well formed, length, value)"""
    n, val, okc = BVV(0, 64), BVV(0, 64), z3.BoolVal(False)
    for k in range(10, 0, -1):
        c = z3.And(term_at(pos, k), z3.ULE(BVV(k, 64), lim - pos), z3.ULE(pos, lim))
        n = z3.If(c, BVV(k, 64), n)
        val = z3.If(c, raw_varint(pos, k), val)
        okc = z3.Or(okc, c)
    # the size of a message is a 32-bit number
    return z3.And(okc, z3.ULT(val, 1 << 32)), n, val


def t_api_in(kind, d):
    nm = 'delimited' if d else 'api'

    def t(ver):
        lib.install_all(ver)
        st = State()
        st.assume(z3.ULE(END, 1 << 46))
        m = Ptr(st.new_region('message', 8), 0)
        ver.max_unroll = 12
        cls = 'istream_buffer' if kind == 'buffer' else 'istream_reader'
        if kind == 'reader':
            use_reader(ver)
            use_exact(ver, None)
            st.ghost['R0'], st.ghost['done'] = 0, 0
            st.assume(END == AV)

        @ver.contract(r'void spb::pb::detail::deserialize<.*, spb::pb::detail::%s, V::msg>\(spb::pb::detail::%s&, V::msg&.*\)' % (cls, cls))
        def _(v, s, a, ins):
            p = a[0]
            v.prove(s, 'window' not in s.ghost, nm + ': one message is read')
            if kind == 'buffer':
                n = v.run('@b_size', [p], s.copy())[0].value
                q = v.load(s, p, ('ptr',)) if False else v._cell(s, p.reg, p.off, 8)
                v.prove(s, isinstance(q, Ptr) and q.reg is s.ghost['input'], nm + ': the message is read from the input')
                s.ghost['window'] = (q.off if isinstance(q, Ptr) else 0, n)
                t2 = s.copy()
                t2.ghost['nested'] = True
                out = [(v.throw(t2, 'nested'), None)]
                for o in v.run('@b_skip', [p, n], s):
                    if o.kind == 'return':
                        out.append((o.st, None))
                return out
            l0, c0 = counts(v, s, p)
            R = rpos(s)
            s.ghost['window'] = (R, l0)
            t2 = s.copy()
            t2.ghost['nested'] = True
            out = [(v.throw(t2, 'nested'), None)]
            # the message ends with the window or, in a window without end, with the data
            rest = bv(data_left(s), 64)
            x = norm(z3.If(z3.ULE(bv(l0, 64), rest), bv(l0, 64), rest))
            lib.step_lemma(s, s.ghost['done'], AV, x)
            s.ghost['done'] = add(s.ghost['done'], x)
            s.ghost['took'] = x
            set_counts(v, s, p, sub(l0, x), add(c0, x), l0, c0)
            if v.feasible(s):
                out.append((s, None))
            return out

        if kind == 'buffer':
            data = st.new_region('input', END, const=True, arr=IN)
            st.ghost['input'] = data
            args = [m, Ptr(data, 0), END, d]
        else:
            args = [m, Ptr(st.new_region('user_reader', 8), 0), d]
        okp, n, L = prefix(BVV(0, 64), END)
        ver.witness = witness_of(end=END, **{'b%d' % i: in_byte(i) for i in range(12)})
        fit = z3.And(okp, z3.ULE(L, END - n))
        for o in ver.run('@a_read' if kind == 'buffer' else '@a_reader', args, st):
            g = o.st.ghost
            if o.kind == 'throw':
                if g.get('nested') or g.get('userthrow'):
                    continue
                ver.prove(o.st, d and z3.Not(fit), nm + ': an exception only for a bad size prefix or a message that is cut off')
                continue
            ver.prove(o.st, not g.get('nested', False) and not g.get('userthrow', False), nm + ': an exception is not swallowed')
            w = g.get('window')
            ver.prove(o.st, w is not None, nm + ': a message is read')
            if w is None:
                continue
            if d:
                ver.prove(o.st, okp, nm + ': a bad size prefix is an exception')
                ver.prove(o.st, and_(eq(w[0], n), eq(w[1], L)), nm + ': the message is the bytes behind the prefix, as many as the prefix says')
                ver.prove(o.st, fit, nm + ': a message that is cut off is an exception')
                ver.prove(o.st, eq(o.value, add(n, L)), nm + ': deserialize returns the bytes consumed, prefix included')
                if kind == 'reader':
                    ver.prove(o.st, eq(rpos(o.st), add(n, L)), nm + ': the user reader stands behind the message')
            else:
                ver.prove(o.st, and_(eq(w[0], 0), eq(w[1], END if kind == 'buffer' else MAX)), nm + ': the message is the whole input')
                ver.prove(o.st, eq(o.value, END), nm + ': deserialize returns the bytes consumed')
    return t


H = 'pb_stream'
IN_TASKS = [Task(H, 'buffer ' + op, t_buffer(op)) for op in ('new', 'byte', 'eof', 'exact', 'sub', 'skip')]
RD_TASKS = [Task(H, 'reader ' + op, t_reader(op)) for op in ('new', 'byte', 'eof', 'read', 'exact', 'sub', 'skip')]
OUT_TASKS = [Task(H, 'output %s %s' % (k, op), t_ostream(k, op)) for k in ('buffer', 'writer', 'size') for op in ('byte', 'write')]
API_OUT = [Task(H, '%s serialize %s' % ('delimited' if d else 'plain', k), t_api_out(k, d)) for d in (0, 1) for k in ('size', 'buffer', 'box', 'writer')]
API_IN = [Task(H, '%s deserialize %s' % ('delimited' if d else 'plain', k), t_api_in(k, d)) for d in (0, 1) for k in ('buffer', 'reader')]
TASKS = {
    'C04': OUT_TASKS + API_OUT,
    'C05': IN_TASKS + RD_TASKS + API_IN,
    'C07': IN_TASKS + RD_TASKS + OUT_TASKS + API_IN + API_OUT,
    'C08': API_OUT + API_IN + RD_TASKS,
}
