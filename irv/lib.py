"""Contracts of the C/C++ runtime (assumed) and of the abstract instantiation types of harness/vtypes.hpp."""
import z3
from .core import *
from .core import DIVERGE, _fresh

W8 = z3.BitVecSort(8)
W64 = z3.BitVecSort(64)


# ---------------------------------------------------------------- runtime
def install_runtime(ver):
    C = ver.contract
    UF[0] = False
    from . import ir

    @C('@__cxa_allocate_exception')
    def _(v, st, a, ins):
        r = st.new_region('exc', a[0] if isint(a[0]) else 64)
        return [(st, Ptr(r, 0))]

    @C('@__cxa_free_exception')
    def _(v, st, a, ins):
        return [(st, None)]

    @C('@__cxa_throw')
    def _(v, st, a, ins):
        ti = a[1].reg.name if isinstance(a[1], Ptr) and a[1].reg is not None else '?'
        return [(v.throw(st, ti, reg=a[0].reg), None)]

    @C('@__cxa_rethrow')
    def _(v, st, a, ins):
        st.mode = 'unwind'
        return [(st, None)]

    @C('@__cxa_begin_catch')
    def _(v, st, a, ins):
        return [(st, a[0])]

    @C('@__cxa_end_catch')
    def _(v, st, a, ins):
        return [(st, None)]

    for nm in ('@__clang_call_terminate', '@_ZSt9terminatev', '@abort'):
        @C(nm)
        def _(v, st, a, ins):
            v.prove(st, False, 'control: no exception reaches a noexcept boundary (std::terminate)')
            return [(st, DIVERGE)]

    @C('@__assert_fail')
    def _(v, st, a, ins):
        v.prove(st, False, 'control: assertion in the code holds', info=st.frames[-1].fn.name)
        return [(st, DIVERGE)]

    @C(r'std::(runtime_error|invalid_argument|logic_error|out_of_range|length_error|exception|bad_alloc|system_error|domain_error)::.*')
    def _(v, st, a, ins):
        return [(st, None)]

    for nm in ('_ZSt20__throw_length_errorPKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc',
               '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt20__throw_out_of_rangePKc',
               '_ZSt25__throw_bad_function_callv'):
        @C('@' + nm)
        def _(v, st, a, ins, nm=nm):
            return [(v.throw(st, nm), None)]

    @C('@_Znwm')
    def _(v, st, a, ins):
        return [(st, Ptr(st.new_region('heap', a[0]), 0))]

    @C('@_ZdlPvm')
    def _(v, st, a, ins):
        return [(st, None)]

    @C('@_ZdlPv')
    def _(v, st, a, ins):
        return [(st, None)]

    @C('@strlen')
    def _(v, st, a, ins):
        p = a[0]
        if p.reg is None or not isint(p.off):
            raise Unsupported('strlen')
        i = 0
        while True:
            b = v._load_byte(st, p.reg, p.off + i)
            if not isint(b):
                raise Unsupported('strlen of symbolic string')
            if b == 0:
                return [(st, i)]
            i += 1

    @C('@memcmp')
    def _(v, st, a, ins):
        return mem_cmp(v, st, a[0], a[1], a[2])

    @C('@bcmp')
    def _(v, st, a, ins):
        return mem_cmp(v, st, a[0], a[1], a[2])

    @C('@memchr')
    def _(v, st, a, ins):
        p, c, n = a
        if isint(n) and n == 0:
            return [(st, NULL)]
        if not v.check_access(st, p, n, 'memchr'):
            return [(st, NULL)]
        # result: null (c not in range) or the first occurrence
        c8 = bv(c & 255, 8) if isint(c) else z3.Extract(7, 0, c)
        v.flush(st, p.reg)
        arr = v._arr(st, p.reg) if p.reg.table is None or not p.reg.const else None
        rd = (lambda i: bv(table_ite(p.reg.table, add(p.off, i)), 8)) if arr is None else (lambda i: z3.Select(arr, bv(add(p.off, i), 64)))
        out = []
        if isint(n) and n <= 16:
            prev = []
            for i in range(n):
                s = st.copy()
                for q in prev:
                    s.assume(q)
                e = normb(rd(i) == c8)
                if v.feasible(s, e):
                    s.assume(e)
                    out.append((s, Ptr(p.reg, add(p.off, i))))
                prev.append(not_(e))
            for q in prev:
                st.assume(q)
            if v.feasible(st):
                out.append((st, NULL))
            return out
        k = fresh(64, 'mc')
        q = z3.BitVec(fresh_name('q'), 64)
        s2 = st.copy()
        s2.assume(z3.ULT(k, bv(n, 64)))
        s2.assume(rd(k) == c8)
        s2.q.append(z3.ForAll([q], z3.Implies(z3.ULT(q, k), rd(q) != c8)))
        st.q.append(z3.ForAll([q], z3.Implies(z3.ULT(q, bv(n, 64)), rd(q) != c8)))
        for s, r in ((s2, Ptr(p.reg, add(p.off, k))), (st, NULL)):
            if v.feasible(s):
                out.append((s, r))
        return out

    @C('@isspace')
    def _(v, st, a, ins):
        x = bv(a[0], 32)
        r = z3.Or(x == 32, z3.And(z3.UGE(x, 9), z3.ULE(x, 13)))
        return [(st, norm(z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))]

    @C('@isdigit')
    def _(v, st, a, ins):
        x = bv(a[0], 32)
        r = z3.And(z3.UGE(x, 48), z3.ULE(x, 57))
        return [(st, norm(z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))]

    @C('@isalnum')
    def _(v, st, a, ins):
        x = bv(a[0], 32)
        r = z3.Or(z3.And(z3.UGE(x, 48), z3.ULE(x, 57)), z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), z3.And(z3.UGE(x, 97), z3.ULE(x, 122)))
        return [(st, norm(z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))]


def mem_cmp(v, st, p, q, n):
    if isint(n) and n == 0:
        return [(st, 0)]
    if not v.check_access(st, p, n, 'memcmp') or not v.check_access(st, q, n, 'memcmp'):
        return [(st, fresh(32, 'memcmp'))]
    if isint(n) and n <= 64:
        a = v.load_bytes(st, p, n)
        b = v.load_bytes(st, q, n)
        e = and_(*[eq(x, y, 8) for x, y in zip(a, b)])
        r = fresh(32, 'memcmp')
        if e is True:
            return [(st, 0)]
        st.assume(zbool(e) == (r == 0))
        # sign by the first difference
        lt = z3.BoolVal(False)
        for x, y in reversed(list(zip(a, b))):
            lt = z3.If(bv(x, 8) == bv(y, 8), lt, z3.ULT(bv(x, 8), bv(y, 8)))
        st.assume((r < 0) == lt)
        return [(st, r)]
    # one side constant and short?  case split on n
    r = fresh(32, 'memcmp')
    q1 = z3.BitVec(fresh_name('q'), 64)
    return [(st, r)]


# ---------------------------------------------------------------- output streams
def stream_id(p):
    return (p.reg.id, p.off if isint(p.off) else str(p.off))


def tr_key(p):
    return ('tr',) + stream_id(p)


def wr_key(p):
    return ('wr',) + stream_id(p)


def new_ostream(ver, st, cls='osw'):
    r = st.new_region('ostream_' + cls, 16)
    p = Ptr(r, 0)
    st.ghost[tr_key(p)] = ()
    st.ghost[wr_key(p)] = 0
    return p


def trace(st, p):
    return st.ghost[tr_key(p)]


def written(st, p):
    return st.ghost[wr_key(p)]


def emit(st, p, ev, n):
    st.ghost[tr_key(p)] = st.ghost[tr_key(p)] + (ev,)
    st.ghost[wr_key(p)] = add(st.ghost[wr_key(p)], n)


def install_ostream(ver):
    C = ver.contract

    @C(r'V::os<(true|false)>::write\(unsigned char\)')
    def _(v, st, a, ins):
        emit(st, a[0], ('b', a[1]), 1)
        return [(st, None)]

    @C(r'V::os<(true|false)>::write\(void const\*, unsigned long\)')
    def _(v, st, a, ins):
        s, p, n = a
        so = 'os<true>' in v.demangled(ins.a[0][1])
        if not so and not (isint(n) and n == 0):
            if not v.check_access(st, p, n, 'stream.write'):
                return [(st, DIVERGE)]
        if isint(n) and n <= 32:
            if so and (p.reg is None):
                bs = [0] * n
            else:
                bs = v.load_bytes(st, p, n)
            for b in bs:
                emit(st, s, ('b', b), 1)
        else:
            emit(st, s, ('m', p, n), n)
        return [(st, None)]


# ---------------------------------------------------------------- pb input streams
IN = z3.Array('IN', W64, W8)
END = z3.BitVec('END', 64)     # the underlying data ends here


def in_byte(i):
    return z3.Select(IN, bv(i, 64))


def new_istream(ver, st, pos=0, lim=None):
    """V::is {pos, lim}; lim symbolic when None"""
    r = st.new_region('istream', 16)
    if lim is None:
        lim = fresh(64, 'lim')
        st.assume(z3.ULE(bv(pos, 64), lim))
    st.mem[r].cells[0] = (8, pos)
    st.mem[r].cells[8] = (8, lim)
    st.ghost['upos'] = pos
    st.assume(z3.ULE(END, 1 << 46))
    return Ptr(r, 0)


def is_pos(ver, st, p):
    return ver._cell(st, p.reg, p.off, 8)


def is_lim(ver, st, p):
    return ver._cell(st, p.reg, p.off + 8, 8)


def is_set_pos(ver, st, p, v):
    ver.poke(st, p, 8, v)


def step_lemma(st, pos, lim, n):
    """tautology the solvers are slow to find: a step of at most the rest stays inside"""
    pos, lim, n = bv(pos, 64), bv(lim, 64), bv(n, 64)
    np = pos + n
    st.assume(z3.Implies(z3.And(z3.ULE(pos, lim), z3.ULE(n, lim - pos)), z3.And(z3.ULE(pos, np), z3.ULE(np, lim))))


def install_istream(ver, strict=True):
    C = ver.contract

    @C(r'V::is::size\(\) const')
    def _(v, st, a, ins):
        return [(st, sub(is_lim(v, st, a[0]), is_pos(v, st, a[0])))]

    @C(r'V::is::empty\(\) const')
    def _(v, st, a, ins):
        return [(st, frombool(eq(is_lim(v, st, a[0]), is_pos(v, st, a[0]))))]

    @C(r'V::is::consumed_size\(\) const')
    def _(v, st, a, ins):
        return [(st, fresh(64, 'consumed'))]

    def at(v, st, p):
        pos = is_pos(v, st, p)
        if strict:
            v.prove(st, eq(pos, st.ghost['upos']), 'framing: a stream is read only at its own position')
        return pos

    def avail(v, st, p, n):
        """enough data for n bytes"""
        pos, lim = is_pos(v, st, p), is_lim(v, st, p)
        return and_(ule(n, sub(lim, pos)), ule(n, sub(END, pos)), ule(pos, END))

    def adv(v, st, p, n):
        pos, lim = is_pos(v, st, p), is_lim(v, st, p)
        step_lemma(st, pos, lim, n)
        step_lemma(st, pos, END, n)
        np = add(pos, n)
        is_set_pos(v, st, p, np)
        st.ghost['upos'] = np

    @C(r'V::is::read_byte_or_throw\(\)')
    def _(v, st, a, ins):
        p = a[0]
        pos = at(v, st, p)
        ok, bad = v.fork(st, avail(v, st, p, 1))
        out = []
        if ok is not None:
            adv(v, ok, p, 1)
            out.append((ok, norm(in_byte(pos))))
        if bad is not None:
            out.append((v.throw(bad, 'eof'), None))
        return out

    @C(r'V::is::read_byte_or_eof\(\)')
    def _(v, st, a, ins):
        p = a[0]
        pos = at(v, st, p)
        ok, bad = v.fork(st, avail(v, st, p, 1))
        out = []
        if ok is not None:
            adv(v, ok, p, 1)
            out.append((ok, norm(z3.ZeroExt(24, in_byte(pos)))))
        if bad is not None:
            out.append((bad, 0xffffffff))
        return out

    @C(r'V::is::read_exact_or_throw\(void\*, unsigned long\)')
    def _(v, st, a, ins):
        p, d, n = a
        pos = at(v, st, p)
        if isint(n) and n == 0:
            return [(st, None)]
        ok, bad = v.fork(st, or_(eq(n, 0), avail(v, st, p, n)))
        out = []
        if ok is not None:
            okk = v.check_access(ok, d, n, 'read_exact destination', True) if not (d.reg is None and v._quick(ok.pc, zbool(eq(n, 0)))) else False
            if okk:
                copy_in(v, ok, d, pos, n)
            adv(v, ok, p, n)
            out.append((ok, None))
        if bad is not None:
            out.append((v.throw(bad, 'eof'), None))
        return out

    @C(r'V::is::sub_stream\(unsigned long\)')
    def _(v, st, a, ins):
        p, n = a
        pos, lim = is_pos(v, st, p), is_lim(v, st, p)
        if strict:
            v.prove(st, eq(pos, st.ghost['upos']), 'framing: a sub-stream starts at the position of its parent')
        ok, bad = v.fork(st, ule(n, sub(lim, pos)))
        out = []
        if ok is not None:
            np = add(pos, n)
            step_lemma(ok, pos, lim, n)
            is_set_pos(v, ok, p, np)
            out.append((ok, Agg([pos, np])))
        if bad is not None:
            out.append((v.throw(bad, 'eof'), None))
        return out

    @C(r'V::is::skip_or_throw\(unsigned long\)')
    def _(v, st, a, ins):
        p, n = a
        at(v, st, p)
        ok, bad = v.fork(st, or_(eq(n, 0), avail(v, st, p, n)))
        out = []
        if ok is not None:
            adv(v, ok, p, n)
            out.append((ok, None))
        if bad is not None:
            out.append((v.throw(bad, 'eof'), None))
        return out


def src_of(st, reg):
    """position in the input of which this buffer is an exact copy"""
    k = ('src', reg.id)
    m = st.mem.get(reg)
    if k in st.ghost and m is not None and not m.cells and (m.arr is None or (z3.is_const(m.arr) and m.arr.decl().name().startswith('init_'))):
        return st.ghost[k]
    return None


def copy_in(v, st, d, pos, n, src=None):
    if src is None and d.reg.name == 'seqdata' and isint(d.off) and d.off == 0:
        m = st.mem[d.reg]
        same = eq(n, d.reg.size)
        if not m.cells and m.arr is None and (same is True or (same is not False and v._quick(st.pc, zbool(same)))):
            st.ghost[('src', d.reg.id)] = pos
            return
    src = IN if src is None else src
    if isint(n) and n <= 16 and isint(d.off):
        for i in range(n):
            v.poke(st, Ptr(d.reg, d.off + i), 1, norm(z3.Select(src, bv(add(pos, i), 64))))
        return
    v.flush(st, d.reg)
    old = v._arr(st, d.reg)
    i = z3.BitVec(fresh_name('i'), 64)
    st.mem[d.reg].arr = z3.Lambda([i], z3.If(z3.ULT(i - bv(d.off, 64), bv(n, 64)),
                                            z3.Select(src, i - bv(d.off, 64) + bv(pos, 64)), z3.Select(old, i)))


# ---------------------------------------------------------------- sequences
def seq_key(p):
    return ('seq',) + stream_id(p)


class Seq:
    """ghost contents of a V::seq object (immutable)"""
    def __init__(self, data, size, app=()):
        self.data = data      # Region or None
        self.size = size
        self.app = app        # appended pieces

    def __eq__(self, o):
        return self is o


def new_seq(ver, st, cls, size=None, max_size=1 << 46, fixed=False):
    """object of a V::seq type with arbitrary contents"""
    r = st.new_region('seq_' + cls, 8)
    p = Ptr(r, 0)
    make_seq(ver, st, p, size, max_size)
    return p


def make_seq(ver, st, p, size=None, max_size=1 << 46):
    if size is None:
        size = fresh(64, 'size')
        st.assume(z3.ULE(size, max_size))
    d = st.new_region('seqdata', size)
    st.ghost[('seqdata',) + stream_id(p)] = d
    st.ghost[('seqsize',) + stream_id(p)] = size
    return d


def seq_size(st, p):
    return st.ghost[('seqsize',) + stream_id(p)]


def seq_data(st, p):
    return st.ghost[('seqdata',) + stream_id(p)]


def seq_ensure(v, st, p):
    if ('seqdata',) + stream_id(p) not in st.ghost:
        make_seq(v, st, p)


def install_seq(ver):
    C = ver.contract
    T = r'V::seq<(?:char|std::byte), [01]>::'

    @C(T + r'(data|begin)\(\)( const)?')
    def _(v, st, a, ins):
        seq_ensure(v, st, a[0])
        return [(st, Ptr(seq_data(st, a[0]), 0))]

    @C(T + r'end\(\)( const)?')
    def _(v, st, a, ins):
        seq_ensure(v, st, a[0])
        return [(st, Ptr(seq_data(st, a[0]), seq_size(st, a[0])))]

    @C(T + r'size\(\) const')
    def _(v, st, a, ins):
        seq_ensure(v, st, a[0])
        return [(st, seq_size(st, a[0]))]

    @C(T + r'empty\(\) const')
    def _(v, st, a, ins):
        seq_ensure(v, st, a[0])
        return [(st, frombool(eq(seq_size(st, a[0]), 0)))]

    @C(T + r'clear\(\).*')
    def _(v, st, a, ins):
        make_seq(v, st, a[0], 0)
        if ('app',) + stream_id(a[0]) in st.ghost:
            st.ghost[('app',) + stream_id(a[0])] = ()
        return [(st, None)]

    @C(T + r'resize\(unsigned long\).*')
    def _(v, st, a, ins):
        p, n = a
        seq_ensure(v, st, p)
        old, osz = seq_data(st, p), seq_size(st, p)
        st.ghost['alloc'] = ite(ult(st.ghost.get('alloc', 0), n), n, st.ghost.get('alloc', 0), 64) if 'alloc' in st.ghost else 0
        # contents up to min(old, new) survive; represented by a fresh object copying the old bytes
        d = st.new_region('seqdata', n)
        if old in st.mem and (st.mem[old].cells or st.mem[old].arr is not None):
            v.flush(st, old)
            oa = v._arr(st, old)
            i = z3.BitVec(fresh_name('i'), 64)
            st.mem[d].arr = z3.Lambda([i], z3.If(z3.ULT(i, bv(osz, 64)), z3.Select(oa, i), z3.BitVecVal(0, 8)))
        st.ghost[('seqdata',) + stream_id(p)] = d
        st.ghost[('seqsize',) + stream_id(p)] = n
        return [(st, None)]

    @C(T + r'append\(char const\*, unsigned long\).*')
    def _(v, st, a, ins):
        p, q, n = a
        seq_ensure(v, st, p)
        if not (isint(n) and n == 0) and not v.check_access(st, q, n, 'append'):
            return [(st, DIVERGE)]
        k = ('app',) + stream_id(p)
        if isint(n) and n <= 16:
            ev = ('bytes', tuple(v.load_bytes(st, q, n)))
        else:
            v.flush(st, q.reg)
            ev = ('mem', q, n, v._arr(st, q.reg) if q.reg.table is None else None)
        st.ghost[k] = st.ghost.get(k, ()) + (ev,)
        st.ghost[('seqsize',) + stream_id(p)] = add(seq_size(st, p), n)
        return [(st, None)]


def install_all(ver):
    install_runtime(ver)
    install_ostream(ver)
    install_istream(ver)
    install_seq(ver)


# ---------------------------------------------------------------- specification helpers
VSZ = z3.Function('vsz', W64, W64)
UF = [False]        # container proofs use vsz as an uninterpreted function; the definition is instantiated when needed


def vsz(v):
    return VSZ(v) if UF[0] and not isint(v) else vsz_def(v)


def def_axioms(cs):
    """definition of every vsz application in the formulas"""
    seen, apps, stack = set(), {}, list(cs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e):
            if e.decl().eq(VSZ):
                apps[i] = e
            stack.extend(e.children())
    return [a == bv(vsz_def(norm(a.arg(0))), 64) for a in apps.values()]


def vsz_def(v):
    """length of the canonical varint of the 64-bit value v"""
    if isint(v):
        n = 1
        while v >= 0x80:
            v >>= 7
            n += 1
        return n
    e = z3.BitVecVal(10, 64)
    for n in range(9, 0, -1):
        e = z3.If(z3.ULT(v, z3.BitVecVal(1 << (7 * n), 64)), z3.BitVecVal(n, 64), e)
    return e


def varint_bytes(v, n):
    """the n bytes of the canonical encoding of v (valid when vsz(v) == n)"""
    v = bv(v, 64)
    out = []
    for i in range(n):
        b = z3.Extract(6, 0, z3.LShR(v, 7 * i))
        out.append(norm(z3.Concat(z3.BitVecVal(1 if i < n - 1 else 0, 1), b)))
    return out


def zigzag(v):
    v = bv(v, 64)
    return norm(z3.If(v >= 0, 2 * v, -2 * v - 1))


def unzigzag(u):
    return norm(z3.If(z3.Extract(0, 0, u) == 0, z3.LShR(u, 1), -z3.LShR(u, 1) - 1))
