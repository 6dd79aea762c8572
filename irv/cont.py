"""Contracts of the abstract containers and of the abstract message of harness/vtypes.hpp (assumed: they state what the concept
requires of std::vector, std::string, std::optional, std::map and of a generated message)."""
import z3
from .core import *
from .core import DIVERGE
from . import lib
from .lib import emit, seq_size, seq_data, make_seq, seq_ensure, stream_id, tr_key, wr_key, copy_in

I64 = ('i', 64)


def off_bv(p):
    return bv(p.off, 64)


# ---------------------------------------------------------------- array regions of abstract elements
class ElemArr:
    """elements of a container that is only read: contents are functions of the offset"""
    def __init__(self, st, name, stride, count, maxsz=1 << 40):
        self.stride = stride
        self.count = count
        self.reg = st.new_region(name, mul(count, stride) if not isint(count) else count * stride)
        st.assume(ule(count, 1 << 30))
        self.data = st.new_region(name + '_data', fresh(64, 'datasz'))
        self.sz = z3.Function('sz_%d' % self.reg.id, z3.BitVecSort(64), z3.BitVecSort(64))
        self.doff = z3.Function('doff_%d' % self.reg.id, z3.BitVecSort(64), z3.BitVecSort(64))
        self.maxsz = maxsz

    def ptr(self, k):
        return Ptr(self.reg, mul(k, self.stride))

    def size(self, p, st):
        s = self.sz(off_bv(p))
        st.assume(z3.ULE(s, self.maxsz))
        return s

    def dptr(self, p, st):
        o = self.doff(off_bv(p))
        n = self.sz(off_bv(p))
        st.assume(z3.And(z3.ULE(n, self.maxsz), z3.ULE(o, 1 << 45), z3.ULE(o + n, bv(self.data.size, 64)), z3.ULE(bv(self.data.size, 64), 1 << 46)))
        return Ptr(self.data, o)


_arr_of = {}


def register(ea):
    _arr_of[ea.reg] = ea
    return ea


def patch_seq():
    """V::seq objects inside an ElemArr"""
    o_size, o_data, o_ens = lib.seq_size, lib.seq_data, lib.seq_ensure
    if getattr(lib, '_cont', False):
        return
    lib._cont = True

    def sz(st, p):
        return _arr_of[p.reg].size(p, st) if p.reg in _arr_of else o_size(st, p)

    def dt(st, p):
        return o_data(st, p)

    def ens(v, st, p):
        if p.reg not in _arr_of:
            o_ens(v, st, p)
    lib.seq_size, lib.seq_data, lib.seq_ensure = sz, dt, ens


def seq_ptr(v, st, p):
    if p.reg in _arr_of:
        return _arr_of[p.reg].dptr(p, st)
    lib.seq_ensure(v, st, p)
    return Ptr(lib.seq_data(st, p), 0)


def new_rep(ver, st, stride, name='rep', maxsz=1 << 40):
    o = st.new_region(name, 8)
    n = fresh(64, 'count')
    ea = register(ElemArr(st, name + '_el', stride, n, maxsz))
    st.ghost[('rep', o.id)] = ea
    return Ptr(o, 0), ea


def new_sink(ver, st, name='rep', count=None):
    """a container that is being filled"""
    o = st.new_region(name, 8)
    p = Ptr(o, 0)
    if count is None:
        count = fresh(64, 'count0')
        st.assume(z3.ULE(count, 1 << 30))
    st.ghost[('cnt', o.id)] = count
    st.ghost[('el', o.id)] = ()
    return p


def sink_events(st, p):
    return st.ghost[('el', p.reg.id)]


def sink_count(st, p):
    return st.ghost[('cnt', p.reg.id)]


def rep_count(st, p):
    k = ('rep', p.reg.id)
    if k in st.ghost:
        return st.ghost[k].count
    return st.ghost[('cnt', p.reg.id)]


def push(v, st, p, stride, nm='elem'):
    r = st.new_region(nm, stride)
    v.nelem = getattr(v, 'nelem', 0)
    k = p.reg.id
    st.ghost[('el', k)] = st.ghost[('el', k)] + (('elem', Ptr(r, 0)),)
    st.ghost[('cnt', k)] = add(st.ghost[('cnt', k)], 1)
    return Ptr(r, 0)


SIZES = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
         'unsigned long': 8, 'float': 4, 'double': 8}


def elem_size(d):
    m = re.match(r'V::(?:rep|frep|opt)<(.*?)(?:, \d+u?l?)?>::', d)
    t = m.group(1)
    return SIZES.get(t, 4 if t.startswith('E_') else 8)


def install_cont(ver):
    patch_seq()
    C = ver.contract
    R = r'V::(rep|map)<.*>::'

    # ---- seq: object life cycle
    T = r'V::seq<(?:char|std::byte), [01]>::'

    @C(T + r'seq\(\)')
    def _(v, st, a, ins):
        if getattr(v, 'fixed_size', None) is not None and ', 1>' in v.demangled(ins.a[0][1]):
            make_seq(v, st, a[0], v.fixed_size)
        else:
            make_seq(v, st, a[0], 0)
        return [(st, None)]

    @C(T + r'~seq\(\)')
    def _(v, st, a, ins):
        return [(st, None)]

    def cp(v, st, a):
        d, s = a
        seq_ensure(v, st, s)
        st.ghost[('seqdata',) + stream_id(d)] = lib.seq_data(st, s)
        st.ghost[('seqsize',) + stream_id(d)] = lib.seq_size(st, s)

    @C(T + r'seq\(V::seq<.*> ?(const&|&&)\)')
    def _(v, st, a, ins):
        cp(v, st, a)
        return [(st, None)]

    @C(T + r'operator=\(V::seq<.*> ?(const&|&&)\)')
    def _(v, st, a, ins):
        cp(v, st, a)
        return [(st, a[0])]

    for nm in ('data', 'begin'):
        @C(T + nm + r'\(\)( const)?')
        def _(v, st, a, ins):
            return [(st, seq_ptr(v, st, a[0]))]

    @C(T + r'end\(\)( const)?')
    def _(v, st, a, ins):
        p = seq_ptr(v, st, a[0])
        return [(st, Ptr(p.reg, add(p.off, lib.seq_size(st, a[0]))))]

    @C(T + r'size\(\) const')
    def _(v, st, a, ins):
        lib.seq_ensure(v, st, a[0])
        return [(st, lib.seq_size(st, a[0]))]

    @C(T + r'empty\(\) const')
    def _(v, st, a, ins):
        lib.seq_ensure(v, st, a[0])
        return [(st, frombool(eq(lib.seq_size(st, a[0]), 0)))]

    # ---- messages
    @C(r'V::msg::msg\(\)')
    def _(v, st, a, ins):
        st.ghost[('msg',) + stream_id(a[0])] = ('default',)
        return [(st, None)]

    @C(r'V::msg::~msg\(\)')
    def _(v, st, a, ins):
        return [(st, None)]

    def mcp(st, a):
        st.ghost[('msg',) + stream_id(a[0])] = st.ghost.get(('msg',) + stream_id(a[1]), ('obj', a[1]))

    @C(r'V::msg::msg\(V::msg ?(const&|&&)\)')
    def _(v, st, a, ins):
        mcp(st, a)
        return [(st, None)]

    @C(r'V::msg::operator=\(V::msg ?(const&|&&)\)')
    def _(v, st, a, ins):
        mcp(st, a)
        return [(st, a[0])]

    @C(r'void V::serialize_value<.*>\(.*, V::msg const&\)')
    def _(v, st, a, ins):
        s, m = a
        n = msg_size(m)
        d = v.demangled(ins.a[0][1])
        if 'V::os<' in d:
            emit(st, s, ('msg', m, n), n)
            if 'V::os<false>' in d and getattr(v, 'msg_may_throw', False):
                bad = st.copy()
                return [(st, None), (v.throw(bad, 'nested'), None)]
            return [(st, None)]
        if 'ostream_size' in d:
            v.store(st, s, I64, add(v.load(st, s, I64), n))
            return [(st, None)]
        return NotImplemented

    # ---- repeated and map: reading
    @C(R + r'(begin|end)\(\) const')
    def _(v, st, a, ins):
        p = a[0]
        e = '::end()' in v.demangled(ins.a[0][1])
        if not e and v.psum:
            st.assume(eq(v.psum(st, 0), 0))
        return [(st, Agg([p, rep_count(st, p) if e else 0]))]

    def cur_idx(v, st, p):
        return v._cell(st, p.reg, add(p.off, 8), 8)

    def cur_own(v, st, p):
        return v._cell(st, p.reg, p.off, 8)

    @C(R + r'it::operator(!=|==)\(.*\) const')
    def _(v, st, a, ins):
        d = v.demangled(ins.a[0][1])
        e = eq(cur_idx(v, st, a[0]), cur_idx(v, st, a[1]))
        if '!=' in d:
            e = not_(e)
        return [(st, frombool(normb(e) if not isinstance(e, bool) else e))]

    @C(R + r'it::operator\+\+\(\)')
    def _(v, st, a, ins):
        i = cur_idx(v, st, a[0])
        if v.psum:
            ea = st.ghost[('rep', cur_own(v, st, a[0]).reg.id)]
            st.assume(eq(v.psum(st, add(i, 1)), add(v.psum(st, i), v.elen(st, ea, i))))
        v.poke(st, Ptr(a[0].reg, add(a[0].off, 8)), 8, add(i, 1))
        return [(st, a[0])]

    @C(R + r'it::operator\*\(\) const')
    def _(v, st, a, ins):
        i = cur_idx(v, st, a[0])
        ea = st.ghost[('rep', cur_own(v, st, a[0]).reg.id)]
        v.prove(st, ult(i, ea.count), 'memory: no access behind the last element')
        st.assume(ult(i, ea.count))
        return [(st, ea.ptr(i))]

    @C(R + r'empty\(\) const')
    def _(v, st, a, ins):
        return [(st, frombool(eq(rep_count(st, a[0]), 0)))]

    @C(R + r'size\(\) const')
    def _(v, st, a, ins):
        return [(st, rep_count(st, a[0]))]

    @C(r'V::rep<.*>::operator\[\]\(unsigned long\)( const)?')
    def _(v, st, a, ins):
        p, i = a
        ea = st.ghost.get(('rep', p.reg.id))
        if ea is None:
            return NotImplemented
        v.prove(st, ult(i, ea.count), 'memory: no access behind the last element')
        st.assume(ult(i, ea.count))
        return [(st, ea.ptr(i))]

    # ---- repeated: filling
    @C(R + r'clear\(\)')
    def _(v, st, a, ins):
        k = a[0].reg.id
        st.ghost[('cnt', k)] = 0
        st.ghost[('el', k)] = (('clear',),)
        return [(st, None)]

    @C(r'V::rep<.*>::emplace_back\(\)')
    def _(v, st, a, ins):
        d = v.demangled(ins.a[0][1])
        p = push(v, st, a[0], elem_size(d))
        if d.startswith('V::rep<V::seq'):
            make_seq(v, st, p, v.fixed_size if ', 1>' in d and getattr(v, 'fixed_size', None) is not None else 0)
        elif d.startswith('V::rep<V::msg'):
            st.ghost[('msg',) + stream_id(p)] = ('default',)
        else:
            n = elem_size(d)
            st.mem[p.reg].cells[0] = (n, 0)
        return [(st, p)]

    @C(r'V::rep<.*>::(emplace_back|push_back)\((bool|int|unsigned int|long|unsigned long)\).*')
    def _(v, st, a, ins):
        d = v.demangled(ins.a[0][1])
        n = elem_size(d)
        p = push(v, st, a[0], n)
        v.store(st, p, ('i', 8 * n), bv(tobool(a[1]), 8) if n == 1 and 'bool' in d and not isint(a[1]) and isinstance(a[1], z3.BoolRef) else a[1])
        return [(st, None)]

    # ---- fixed-size repeated
    @C(r'V::frep<.*>::operator\[\]\(unsigned long\)( const)?')
    def _(v, st, a, ins):
        p, i = a
        d = v.demangled(ins.a[0][1])
        n = int(re.match(r'V::frep<.*, (\d+)u?l?>::', d).group(1))
        v.prove(st, ult(i, n), 'memory: no access behind the last element')
        st.assume(ult(i, n))
        return [(st, Ptr(st.ghost[('frep', p.reg.id)].reg if ('frep', p.reg.id) in st.ghost else frep_reg(st, p, n, elem_size(d)), mul(i, elem_size(d))))]

    # ---- optional
    @C(r'V::opt<.*>::has_value\(\) const')
    def _(v, st, a, ins):
        return [(st, frombool(st.ghost[('has', a[0].reg.id)]))]

    @C(r'V::opt<.*>::operator\*\(\)( const)?')
    def _(v, st, a, ins):
        v.prove(st, st.ghost[('has', a[0].reg.id)], 'memory: no access to an empty optional')
        return [(st, st.ghost[('optval', a[0].reg.id)])]

    @C(r'V::opt<.*>::reset\(\)')
    def _(v, st, a, ins):
        st.ghost[('has', a[0].reg.id)] = False
        return [(st, None)]

    @C(r'V::opt<.*>::emplace\(.*&&\)')
    def _(v, st, a, ins):
        d = v.demangled(ins.a[0][1])
        o, src = a
        n = elem_size(d)
        r = st.new_region('optval', n)
        q = Ptr(r, 0)
        if d.startswith('V::opt<V::seq'):
            cp(v, st, [q, src])
        elif d.startswith('V::opt<V::msg'):
            mcp(st, [q, src])
        else:
            v.memcpy(st, q, src, n)
        st.ghost[('has', o.reg.id)] = True
        st.ghost[('optval', o.reg.id)] = q
        return [(st, q)]

    # ---- map: filling
    @C(r'V::map<.*>::operator\[\]\(.*\)')
    def _(v, st, a, ins):
        d = v.demangled(ins.a[0][1])
        o, k = a
        r = st.new_region('mapval', 8)
        q = Ptr(r, 0)
        if re.search(r', V::seq<[^<>]*>>::', d):
            make_seq(v, st, q, 0)
        kid = o.reg.id
        st.ghost[('el', kid)] = st.ghost[('el', kid)] + (('put', key_value(v, st, d, k), q),)
        return [(st, q)]

    @C(r'V::map<.*>::(insert|emplace|insert_or_assign|try_emplace)\(.*\)')
    def _(v, st, a, ins):
        kid = a[0].reg.id
        st.ghost[('el', kid)] = st.ghost[('el', kid)] + (('insert', a[1:]),)
        return [(st, None)]


def key_value(v, st, d, k):
    if d.startswith('V::map<V::seq'):
        lib.seq_ensure(v, st, k)
        return ('seq', lib.seq_data(st, k), lib.seq_size(st, k))
    m = re.match(r'V::map<([^<>,]*),', d)
    n = SIZES.get(m.group(1), 8)
    return ('int', v._cell(st, k.reg, k.off, n))


def frep_reg(st, p, n, sz):
    ea = ElemArr.__new__(ElemArr)
    ea.stride, ea.count = sz, n
    ea.reg = st.new_region('frep_el', n * sz)
    st.ghost[('frep', p.reg.id)] = ea
    return ea.reg


def msg_size(p):
    f = z3.Function('msz_%d' % p.reg.id, z3.BitVecSort(64), z3.BitVecSort(64))
    return f(off_bv(p))
