"""C04, C10, C11, C12 (protobuf writing): container serializers of spb/pb."""
from .common import *
from . import pb_scalar as S
from irv import cont
from irv.run import Task
import re as _re

HARNESS = {'pb_ser': ('/verif/harness/pb_ser.cpp', [])}
NAMES = _re.findall(r'^F\((\w+),', open('/verif/harness/pb_fields.inc').read(), _re.M)


class Ty:
    def __init__(self, s):
        self.s = s
        p = s.split('_')
        self.kind = 'num' if p[0] in ('varint', 'svarint', 'i32', 'i64', 'enum') else p[0]
        self.fixed = self.kind in ('fstr', 'fbyt')
        if self.kind == 'num':
            self.enc, self.t = p[0], p[1]
            self.size = S.width(self.t) // 8
        else:
            self.size = 8


class Field:
    """a field type by its name in pb_fields.inc"""
    def __init__(self, name):
        self.name = name
        mx = name.endswith('_max')
        b = name[:-4] if mx else name
        lab, _, rest = b.partition('_')
        if lab in ('opt', 'ptr', 'rep', 'pak', 'fix'):
            self.label = lab
            self.ty = Ty(rest)
        elif lab == 'map':
            self.label = 'map'
            k, m = rest.split('__')
            self.key, self.val = Ty(k), Ty(m)
            al = self.val.size
            self.off2 = (self.key.size + al - 1) // al * al
            n = self.off2 + self.val.size
            al = max(self.key.size, al)
            self.stride = (n + al - 1) // al * al
        else:
            self.label = 'req'
            self.ty = Ty(b)
        self.max_count = 3 if mx and self.label in ('rep', 'pak') else 0
        self.max_size = 10 if mx and (self.label == 'map' or self.ty.kind in ('str', 'byt')) else 0


def tag(f, wt):
    return f * 8 + wt if isint(f) else norm(z3.ZeroExt(32, (f << 3) | wt))


def number_at(ver, st, ty, p):
    v = ver.load(st, p, ('i', 8 * ty.size), chk=False)
    if ty.t == 'bool':
        st.assume(or_(eq(v, 0, 8), eq(v, 1, 8)))
    if ty.enc == 'enum':
        x = bv(v, 32)
    return v


def present(ver, st, ty, f, p, max_size=0, with_tag=True):
    """(events, condition under which writing is refused) of a value that is written even when empty"""
    if ty.kind == 'num':
        v = number_at(ver, st, ty, p)
        ev = S.enc_events(ty.enc, ty.t, bv(v, 8 * ty.size))
        return ((('v', tag(f, S.WT[ty.enc])),) if with_tag else ()) + ev, False
    if ty.kind == 'msg':
        n = cont.msg_size(p)
        return (('v', tag(f, 2)), ('v', n), ('msg', p, n)), False
    from irv import lib as L
    L.seq_ensure(ver, st, p)
    n = L.seq_size(st, p)
    d = cont.seq_ptr(ver, st, p)
    bad = [ult(max_size, n)] if max_size else []
    if ty.kind in ('str', 'fstr'):
        bad.append(not_(utf8_valid(ver, st, d, n)))
    return (('v', tag(f, 2)), ('v', n), ('m', d, n)), or_(*bad)


def entry(ver, st, F, f, p):
    """map entry at p"""
    k, b1 = present(ver, st, F.key, 1, p)
    m, b2 = present(ver, st, F.val, 2, Ptr(p.reg, add(p.off, F.off2)))
    return (('v', tag(f, 2)), ('v', add(tlen3(k), tlen3(m)))) + k + m, or_(b1, b2)


def tlen3(tr):
    n = 0
    for e in tr:
        n = add(n, 1 if e[0] == 'b' else vsz(e[1]) if e[0] == 'v' else e[2])
    return n


def setup(ver, st, F):
    """object of the field's type with arbitrary contents: [(state, pointer, element array)]"""
    if F.label in ('rep', 'pak', 'map'):
        o, ea = cont.new_rep(ver, st, F.stride if F.label == 'map' else F.ty.size)
        return [(st, o, ea)]
    if F.label == 'fix':
        r = st.new_region('frep', 8)
        p = Ptr(r, 0)
        cont.frep_reg(st, p, 20, F.ty.size)
        return [(st, p, st.ghost[('frep', r.id)])]

    def obj(st):
        r = st.new_region('value', F.ty.size)
        q = Ptr(r, 0)
        if F.ty.kind in ('str', 'byt', 'fstr', 'fbyt'):
            lib.make_seq(ver, st, q)
        return q
    if F.label == 'req':
        return [(st, obj(st), None)]
    if F.label == 'opt':
        q = obj(st)
        o = Ptr(st.new_region('opt', 8), 0)
        st.ghost[('has', o.reg.id)] = z3.Bool('has')
        st.ghost[('optval', o.reg.id)] = q
        return [(st, o, None)]
    s2 = st.copy()
    q = obj(st)
    o = Ptr(st.new_region('uptr', 8), 0)
    st.mem[o.reg].cells[0] = (8, q)
    o2 = Ptr(s2.new_region('uptr', 8), 0)
    s2.mem[o2.reg].cells[0] = (8, NULL)
    return [(st, o, q), (s2, o2, None)]


def expected(ver, st, F, f, o, ea, PS, loops):
    """[(condition, events, refused)] - alternatives by condition"""
    if F.label == 'req':
        ev, bad = present(ver, st, F.ty, f, o, F.max_size)
        if F.ty.kind == 'msg':
            z = eq(cont.msg_size(o), 0)
        else:
            from irv import lib as L
            z = eq(L.seq_size(st, o), 0)
        return [(z, (), False), (not_(z), ev, bad)]
    if F.label == 'opt':
        ev, bad = present(ver, st, F.ty, f, st.ghost[('optval', o.reg.id)], F.max_size)
        h = z3.Bool('has')
        return [(not_(h), (), False), (h, ev, bad)]
    if F.label == 'ptr':
        if ea is None:
            return [(True, (), False)]
        ev, bad = present(ver, st, F.ty, f, ea, F.max_size)
        return [(True, ev, bad)]
    n = ea.count

    def fk(s, k):
        ev = elem(ver, s, F, f, ea, k)[0]
        s.assume(eq(PS(BVV(k + 1, 64)), add(PS(BVV(k, 64)), tlen3(ev))))
        return ev
    many = ult(F.max_count, n) if F.max_count else False
    if F.label in ('rep', 'map'):
        return [(True, (('each', n, loops, fk),), many)]
    total = PS(bv(n, 64))
    if F.label == 'fix':
        return [(True, (('v', tag(f, 2)), ('v', total), ('each', n, loops, fk)), False)]
    z = eq(n, 0)
    return [(z, (), False), (not_(z), (('v', tag(f, 2)), ('v', total), ('each', n, loops, fk)), many)]


def elem(ver, st, F, f, ea, k):
    p = Ptr(ea.reg, mul(k, ea.stride)) if F.label == 'fix' else ea.ptr(k)
    if F.label == 'map':
        return entry(ver, st, F, f, p)
    return present(ver, st, F.ty, f, p, F.max_size, with_tag=F.label == 'rep')


def total_len(st, ev, PS, n):
    t = 0
    for e in ev:
        if e[0] == 'each':
            t = add(t, PS(bv(n, 64)))
        else:
            t = add(t, tlen3((e,)))
    return t


def t_field(name):
    F = Field(name)

    def tt(ver):
        lib.install_all(ver)
        cont.install_cont(ver)
        use_varint_writers(ver)
        use_utf8(ver)
        ver.max_unroll = 4
        f = var('field', 32)
        for pre in 'szy':
            st0 = State()
            st0.assume(z3.And(z3.UGE(f, 1), z3.ULT(f, 1 << 29)))
            ver.witness = witness_of(field=f)
            for st, o, ea in setup(ver, st0, F):
                loops = set()
                ver.custom_cands = []
                PS = None
                if isinstance(ea, cont.ElemArr):
                    def elen(s, ea_, i):
                        return tlen3(elem(ver, s, F, f, ea, i)[0])
                    c = elen(st.copy(), ea, BVV(0, 64))
                    PS = use_psum(ver, elen, c if isint(c) else None)
                    st.assume(eq(PS(BVV(0, 64)), 0))
                    if F.label == 'fix':
                        # no iterator: the recurrence is instantiated by the element access
                        fixed_axioms(ver, PS, F, f, ea)
                s = new_ostream(ver, st, 'oss' if pre == 'z' else 'osw') if pre != 'y' else None

                def step(v, h, b, key, inst, s=s, ea=ea):
                    if s is None or pre != 's':
                        return
                    k = h.ghost[('k', inst)]
                    d = trace(b, s)[len(trace(h, s)):]
                    if not d:
                        return
                    loops.add(inst)
                    ev, bad = elem(v, b, F, f, ea, k)
                    match(v, b, d, ev, 'container: every element is written in its place', 'element')
                    v.prove(b, not_(bad), 'limits: a value that must be refused is never written')
                ver.step_check = step
                args = [f, o] if pre == 'y' else [s, f, o]
                for out in ver.run('@%s_%s' % (pre, name), args, st):
                    alts = expected(ver, out.st, F, f, o, ea, PS, loops)
                    if out.kind == 'throw':
                        if pre != 's':
                            ver.prove(out.st, False, 'size prediction never throws')
                            continue
                        why = [and_(c, bad) for c, ev, bad in alts]
                        if isinstance(ea, cont.ElemArr) and not any(e[0] == 'loop' for e in trace(out.st, s)):
                            for k in range(4 if F.max_count else 0):
                                why.append(and_(ult(k, ea.count), elem(ver, out.st, F, f, ea, k)[1]))
                        for e in trace(out.st, s):
                            if e[0] == 'loop':
                                k = out.st.ghost[('k', e[2])]
                                why.append(and_(ult(k, ea.count), elem(ver, out.st, F, f, ea, k)[1]))
                        ver.prove(out.st, or_(*why), 'limits: a value within its limits and valid is never refused')
                        continue
                    for c, ev, bad in alts:
                        s1 = out.st.copy()
                        if c is False or not ver.feasible(s1, normb(zbool(c))):
                            continue
                        s1.assume(zbool(c))
                        if pre == 's':
                            ver.prove(s1, not_(bad), 'limits: a value that must be refused is never written')
                            match(ver, s1, trace(s1, s), ev, 'container: the bytes written are the encoding of the field', name)
                            ver.prove(s1, eq(written(s1, s), total_len(s1, ev, PS, ea.count if isinstance(ea, cont.ElemArr) else 0)),
                                      'size: bytes written are as many as predicted')
                        else:
                            got = out.value if pre == 'y' else written(s1, s)
                            ver.prove(s1, eq(got, total_len(s1, ev, PS, ea.count if isinstance(ea, cont.ElemArr) else 0)),
                                      'size: the predicted size is the number of bytes written')
    return tt


def fixed_axioms(ver, PS, F, f, ea):
    @ver.contract(r'V::frep<.*>::operator\[\]\(unsigned long\)( const)?')
    def _(v, st, a, ins):
        p, i = a
        v.prove(st, ult(i, ea.count), 'memory: no access behind the last element')
        st.assume(ult(i, ea.count))
        st.assume(eq(PS(bv(add(i, 1), 64)), add(PS(bv(i, 64)), v.elen(st, ea, i))))
        return [(st, Ptr(ea.reg, mul(i, ea.stride)))]


DECL = {n: Task('pb_ser', 'serialize field %s' % n, t_field(n)) for n in NAMES}
TASKS = {'C04': list(DECL.values()), 'C10': list(DECL.values()),
         'C11': [t for n, t in DECL.items() if n.endswith('_max')],
         'C12': [t for n, t in DECL.items() if 'str' in n]}
