"""C01, C02, C03 (protobuf part), C09 (scalars), C04 (scalars): functions of spb/pb on numbers."""
from .common import *
from irv.run import Task

HARNESS = {'pb_scalar': ('/verif/harness/pb_scalar.cpp', [])}
WT = {'varint': 0, 'svarint': 0, 'enum': 0, 'i32': 5, 'i64': 1}
KINDS = []
for e in ('varint', 'svarint', 'i32', 'i64'):
    for t in ('bool', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'float', 'double'):
        if e == 'varint' and t in ('float', 'double'):
            continue
        if e == 'svarint' and not t.startswith('i'):
            continue
        if e == 'i32' and t in ('bool', 'i64', 'u64', 'double'):
            continue
        if e == 'i64' and t in ('bool', 'float'):
            continue
        KINDS.append((e, t))
for t in ('i32', 'i8', 'i16', 'i64', 'u8', 'u16', 'u32'):
    KINDS.append(('enum', t))


def width(t):
    return {'bool': 8, 'float': 32, 'double': 64}.get(t) or int(t[1:])


def signed(t):
    return t[0] == 'i'


# ------------------------------------------------------------------ C01
def t_write_varint(fn, cls):
    def t(ver):
        lib.install_all(ver)
        st = State()
        v = var('v', 64)
        ver.witness = witness_of(value=v)
        if cls == 'ostream_size':
            r = st.new_region('ostream_size', 8)
            n0 = var('n0', 64)
            st.mem[r].cells[0] = (8, n0)
            for o in ver.run('@' + fn, [Ptr(r, 0), v], st):
                ver.prove(o.st, o.kind == 'return', 'varint writer returns for every value')
                ver.prove(o.st, eq(ver._cell(o.st, r, 0, 8), add(n0, vsz(v))), 'varint: size counted is the length of the shortest varint')
            return
        s = new_ostream(ver, st, cls)
        for o in ver.run('@' + fn, [s, v], st):
            ver.prove(o.st, o.kind == 'return', 'varint writer returns for every value')
            ver.prove(o.st, eq(written(o.st, s), vsz(v)), 'varint: number of bytes written is that of the shortest varint')
            if cls == 'osw':
                match(ver, o.st, trace(o.st, s), (('v', v),), 'varint: bytes written are the base-128 groups of the value')
    return t


def t_varint_size(ver):
    lib.install_all(ver)
    st = State()
    v = var('v', 64)
    ver.witness = witness_of(value=v)
    for o in ver.run('@p_serialize_varint_size', [v], st):
        ver.prove(o.st, o.kind == 'return', 'varint size returns for every value')
        ver.prove(o.st, eq(o.value, vsz(v)), 'varint: predicted size is the length of the shortest varint')


def t_svarint(ver):
    lib.install_all(ver)
    use_varint_writers(ver)
    st = State()
    v = var('v', 64)
    ver.witness = witness_of(value=v)
    s = new_ostream(ver, st)
    for o in ver.run('@p_serialize_svarint', [s, v], st):
        ver.prove(o.st, o.kind == 'return', 'zigzag writer returns for every value')
        match(ver, o.st, trace(o.st, s), (('v', zigzag(v)),), 'zigzag: bytes written are the varint of the zigzag value')


def t_tag(ver):
    lib.install_all(ver)
    use_varint_writers(ver)
    st = State()
    f, t = var('field', 32), var('type', 8)
    st.assume(z3.And(z3.UGE(f, 1), z3.ULT(f, 1 << 29), z3.ULT(t, 8)))
    ver.witness = witness_of(field=f, type=t)
    s = new_ostream(ver, st)
    for o in ver.run('@p_serialize_tag', [s, f, t], st):
        ver.prove(o.st, o.kind == 'return', 'tag writer returns for every field number')
        match(ver, o.st, trace(o.st, s), (('v', z3.ZeroExt(32, f) * 8 + z3.ZeroExt(56, t)),), 'tag: varint of field number * 8 + wire type')


def t_read_varint(fn, w):
    def t(ver):
        lib.install_all(ver)
        st = State()
        s = new_istream(ver, st)
        pos, lim = 0, is_lim(ver, st, s)
        ver.witness = witness_of(limit=lim, end=END, **{'b%d' % i: in_byte(i) for i in range(10)})
        big = BVV(mask(w), 64)
        for o in ver.run('@' + fn, [s], st):
            np = is_pos(ver, o.st, s)
            if o.kind == 'return':
                opts = []
                for k in range(1, 11):
                    r = raw_varint(pos, k)
                    opts.append(and_(eq(np, k), term_at(pos, k), avail(pos, lim, k), z3.ULE(r, big), bv(o.value, w) == z3.Extract(w - 1, 0, r)))
                ver.prove(o.st, or_(*opts), 'varint: the value read is the one encoded and exactly its bytes are consumed')
            else:
                bad = and_(*[z3.Not(z3.And(term_at(pos, k), avail(pos, lim, k), z3.ULE(raw_varint(pos, k), big))) for k in range(1, 11)])
                ver.prove(o.st, bad, 'varint: an exception only for a cut, overlong or too large varint')
    return t


def t_read_tag(ver):
    lib.install_all(ver)
    st = State()
    s = new_istream(ver, st)
    lim = is_lim(ver, st, s)
    ver.witness = witness_of(limit=lim, end=END, **{'b%d' % i: in_byte(i) for i in range(10)})
    ok = [z3.And(term_at(0, k), avail(0, lim, k), z3.ULT(raw_varint(0, k), 1 << 32), z3.UGE(raw_varint(0, k), 8)) for k in range(1, 6)]
    # ten-byte forms of a small number are over-long tags: both reactions are allowed
    for o in ver.run('@p_read_tag', [s], st):
        np = is_pos(ver, o.st, s)
        if o.kind == 'return':
            eof = and_(eq(o.value, 0, 32), not_(avail(0, lim, 1)))
            opts = [eof] + [and_(eq(np, k), term_at(0, k), avail(0, lim, k), z3.ZeroExt(32, bv(o.value, 32)) == raw_varint(0, k),
                                 z3.UGE(raw_varint(0, k), 8)) for k in range(1, 11)]
            ver.prove(o.st, or_(*opts), 'tag: the tag read is the one encoded, fits in 32 bits and has a field number that is not zero')
        else:
            ver.prove(o.st, not_(or_(*ok)), 'tag: an exception only for a malformed tag')


# ------------------------------------------------------------------ C02 / C04 writers
def enc_events(e, t, v):
    w = width(t)
    if t == 'bool':
        return (('b', v if isint(v) else v),)
    if e in ('varint', 'enum'):
        x = sext(v, w, 64) if signed(t) or e == 'enum' else zext(v, w, 64)
        if e == 'enum' and not signed(t):
            x = zext(v, w, 64)
        return (('v', x),)
    if e == 'svarint':
        return (('v', zigzag(sext(v, w, 64))),)
    n = 4 if e == 'i32' else 8
    x = v if w == 8 * n else (sext(v, w, 8 * n) if signed(t) else zext(v, w, 8 * n))
    if w > 8 * n:
        x = z3.Extract(8 * n - 1, 0, v)
    return tuple(('b', q) for q in le_bytes(x, n))


def input_value(e, t, st):
    """(argument, value as bits)"""
    w = width(t)
    if t == 'bool':
        b = z3.Bool('v')
        return b, z3.If(b, BVV(1, 8), BVV(0, 8))
    v = var('v', w)
    if e == 'enum':
        x = sext(v, w, 64) if signed(t) else zext(v, w, 64)
        st.assume(z3.And(x >= -(1 << 31), x < (1 << 31)))
    return v, v


def t_write(e, t):
    def tt(ver):
        lib.install_all(ver)
        use_varint_writers(ver)
        w = width(t)
        f = var('field', 32)
        for pre in 'sezy':
            st = State()
            arg, v = input_value(e, t, st)
            ver.witness = witness_of(field=f, value=v)
            st.assume(z3.And(z3.UGE(f, 1), z3.ULT(f, 1 << 29)))
            tag = z3.ZeroExt(32, f) * 8 + WT[e]
            exp = enc_events(e, t, v)
            full = (('v', tag),) + exp
            if pre == 'y':
                for o in ver.run('@y_%s_%s' % (e, t), [f, arg], st):
                    ver.prove(o.st, o.kind == 'return' and eq(o.value, tlen(full)), 'scalar: predicted size is the encoded size')
                continue
            s = new_ostream(ver, st, 'oss' if pre == 'z' else 'osw')
            args = [s, arg] if pre == 'e' else [s, f, arg]
            for o in ver.run('@%s_%s_%s' % (pre, e, t), args, st):
                ver.prove(o.st, o.kind == 'return', 'scalar: writing never throws')
                if pre == 'z':
                    ver.prove(o.st, eq(written(o.st, s), tlen(full)), 'scalar: size counted is the encoded size')
                else:
                    match(ver, o.st, trace(o.st, s), exp if pre == 'e' else full,
                          'scalar: the bytes written are the protobuf encoding of %s' % ('a packed element' if pre == 'e' else 'the field'))
    return tt


# ------------------------------------------------------------------ C02 / C03 / C09 readers
def spec_read(e, t, pos, lim, k):
    """for a value of k bytes at pos: (framed, must accept, value, must reject)"""
    w = width(t)
    if e in ('varint', 'svarint', 'enum'):
        raw = raw_varint(pos, k)
        ok, v, bad = representable('svarint' if e == 'svarint' else 'varint', w, signed(t), t == 'bool', raw)
        fr = z3.And(term_at(pos, k), avail(pos, lim, k))
        if t == 'bool' and k > 1:
            ok, bad = z3.BoolVal(False), z3.BoolVal(False)      # over-long forms of a bool are left open
        return fr, ok, v, bad
    n = 4 if e == 'i32' else 8
    x = z3.Concat(*[in_byte(add(pos, i)) for i in reversed(range(n))])
    v = x if w == 8 * n else z3.Extract(w - 1, 0, x)
    if w == 8 * n:
        ok = z3.BoolVal(True)
    else:
        ok = (z3.SignExt(8 * n - w, v) if signed(t) else z3.ZeroExt(8 * n - w, v)) == x
    return avail(pos, lim, n), ok, v, z3.Not(ok)


def lens(e):
    return {'i32': [4], 'i64': [8]}.get(e, list(range(1, 11)))


def t_read(e, t, bits=False):
    def tt(ver):
        lib.install_all(ver)
        w = width(t)
        st = State()
        s = new_istream(ver, st)
        lim = is_lim(ver, st, s)
        ty = var('type', 8)
        wit = dict(wire_type=ty, limit=lim, end=END, **{'b%d' % i: in_byte(i) for i in range(10)})
        if bits:
            nb = var('bits', 32)
            st.assume(z3.And(z3.UGE(nb, 1), z3.ULE(nb, w)))
            wit['bits'] = nb
            nb64 = z3.ZeroExt(32, nb)
        ver.witness = witness_of(**wit)
        good = ty == WT[e]
        if bits:
            outs = ver.run('@b_%s_%s' % (e, t), [s, nb, ty], st)
        else:
            d = st.new_region('field', w // 8)
            outs = ver.run('@d_%s_%s' % (e, t), [s, Ptr(d, 0), ty], st)
        kind = 'bit-field' if bits else 'scalar'
        for o in outs:
            np = is_pos(ver, o.st, s)
            specs = []
            for k in lens(e):
                fr, ok, v, bad = spec_read(e, t, 0, lim, k)
                if bits:
                    fb = fits_bits(v, w, signed(t), nb64)
                    bad = z3.Or(bad, z3.And(ok, z3.Not(fb)))
                    ok = z3.And(ok, fb)
                specs.append((k, fr, ok, v, bad))
            if o.kind == 'return':
                ver.prove(o.st, good, '%s: a wrong wire type is rejected' % kind)
                val = o.value if bits else ver._cell(o.st, d, 0, w // 8)
                val = bv(val, w)
                ver.prove(o.st, or_(*[and_(eq(np, k), fr, z3.Not(bad)) for k, fr, ok, v, bad in specs]),
                          '%s: only a representable value is accepted, consuming exactly its bytes' % kind)
                ver.prove(o.st, and_(*[z3.Implies(z3.And(fr, ok), val == v) for k, fr, ok, v, bad in specs]),
                          '%s: the value stored is the value encoded' % kind)
            else:
                ver.prove(o.st, or_(not_(good), not_(or_(*[and_(fr, ok) for k, fr, ok, v, bad in specs]))),
                          '%s: every representable value is accepted' % kind)
    return tt


C01 = [Task('pb_scalar', 'serialize_varint', t_write_varint('p_serialize_varint', 'osw')),
       Task('pb_scalar', 'serialize_varint (size-only stream)', t_write_varint('p_serialize_varint_oss', 'oss')),
       Task('pb_scalar', 'serialize_varint (ostream_size)', t_write_varint('p_serialize_varint_ostream_size', 'ostream_size')),
       Task('pb_scalar', 'serialize_varint_size', t_varint_size),
       Task('pb_scalar', 'serialize_svarint', t_svarint),
       Task('pb_scalar', 'serialize_tag', t_tag),
       Task('pb_scalar', 'read_varint<uint64_t>', t_read_varint('p_read_varint_u64', 64)),
       Task('pb_scalar', 'read_varint<uint32_t>', t_read_varint('p_read_varint_u32', 32)),
       Task('pb_scalar', 'read_tag_or_eof', t_read_tag)]
WRITE = [Task('pb_scalar', 'serialize %s %s' % k, t_write(*k)) for k in KINDS]
READ = {k: Task('pb_scalar', 'deserialize %s %s' % k, t_read(*k)) for k in KINDS}
BITS = [Task('pb_scalar', 'deserialize_bitfield %s %s' % k, t_read(*k, bits=True)) for k in KINDS
        if k[0] != 'enum' and k[1] not in ('bool', 'float', 'double')]
TASKS = {'C01': C01,
         'C02': C01[:7] + WRITE + list(READ.values()),
         'C03': [t for k, t in READ.items() if width(k[1]) < 32] + BITS}
