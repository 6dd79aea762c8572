"""Generators and judges of the bounded stand-ins, one per property."""
import base64
import json
import random
import struct
import ref
import specimen
from ref import F, T, Msg, Oneof, Invalid, Unspec, NotJson
from engine import Case

PK = {n: pkg for n, (pkg, _) in specimen.FILES.items()}


def msgs(*files):
    return [(specimen.FILES[n][0] + '.' + m.name, m) for n in files for m in specimen.FILES[n][1] if isinstance(m, Msg)]


MSG = {k: m for k, m in msgs(*specimen.FILES)}

# ------------------------------------------------------------------ values
WORDS = [b'', b'a', b'ab', b'abc', b'hello', b'\x00', b'"', b'\\', b'\n\t\r\b\f', b'\x1f\x7f', 'ž'.encode(), '€uro'.encode(), '\U0001f600'.encode(),
         '\u07ff\u0800\uffff\U00010000\U0010ffff'.encode(), b'/', b'{}[],:', b'\x01\x02', '\ud7ff\ue000'.encode(), b'key: "v"', b"it's"]


def rand_cp(r):
    k = r.randrange(8)
    if k < 3:
        return r.randrange(0x20, 0x7f)
    if k == 3:
        return r.randrange(0, 0x80)
    if k == 4:
        return r.randrange(0x80, 0x800)
    if k == 5:
        return r.choice([0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, r.randrange(0x800, 0xd800)])
    if k == 6:
        return r.choice([0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, r.randrange(0x10000, 0x110000)])
    return r.choice([0x22, 0x5c, 0x2f, 8, 9, 10, 12, 13, 0x7f, 0x80, 0x7ff])


def rand_str(r, maxlen=None):
    if maxlen is None:
        maxlen = r.choice([3, 3, 8, 20, 70, 300])
    k = r.randrange(4)
    if k == 0:
        w = r.choice(WORDS)
        return w if len(w) <= maxlen else b''
    n = r.randrange(maxlen + 1)
    s = ''.join(chr(rand_cp(r)) if k != 1 else chr(r.randrange(0x20, 0x7f)) for _ in range(n)).encode()
    while len(s) > maxlen:
        s = s.decode()[:-1].encode()
    return s


def fixed_str(r, n):
    while True:
        s = rand_str(r, n)
        return s + b'x' * (n - len(s))


def rand_bytes(r, maxlen=None):
    n = r.randrange((maxlen if maxlen is not None else r.choice([2, 4, 8, 40, 300])) + 1)
    k = r.randrange(3)
    if k == 0:
        return bytes(r.choice([0, 255, 62, 63, 251, 191]) for _ in range(n))
    return r.randbytes(n)


def rand_int(r, lo, hi):
    k = r.randrange(4)
    if k == 0:
        return r.randint(lo, hi)
    if k == 1:
        return r.choice([lo, hi, 0, 1 if hi >= 1 else 0, -1 if lo < 0 else hi])
    b = r.randrange(65)
    v = (1 << b) + r.choice([-1, 0, 1])
    if k == 3:
        v = -v
    if lo <= v <= hi:
        return v
    v = r.getrandbits(r.randrange(1, 65)) * r.choice([1, -1])
    return v if lo <= v <= hi else r.randint(lo, hi)


def rand_scalar(r, t, finite=False):
    if t.kind == 'bool':
        return r.randrange(2)
    if t.kind == 'float':
        while True:
            v = r.choice([r.getrandbits(32), struct.unpack('<I', struct.pack('<f', r.choice([0, -0.0, 1, .5, 1.5, -3, 1e10, 1e-10, 0.1])))[0], 1, 0x7f7fffff, 0x00800000])
            if not finite or (v & 0x7f800000) != 0x7f800000:
                return v
    if t.kind == 'double':
        while True:
            v = r.choice([r.getrandbits(64), struct.unpack('<Q', struct.pack('<d', r.choice([0, -0.0, 1, .5, 1.5, -3, 1e10, 1e-10, 0.1])))[0], 1, 0x7fefffffffffffff, 1 << 52])
            if not finite or (v & 0x7ff0000000000000) != 0x7ff0000000000000:
                return v
    if t.kind == 'enum':
        vs = list(t.ref.vals.values())
        if finite or r.randrange(3):
            return r.choice(vs)
    return rand_int(r, *ref.rng(t))


def rand_val(r, t, f=None, depth=0, finite=False):
    if t.kind == 'msg':
        return rand_msg(r, t.ref, depth + 1, finite)
    lim = f.max_size if f is not None and f.max_size else None
    if f is not None and f.fixed and f.label not in ('rep', 'pack'):
        return fixed_str(r, f.fixed) if t.kind == 'string' else r.randbytes(f.fixed)
    if t.kind == 'string':
        return rand_str(r, lim)
    if t.kind == 'bytes':
        return rand_bytes(r, lim)
    return rand_scalar(r, t, finite)


def rand_field(r, f, depth, finite, p=0.5):
    if f.label in ('opt', 'ptr'):
        if f.default is None and (r.random() > p or depth > 4):
            return None
        return rand_val(r, f.t, f, depth, finite)
    if f.label in ('rep', 'pack'):
        n = f.fixed or (0 if r.random() > p or (depth > 2 and f.t.kind == 'msg') else r.choice([1, 1, 2, 3, 4, 7] if r.randrange(12) or f.t.kind == 'msg' else [30, 140]))
        if f.max_count:
            n = min(n, f.max_count)
        return [rand_val(r, f.t, f, depth, finite) for _ in range(n)]
    if f.label == 'map':
        if r.random() > p:
            return {}
        return {rand_val(r, f.key, None, depth, finite): rand_val(r, f.t, None, depth, finite) for _ in range(r.choice([1, 1, 2, 3, 6]))}
    x = rand_val(r, f.t, f, depth, finite)
    # known finding: an empty string in a field with a declared default is not written
    return b'?' if f.default is not None and x == b'' else x


def rand_msg(r, m, depth=0, finite=False, p=None):
    if p is None:
        p = r.choice([0.1, 0.3, 0.6, 0.95]) if depth == 0 else 0.4
    v = {}
    for f in m.fields:
        if isinstance(f, Oneof):
            i = r.randrange(len(f.fields) + 1) if r.random() < .8 else 0
            v[f.name] = (i, rand_val(r, f.fields[i - 1].t, f.fields[i - 1], depth, finite) if i else None)
        else:
            v[f.name] = rand_field(r, f, depth, finite, p)
    return v


# ------------------------------------------------------------------ pb helpers
def split(b):
    """top level fields: (num, wt, payload, raw)"""
    r = ref.Rd(b)
    out = []
    while r.p < r.e:
        p = r.p
        n, w = r.tag()
        q = r.p
        if w == 0:
            try:
                r.varint()
            except Unspec:
                pass
            pay = b[q:r.p]
        elif w == 1:
            pay = r.take(8)
        elif w == 5:
            pay = r.take(4)
        elif w == 2:
            pay = r.take(r.length())
        else:
            raise Invalid('group')
        out.append((n, w, pay, b[p:r.p]))
    return out


def minimal(b):
    """every varint of the top level is minimal (tags, lengths, values)"""
    r = ref.Rd(b)
    while r.p < r.e:
        n, w, pay, raw = split_one(r, b)
        t = ref.tag(n, w)
        if not raw.startswith(t):
            return False
        rest = raw[len(t):]
        if w == 2 and rest != ref.varint(len(pay)) + pay:
            return False
    return True


def split_one(r, b):
    p = r.p
    n, w = r.tag()
    q = r.p
    if w == 0:
        r.varint()
        pay = b[q:r.p]
    elif w == 1:
        pay = r.take(8)
    elif w == 5:
        pay = r.take(4)
    else:
        pay = r.take(r.length())
    return n, w, pay, b[p:r.p]


def canon(m, b):
    """canonical form of an encoding: fields sorted by number, lengths and tags minimal, sub messages canonical"""
    by = m.by_num()
    out = []
    if not minimal(b):
        raise Invalid('a tag or length is not minimal')
    for n, w, pay, raw in split(b):
        if n not in by:
            raise Invalid('field %d is not declared' % n)
        owner, _, f = by[n]
        if f.label == 'map':
            sub = split(pay)
            if sorted(x[0] for x in sub) != [1, 2] or not minimal(pay):
                raise Invalid('map entry')
            d = {x[0]: (x[1], canon(f.t.ref, x[2]) if x[0] == 2 and f.t.kind == 'msg' else x[2]) for x in sub}
            out.append((n, w, ('map', d[1], d[2])))
        elif f.t.kind == 'msg':
            c = canon(f.t.ref, pay)
            if f.label == 'req' and owner is None and not c:
                continue
            out.append((n, w, c))
        else:
            if f.label == 'req' and owner is None and f.t.kind in ('string', 'bytes') and not pay:
                continue
            out.append((n, w, pay))
    # repeated values keep their order, map entries do not have one
    maps = sorted([x for x in out if isinstance(x[2], tuple) and x[2] and x[2][0] == 'map'], key=repr)
    rest = sorted([x for x in out if not (isinstance(x[2], tuple) and x[2] and x[2][0] == 'map')], key=lambda x: x[0])
    return tuple(rest) + tuple(maps)


def expect_decode(m, b, whole=True):
    """('ok', consumed, text) / ('throw',) / None when not judged"""
    try:
        v = ref.decode(m, b)
    except Invalid:
        return ('throw',)
    except Unspec:
        return None
    return ('ok', len(b), ref.text(m, v))


def has_unspec(m, b):
    return expect_decode(m, b) is None


def judge_decode(exp, rep):
    if exp is None:
        return None
    if exp[0] == 'throw':
        return None if rep == '!' else 'decoding has to throw, got ' + rep[:300]
    want = 'ok %d %s' % (exp[1], exp[2])
    return None if rep == want else 'decoding has to give ' + want[:600] + ' got ' + rep[:600]


def case_decode(name, b, note='', op='D', args=''):
    m = MSG[name]
    exp = expect_decode(m, b)
    return Case([(op, name, b.hex(), args)], lambda rp: judge_decode(exp, rp[0]), note)


def judge_encode(m, v, rep, want_canon=None):
    """reply of E for a value that has to serialize"""
    p = rep.split(' ')
    if len(p) != 5:
        return 'bad reply ' + rep
    if any(x.startswith('?') for x in p):
        return 'serializations differ or return a wrong size: ' + rep[:400]
    if any(x.startswith('!') for x in p):
        return 'serialization threw: ' + rep[:400]
    b = bytes.fromhex(p[1][1:])
    if int(p[0]) != len(b):
        return 'predicted size %s, written %d' % (p[0], len(b))
    if bytes.fromhex(p[4][1:]) != ref.varint(len(b)) + b:
        return 'delimited output is not the size followed by the plain output: ' + rep[:400]
    try:
        got = canon(m, b)
        want = canon(m, ref.encode(m, v))
    except (Invalid, Unspec) as e:
        return 'output is not a valid encoding (%s): %s' % (e, rep[:400])
    if got != want:
        return 'output %s, the protobuf encoding is %s' % (b.hex()[:400], ref.encode(m, v).hex()[:400])
    return None


def case_encode(name, v, note=''):
    m = MSG[name]
    return Case([('E', name, ref.text(m, v), '')], lambda rp: judge_encode(m, v, rp[0]), note)


def case_encode_throws(name, v, note='', js=False):
    m = MSG[name]

    def judge(rp):
        p = rp[0].split(' ')
        bad = [x for x in p[1:] if x != '!']
        return 'serialization has to throw, got ' + rp[0][:300] if bad else None
    return Case([('F' if js else 'E', name, ref.text(m, v), '')], judge, note)


def roundtrip_cases(name, v):
    m = MSG[name]
    yield case_encode(name, v)
    yield case_decode(name, ref.encode(m, v))


def chunkings(r, n):
    """reader scripts that deliver everything"""
    return r.choice([[1], [2], [3], [7], [1, 2, 3], [5, 1], [64], [255], [256], [257], [max(1, n - 1)], [max(1, n // 2)], [r.randrange(1, 40) for _ in range(5)]])


def unknown_field(r, m, bad=False):
    used = set(m.by_num())
    while True:
        n = r.choice([1, 2, 5, 15, 16, 31, 100, 127, 2047, 2048, 16384, 262143, 536870911, r.randrange(1, 1 << 29)])
        if n not in used:
            break
    if bad:
        k = r.randrange(6)
        if k < 4:
            return ref.tag(n, r.choice([3, 4, 6, 7])) + r.choice([b'', b'\0', r.randbytes(r.randrange(9))])
        w = r.choice([0, 1, 2, 5])
        good = unknown_payload(r, w)
        cut = good[:r.randrange(len(good))]
        return ref.tag(n, w) + cut     # only at the very end of the data
    w = r.choice([0, 1, 2, 5])
    return ref.tag(n, w) + unknown_payload(r, w)


def unknown_payload(r, w):
    if w == 0:
        return ref.varint(r.getrandbits(r.randrange(65)))
    if w == 1:
        return r.randbytes(8)
    if w == 5:
        return r.randbytes(4)
    n = r.choice([0, 1, 2, 5, 20, 127, 128, 300, 700])
    return ref.varint(n) + r.randbytes(n)


def inject(r, m, b, depth=0):
    """insert unknown fields at field boundaries of the message and of its sub messages"""
    by = m.by_num()
    out = b''
    for n, w, pay, raw in split(b):
        if r.random() < .5:
            out += unknown_field(r, m)
        f = by[n][2]
        if f.t.kind == 'msg' and f.label != 'map' and depth < 3:
            p2 = inject(r, f.t.ref, pay, depth + 1)
            raw = ref.tag(n, w) + ref.varint(len(p2)) + p2
        out += raw
    if r.random() < .6 or out == b'':
        out += unknown_field(r, m)
    return out


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        k = r.randrange(9)
        n = len(b)
        i = r.randrange(n + 1)
        if k == 0 and n:
            b[i % n] = r.randrange(256)
        elif k == 1 and n:
            b[i % n] ^= 1 << r.randrange(8)
        elif k == 2:
            b[i:i] = bytes([r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)])])
        elif k == 3 and n:
            del b[i % n]
        elif k == 4:
            del b[i:]
        elif k == 5 and n:
            j = r.randrange(n)
            b[i:i] = b[min(i, j):max(i, j)][:50]
        elif k == 6 and n:
            b[i % n] = (b[i % n] + r.choice([1, -1])) & 255
        elif k == 7:
            b[i:i] = b'\x80' * r.choice([1, 4, 5, 9, 10])
        elif k == 8:
            b[i:i] = r.randbytes(r.randrange(5))
    return bytes(b)


def set_field(m, name, x):
    v = ref.default(m)
    v[name] = x
    return v


# ------------------------------------------------------------------ C01
def c01(r):
    U, I = 'S.Ku64', 'S.Ki64'
    m = MSG[U]
    for b in range(65):
        for d in (-2, -1, 0, 1, 2):
            x = (1 << b) + d
            if 0 <= x < 1 << 64:
                yield case_encode(U, set_field(m, 'r', x))
                yield case_decode(U, ref.encode(m, set_field(m, 'r', x)))
                yield case_encode(U, set_field(m, 'u', [x, x ^ 1]))
                yield case_encode(U, set_field(m, 'p', [x, 0, x]))
                s = ref.sext(x, 64)
                yield case_encode(I, set_field(MSG[I], 'r', s))
                yield case_decode(I, ref.encode(MSG[I], set_field(MSG[I], 'r', s)))
    names = ['S.Ku64', 'S.Ki64', 'S.Ks64', 'S.Ku32', 'S.Ki32', 'S.Ks32', 'S.Kb', 'S.Ke32']
    # cut short / too long
    for nm in names:
        for f in MSG[nm].fields:
            for n in range(0, 13):
                for last in (b'', b'\0', b'\1', b'\x7f'):
                    body = b'\xff' * n + last
                    b = ref.tag(f.num, 2 if f.label == 'pack' else 0) + (ref.varint(len(body)) if f.label == 'pack' else b'') + body
                    yield case_decode(nm, b, 'varint of %d bytes' % len(body))
                    yield case_decode(nm, b, 'varint of %d bytes' % len(body), 'R', '1')
                    body = b'\x80' * n + last
                    b = ref.tag(f.num, 2 if f.label == 'pack' else 0) + (ref.varint(len(body)) if f.label == 'pack' else b'') + body
                    yield case_decode(nm, b, 'varint of %d bytes' % len(body))
    # tags
    for nm in ['S.Ku64', 'C.Leaf', 'C.Empty', 'C.One', 'C.Maps']:
        for num in (0,):
            for w in range(8):
                for pad in range(0, 6):
                    t = (num << 3 | w)
                    bs = bytes([t & 127 | (128 if pad else 0)]) + b'\x80' * max(0, pad - 1) + (b'\0' if pad else b'')
                    yield case_decode(nm, bs + b'\1\1\1\1\1\1\1\1', 'field number 0')
        for b5 in list(range(128)) + [128, 255]:
            for rest in (b'', b'\0', b'\1'):
                yield case_decode(nm, bytes([0x80 | 0x78, 0x80, 0x80, 0x80, b5]) + rest + b'\1', 'tag above 32 bits')
                yield case_decode(nm, bytes([0x80 | 8, 0x80, 0x80, 0x80, b5]) + rest + b'\1', 'tag above 32 bits')
        for n in range(1, 12):
            for first in (0x88, 0x8d, 0xff, 0xfa):
                yield case_decode(nm, bytes([first]) + b'\x80' * (n - 1) + b'\1\1\1\1\1\1\1\1\1', 'long tag')
                yield case_decode(nm, bytes([first]) + b'\xff' * (n - 1) + b'\1\1\1\1\1\1\1\1\1', 'long tag')
                yield case_decode(nm, bytes([first]) + b'\x80' * (n - 1), 'cut tag')
        for num in (1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911):
            yield case_decode(nm, ref.tag(num, 0) + b'\1')
            yield case_decode(nm, ref.tag(num, 1) + b'\1' * 8)
    while True:
        x = rand_int(r, 0, (1 << 64) - 1)
        yield case_encode(U, set_field(m, 'r', x))
        nm = r.choice(names)
        f = r.choice(MSG[nm].fields)
        body = bytes(r.randrange(256) | r.choice([0, 128, 128]) for _ in range(r.randrange(1, 12)))
        b = ref.tag(f.num, 2 if f.label == 'pack' else 0) + (ref.varint(len(body)) if f.label == 'pack' else b'') + body
        yield case_decode(nm, b)
        tg = bytes(r.randrange(256) | r.choice([0, 128, 128]) for _ in range(r.randrange(1, 7)))
        yield case_decode('S.Ku64', tg + b'\1')


# ------------------------------------------------------------------ C02
def edge_ints(t):
    lo, hi = ref.rng(t)
    s = {lo, hi, 0, lo + 1, hi - 1}
    for b in range(0, 65):
        for d in (-1, 0, 1):
            for sg in (1, -1):
                x = sg * (1 << b) + d
                if lo <= x <= hi:
                    s.add(x)
    return sorted(s)


def edge_vals(t):
    if t.kind == 'bool':
        return [0, 1]
    if t.kind == 'float':
        return [0, 0x80000000, 1, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffffffff, 0x3f800000]
    if t.kind == 'double':
        return [0, 1 << 63, 1, 0x7fefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, (1 << 64) - 1, 0x3ff0000000000000]
    return edge_ints(t)


def c02(r):
    ms = msgs('scal', 'scal2', 'scal3')
    for nm, m in ms:
        t = m.fields[0].t
        for x in edge_vals(t):
            for f, y in (('r', x), ('o', x), ('u', [x, x]), ('p', [x]), ('a', [x, 0, x])):
                v = set_field(m, f, y)
                yield case_encode(nm, v)
                yield case_decode(nm, ref.encode(m, v))
            if t.kind in ('int32', 'enum') and x < 0:
                for f in m.fields:
                    for body in (ref.varint(x & 0xffffffff), ref.varint(x & ((1 << 64) - 1))):
                        if f.label == 'pack':
                            body = body * (f.fixed or 1)
                            body = ref.varint(len(body)) + body
                        yield case_decode(nm, ref.tag(f.num, 2 if f.label == 'pack' else 0) + body, 'negative int32')
    while True:
        for nm, m in ms:
            v = rand_msg(r, m)
            yield from roundtrip_cases(nm, v)


# ------------------------------------------------------------------ C03
def wire_raw(t, x):
    """encoding of the integer x for the declared kind, not limited to the C++ field"""
    if t.kind in ('sint32', 'sint64'):
        return ref.varint(2 * x if x >= 0 else -2 * x - 1)
    if t.kind in ref.VARINT:
        return ref.varint(x & ((1 << 64) - 1))
    n = 4 if t.kind in ref.W32 else 8
    return (x & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')


def wire_range(t):
    if t.kind in ref.INT:
        s, b = ref.INT[t.kind]
    else:
        s, b = True, 32
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def case_json_int(nm, m, f, x, quoted=False):
    lo, hi = ref.rng(f.t)
    j = str(x)
    if quoted:
        j = '"%s"' % j
    if f.label in ('rep', 'pack'):
        j = '[' + ','.join([j] * (f.fixed or 1)) + ']'
    tx = '{"%s":%s}' % (f.name, j)
    if lo <= x <= hi:
        v = set_field(m, f.name, [x] * (f.fixed or 1) if f.label in ('rep', 'pack') else x)
        want = 'ok %d %s' % (len(tx), ref.text(m, v))
    else:
        want = '!'
    return Case([('J', nm, tx.encode().hex(), '')], lambda rp: None if rp[0] == want else 'JSON %s has to give %s, got %s' % (tx, want[:200], rp[0][:200]), 'json ' + tx)


def c03(r):
    ms = msgs('scal2', 'scal3', 'bits') + [x for x in msgs('scal') if x[0] in ('S.Ke8', 'S.Keu8', 'S.Ke16')]
    def around(f):
        lo, hi = ref.rng(f.t)
        wl, wh = wire_range(f.t)
        s = set()
        for c in (lo, hi, wl, wh, 0, lo * 2, hi * 2, 1 << 8, 1 << 16, 1 << 32, -(1 << 8), -(1 << 16), (1 << 31), -(1 << 31)):
            for d in (-2, -1, 0, 1, 2, 256, 65536):
                if wl <= c + d <= wh:
                    s.add(c + d)
        return sorted(s)

    def dec(nm, m, f, x):
        body = wire_raw(f.t, x)
        if f.label == 'pack':
            body = body * (f.fixed or 1)
            body = ref.varint(len(body)) + body
        return case_decode(nm, ref.tag(f.num, 2 if f.label == 'pack' else f.t.wt()) + body, 'wire value %d for %s' % (x, f.name))
    for nm, m in ms:
        for f in m.fields:
            for x in around(f):
                yield dec(nm, m, f, x)
                if f.t.kind != 'enum':
                    yield case_json_int(nm, m, f, x)
                    if -(1 << 63) <= x < 1 << 64 and f.label == 'req':
                        v = set_field(m, f.name, x)
                        lo, hi = ref.rng(f.t)
                        if lo <= x <= hi:
                            yield case_encode(nm, v)
                            yield case_json_value(nm, v)
    while True:
        nm, m = r.choice(ms)
        f = r.choice(m.fields)
        x = rand_int(r, *wire_range(f.t))
        yield dec(nm, m, f, x)
        if f.t.kind != 'enum':
            yield case_json_int(nm, m, f, x)


# ------------------------------------------------------------------ C04
ALLF = ('scal', 'scal2', 'scal3', 'bits', 'cont', 'lim', 'gen')


def c04(r):
    ms = msgs(*ALLF)
    big = msgs('cont', 'lim', 'gen')
    for nm, m in ms:
        yield case_encode(nm, ref.default(m))
    # lengths around the varint boundaries
    for n in (0, 1, 126, 127, 128, 129, 16382, 16383, 16384, 16385, 2097151, 2097152):
        yield case_encode('C.Leaf', set_field(MSG['C.Leaf'], 's', b'x' * n))
        yield case_encode('C.Leaf', set_field(MSG['C.Leaf'], 'b', b'\xff' * n))
        if n < 20000:
            for k in range(0, 5):
                yield case_encode('C.Mid', set_field(MSG['C.Mid'], 'leaf', set_field(MSG['C.Leaf'], 's', b'x' * max(0, n - k))))
                yield case_encode('C.Maps', set_field(MSG['C.Maps'], 'm_ss', {b'k' * max(0, n - k): b'v'}))
            yield case_encode('C.Cont', set_field(MSG['C.Cont'], 'pi', [1] * n))
            yield case_encode('C.Cont', set_field(MSG['C.Cont'], 'pi', [-1] * n))
            yield case_encode('C.Cont', set_field(MSG['C.Cont'], 'pbool', [1] * n))
            yield case_encode('C.Cont', set_field(MSG['C.Cont'], 'pd', [1] * (n // 8)))
    v = ref.default(MSG['C.Rec'])
    for i in range(12):
        v = dict(v=i, next=v, kids=[])
        yield case_encode('C.Rec', v)
    while True:
        nm, m = r.choice(big) if r.randrange(4) else r.choice(ms)
        yield case_encode(nm, rand_msg(r, m))


# ------------------------------------------------------------------ C05
def c05(r):
    ms = msgs(*ALLF)
    big = msgs('cont', 'lim', 'gen')
    # lengths that reach beyond the data, left over bytes
    for nm, m in big:
        for num, (o, i, f) in m.by_num().items():
            w = 2 if f.label in ('pack', 'map') else f.t.wt()
            if w != 2:
                continue
            for ln in (1, 2, 5, 127, 128, 1 << 14, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 63), (1 << 64) - 1):
                for pay in (b'', b'\1', b'\x08\x01', b'\x0a\x00'):
                    yield case_decode(nm, ref.tag(num, w) + ref.varint(ln) + pay, 'length %d' % ln)
    while True:
        nm, m = r.choice(big) if r.randrange(3) else r.choice(ms)
        b = ref.encode(m, rand_msg(r, m))
        if len(b) > 3000:
            continue
        k = r.randrange(6)
        if k == 0:
            b = b[:r.randrange(len(b) + 1)]
        elif k == 5:
            b = r.randbytes(r.randrange(40))
        else:
            b = mutate(r, b)
        yield case_decode(nm, b)
        if r.randrange(3) == 0:
            yield case_decode(nm, b, '', 'R', ','.join(map(str, chunkings(r, len(b)))))


# ------------------------------------------------------------------ C06
def c06(r):
    ms = msgs('cont', 'lim', 'gen', 'scal')
    for nm, m in ms:
        for n in (3000, 536870910):
            for w in range(8):
                for pay in (b'', b'\0', b'\1', b'\x80', b'\x80\1', b'\xff' * 9 + b'\1', b'\xff' * 10 + b'\1', b'\0' * 4, b'\0' * 8, b'\3abc', b'\3ab', b'\xff\xff\xff\xff\x0f'):
                    yield case_decode(nm, ref.tag(n, w) + pay, 'unknown field, wire type %d' % w)
                    yield case_decode(nm, ref.tag(n, w) + pay, 'unknown field, wire type %d' % w, 'R', '1')
    while True:
        nm, m = r.choice(ms)
        b = ref.encode(m, rand_msg(r, m))
        if len(b) > 3000:
            continue
        i = inject(r, m, b)
        a = expect_decode(m, b)
        e = expect_decode(m, i)
        if a is not None and e is not None and (a[0] != e[0] or a[2:] != e[2:]):
            raise AssertionError('generator')
        yield case_decode(nm, i, 'with unknown fields')
        if r.randrange(2):
            yield case_decode(nm, i, 'with unknown fields', 'R', ','.join(map(str, chunkings(r, len(i)))))
        x = b + unknown_field(r, m, True)
        yield case_decode(nm, x, 'bad unknown field')


# ------------------------------------------------------------------ C07
def c07(r):
    ms = msgs('cont', 'lim', 'gen', 'scal', 'bits')

    def pair(nm, b, ch, eof=None):
        script = ','.join(map(str, ch))
        cutb = b
        if eof is not None:
            # end of data is reported after the given calls
            n = 0
            for c in ch:
                if c == 0:
                    break
                n += c
            cutb = b

        def judge(rp):
            return None if rp[0] == rp[1] else 'reader gives %s, buffer gives %s' % (rp[1][:300], rp[0][:300])
        return Case([('D', nm, cutb.hex(), ''), ('R', nm, b.hex(), script)], judge, 'reader chunks ' + script)

    def eof_case(nm, m, b):
        # a script of 1 byte calls, then end of data: equals the truncated buffer, as long as nothing asks beyond the script
        k = r.randrange(len(b) + 1)
        script = ','.join(['1'] * k + ['0'])

        def judge(rp):
            return None if rp[0] == rp[1] else 'reader with %d bytes gives %s, the truncated buffer %s' % (k, rp[1][:300], rp[0][:300])
        return Case([('D', nm, b[:k].hex(), ''), ('R', nm, b.hex(), script)], judge, 'end of data after %d bytes' % k)

    def throw_case(nm, m, b):
        k = r.randrange(max(1, len(b)))
        script = ','.join(['1'] * k + ['-1'])

        def judge(rp):
            # the exception of the reader has to come out unless decoding failed before
            if rp[1] == '!user':
                return None
            if rp[1] == '!' and rp[0] == '!':
                return None
            return 'the reader threw at call %d, the caller saw %s' % (k, rp[1][:200])
        return Case([('D', nm, b.hex(), ''), ('R', nm, b.hex(), script)], judge, 'reader throws at call %d' % k)

    def writer(nm, m, v, k):
        def judge(rp):
            if rp[0] == '!user':
                return None
            n = len(ref.encode(m, v))
            if k == 0 and n > 0:
                return 'the exception of the writer was lost: ' + rp[0]
            if rp[0].isdigit():
                return None
            return 'writer throws: ' + rp[0]
        return Case([('W', nm, ref.text(m, v), str(k))], judge, 'writer throws at call %d' % k)
    for n in (0, 1, 254, 255, 256, 257, 511, 512, 513, 600, 1000, 5000):
        for ch in ([1], [2], [3], [255], [256], [257], [100000], [1, 255], [250, 5]):
            yield pair('C.Leaf', ref.encode(MSG['C.Leaf'], set_field(MSG['C.Leaf'], 's', b'x' * n)), ch)
            yield pair('C.Leaf', ref.encode(MSG['C.Leaf'], set_field(MSG['C.Leaf'], 's', ('ž' * n).encode())), ch)
            yield pair('C.Leaf', ref.encode(MSG['C.Leaf'], set_field(MSG['C.Leaf'], 'b', bytes(i & 255 for i in range(n)))), ch)
            yield pair('C.Leaf', ref.tag(99, 2) + ref.varint(n) + b'y' * n + b'\x08\x05', ch)
    while True:
        nm, m = r.choice(ms)
        v = rand_msg(r, m)
        b = ref.encode(m, v)
        yield case_encode(nm, v)
        if len(b) < 4000:
            yield pair(nm, b, chunkings(r, len(b)))
            bad = mutate(r, b)
            yield pair(nm, bad, chunkings(r, len(b)))
        if len(b) < 400:
            yield eof_case(nm, m, b)
            if b:
                yield throw_case(nm, m, b)
        try:
            yield writer(nm, m, v, r.choice([0, 0, 1, 2, 5]))
        except Invalid:
            pass


# ------------------------------------------------------------------ C08
def c08(r):
    ms = msgs('cont', 'gen', 'scal')

    def good(nm, m, v, tail):
        b = ref.encode(m, v)
        d = ref.varint(len(b)) + b
        want = 'ok %d %s' % (len(d), ref.text(m, v))

        def judge(rp):
            for x in rp[:1]:
                if x != want:
                    return 'delimited buffer has to give %s, got %s' % (want[:300], x[:300])
            w, at = rp[1].split(' @')
            if w != want:
                return 'delimited reader has to give %s, got %s' % (want[:300], w[:300])
            if int(at) != len(d):
                return 'delimited reader took %s bytes of the stream, the message has %d' % (at, len(d))
            return None
        return Case([('DD', nm, (d + tail).hex(), ''), ('RD', nm, (d + tail).hex(), ','.join(map(str, chunkings(r, len(d)))))], judge, 'tail of %d bytes' % len(tail))

    def cut(nm, m, b, k):
        d = ref.varint(len(b)) + b

        def judge(rp):
            if rp[0] != '!':
                return 'a prefix announcing more bytes than the buffer holds has to throw, got ' + rp[0][:200]
            if not rp[1].startswith('! '):
                return 'a stream that ends inside of the message has to throw, got ' + rp[1][:200]
            return None
        return Case([('DD', nm, d[:k].hex(), ''), ('RD', nm, d[:k].hex(), str(r.choice([1, 2, 300])))], judge, 'cut at %d of %d' % (k, len(d)))

    def stream(nm, m):
        vs = [rand_msg(r, m, p=.3) for _ in range(r.randrange(1, 6))]
        bs = [ref.encode(m, v) for v in vs]
        d = b''.join(ref.varint(len(b)) + b for b in bs)
        want = ''.join('ok %d %s|' % (len(b) + len(ref.varint(len(b))), ref.text(m, v)) for b, v in zip(bs, vs))
        ch = ','.join(map(str, chunkings(r, len(d))))
        return Case([('S', nm, d.hex(), ch)], lambda rp: None if rp[0] == want else 'stream gives %s, expected %s' % (rp[0][:400], want[:400]), 'stream of %d messages' % len(vs))
    for nm, m in msgs('cont', 'gen'):
        for t in (b'', b'\0', b'\xff' * 20):
            yield good(nm, m, ref.default(m), t)
    yield Case([('DD', 'C.Empty', '', ''), ('RD', 'C.Empty', '', '')],
               lambda rp: None if rp[0] == '!' and rp[1].startswith('!') else 'no prefix has to throw, got %s' % rp, 'empty input')
    for n in (120, 125, 126, 127, 128, 250, 251, 252, 253, 254, 255, 256, 257, 300, 16381, 16382, 16384, 16386):
        for t in (b'', b'\1', b'z' * 300):
            yield good('C.Leaf', MSG['C.Leaf'], set_field(MSG['C.Leaf'], 's', b'q' * n), t)
    for big in (1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63), (1 << 64) - 1):
        yield Case([('DD', 'C.Leaf', (ref.varint(big) + b'\x08\1').hex(), '')], lambda rp: None if rp[0] == '!' else 'has to throw', 'huge prefix')
    while True:
        nm, m = r.choice(ms)
        v = rand_msg(r, m)
        b = ref.encode(m, v)
        yield case_encode(nm, v)
        yield good(nm, m, v, r.choice([b'', b'\0', r.randbytes(r.randrange(1, 400))]))
        yield stream(nm, m)
        if b:
            d = ref.varint(len(b)) + b
            yield cut(nm, m, b, r.randrange(len(d)))


# ------------------------------------------------------------------ C09
def c09(r):
    def payloads(t, w):
        if w == 0:
            return [b'\0', b'\1', b'\x96\1']
        if w == 1:
            return [b'\0' * 8, b'\1' * 8]
        if w == 5:
            return [b'\0' * 4, b'\1' * 4]
        if w == 2:
            return [b'\0', b'\1\0', b'\4\0\0\0\0', b'\x08' + b'\0' * 8, b'\2\x08\1']
        return [b'', b'\0', b'\x0b\x0c']
    cases = []
    for nm, m in msgs(*ALLF):
        for num, (o, i, f) in m.by_num().items():
            right = 2 if f.label in ('pack', 'map') else f.t.wt()
            for w in range(8):
                if w == right:
                    continue
                for pay in payloads(f.t, w):
                    cases.append((nm, ref.tag(num, w) + pay, 'field %d (%s) with wire type %d' % (num, f.name, w)))
            if f.label == 'map':
                for kw in range(8):
                    for vw in range(8):
                        if kw != f.key.wt() or vw != f.t.wt():
                            e = ref.tag(1, kw) + payloads(f.key, kw)[0] + ref.tag(2, vw) + payloads(f.t, vw)[0]
                            cases.append((nm, ref.tag(num, 2) + ref.varint(len(e)) + e, 'map entry key %d value %d' % (kw, vw)))
    for nm, b, note in cases:
        yield case_decode(nm, b, note)
    for nm, b, note in cases:
        # behind a good message
        m = MSG[nm]
        for _ in range(2):
            g = ref.encode(m, rand_msg(r, m))
            if len(g) < 500:
                yield case_decode(nm, g + b, note)
                yield case_decode(nm, g + b, note, 'R', '3')


# ------------------------------------------------------------------ C10
def c10(r):
    ms = msgs('cont')
    # presence of empty and zero values
    for nm, m in ms:
        for f in m.fields:
            if isinstance(f, F) and f.fixed:
                yield from roundtrip_cases(nm, set_field(m, f.name, [rand_val(r, f.t) for _ in range(f.fixed)]))
            elif isinstance(f, Oneof):
                for i, x in enumerate(f.fields):
                    yield from roundtrip_cases(nm, set_field(m, f.name, (i + 1, ref.zero(x.t))))
                    for j, y in enumerate(f.fields):
                        if i != j:
                            b = ref.tag(x.num, x.t.wt()) + ref.enc_val(x.t, rand_val(r, x.t)) + ref.tag(y.num, y.t.wt()) + ref.enc_val(y.t, rand_val(r, y.t))
                            yield case_decode(nm, b, 'oneof: the later member wins')
            elif f.label in ('rep', 'pack') and not f.fixed:
                for n in (0, 1, 2, 3, 64, 65):
                    yield from roundtrip_cases(nm, set_field(m, f.name, [ref.zero(f.t)] * n))
                    yield from roundtrip_cases(nm, set_field(m, f.name, [rand_val(r, f.t) for _ in range(n)]))
            elif f.label == 'map':
                yield from roundtrip_cases(nm, set_field(m, f.name, {ref.zero(f.key): ref.zero(f.t)}))
            else:
                yield from roundtrip_cases(nm, set_field(m, f.name, ref.zero(f.t)))
    while True:
        nm, m = r.choice(ms)
        v = rand_msg(r, m)
        yield from roundtrip_cases(nm, v)
        # duplicates: two encodings behind one another, shuffled on field level
        a = split(ref.encode(m, v)) + split(ref.encode(m, rand_msg(r, m)))
        r.shuffle(a)
        yield case_decode(nm, b''.join(x[3] for x in a), 'duplicated fields')
        # only scalar / string / map duplicates (not judged for merged messages)
        by = m.by_num()
        a = [x for x in a if by[x[0]][2].t.kind != 'msg' or by[x[0]][2].label in ('rep', 'map')]
        b = b''.join(x[3] for x in a)
        yield case_decode(nm, b, 'duplicated fields')


# ------------------------------------------------------------------ C11
def c11(r):
    L, LC = 'L.Lim', 'L.LimC'

    def both(nm, v, good):
        m = MSG[nm]
        if good:
            yield case_encode(nm, v)
            yield case_json_value(nm, v)
            if not any(isinstance(f, F) and f.fixed and f.t.kind in ('string', 'bytes') for f in m.fields):
                pass
        else:
            yield case_encode_throws(nm, v, 'over the limit')
            yield case_encode_throws(nm, v, 'over the limit', True)
        yield case_decode(nm, ref.encode(m, v))
        yield case_json_text(nm, to_json(m, v), ('ok', v) if good else ('throw',))
    while True:
        for nm in (L,):
            m = MSG[nm]
            for f in m.fields:
                for n in range(0, f.max_size + 4):
                    v = ref.default(m)
                    s = fixed_str(r, n) if f.t.kind == 'string' else r.randbytes(n)
                    v[f.name] = s
                    yield from both(nm, v, n <= f.max_size)
        m = MSG[LC]
        for f in m.fields:
            for n in range(0, f.max_count + 4):
                v = ref.default(m)
                v[f.name] = [rand_val(r, f.t, f, 3, True) for _ in range(n)]
                if f.t.kind == 'enum':
                    v[f.name] = [r.choice(list(f.t.ref.vals.values())) for _ in range(n)]
                yield from both(LC, v, n <= f.max_count)
            if f.max_size:
                for n in range(0, f.max_size + 3):
                    v = ref.default(m)
                    v[f.name] = [fixed_str(r, n) if f.t.kind == 'string' else r.randbytes(n)]
                    yield from both(LC, v, n <= f.max_size)
            if f.label == 'pack':
                # two packed chunks together over the limit
                for a in range(f.max_count + 2):
                    for b in range(f.max_count + 2):
                        x = [rand_scalar(r, f.t, True) for _ in range(a + b)]
                        p1 = b''.join(ref.enc_scalar(f.t, y) for y in x[:a])
                        p2 = b''.join(ref.enc_scalar(f.t, y) for y in x[a:])
                        yield case_decode(LC, ref.tag(f.num, 2) + ref.varint(len(p1)) + p1 + ref.tag(f.num, 2) + ref.varint(len(p2)) + p2, 'two packed parts')
        # fixed sizes
        for nm in ('L.Fix', 'L.FixS', 'L.FixB'):
            m = MSG[nm]
            for f in m.fields:
                for n in range(0, f.fixed + 4):
                    s = fixed_str(r, n) if f.t.kind == 'string' else r.randbytes(n)
                    yield case_decode(nm, ref.tag(f.num, 2) + ref.varint(n) + s, 'fixed size')
                    j = s.decode() if f.t.kind == 'string' else base64.b64encode(s).decode()
                    tx = json.dumps({f.name: j}, ensure_ascii=bool(r.randrange(2)))
                    yield case_json_text(nm, tx, ('ok', set_field(m, f.name, s)) if n == f.fixed else ('throw',))
                v = set_field(m, f.name, fixed_str(r, f.fixed) if f.t.kind == 'string' else r.randbytes(f.fixed))
                yield case_encode(nm, v)
                yield case_json_value(nm, v)
        m = MSG['L.FixA']
        for f in m.fields:
            for n in range(0, f.fixed + 3):
                x = [rand_scalar(r, f.t, True) for _ in range(n)]
                p = b''.join(ref.enc_scalar(f.t, y) for y in x)
                yield case_decode('L.FixA', ref.tag(f.num, 2) + ref.varint(len(p)) + p, 'fixed count')
                yield case_json_text('L.FixA', '{"%s":[%s]}' % (f.name, ','.join(json_scalar(f.t, y) for y in x)),
                                     ('ok', set_field(m, f.name, x)) if n == f.fixed else ('throw',))
        nm, m = r.choice(msgs('lim'))
        v = rand_msg(r, m, finite=True)
        yield case_encode(nm, v)
        yield case_json_value(nm, v)
        yield case_json_text(nm, to_json(m, v), ('ok', v))


# ------------------------------------------------------------------ JSON helpers
def json_scalar(t, v):
    if t.kind == 'bool':
        return 'true' if v else 'false'
    if t.kind == 'enum':
        for n, x in t.ref.vals.items():
            if x == v:
                return '"%s"' % n
        raise Unspec('enum without a name')
    if t.kind == 'float':
        return repr(struct.unpack('<f', struct.pack('<I', v))[0])
    if t.kind == 'double':
        return repr(struct.unpack('<d', struct.pack('<Q', v))[0])
    return str(v)


def json_val(t, v, r=None, ws=None):
    if t.kind == 'msg':
        return to_json(t.ref, v, r, ws)
    if t.kind == 'string':
        s = v.decode()
        if r is not None and r.randrange(2):
            return rand_escape(r, s)
        return json.dumps(s, ensure_ascii=not r or bool(r.randrange(2)))
    if t.kind == 'bytes':
        return '"%s"' % base64.b64encode(v).decode()
    s = json_scalar(t, v)
    return s


def rand_escape(r, s):
    o = '"'
    for c in s:
        k = r.randrange(3)
        n = ord(c)
        if k == 0 or n < 0x20 or c in '"\\':
            sh = {'"': '\\"', '\\': '\\\\', '/': '\\/', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
            if c in sh and r.randrange(2):
                o += sh[c]
            else:
                u = c.encode('utf-16-be')
                for i in range(0, len(u), 2):
                    h = '%04x' % (u[i] << 8 | u[i + 1])
                    o += '\\u' + ''.join(x.upper() if r.randrange(2) else x for x in h)
        else:
            o += c
    return o + '"'


def W(r, ws):
    if not ws:
        return ''
    return ''.join(r.choice(' \t\n\r') for _ in range(r.choice([0, 0, 1, 2, 9])))


def json_key(r, f, any_name=False):
    n = f.json_name()
    if any_name and r is not None and r.randrange(2):
        n = f.name
    return n


def to_json(m, v, r=None, ws=None, extra=None, shuffle=False):
    """JSON text of a value, following the proto3 JSON mapping (unset members left out)"""
    ps = []
    def w():
        return W(r, ws) if r else ''
    for f in m.fields:
        x = v[f.name]
        if isinstance(f, Oneof):
            if x[0]:
                g = f.fields[x[0] - 1]
                ps.append((json_key(r, g, True), json_val(g.t, x[1], r, ws)))
        elif f.label in ('opt', 'ptr'):
            if x is not None:
                ps.append((json_key(r, f, True), json_val(f.t, x, r, ws)))
        elif f.label in ('rep', 'pack'):
            if x:
                ps.append((json_key(r, f, True), '[' + w() + (w() + ',' + w()).join(json_val(f.t, y, r, ws) for y in x) + w() + ']'))
        elif f.label == 'map':
            if x:
                es = []
                for k, y in x.items():
                    kk = json_val(f.key, k)
                    if not kk.startswith('"'):
                        kk = '"%s"' % kk
                    es.append(kk + w() + ':' + w() + json_val(f.t, y, r, ws))
                ps.append((json_key(r, f, True), '{' + w() + (w() + ',' + w()).join(es) + w() + '}'))
        else:
            ps.append((json_key(r, f, True), json_val(f.t, x, r, ws)))
    if extra:
        for e in extra:
            ps.insert(r.randrange(len(ps) + 1), e)
    if shuffle:
        r.shuffle(ps)
    return '{' + w() + (w() + ',' + w()).join('"%s"%s:%s%s' % (k, w(), w(), x) for k, x in ps) + w() + '}'


def norm_json(m, v):
    return v


def judge_json_out(m, v, rep):
    p = rep.split(' ')
    if len(p) != 4:
        return 'bad reply ' + rep
    if any(x.startswith('?') for x in p):
        return 'serializations differ or return a wrong size: ' + rep[:400]
    if any(x.startswith('!') for x in p):
        return 'serialization threw: ' + rep[:400]
    b = bytes.fromhex(p[1][1:])
    if int(p[0]) != len(b):
        return 'predicted size %s, written %d' % (p[0], len(b))
    try:
        j = ref.strict_loads(b)
        got = ref.from_json(m, j)
    except (NotJson, Invalid, ValueError, KeyError, TypeError) as e:
        return 'output is not the JSON of the message (%s): %r' % (e, b[:500])
    if got != v:
        return 'output %r stands for %s, the message is %s' % (b[:400], ref.text(m, got)[:300], ref.text(m, v)[:300])
    return None


def case_json_value(nm, v, note=''):
    """output is right and reads back"""
    m = MSG[nm]
    return Case([('F', nm, ref.text(m, v), '')], lambda rp: judge_json_out(m, v, rp[0]), note)


def case_json_text(nm, tx, exp, note='', op='J', args=''):
    b = tx if isinstance(tx, bytes) else tx.encode('utf-8', 'surrogatepass')
    m = MSG[nm]
    if exp is None:
        return Case([(op, nm, b.hex(), args)], lambda rp: None, note)
    want = '!' if exp[0] == 'throw' else 'ok %d %s' % (exp[2] if len(exp) > 2 else len(b), ref.text(m, exp[1]))
    return Case([(op, nm, b.hex(), args)],
                lambda rp: None if rp[0] == want else 'JSON %r has to give %s, got %s' % (b[:400], 'an exception' if want == '!' else want[:400], rp[0][:400]), note)


def has_name(m, v):
    """all enum values have a name and floats are finite"""
    try:
        to_json(m, v)
        return True
    except Unspec:
        return False


# ------------------------------------------------------------------ C12
BADU = [b'\x80', b'\xbf', b'\xc0\x80', b'\xc1\xbf', b'\xc2', b'\xc2\x41', b'\xe0\x80\x80', b'\xe0\x9f\xbf', b'\xe1\x80', b'\xe1\x80\x41', b'\xed\xa0\x80', b'\xed\xbf\xbf',
        b'\xef\xbf', b'\xf0\x80\x80\x80', b'\xf0\x8f\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xff', b'\xfe', b'\xf1\x80\x80',
        b'\xf1\x80\x80\x41', b'\xf7\xbf\xbf\xbf']


def is_utf8(s):
    try:
        s.decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


def c12(r):
    def cases(s):
        good = is_utf8(s)
        pos = [('C.Leaf', 's', s), ('C.Leaf', 'rs', [b'ok', s]), ('C.Maps', 'm_ss', {s: b'v'}), ('C.Maps', 'm_ss', {b'k': s}), ('C.One', 'o', (2, s)), ('C.Cont', 'rqs', s)]
        for nm, f, x in r.sample(pos, 3):
            m = MSG[nm]
            v = set_field(m, f, x)
            if good:
                yield case_encode(nm, v)
                yield case_json_value(nm, v)
            else:
                yield case_encode_throws(nm, v, 'not UTF-8')
                yield case_encode_throws(nm, v, 'not UTF-8', True)
            b = ref.encode(m, v)
            yield case_decode(nm, b)
            yield case_decode(nm, b, '', 'R', r.choice(['1', '3', '255', '999']))
            # raw text in JSON: only characters that need no escape
            if not any(c < 0x20 or c in b'"\\' for c in s):
                q = b'"' + s + b'"'
                tx = {'s': b'{"s":%s}', 'rs': b'{"rs":["ok",%s]}', 'o': b'{"os":%s}', 'rqs': b'{"rqs":%s}'}.get(f)
                if f == 'm_ss':
                    tx = b'{"m_ss":{%s:"v"}}' if x == {s: b'v'} else b'{"m_ss":{"k":%s}}'
                tx = tx % q
                yield case_json_text(nm, tx, ('ok', v) if good else ('throw',))
                yield case_json_text(nm, tx, ('ok', v) if good else ('throw',), '', 'K', r.choice(['1', '3', '255', '999']))
    for b in BADU:
        for pre in list(range(0, 18)) + [31, 32, 63, 64, 255, 256]:
            yield from cases(b'a' * pre + b)
            yield from cases(b'a' * pre + b + b'zzzzzzzzz')
            yield from cases('ž'.encode() * pre + b + b'z')
    for cp in [0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]:
        c = chr(cp).encode()
        for pre in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16):
            for post in (0, 1, 3, 8):
                yield from cases(b'a' * pre + c + b'b' * post)
                for k in range(1, len(c)):
                    yield from cases(b'a' * pre + c[:k] + b'b' * post)
    while True:
        k = r.randrange(4)
        s = rand_str(r)
        if k == 1:
            s = mutate(r, s)
        elif k == 2:
            s = bytes(r.choice([0x41, 0x80, 0xbf, 0xc2, 0xdf, 0xe0, 0xa0, 0x9f, 0xed, 0xef, 0xf0, 0x90, 0x8f, 0xf4, 0xf3, 0xf5, 0xff]) for _ in range(r.randrange(1, 12)))
        elif k == 3:
            s = r.randbytes(r.randrange(6))
        if len(s) < 2000:
            yield from cases(s)


# ------------------------------------------------------------------ C13
def json_string_ref(tx):
    """('ok', text) / ('throw',) for the text of a JSON string token"""
    try:
        s = json.loads(tx)
        if not isinstance(s, str):
            return ('throw',)
        return ('ok', s.encode('utf-8'))
    except (ValueError, UnicodeError):
        return ('throw',)


def is_token(b):
    """no quote ends the string before the last character"""
    i = 1
    while i < len(b):
        if b[i:i + 1] == b'\\':
            i += 2
        elif b[i:i + 1] == b'"':
            return i >= len(b) - 1
        else:
            i += 1
    return True


def c13(r):
    nm, m = 'C.Leaf', MSG['C.Leaf']

    def string(tok):
        b = tok if isinstance(tok, bytes) else tok.encode('utf-8', 'surrogatepass')
        try:
            e = json_string_ref(b.decode('utf-8'))
        except UnicodeDecodeError:
            e = ('throw',)
        if any(c < 0x20 for c in b) and e[0] == 'throw':
            e = None        # raw control characters: not judged
        if e is not None and e[0] == 'throw' and b'}' in b and not is_token(b):
            e = None        # the text may close the message inside of the "token": what follows the message is not read
        tx = b'{"s":' + b + b'}'
        exp = None if e is None else (('ok', set_field(m, 's', e[1])) if e[0] == 'ok' else ('throw',))
        yield case_json_text(nm, tx, exp)
        yield case_json_text(nm, tx, exp, '', 'K', r.choice(['1', '2', '7', '250', '1000']))
        # as map key and value, and repeated element
        if r.randrange(4) == 0:
            mm = MSG['C.Maps']
            exp2 = None if e is None else (('ok', set_field(mm, 'm_ss', {e[1]: b'v'})) if e[0] == 'ok' else ('throw',))
            yield case_json_text('C.Maps', b'{"m_ss":{' + b + b':"v"}}', exp2)
            exp2 = None if e is None else (('ok', set_field(m, 'rs', [b'a', e[1], b''])) if e[0] == 'ok' else ('throw',))
            yield case_json_text(nm, b'{"rs":["a",' + b + b',""]}', exp2)
    for c in range(0, 256):
        yield from string('"\\' + chr(c) + '"')
    for a in range(0, 0x800):
        s = chr(a).encode()
        yield case_json_value(nm, set_field(m, 's', s))
    for h in ['0000', '001f', '0022', '005c', '007f', '0080', '07ff', '0800', 'd7ff', 'D800', 'dbff', 'dc00', 'DFFF', 'e000', 'fffd', 'ffff', '12', '123', '', 'g000', '0g00', '00g0', '000g', '-123',
              '+123', ' 123', '0x12', '12 3', 'd83d\\ude00', 'D83D\\uDE00', 'd83d\\u0041', 'd83d', 'd83dx', 'd83d\\n', 'd83d\\', 'd83d\\u', 'd83d\\ude', 'd83d\\udbff', 'dbff\\udfff', 'd800\\udc00',
              'dc00\\ud800', 'd83d\\ude00\\ude00', 'd83d\\ud83d\\ude00']:
        for pre in ('', 'a', 'abc', 'ž', 'x' * 250, 'x' * 251, 'x' * 252, 'x' * 253, 'x' * 254, 'x' * 255, 'x' * 256, 'y' * 510):
            yield from string('"%s\\u%s"' % (pre, h))
            yield from string('"%s\\u%sz"' % (pre, h))
    for t in ['', '"', '"a', '"a\\', '"a\\"', '"\\', '"\\u', '"\\u1', '"\\u12', '"\\u123', '"\\u1234', "'a'", 'a"', '""""', '"a"b"', '"\x7f"', '"\\x41"', '"\\0"', '"\\1"', '"\\U0041"', '"\\a"', '"\\v"', '"\\e"',
              '"\\\'"', '"\\ "', '"a\\\\"', '"a\\\\\\"']:
        yield from string(t)
    while True:
        s = rand_str(r)
        yield case_json_value(nm, set_field(m, 's', s))
        yield case_json_value('C.Maps', set_field(MSG['C.Maps'], 'm_ss', {s: s, b'q': b''}))
        t = rand_escape(r, s.decode())
        yield from string(t)
        b = t.encode()
        k = r.randrange(1, len(b) + 1)
        if r.randrange(2):
            b2 = b[:k]
        else:
            b2 = b[:k - 1] + bytes([r.choice(b'\\"u0dDfFgx')]) + b[k:]
        yield from string(b2)


# ------------------------------------------------------------------ C14
B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def b64_ref(s):
    """strict padded base64; None when the document leaves it open (non zero trailing bits)"""
    if len(s) % 4:
        return ('throw',)
    core = s.rstrip(b'=')
    pad = len(s) - len(core)
    if pad > 2 or any(c not in B64 for c in core):
        return ('throw',)
    if pad:
        last = B64.index(core[-1])
        if last & (15 if pad == 2 else 3):
            return None
    return ('ok', base64.b64decode(s))


def c14(r):
    nm, m = 'C.Leaf', MSG['C.Leaf']

    def text(s):
        e = b64_ref(s)
        if b'"' in s or b'\\' in s or any(c < 0x20 for c in s):
            e = ('throw',) if b'\\' not in s else None
            if b'"' in s:
                e = None
        tx = b'{"b":"' + s + b'"}'
        exp = None if e is None else (('ok', set_field(m, 'b', e[1])) if e[0] == 'ok' else ('throw',))
        yield case_json_text(nm, tx, exp)
        yield case_json_text(nm, tx, exp, '', 'K', r.choice(['1', '2', '5', '253', '1000']))
    for n in list(range(0, 20)) + [186, 187, 188, 189, 190, 191, 192, 193, 194, 250, 255, 256, 257, 380, 385, 600]:
        for b in (b'\0' * n, b'\xff' * n, bytes((i * 37 + 11) & 255 for i in range(n)), r.randbytes(n)):
            yield case_json_value(nm, set_field(m, 'b', b))
            yield case_json_value('C.Cont', set_field(MSG['C.Cont'], 'rb', [b, b'', b]))
            yield from text(base64.b64encode(b))
    for c in range(256):
        for i in range(4):
            s = bytearray(b'QUJD')
            s[i] = c
            yield from text(bytes(s))
            s = bytearray(b'QUJDQUJD')
            s[i] = c
            yield from text(bytes(s))
            s = bytearray(b'QUJDQUJD')
            s[4 + i] = c
            yield from text(bytes(s))
    for s in [b'=', b'==', b'===', b'====', b'A', b'AA', b'AAA', b'A=', b'A==', b'A===', b'AA=', b'AA==', b'AAA=', b'=AAA', b'A=AA', b'AA=A', b'AA==AAAA', b'AAA=AAAA', b'AAAA=', b'AAAA==', b'AAAA===',
              b'AAAA====', b'-_-_', b'AA A', b'AAAA ', b' AAAA', b'AA==\n', b'QQ', b'QUI', b'QUJDRA']:
        yield from text(s)
    for t in ['"', '"A', '"AAAA', '"AA==', '', 'null1', '12', '{', '[]', 'AAAA', '"AAAA\\"']:
        yield case_json_text(nm, '{"b":' + t, ('throw',))
        yield case_json_text(nm, '{"b":' + t, ('throw',), '', 'K', '1')
    for n in range(0, 8):
        b = r.randbytes(n)
        yield case_json_text('L.FixB', '{"b":"%s"}' % base64.b64encode(b).decode(), ('ok', {'b': b}) if n == 3 else ('throw',))
    while True:
        b = rand_bytes(r)
        yield case_json_value(nm, set_field(m, 'b', b))
        s = base64.b64encode(b)
        yield from text(s)
        if s:
            k = r.randrange(4)
            i = r.randrange(len(s))
            if k == 0:
                s = s[:i]
            elif k == 1:
                s = s[:i] + bytes([r.randrange(0x20, 0x100)]) + s[i + 1:]
            elif k == 2:
                s = s[:i] + b'=' + s[i:]
            else:
                s = s[:i] + s[i + 1:]
            if b'"' not in s and b'\\' not in s:
                yield from text(s)


# ------------------------------------------------------------------ C15
def c15(r):
    ms = [(n, m) for n, m in msgs('scal', 'scal2', 'scal3', 'bits') if m.fields[0].t.kind not in ('float', 'double')]
    for nm, m in ms:
        t = m.fields[0].t
        for f in m.fields[:5]:
            for x in edge_vals(f.t) if f.t.kind != 'enum' else f.t.ref.vals.values():
                y = [x] * (f.fixed or 2) if f.label in ('rep', 'pack') else x
                v = set_field(m, f.name, y)
                if not has_name(m, v):
                    base = ref.default(m)
                    continue
                yield case_json_value(nm, v)
                yield case_json_text(nm, to_json(m, v), ('ok', v))
    # bool and enum tokens, numbers with junk
    def bad(nm, name, tx):
        return [case_json_text(nm, '{"%s":%s}' % (name, tx), ('throw',), 'bad token'),
                case_json_text(nm, '{"%s":%s}' % (name, tx), ('throw',), 'bad token', 'K', r.choice(['1', '2', '300']))]
    for t in ['True', 'TRUE', 'tru', 'truee', 'true1', 'truefalse', 'fals', 'falsey', 'f', 't', '1', '0', '"true"', '2', '-1', '[]', '{}', '"x"', 'yes', ',', '', 'nul', '""', 'true"', 'tr ue']:
        yield from bad('S.Kb', 'r', t)
        yield from bad('S.Kb', 'o', t)
        yield from bad('S.Kb', 'u', '[%s]' % t if t != '' else '[,]')
    for t in ['"C"', '"a"', '"AB"', '"A "', '" A"', '"AA"', '""', '"', 'A', '"LongNam"', '"LongNameX"', '"longName"', '"A', 'true', '[]', '{}', '"BA"', '"\\u"']:
        yield from bad('S.Ke32', 'r', t)
        yield from bad('S.Ke32', 'o', t)
    for n, x in specimen.E32.vals.items():
        yield case_json_text('S.Ke32', '{"r":"%s"}' % n, ('ok', set_field(MSG['S.Ke32'], 'r', x)))
        yield case_json_text('S.Ke32', '{"r": "%s" , "o" :"%s"}' % (n, n), ('ok', dict(ref.default(MSG['S.Ke32']), r=x, o=x)))
    junk = ['12a', '1x', '0x10', '1_000', '1 2', '--1', '+', '-', 'a', '""', '"', '"1', '1"', '"1a"', '"a"', '" "', '1:2', '[1]', '{}', 'true', 'e5', '.', '-a', 'NaN', 'Infinity', '1,', '1 1', '"1" 2', '1[', '1}', '"1"1', '1"1"']
    for nm, m in ms:
        if m.fields[0].t.kind in ('bool', 'enum'):
            continue
        for t in junk:
            if t == '1}':
                continue
            yield from bad(nm, m.fields[0].name, t)
        lo, hi = ref.rng(m.fields[0].t)
        for x in (lo - 1, hi + 1, lo * 10 - 1, hi * 10 + 1, 1 << 64, -(1 << 64), -(1 << 63) - 1, 1 << 63 if hi < 1 << 63 else 1 << 64, 10 ** 25, -10 ** 25, 10 ** 30):
            if not lo <= x <= hi:
                yield from bad(nm, m.fields[0].name, str(x))
    while True:
        nm, m = r.choice(ms)
        v = rand_msg(r, m, finite=True)
        yield case_json_value(nm, v)
        yield case_json_text(nm, to_json(m, v, r, True), ('ok', v))
        f = r.choice(m.fields)
        if f.t.kind not in ('bool', 'enum'):
            lo, hi = ref.rng(f.t)
            x = rand_int(r, -(1 << 70), 1 << 70)
            yield case_json_int(nm, m, f, x)
            if f.label == 'req':
                yield case_json_int(nm, m, f, x, True)


# ------------------------------------------------------------------ C16
TOK = None


def tokens(tx):
    """JSON tokens of a valid text"""
    out = []
    i = 0
    while i < len(tx):
        c = tx[i]
        if c in '{}[],:':
            out.append(c)
            i += 1
        elif c == '"':
            j = i + 1
            while tx[j] != '"':
                j += 2 if tx[j] == '\\' else 1
            out.append(tx[i:j + 1])
            i = j + 1
        elif c in ' \t\r\n':
            i += 1
        else:
            j = i
            while j < len(tx) and tx[j] not in '{}[],: \t\r\n"':
                j += 1
            out.append(tx[i:j])
            i = j
    return out


def prefix_valid(tx):
    """a valid JSON value is a prefix of the text (what follows is not judged)"""
    try:
        json.JSONDecoder(strict=True).raw_decode(tx.lstrip(' \t\r\n'))
        return True
    except (ValueError, RecursionError):
        return False


def c16(r):
    ms = msgs('cont', 'gen', 'lim')

    def broken(nm, tx, note):
        if prefix_valid(tx) or prefix_loose(tx):
            return
        yield case_json_text(nm, tx, ('throw',), note)
        if r.randrange(3) == 0:
            yield case_json_text(nm, tx, ('throw',), note, 'K', r.choice(['1', '3', '17', '255', '256']))

    def all_breaks(nm, m, v):
        tk = tokens(to_json(m, v))
        for i, t in enumerate(tk):
            if t in '{}[],:':
                yield from broken(nm, ''.join(tk[:i] + tk[i + 1:]), 'token %d %s removed' % (i, t))
                for c in '{}[],:"':
                    if c != t:
                        yield from broken(nm, ''.join(tk[:i] + [c] + tk[i + 1:]), 'token %d %s replaced by %s' % (i, t, c))
            elif t.startswith('"'):
                yield from broken(nm, ''.join(tk[:i] + [t[1:]] + tk[i + 1:]), 'opening quote removed')
                yield from broken(nm, ''.join(tk[:i] + [t[:-1]] + tk[i + 1:]), 'closing quote removed')
            for c in '{}[],:"':
                yield from broken(nm, ''.join(tk[:i] + [c] + tk[i:]), '%s inserted at token %d' % (c, i))
    for nm, m in ms:
        yield case_json_value(nm, ref.default(m)) if has_name(m, ref.default(m)) else case_json_text(nm, '{}', None)
        for t in ('{}', ' {}', '{ }', '\n\t{ \r\n}', '{}'):
            yield case_json_text(nm, t, ('ok', load_default(m)))
        for t in ('', ' ', '{', '}', '[', '[]', '"', '""', '1', '{"', '{"a', '{"a"', '{"a":', '{"a":1', '{"a":1,', '{"a":1,}', '{,}', '{"a" 1}', '{"a":,}', '{:1}', '{"a"::1}', '{"a":1 "b":2}', '{a:1}', '{1:1}',
                  '{"a":1,,"b":2}', '{"a":1]', 'tru', '{\'a\':1}', '{"a":1;}', '{"a"=1}'):
            yield case_json_text(nm, t, ('throw',), 'broken text')
            yield case_json_text(nm, t, ('throw',), 'broken text', 'K', '1')
    for _ in range(40):
        for nm, m in ms:
            v = rand_msg(r, m, finite=True, p=.4)
            tx = to_json(m, v)
            if len(tx) < 260:
                yield from all_breaks(nm, m, v)
    while True:
        nm, m = r.choice(ms)
        v = rand_msg(r, m, finite=True)
        yield case_json_value(nm, v)
        tx = to_json(m, v, r, r.randrange(2), None, True)
        if len(tx) < 6000:
            yield case_json_text(nm, tx, ('ok', v))
            yield case_json_text(nm, W(r, True) + tx, ('ok', v))
        tx = to_json(m, rand_msg(r, m, finite=True, p=.3), r, r.randrange(2))
        if len(tx) < 300:
            tk = tokens(tx)
            i = r.randrange(len(tk))
            k = r.randrange(4)
            if k == 0:
                tk = tk[:i] + tk[i + 1:]
            elif k == 1:
                tk = tk[:i] + [r.choice(['{', '}', '[', ']', ',', ':', '"', '1', '"x"', 'null', 'true'])] + tk[i:]
            elif k == 2:
                j = r.randrange(len(tk))
                tk[i], tk[j] = tk[j], tk[i]
            else:
                tk = tk[:i]
            yield from broken(nm, ' '.join(tk), 'tokens changed')
            yield from broken(nm, tx[:r.randrange(len(tx))], 'cut')


load_default = ref.default


# ------------------------------------------------------------------ C17
def rand_json(r, depth=0):
    k = r.randrange(9 if depth < 4 else 6)
    if k == 0:
        return r.choice(['0', '1', '-1', '12345678901234567', '1.5', '-0.25', '1e5', '1E-5', '1e+5', '123.456e7', '-0'])
    if k == 1:
        return r.choice(['true', 'false', 'null'])
    if k < 5:
        s = r.choice(['', 'x', '}', '{', ']', '[', ',', ':', '"', '\\', '"}', '\\"', '{"a":1}', '\n', 'ž€\U0001f600', 'a' * 254 + '"', 'a' * 300, '\\' * 260, '"' * 255]) if r.randrange(2) else rand_str(r).decode()
        return rand_escape(r, s) if r.randrange(2) else json.dumps(s, ensure_ascii=bool(r.randrange(2)))
    w = lambda: W(r, r.randrange(3) == 0)
    n = r.choice([0, 0, 1, 2, 3])
    if k < 7:
        return '[' + w() + (w() + ',' + w()).join(rand_json(r, depth + 1) for _ in range(n)) + w() + ']'
    return '{' + w() + (w() + ',' + w()).join(json.dumps(rand_str(r, 20).decode()) + w() + ':' + w() + rand_json(r, depth + 1) for _ in range(n)) + w() + '}'


def unknown_name(r, m):
    known = set()
    for f in m.fields:
        for x in (f.fields if isinstance(f, Oneof) else [f]):
            known |= {x.name, x.json_name(), camel(x.name)}
        known.add(f.name)
    while True:
        n = r.choice(['zz', 'unknown', 'x' * r.randrange(1, 250), '', 'A', 'a_', 'valuex', 'valu', 'S', 'rss', 'o', 'q', 'nex', 'nextt', 'leaf1', 'ke y', 'snake_Case', r.choice(sorted(known)) + 'x', r.choice(sorted(known))[:-1] if known else 'e'])\
            if known else r.choice(['a', 'bb', ''])
        if n not in known:
            return n


def camel(n):
    o, up = '', False
    for c in n:
        if c == '_':
            up = True
        else:
            o += c.upper() if up else c
            up = False
    return o


BADJ = ['', ',', ':', '}', ']', '{', '[', '"', '"a', '"a\\', '[1', '[1,', '[1,]', '[,]', '[1 2]', '{"a"', '{"a":', '{"a":1', '{"a":1,', '{"a":1,}', '{"a" 1}', '{a:1}', '{"a":}', '{,}', 'tru', 'nul', 'fals', 'truex', 'nullx', 'True', 'nan', 'x',
        '1x', '[1}', '{"a":1]', '[[]', '{"a":{}', "'a'", '--1', '[tru]', '{"a":nul}', '[1,,2]', '{"a":1,,"b":2}', '{"a"::1}', '{1:2}', '[:]', '[1:2]', '{"a",1}', '1 2', '"a" "b"', '[] []', '{} {}', 'true false']


def c17(r):
    ms = msgs('cont', 'gen', 'lim')
    while True:
        nm, m = r.choice(ms)
        v = rand_msg(r, m, finite=True, p=.3)
        for f in m.fields:
            if isinstance(f, F) and f.default is not None:
                pass
        n = unknown_name(r, m)
        ex = [(n, rand_json(r)) for _ in range(r.choice([1, 1, 2]))]
        tx = to_json(m, v, r, r.randrange(2), ex, True)
        if len(tx) < 6000:
            yield case_json_text(nm, tx, ('ok', v), 'unknown member')
            if r.randrange(2):
                yield case_json_text(nm, tx, ('ok', v), 'unknown member', 'K', ','.join(map(str, chunkings(r, len(tx)))))
        bad = r.choice(BADJ) if r.randrange(2) else rand_json(r)
        if bad not in BADJ:
            k = r.randrange(1, len(bad) + 1)
            bad = bad[:k - 1] + r.choice(['', '', ',', '}', ']', '"', ':']) + bad[k:]
        tx = to_json(m, v, r, 0, [(n, bad)], True)
        if len(tx) < 3000 and not prefix_valid(tx):
            if prefix_loose(tx):
                continue
            yield case_json_text(nm, tx, ('throw',), 'malformed unknown member')
            if r.randrange(3) == 0:
                yield case_json_text(nm, tx, ('throw',), 'malformed unknown member', 'K', r.choice(['1', '100', '255', '256']))


def prefix_loose(tx):
    """wrong only inside of a number or string token (control characters, leading zeros ...): not judged"""
    import re
    t = re.sub(r'"(?:[^"\\]|\\.)*"', '""', tx, flags=re.S)
    t = re.sub(r'-?[0-9.][0-9.eE+\-]*', '0', t)
    return prefix_valid(t) if t != tx else False


# ------------------------------------------------------------------ C18
def c18(r):
    ms = msgs('cont', 'gen', 'lim', 'scal', 'bits')
    frag = ['{', '}', '[', ']', ',', ':', '"', '\\', '\\u', '\\ud83d', '\\"', 'null', 'true', 'false', '1', '-', '1e999', '"a"', '\x00', '\xff', ' ', '=', '==', 'AAAA', '0', '9' * 40, '.', 'e', '\n', '"\\u00', 'x' * 255, 'x' * 256, '"' + 'k' * 257 + '"']
    while True:
        nm, m = r.choice(ms)
        v = rand_msg(r, m, finite=True, p=.3)
        tx = to_json(m, v, r, r.randrange(3) == 0).encode()
        k = r.randrange(5)
        if k == 0:
            tx = mutate(r, tx)
        elif k == 1:
            tx = tx[:r.randrange(len(tx) + 1)]
        elif k == 2:
            i = r.randrange(len(tx) + 1)
            tx = tx[:i] + r.choice(frag).encode('latin1') + tx[i:]
        elif k == 3:
            i = r.randrange(len(tx) + 1)
            j = min(len(tx), i + r.randrange(6))
            tx = tx[:i] + r.choice(frag).encode('latin1') + tx[j:]
        else:
            tx = ''.join(r.choice(frag) for _ in range(r.randrange(1, 12))).encode('latin1')
        # names of 256 and more characters: known finding (assertion)
        if len(tx) > 5000:
            continue
        anything = lambda rp: None
        yield Case([('J', nm, tx.hex(), '')], anything, repr(tx[:200]))
        yield Case([('K', nm, tx.hex(), ','.join(map(str, chunkings(r, len(tx)))))], anything, repr(tx[:200]))


# ------------------------------------------------------------------ C19
def c19(r):
    ms = msgs('cont', 'gen', 'lim', 'scal')

    def pair(nm, b, ch):
        def judge(rp):
            a, k = rp
            if a.startswith('ok') and k.startswith('ok'):
                # consumed counts differ only by what is behind the value
                if a.split(' ', 2)[2] == k.split(' ', 2)[2]:
                    return None
            elif a == k:
                return None
            return 'reader gives %s, buffer gives %s' % (k[:300], a[:300])
        s = ','.join(map(str, ch))
        return Case([('J', nm, b.hex(), ''), ('K', nm, b.hex(), s)], judge, 'reader chunks ' + s)
    # every token at every place of the internal buffer
    for off in list(range(225, 262)) + list(range(490, 520)):
        for tx in ['{"s":"%s","x":12345}', '{"b":"QUJD","s":"%s","x":-1}', '{"rs":["%s","a\\u00e9\\n","\\ud83d\\ude00z"],"x":7}', '{"zz":"%s","x":1}', '{"zz":{"a":["%s",null,true,1.5e3]},"s":"\\"q\\\\"}',
                   '{"s":"%s\\u20ac\\ud83d\\ude00\\n","x":3}', '{"s":"%s","b":"QUJDREVGR0g="}']:
            b = (tx % ('p' * off)).encode()
            for ch in ([1000], [1], [100, 3], [256], [255]):
                yield pair('C.Leaf', b, ch)
            b = ('{' + ' ' * off + (tx % 'q')[1:]).encode()
            yield pair('C.Leaf', b, [1000])
            yield pair('C.Leaf', b, [7])
        b = ('{' + ' ' * off + '"r":true,"o":false,"u":[true,false]}').encode()
        yield pair('S.Kb', b, [1000])
        yield pair('S.Kb', b, [13])
        b = ('{' + ' ' * off + '"r":"LongName","o":"NEG","u":["A","B"]}').encode()
        yield pair('S.Ke32', b, [1000])
        b = ('{' + ' ' * off + '"r":-9223372036854775808,"o":9223372036854775807}').encode()
        yield pair('S.Ki64', b, [1000])
        b = ('{' + ' ' * off + '"r":1.7976931348623157e308,"o":4.9406564584124654e-324}').encode()
        yield pair('S.Kdb', b, [1000])
        b = ('{' + ' ' * off + '"m_ss":{"k\\n1":"v"},"m_ii":{"12":34,"-5":6},"m_sm":{"a":{"x":1}}}').encode()
        yield pair('C.Maps', b, [1000])
    while True:
        nm, m = r.choice(ms)
        v = rand_msg(r, m, finite=True)
        if has_name(m, v):
            yield case_json_value(nm, v)
        tx = to_json(m, v, r, r.randrange(2), [(unknown_name(r, m), rand_json(r))] if r.randrange(2) else None, True).encode()
        if len(tx) < 5000:
            yield pair(nm, tx, chunkings(r, len(tx)))
            yield pair(nm, mutate(r, tx), chunkings(r, len(tx)))
            yield Case([('V', nm, ref.text(m, v), str(r.choice([0, 1, 3])))], lambda rp: None if rp[0] == '!user' or rp[0].isdigit() else 'writer: ' + rp[0], 'json writer throws')


# ------------------------------------------------------------------ C20
def c20(r, ms=None):
    ms = ms or msgs('gen', 'cont', 'lim')
    # one field at a time, onto the declared member and no other; defaults stay
    for nm, m in ms:
        d = load_default(m)
        yield Case([('D', nm, '', '')], (lambda want: lambda rp: None if rp[0] == want else 'defaults: expected %s got %s' % (want, rp[0]))('ok 0 ' + ref.text(m, d)))
        yield case_encode(nm, d)
        for num, (o, i, f) in m.by_num().items():
            for _ in range(6):
                x = rand_val(r, f.t, f if not f.fixed or f.label not in ('rep', 'pack') else None, 2, True)
                if f.default is not None and x == b'':
                    x = b'?'
                v = dict(d)
                if o is not None:
                    v[o.name] = (i, x)
                elif f.label in ('rep', 'pack'):
                    v[f.name] = [x] * (f.fixed or 1)
                elif f.label == 'map':
                    v[f.name] = {rand_val(r, f.key): x}
                else:
                    v[f.name] = x
                yield case_encode(nm, v)
                b = ref.enc_field(f, v[f.name]) if o is None else ref.tag(f.num, f.t.wt()) + ref.enc_val(f.t, x)
                want = 'ok %d %s' % (len(b), ref.text(m, v))
                if b:
                    yield Case([('D', nm, b.hex(), '')], (lambda w: lambda rp: None if rp[0] == w else 'expected %s got %s' % (w[:300], rp[0][:300]))(want), 'field %d' % num)
    while True:
        nm, m = r.choice(ms)
        v = rand_msg(r, m)
        yield from roundtrip_cases(nm, v)


# ------------------------------------------------------------------ C21
def c21(r, ms=None):
    extra = ms is None
    ms = ms or msgs('gen', 'cont', 'lim')
    for nm, m in ms:
        d = load_default(m)
        for num, (o, i, f) in m.by_num().items():
            names = [f.name, f.json_name()] + ([camel(f.name)] if not f.json and f.name.islower() else [])
            for name in dict.fromkeys(names):
                x = rand_val(r, f.t, f if not f.fixed or f.label not in ('rep', 'pack') else None, 2, True)
                if f.default is not None and x == b'':
                    x = b'?'
                v = dict(d)
                j = json_val(f.t, x)
                if o is not None:
                    v[o.name] = (i, x)
                elif f.label in ('rep', 'pack'):
                    v[f.name] = [x] * (f.fixed or 1)
                    j = '[' + ','.join([j] * (f.fixed or 1)) + ']'
                elif f.label == 'map':
                    k = rand_val(r, f.key, None, 0, True)
                    v[f.name] = {k: x}
                    kk = json_val(f.key, k)
                    j = '{%s:%s}' % (kk if kk.startswith('"') else '"%s"' % kk, j)
                else:
                    v[f.name] = x
                yield case_json_text(nm, '{"%s":%s}' % (name, j), ('ok', v), 'member ' + name)
                yield case_json_text(nm, '{"%s":%s}' % (name, j), ('ok', v), 'member ' + name, 'K', '1')
            # near misses are unknown
            allnames = set()
            for n2, (o2, i2, f2) in m.by_num().items():
                allnames |= {f2.name, f2.json_name(), camel(f2.name), camel(f2.name.lower()), f2.name[0].lower() + f2.name[1:]}
            for near in {f.name + 'x', f.name[:-1], f.name.upper(), f.name + '_', '_' + f.name, f.name[::-1], f.name + f.name, f.name.capitalize()} | (
                    {f.name[:-2] + chr(ord(f.name[-2]) + 1) + chr(ord(f.name[-1]) - 33), f.name[:-2] + chr(ord(f.name[-2]) - 1) + chr(ord(f.name[-1]) + 33)} if len(f.name) > 1 else set()):
                if near not in allnames and near.isprintable() and near.isascii() and '"' not in near and '\\' not in near:
                    yield case_json_text(nm, '{"%s":[1,"x"]}' % near, ('ok', d), 'unknown member ' + near)
    for e, fld, nm in () if not extra else ((specimen.E32, 'r', 'S.Ke32'), (specimen.E8, 'r', 'S.Ke8'), (specimen.EU8, 'r', 'S.Keu8'), (specimen.E16, 'r', 'S.Ke16')):
        for n, x in e.vals.items():
            v = set_field(MSG[nm], fld, x)
            yield case_json_text(nm, '{"r":"%s"}' % n, ('ok', v))
            yield case_json_value(nm, v)
    while True:
        nm, m = r.choice(ms)
        v = rand_msg(r, m, finite=True)
        yield case_json_value(nm, v)
        tx = to_json(m, v, r, 0, None, True)
        if len(tx) < 5000:
            yield case_json_text(nm, tx, ('ok', v))


GENS = {'C01': (c01, ('scal', 'cont')), 'C02': (c02, ('scal', 'scal2', 'scal3')), 'C03': (c03, ('scal', 'scal2', 'scal3', 'bits')), 'C04': (c04, None), 'C05': (c05, None),
        'C06': (c06, ('cont', 'lim', 'gen', 'scal')), 'C07': (c07, ('cont', 'lim', 'gen', 'scal', 'bits')), 'C08': (c08, ('cont', 'gen', 'scal')), 'C09': (c09, None), 'C10': (c10, ('cont',)),
        'C11': (c11, ('lim',)), 'C12': (c12, ('cont',)), 'C13': (c13, ('cont',)), 'C14': (c14, ('cont', 'lim')), 'C15': (c15, ('scal', 'scal2', 'scal3', 'bits')),
        'C16': (c16, ('cont', 'gen', 'lim', 'scal')), 'C17': (c17, ('cont', 'gen', 'lim')), 'C18': (c18, ('cont', 'gen', 'lim', 'scal', 'bits')), 'C19': (c19, ('cont', 'gen', 'lim', 'scal')),
        'C20': (c20, ('gen', 'cont', 'lim')), 'C21': (c21, ('gen', 'cont', 'lim', 'scal'))}
