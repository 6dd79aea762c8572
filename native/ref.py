"""Schema description, .proto and driver generation, and an independent reference codec for the bounded stand-ins.

Nothing here is derived from /repo's implementation: it follows the protobuf encoding and proto3 JSON documents, plus the
documented spb options.  Values: ints, floats as their bit patterns, strings/bytes as bytes, lists, messages as dicts, maps as
dicts, oneof as (index, value), absent optional as None."""
import base64
import json
import struct


class Invalid(Exception):
    """the input violates the property's rules: decoding has to throw"""


class Unspec(Exception):
    """the documents leave the result open: the case is not judged"""


INT = {'int32': (True, 32), 'int64': (True, 64), 'uint32': (False, 32), 'uint64': (False, 64), 'sint32': (True, 32), 'sint64': (True, 64),
       'fixed32': (False, 32), 'fixed64': (False, 64), 'sfixed32': (True, 32), 'sfixed64': (True, 64)}
VARINT = {'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'bool', 'enum'}
W32 = {'fixed32', 'sfixed32', 'float'}
W64 = {'fixed64', 'sfixed64', 'double'}


class T:
    """field type: scalar kind (with C++ storage), enum, message, string, bytes"""
    def __init__(self, kind, c=None, bits=None, ref=None):
        self.kind = kind      # int32.. bool float double enum string bytes msg
        self.c = c            # C++ integer type name without _t, e.g. int8
        self.bits = bits
        self.ref = ref        # Enum / Msg

    def wt(self):
        if self.kind in VARINT:
            return 0
        if self.kind in W64:
            return 1
        if self.kind in W32:
            return 5
        return 2

    def scalar(self):
        return self.kind not in ('string', 'bytes', 'msg')

    def irange(self):
        """(signed, bits) of the C++ storage"""
        if self.bits:
            s, _ = storage(self)
            return s, self.bits
        return storage(self)


def storage(t):
    if t.kind == 'enum':
        c = t.ref.ctype
        return (not c.startswith('u'), int(c.lstrip('uint')))
    if t.c:
        return (not t.c.startswith('u'), int(t.c.lstrip('uint')))
    return INT[t.kind]


def rng(t):
    s, b = t.irange()
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


class Enum:
    def __init__(self, name, vals, ctype='int32'):
        self.name = name
        self.vals = vals      # name -> number
        self.ctype = ctype


class F:
    def __init__(self, num, name, label, t, key=None, max_size=0, max_count=0, fixed=0, json=None, default=None, opts=None):
        self.num = num
        self.name = name
        self.label = label    # req opt rep pack map ptr
        self.t = t
        self.key = key
        self.max_size = max_size
        self.max_count = max_count
        self.fixed = fixed    # fixed container size (array) for repeated or string/bytes
        self.json = json
        self.default = default
        self.opts = opts or []

    def json_name(self):
        return self.json or self.name

    def json_names(self):
        r = {self.name, self.json_name()}
        return r


class Oneof:
    def __init__(self, name, fields):
        self.name = name
        self.fields = fields


class Msg:
    def __init__(self, name, fields, opts=None):
        self.name = name
        self.fields = fields
        self.opts = opts or []

    def by_num(self):
        r = {}
        for f in self.fields:
            if isinstance(f, Oneof):
                for i, x in enumerate(f.fields):
                    r[x.num] = (f, i + 1, x)
            else:
                r[f.num] = (None, 0, f)
        return r


# ---------------------------------------------------------------- .proto and driver
def ptype(t):
    if t.kind == 'enum' or t.kind == 'msg':
        return t.ref.name
    return t.kind


def field_line(f, inone=False):
    o = []
    if f.label == 'pack':
        o.append('packed = true')
    if f.json:
        o.append('json_name = "%s"' % f.json)
    if f.default is not None:
        o.append('default = %s' % f.default)
    if f.t.c:
        o.append('(spb_opt).type = "%s%s"' % (f.t.c, ':%d' % f.t.bits if f.t.bits else ''))
    elif f.t.bits:
        s, b = storage(f.t)
        o.append('(spb_opt).type = "%sint%d:%d"' % ('' if s else 'u', b, f.t.bits))
    if f.max_size:
        o.append('(spb_opt).max_size = %d' % f.max_size)
    if f.max_count:
        o.append('(spb_opt).max_count = %d' % f.max_count)
    if f.fixed:
        k = {'string': 'string', 'bytes': 'bytes'}.get(f.t.kind, 'repeated')
        if f.label in ('rep', 'pack'):
            k = 'repeated'
        o.append('(spb_opt).%s = "std::array<$,%d>"' % (k, f.fixed))
    o += f.opts
    opt = ' [%s]' % ', '.join(o) if o else ''
    if f.label == 'map':
        return 'map<%s, %s> %s = %d%s;' % (ptype(f.key), ptype(f.t), f.name, f.num, opt)
    lab = '' if inone else {'req': 'required ', 'opt': 'optional ', 'ptr': 'optional ', 'rep': 'repeated ', 'pack': 'repeated '}[f.label]
    return '%s%s %s = %d%s;' % (lab, ptype(f.t), f.name, f.num, opt)


def proto_text(pkg, items, extra=()):
    L = ['syntax = "proto2";', 'import "spb.proto";', 'package %s;' % pkg, 'option (spb_fileopt).include = "<array>";']
    L += list(extra)
    for it in items:
        if isinstance(it, Enum):
            L.append('enum %s {' % it.name)
            if it.ctype != 'int32':
                L.append('  option (spb_enumopt).type = "%s";' % it.ctype)
            for n, v in it.vals.items():
                L.append('  %s = %d;' % (n, v))
            L.append('}')
        else:
            L.append('message %s {' % it.name)
            for o in it.opts:
                L.append('  ' + o)
            for f in it.fields:
                if isinstance(f, Oneof):
                    L.append('  oneof %s {' % f.name)
                    for x in f.fields:
                        L.append('    ' + field_line(x, True))
                    L.append('  }')
                else:
                    L.append('  ' + field_line(f))
            L.append('}')
    return '\n'.join(L) + '\n'


#- C++ keywords used as names by the generated schemas (sprotoc appends '_')
KEYWORDS = {'private', 'class', 'int', 'template', 'new', 'delete', 'and', 'register', 'operator'}


def cpp_name(pkg, m):
    return getattr(m, 'cpp', None) or '%s::%s' % (pkg, m.name)


def members(m):
    """members in declaration order of the dump text"""
    return [f.name for f in m.fields]


def driver_text(pkg, items, header, imports=()):
    L = ['#include "%s"' % header, '#include "driver.hpp"', 'namespace drv {']
    ms = [m for m in items if isinstance(m, Msg)]
    for p, m in [(p, m) for p, its in imports for m in its if isinstance(m, Msg)] + [(pkg, m) for m in ms]:
        q = cpp_name(p, m)
        L.append('template <> struct Msg<%s> { static constexpr auto name = "%s.%s";' % (q, p, m.name))
        L.append(' static void dump(std::string &o, const %s &v); static void parse(P &p, %s &v); };' % (q, q))
    for m in ms:
        d, p = [], []
        for f in m.fields:
            n = f.name + ('_' if f.name in KEYWORDS else '')
            if isinstance(f, F) and f.t.bits:
                d.append('{ auto t = v.%s; drv::dump(o, t); } o += \';\';' % n)
                p.append('{ auto t = v.%s; drv::parse(p, t); v.%s = t; } p.ex(\';\');' % (n, n))
            else:
                d.append('drv::dump(o, v.%s); o += \';\';' % n)
                p.append('drv::parse(p, v.%s); p.ex(\';\');' % n)
        q = cpp_name(pkg, m)
        L.append('void Msg<%s>::dump(std::string &o, const %s &v) { o += \'{\'; %s o += \'}\'; (void)v; }' % (q, q, ' '.join(d)))
        L.append('void Msg<%s>::parse(P &p, %s &v) { p.ex(\'{\'); %s p.ex(\'}\'); (void)v; }' % (q, q, ' '.join(p)))
    for m in ms:
        L.append('static reg r_%s("%s.%s", run<%s>);' % (m.name, pkg, m.name, cpp_name(pkg, m)))
    L.append('}')
    return '\n'.join(L) + '\n'


# ---------------------------------------------------------------- values
def zero(t):
    if t.kind in ('string', 'bytes'):
        return b''
    if t.kind == 'msg':
        return default(t.ref)
    return 0


def default(m):
    r = {}
    for f in m.fields:
        if isinstance(f, Oneof):
            r[f.name] = (0, None)
        elif f.default is not None:
            r[f.name] = default_value(f)
        elif f.label in ('opt', 'ptr'):
            r[f.name] = None
        elif f.label in ('rep', 'pack'):
            r[f.name] = [zero(f.t)] * f.fixed if f.fixed else []
        elif f.label == 'map':
            r[f.name] = {}
        else:
            r[f.name] = bytes(f.fixed) if f.fixed else zero(f.t)
    return r


def default_value(f):
    d = f.default
    if f.t.kind == 'string':
        return json.loads(d).encode()
    if f.t.kind == 'bool':
        return int(d == 'true')
    if f.t.kind == 'enum':
        return f.t.ref.vals[d]
    if f.t.kind == 'double':
        return struct.unpack('<Q', struct.pack('<d', float(d)))[0]
    if f.t.kind == 'float':
        return struct.unpack('<I', struct.pack('<f', float(d)))[0]
    return int(d)


def text_t(t, v):
    if t.kind in ('string', 'bytes'):
        return 'x' + v.hex()
    if t.kind == 'msg':
        return text(t.ref, v)
    return str(int(v))


def text(m, v):
    o = '{'
    for f in m.fields:
        x = v[f.name]
        if isinstance(f, Oneof):
            o += '#%d:' % x[0] + (text_t(f.fields[x[0] - 1].t, x[1]) if x[0] else '')
        elif f.label in ('opt', 'ptr'):
            o += '~' if x is None else text_t(f.t, x)
        elif f.label in ('rep', 'pack'):
            o += '[' + ''.join(text_t(f.t, y) + ',' for y in x) + ']'
        elif f.label == 'map':
            es = sorted((text_t(f.key, k), text_t(f.t, y)) for k, y in x.items())
            o += '<' + ''.join(k + ':' + y + ',' for k, y in es) + '>'
        else:
            o += text_t(f.t, x)
        o += ';'
    return o + '}'


# ---------------------------------------------------------------- protobuf
def varint(v):
    o = bytearray()
    while v >= 128:
        o.append(v & 127 | 128)
        v >>= 7
    o.append(v)
    return bytes(o)


def tag(num, wt):
    return varint(num << 3 | wt)


def enc_scalar(t, v):
    if t.kind in ('int32', 'int64', 'enum'):
        return varint(v & ((1 << 64) - 1))
    if t.kind in ('uint32', 'uint64', 'bool'):
        return varint(v)
    if t.kind in ('sint32', 'sint64'):
        return varint(2 * v if v >= 0 else -2 * v - 1)
    n = 4 if t.kind in W32 else 8
    return (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')


def enc_val(t, v):
    if t.scalar():
        return enc_scalar(t, v)
    b = encode(t.ref, v) if t.kind == 'msg' else v
    return varint(len(b)) + b


def enc_field(f, x):
    if f.label in ('rep', 'pack'):
        if f.label == 'pack':
            if not x:
                return b''
            b = b''.join(enc_scalar(f.t, y) for y in x)
            return tag(f.num, 2) + varint(len(b)) + b
        return b''.join(tag(f.num, f.t.wt()) + enc_val(f.t, y) for y in x)
    if f.label == 'map':
        o = b''
        for k, y in sorted(x.items()):
            b = tag(1, f.key.wt()) + enc_val(f.key, k) + tag(2, f.t.wt()) + enc_val(f.t, y)
            o += tag(f.num, 2) + varint(len(b)) + b
        return o
    if f.label in ('opt', 'ptr'):
        return b'' if x is None else tag(f.num, f.t.wt()) + enc_val(f.t, x)
    # required: empty strings, bytes and messages may be left out
    b = enc_val(f.t, x)
    if not f.t.scalar() and b == b'\0':
        return b''
    return tag(f.num, f.t.wt()) + b


def encode(m, v):
    o = b''
    for f in m.fields:
        x = v[f.name]
        if isinstance(f, Oneof):
            if x[0]:
                g = f.fields[x[0] - 1]
                o += tag(g.num, g.t.wt()) + enc_val(g.t, x[1])
        else:
            o += enc_field(f, x)
    return o


class Rd:
    def __init__(self, b, p=0, e=None):
        self.b, self.p, self.e = b, p, len(b) if e is None else e

    def varint(self):
        v = 0
        for i in range(10):
            if self.p >= self.e:
                raise Invalid('truncated varint')
            x = self.b[self.p]
            self.p += 1
            v |= (x & 127) << (7 * i)
            if x < 128:
                if v >> 64:
                    raise Unspec('varint above 64 bits')
                return v
        raise Invalid('varint longer than 10 bytes')

    def tag(self):
        p = self.p
        v = 0
        for i in range(5):
            if self.p >= self.e:
                raise Invalid('truncated tag')
            x = self.b[self.p]
            self.p += 1
            v |= (x & 127) << (7 * i)
            if x < 128:
                if v >> 32:
                    raise Invalid('tag above 32 bits')
                if v >> 3 == 0:
                    raise Invalid('field number 0')
                return v >> 3, v & 7
        raise Invalid('tag too long')

    def take(self, n):
        if n > self.e - self.p:
            raise Invalid('truncated')
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def length(self):
        n = self.varint()
        if n >> 32:
            raise Invalid('length above 32 bits')
        return n


def sext(v, b):
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v


def fit(t, v):
    lo, hi = rng(t)
    if not lo <= v <= hi:
        raise Invalid('value %d does not fit' % v)
    return v


def dec_scalar(t, r):
    if t.kind == 'bool':
        p = r.p
        v = r.varint()
        if v > 1 or r.p - p > 1:
            raise Unspec('bool varint')
        return v
    if t.kind in VARINT:
        v = r.varint()
        if t.kind in ('int32', 'int64', 'enum'):
            if t.kind == 'int64':
                if storage(t)[1] <= 32 and 1 << 31 <= v and v >> 31 != (1 << 33) - 1:
                    raise Unspec('known finding: int64 stored in 32 bits or less is read as int32')
                return fit(t, sext(v, 64))
            s, b = t.irange()
            if v >> 32 and v >> 31 != (1 << 33) - 1:
                # neither a 32 bit number nor a sign extended one
                raise Unspec('int32 outside of 32 bits')
            if not s:
                if v >> 32:
                    raise Unspec('negative for unsigned')
                return fit(t, v)
            return fit(t, sext(v, 32))
        if t.kind == 'uint32':
            if v >> 32:
                raise Unspec('uint32 above 32 bits')
            return fit(t, v)
        if t.kind == 'uint64':
            return fit(t, v)
        if t.kind == 'sint32' and v >> 32:
            raise Unspec('sint32 above 32 bits')
        return fit(t, v >> 1 if not v & 1 else -(v >> 1) - 1)
    n = 4 if t.kind in W32 else 8
    v = int.from_bytes(r.take(n), 'little')
    if t.kind in ('float', 'double'):
        return v
    if t.kind in ('sfixed32', 'sfixed64'):
        v = sext(v, 8 * n)
    return fit(t, v)


def check_utf8(b):
    try:
        b.decode('utf-8')
    except UnicodeDecodeError:
        raise Invalid('utf8')


def dec_payload(t, b, f=None):
    """value of a length delimited payload"""
    if t.kind == 'msg':
        return decode(t.ref, b)
    if f is not None and f.max_size and len(b) > f.max_size:
        raise Invalid('max_size')
    if f is not None and f.fixed and f.label not in ('rep', 'pack') and len(b) != f.fixed:
        raise Invalid('fixed size')
    if t.kind == 'string':
        check_utf8(b)
    return b


def dec_single(f, wt, r):
    t = f.t
    if wt != t.wt():
        if wt == 2:
            n = r.length()
            r.take(n)
        raise Invalid('wire type')
    if t.scalar():
        return dec_scalar(t, r)
    n = r.length()
    return dec_payload(t, r.take(n), f)


def merge_field(v, owner, idx, f, wt, r):
    if owner is not None:
        if v[owner.name][0] == idx and f.t.kind == 'msg':
            raise Unspec('merge of a oneof message')
        v[owner.name] = (idx, dec_single(f, wt, r))
        return
    if f.label == 'pack':
        if wt != 2:
            raise Invalid('wire type')
        n = r.length()
        sub = Rd(r.take(n))
        out = []
        while sub.p < sub.e:
            out.append(dec_scalar(f.t, sub))
            if f.max_count and len(v[f.name]) + len(out) > f.max_count:
                raise Invalid('max_count')
        if f.fixed:
            if len(out) != f.fixed:
                raise Invalid('fixed count')
            v[f.name] = out
        else:
            v[f.name] = v[f.name] + out
        return
    if f.label == 'rep':
        if f.max_count and len(v[f.name]) + 1 > f.max_count:
            raise Invalid('max_count')
        x = dec_single(f, wt, r)
        v[f.name] = v[f.name] + [x]
        return
    if f.label == 'map':
        if wt != 2:
            raise Invalid('wire type')
        n = r.length()
        sub = Rd(r.take(n))
        kf, vf = F(1, 'k', 'req', f.key), F(2, 'v', 'req', f.t)
        k = x = None
        while sub.p < sub.e:
            num, w = sub.tag()
            if num == 1:
                k = dec_single(kf, w, sub)
            elif num == 2:
                x = dec_single(vf, w, sub)
            else:
                raise Unspec('unknown field in a map entry')
        if k is None or x is None:
            raise Unspec('map entry without key or value')
        d = dict(v[f.name])
        d[k] = x
        v[f.name] = d
        return
    v[f.name] = dec_single(f, wt, r)


def skip(wt, r):
    if wt == 0:
        try:
            r.varint()
        except Unspec:
            pass
    elif wt == 1:
        r.take(8)
    elif wt == 5:
        r.take(4)
    elif wt == 2:
        r.take(r.length())
    else:
        raise Invalid('group')


def decode(m, b):
    v = default(m)
    r = Rd(b)
    by = m.by_num()
    unspec = None
    while r.p < r.e:
        num, wt = r.tag()
        if num in by:
            owner, idx, f = by[num]
            if f.t.kind == 'msg' and f.label in ('opt', 'ptr', 'req') and v.get(f.name) not in (None,) and not owner:
                if f.label == 'req':
                    if v[f.name] != default(f.t.ref):
                        raise Unspec('merge of a singular message')
                else:
                    raise Unspec('merge of a singular message')
            if f.fixed and f.label == 'pack' and v[f.name] != default(m)[f.name]:
                pass
            merge_field(v, owner, idx, f, wt, r)
        else:
            skip(wt, r)
    return v


# ---------------------------------------------------------------- JSON
class NotJson(Exception):
    pass


def strict_loads(b):
    """strict RFC 8259 parse; objects as lists of pairs"""
    try:
        s = b.decode('utf-8')
    except UnicodeDecodeError:
        raise NotJson('utf8')

    def bad(x):
        raise NotJson('constant ' + x)

    class Num(str):
        pass
    try:
        return json.loads(s, object_pairs_hook=lambda p: ('obj', p), parse_constant=bad, parse_int=lambda x: ('num', x),
                          parse_float=lambda x: ('num', x), strict=True)
    except json.JSONDecodeError as e:
        raise NotJson(str(e))


def float_bits(txt, kind):
    """bits of the correctly rounded value of a JSON number"""
    from fractions import Fraction
    x = float(txt)
    if kind == 'double':
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    # correct single rounding: exact rational compare of the neighbours
    try:
        b = struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return None
    neg = txt.lstrip().startswith('-')
    try:
        fr = Fraction(txt)
    except (ValueError, OverflowError):
        return b
    best, bd = None, None
    for c in (b - 1, b, b + 1):
        if c < 0 or (c & 0x7fffffff) >= 0x7f800000:
            continue
        y = struct.unpack('<f', struct.pack('<I', c & 0xffffffff))[0]
        d = abs(Fraction(y) - fr)
        if bd is None or d < bd or (d == bd and not c & 1):
            best, bd = c, d
    return best


def from_json_t(t, j, f=None):
    if t.kind == 'msg':
        return from_json(t.ref, j)
    if t.kind == 'string':
        if not isinstance(j, str):
            raise NotJson('string expected')
        try:
            return j.encode('utf-8')
        except UnicodeEncodeError:
            raise NotJson('lone surrogate')
    if t.kind == 'bytes':
        if not isinstance(j, str):
            raise NotJson('string expected')
        return base64.b64decode(j, validate=True)
    if t.kind == 'bool':
        if j is True or j is False:
            return int(j)
        raise NotJson('bool expected')
    if t.kind == 'enum':
        if isinstance(j, str) and j in t.ref.vals:
            return t.ref.vals[j]
        raise NotJson('enum name expected')
    if isinstance(j, str):
        txt = j
    elif isinstance(j, tuple) and j[0] == 'num':
        txt = j[1]
    else:
        raise NotJson('number expected')
    if t.kind in ('float', 'double'):
        return float_bits(txt, t.kind)
    return fit(t, int(txt))


def key_from_json(t, k):
    if t.kind == 'string':
        return k.encode('utf-8')
    if t.kind == 'bool':
        return {'true': 1, 'false': 0}[k]
    return fit(t, int(k))


def from_json(m, j):
    """value of a parsed JSON document written by the library"""
    if not (isinstance(j, tuple) and j[0] == 'obj'):
        raise NotJson('object expected')
    v = default(m)
    names = {}
    for f in m.fields:
        if isinstance(f, Oneof):
            for i, x in enumerate(f.fields):
                names[x.json_name()] = (f, i + 1, x)
        else:
            names[f.json_name()] = (None, 0, f)
    seen = set()
    for k, x in j[1]:
        if k in seen:
            raise NotJson('duplicate member ' + k)
        seen.add(k)
        if k not in names:
            raise NotJson('unexpected member ' + k)
        owner, idx, f = names[k]
        if owner is not None:
            if v[owner.name][0]:
                raise NotJson('two members of a oneof')
            v[owner.name] = (idx, from_json_t(f.t, x))
        elif f.label in ('rep', 'pack'):
            if not isinstance(x, list):
                raise NotJson('array expected')
            v[f.name] = [from_json_t(f.t, y) for y in x]
        elif f.label == 'map':
            d = {}
            for kk, y in x[1]:
                kk = key_from_json(f.key, kk)
                if kk in d:
                    raise NotJson('duplicate key')
                d[kk] = from_json_t(f.t, y)
            v[f.name] = d
        else:
            v[f.name] = from_json_t(f.t, x)
    return v
