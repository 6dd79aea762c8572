"""Specimen schemas of the bounded stand-ins."""
from ref import *

E32 = Enum('E32', {'A': 0, 'B': 1, 'NEG': -1, 'LOW': -2147483648, 'HIGH': 2147483647, 'LongName': 300})
E8 = Enum('E8', {'E8_A': 0, 'E8_B': 1, 'E8_N': -128, 'E8_H': 127}, 'int8')
EU8 = Enum('EU8', {'U8_A': 0, 'U8_B': 1, 'U8_H': 255}, 'uint8')
E16 = Enum('E16', {'E16_A': 0, 'E16_N': -32768, 'E16_H': 32767}, 'int16')

# (name, type) of every scalar encoding x storage
KINDS = [('i32', T('int32')), ('i64', T('int64')), ('u32', T('uint32')), ('u64', T('uint64')), ('s32', T('sint32')), ('s64', T('sint64')),
         ('f32', T('fixed32')), ('f64', T('fixed64')), ('sf32', T('sfixed32')), ('sf64', T('sfixed64')), ('b', T('bool')),
         ('fl', T('float')), ('db', T('double')), ('e32', T('enum', ref=E32)), ('e8', T('enum', ref=E8)), ('eu8', T('enum', ref=EU8)),
         ('e16', T('enum', ref=E16))]
NARROW = [('i32_8', T('int32', 'int8')), ('i32_16', T('int32', 'int16')), ('u32_8', T('uint32', 'uint8')), ('u32_16', T('uint32', 'uint16')),
          ('s32_8', T('sint32', 'int8')), ('s32_16', T('sint32', 'int16')), ('f32_8', T('fixed32', 'uint8')), ('f32_16', T('fixed32', 'uint16')),
          ('sf32_8', T('sfixed32', 'int8')), ('sf32_16', T('sfixed32', 'int16')), ('i64_8', T('int64', 'int8')), ('i64_16', T('int64', 'int16')),
          ('i64_32', T('int64', 'int32')), ('u64_8', T('uint64', 'uint8')), ('u64_16', T('uint64', 'uint16')), ('u64_32', T('uint64', 'uint32')),
          ('s64_8', T('sint64', 'int8')), ('s64_16', T('sint64', 'int16')), ('s64_32', T('sint64', 'int32')), ('f64_8', T('fixed64', 'uint8')),
          ('f64_16', T('fixed64', 'uint16')), ('f64_32', T('fixed64', 'uint32')), ('sf64_8', T('sfixed64', 'int8')),
          ('sf64_16', T('sfixed64', 'int16')), ('sf64_32', T('sfixed64', 'int32'))]


def kind_msgs(ks, pre):
    out = []
    for n, t in ks:
        out.append(Msg(pre + n, [F(1, 'r', 'req', t), F(2, 'o', 'opt', t), F(3, 'u', 'rep', t), F(16, 'p', 'pack', t),
                                 F(2047, 'a', 'pack', t, fixed=3)]))
    return out


def bit_msgs():
    out = []
    for n, t, ws in [('i8', T('int32', 'int8'), (1, 2, 5, 7, 8)), ('i16', T('int32', 'int16'), (1, 9, 15, 16)), ('i32', T('int32', 'int32'), (1, 3, 17, 31, 32)),
                     ('i64', T('int64', 'int64'), (1, 33, 62, 63, 64)), ('u8', T('uint32', 'uint8'), (1, 2, 7, 8)),
                     ('u16', T('uint32', 'uint16'), (1, 10, 15, 16)), ('u32', T('uint32', 'uint32'), (1, 4, 31, 32)),
                     ('u64', T('uint64', 'uint64'), (1, 34, 63, 64)), ('s32', T('sint32', 'int32'), (1, 2, 31, 32)), ('s64', T('sint64', 'int64'), (1, 40, 63, 64)),
                     ('s8', T('sint32', 'int8'), (1, 4, 8)), ('s16', T('sint32', 'int16'), (1, 11, 16)),
                     ('f32', T('fixed32', 'uint32'), (1, 6, 31, 32)), ('f64', T('fixed64', 'uint64'), (1, 35, 63, 64)),
                     ('sf32', T('sfixed32', 'int32'), (1, 7, 31, 32)), ('sf64', T('sfixed64', 'int64'), (1, 36, 63, 64)),
                     ('f8', T('fixed32', 'uint8'), (1, 3, 8)), ('sf8', T('sfixed32', 'int8'), (1, 3, 8)), ('sf16', T('sfixed32', 'int16'), (2, 16)),
                     ('f16', T('fixed32', 'uint16'), (2, 16)), ('f64_8', T('fixed64', 'uint8'), (3, 8)), ('sf64_16', T('sfixed64', 'int16'), (3, 16)),
                     ('i64_32', T('int64', 'int32'), (3, 32))]:
        out.append(Msg('B' + n, [F(i + 1, 'w%d' % w, 'req', T(t.kind, t.c, w)) for i, w in enumerate(ws)]))
    return out


SCAL = [E32, E8, EU8, E16] + kind_msgs(KINDS, 'K')
SCAL2 = kind_msgs(NARROW[:13], 'N')
SCAL3 = kind_msgs(NARROW[13:], 'N')
BITS = bit_msgs()

STR, BYT = T('string'), T('bytes')
EC = Enum('EC', {'EC_0': 0, 'EC_1': 1, 'EC_M': -7, 'EC_300': 300})
Empty = Msg('Empty', [])
Leaf = Msg('Leaf', [F(1, 'x', 'opt', T('int32')), F(2, 's', 'opt', STR), F(3, 'b', 'opt', BYT), F(15, 'rs', 'rep', STR)])
Mid = Msg('Mid', [F(1, 'leaf', 'opt', T('msg', ref=Leaf)), F(2, 'leaves', 'rep', T('msg', ref=Leaf)), F(3, 'e', 'opt', T('msg', ref=Empty)),
                  F(4, 'rl', 'req', T('msg', ref=Leaf)), F(5, 'z', 'pack', T('sint32'))])
Rec = Msg('Rec', [F(1, 'v', 'opt', T('int32'))])
Rec.fields.append(F(2, 'next', 'ptr', T('msg', ref=Rec)))
Rec.fields.append(F(3, 'kids', 'rep', T('msg', ref=Rec)))
Cont = Msg('Cont', [
    F(1, 'ri', 'rep', T('int32')), F(2, 'pi', 'pack', T('int32')), F(3, 'rs', 'rep', STR), F(4, 'rb', 'rep', BYT), F(5, 'rm', 'rep', T('msg', ref=Leaf)),
    F(6, 're', 'rep', T('msg', ref=Empty)), F(7, 'rbool', 'rep', T('bool')), F(8, 'pbool', 'pack', T('bool')), F(9, 'renum', 'rep', T('enum', ref=EC)),
    F(10, 'penum', 'pack', T('enum', ref=EC)), F(11, 'pd', 'pack', T('double')), F(12, 'pf', 'pack', T('fixed32')), F(13, 'ps', 'pack', T('sint64')),
    F(14, 'os', 'opt', STR), F(15, 'ob', 'opt', BYT), F(16, 'om', 'opt', T('msg', ref=Leaf)), F(17, 'oe', 'opt', T('msg', ref=Empty)),
    F(18, 'oen', 'opt', T('enum', ref=EC)), F(19, 'obool', 'opt', T('bool')), F(20, 'rqs', 'req', STR), F(21, 'rqb', 'req', BYT),
    F(22, 'rqm', 'req', T('msg', ref=Leaf)), F(23, 'rr', 'rep', T('uint64')), F(24, 'abool', 'pack', T('bool'), fixed=2), F(25, 'ai', 'pack', T('int32'), fixed=4)])
Maps = Msg('Maps', [
    F(1, 'm_ii', 'map', T('int32'), key=T('int32')), F(2, 'm_ss', 'map', STR, key=STR), F(3, 'm_sm', 'map', T('msg', ref=Leaf), key=STR),
    F(4, 'm_ie', 'map', T('enum', ref=EC), key=T('int64')), F(5, 'm_bb', 'map', BYT, key=T('bool')), F(6, 'm_uf', 'map', T('double'), key=T('uint32')),
    F(7, 'm_fm', 'map', T('msg', ref=Empty), key=T('fixed64')), F(8, 'm_zb', 'map', T('bool'), key=T('sint32')), F(9, 'm_sf', 'map', T('float'), key=T('sfixed32')),
    F(300, 'm_us', 'map', STR, key=T('uint64'))])
One = Msg('One', [
    F(1, 'a', 'opt', T('int32')),
    Oneof('o', [F(2, 'oi', 'req', T('int32')), F(3, 'os', 'req', STR), F(4, 'om', 'req', T('msg', ref=Leaf)), F(5, 'oen', 'req', T('enum', ref=EC)),
                F(6, 'ob', 'req', T('bool')), F(7, 'oby', 'req', BYT), F(8, 'of', 'req', T('float')), F(9, 'oe', 'req', T('msg', ref=Empty)),
                F(10, 'oz', 'req', T('sint64')), F(11, 'ofx', 'req', T('fixed32'))]),
    Oneof('q', [F(20, 'qi', 'req', T('uint32')), F(21, 'qs', 'req', STR)]), F(30, 'z', 'rep', STR)])
CONT = [EC, Empty, Leaf, Mid, Rec, Cont, Maps, One]

Lim = Msg('Lim', [
    F(1, 's', 'opt', STR, max_size=5), F(2, 'b', 'opt', BYT, max_size=6), F(3, 'rs', 'req', STR, max_size=3), F(4, 'rb', 'req', BYT, max_size=3)])
LimC = Msg('LimC', [
    F(1, 'c', 'rep', T('int32'), max_count=3), F(2, 'p', 'pack', T('int32'), max_count=4), F(3, 'cs', 'rep', STR, max_count=2, max_size=4),
    F(4, 'cb', 'rep', BYT, max_count=2, max_size=4), F(5, 'cbool', 'rep', T('bool'), max_count=2), F(6, 'pbool', 'pack', T('bool'), max_count=3),
    F(7, 'cm', 'rep', T('msg', ref=Rec), max_count=2), F(8, 'pd', 'pack', T('double'), max_count=2), F(9, 'ce', 'rep', T('enum', ref=EC), max_count=1),
    F(10, 'pe', 'pack', T('enum', ref=EC), max_count=2)])
Fix = Msg('Fix', [F(1, 's', 'opt', STR, fixed=4), F(2, 'b', 'opt', BYT, fixed=5)])
FixS = Msg('FixS', [F(1, 's', 'opt', STR, fixed=1)])
FixB = Msg('FixB', [F(1, 'b', 'opt', BYT, fixed=3)])
FixA = Msg('FixA', [F(1, 'a', 'pack', T('int32'), fixed=2), F(2, 'd', 'pack', T('double'), fixed=1), F(3, 'f', 'pack', T('bool'), fixed=3)])
LRec = Msg("Rec", Rec.fields[:1])
LimC.fields[6].t.ref = LRec
LIM = [Enum("EC", EC.vals), LRec, Lim, LimC, Fix, FixS, FixB, FixA]

# names: shared hashes, prefixes, snake/camel forms, json_name
NAMES = ['a', 'b', 'aa', 'ab', 'ba', 'abc', 'abcd', 'snake_case', 'snakecase', 'x1', 'x_1y', 'value', 'values', 'Value', 'camelName', 'type_name', 'typename_',
         # djb2 collisions (33*c1 + c2 equal)
         'az', 'bY', 'heap_AY', 'heap_B8']
Names = Msg('Names', [F(i + 1, n, 'opt', T('int32')) for i, n in enumerate(NAMES)] +
            [F(100, 'renamed', 'opt', T('int32'), json='otherName'), F(101, 'renamed2', 'opt', T('int32'), json='with space'),
             F(102, 'bfield', 'req', T('int32', 'int32', 9)), F(103, 'rep_e', 'rep', T('enum', ref=EC))])
Defs = Msg('Defs', [F(1, 'i', 'req', T('int32'), default='-42'), F(2, 's', 'req', STR, default='"hello"'), F(3, 'b', 'req', T('bool'), default='true'),
                    F(4, 'e', 'req', T('enum', ref=EC), default='EC_300'), F(5, 'd', 'req', T('double'), default='1.5'), F(6, 'u', 'req', T('uint64'), default='18446744073709551615'),
                    F(7, 'w', 'req', T('uint32', 'uint32', 5), default='17'), F(8, 'n', 'opt', T('int64'))])
# two adjacent messages with the same field numbers and different types, high numbers
Twin1 = Msg('Twin1', [F(1, 'a', 'opt', T('int32')), F(2, 'b', 'opt', STR), F(536870911, 'top', 'opt', T('int32')), F(19, 'c', 'opt', T('fixed32'))])
Twin2 = Msg('Twin2', [F(2, 'a', 'opt', T('int32')), F(1, 'b', 'opt', STR), F(16, 'c', 'opt', T('fixed64')), F(19, 'd', 'opt', T('sint32'))])
# oneof members with numbers out of order, below and above their positions; singular fields declared between and after
Ord = Msg('Ord', [F(7, 'x', 'opt', T('int32')),
                  Oneof('o', [F(9, 'o9', 'req', T('int32')), F(4, 'o4', 'req', T('sint32')), F(1, 'o1', 'req', T('bool')), F(2, 'o2', 'req', T('fixed32')), F(3, 'o3', 'req', STR), F(300, 'o300', 'req', T('double'))]),
                  F(6, 'y', 'opt', T('sint64')), Oneof('p', [F(10, 'p10', 'req', T('uint64')), F(8, 'p8', 'req', BYT), F(5, 'p5', 'req', T('enum', ref=EC))]), F(11, 'm', 'map', T('int32'), key=STR),
                  F(12, 'z', 'rep', T('int32'))])
GEN = [Enum('EC', EC.vals), Names, Defs, Twin1, Twin2, Ord]

FILES = {'scal': ('S', SCAL), 'scal2': ('S2', SCAL2), 'scal3': ('S3', SCAL3), 'bits': ('SB', BITS), 'cont': ('C', CONT), 'lim': ('L', LIM), 'gen': ('G', GEN)}
