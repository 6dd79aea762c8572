// Instantiates the scalar serializers and deserializers of spb/pb for every field type and storage type.
#include "vtypes.hpp"
#include <spb/pb.hpp>
using namespace spb::pb::detail;
namespace
{
constexpr auto M(int e)
{
    return serialize_mode{.encoder = scalar_encoder(e)};
}
} // namespace
enum class E_i32 : int32_t { };
enum class E_u8 : uint8_t { };
enum class E_i8 : int8_t { };
enum class E_i16 : int16_t { };
enum class E_u16 : uint16_t { };
enum class E_u32 : uint32_t { };
enum class E_i64 : int64_t { };

extern "C"
{
void p_serialize_varint(V::osw &s, uint64_t v) { serialize_varint(s, v); }
void p_serialize_varint_oss(V::oss &s, uint64_t v) { serialize_varint(s, v); }
void p_serialize_varint_ostream_size(ostream_size &s, uint64_t v) { serialize_varint(s, v); }
size_t p_serialize_varint_size(uint64_t v) { return serialize_varint_size(v); }
void p_serialize_svarint(V::osw &s, int64_t v) { serialize_svarint(s, v); }
void p_serialize_tag(V::osw &s, uint32_t f, wire_type t) { serialize_tag(s, f, t); }
uint64_t p_read_varint_u64(V::is &s) { return read_varint<uint64_t>(s); }
uint32_t p_read_varint_u32(V::is &s) { return read_varint<uint32_t>(s); }
uint32_t p_read_tag(V::is &s) { return uint32_t(read_tag_or_eof(s)); }

#define SC(NAME, T, ENC)                                                                                                    \
    void s_##NAME(V::osw &s, uint32_t f, T v) { serialize<M(ENC)>(s, f, v); }                                               \
    void z_##NAME(V::oss &s, uint32_t f, T v) { serialize<M(ENC)>(s, f, v); }                                               \
    size_t y_##NAME(uint32_t f, T v) { return serialize_size<M(ENC)>(f, v); }                                               \
    void e_##NAME(V::osw &s, T v) { serialize<M(ENC | 8)>(s, v); }                                                          \
    void d_##NAME(V::is &s, T &v, wire_type t) { deserialize<M(ENC)>(s, v, t); }
#define BF(NAME, T, ENC)                                                                                                    \
    T b_##NAME(V::is &s, uint32_t bits, wire_type t) { return deserialize_bitfield<M(ENC), T>(s, bits, t); }

#define SI(NAME, T, ENC) SC(NAME, T, ENC) BF(NAME, T, ENC)

SC(varint_bool, bool, 1)
SI(varint_i8, int8_t, 1)
SI(varint_i16, int16_t, 1)
SI(varint_i32, int32_t, 1)
SI(varint_i64, int64_t, 1)
SI(varint_u8, uint8_t, 1)
SI(varint_u16, uint16_t, 1)
SI(varint_u32, uint32_t, 1)
SI(varint_u64, uint64_t, 1)
SI(svarint_i8, int8_t, 2)
SI(svarint_i16, int16_t, 2)
SI(svarint_i32, int32_t, 2)
SI(svarint_i64, int64_t, 2)
SI(i32_i8, int8_t, 3)
SI(i32_i16, int16_t, 3)
SI(i32_i32, int32_t, 3)
SI(i32_u8, uint8_t, 3)
SI(i32_u16, uint16_t, 3)
SI(i32_u32, uint32_t, 3)
SC(i32_float, float, 3)
SI(i64_i8, int8_t, 4)
SI(i64_i16, int16_t, 4)
SI(i64_i32, int32_t, 4)
SI(i64_i64, int64_t, 4)
SI(i64_u8, uint8_t, 4)
SI(i64_u16, uint16_t, 4)
SI(i64_u32, uint32_t, 4)
SI(i64_u64, uint64_t, 4)
SC(i64_double, double, 4)
#define SE(NAME, T) SC(NAME, T, 1)
SE(enum_i32, E_i32)
SE(enum_i8, E_i8)
SE(enum_i16, E_i16)
SE(enum_i64, E_i64)
SE(enum_u8, E_u8)
SE(enum_u16, E_u16)
SE(enum_u32, E_u32)
}
