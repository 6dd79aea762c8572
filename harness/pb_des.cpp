// Instantiates the container deserializers of spb/pb with the abstract stream, containers and message.
#include "vtypes.hpp"
#include <spb/pb.hpp>
using namespace spb::pb::detail;
namespace
{
constexpr auto M(int e, int e2 = 0, size_t c = 0, size_t s = 0)
{
    return serialize_mode{.encoder = scalar_encoder(e), .encoder2 = scalar_encoder(e2), .max_count = c, .max_size = s};
}
} // namespace
enum class E_i32 : int32_t { };
extern "C"
{
#define F(NAME, MODE, ...)                                                                                                  \
    void d_##NAME(V::is &s, __VA_ARGS__ &v, wire_type t) { deserialize<MODE>(s, v, t); }
#include "pb_fields.inc"
void p_skip(V::is &s, wire_type t) { skip(s, t); }
void p_message(V::is &s, V::msg &v) { deserialize<M(0)>(s, v); }
#define VI(NAME, ...) __VA_ARGS__ p_read_##NAME(V::is &s) { return read_varint<__VA_ARGS__>(s); }
VI(bool, bool) VI(i8, int8_t) VI(i16, int16_t) VI(i32, int32_t) VI(i64, int64_t) VI(u8, uint8_t) VI(u16, uint16_t) VI(u32, uint32_t) VI(u64, uint64_t)
}
