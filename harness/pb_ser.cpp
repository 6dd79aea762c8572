// Instantiates the container serializers of spb/pb with the abstract containers.
#include "vtypes.hpp"
#include <spb/pb.hpp>
using namespace spb::pb::detail;
namespace
{
constexpr auto M(int e, int e2 = 0, size_t c = 0, size_t s = 0)
{
    return serialize_mode{.encoder = scalar_encoder(e), .encoder2 = scalar_encoder(e2), .max_count = c, .max_size = s};
}
} // namespace
enum class E_i32 : int32_t { };
extern "C"
{
#define F(NAME, MODE, ...)                                                                                                  \
    void s_##NAME(V::osw &s, uint32_t f, const __VA_ARGS__ &v) { serialize<MODE>(s, f, v); }                                \
    void z_##NAME(V::oss &s, uint32_t f, const __VA_ARGS__ &v) { serialize<MODE>(s, f, v); }                                \
    size_t y_##NAME(uint32_t f, const __VA_ARGS__ &v) { return serialize_size<MODE>(f, v); }
#include "pb_fields.inc"
}
