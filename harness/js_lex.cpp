// Lexical part of spb/json/deserialize.hpp: strings, escapes, literals and skipping, over any input stream.
#include "vtypes.hpp"
#include <spb/json.hpp>
using namespace spb::json::detail;
extern "C"
{
void k_ignore_string(V::js &s) { ignore_string(s); }
void k_until(V::js &s) { ignore_string_until_double_quota(s); }
void k_ignore_value(V::js &s) { ignore_value(s); }
void k_ignore_object(V::js &s) { ignore_object(s); }
void k_ignore_array(V::js &s) { ignore_array(s); }
void k_ignore_key_and_value(V::js &s) { ignore_key_and_value(s); }
std::string_view k_buffer(V::js &s, size_t min, size_t max, char *b) { return deserialize_string_to_buffer(s, min, max, b); }
std::string_view k_key(V::js &s, size_t min, size_t max, char *b) { return deserialize_key(s, min, max, b); }
uint16_t k_hex(V::js &s) { return unicode_from_hex(s); }
uint32_t k_unescape(V::js &s, char *b) { return unescape(s, b); }
void k_str(V::js &s, V::str &v) { deserialize<field_attributes{}>(s, v); }
void k_str_max(V::js &s, V::str &v) { deserialize<field_attributes{.max_size = 10}>(s, v); }
void k_fstr(V::js &s, V::fstr &v) { deserialize<field_attributes{}>(s, v); }
void k_bool(V::js &s, bool &v) { deserialize<field_attributes{}>(s, v); }
#define N(NAME, T)                                                                                                          \
    void k_num_##NAME(V::js &s, T &v) { deserialize<field_attributes{}>(s, v); }
#define B(NAME, T)                                                                                                          \
    T k_bits_##NAME(V::js &s, uint32_t bits) { return deserialize_bitfield<field_attributes{}, T>(s, bits); }
N(i8, int8_t)
N(i16, int16_t)
N(i32, int32_t)
N(i64, int64_t)
N(u8, uint8_t)
N(u16, uint16_t)
N(u32, uint32_t)
N(u64, uint64_t)
N(float, float)
N(double, double)
B(i8, int8_t)
B(i16, int16_t)
B(i32, int32_t)
B(i64, int64_t)
B(u8, uint8_t)
B(u16, uint16_t)
B(u32, uint32_t)
B(u64, uint64_t)
}
