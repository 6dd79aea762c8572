// spb/utf8.h: validation and conversion of UTF-8 text.
#include <new>
#include <string_view>
#include <spb/utf8.h>
using namespace spb::detail;
extern "C"
{
bool u_valid(const char *p, size_t n) { return utf8::is_valid(std::string_view(p, n)); }
void u_validate(const char *p, size_t n) { utf8::validate(std::string_view(p, n)); }
uint32_t u_decode(uint32_t *state, uint32_t *codep, uint8_t byte) { return utf8::decode_point(state, codep, byte); }
uint32_t u_encode(uint32_t cp, char *out) { return utf8::encode_point(cp, out); }
}
