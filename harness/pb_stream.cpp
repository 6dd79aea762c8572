// The real streams of spb/pb and the functions of spb/pb.hpp, with a user reader / writer and a message of which nothing is known.
#include "vtypes.hpp"
#include <new>
#include <spb/pb.hpp>
namespace V
{
//- user callbacks, undefined on purpose
struct rd
{
    size_t ghost_id;
    size_t operator()(void *data, size_t size);
};
struct wr
{
    size_t ghost_id;
    void operator()(const void *data, size_t size);
};
//- a message: some bytes, the same in every pass.  Every sequence of writes amounts to one write of their concatenation
//- (tasks 'write' below: a write appends its bytes), so the generated serialize_value is taken as one write.
struct blob
{
    size_t ghost_id;
    const void *bytes() const;
    size_t length() const;
};
template <class S> void serialize_value(S &s, const blob &m) { s.write(m.bytes(), m.length()); }
//- output container
struct box
{
    using value_type = char;
    size_t ghost_id;
    void resize(size_t);
    char *data();
    size_t size() const;
    char *begin();
    char *end();
    const char *begin() const;
    const char *end() const;
};
} // namespace V
using namespace spb::pb::detail;
extern "C"
{
//- buffer
void b_new(istream_buffer *s, const uint8_t *p, size_t n) { new (s) istream_buffer(p, n); }
size_t b_size(istream_buffer &s) { return s.size(); }
bool b_empty(istream_buffer &s) { return s.empty(); }
uint8_t b_byte(istream_buffer &s) { return s.read_byte_or_throw(); }
int b_eof(istream_buffer &s) { return s.read_byte_or_eof(); }
int b_peek(istream_buffer &s) { auto t = s; return t.read_byte_or_eof(); }
void b_exact(istream_buffer &s, void *d, size_t n) { s.read_exact_or_throw(d, n); }
void b_sub(istream_buffer &s, size_t n, istream_buffer *o) { new (o) istream_buffer(s.sub_stream(n)); }
void b_skip(istream_buffer &s, size_t n) { s.skip_or_throw(n); }
//- reader
void r_new(istream_reader *s, V::rd &r) { new (s) istream_reader(spb::io::reader(r)); }
void r_new_n(istream_reader *s, V::rd &r, size_t n) { new (s) istream_reader(spb::io::reader(r), n); }
size_t r_size(istream_reader &s) { return s.size(); }
size_t r_consumed(istream_reader &s) { return s.consumed_size(); }
bool r_empty(istream_reader &s) { return s.empty(); }
size_t r_read(istream_reader &s, void *d, size_t n) { return s.read(d, n); }
uint8_t r_byte(istream_reader &s) { return s.read_byte_or_throw(); }
int r_eof(istream_reader &s) { return s.read_byte_or_eof(); }
void r_exact(istream_reader &s, void *d, size_t n) { s.read_exact_or_throw(d, n); }
void r_sub(istream_reader &s, size_t n, istream_reader *o) { new (o) istream_reader(s.sub_stream(n)); }
void r_skip(istream_reader &s, size_t n) { s.skip_or_throw(n); }
//- output
void ob_new(ostream_buffer *s, void *p) { new (s) ostream_buffer(p); }
void ob_byte(ostream_buffer &s, uint8_t b) { s.write(b); }
void ob_write(ostream_buffer &s, const void *p, size_t n) { s.write(p, n); }
void ow_new(ostream_writer *s, V::wr &w) { new (s) ostream_writer(spb::io::writer(w)); }
void ow_byte(ostream_writer &s, uint8_t b) { s.write(b); }
void ow_write(ostream_writer &s, const void *p, size_t n) { s.write(p, n); }
size_t ow_size(ostream_writer &s) { return s.size; }
void os_byte(ostream_size &s, uint8_t b) { s.write(b); }
void os_write(ostream_size &s, const void *p, size_t n) { s.write(p, n); }
size_t os_size(ostream_size &s) { return s.size; }
//- spb/pb.hpp
size_t a_size(const V::blob &m, bool d) { return spb::pb::serialize_size(m, {.delimited = d}); }
size_t a_buffer(const V::blob &m, void *p, bool d) { return spb::pb::serialize(m, p, {.delimited = d}); }
size_t a_box(const V::blob &m, V::box &b, bool d) { return spb::pb::serialize(m, b, {.delimited = d}); }
size_t a_writer(const V::blob &m, V::wr &w, bool d) { return spb::pb::serialize(m, spb::io::writer(w), {.delimited = d}); }
size_t a_read(V::msg &m, const void *p, size_t n, bool d) { return spb::pb::deserialize(m, p, n, {.delimited = d}); }
size_t a_reader(V::msg &m, V::rd &r, bool d) { return spb::pb::deserialize(m, spb::io::reader(r), {.delimited = d}); }
}
