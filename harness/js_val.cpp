// Containers, messages and bytes of spb/json/deserialize.hpp over any input stream.
#include "vtypes.hpp"
#include <memory>
#include <string>
#include <spb/json.hpp>
using namespace spb::json::detail;
extern "C"
{
#define D(NAME, T, ...)                                                                                                     \
    void k_##NAME(V::js &s, T &v) { deserialize<field_attributes{__VA_ARGS__}>(s, v); }
using map_int = V::map<int32_t, V::msg>;
using map_str = V::map<std::string, int32_t>;
using frep_i32 = V::frep<int32_t, 20>;
using frep_u64 = V::frep<uint64_t, 20>;
D(rep_i32, V::rep<int32_t>)
D(rep_double, V::rep<double>)
D(rep_bool, V::rep<bool>)
D(rep_str, V::rep<V::str>)
D(rep_byt, V::rep<V::byt>)
D(rep_msg, V::rep<V::msg>)
D(rep_i32_max, V::rep<int32_t>, .max_count = 5)
D(rep_bool_max, V::rep<bool>, .max_count = 5)
D(rep_msg_max, V::rep<V::msg>, .max_count = 5)
D(frep_i32, frep_i32)
D(frep_u64, frep_u64)
D(opt_i32, V::opt<int32_t>)
D(opt_bool, V::opt<bool>)
D(opt_str, V::opt<V::str>)
D(opt_msg, V::opt<V::msg>)
D(ptr_msg, std::unique_ptr<V::msg>)
D(map_int, map_int)
D(map_str, map_str)
D(msg, V::msg)
D(byt, V::byt)
D(byt_max, V::byt, .max_size = 10)
D(fbyt, V::fbyt)
void k_var0(V::js &s, V::var<int32_t, V::msg> &v) { deserialize_variant<field_attributes{}, 0>(s, v); }
void k_var1(V::js &s, V::var<int32_t, V::msg> &v) { deserialize_variant<field_attributes{}, 1>(s, v); }
int32_t k_int(V::js &s) { return deserialize_int(s); }
}
