F(str, M(0), V::str)
F(str_max, M(0, 0, 0, 10), V::str)
F(byt, M(0), V::byt)
F(byt_max, M(0, 0, 0, 10), V::byt)
F(fstr, M(0), V::fstr)
F(fbyt, M(0), V::fbyt)
F(msg, M(0), V::msg)
F(ptr_msg, M(0), std::unique_ptr<V::msg>)
F(opt_varint_i32, M(1), V::opt<int32_t>)
F(opt_svarint_i64, M(2), V::opt<int64_t>)
F(opt_i64_double, M(4), V::opt<double>)
F(opt_varint_bool, M(1), V::opt<bool>)
F(opt_enum_i32, M(1), V::opt<E_i32>)
F(opt_str, M(0), V::opt<V::str>)
F(opt_str_max, M(0, 0, 0, 10), V::opt<V::str>)
F(opt_byt, M(0), V::opt<V::byt>)
F(opt_byt_max, M(0, 0, 0, 10), V::opt<V::byt>)
F(opt_msg, M(0), V::opt<V::msg>)
F(opt_fbyt, M(0), V::opt<V::fbyt>)
F(rep_varint_i32, M(1), V::rep<int32_t>)
F(rep_svarint_i64, M(2), V::rep<int64_t>)
F(rep_i32_u32_max, M(3, 0, 3), V::rep<uint32_t>)
F(rep_varint_bool, M(1), V::rep<bool>)
F(rep_enum_i32, M(1), V::rep<E_i32>)
F(rep_str, M(0), V::rep<V::str>)
F(rep_str_max, M(0, 0, 3, 10), V::rep<V::str>)
F(rep_byt, M(0), V::rep<V::byt>)
F(rep_byt_max, M(0, 0, 3, 10), V::rep<V::byt>)
F(rep_msg, M(0), V::rep<V::msg>)
F(rep_msg_max, M(0, 0, 3), V::rep<V::msg>)
F(pak_varint_i32, M(9), V::rep<int32_t>)
F(pak_varint_u64, M(9), V::rep<uint64_t>)
F(pak_varint_i8, M(9), V::rep<int8_t>)
F(pak_svarint_i32, M(10), V::rep<int32_t>)
F(pak_i32_float, M(11), V::rep<float>)
F(pak_i64_i64, M(12), V::rep<int64_t>)
F(pak_varint_bool, M(9), V::rep<bool>)
F(pak_enum_i32, M(9), V::rep<E_i32>)
F(pak_i64_double_max, M(12, 0, 3), V::rep<double>)
F(pak_varint_u32_max, M(9, 0, 3), V::rep<uint32_t>)
F(fix_varint_i32, M(9), V::frep<int32_t, 20>)
F(fix_varint_bool, M(9), V::frep<bool, 20>)
F(fix_i64_u64, M(12), V::frep<uint64_t, 20>)
F(fix_svarint_i64, M(10), V::frep<int64_t, 20>)
F(map_varint_i32__str, M(1, 0), V::map<int32_t, V::str>)
F(map_str__msg, M(0, 0), V::map<V::str, V::msg>)
F(map_str__varint_i32, M(0, 1), V::map<V::str, int32_t>)
F(map_varint_bool__byt, M(1, 0), V::map<bool, V::byt>)
F(map_svarint_i64__enum_i32, M(2, 1), V::map<int64_t, E_i32>)
F(map_i32_u32__i64_double, M(3, 4), V::map<uint32_t, double>)
F(map_i64_i64__varint_bool, M(4, 1), V::map<int64_t, bool>)
