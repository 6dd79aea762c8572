// Abstract instantiation arguments for the real templates in /repo/include/spb.
// Every member declared here is *undefined on purpose*: the verifier gives it a
// contract (see irv/contracts), so the template bodies are proved for every type
// that meets that contract.  Nothing in here re-implements code of /repo.
#pragma once
#include <utility>
#include <cstddef>
#include <cstdint>
#include <string_view>
#include <type_traits>

//- the real streams live in these namespaces, so they are associated (ADL) namespaces here as well
namespace spb::pb::detail
{
struct v_adl
{
};
} // namespace spb::pb::detail
namespace spb::json::detail
{
struct v_adl
{
};
} // namespace spb::json::detail

namespace V
{
//- output stream of pb and json serializers
template <bool SizeOnly> struct os : spb::pb::detail::v_adl, spb::json::detail::v_adl
{
    static constexpr bool size_only = SizeOnly;
    size_t ghost;
    bool put_comma;
    void write(uint8_t byte);
    void write(const void *data, size_t data_size);
};
using osw = os<false>;
using oss = os<true>;

//- input stream of pb deserializers
struct is : spb::pb::detail::v_adl
{
    size_t pos;
    size_t lim;
    size_t size() const noexcept;
    bool empty() const noexcept;
    size_t consumed_size() const noexcept;
    [[nodiscard]] uint8_t read_byte_or_throw();
    [[nodiscard]] int read_byte_or_eof();
    void read_exact_or_throw(void *data, size_t data_size);
    [[nodiscard]] is sub_stream(size_t sub_size);
    void skip_or_throw(size_t size);
};

//- input stream of json deserializers
struct js : spb::json::detail::v_adl
{
    size_t ghost_id;
    [[nodiscard]] size_t size() const noexcept;
    [[nodiscard]] bool empty() const noexcept;
    void skip(size_t chars);
    [[nodiscard]] bool consume(char c);
    [[nodiscard]] bool consume_and_skip_white_space(char c);
    [[nodiscard]] bool consume_and_skip_white_space(std::string_view token);
    [[nodiscard]] int current_char();
    void skip_white_spaces();
    void consume_current_char(bool skip_white_space);
    [[nodiscard]] std::string_view view(size_t min_size, size_t max_size);
};

//- resizable / fixed byte sequence containers
template <class C, int Kind> struct seq
{
    using value_type = C;
    size_t ghost_id;
    seq();
    seq(const seq &);
    seq(seq &&) noexcept;
    seq &operator=(const seq &);
    seq &operator=(seq &&) noexcept;
    ~seq();
    C *data();
    const C *data() const;
    size_t size() const;
    bool empty() const;
    C *begin();
    C *end();
    const C *begin() const;
    const C *end() const;
    void clear() requires(Kind == 0);
    void resize(size_t) requires(Kind == 0);
    void append(const C *, size_t) requires(Kind == 0 && std::is_same_v<C, char>);
};
using str  = seq<char, 0>;
using fstr = seq<char, 1>;
using byt  = seq<std::byte, 0>;
using fbyt = seq<std::byte, 1>;

//- position in a container
struct cur
{
    const void *owner;
    size_t idx;
};

//- repeated
template <class T> struct rep
{
    using value_type = T;
    size_t ghost_id;
    struct it : cur
    {
        const T &operator*() const;
        it &operator++();
        bool operator!=(const it &) const;
        bool operator==(const it &) const;
    };
    it begin() const;
    it end() const;
    bool empty() const;
    size_t size() const;
    void clear();
    T &emplace_back();
    void emplace_back(T) requires(std::is_same_v<T, bool>);
    void push_back(T);
    T &operator[](size_t);
    const T &operator[](size_t) const;
};

//- repeated, fixed size
template <class T, size_t N> struct frep
{
    using value_type = T;
    size_t ghost_id;
    constexpr size_t size() const
    {
        return N;
    }
    T &operator[](size_t);
    const T &operator[](size_t) const;
};

template <class T> struct opt
{
    using value_type = T;
    size_t ghost_id;
    bool has_value() const;
    void reset();
    T &operator*();
    const T &operator*() const;
    T &emplace(T &&);
};

template <class K, class M> struct map
{
    using key_type    = K;
    using mapped_type = M;
    using value_type  = std::pair<const K, M>;
    size_t ghost_id;
    struct it : cur
    {
        const value_type &operator*() const;
        it &operator++();
        bool operator!=(const it &) const;
        bool operator==(const it &) const;
    };
    it begin() const;
    it end() const;
    bool empty() const;
    size_t size() const;
    void clear();
    void insert(std::pair<K, M> &&);
    void emplace(K &&, M &&);
    M &operator[](K &&);
    M &operator[](const K &);
    void insert_or_assign(K &&, M &&);
};

//- message; serialize_value/deserialize_value stand for the functions sprotoc generates
struct msg
{
    size_t ghost_id;
    msg();
    msg(const msg &);
    msg(msg &&) noexcept;
    msg &operator=(const msg &);
    msg &operator=(msg &&) noexcept;
    ~msg();
};
template <class S> void serialize_value(S &stream, const msg &value);
template <class S, class T> void deserialize_value(S &stream, msg &value, T tag);
template <class S> void deserialize_value(S &stream, msg &value);

//- oneof of two members
template <class A, class B> struct var
{
    size_t ghost_id;
    template <size_t I> std::conditional_t<I == 0, A, B> &emplace();
};
} // namespace V
