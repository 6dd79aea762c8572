// Line driver around the public API of /repo for the bounded stand-ins: builds messages from text,
// serializes and deserializes them in every public way and dumps them back to text.
#pragma once
#include <array>
#include <bit>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <span>
#include <sstream>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>
#include <spb/json.hpp>
#include <spb/pb.hpp>

namespace drv
{
template <class T> struct Msg;

inline void hex(std::string &o, const void *p, size_t n)
{
    static const char d[] = "0123456789abcdef";
    auto b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++)
    {
        o += d[b[i] >> 4];
        o += d[b[i] & 15];
    }
}
inline std::string unhex(std::string_view s)
{
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += char(v(s[i]) * 16 + v(s[i + 1]));
    return r;
}

struct P
{
    const char *p;
    void ex(char c)
    {
        if (*p != c)
        {
            fprintf(stderr, "driver: bad text, expecting %c at %.20s\n", c, p);
            abort();
        }
        ++p;
    }
    std::string tok()
    {
        std::string r;
        while (isalnum((unsigned char)*p) || *p == '-')
            r += *p++;
        return r;
    }
};

template <class T> concept is_msg = requires { Msg<T>::name; };
template <class T> concept is_opt = requires(T t) { t.has_value(); t.reset(); };
template <class T> concept is_ptr = requires(T t) { t.get(); t.release(); };
template <class T> concept is_variant = requires(T t) { t.index(); t.valueless_by_exception(); };
template <class T> concept is_map = requires { typename T::mapped_type; };
template <class T> concept is_bytes = requires { typename T::value_type; } && !is_opt<T> && (std::is_same_v<typename T::value_type, char> || std::is_same_v<typename T::value_type, std::byte>);
template <class T> concept is_grow = requires(T t) { t.emplace_back(); };

template <class T> void dump(std::string &o, const T &v)
{
    if constexpr (is_msg<T>)
        Msg<T>::dump(o, v);
    else if constexpr (std::is_same_v<T, bool>)
    {
        uint8_t raw;
        memcpy(&raw, &v, 1);
        o += std::to_string(int(raw));
    }
    else if constexpr (std::is_same_v<T, float>)
    {
        auto b = std::bit_cast<uint32_t>(v);
        o += std::to_string(b);
    }
    else if constexpr (std::is_same_v<T, double>)
    {
        auto b = std::bit_cast<uint64_t>(v);
        o += std::to_string(b);
    }
    else if constexpr (std::is_enum_v<T>)
        o += std::to_string((long long)v);
    else if constexpr (std::is_integral_v<T>)
        o += std::is_signed_v<T> ? std::to_string((long long)v) : std::to_string((unsigned long long)v);
    else if constexpr (is_opt<T>)
    {
        if (v.has_value())
            dump(o, *v);
        else
            o += '~';
    }
    else if constexpr (is_ptr<T>)
    {
        if (v)
            dump(o, *v);
        else
            o += '~';
    }
    else if constexpr (is_variant<T>)
    {
        o += '#';
        o += std::to_string(v.index());
        o += ':';
        std::visit(
            [&](const auto &x)
            {
                if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>)
                    dump(o, x);
            },
            v);
    }
    else if constexpr (is_map<T>)
    {
        o += '<';
        //- sorted, so unordered maps dump the same
        std::map<std::string, std::string> m;
        for (auto &[k, x] : v)
        {
            std::string a, b;
            dump(a, k);
            dump(b, x);
            m[a] = b;
        }
        for (auto &[a, b] : m)
            o += a + ":" + b + ",";
        o += '>';
    }
    else if constexpr (is_bytes<T>)
    {
        o += 'x';
        hex(o, v.data(), v.size());
    }
    else
    {
        o += '[';
        for (size_t i = 0; i < v.size(); i++)
        {
            if constexpr (std::is_same_v<typename T::value_type, bool>)
                dump(o, bool(v[i]));
            else
                dump(o, v[i]);
            o += ',';
        }
        o += ']';
    }
}

template <class T> void parse(P &p, T &v)
{
    if constexpr (is_msg<T>)
        Msg<T>::parse(p, v);
    else if constexpr (std::is_same_v<T, bool>)
        v = p.tok() == "1";
    else if constexpr (std::is_same_v<T, float>)
        v = std::bit_cast<float>(uint32_t(std::stoull(p.tok())));
    else if constexpr (std::is_same_v<T, double>)
        v = std::bit_cast<double>(uint64_t(std::stoull(p.tok())));
    else if constexpr (std::is_enum_v<T>)
        v = T(std::stoll(p.tok()));
    else if constexpr (std::is_integral_v<T>)
    {
        auto t = p.tok();
        v      = t[0] == '-' ? T(std::stoll(t)) : T(std::stoull(t));
    }
    else if constexpr (is_opt<T>)
    {
        if (*p.p == '~')
        {
            ++p.p;
            v.reset();
        }
        else
            parse(p, v.emplace(typename T::value_type()));
    }
    else if constexpr (is_ptr<T>)
    {
        if (*p.p == '~')
        {
            ++p.p;
            v.reset();
        }
        else
        {
            v = std::make_unique<typename T::element_type>();
            parse(p, *v);
        }
    }
    else if constexpr (is_variant<T>)
    {
        p.ex('#');
        auto ix = size_t(std::stoull(p.tok()));
        p.ex(':');
        [&]<size_t... I>(std::index_sequence<I...>)
        {
            (void)((I == ix ? (
                                  [&]
                                  {
                                      auto &x = v.template emplace<I>();
                                      if constexpr (I != 0)
                                          parse(p, x);
                                  }(),
                                  true)
                            : false) ||
                   ...);
        }(std::make_index_sequence<std::variant_size_v<T>>());
    }
    else if constexpr (is_map<T>)
    {
        p.ex('<');
        while (*p.p != '>')
        {
            typename T::key_type k{};
            typename T::mapped_type m{};
            parse(p, k);
            p.ex(':');
            parse(p, m);
            p.ex(',');
            v[std::move(k)] = std::move(m);
        }
        p.ex('>');
    }
    else if constexpr (is_bytes<T>)
    {
        p.ex('x');
        auto h = unhex(p.tok());
        if constexpr (requires { v.resize(1); })
            v.resize(h.size());
        if (h.size() != v.size())
            abort();
        if (!h.empty())
            memcpy(v.data(), h.data(), h.size());
    }
    else if constexpr (is_grow<T>)
    {
        p.ex('[');
        while (*p.p != ']')
        {
            if constexpr (std::is_same_v<typename T::value_type, bool>)
            {
                bool b;
                parse(p, b);
                v.push_back(b);
            }
            else
                parse(p, v.emplace_back());
            p.ex(',');
        }
        p.ex(']');
    }
    else
    {
        p.ex('[');
        for (size_t i = 0; *p.p != ']'; i++)
        {
            typename T::value_type x{};
            parse(p, x);
            v[i] = x;
            p.ex(',');
        }
        p.ex(']');
    }
}

struct user_error
{
};

//- reader delivering the data in the given chunk sizes (cyclic); 0 = report end of data; negative = throw
struct Reader
{
    std::string_view data;
    std::vector<int> chunks;
    size_t pos = 0, call = 0, bad = 0;
    size_t operator()(void *d, size_t n)
    {
        if (n == 0 || d == nullptr)
            bad++;
        size_t m = n;
        if (!chunks.empty())
        {
            int c = chunks[call % chunks.size()];
            call++;
            if (c < 0)
                throw user_error();
            if (c == 0)
            {
                data = data.substr(0, pos);
                return 0;
            }
            m = std::min<size_t>(m, size_t(c));
        }
        m = std::min(m, data.size() - pos);
        //- the callback may use all of the buffer it was given
        if (n)
            memset(d, 0xa5, n);
        if (m)
            memcpy(d, data.data() + pos, m);
        pos += m;
        return m;
    }
};

inline std::vector<int> ints(std::string_view s)
{
    std::vector<int> r;
    std::stringstream ss{std::string(s)};
    std::string t;
    while (std::getline(ss, t, ','))
        r.push_back(std::stoi(t));
    return r;
}

template <class F> std::string guard(F f)
{
    try
    {
        return f();
    }
    catch (const user_error &)
    {
        return "!user";
    }
    catch (const std::exception &e)
    {
        return "!";
    }
}

template <class T, class F> std::string with_heap(const std::string &s, F f)
{
    //- exactly sized heap copy: the address sanitizer sees every access outside of it
    std::unique_ptr<uint8_t[]> h(new uint8_t[s.size()]);
    if (!s.empty())
        memcpy(h.get(), s.data(), s.size());
    return f(h.get());
}

template <class T> std::string run(const std::string &op, const std::string &payload, const std::string &args)
{
    auto dumped = [](const T &m)
    {
        std::string o;
        dump(o, m);
        return o;
    };
    auto ok = [&](size_t n, const T &m) { return "ok " + std::to_string(n) + " " + dumped(m); };
    if (op == "E" || op == "F")
    {
        T m{};
        P p{payload.c_str()};
        parse(p, m);
        std::string r;
        auto add = [&](std::string s) { r += (r.empty() ? "" : " ") + s; };
        if (op == "E")
        {
            add(guard([&] { return std::to_string(spb::pb::serialize_size(m)); }));
            std::string main;
            bool thrown = false;
            add(guard(
                [&]
                {
                    try
                    {
                        auto n = spb::pb::serialize(m, main);
                        if (n != main.size())
                            return std::string("?size");
                    }
                    catch (...)
                    {
                        thrown = true;
                        throw;
                    }
                    std::string o = "x";
                    hex(o, main.data(), main.size());
                    return o;
                }));
            add(guard(
                [&]
                {
                    std::string w;
                    auto wr = [&](const void *d, size_t n) { w.append((const char *)d, n); };
                    auto n  = spb::pb::serialize(m, spb::io::writer(wr));
                    std::string o;
                    hex(o, w.data(), w.size());
                    return n != w.size() ? "?ret" : w == main ? std::string("same") : "?" + o;
                }));
            add(guard(
                [&]
                {
                    auto n = spb::pb::serialize_size(m);
                    std::unique_ptr<uint8_t[]> h(new uint8_t[n]);
                    auto k = spb::pb::serialize(m, (void *)h.get());
                    return k != n ? "?ret" : n == main.size() && (n == 0 || memcmp(h.get(), main.data(), n) == 0) ? std::string("same") : "?diff";
                }));
            add(guard(
                [&]
                {
                    auto v = spb::pb::serialize<std::vector<std::byte>>(m, {.delimited = true});
                    auto n = spb::pb::serialize_size(m, {.delimited = true});
                    std::string w;
                    auto wr = [&](const void *d, size_t k) { w.append((const char *)d, k); };
                    auto k  = spb::pb::serialize(m, spb::io::writer(wr), {.delimited = true});
                    std::unique_ptr<uint8_t[]> h(new uint8_t[n]);
                    auto b = spb::pb::serialize(m, (void *)h.get(), {.delimited = true});
                    if (n != v.size() || k != n || b != n || w.size() != n)
                        return std::string("?size");
                    if (n && (memcmp(w.data(), v.data(), n) != 0 || memcmp(h.get(), v.data(), n) != 0))
                        return std::string("?diff");
                    std::string o = "x";
                    hex(o, v.data(), v.size());
                    return o;
                }));
            (void)thrown;
        }
        else
        {
            add(guard([&] { return std::to_string(spb::json::serialize_size(m)); }));
            std::string main;
            add(guard(
                [&]
                {
                    auto n = spb::json::serialize(m, main);
                    if (n != main.size())
                        return std::string("?size");
                    std::string o = "x";
                    hex(o, main.data(), main.size());
                    return o;
                }));
            add(guard(
                [&]
                {
                    std::string w;
                    auto wr = [&](const void *d, size_t n) { w.append((const char *)d, n); };
                    auto n  = spb::json::serialize(m, spb::io::writer(wr));
                    return n != w.size() ? "?ret" : w == main ? std::string("same") : "?diff";
                }));
            add(guard(
                [&]
                {
                    auto n = spb::json::serialize_size(m);
                    std::unique_ptr<uint8_t[]> h(new uint8_t[n]);
                    auto k = spb::json::serialize(m, (void *)h.get());
                    return k != n ? "?ret" : n == main.size() && (n == 0 || memcmp(h.get(), main.data(), n) == 0) ? std::string("same") : "?diff";
                }));
        }
        return r;
    }
    auto data = unhex(payload);
    if (op == "D" || op == "DD")
        return with_heap<T>(data, [&](const uint8_t *h) { return guard([&] {
            T m{};
            auto n = spb::pb::deserialize(m, (const void *)h, data.size(), {.delimited = op == "DD"});
            return ok(n, m); }); });
    if (op == "J")
        return with_heap<T>(data, [&](const uint8_t *h) { return guard([&] {
            T m{};
            auto n = spb::json::deserialize(m, (const void *)h, data.size());
            return ok(n, m); }); });
    if (op == "R" || op == "RD" || op == "K")
    {
        //- the reader copies from an exactly sized buffer
        std::unique_ptr<char[]> h(new char[data.size()]);
        memcpy(h.get(), data.data(), data.size());
        Reader rd{std::string_view(h.get(), data.size()), ints(args)};
        auto s = guard(
            [&]
            {
                T m{};
                auto n = op == "K" ? spb::json::deserialize(m, spb::io::reader(rd))
                                   : spb::pb::deserialize(m, spb::io::reader(rd), {.delimited = op == "RD"});
                return ok(n, m);
            });
        if (rd.bad)
            s += " ?badcall";
        if (op == "RD")
            s += " @" + std::to_string(rd.pos);
        return s;
    }
    if (op == "S")
    {
        //- all delimited messages of one reader, one after the other
        Reader rd{data, ints(args)};
        std::string r;
        for (int i = 0; i < 100 && rd.pos < data.size(); i++)
        {
            auto s = guard(
                [&]
                {
                    T m{};
                    auto n = spb::pb::deserialize(m, spb::io::reader(rd), {.delimited = true});
                    return ok(n, m);
                });
            r += s + "|";
            if (s[0] == '!')
                break;
        }
        return r;
    }
    if (op == "W" || op == "V")
    {
        //- the writer throws at the n-th call
        T m{};
        P p{payload.c_str()};
        parse(p, m);
        int k   = std::stoi(args);
        auto wr = [&](const void *, size_t)
        {
            if (k-- == 0)
                throw user_error();
        };
        return guard([&] { return std::to_string(op == "W" ? spb::pb::serialize(m, spb::io::writer(wr)) : spb::json::serialize(m, spb::io::writer(wr))); });
    }
    return "?op";
}

using fn = std::string (*)(const std::string &, const std::string &, const std::string &);
inline std::map<std::string, fn> &registry()
{
    static std::map<std::string, fn> r;
    return r;
}
struct reg
{
    reg(const char *n, fn f)
    {
        registry()[n] = f;
    }
};
} // namespace drv
