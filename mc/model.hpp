// The reference model: what every supported type means on the wire, written
// from the documentation and independently of the implementation.  M<T> has
//   gen(G&)           a value of T chosen by the explorer
//   enc(Enc&, T)      the reference encoding
//   dec(Dec&, T&)     the reference decoder
//   eq(T, T)          logical equality
#ifndef MODEL_HPP
#define MODEL_HPP

#include "mc.hpp"

#include <array>
#include <bit>
#include <bitset>
#include <cmath>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include ZPP_BITS_HEADER

namespace model
{
using bytes_t = std::vector<std::byte>;

enum class prefix
{
    p1 = 1,
    p2 = 2,
    p4 = 4,
    p8 = 8,
    varint = 16,
    none = 0,
};

struct config
{
    bool swapped{};
    prefix size{prefix::p4};
    std::size_t alloc_limit = ~std::size_t{};
};

// ---------------------------------------------------------------- generation
struct G
{
    std::uint64_t salt{};
    int big{};   // allow long containers at this level
    int level{}; // container nesting
    bool plain{}; // no more choices below

    std::uint64_t next()
    {
        return salt++;
    }
    std::size_t deviate(std::size_t n, const char * label = "")
    {
        return plain ? 0 : mc::deviate(n, label);
    }
};

// ---------------------------------------------------------------- reference encoder
struct Enc
{
    config c;
    bytes_t out;
    std::errc error{};

    void raw(const void * data, std::size_t size)
    {
        auto p = static_cast<const std::byte *>(data);
        out.insert(out.end(), p, p + size);
    }
    // A number of `width` bytes in the order of the archive.
    void number(unsigned __int128 v, std::size_t width)
    {
        for (std::size_t i = 0; i < width; ++i) {
            auto k = c.swapped ? width - 1 - i : i;
            out.push_back(std::byte(std::uint8_t(v >> (8 * k))));
        }
    }
    void varint(std::uint64_t v)
    {
        while (v >= 128) {
            out.push_back(std::byte(std::uint8_t(v % 128 + 128)));
            v /= 128;
        }
        out.push_back(std::byte(std::uint8_t(v)));
    }
    // Writes the element count and returns how many elements follow.
    std::size_t count(std::size_t n)
    {
        switch (c.size) {
        case prefix::none:
            return n;
        case prefix::varint:
            varint(n);
            return n;
        default: {
            auto width = std::size_t(c.size);
            if (width < 8) {
                n &= (std::uint64_t{1} << (8 * width)) - 1;
            }
            number(n, width);
            return n;
        }
        }
    }
};

// ---------------------------------------------------------------- reference decoder
struct Dec
{
    config c;
    const std::byte * data{};
    std::size_t size{};
    std::size_t pos{};
    bool odd_bool{};  // a boolean byte other than 0 and 1 was read
    bool duplicate{}; // an associative container repeated a key

    std::size_t left() const
    {
        return size - pos;
    }
    std::errc number(std::uint64_t & v, std::size_t width)
    {
        if (left() < width) {
            return std::errc::result_out_of_range;
        }
        v = 0;
        for (std::size_t i = 0; i < width; ++i) {
            auto k = c.swapped ? width - 1 - i : i;
            v |= std::uint64_t(std::uint8_t(data[pos + i])) << (8 * k);
        }
        pos += width;
        return {};
    }
    std::errc varint(std::uint64_t & v, std::size_t bits)
    {
        auto max = (bits + 6) / 7;
        auto p = pos;
        v = 0;
        for (std::size_t i = 0; i < max; ++i) {
            if (p == size) {
                return std::errc::result_out_of_range;
            }
            auto b = std::uint8_t(data[p++]);
            if (7 * i < 64) {
                v |= std::uint64_t(b & 0x7f) << (7 * i);
            }
            if (!(b & 0x80)) {
                pos = p;
                if (bits < 64) {
                    v &= (std::uint64_t{1} << bits) - 1;
                }
                return {};
            }
        }
        return std::errc::value_too_large;
    }
    std::errc count(std::uint64_t & n)
    {
        if (c.size == prefix::varint) {
            return varint(n, 64);
        }
        return number(n, std::size_t(c.size));
    }
};

template <typename T>
struct M;
template <typename T>
T fresh_of();

template <typename T>
std::uint64_t to_bits(T v)
{
    if constexpr (sizeof(T) == 1) {
        return std::bit_cast<std::uint8_t>(v);
    } else if constexpr (sizeof(T) == 2) {
        return std::bit_cast<std::uint16_t>(v);
    } else if constexpr (sizeof(T) == 4) {
        return std::bit_cast<std::uint32_t>(v);
    } else {
        return std::bit_cast<std::uint64_t>(v);
    }
}
template <typename T>
void from_bits(std::uint64_t b, T & v)
{
    if constexpr (sizeof(T) == 1) {
        auto x = std::uint8_t(b);
        std::memcpy(&v, &x, 1);
    } else if constexpr (sizeof(T) == 2) {
        auto x = std::uint16_t(b);
        std::memcpy(&v, &x, 2);
    } else if constexpr (sizeof(T) == 4) {
        auto x = std::uint32_t(b);
        std::memcpy(&v, &x, 4);
    } else {
        std::memcpy(&v, &b, 8);
    }
}

// Distinct bytes in every number, and distinct numbers.
inline std::uint64_t pattern(std::uint64_t n)
{
    return 0x1827364554637281ull + n * 0x0103050709020406ull;
}

template <typename T>
    requires std::is_arithmetic_v<T> || std::is_enum_v<T>
struct M<T>
{
    static T gen(G & g)
    {
        auto n = g.next();
        if constexpr (std::same_as<T, bool>) {
            return g.deviate(2, "bool") ? !(n & 1) : bool(n & 1);
        } else {
            constexpr int alternatives = 8;
            std::uint64_t b;
            constexpr auto bits = sizeof(T) * 8;
            switch (g.deviate(alternatives, "number")) {
            case 0:
                b = pattern(n);
                break;
            case 1:
                b = 0;
                break;
            case 2:
                b = ~std::uint64_t{};
                break;
            case 3:
                b = std::uint64_t{1} << (bits - 1);
                break;
            case 4:
                b = ~(std::uint64_t{1} << (bits - 1));
                break;
            case 5:
                b = 1;
                break;
            case 6:
                b = 0x80;
                break;
            default:
                b = 0xff;
                break;
            }
            T v;
            from_bits(b, v);
            return v;
        }
    }
    static void enc(Enc & e, const T & v)
    {
        e.number(to_bits(v), sizeof(T));
    }
    static std::errc dec(Dec & d, T & v)
    {
        std::uint64_t b;
        if (auto r = d.number(b, sizeof(T)); r != std::errc{}) {
            return r;
        }
        if constexpr (std::same_as<T, bool>) {
            if (b > 1) {
                d.odd_bool = true;
                b = 1;
            }
        }
        from_bits(b, v);
        return {};
    }
    static bool eq(const T & a, const T & b)
    {
        return to_bits(a) == to_bits(b);
    }
};

template <typename T, zpp::bits::varint_encoding E>
struct M<zpp::bits::varint<T, E>>
{
    using V = zpp::bits::varint<T, E>;
    static constexpr bool zig_zag = E == zpp::bits::varint_encoding::zig_zag;
    static constexpr auto bits = sizeof(T) * 8;

    static V gen(G & g)
    {
        auto n = g.next();
        std::uint64_t b;
        switch (g.deviate(10, "varint")) {
        case 0:
            b = 0x12345678 + n * 0x01010101;
            break;
        case 1:
            b = 0;
            break;
        case 2:
            b = ~std::uint64_t{};
            break;
        case 3:
            b = 0x7f;
            break;
        case 4:
            b = 0x80;
            break;
        case 5:
            b = std::uint64_t{1} << (bits - 1);
            break;
        case 6:
            b = ~(std::uint64_t{1} << (bits - 1));
            break;
        case 7:
            b = 0x3fff;
            break;
        case 8:
            b = 0x4000;
            break;
        default:
            b = (std::uint64_t{1} << (bits - 1)) / 64;
            break;
        }
        T v;
        from_bits(b, v);
        return V{v};
    }
    static std::uint64_t mask(std::uint64_t b)
    {
        return bits < 64 ? b & ((std::uint64_t{1} << bits) - 1) : b;
    }
    static std::uint64_t to_wire(T v)
    {
        auto b = to_bits(v);
        if constexpr (zig_zag) {
            bool negative = b >> (bits - 1) & 1;
            b = mask(b << 1);
            if (negative) {
                b = mask(~b);
            }
        }
        return b;
    }
    static T from_wire(std::uint64_t b)
    {
        if constexpr (zig_zag) {
            bool odd = b & 1;
            b >>= 1;
            if (odd) {
                b = mask(~b);
            }
        }
        T v;
        from_bits(b, v);
        return v;
    }
    static void enc(Enc & e, const V & v)
    {
        e.varint(to_wire(v.value));
    }
    static std::errc dec(Dec & d, V & v)
    {
        std::uint64_t b;
        if (auto r = d.varint(b, bits); r != std::errc{}) {
            return r;
        }
        v.value = from_wire(b);
        return {};
    }
    static bool eq(const V & a, const V & b)
    {
        return to_bits(a.value) == to_bits(b.value);
    }
};

// ---------------------------------------------------------------- containers
template <typename T>
concept resizable_sequence = requires(T t) {
    t.resize(1);
    typename T::value_type;
    t.begin();
} && !requires { typename T::key_type; };

template <typename T>
concept associative = requires(T t) {
    typename T::key_type;
    t.clear();
    t.insert(std::declval<typename T::value_type>());
};

inline std::size_t gen_count(G & g)
{
    // Counts: small ones at every level, longer ones (a second byte in a
    // variable length prefix, capacity growth) at the top one.
    static constexpr std::size_t counts[] = {2, 0, 1, 3, 127, 128, 200};
    auto n = counts[g.deviate(g.big && g.level == 0 ? 7 : 4, "count")];
    return n;
}

template <resizable_sequence T>
struct M<T>
{
    using E = typename T::value_type;
    static T gen(G & g)
    {
        auto n = gen_count(g);
        T v;
        ++g.level;
        if (n > 3) {
            // Long containers: only the elements near both ends vary.
            for (std::size_t i = 0; i < n; ++i) {
                if (i == 0 || i == n - 1) {
                    v.push_back(M<E>::gen(g));
                } else {
                    auto plain = g.plain;
                    g.plain = true;
                    v.push_back(M<E>::gen(g));
                    g.plain = plain;
                }
            }
        } else {
            for (std::size_t i = 0; i < n; ++i) {
                v.push_back(M<E>::gen(g));
            }
        }
        --g.level;
        return v;
    }
    static void enc(Enc & e, const T & v)
    {
        auto n = e.count(v.size());
        for (auto & x : v) {
            if (!n--) {
                break;
            }
            M<E>::enc(e, x);
        }
    }
    static std::errc dec(Dec & d, T & v)
    {
        std::uint64_t n = v.size();
        if (d.c.size != prefix::none) {
            if (auto r = d.count(n); r != std::errc{}) {
                return r;
            }
            if (n > d.c.alloc_limit / sizeof(E)) {
                return std::errc::message_size;
            }
        }
        v.clear();
        for (std::uint64_t i = 0; i < n; ++i) {
            E x = fresh_of<E>();
            if (auto r = M<E>::dec(d, x); r != std::errc{}) {
                return r;
            }
            v.push_back(std::move(x));
        }
        return {};
    }
    static bool eq(const T & a, const T & b)
    {
        if (a.size() != b.size()) {
            return false;
        }
        auto j = b.begin();
        for (auto i = a.begin(); i != a.end(); ++i, ++j) {
            if (!M<E>::eq(*i, *j)) {
                return false;
            }
        }
        return true;
    }
};

template <associative T>
struct M<T>
{
    using K = typename T::key_type;
    static constexpr bool is_map = requires { typename T::mapped_type; };

    static T gen(G & g)
    {
        static constexpr std::size_t counts[] = {2, 0, 1, 4};
        auto n = counts[g.deviate(4, "count")];
        T v;
        ++g.level;
        for (std::size_t i = 0; i < n; ++i) {
            if constexpr (is_map) {
                auto key = M<K>::gen(g);
                auto value = M<typename T::mapped_type>::gen(g);
                v.insert({std::move(key), std::move(value)});
            } else {
                v.insert(M<K>::gen(g));
            }
        }
        --g.level;
        return v;
    }
    static void enc(Enc & e, const T & v)
    {
        auto n = e.count(v.size());
        for (auto & x : v) {
            if (!n--) {
                break;
            }
            if constexpr (is_map) {
                M<K>::enc(e, x.first);
                M<typename T::mapped_type>::enc(e, x.second);
            } else {
                M<K>::enc(e, x);
            }
        }
    }
    static std::errc dec(Dec & d, T & v)
    {
        std::uint64_t n;
        if (auto r = d.count(n); r != std::errc{}) {
            return r;
        }
        v.clear();
        for (std::uint64_t i = 0; i < n; ++i) {
            K k = fresh_of<K>();
            if (auto r = M<K>::dec(d, k); r != std::errc{}) {
                return r;
            }
            auto before = v.size();
            if constexpr (is_map) {
                auto m = fresh_of<typename T::mapped_type>();
                if (auto r = M<typename T::mapped_type>::dec(d, m);
                    r != std::errc{}) {
                    return r;
                }
                v.insert({std::move(k), std::move(m)});
            } else {
                v.insert(std::move(k));
            }
            if (v.size() == before) {
                d.duplicate = true;
            }
        }
        return {};
    }
    static bool eq(const T & a, const T & b)
    {
        if (a.size() != b.size()) {
            return false;
        }
        if constexpr (requires { a.bucket_count(); }) {
            if constexpr (is_map) {
                for (auto & [k, m] : a) {
                    auto i = b.find(k);
                    if (i == b.end() ||
                        !M<typename T::mapped_type>::eq(m, i->second)) {
                        return false;
                    }
                }
                return true;
            } else {
                return a == b;
            }
        } else {
            auto j = b.begin();
            for (auto i = a.begin(); i != a.end(); ++i, ++j) {
                if constexpr (is_map) {
                    if (!M<K>::eq(i->first, j->first) ||
                        !M<typename T::mapped_type>::eq(i->second,
                                                        j->second)) {
                        return false;
                    }
                } else if (!M<K>::eq(*i, *j)) {
                    return false;
                }
            }
            return true;
        }
    }
};

template <typename E, std::size_t N>
struct M<std::array<E, N>>
{
    using T = std::array<E, N>;
    static T gen(G & g)
    {
        T v{};
        for (auto & x : v) {
            x = M<E>::gen(g);
        }
        return v;
    }
    static void enc(Enc & e, const T & v)
    {
        for (auto & x : v) {
            M<E>::enc(e, x);
        }
    }
    static std::errc dec(Dec & d, T & v)
    {
        for (auto & x : v) {
            if (auto r = M<E>::dec(d, x); r != std::errc{}) {
                return r;
            }
        }
        return {};
    }
    static bool eq(const T & a, const T & b)
    {
        for (std::size_t i = 0; i < N; ++i) {
            if (!M<E>::eq(a[i], b[i])) {
                return false;
            }
        }
        return true;
    }
};

template <typename E, std::size_t N>
struct M<E[N]>
{
    using T = E[N];
    static void fill(G & g, T & v)
    {
        for (auto & x : v) {
            M<E>::fill(g, x);
        }
    }
    static void enc(Enc & e, const T & v)
    {
        for (auto & x : v) {
            M<E>::enc(e, x);
        }
    }
    static std::errc dec(Dec & d, T & v)
    {
        for (auto & x : v) {
            if (auto r = M<E>::dec(d, x); r != std::errc{}) {
                return r;
            }
        }
        return {};
    }
    static bool eq(const T & a, const T & b)
    {
        for (std::size_t i = 0; i < N; ++i) {
            if (!M<E>::eq(a[i], b[i])) {
                return false;
            }
        }
        return true;
    }
};

// ---------------------------------------------------------------- tuples
template <typename... T>
struct M<std::tuple<T...>>
{
    using V = std::tuple<T...>;
    static V gen(G & g)
    {
        return V{M<T>::gen(g)...};
    }
    static void enc(Enc & e, const V & v)
    {
        std::apply([&](auto &... x) { (M<T>::enc(e, x), ...); }, v);
    }
    static std::errc dec(Dec & d, V & v)
    {
        std::errc r{};
        std::apply(
            [&](auto &... x) {
                (void)(... && ((r = M<T>::dec(d, x)) == std::errc{}));
            },
            v);
        return r;
    }
    static bool eq(const V & a, const V & b)
    {
        return [&]<std::size_t... I>(std::index_sequence<I...>) {
            return (... && M<T>::eq(std::get<I>(a), std::get<I>(b)));
        }(std::index_sequence_for<T...>{});
    }
};

template <typename A, typename B>
struct M<std::pair<A, B>>
{
    using V = std::pair<A, B>;
    static V gen(G & g)
    {
        auto a = M<A>::gen(g);
        auto b = M<B>::gen(g);
        return V{std::move(a), std::move(b)};
    }
    static void enc(Enc & e, const V & v)
    {
        M<A>::enc(e, v.first);
        M<B>::enc(e, v.second);
    }
    static std::errc dec(Dec & d, V & v)
    {
        if (auto r = M<A>::dec(d, v.first); r != std::errc{}) {
            return r;
        }
        return M<B>::dec(d, v.second);
    }
    static bool eq(const V & a, const V & b)
    {
        return M<A>::eq(a.first, b.first) && M<B>::eq(a.second, b.second);
    }
};

// ---------------------------------------------------------------- optionals, pointers
template <typename E>
struct M<std::optional<E>>
{
    using T = std::optional<E>;
    static T gen(G & g)
    {
        if (g.deviate(2, "optional")) {
            return {};
        }
        return T{M<E>::gen(g)};
    }
    static void enc(Enc & e, const T & v)
    {
        e.out.push_back(std::byte(v.has_value()));
        if (v) {
            M<E>::enc(e, *v);
        }
    }
    static std::errc dec(Dec & d, T & v)
    {
        if (!d.left()) {
            return std::errc::result_out_of_range;
        }
        if (d.data[d.pos++] == std::byte{}) {
            v.reset();
            return {};
        }
        v = fresh_of<E>();
        return M<E>::dec(d, *v);
    }
    static bool eq(const T & a, const T & b)
    {
        return bool(a) == bool(b) && (!a || M<E>::eq(*a, *b));
    }
};

template <typename P>
struct pointer_model
{
    using E = typename P::element_type;
    static P gen(G & g)
    {
        return P(new E(M<E>::gen(g)));
    }
    static void enc(Enc & e, const P & v)
    {
        if (!v) {
            if (e.error == std::errc{}) {
                e.error = std::errc::invalid_argument;
            }
            return;
        }
        M<E>::enc(e, *v);
    }
    static std::errc dec(Dec & d, P & v)
    {
        v = P(new E(fresh_of<E>()));
        return M<E>::dec(d, *v);
    }
    static bool eq(const P & a, const P & b)
    {
        return bool(a) == bool(b) && (!a || M<E>::eq(*a, *b));
    }
};
template <typename E>
struct M<std::unique_ptr<E>> : pointer_model<std::unique_ptr<E>>
{
    static std::unique_ptr<E> fresh() { return {}; }
};
template <typename E>
struct M<std::shared_ptr<E>> : pointer_model<std::shared_ptr<E>>
{
    static std::shared_ptr<E> fresh() { return {}; }
};

template <typename E>
struct M<zpp::bits::optional_ptr<E>>
{
    using T = zpp::bits::optional_ptr<E>;
    static T gen(G & g)
    {
        // Recursion through optional_ptr ends at level 2.
        if (g.level >= 2 || g.deviate(2, "optional_ptr")) {
            return {};
        }
        ++g.level;
        T t(new E(M<E>::gen(g)));
        --g.level;
        return t;
    }
    static void enc(Enc & e, const T & v)
    {
        e.out.push_back(std::byte(bool(v)));
        if (v) {
            M<E>::enc(e, *v);
        }
    }
    static std::errc dec(Dec & d, T & v)
    {
        if (!d.left()) {
            return std::errc::result_out_of_range;
        }
        if (d.data[d.pos++] == std::byte{}) {
            v = T{};
            return {};
        }
        v = T(new E(fresh_of<E>()));
        return M<E>::dec(d, *v);
    }
    static bool eq(const T & a, const T & b)
    {
        return bool(a) == bool(b) && (!a || M<E>::eq(*a, *b));
    }
};

// ---------------------------------------------------------------- variants
// The identifier of an alternative as the bytes it occupies, most natural as a
// list of (width, value) or raw bytes; specialised for types with an id.
struct wire_id
{
    std::uint64_t value{};
    std::size_t width = 0;  // a number, in the byte order of the archive
    bytes_t raw;            // or these bytes
};
template <typename T>
struct variant_id
{
    static constexpr bool indexed = true;
};

template <typename... T>
struct M<std::variant<T...>>
{
    using V = std::variant<T...>;
    static V gen(G & g)
    {
        auto i = g.deviate(sizeof...(T), "alternative");
        return make(g, i, std::index_sequence_for<T...>{});
    }
    template <std::size_t... I>
    static V make(G & g, std::size_t i, std::index_sequence<I...>)
    {
        std::optional<V> v;
        (void)(... ||
               (i == I ? (v.emplace(std::in_place_index<I>, M<T>::gen(g)),
                          true)
                       : false));
        return std::move(*v);
    }
    template <typename X>
    static wire_id id_of(std::size_t index)
    {
        if constexpr (requires { variant_id<X>::indexed; }) {
            return {index, 1, {}};
        } else {
            return variant_id<X>::id();
        }
    }
    static void enc_id(Enc & e, const wire_id & id)
    {
        if (id.width) {
            e.number(id.value, id.width);
        } else {
            e.raw(id.raw.data(), id.raw.size());
        }
    }
    static void enc(Enc & e, const V & v)
    {
        if (v.valueless_by_exception()) {
            e.error = std::errc::invalid_argument;
            return;
        }
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (void)(... || (v.index() == I ? (enc_id(e, id_of<T>(I)),
                                             M<T>::enc(e, *std::get_if<I>(&v)), true)
                                          : false));
        }(std::index_sequence_for<T...>{});
    }
    static std::errc dec(Dec & d, V & v)
    {
        return [&]<std::size_t... I>(std::index_sequence<I...>) {
            wire_id ids[] = {id_of<T>(I)...};
            auto width = ids[0].width ? ids[0].width : ids[0].raw.size();
            if (d.left() < width) {
                return std::errc::result_out_of_range;
            }
            auto start = d.pos;
            d.pos += width;
            std::errc r = std::errc::bad_message;
            (void)(... || [&] {
                Enc e{d.c, {}};
                enc_id(e, ids[I]);
                if (std::memcmp(e.out.data(), d.data + start, width)) {
                    return false;
                }
                T x = fresh_of<T>();
                r = M<T>::dec(d, x);
                if (r == std::errc{}) {
                    v.template emplace<I>(std::move(x));
                }
                return true;
            }());
            return r;
        }(std::index_sequence_for<T...>{});
    }
    static bool eq(const V & a, const V & b)
    {
        if (a.index() != b.index()) {
            return false;
        }
        return [&]<std::size_t... I>(std::index_sequence<I...>) {
            bool same = true;
            (void)(... || (a.index() == I
                               ? (same = M<T>::eq(*std::get_if<I>(&a),
                                                  *std::get_if<I>(&b)),
                                  true)
                               : false));
            return same;
        }(std::index_sequence_for<T...>{});
    }
};

template <>
struct M<std::monostate>
{
    static std::monostate gen(G &)
    {
        return {};
    }
    static void enc(Enc &, std::monostate)
    {
    }
    static std::errc dec(Dec &, std::monostate &)
    {
        return {};
    }
    static bool eq(std::monostate, std::monostate)
    {
        return true;
    }
    static std::monostate fresh() { return {}; }
};

// ---------------------------------------------------------------- bitsets
template <std::size_t N>
struct M<std::bitset<N>>
{
    using T = std::bitset<N>;
    static T gen(G & g)
    {
        T v;
        switch (g.deviate(6, "bitset")) {
        case 0:
            for (std::size_t i = 0; i < N; i += 3) {
                v.set(i);
            }
            break;
        case 1:
            break;
        case 2:
            v.set();
            break;
        case 3:
            v.set(N - 1);
            break;
        case 4:
            v.set(0);
            break;
        default:
            v.set();
            v.reset(N / 2);
            break;
        }
        return v;
    }
    static void enc(Enc & e, const T & v)
    {
        auto start = e.out.size();
        e.out.resize(start + (N + 7) / 8);
        for (std::size_t i = 0; i < N; ++i) {
            if (v.test(i)) {
                e.out[start + i / 8] |= std::byte(1 << (i % 8));
            }
        }
    }
    static std::errc dec(Dec & d, T & v)
    {
        if (d.left() < (N + 7) / 8) {
            return std::errc::result_out_of_range;
        }
        for (std::size_t i = 0; i < N; ++i) {
            v.set(i, (std::uint8_t(d.data[d.pos + i / 8]) >> (i % 8)) & 1);
        }
        d.pos += (N + 7) / 8;
        return {};
    }
    static bool eq(const T & a, const T & b)
    {
        return a == b;
    }
};

// ---------------------------------------------------------------- sized wrappers
template <typename S>
constexpr prefix prefix_of()
{
    if constexpr (std::is_void_v<S>) {
        return prefix::none;
    } else if constexpr (zpp::bits::concepts::varint<S>) {
        return prefix::varint;
    } else {
        return prefix(sizeof(S));
    }
}

template <typename T, typename S>
struct M<zpp::bits::sized_item<T, S>>
{
    using V = zpp::bits::sized_item<T, S>;
    static V gen(G & g)
    {
        return V(M<T>::gen(g));
    }
    static void enc(Enc & e, const V & v)
    {
        auto saved = e.c.size;
        auto & inner = e;
        inner.c.size = prefix_of<S>();
        // The wrapper is about this container only, not about its elements.
        if constexpr (resizable_sequence<T>) {
            auto n = inner.count(v.size());
            inner.c.size = saved;
            for (auto & x : v) {
                if (!n--) {
                    break;
                }
                M<typename T::value_type>::enc(inner, x);
            }
        } else {
            auto n = inner.count(v.size());
            inner.c.size = saved;
            for (auto & x : v) {
                if (!n--) {
                    break;
                }
                if constexpr (requires { typename T::mapped_type; }) {
                    M<typename T::key_type>::enc(inner, x.first);
                    M<typename T::mapped_type>::enc(inner, x.second);
                } else {
                    M<typename T::key_type>::enc(inner, x);
                }
            }
        }
    }
    static std::errc dec(Dec & d, V & v)
    {
        // Read the count with the prefix of the wrapper and hand the rest to
        // the container with a count which is already known.
        auto saved = d.c;
        std::uint64_t n = v.size();
        if constexpr (!std::is_void_v<S>) {
            d.c.size = prefix_of<S>();
            auto r = d.count(n);
            d.c = saved;
            if (r != std::errc{}) {
                return r;
            }
        }
        if constexpr (resizable_sequence<T>) {
            using E = typename T::value_type;
            if (!std::is_void_v<S> && n > d.c.alloc_limit / sizeof(E)) {
                return std::errc::message_size;
            }
            v.clear();
            for (std::uint64_t i = 0; i < n; ++i) {
                E x = fresh_of<E>();
                if (auto r = M<E>::dec(d, x); r != std::errc{}) {
                    return r;
                }
                v.push_back(std::move(x));
            }
        } else {
            using K = typename T::key_type;
            v.clear();
            for (std::uint64_t i = 0; i < n; ++i) {
                K k = fresh_of<K>();
                if (auto r = M<K>::dec(d, k); r != std::errc{}) {
                    return r;
                }
                auto before = v.size();
                if constexpr (requires { typename T::mapped_type; }) {
                    auto m = fresh_of<typename T::mapped_type>();
                    if (auto r = M<typename T::mapped_type>::dec(d, m);
                        r != std::errc{}) {
                        return r;
                    }
                    v.insert({std::move(k), std::move(m)});
                } else {
                    v.insert(std::move(k));
                }
                if (before == v.size()) {
                    d.duplicate = true;
                }
            }
        }
        return {};
    }
    static bool eq(const V & a, const V & b)
    {
        return M<T>::eq(a, b);
    }
};

// ---------------------------------------------------------------- user classes
// Fields<T>::get(t) gives std::tie of the members in declaration order.
template <typename T>
struct Fields;

template <typename T>
concept has_fields = requires(T & t) { Fields<T>::get(t); };

template <has_fields T>
struct M<T>
{
    static T fresh()
    {
        if constexpr (requires { Fields<T>::make(); }) {
            return Fields<T>::make();
        } else {
            return T{};
        }
    }
    static T gen(G & g)
    {
        T v = fresh();
        std::apply(
            [&](auto &... x) { (fill(g, x), ...); }, Fields<T>::get(v));
        return v;
    }
    template <typename X>
    static void fill(G & g, X & x)
    {
        if constexpr (std::is_array_v<X>) {
            for (auto & e : x) {
                fill(g, e);
            }
        } else {
            x = M<X>::gen(g);
        }
    }
    static void enc(Enc & e, const T & v)
    {
        std::apply(
            [&](auto &... x) {
                (M<std::remove_cvref_t<decltype(x)>>::enc(e, x), ...);
            },
            Fields<T>::get(const_cast<T &>(v)));
    }
    static std::errc dec(Dec & d, T & v)
    {
        std::errc r{};
        std::apply(
            [&](auto &... x) {
                (void)(... && ((r = M<std::remove_cvref_t<decltype(x)>>::dec(
                                    d, x)) == std::errc{}));
            },
            Fields<T>::get(v));
        return r;
    }
    static bool eq(const T & a, const T & b)
    {
        return eq_tuple(Fields<T>::get(const_cast<T &>(a)),
                        Fields<T>::get(const_cast<T &>(b)));
    }
    template <typename... X>
    static bool eq_tuple(std::tuple<X...> a, std::tuple<X...> b)
    {
        return [&]<std::size_t... I>(std::index_sequence<I...>) {
            return (... && M<std::remove_cvref_t<X>>::eq(std::get<I>(a),
                                                         std::get<I>(b)));
        }(std::index_sequence_for<X...>{});
    }
};

// fresh() for everything which is default constructible.
template <typename T>
T fresh_of()
{
    if constexpr (requires { M<T>::fresh(); }) {
        return M<T>::fresh();
    } else {
        return T{};
    }
}

} // namespace model

#endif
