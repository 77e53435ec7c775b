// What an archive does with values of many types, as records of numbers which
// can be compared: between constant evaluation and the running program (C14),
// and between configurations (C28).  Depends on nothing but the library.
#ifndef RECORD_HPP
#define RECORD_HPP

#include <algorithm>
#include <array>
#include <bit>
#include <cstdint>
#include <cstring>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

#include ZPP_BITS_HEADER

// In bytes of memory, of which an object takes more or fewer from library to
// library: C28 takes one which none of the lengths comes near.
#ifndef RECORD_LIMIT
#define RECORD_LIMIT 64
#endif

namespace
{
namespace zb = zpp::bits;

// ---------------------------------------------------------------- records
struct record
{
    // Hashes of results, positions, bytes and values.
    std::uint64_t written = 1, capacities = 1, reads = 1, changes = 1, again = 1;
    std::uint32_t operations{};
    std::uint32_t failures{};
    constexpr bool operator==(const record &) const = default;
};
constexpr std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    return (h ^ v) * 0x9e3779b97f4a7c15ull ^ (h >> 29);
}

// ---------------------------------------------------------------- classes
enum class e8 : std::uint8_t
{
};
enum class e32 : std::int32_t
{
};
struct packed
{
    std::uint16_t a;
    std::uint16_t b;
    constexpr bool operator==(const packed &) const = default;
};
struct padded
{
    std::uint8_t a;
    std::uint32_t b;
    std::uint16_t c;
};
struct bytes3
{
    std::uint8_t a;
    std::byte b;
    char c;
};
struct nothing
{
};
struct with_arrays
{
    using serialize = zb::members<3>;
    std::uint16_t a[2];
    std::array<packed, 2> b;
    std::uint8_t c[3];
};
struct mixed
{
    std::string a;
    packed b;
    std::vector<std::uint16_t> c;
    zb::vsint32_t d;
    nothing e;
};
struct custom
{
    std::uint8_t a;
    std::uint32_t b;
    constexpr static auto serialize(auto & archive, auto & self)
    {
        return archive(self.b, self.a);
    }
};
class closed
{
    friend zb::access;
    std::uint32_t a{};
    double b{};

public:
    using serialize = zb::members<2>;
    static constexpr auto tie(auto & x) { return std::tie(x.a, x.b); }
};
// Protobuf.
struct numbers
{
    zb::vint32_t a;
    std::int32_t b;
    zb::vsint64_t c;
    double d;
    using serialize = zb::pb_protocol;
};
struct message
{
    std::string a;
    std::vector<zb::vuint32_t> b;
    std::vector<std::uint16_t> c;
    numbers e;
    std::vector<e8> f;
    using serialize = zb::protocol<zb::pb{}>;
};
struct text
{
    std::string a;
    zb::vint32_t b;
    using serialize = zb::pb_protocol;
};
struct holder
{
    std::uint8_t a;
    text b;
    std::uint8_t c;
};

#define TIE(T, ...)                                                                                                    \
    constexpr auto tie_of(T & x) { return std::tie(__VA_ARGS__); }                                                     \
    constexpr auto tie_of(const T & x) { return std::tie(__VA_ARGS__); }
TIE(packed, x.a, x.b)
TIE(padded, x.a, x.b, x.c)
TIE(bytes3, x.a, x.b, x.c)
TIE(with_arrays, x.a, x.b, x.c)
TIE(mixed, x.a, x.b, x.c, x.d)
TIE(custom, x.a, x.b)
TIE(numbers, x.a, x.b, x.c, x.d)
TIE(message, x.a, x.b, x.c, x.e, x.f)
TIE(text, x.a, x.b)
TIE(holder, x.a, x.b, x.c)
constexpr auto tie_of(closed & x)
{
    return closed::tie(x);
}
constexpr auto tie_of(const closed & x)
{
    return closed::tie(x);
}

// ---------------------------------------------------------------- values
template <typename T>
constexpr bool is_tuple = requires { std::tuple_size<T>::value; } && !requires(T t) { t.begin(); };
template <typename T>
constexpr int sizes[4] = {2, 0, 1, 5};

constexpr int values = 8;
template <typename T>
constexpr void make(T & x, int i)
{
    if constexpr (zb::concepts::varint<T>) {
        using N = decltype(x.value);
        constexpr std::uint64_t list[] = {0x12345, 0, ~std::uint64_t{}, 0x7f, 0x80, 0x3fff, 0x4000, std::uint64_t{1} << (sizeof(N) * 8 - 1)};
        x = static_cast<N>(list[i % values]);
    } else if constexpr (std::same_as<T, bool>) {
        x = i % 2;
    } else if constexpr (std::is_integral_v<T>) {
        constexpr std::uint64_t list[] = {0x8172635445362718, 0, ~std::uint64_t{}, 1, 0x80, 0x7f, 0xff00, std::uint64_t{1} << (sizeof(T) * 8 - 1)};
        x = static_cast<T>(list[i % values]);
    } else if constexpr (std::is_floating_point_v<T>) {
        constexpr double list[] = {1.5, 0, -0.0, 1e30, -1e-30, 3, 123456, -2};
        x = static_cast<T>(list[i % values]);
    } else if constexpr (std::is_enum_v<T>) {
        std::underlying_type_t<T> n{};
        make(n, i);
        x = T(n);
    } else if constexpr (std::is_array_v<T>) {
        for (auto & e : x) {
            make(e, i++);
        }
    } else if constexpr (requires { x.has_value(); }) {
        if (i % 4 == 1) {
            x.reset();
        } else {
            x.emplace();
            make(*x, i);
        }
    } else if constexpr (requires { x.resize(1); }) {
        x.resize(std::size_t(sizes<T>[i % 4]));
        for (auto & e : x) {
            make(e, ++i);
        }
    } else if constexpr (requires { x.begin(); }) {
        for (auto & e : x) {
            make(e, i++);
        }
    } else if constexpr (requires { x.index(); }) {
        switch (i % std::variant_size_v<T>) {
        case 0:
            make(x.template emplace<0>(), i);
            break;
        case 1:
            make(x.template emplace<1>(), i);
            break;
        default:
            make(x.template emplace<2>(), i);
            break;
        }
    } else if constexpr (is_tuple<T>) {
        std::apply([&](auto &... e) { (make(e, i++), ...); }, x);
    } else if constexpr (!std::is_empty_v<T>) {
        std::apply([&](auto &... e) { (make(e, i++), ...); }, tie_of(x));
    }
}
template <typename T>
constexpr T value(int i)
{
    T x{};
    make(x, i);
    return x;
}
template <typename T>
constexpr std::uint64_t fold(std::uint64_t h, const T & x)
{
    if constexpr (zb::concepts::varint<T>) {
        return mix(h, std::uint64_t(x.value));
    } else if constexpr (std::is_floating_point_v<T>) {
        return mix(h, std::bit_cast<std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>>(x));
    } else if constexpr (std::same_as<T, char>) {
        return mix(h, std::uint8_t(x)); // whether it has a sign or not
    } else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
        return mix(h, std::uint64_t(x));
    } else if constexpr (requires { x.has_value(); }) {
        return x.has_value() ? fold(mix(h, 1), *x) : mix(h, 0);
    } else if constexpr (std::is_array_v<T> || requires { x.begin(); }) {
        if constexpr (requires { x.size(); }) {
            h = mix(h, x.size());
        }
        for (auto & e : x) {
            h = fold(h, e);
        }
        return h;
    } else if constexpr (requires { x.index(); }) {
        h = mix(h, x.index());
        auto add = [&](auto * p) {
            if (p) {
                h = fold(h, *p);
            }
        };
        add(std::get_if<0>(&x));
        add(std::get_if<1>(&x));
        if constexpr (std::variant_size_v<T> > 2) {
            add(std::get_if<2>(&x));
        }
        return h;
    } else if constexpr (is_tuple<T>) {
        std::apply([&](auto &... e) { ((h = fold(h, e)), ...); }, x);
        return h;
    } else if constexpr (!std::is_empty_v<T>) {
        std::apply([&](auto &... e) { ((h = fold(h, e)), ...); }, tie_of(x));
        return h;
    } else {
        return h;
    }
}

template <typename T>
constexpr bool changeable = true;
template <>
constexpr bool changeable<bool> = false; // not every byte is one

// ---------------------------------------------------------------- everything with a value
template <typename T>
struct plainly
{
    using type = T;
    static constexpr auto & of(auto & x)
    {
        return x;
    }
};
constexpr auto same_as(auto option)
{
    return option;
}
constexpr std::uint64_t code(std::errc e)
{
    return std::uint64_t(int(e));
}
template <typename B>
constexpr std::uint64_t bytes_hash(std::uint64_t h, const B * p, std::size_t n)
{
    h = mix(h, n);
    for (std::size_t i = 0; i < n; ++i) {
        h = mix(h, std::uint8_t(p[i]));
    }
    return h;
}

template <typename T, typename Byte, auto... O>
constexpr record run(int i)
{
    record r;
    auto count = [&](std::errc e) {
        ++r.operations;
        r.failures += e != std::errc{};
        return code(e);
    };
    const T x = value<T>(i);

    // Into a vector: twice, with the positions in between.
    std::vector<Byte> data;
    std::size_t size = 0;
    {
        zb::out out{data, same_as(O)...};
        std::errc e = out(x);
        r.written = mix(mix(r.written, count(e)), out.position());
        size = out.position();
        r.written = bytes_hash(r.written, data.data(), size);
        std::errc f = out(x, std::uint8_t{0x77});
        r.written = mix(mix(r.written, count(f)), out.position());
        r.written = bytes_hash(r.written, data.data(), out.position());
    }
    data.resize(size);
    auto want = data;

    auto big = size > 40;
    // Into every capacity.
    for (std::size_t n = 0; n <= size + 9; ++n) {
        if (big && n == 8) {
            n = size - 2;
        }
        std::vector<Byte> room(n + 2, Byte{0x11});
        zb::out out{std::span<Byte>(room.data() + 1, n), same_as(O)...};
        std::errc e = out(x);
        r.capacities = mix(mix(r.capacities, count(e)), e == std::errc{} ? out.position() : 0);
        if (e == std::errc{}) {
            r.capacities = bytes_hash(r.capacities, room.data(), room.size());
        } else if (room[0] != Byte{0x11} || room[n + 1] != Byte{0x11}) {
            r.capacities = 0;
        }
    }
    // From every truncation, over a value of another kind.
    for (std::size_t n = 0; n <= size; ++n) {
        if (big && n == 12) {
            n = size - 3;
        }
        T y = value<T>(i + 3);
        std::span<const Byte> from(want.data(), n);
        zb::in in{from, same_as(O)...};
        std::errc e = in(y);
        r.reads = mix(mix(r.reads, count(e)), e == std::errc{} ? in.position() : 0);
        if (e == std::errc{}) {
            r.reads = fold(r.reads, y);
        }
    }
    // After every change of a byte.
    if constexpr (changeable<T>) {
        constexpr std::uint8_t letters[] = {0, 1, 0x7f, 0x80, 0xff};
        for (std::size_t n = 0; n < std::min<std::size_t>(size, 14); ++n) {
            for (auto l : letters) {
                auto changed = want;
                changed[n] = Byte(l);
                changed.resize(size + 2);
                T y = value<T>(i + 1);
                zb::in in{changed, same_as(O)..., zb::alloc_limit<RECORD_LIMIT>{}};
                std::errc e = in(y);
                r.changes = mix(mix(r.changes, count(e)), e == std::errc{} ? in.position() : 0);
                if (e == std::errc{}) {
                    r.changes = fold(r.changes, y);
                }
            }
        }
    }
    // With positions, limits and growth.
    {
        std::vector<Byte> d(3, Byte{0x22});
        zb::out out{d, same_as(O)..., zb::append{}, zb::exact_enlarger{}, zb::no_fit_size{}};
        std::errc e = out(x);
        r.again = bytes_hash(mix(mix(r.again, count(e)), out.position()), d.data(), out.position());
        r.again = mix(r.again, d.size());
        out.reset(1);
        e = out(x);
        r.again = bytes_hash(mix(mix(r.again, count(e)), out.position()), d.data(), out.position());
        T y = value<T>(i + 2);
        zb::in in{d, same_as(O)...};
        in.reset(1);
        e = in(y);
        r.again = fold(mix(mix(r.again, count(e)), in.position()), y);
        std::vector<Byte> limited;
        zb::out small{limited, same_as(O)..., zb::alloc_limit<12>{}};
        e = small(x);
        r.again = mix(r.again, count(e));
        e = small(x);
        r.again = mix(r.again, count(e));
        if (e == std::errc{}) {
            r.again = bytes_hash(r.again, limited.data(), small.position());
        }
    }
    return r;
}

// ---------------------------------------------------------------- messages around the growth of their size
struct envelope
{
    std::uint8_t a;
    text b;
    std::uint8_t c;
};
TIE(envelope, x.a, x.b, x.c)
struct nested
{
    zb::vint32_t a;
    text b;
    using serialize = zb::pb_protocol;
};
TIE(nested, x.a, x.b)
constexpr std::size_t lengths[] = {0, 1, 115, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 200, 255, 256, 300};
constexpr std::size_t far_lengths[] = {16376, 16377, 16378, 16379, 16383, 16384};
template <bool Far>
constexpr std::size_t length(int i)
{
    if constexpr (Far) {
        return far_lengths[i];
    } else {
        return lengths[i];
    }
}
constexpr void stretch(text & t, std::size_t n)
{
    t.a.resize(n);
    for (std::size_t k = 0; k < n; ++k) {
        t.a[k] = char('0' + k % 61);
    }
    t.b = 300;
}
constexpr text & inner(text & t)
{
    return t;
}
constexpr text & inner(auto & t)
{
    return t.b;
}
template <typename T, bool Far, typename Byte, auto... O>
constexpr record long_run(int i)
{
    record r;
    auto count = [&](std::errc e) {
        ++r.operations;
        r.failures += e != std::errc{};
        return code(e);
    };
    T x{};
    if constexpr (requires { x.a = 7; }) {
        x.a = 7;
    }
    if constexpr (requires { x.c = 9; }) {
        x.c = 9;
    }
    stretch(inner(x), length<Far>(i));
    std::vector<Byte> data;
    zb::out out{data, same_as(O)...};
    std::errc e = out(std::uint8_t{0x33}, x, std::uint8_t{0x44});
    r.written = bytes_hash(mix(mix(r.written, count(e)), out.position()), data.data(), out.position());
    auto size = out.position();
    data.resize(size);
    // Into room that is exact, and around it.
    for (std::size_t n = size - (Far ? 1 : 3); n <= size + (Far ? 1 : 3); ++n) {
        std::vector<Byte> room(n);
        zb::out o{std::span<Byte>(room), same_as(O)...};
        e = o(std::uint8_t{0x33}, x, std::uint8_t{0x44});
        r.capacities = mix(r.capacities, count(e));
        if (e == std::errc{}) {
            r.capacities = bytes_hash(mix(r.capacities, o.position()), room.data(), n);
        }
    }
    for (std::size_t n : {size, size - 1, size - 2, size / 2, std::size_t{2}, std::size_t{1}}) {
        if (Far && n != size && n > 2) {
            continue;
        }
        T y{};
        std::uint8_t a = 0, b = 0;
        zb::in in{std::span<const Byte>(data.data(), n), same_as(O)...};
        e = in(a, y, b);
        r.reads = mix(r.reads, count(e));
        if (e == std::errc{}) {
            r.reads = mix(fold(mix(mix(r.reads, in.position()), a), y), b);
        }
    }
    return r;
}

// ---------------------------------------------------------------- objects that are not values
struct with_span
{
    std::uint8_t a;
    std::string_view b;
    std::uint16_t c;
};
struct counter
{
    record & r;
    constexpr std::uint64_t operator()(std::errc e)
    {
        ++r.operations;
        r.failures += e != std::errc{};
        return code(e);
    }
};
constexpr record cases(int n)
{
    record r;
    r.operations = std::uint32_t(n);
    return r;
}

// Writes an object to every room from nothing up to its size and past it.
template <typename Byte, auto... O>
constexpr void write_everywhere(record & r, const auto &... x)
{
    counter count{r};
    std::vector<Byte> data;
    zb::out out{data, same_as(O)...};
    std::errc e = out(x...);
    r.written = bytes_hash(mix(mix(r.written, count(e)), out.position()), data.data(), out.position());
    auto size = out.position();
    for (std::size_t n = 0; n <= size + 8; ++n) {
        std::vector<Byte> room(n + 1, Byte{0x55});
        zb::out o{std::span<Byte>(room.data(), n), same_as(O)...};
        e = o(x...);
        r.capacities = mix(r.capacities, count(e));
        if (e == std::errc{}) {
            r.capacities = bytes_hash(mix(r.capacities, o.position()), room.data(), n + 1);
        }
    }
}
template <typename Byte, auto... O>
constexpr record view_program(int i)
{
    constexpr std::string_view text = "a string that is viewed, not owned";
    if (i < 0) {
        return cases(6);
    }
    record r;
    auto view = text.substr(0, std::size_t(i) * 6);
    std::array<std::uint16_t, 5> numbers{1, 0x8000, 0x1234, 0xff, 0xff00};
    std::span<const std::uint16_t> span(numbers.data(), std::size_t(i));
    write_everywhere<Byte, O...>(r, view, std::uint8_t(i), span);
    write_everywhere<Byte, O...>(r, with_span{std::uint8_t(i), view, 0x1234});
    write_everywhere<Byte, O...>(r, zb::unsized(view), zb::sized<std::uint8_t>(view), zb::sized<zb::vsize_t>(span));
    write_everywhere<Byte, O...>(r, std::span<const std::uint16_t, 5>(numbers));
    zb::sized_t<std::vector<std::uint32_t>, std::uint16_t> sized{1, 2, 0x1234567};
    zb::unsized_t<std::string> plain("plain");
    write_everywhere<Byte, O...>(r, sized, plain, std::uint8_t{1});
    const std::variant<std::uint16_t, packed, zb::vint32_t> one(std::in_place_index<0>, std::uint16_t(i)),
        two(std::in_place_index<1>, packed{std::uint16_t(i), 0x1234}), three(std::in_place_index<2>, i * 1000);
    write_everywhere<Byte, O...>(r, one, two, three, std::optional<packed>{}, std::optional(packed{1, 2}));
    write_everywhere<Byte, O...>(r, std::tuple<>(), std::tuple(std::uint8_t(i), text), std::array<std::string_view, 2>{view, text});
    return r;
}
// Whatever holds the memory.
template <typename Byte, auto... O>
constexpr record target_program(int i)
{
    if (i < 0) {
        return cases(24);
    }
    record r;
    counter count{r};
    auto make_data = [](const auto &... x) {
        std::vector<Byte> data;
        zb::out out{data, same_as(O)...};
        if (failure(out(x...))) {
            data.clear();
            return data;
        }
        data.resize(out.position());
        return data;
    };
    std::array<std::uint16_t, 4> source{0x1234, 0xff00, 0x0080, 1};
    const auto dynamic = make_data(std::vector<std::uint16_t>(source.begin(), source.begin() + i % 5), std::uint8_t{0x66});
    const auto fixed = make_data(source, std::uint8_t{0x66});
    for (std::size_t n = 0; n <= dynamic.size(); ++n) {
        zb::in in{std::span<const Byte>(dynamic.data(), n), same_as(O)...};
        std::array<std::uint16_t, 4> target{7, 7, 7, 7};
        std::span<std::uint16_t> view(target.data(), std::size_t(i % 6 < 4 ? i % 6 : 4));
        std::uint8_t last = 0;
        std::errc e = in(view, last);
        r.reads = mix(r.reads, count(e));
        if (e == std::errc{}) {
            r.reads = mix(fold(mix(mix(r.reads, in.position()), view.size()), target), last);
        }
    }
    for (std::size_t n = 0; n <= fixed.size(); ++n) {
        zb::in in{std::span<const Byte>(fixed.data(), n), same_as(O)...};
        std::uint16_t raw[4]{};
        std::vector<std::uint16_t> vector(std::size_t(i / 6 + 1));
        zb::unsized_t<std::vector<std::uint16_t>> plain(std::size_t(3 - i / 6));
        std::uint8_t last = 0;
        std::errc e = i % 2 ? in(zb::unsized(vector), plain, last) : in(std::span<std::uint16_t, 4>(raw), last);
        r.again = mix(r.again, count(e));
        if (e == std::errc{}) {
            r.again = mix(fold(fold(fold(mix(r.again, in.position()), raw), vector), plain), last);
        }
    }
    // Bytes as they are.
    const auto letters = make_data(zb::unsized(std::string_view("abcdefgh")));
    for (std::size_t n = 0; n <= letters.size(); ++n) {
        zb::in in{std::span<const Byte>(letters.data(), n), same_as(O)...};
        std::array<unsigned char, 6> a{};
        std::vector<std::byte> b(std::size_t(i % 5));
        char c = 0;
        std::errc e = in(zb::bytes(std::span(a.data(), std::size_t(i % 4))), zb::bytes(b), zb::as_bytes(c));
        r.changes = mix(r.changes, count(e));
        if (e == std::errc{}) {
            r.changes = fold(fold(fold(mix(r.changes, in.position()), a), b), c);
        }
    }
    {
        std::array<unsigned char, 6> a{1, 2, 3, 4, 5, 6};
        std::vector<std::byte> b(std::size_t(i % 5), std::byte{0x99});
        char c = 'c';
        write_everywhere<Byte, O...>(r, zb::bytes(std::span(a.data(), std::size_t(i % 4))), zb::bytes(b), zb::as_bytes(c));
        write_everywhere<Byte, O...>(r, zb::bytes(a, std::size_t(i % 7)));
    }
    return r;
}
struct accumulator
{
    std::uint64_t * sum;
    constexpr std::uint64_t operator()(std::uint32_t a, const std::string & b, packed c) const
    {
        *sum = fold(fold(fold(*sum, a), b), c);
        return *sum;
    }
    constexpr void nothing() const
    {
        *sum = mix(*sum, 5);
    }
};
constexpr std::uint64_t free_function(std::uint8_t a, std::vector<std::uint16_t> b)
{
    return fold(mix(77, a), b);
}
template <typename Byte, auto... O>
constexpr record apply_program(int i)
{
    if (i < 0) {
        return cases(16);
    }
    record r;
    counter count{r};
    std::vector<Byte> data;
    zb::out out{data, same_as(O)...};
    std::errc e = out(std::uint32_t(0x12345678), std::string(std::size_t(i % 4), 'x'), packed{2, std::uint16_t(i)});
    r.written = mix(count(e), out.position());
    std::uint64_t sum = 1;
    auto size = out.position();
    for (std::size_t n = 0; n <= size; ++n) {
        zb::in in{std::span<const Byte>(data.data(), n), same_as(O)..., zb::alloc_limit<RECORD_LIMIT>{}};
        auto result = zb::apply(accumulator{&sum}, in);
        r.reads = mix(mix(r.reads, count(success(result) ? std::errc{} : std::errc(result.error()))), sum);
        if (success(result)) {
            r.reads = mix(mix(r.reads, result.value()), in.position());
        }
        in.reset();
        auto call = zb::apply(&free_function, in);
        r.again = mix(r.again, count(success(call) ? std::errc{} : std::errc(call.error())));
        if (success(call)) {
            r.again = mix(mix(r.again, call.value()), in.position());
        }
        in.reset();
        e = zb::apply([&](std::uint32_t a) { sum = mix(sum, a); }, in);
        r.changes = mix(mix(r.changes, count(e)), sum);
        zb::apply([&] { sum = mix(sum, 99); }, in);
        r.changes = mix(r.changes, sum);
    }
    return r;
}
// Operations in every order, on one pair of archives.
template <typename Byte, auto... O>
constexpr record order_program(int i)
{
    constexpr int kinds = 7;
    if (i < 0) {
        return cases(kinds * kinds * kinds);
    }
    record r;
    counter count{r};
    std::vector<Byte> data;
    auto [in, out] = zb::in_out(data, same_as(O)..., zb::alloc_limit<RECORD_LIMIT>{});
    r.written = mix(r.written, count(out(std::uint8_t{1})));
    for (int k = 0; k < 4; ++k, i /= kinds) {
        std::errc e{};
        std::string text = "t";
        packed p{};
        switch (k < 3 ? i % kinds : 6) {
        case 0:
            e = out(std::string("text"));
            break;
        case 1:
            e = out(packed{0x1234, 0x5678}, std::uint8_t{3});
            break;
        case 2:
            out.reset(out.position() / 2);
            break;
        case 3:
            e = out(zb::vuint32_t{300}, zb::unsized(std::string_view("12")));
            break;
        case 4:
            e = in(text);
            break;
        case 5:
            e = in(p);
            break;
        case 6:
            in.reset(k % 2);
            e = in(zb::as_bytes(text[0]), p);
            break;
        }
        r.again = mix(mix(mix(r.again, count(e)), out.position()), in.position());
        r.again = bytes_hash(r.again, data.data(), out.position());
        r.again = mix(mix(r.again, out.processed_data().size()), in.processed_data().size());
        r.again = mix(mix(r.again, in.remaining_data().size()), std::uint64_t(data.size() >= out.position()));
        r.again = fold(fold(r.again, text), p);
    }
    return r;
}
} // namespace

#endif
