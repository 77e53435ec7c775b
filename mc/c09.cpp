// C09: variable length integers.
#include "kit.hpp"

using namespace kit;

namespace
{
enum class e8 : std::uint8_t { a };
enum class e16 : std::int16_t { a };
enum class e32 : std::uint32_t { a };
enum class e64 : std::int64_t { a };

// The shortest sequence of groups of a number.
bytes_t groups(std::uint64_t v)
{
    bytes_t r;
    do {
        auto low = std::uint8_t(v & 127);
        v >>= 7;
        r.push_back(std::byte(low | (v ? 128 : 0)));
    } while (v);
    return r;
}
template <typename T>
using raw_t = std::make_unsigned_t<T>;

// The number which is encoded for a value.
template <typename T, bool Zig>
std::uint64_t number(std::uint64_t bits)
{
    constexpr auto w = sizeof(T) * 8;
    auto mask = w == 64 ? ~std::uint64_t{} : (std::uint64_t{1} << w) - 1;
    bits &= mask;
    if (!Zig) {
        return bits;
    }
    // 0, -1, 1, -2, 2, ... are 0, 1, 2, 3, 4, ...
    bool negative = bits >> (w - 1);
    return negative ? (2 * (mask - bits) + 1) & mask : (2 * bits) & mask;
}
template <typename T, bool Zig>
std::uint64_t bits_of(std::uint64_t n)
{
    constexpr auto w = sizeof(T) * 8;
    auto mask = w == 64 ? ~std::uint64_t{} : (std::uint64_t{1} << w) - 1;
    n &= mask;
    if (!Zig) {
        return n;
    }
    return n & 1 ? mask - (n >> 1) : n >> 1;
}

template <typename V>
using value_of = typename V::value_type;
template <typename V>
constexpr bool zig = V::encoding == zb::varint_encoding::zig_zag;

template <typename Byte, typename O>
struct target
{
    // The input and output the groups are read from and written to.
    static auto in(std::byte * p, std::size_t n)
    {
        return zb::in{std::span<const Byte>{reinterpret_cast<const Byte *>(p), n}, O{}};
    }
    static auto out(std::byte * p, std::size_t n) { return zb::out{std::span<Byte>{reinterpret_cast<Byte *>(p), n}, O{}}; }
};

constexpr std::size_t bytes_max(std::size_t bits)
{
    return (bits + 6) / 7;
}

// One sequence of bytes, as exact input.
template <typename V, typename Target>
void decode(std::byte * end_of_heap, const std::uint8_t * p, std::size_t n)
{
    using T = value_of<V>;
    constexpr auto bits = sizeof(T) * 8;
    constexpr auto max = bytes_max(bits);
    auto heap = end_of_heap - n;
    if (n) {
        std::memcpy(heap, p, n);
    }
    std::uint64_t v = 0;
    std::size_t used = 0;
    std::errc want = std::errc::result_out_of_range;
    for (std::size_t i = 0; i < n; ++i) {
        if (i == max) {
            break;
        }
        v |= std::uint64_t(p[i] & 127) << (7 * i);
        if (p[i] < 128) {
            want = {};
            used = i + 1;
            break;
        }
        if (i + 1 == max) {
            want = std::errc::value_too_large;
            break;
        }
    }
    V x;
    std::memset(&x.value, 0x5a, sizeof(T));
    auto in = Target::in(heap, n);
    zb::errc r = in(x);
    auto says = [&] {
        return "groups " + mc::hex(p, n) + mc::format(": %s after %zu bytes, value %llx; expected %s after %zu, value %llx",
                                                      show(r.code).c_str(), in.position(), (unsigned long long)model::to_bits(x.value),
                                                      show(want).c_str(), used, (unsigned long long)bits_of<T, zig<V>>(v));
    };
    mc::require(r.code == want, "verdict", says);
    mc::require(want != std::errc{} || in.position() == used, "consumed", says);
    mc::require(want == std::errc{} || in.position() == 0, "position", says);
    mc::require(want != std::errc{} || model::to_bits(x.value) == bits_of<T, zig<V>>(v), "value", says);
}

template <typename V, typename Target>
void encode(std::byte * end_of_heap, std::uint64_t bits)
{
    using T = value_of<V>;
    auto want = groups(number<T, zig<V>>(bits));
    T t;
    model::from_bits(bits, t);
    V v{t};
    mc::require(want.size() <= bytes_max(sizeof(T) * 8), "reference", "too many groups");
    // Into every capacity from none to more than the longest.
    for (std::size_t capacity = 0; capacity <= bytes_max(sizeof(T) * 8) + 2; ++capacity) {
        if (capacity + 1 < want.size() && capacity > 1) {
            continue;
        }
        auto heap = end_of_heap - capacity;
        std::memset(heap, 0xcc, capacity);
        auto out = Target::out(heap, capacity);
        zb::errc r = out(v);
        auto says = [&] {
            return mc::format("value %llx into %zu bytes: %s, position %zu, ", (unsigned long long)bits, capacity,
                              show(r.code).c_str(), out.position()) + mc::hex(heap, capacity) + ", groups " + show(want);
        };
        mc::require(r.code == (capacity >= want.size() ? std::errc{} : std::errc::result_out_of_range), "fits", says);
        if (r.code == std::errc{}) {
            mc::require(out.position() == want.size() && !std::memcmp(heap, want.data(), want.size()), "groups", says);
        } else {
            mc::require(out.position() == 0, "position", says);
        }
        for (auto i = r.code == std::errc{} ? want.size() : 0; i < capacity; ++i) {
            mc::require(heap[i] == std::byte{0xcc}, "beyond", says);
        }
    }
    // And back, with any number of bytes after it.
    static constexpr std::uint8_t fills[] = {0x00, 0x80, 0xff};
    std::uint8_t data[32];
    for (auto after : {0, 1, 2, 9, 10, 11}) {
        for (auto fill : fills) {
            std::memset(data, fill, sizeof data);
            std::memcpy(data, want.data(), want.size());
            decode<V, Target>(end_of_heap, data, want.size() + std::size_t(after));
            if (!after) {
                break;
            }
        }
    }
}

struct arena
{
    // Everything ends where the heap block ends, so that the sanitizer sees
    // any access after it.
    std::unique_ptr<std::byte[]> p{new std::byte[64]};
    std::byte * end() { return p.get() + 64; }
};

// Every value of a narrow type.
template <typename V, typename Target>
void all_values()
{
    arena a;
    using T = value_of<V>;
    constexpr std::size_t n = std::size_t{1} << (8 * sizeof(T));
    auto part = mc::choose(16, "sixteenth");
    for (std::size_t i = part * n / 16; i < (part + 1) * n / 16; ++i) {
        encode<V, Target>(a.end(), i);
        mc::state(mc::mix(i, sizeof(V)));
        mc::step(10);
        mc::case_done(10);
    }
    mc::outcome(part);
}

// Values of wide types: every combination of groups of an alphabet, every sum
// and difference of two powers of two.
template <typename V, typename Target>
void wide_values()
{
    arena a;
    using T = value_of<V>;
    constexpr auto bits = sizeof(T) * 8;
    static constexpr std::uint8_t alphabet[] = {0x00, 0x7f, 0x40, 0x01};
    std::size_t symbols = bits == 32 || mc::thorough() ? 4 : 3;
    auto n = bytes_max(bits);
    std::size_t combinations = 1;
    for (std::size_t i = 0; i < n; ++i) {
        combinations *= symbols;
    }
    auto part = mc::choose(17, "part");
    if (part == 16) {
        for (std::size_t i = 0; i < bits; ++i) {
            for (std::size_t k = 0; k < bits; ++k) {
                auto x = std::uint64_t{1} << i, y = std::uint64_t{1} << k;
                for (auto v : {x + y, x - y, x ^ y, ~(x + y), ~x, x, 0 - x}) {
                    encode<V, Target>(a.end(), v);
                    mc::state(mc::mix(v, sizeof(V)));
                    mc::step(10);
                    mc::case_done(10);
                }
            }
        }
        return;
    }
    for (std::size_t c = part * combinations / 16; c < (part + 1) * combinations / 16; ++c) {
        std::uint64_t v = 0;
        auto x = c;
        for (std::size_t i = 0; i < n; ++i) {
            v |= std::uint64_t(alphabet[x % symbols]) << (7 * i);
            x /= symbols;
        }
        encode<V, Target>(a.end(), bits_of<T, zig<V>>(v));
        mc::state(mc::mix(v, sizeof(V)));
        mc::step(10);
        mc::case_done(10);
    }
    mc::outcome(part);
}

// Every sequence: bytes with the continuation bit, then one without or the
// end, then some more.
template <typename V, typename Target>
void sequences()
{
    arena a;
    static constexpr std::uint8_t more[] = {0x80, 0xff, 0x81, 0xc0};
    static constexpr std::uint8_t last[] = {0x00, 0x01, 0x7f, 0x02, 0x40, 0x03};
    constexpr auto max = bytes_max(sizeof(value_of<V>) * 8);
    std::size_t symbols = max <= 5 || mc::thorough() ? 4 : 3;
    auto n = mc::choose(max + 3, "continued");
    std::size_t combinations = 1;
    for (std::size_t i = 0; i < n; ++i) {
        combinations *= symbols;
    }
    std::uint8_t data[40];
    for (std::size_t c = 0; c < combinations; ++c) {
        std::memset(data, 0xff, sizeof data);
        auto x = c;
        for (std::size_t i = 0; i < n; ++i) {
            data[i] = more[x % symbols];
            x /= symbols;
        }
        decode<V, Target>(a.end(), data, n);
        for (auto l : last) {
            data[n] = l;
            for (auto after : {0, 1, 2, 3, 9, 12}) {
                decode<V, Target>(a.end(), data, n + 1 + std::size_t(after));
            }
            mc::case_done(7);
            mc::step(7);
        }
        mc::state(mc::mix(mc::hash_bytes(data, n), sizeof(V)));
    }
    mc::outcome(n);
}

// All sequences of two (thorough: three) bytes.
template <typename V, typename Target>
void short_sequences()
{
    arena a;
    auto first = mc::choose(256, "first byte");
    std::uint8_t data[16] = {std::uint8_t(first)};
    for (int second = 0; second < 256; ++second) {
        data[1] = std::uint8_t(second);
        for (int third = 0; third < (mc::thorough() ? 256 : 1); ++third) {
            data[2] = std::uint8_t(mc::thorough() ? third : 0x03);
            for (std::size_t n : {0, 1, 2, 3, 4, 11, 16}) {
                decode<V, Target>(a.end(), data, n);
            }
            mc::case_done(7);
            mc::step(7);
        }
    }
    mc::state(mc::mix(first, sizeof(V)));
    mc::outcome(first);
}

// A few of them one after another, as elements and members.
struct members { zb::vuint32_t a; zb::vsint64_t b; zb::varint<e16> c; };
template <typename Byte, typename O>
void in_sequence()
{
    static constexpr std::uint64_t values[] = {0, 1, 63, 64, 127, 128, 16383, 16384, 0x0fffffff, 0x10000000, 0xffffffff, ~0ull, 1ull << 63, (1ull << 35) - 1};
    auto i = values[mc::choose(std::size(values), "first")], j = values[mc::choose(std::size(values), "second")],
         k = values[mc::choose(std::size(values), "third")];
    bytes_t want = groups(std::uint32_t(i)) + groups(number<std::int64_t, true>(j)) + groups(std::uint16_t(k)) + groups(3) +
                   groups(k) + groups(j) + groups(i) + groups(std::uint8_t(j));
    std::vector<Byte> buf;
    zb::out out{buf, O{}, zb::size_varint{}};
    members m{{std::uint32_t(i)}, {std::int64_t(j)}, {e16(std::int16_t(k))}};
    std::vector<zb::vuint64_t> v{k, j, i};
    zb::varint<e8> last{e8(j)};
    mc::require(success(out(m, v, last)), "write", "writing failed");
    mc::require(buf.size() == want.size() && !std::memcmp(buf.data(), want.data(), want.size()), "groups",
                [&] { return "wrote " + mc::hex(buf.data(), buf.size()) + " instead of " + show(want); });
    mc::step();
    mc::state(mc::hash_bytes(want.data(), want.size()));
    for (std::size_t extra : {0, 12}) {
        bytes_t data = want + bytes_t(extra, std::byte{0xff});
        exact e(data);
        zb::in in{std::span<const Byte>{reinterpret_cast<const Byte *>(e.data.get()), e.size}, O{}, zb::size_varint{}};
        members n;
        std::vector<zb::vuint64_t> w;
        zb::varint<e8> l;
        mc::require(success(in(n, w, l)) && in.position() == want.size(), "read", "reading back failed");
        mc::require(n.a == m.a && n.b == m.b && n.c.value == m.c.value && w.size() == 3 && w[0].value == k && w[1].value == j &&
                        w[2].value == i && l.value == last.value, "values", "other values were read");
        mc::step();
        mc::case_done();
    }
    mc::require(zb::varint_size(std::uint64_t(i)) == groups(i).size() && zb::varint_size(std::uint32_t(j)) == groups(std::uint32_t(j)).size() &&
                    zb::varint_size<zb::varint_encoding::zig_zag>(std::int64_t(k)) == groups(number<std::int64_t, true>(k)).size(),
                "varint_size", "varint_size is not the number of groups");
    mc::outcome(want.size());
}

template <typename V>
void add(const char * name)
{
    auto with = [&]<typename Target>(Target, const char * t) {
        std::string n = std::string(name) + " " + t;
        if constexpr (sizeof(value_of<V>) <= 2) {
            mc::add("!values " + n, all_values<V, Target>);
        } else {
            mc::add("!values " + n, wide_values<V, Target>);
        }
        mc::add("!sequences " + n, sequences<V, Target>);
        mc::add("short " + n, short_sequences<V, Target>);
    };
#if PART < 4
    with(target<std::byte, zb::endian::native>{}, "byte");
    with(target<char, zb::endian::swapped>{}, "char,swapped");
#else
    with(target<unsigned char, zb::endian::big>{}, "unsigned char,big");
    with(target<char, zb::endian::little>{}, "char,little");
#endif
}

bool added = [] {
    constexpr auto z = zb::varint_encoding::zig_zag;
#if PART == 0
    add<zb::varint<std::uint8_t>>("u8");
    add<zb::varint<std::int8_t>>("i8");
    add<zb::varint<std::int8_t, z>>("zig-zag i8");
    add<zb::varint<e8>>("enum u8");
    mc::add("in sequence", in_sequence<std::byte, zb::endian::native>);
    mc::add("in sequence char,big", in_sequence<char, zb::endian::big>);
#elif PART == 1
    add<zb::varint<std::uint16_t>>("u16");
    add<zb::varint<std::int16_t>>("i16");
    add<zb::varint<std::int16_t, z>>("zig-zag i16");
    add<zb::varint<e16>>("enum i16");
#elif PART == 2
    add<zb::vuint32_t>("u32");
    add<zb::vint32_t>("i32");
    add<zb::vsint32_t>("zig-zag i32");
    add<zb::varint<e32>>("enum u32");
#elif PART == 3
    add<zb::vuint64_t>("u64");
    add<zb::vint64_t>("i64");
    add<zb::vsint64_t>("zig-zag i64");
    add<zb::varint<e64>>("enum i64");
#elif PART == 4
    add<zb::varint<std::int8_t, z>>("zig-zag i8");
    add<zb::varint<std::int16_t>>("i16");
    add<zb::vuint32_t>("u32");
    add<zb::vsint64_t>("zig-zag i64");
    add<zb::vsize_t>("size");
#endif
    return true;
}();
} // namespace
