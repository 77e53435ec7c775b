// C22: hashes of every message length, hex literals and ids.
#include "kit.hpp"

using namespace kit;

namespace
{
// ---------------------------------------------------------------- standards
// FIPS 180-4, written for these checks.
struct sha
{
    static std::uint32_t left(std::uint32_t v, int n) { return v << n | v >> (32 - n); }
    static std::uint32_t right(std::uint32_t v, int n) { return left(v, 32 - n); }
    static bytes_t padded(bytes_t m)
    {
        auto bits = std::uint64_t(m.size()) * 8;
        m.push_back(std::byte(0x80));
        while (m.size() % 64 != 56) {
            m.push_back({});
        }
        for (int i = 7; i >= 0; --i) {
            m.push_back(std::byte(std::uint8_t(bits >> (8 * i))));
        }
        return m;
    }
    static std::uint32_t word(const bytes_t & m, std::size_t i)
    {
        return std::uint32_t(m[i]) << 24 | std::uint32_t(m[i + 1]) << 16 | std::uint32_t(m[i + 2]) << 8 | std::uint32_t(m[i + 3]);
    }
    static bytes_t digest(const std::uint32_t * h, int n)
    {
        bytes_t r;
        for (int i = 0; i < n; ++i) {
            for (int k = 3; k >= 0; --k) {
                r.push_back(std::byte(std::uint8_t(h[i] >> (8 * k))));
            }
        }
        return r;
    }
    static bytes_t one(const bytes_t & message)
    {
        auto m = padded(message);
        std::uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}, w[80];
        for (std::size_t p = 0; p < m.size(); p += 64) {
            for (int t = 0; t < 80; ++t) {
                w[t] = t < 16 ? word(m, p + 4 * t) : left(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
            }
            auto a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
            for (int t = 0; t < 80; ++t) {
                auto f = t < 20 ? (b & c) ^ (~b & d) : t < 40 || t >= 60 ? b ^ c ^ d : (b & c) ^ (b & d) ^ (c & d);
                auto k = t < 20 ? 0x5a827999 : t < 40 ? 0x6ed9eba1 : t < 60 ? 0x8f1bbcdc : 0xca62c1d6;
                auto x = left(a, 5) + f + e + k + w[t];
                e = d, d = c, c = left(b, 30), b = a, a = x;
            }
            h[0] += a, h[1] += b, h[2] += c, h[3] += d, h[4] += e;
        }
        return digest(h, 5);
    }
    static bytes_t two(const bytes_t & message)
    {
        // The constants are the fractions of roots of the first primes.
        static const auto constants = [] {
            std::array<std::uint32_t, 64> k{};
            int n = 0;
            for (int p = 2; n < 64; ++p) {
                bool prime = true;
                for (int q = 2; q * q <= p; ++q) {
                    prime = prime && p % q;
                }
                if (prime) {
                    // floor(cbrt(p) * 2^32) by bisection over integers.
                    unsigned __int128 lo = 0, hi = (unsigned __int128)(8) << 32;
                    auto target = [&](unsigned __int128 x) { // x^3 <= p * 2^96 ?
                        auto a = x * x;                         // < 2^71
                        // a * x < 2^107 fits in 128 bits
                        return a * x <= ((unsigned __int128)(p) << 96);
                    };
                    while (hi - lo > 1) {
                        auto mid = (lo + hi) / 2;
                        (target(mid) ? lo : hi) = mid;
                    }
                    k[n++] = std::uint32_t(lo);
                }
            }
            return k;
        }();
        auto m = padded(message);
        std::uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19}, w[64];
        for (std::size_t p = 0; p < m.size(); p += 64) {
            for (int t = 0; t < 64; ++t) {
                if (t < 16) {
                    w[t] = word(m, p + 4 * t);
                } else {
                    auto x = w[t - 2], y = w[t - 15];
                    w[t] = (right(x, 17) ^ right(x, 19) ^ x >> 10) + w[t - 7] + (right(y, 7) ^ right(y, 18) ^ y >> 3) + w[t - 16];
                }
            }
            std::uint32_t s[8];
            std::copy(h, h + 8, s);
            for (int t = 0; t < 64; ++t) {
                auto e = s[4], a = s[0];
                auto t1 = s[7] + (right(e, 6) ^ right(e, 11) ^ right(e, 25)) + ((e & s[5]) ^ (~e & s[6])) + constants[t] + w[t];
                auto t2 = (right(a, 2) ^ right(a, 13) ^ right(a, 22)) + ((a & s[1]) ^ (a & s[2]) ^ (s[1] & s[2]));
                for (int i = 7; i; --i) {
                    s[i] = s[i - 1];
                }
                s[4] += t1;
                s[0] = t1 + t2;
            }
            for (int i = 0; i < 8; ++i) {
                h[i] += s[i];
            }
        }
        return digest(h, 8);
    }
};
void standards()
{
    mc::choose(1);
    auto is = [](const bytes_t & d, const char * text) {
        mc::require(d == unhex(text), "harness", [&] { return "the reference digest is wrong: " + show(d); });
    };
    is(sha::one({}), "da39a3ee5e6b4b0d3255bfef95601890afd80709");
    is(sha::one(bytes_of("abc")), "a9993e364706816aba3e25717850c26c9cd0d89d");
    is(sha::one(bytes_of("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")), "84983e441c3bd26ebaae4aa1f95129e5e54670f1");
    is(sha::two({}), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
    is(sha::two(bytes_of("abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    is(sha::two(bytes_of("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")),
       "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1");
    bytes_t million(1000000, std::byte('a'));
    is(sha::one(million), "34aa973cd4c4daa4f61eeb2bdbad27316534016f");
    is(sha::two(million), "cdc76e5c9914fb9281a1c7e284d73e67f1809a48a497200e046d39ccc7112cd0");
    mc::case_done(8);
}

template <typename D>
void compare(const char * what, const D & got, const bytes_t & message, const bytes_t & expected)
{
    mc::step();
    mc::case_done();
    bytes_t d(sizeof got);
    std::memcpy(d.data(), &got, sizeof got);
    mc::state(mc::hash_bytes(message.data(), message.size()));
    mc::outcome(mc::hash_bytes(d.data(), d.size()));
    mc::note([&] { return mc::format("%s of %zu bytes %s", what, message.size(), show(message).c_str()); });
    mc::require(d == expected, "digest", [&] {
        return mc::format("%s of %zu bytes (%s) is %s, the standard says %s", what, message.size(), show(message).c_str(), show(d).c_str(),
                          show(expected).c_str());
    });
}

// ---------------------------------------------------------------- lengths
template <std::size_t N, int K>
constexpr auto content()
{
    std::array<std::byte, N> a{};
    for (std::size_t i = 0; i < N; ++i) {
        a[i] = std::byte(std::uint8_t(K == 0 ? i * 37 + N : K == 1 ? 0xff : K == 2 ? 0 : K == 3 ? 0x80 : i * i * 11 + 128 + N));
    }
    return a;
}
template <std::size_t N, int K>
void length()
{
    constexpr auto m = content<N, K>();
    bytes_t b(m.begin(), m.end());
    auto first = sha::one(b), second = sha::two(b);
    compare("sha1", zb::sha1<m>(), b, first);
    compare("sha256", zb::sha256<m>(), b, second);
    if constexpr (N % 8 == 7 || MC_THOROUGH_BUILD) {
        constexpr auto one = zb::sha1<m>();
        constexpr auto two = zb::sha256<m>();
        compare("constant sha1", one, b, first);
        compare("constant sha256", two, b, second);
    }
}
template <std::size_t From, int K, std::size_t... I>
void lengths(const char * name, std::index_sequence<I...>)
{
    (mc::add(mc::format("%s length %zu", name, From + I),
             [] {
                 mc::choose(1);
                 length<From + I, K>();
             }),
     ...);
}

// ---------------------------------------------------------------- objects
struct point
{
    int x;
    short y;
    std::array<unsigned char, 3> z;
};
#define TEXT(S)                                                                                       \
    {                                                                                                 \
        bytes_t b = bytes_of(std::string_view(S, sizeof(S) - 1));                                     \
        compare("_sha1", S ""_sha1, b, sha::one(b));                                                  \
        compare("_sha256", S ""_sha256, b, sha::two(b));                                              \
        std::uint32_t n;                                                                              \
        constexpr auto i1 = S ""_sha1_int;                                                            \
        constexpr auto i2 = S ""_sha256_int;                                                          \
        static_assert(sizeof i1 == 4 && sizeof i2 == 4);                                              \
        auto d1 = sha::one(b), d2 = sha::two(b);                                                      \
        d1.resize(4);                                                                                 \
        d2.resize(4);                                                                                 \
        compare("_sha1_int", i1, b, d1);                                                              \
        compare("_sha256_int", i2, b, d2);                                                            \
        constexpr auto raw = S ""_b;                                                                  \
        compare("_b", std::array<std::byte, sizeof(S) - 1>(to_array<sizeof(S) - 1>(raw)), b, b);      \
    }
template <std::size_t N>
auto to_array(auto const & r)
{
    std::array<std::byte, N> a{};
    std::copy(r.begin(), r.end(), a.begin());
    return a;
}
void objects()
{
    using namespace zb::literals;
    mc::choose(1);
    TEXT("a");
    TEXT("abc");
    TEXT("hello world");
    TEXT("v1::person");
    TEXT("\xff\x80\x7f");
    TEXT("0123456789012345678901234567890123456789012345678901234");          // 55
    TEXT("01234567890123456789012345678901234567890123456789012345");         // 56
    TEXT("012345678901234567890123456789012345678901234567890123456789012");  // 63
    TEXT("0123456789012345678901234567890123456789012345678901234567890123"); // 64
    {
        auto b = unhex("04030201" "0605" "070809");
        compare("sha1 of an object", zb::sha1<point{0x01020304, 0x0506, {7, 8, 9}}>(), b, sha::one(b));
        compare("sha256 of an object", zb::sha256<point{0x01020304, 0x0506, {7, 8, 9}}>(), b, sha::two(b));
        b = unhex("78563412");
        compare("sha1 of a number", zb::sha1<0x12345678>(), b, sha::one(b));
        compare("sha256 of a number", zb::sha256<0x12345678>(), b, sha::two(b));
        compare("sha1 as unsigned chars", zb::sha1<0x12345678, std::array<unsigned char, 20>>(), b, sha::one(b));
        compare("sha256 as chars", zb::sha256<0x12345678, std::array<char, 32>>(), b, sha::two(b));
        // The hash of a hash.
        b = sha::one(bytes_of("abc"));
        compare("sha256 of sha1", zb::sha256<"abc"_sha1>(), b, sha::two(b));
    }
}

// ---------------------------------------------------------------- hex
template <typename D>
void check_hex(const D & got, std::string_view text)
{
    auto e = unhex(text);
    mc::step();
    mc::case_done();
    bool ok = got.size() == e.size();
    for (std::size_t i = 0; ok && i < e.size(); ++i) {
        ok = got[i] == e[i];
    }
    mc::require(ok, "hex", [&] { return "the hex literal " + std::string(text.substr(0, 80)) + " has other bytes"; });
    mc::state(mc::hash_bytes(text.data(), text.size()));
}
void hexes()
{
    using namespace zb::literals;
    mc::choose(1);
#define HEX(S)                           \
    {                                    \
        constexpr auto d = S ""_decode_hex; \
        check_hex(d, S);                 \
        check_hex(S ""_decode_hex, S);     \
    }
#define HEX_ALL(S) HEX(S)
#include "c22_literals.inc"
}

// ---------------------------------------------------------------- ids
template <typename Id, typename... O>
void one_id(const char * name, const bytes_t & expected, O... o)
{
    std::vector<std::byte> d;
    zb::out out{d, o...};
    auto e = std::errc(out(Id::value));
    mc::step();
    mc::case_done();
    mc::require(e == std::errc{} && d == expected, "id", [&] {
        return mc::format("%s: an id of %zu bytes is written as %s instead of %s", name, expected.size(), show(d).c_str(), show(expected).c_str());
    });
    mc::state(mc::hash_bytes(expected.data(), expected.size()));
    std::vector<std::byte> bytes(sizeof(Id::value));
    mc::require(sizeof(Id::value) == expected.size(), "id-size", [&] {
        return mc::format("%s: an id of %zu bytes takes %zu", name, expected.size(), sizeof(Id::value));
    });
}
template <std::size_t... N>
void widths(std::index_sequence<N...>)
{
    using namespace zb::literals;
    auto one = sha::one(bytes_of("name")), two = sha::two(bytes_of("name"));
    auto cut = [](bytes_t b, std::size_t n) {
        b.resize(n);
        return b;
    };
    (one_id<zb::id<"name"_sha256, N + 1>>("sha256", cut(two, N + 1)), ...);
    (
        [&] {
            if constexpr (N < 20) {
                one_id<zb::id<"name"_sha1, N + 1>>("sha1", cut(one, N + 1));
            }
        }(),
        ...);
    one_id<zb::id<"name"_sha256>>("sha256", two);
    one_id<zb::id<"name"_sha1>>("sha1", one);
    auto text = bytes_of("abcdefghijklmnopqrstuvwxyz012345");
    (one_id<zb::id<"abcdefghijklmnopqrstuvwxyz012345"_s, N + 1>>("text", cut(text, N + 1)), ...);
}
void ids()
{
    using namespace zb::literals;
    mc::choose(1);
    widths(std::make_index_sequence<32>{});
    one_id<zb::id<1>>("int", unhex("01000000"));
    one_id<zb::id<std::uint8_t(200)>>("uint8", unhex("c8"));
    one_id<zb::id<std::uint16_t(0x1234)>>("uint16", unhex("3412"));
    one_id<zb::id<std::int64_t(-2)>>("int64", unhex("feffffffffffffff"));
    one_id<zb::id<std::uint64_t(0x1122334455667788), 3>>("3 of 8", unhex("887766"));
    one_id<zb::id<"a"_s>>("1", bytes_of("a"));
    one_id<zb::id<"ab"_s>>("2", bytes_of("ab"));
    one_id<zb::id<"abc"_s>>("3", bytes_of("abc"));
    one_id<zb::id<"abcd"_s>>("4", bytes_of("abcd"));
    one_id<zb::id<"abcde"_s>>("5", bytes_of("abcde"));
    one_id<zb::id<"abcdefgh"_s>>("8", bytes_of("abcdefgh"));
    one_id<zb::id<point{0x01020304, 0x0506, {7, 8, 9}}>>("object", unhex("040302010605070809"));
    one_id<zb::id<"0123456789"_decode_hex>>("hex", unhex("0123456789"));
    static_assert(zb::id_v<"abcd"_s> == 0x64636261);
    static_assert(zb::id_v<"a"_s> == std::byte(0x61));
    static_assert(zb::id_v<"abcdefgh"_s, 2> == 0x6261);
}

bool added = [] {
#if PART == 0
    mc::add("the standards' own examples", standards);
    mc::add("texts and objects", objects);
    mc::add("hex literals", hexes);
    mc::add("ids", ids);
#elif PART <= 6
    // Every length.
    lengths<(PART - 1) * 45, 0>("mixed", std::make_index_sequence<45>{});
#else
    lengths<0, 1>("ones", std::make_index_sequence<2>{});
    lengths<54, 1>("ones", std::make_index_sequence<12>{});
    lengths<118, 2>("zeros", std::make_index_sequence<4>{});
    lengths<54, 3>("high", std::make_index_sequence<4>{});
    lengths<511, 0>("long", std::make_index_sequence<3>{});
    lengths<1015, 4>("long", std::make_index_sequence<3>{});
    lengths<4000, 4>("long", std::make_index_sequence<1>{});
    lengths<1, 4>("other", std::make_index_sequence<30>{});
#endif
    return true;
}();
} // namespace
