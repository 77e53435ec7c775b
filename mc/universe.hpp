// The types which are explored: every kind the documentation names, and the
// nestings in which the implementation takes different branches.
#ifndef UNIVERSE_HPP
#define UNIVERSE_HPP

#include "model.hpp"

namespace uni
{
using namespace zpp::bits;

enum class e8 : std::uint8_t { a, b = 0x80 };
enum class e16 : std::int16_t { a };
enum class e32 : std::uint32_t { a };
enum class e64 : std::int64_t { a };
enum plain_enum : int { plain_a };

// Aggregates.
struct agg1 { std::uint32_t a; };
struct agg2 { std::uint8_t a; std::uint16_t b; };               // padding
struct agg3 { std::uint8_t a; std::uint32_t b; std::uint16_t c; }; // padding
struct packed2 { std::uint32_t a; std::int32_t b; };            // bulk copied
// C arrays need an explicit member count (README).
struct packed3 { using serialize = zpp::bits::members<3>; std::uint16_t a; e16 b; std::uint16_t c[2]; };
struct bytes3 { std::uint8_t a; std::byte b; char c; };         // byte order independent
struct bytes_arr { using serialize = zpp::bits::members<2>; std::array<std::uint8_t, 3> a; unsigned char b[2]; };
struct mixed { std::uint16_t a; std::string b; double c; };
struct nested { packed2 a; mixed b; bytes3 c; };
struct nested_packed { using serialize = zpp::bits::members<3>; packed2 a; packed2 b[2]; float c; };
struct tail_pad { std::uint64_t a; std::uint8_t b; };
struct with_bool { std::uint8_t a; bool b; };
struct empty_s {};
struct with_empty { std::uint8_t a; empty_s b; std::uint16_t c; };
struct carr { using serialize = zpp::bits::members<2>; std::uint16_t a[3]; std::string b[2]; };
struct with_ptrs { std::unique_ptr<std::uint16_t> a; std::shared_ptr<std::string> b; };
struct with_opt { using serialize = zpp::bits::members<2>; std::optional<std::uint16_t> a; optional_ptr<std::uint32_t> b; };
struct with_var { std::uint8_t a; std::variant<std::uint16_t, std::string> b; std::uint8_t c; };
struct with_bitset { std::uint8_t a; std::bitset<11> b; std::uint8_t c; };
struct with_varint { vuint32_t a; vsint64_t b; std::uint8_t c; };
struct with_map { std::map<std::uint8_t, std::string> a; std::set<std::uint16_t> b; };
struct many
{
    std::uint8_t a; std::uint16_t b; std::string c; std::uint32_t d; e8 e;
    std::vector<std::uint8_t> f; std::uint64_t g; vint32_t h; std::uint8_t i; float j;
};

// Classes.
class priv
{
public:
    using serialize = zpp::bits::members<2>;
    priv() = default;
    auto fields() { return std::tie(a, b); }

private:
    friend zpp::bits::access;
    std::uint16_t a{};
    std::string b;
};
class priv_packed // private members, eligible for bulk copy
{
public:
    using serialize = zpp::bits::members<2>;
    auto fields() { return std::tie(a, b); }

private:
    friend zpp::bits::access;
    std::uint32_t a{};
    std::uint32_t b{};
};
struct adl_members
{
    adl_members() = default;
    adl_members(int) {}
    std::uint8_t a{};
    std::uint32_t b{};
};
auto serialize(const adl_members &) -> zpp::bits::members<2>;

struct explicit_ser // members in another order than declared
{
    explicit_ser() = default;
    std::uint8_t a{};
    std::string b;
    constexpr static auto serialize(auto & archive, auto & self)
    {
        return archive(self.b, self.a);
    }
};
struct explicit_free
{
    std::uint16_t a{};
    std::uint8_t b{};
    explicit_free() = default;
};
constexpr auto serialize(auto & archive, const explicit_free & self)
    requires(std::remove_cvref_t<decltype(archive)>::kind() == zpp::bits::kind::out)
{
    return archive(self.b, self.a);
}
constexpr auto serialize(auto & archive, explicit_free & self)
    requires(std::remove_cvref_t<decltype(archive)>::kind() == zpp::bits::kind::in)
{
    return archive(self.b, self.a);
}
class explicit_private
{
public:
    explicit_private() = default;
    auto fields() { return std::tie(a, b); }
    constexpr static auto serialize(auto & archive, auto & self)
    {
        return archive(self.a, self.b);
    }

private:
    std::uint32_t a{};
    std::uint8_t b{};
};
class non_default // only the library can construct it
{
public:
    auto fields() { return std::tie(a, b); }
    static non_default make() { return {}; }
    non_default(non_default &&) = default;
    non_default(const non_default &) = default;
    non_default & operator=(non_default &&) = default;
    non_default & operator=(const non_default &) = default;

private:
    friend zpp::bits::access;
    non_default() = default;
    using serialize = zpp::bits::members<2>;
    std::uint16_t a{};
    std::string b;
};

// Recursion.
struct tree
{
    std::uint8_t value{};
    optional_ptr<tree> left, right;
};
struct forest
{
    std::uint8_t value{};
    std::vector<forest> children;
};

// Variants with identifiers.
struct id32a { using serialize_id = zpp::bits::serialization_id<0x11223344u>; std::uint8_t v; };
struct id32b { using serialize_id = zpp::bits::serialization_id<0x11223345u>; std::uint16_t v; };
struct id32c { using serialize_id = zpp::bits::serialization_id<0x44332211u>; std::string v; };
struct id16a { std::uint8_t v; };
auto serialize_id(const id16a &) -> zpp::bits::serialization_id<std::uint16_t(0x0102)>;
struct id16b { std::uint32_t v; };
auto serialize_id(const id16b &) -> zpp::bits::serialization_id<std::uint16_t(0x0201)>;
using namespace zpp::bits::literals;
struct ids3a { using serialize_id = zpp::bits::id<"v1"_s>; std::uint8_t v; };
struct ids3b { using serialize_id = zpp::bits::id<"v2"_s>; std::uint16_t v; };
struct idl5a { using serialize_id = zpp::bits::id<"first"_s>; std::uint8_t v; };
struct idl5b { using serialize_id = zpp::bits::id<"fires"_s>; std::uint16_t v; };
struct idsha_a { using serialize_id = zpp::bits::id<"a"_sha256, 8>; std::uint8_t v; };
struct idsha_b { using serialize_id = zpp::bits::id<"b"_sha256, 8>; std::string v; };
struct idb_a { using serialize_id = zpp::bits::serialization_id<std::uint8_t(7)>; std::uint8_t v; };
struct idb_b { using serialize_id = zpp::bits::serialization_id<std::uint8_t(200)>; std::string v; };
} // namespace uni

namespace model
{
#define FIELDS(T, ...)                                                       \
    template <>                                                              \
    struct Fields<uni::T>                                                    \
    {                                                                        \
        static auto get(uni::T & s)                                          \
        {                                                                    \
            (void)s;                                                         \
            return std::tie(__VA_ARGS__);                                    \
        }                                                                    \
    };
FIELDS(agg1, s.a)
FIELDS(agg2, s.a, s.b)
FIELDS(agg3, s.a, s.b, s.c)
FIELDS(packed2, s.a, s.b)
FIELDS(packed3, s.a, s.b, s.c)
FIELDS(bytes3, s.a, s.b, s.c)
FIELDS(bytes_arr, s.a, s.b)
FIELDS(mixed, s.a, s.b, s.c)
FIELDS(nested, s.a, s.b, s.c)
FIELDS(nested_packed, s.a, s.b, s.c)
FIELDS(tail_pad, s.a, s.b)
FIELDS(with_bool, s.a, s.b)
FIELDS(empty_s)
FIELDS(with_empty, s.a, s.b, s.c)
FIELDS(carr, s.a, s.b)
FIELDS(with_ptrs, s.a, s.b)
FIELDS(with_opt, s.a, s.b)
FIELDS(with_var, s.a, s.b, s.c)
FIELDS(with_bitset, s.a, s.b, s.c)
FIELDS(with_varint, s.a, s.b, s.c)
FIELDS(with_map, s.a, s.b)
FIELDS(many, s.a, s.b, s.c, s.d, s.e, s.f, s.g, s.h, s.i, s.j)
FIELDS(adl_members, s.a, s.b)
FIELDS(explicit_ser, s.b, s.a)
FIELDS(explicit_free, s.b, s.a)
FIELDS(tree, s.value, s.left, s.right)
FIELDS(id32a, s.v)
FIELDS(id32b, s.v)
FIELDS(id32c, s.v)
FIELDS(id16a, s.v)
FIELDS(id16b, s.v)
FIELDS(ids3a, s.v)
FIELDS(ids3b, s.v)
FIELDS(idl5a, s.v)
FIELDS(idl5b, s.v)
FIELDS(idsha_a, s.v)
FIELDS(idsha_b, s.v)
FIELDS(idb_a, s.v)
FIELDS(idb_b, s.v)
#undef FIELDS
template <>
struct Fields<uni::priv>
{
    static auto get(uni::priv & s) { return s.fields(); }
};
template <>
struct Fields<uni::priv_packed>
{
    static auto get(uni::priv_packed & s) { return s.fields(); }
};
template <>
struct Fields<uni::explicit_private>
{
    static auto get(uni::explicit_private & s) { return s.fields(); }
};
template <>
struct Fields<uni::non_default>
{
    static auto get(uni::non_default & s) { return s.fields(); }
    static uni::non_default make() { return uni::non_default::make(); }
};

// The children of a forest: bounded depth.
template <>
struct M<uni::forest>
{
    using T = uni::forest;
    static T gen(G & g)
    {
        T t;
        t.value = M<std::uint8_t>::gen(g);
        if (g.level < 2) {
            static constexpr std::size_t counts[] = {1, 0, 2};
            auto n = counts[g.deviate(3, "children")];
            ++g.level;
            for (std::size_t i = 0; i < n; ++i) {
                t.children.push_back(gen(g));
            }
            --g.level;
        }
        return t;
    }
    static void enc(Enc & e, const T & v)
    {
        M<std::uint8_t>::enc(e, v.value);
        auto n = e.count(v.children.size());
        (void)n;
        for (auto & c : v.children) {
            enc(e, c);
        }
    }
    static std::errc dec(Dec & d, T & v)
    {
        if (auto r = M<std::uint8_t>::dec(d, v.value); r != std::errc{}) {
            return r;
        }
        std::uint64_t n;
        if (auto r = d.count(n); r != std::errc{}) {
            return r;
        }
        if (n > d.c.alloc_limit / sizeof(T)) {
            return std::errc::message_size;
        }
        v.children.clear();
        for (std::uint64_t i = 0; i < n; ++i) {
            v.children.emplace_back();
            if (auto r = dec(d, v.children.back()); r != std::errc{}) {
                return r;
            }
        }
        return {};
    }
    static bool eq(const T & a, const T & b)
    {
        if (a.value != b.value || a.children.size() != b.children.size()) {
            return false;
        }
        for (std::size_t i = 0; i < a.children.size(); ++i) {
            if (!eq(a.children[i], b.children[i])) {
                return false;
            }
        }
        return true;
    }
};

// Identifiers, written down by hand.
inline bytes_t raw_id(std::string_view s)
{
    bytes_t b;
    for (char c : s) {
        b.push_back(std::byte(c));
    }
    return b;
}
#define ID(T, ...)                                                           \
    template <>                                                              \
    struct variant_id<uni::T>                                                \
    {                                                                        \
        static wire_id id() { return __VA_ARGS__; }                          \
    };
ID(id32a, {0x11223344, 4, {}})
ID(id32b, {0x11223345, 4, {}})
ID(id32c, {0x44332211, 4, {}})
ID(id16a, {0x0102, 2, {}})
ID(id16b, {0x0201, 2, {}})
ID(ids3a, {0x3176, 2, {}}) // "v1" as a little endian number
ID(ids3b, {0x3276, 2, {}})
ID(idl5a, {0, 0, raw_id("first")})
ID(idl5b, {0, 0, raw_id("fires")})
// First eight bytes of the digests: ca978112ca1bbdca, 3e23e8160039594a.
ID(idsha_a, {0xcabd1bca128197caull, 8, {}})
ID(idsha_b, {0x4a59390016e8233eull, 8, {}})
ID(idb_a, {7, 1, {}})
ID(idb_b, {200, 1, {}})
#undef ID
} // namespace model

namespace uni
{
template <typename... T>
struct types
{
};

using group0 = types<bool, char, signed char, unsigned char, char8_t, char16_t, char32_t,
                     std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t,
                     std::uint64_t, float, double, std::byte, e8, e16, e32, e64, plain_enum>;
using group1 = types<vint32_t, vint64_t, vuint32_t, vuint64_t, vsint32_t, vsint64_t,
                     varint<std::uint16_t>, varint<std::int16_t>, varint<std::uint8_t>,
                     varint<std::int8_t>, varint<std::int16_t, varint_encoding::zig_zag>,
                     varint<std::int8_t, varint_encoding::zig_zag>, varint<e32>, varint<e8>,
                     std::vector<vuint32_t>, std::vector<vsint64_t>, std::array<vint32_t, 2>,
                     with_varint>;
using group2 = types<std::string, std::u8string, std::u16string, std::u32string, std::wstring,
                     std::vector<std::uint8_t>, std::vector<char>, std::vector<std::byte>,
                     std::vector<std::uint16_t>, std::vector<std::int32_t>,
                     std::vector<std::uint64_t>, std::vector<double>, std::vector<e16>>;
using group3 = types<std::vector<std::string>, std::vector<std::vector<std::uint16_t>>,
                     std::vector<std::optional<std::uint16_t>>,
                     std::vector<std::unique_ptr<std::uint32_t>>,
                     std::vector<std::pair<std::uint8_t, std::uint32_t>>, std::vector<agg3>,
                     std::vector<packed2>, std::vector<packed3>, std::vector<bytes3>,
                     std::vector<std::array<std::uint16_t, 2>>,
                     std::vector<std::variant<std::uint8_t, std::string>>,
                     std::vector<std::bitset<5>>, std::vector<mixed>>;
using group4 = types<std::deque<std::uint8_t>, std::deque<std::uint32_t>, std::deque<std::string>,
                     std::list<std::uint8_t>, std::list<std::uint16_t>, std::list<std::string>,
                     std::array<std::uint8_t, 3>, std::array<std::uint32_t, 2>,
                     std::array<std::string, 2>, std::array<std::array<std::uint16_t, 2>, 2>,
                     std::array<agg3, 2>, std::array<packed2, 2>, std::array<std::uint32_t, 1>>;
using group5 = types<std::map<std::uint8_t, std::uint32_t>, std::map<std::string, std::uint16_t>,
                     std::map<std::uint32_t, std::vector<std::uint8_t>>,
                     std::map<std::uint16_t, std::map<std::uint8_t, std::uint16_t>>,
                     std::unordered_map<std::uint32_t, std::string>,
                     std::unordered_map<std::string, std::uint32_t>, std::set<std::uint16_t>,
                     std::set<std::string>, std::unordered_set<std::uint32_t>,
                     std::unordered_set<std::string>, std::multiset<std::uint16_t>,
                     std::map<e16, std::uint16_t>>;
using group6 = types<std::tuple<>, std::tuple<std::uint8_t, std::uint32_t>,
                     std::tuple<std::string, std::uint16_t, std::vector<std::uint8_t>>,
                     std::pair<std::uint16_t, std::string>, std::pair<std::uint8_t, std::uint8_t>,
                     std::tuple<std::tuple<std::uint16_t>, std::pair<std::uint8_t, std::string>>,
                     std::optional<std::uint8_t>, std::optional<std::uint64_t>,
                     std::optional<std::string>, std::optional<std::optional<std::uint16_t>>,
                     std::optional<mixed>, std::optional<non_default>, std::optional<std::vector<std::uint32_t>>,
                     std::unique_ptr<std::uint32_t>, std::unique_ptr<std::string>,
                     std::shared_ptr<std::uint64_t>, std::shared_ptr<mixed>,
                     optional_ptr<std::uint16_t>, optional_ptr<std::string>,
                     std::unique_ptr<std::vector<std::uint16_t>>>;
using group7 = types<std::variant<std::uint8_t, std::uint32_t>,
                     std::variant<std::string, std::vector<std::uint16_t>, std::int32_t>,
                     std::variant<std::monostate, std::uint16_t, mixed>,
                     std::variant<std::variant<std::uint8_t, std::uint16_t>, std::string>,
                     std::variant<id32a, id32b, id32c>, std::variant<id16a, id16b>,
                     std::variant<ids3a, ids3b>, std::variant<idl5a, idl5b>,
                     std::variant<idsha_a, idsha_b>, std::variant<idb_a, idb_b>,
                     std::variant<std::uint16_t, non_default>,
                     std::variant<std::optional<std::uint16_t>, std::unique_ptr<std::uint32_t>>,
                     std::variant<std::uint8_t>>;
using group8 = types<std::bitset<1>, std::bitset<7>, std::bitset<8>, std::bitset<9>,
                     std::bitset<16>, std::bitset<31>, std::bitset<64>, std::bitset<65>,
                     with_bitset, agg1, agg2, agg3, packed2, packed3, bytes3, bytes_arr, mixed>;
using group9 = types<nested, nested_packed, tail_pad, with_bool, empty_s, with_empty, carr,
                     with_ptrs, with_opt, with_var, with_map, many>;
using group10 = types<priv, priv_packed, adl_members, explicit_ser, explicit_free,
                      explicit_private, tree, forest, std::vector<priv>,
                      std::vector<priv_packed>, std::vector<adl_members>,
                      std::vector<explicit_ser>, std::array<explicit_private, 2>,
                      std::map<std::uint8_t, priv>>;
using group11 = types<sized_t<std::vector<std::uint16_t>, std::uint8_t>,
                      sized_t<std::string, std::uint16_t>,
                      sized_t<std::vector<std::string>, std::uint8_t>,
                      sized_t<std::vector<std::uint32_t>, vsize_t>,
                      sized_t<std::map<std::uint8_t, std::string>, std::uint16_t>,
                      sized_t<std::set<std::uint16_t>, vsize_t>,
                      sized_t<std::list<std::uint16_t>, std::uint8_t>,
                      sized_t<std::deque<std::string>, std::uint64_t>,
                      std::vector<sized_t<std::string, std::uint8_t>>,
                      std::vector<string2b>, vector8b<std::uint8_t>,
                      std::optional<vector1b<std::uint16_t>>,
                      std::map<string1b, vector1b<std::uint16_t>>,
                      sized_t<std::vector<sized_t<std::vector<std::uint16_t>, std::uint16_t>>, std::uint8_t>>;
} // namespace uni

#endif
