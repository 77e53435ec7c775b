// The messages the protocol buffers checks are made of.
#ifndef PB_TYPES_HPP
#define PB_TYPES_HPP

#include "pb.hpp"
#include <deque>
#include <list>
#include <set>
#include <unordered_map>

namespace pbt
{
namespace zb = zpp::bits;
using pb::field;
using pb::kind;
using pb::rule;
using pb::schema;

enum class color : int { red, green, blue = 2, far = 1000, below = -1 };
enum class small : std::uint8_t { a, b, c = 255 };

struct one { zb::vint32_t i; };
auto serialize(const one &) -> zb::pb_protocol;

struct numbers
{
    using serialize = zb::pb_members<7>;
    zb::vint32_t a;
    zb::vint64_t b;
    zb::vuint32_t c;
    zb::vuint64_t d;
    zb::vsint32_t e;
    zb::vsint64_t f;
    bool g{};
};
struct fixed
{
    using serialize = zb::protocol<zb::pb{}>;
    std::uint32_t a{};
    std::int32_t b{};
    float c{};
    std::uint64_t d{};
    std::int64_t e{};
    double f{};
    color g{};
    small h{};
};
struct texts
{
    std::string a;
    std::vector<std::byte> b;
    zb::pb_field<std::string, 15> c;
    zb::pb_field<std::vector<unsigned char>, 16> d;
};
auto serialize(const texts &) -> zb::protocol<zb::pb{}, 4>;

struct packed
{
    using serialize = zb::pb_protocol;
    std::vector<zb::vint32_t> a;
    std::vector<zb::vsint64_t> b;
    std::vector<std::uint32_t> c;
    std::vector<double> d;
    std::vector<color> e;
    std::list<bool> f;
};
struct packed2
{
    using serialize = zb::pb_protocol;
    std::deque<zb::vuint64_t> a;
    std::set<std::uint32_t> b;
    std::list<std::int64_t> c;
    std::vector<small> d;
    std::vector<float> e;
    std::set<color> f;
};
struct repeated
{
    using serialize = zb::pb_protocol;
    std::vector<std::string> a;
    std::vector<one> b;
    std::list<std::vector<std::byte>> c;
    std::set<std::string> d;
};
struct maps
{
    using serialize = zb::pb_protocol;
    std::map<std::string, zb::vint32_t> a;
    std::map<std::uint32_t, std::string> b;
    std::map<std::uint64_t, one> c;
};
struct maps2
{
    using serialize = zb::pb_protocol;
    std::unordered_map<std::uint32_t, double> a;
    std::map<color, small> b;
    std::map<bool, std::vector<std::byte>> c;
};
struct inner
{
    using serialize = zb::pb_protocol;
    zb::vuint32_t x;
    std::string s;
    std::vector<zb::vint32_t> l;
};
struct flat // embedded where splitting a record in two shows no container
{
    using serialize = zb::pb_protocol;
    zb::vuint32_t x;
    std::uint32_t y{};
};
struct nested
{
    using serialize = zb::pb_protocol;
    flat a;
    [[no_unique_address]] zb::pb_reserved _2;
    inner b;
    zb::pb_field<flat, 17> c;
    zb::vint32_t d; // 5
};
struct deep2 { using serialize = zb::pb_protocol; flat f; zb::vint32_t z; };
struct deep1 { using serialize = zb::pb_protocol; deep2 d; std::vector<deep2> l; };
struct deep { using serialize = zb::pb_protocol; deep1 d; std::map<std::uint32_t, deep1> m; };
struct mapped
{
    zb::vint32_t i;
    zb::vsint32_t j;
    std::string k;
    using serialize = zb::protocol<zb::pb{zb::pb_map<1, 20>{}, zb::pb_map<2, 1>{}, zb::pb_map<3, 2>{}}>;
};
struct large
{
    using serialize = zb::pb_protocol;
    zb::pb_field<zb::vint32_t, 2047> a;
    zb::pb_field<std::uint32_t, 2048> b;
    zb::pb_field<std::string, 262143> c;
    zb::pb_field<zb::vuint64_t, 262144> d;
    zb::pb_field<std::vector<zb::vint32_t>, 33554432u> e;
    zb::pb_field<bool, 268435456> f;
    zb::pb_field<flat, 536870911> g;
};
struct node
{
    using serialize = zb::pb_protocol;
    zb::vint32_t v;
    std::vector<node> children;
};
struct preset // absent fields keep what the target says
{
    using serialize = zb::pb_protocol;
    zb::vint32_t a = 7;
    std::uint32_t b = 0x01020304;
    color c = color::blue;
    flat d{.x = 9, .y = 10};
    bool e = true;
    zb::pb_field<zb::vint32_t, 9> f = 11;
};
struct empty
{
    using serialize = zb::pb_members<1>;
    [[no_unique_address]] zb::pb_reserved _1;
};

inline field f(std::uint32_t no, kind k, unsigned width = 8, rule r = rule::one, const schema * sub = nullptr)
{
    return {no, r, k, width, sub, {}, 8};
}
inline field m(std::uint32_t no, kind key, unsigned key_width, kind k, unsigned width = 8, const schema * sub = nullptr)
{
    return {no, rule::map, k, width, sub, key, key_width};
}
inline field none(std::uint32_t no)
{
    return {no, rule::nothing, {}, 8, nullptr, {}, 8};
}
} // namespace pbt

namespace pb
{
using namespace pbt;
#define PB_SCHEMA(T, ...)                                    \
    static const schema & of()                               \
    {                                                        \
        static const schema s{{__VA_ARGS__}};                \
        return s;                                            \
    }
template <>
struct S<one>
{
    PB_SCHEMA(one, pbt::f(1, kind::varint, 4))
    static auto get(one & t) { return std::tie(t.i); }
};
template <>
struct S<pbt::numbers>
{
    PB_SCHEMA(numbers, pbt::f(1, kind::varint, 4), pbt::f(2, kind::varint), pbt::f(3, kind::varint, 4),
              pbt::f(4, kind::varint), pbt::f(5, kind::zigzag, 4), pbt::f(6, kind::zigzag), pbt::f(7, kind::boolean))
    static auto get(pbt::numbers & t) { return std::tie(t.a, t.b, t.c, t.d, t.e, t.f, t.g); }
};
template <>
struct S<fixed>
{
    PB_SCHEMA(fixed, pbt::f(1, kind::fixed32), pbt::f(2, kind::fixed32), pbt::f(3, kind::fixed32),
              pbt::f(4, kind::fixed64), pbt::f(5, kind::fixed64), pbt::f(6, kind::fixed64),
              pbt::f(7, kind::varint, 4), pbt::f(8, kind::varint, 1))
    static auto get(fixed & t) { return std::tie(t.a, t.b, t.c, t.d, t.e, t.f, t.g, t.h); }
};
template <>
struct S<texts>
{
    PB_SCHEMA(texts, pbt::f(1, kind::text), pbt::f(2, kind::text), pbt::f(15, kind::text), pbt::f(16, kind::text))
    static auto get(texts & t) { return std::tie(t.a, t.b, t.c, t.d); }
};
template <>
struct S<packed>
{
    PB_SCHEMA(packed, pbt::f(1, kind::varint, 4, rule::list), pbt::f(2, kind::zigzag, 8, rule::list),
              pbt::f(3, kind::fixed32, 4, rule::list), pbt::f(4, kind::fixed64, 8, rule::list),
              pbt::f(5, kind::varint, 4, rule::list), pbt::f(6, kind::boolean, 1, rule::list))
    static auto get(packed & t) { return std::tie(t.a, t.b, t.c, t.d, t.e, t.f); }
};
template <>
struct S<packed2>
{
    PB_SCHEMA(packed2, pbt::f(1, kind::varint, 8, rule::list), pbt::f(2, kind::fixed32, 4, rule::set),
              pbt::f(3, kind::fixed64, 8, rule::list), pbt::f(4, kind::varint, 1, rule::list),
              pbt::f(5, kind::fixed32, 4, rule::list), pbt::f(6, kind::varint, 4, rule::set))
    static auto get(packed2 & t) { return std::tie(t.a, t.b, t.c, t.d, t.e, t.f); }
};
template <>
struct S<repeated>
{
    PB_SCHEMA(repeated, pbt::f(1, kind::text, 8, rule::list), pbt::f(2, kind::message, 8, rule::list, &S<one>::of()),
              pbt::f(3, kind::text, 8, rule::list), pbt::f(4, kind::text, 8, rule::set))
    static auto get(repeated & t) { return std::tie(t.a, t.b, t.c, t.d); }
};
template <>
struct S<maps>
{
    PB_SCHEMA(maps, pbt::m(1, kind::text, 8, kind::varint, 4), pbt::m(2, kind::fixed32, 4, kind::text),
              pbt::m(3, kind::fixed64, 8, kind::message, 8, &S<one>::of()))
    static auto get(maps & t) { return std::tie(t.a, t.b, t.c); }
};
template <>
struct S<maps2>
{
    PB_SCHEMA(maps2, pbt::m(1, kind::fixed32, 4, kind::fixed64), pbt::m(2, kind::varint, 4, kind::varint, 1),
              pbt::m(3, kind::boolean, 1, kind::text))
    static auto get(maps2 & t) { return std::tie(t.a, t.b, t.c); }
};
template <>
struct S<inner>
{
    PB_SCHEMA(inner, pbt::f(1, kind::varint, 4), pbt::f(2, kind::text), pbt::f(3, kind::varint, 4, rule::list))
    static auto get(inner & t) { return std::tie(t.x, t.s, t.l); }
};
template <>
struct S<flat>
{
    PB_SCHEMA(flat, pbt::f(1, kind::varint, 4), pbt::f(2, kind::fixed32))
    static auto get(flat & t) { return std::tie(t.x, t.y); }
};
template <>
struct S<nested>
{
    PB_SCHEMA(nested, pbt::f(1, kind::message, 8, rule::one, &S<flat>::of()), pbt::none(2),
              pbt::f(3, kind::message, 8, rule::one, &S<inner>::of()),
              pbt::f(17, kind::message, 8, rule::one, &S<flat>::of()), pbt::f(5, kind::varint, 4))
    static auto get(nested & t) { return std::tie(t.a, t._2, t.b, t.c, t.d); }
};
template <>
struct S<deep2>
{
    PB_SCHEMA(deep2, pbt::f(1, kind::message, 8, rule::one, &S<flat>::of()), pbt::f(2, kind::varint, 4))
    static auto get(deep2 & t) { return std::tie(t.f, t.z); }
};
template <>
struct S<deep1>
{
    PB_SCHEMA(deep1, pbt::f(1, kind::message, 8, rule::one, &S<deep2>::of()),
              pbt::f(2, kind::message, 8, rule::list, &S<deep2>::of()))
    static auto get(deep1 & t) { return std::tie(t.d, t.l); }
};
template <>
struct S<deep>
{
    PB_SCHEMA(deep, pbt::f(1, kind::message, 8, rule::one, &S<deep1>::of()),
              pbt::m(2, kind::fixed32, 4, kind::message, 8, &S<deep1>::of()))
    static auto get(deep & t) { return std::tie(t.d, t.m); }
};
template <>
struct S<mapped>
{
    PB_SCHEMA(mapped, pbt::f(20, kind::varint, 4), pbt::f(1, kind::zigzag, 4), pbt::f(2, kind::text))
    static auto get(mapped & t) { return std::tie(t.i, t.j, t.k); }
};
template <>
struct S<large>
{
    PB_SCHEMA(large, pbt::f(2047, kind::varint, 4), pbt::f(2048, kind::fixed32), pbt::f(262143, kind::text),
              pbt::f(262144, kind::varint), pbt::f(33554432, kind::varint, 4, rule::list),
              pbt::f(268435456, kind::boolean), pbt::f(536870911, kind::message, 8, rule::one, &S<flat>::of()))
    static auto get(large & t) { return std::tie(t.a, t.b, t.c, t.d, t.e, t.f, t.g); }
};
template <>
struct S<node>
{
    static const schema & of()
    {
        static schema s{{pbt::f(1, kind::varint, 4), pbt::f(2, kind::message, 8, rule::list, &s)}};
        return s;
    }
    static auto get(node & t) { return std::tie(t.v, t.children); }
};
template <>
struct S<preset>
{
    PB_SCHEMA(preset, pbt::f(1, kind::varint, 4), pbt::f(2, kind::fixed32), pbt::f(3, kind::varint, 4),
              pbt::f(4, kind::message, 8, rule::one, &S<flat>::of()), pbt::f(5, kind::boolean), pbt::f(9, kind::varint, 4))
    static auto get(preset & t) { return std::tie(t.a, t.b, t.c, t.d, t.e, t.f); }
};
template <>
struct S<empty>
{
    PB_SCHEMA(empty, pbt::none(1))
    static auto get(empty & t) { return std::tie(t._1); }
};
} // namespace pb

#endif
