// C23: the length prefix of every container, for every wrapper, alias and
// archive option, with counts around every boundary.
#include "kit.hpp"
#include <span>

using namespace kit;

namespace
{
// ---------------------------------------------------------------- options
template <prefix P, bool Big, typename... O>
struct opt
{
    static constexpr prefix p = P;
    static constexpr bool big = Big;
    static config model() { return {Big, P}; }
    static auto out(auto & d) { return zb::out{d, O{}...}; }
    static auto in(auto & d) { return zb::in{d, O{}...}; }
};
using o_default = opt<prefix::p4, false>;
using o_1 = opt<prefix::p1, false, zb::size1b>;
using o_2big = opt<prefix::p2, true, zb::size2b, zb::endian::big>;
using o_4big = opt<prefix::p4, true, zb::endian::swapped, zb::size4b>;
using o_8 = opt<prefix::p8, false, zb::size8b>;
using o_8big = opt<prefix::p8, true, zb::size8b, zb::endian::network>;
using o_native = opt<prefix::p8, false, zb::size_native, zb::endian::native>;
using o_varint = opt<prefix::varint, false, zb::size_varint>;
using o_varint_big = opt<prefix::varint, true, zb::size_varint, zb::endian::big>;
using o_none = opt<prefix::none, false, zb::no_size>;

const std::size_t counts[] = {0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 300, 511, 512, 16383, 16384, 16385, 65535, 65536, 65537, 131073};

template <typename E>
E element(std::size_t i)
{
    if constexpr (std::is_arithmetic_v<E> || std::is_same_v<E, std::byte>) {
        return E(i * 7 + i / 251 + 1);
    } else if constexpr (requires { typename E::first_type; }) {
        return {element<std::remove_const_t<typename E::first_type>>(i), element<typename E::second_type>(i + 3)};
    } else if constexpr (requires(E e) { e.push_back(typename E::value_type{}); }) {
        E e;
        for (std::size_t k = 0; k < i % 3; ++k) {
            e.push_back(element<typename E::value_type>(i + k));
        }
        return e;
    } else {
        return {};
    }
}
// The size a count takes in a prefix, and how many it tells.
std::size_t told(prefix p, std::size_t n)
{
    return p == prefix::varint || p == prefix::none || p == prefix::p8 ? n : n & ((std::uint64_t(1) << (8 * unsigned(p))) - 1);
}
template <typename C>
C container(std::size_t n)
{
    using E = typename C::value_type;
    C c;
    for (std::size_t i = 0; i < n; ++i) {
        if constexpr (requires { typename C::key_type; }) {
            if constexpr (requires { typename C::mapped_type; }) {
                using K = typename C::key_type;
                c.emplace(K(i + 1), element<typename C::mapped_type>(i));
            } else {
                c.insert(typename C::key_type(i + 1));
            }
        } else {
            c.push_back(element<E>(i));
        }
    }
    return c;
}
template <typename C>
concept keyed = requires { typename C::key_type; };

template <typename C>
void elements(Enc & e, const C & c, std::size_t n)
{
    for (auto & x : c) {
        if (!n--) {
            break;
        }
        if constexpr (requires { typename C::mapped_type; }) {
            M<typename C::key_type>::enc(e, x.first);
            M<typename C::mapped_type>::enc(e, x.second);
        } else {
            M<std::remove_cv_t<typename C::value_type>>::enc(e, x);
        }
    }
}
template <typename C>
bool begins(const C & shorter, const C & longer)
{
    auto i = shorter.begin();
    auto k = longer.begin();
    for (; i != shorter.end(); ++i, ++k) {
        if (k == longer.end() || !(*i == *k)) {
            return false;
        }
    }
    return true;
}
template <typename C>
constexpr bool unordered = requires { typename C::hasher; };
template <typename C>
bool same_prefix(const C & got, const C & all, std::size_t n)
{
    if (got.size() != n) {
        return false;
    }
    if constexpr (unordered<C>) {
        for (auto & x : got) {
            if constexpr (requires { typename C::mapped_type; }) {
                auto i = all.find(x.first);
                if (i == all.end() || !(i->second == x.second)) {
                    return false;
                }
            } else if (!all.contains(x)) {
                return false;
            }
        }
        return true;
    } else {
        return begins(got, all);
    }
}

template <typename Item, typename O>
void compare(const char * how, const bytes_t & expected, const Item & item)
{
    std::vector<std::byte> d;
    auto out = O::out(d);
    auto e = std::errc(out(item));
    mc::step();
    mc::case_done();
    mc::require(e == std::errc{} && d == expected, "bytes", [&] {
        return mc::format("%s: %s, wrote %s, expected %s", how, show(e).c_str(), show(d).c_str(), show(expected).c_str());
    });
}
// A container C behind the wrapper W (a type which holds it, or a function).
template <typename C, typename S, typename O>
void wrapped(const char * how, std::size_t n, bool nested)
{
    constexpr prefix p = [] {
        if constexpr (std::is_same_v<S, int>) { // no wrapper
            return O::p;
        } else {
            return model::prefix_of<S>();
        }
    }();
    constexpr bool bare = std::is_same_v<S, int>;
    using W = std::conditional_t<bare, C, zb::sized_t<C, std::conditional_t<bare, void, S>>>;
    if constexpr (p == prefix::none && keyed<C>) {
        return;
    } else {
        auto c = container<C>(n);
        W w = [&] {
            if constexpr (bare) {
                return c;
            } else {
                return W{c};
            }
        }();
        auto telling = told(p, c.size());
        Enc e{O::model(), {}};
        e.c.size = p;
        e.count(c.size());
        e.c.size = O::p;
        elements(e, static_cast<const C &>(w), telling);
        mc::state(mc::hash_bytes(e.out.data(), std::min<std::size_t>(e.out.size(), 64), n + 17));
        compare<W, O>(how, e.out, w);
        if constexpr (!bare && !unordered<C>) {
            // The function forms.
            std::vector<std::byte> d;
            auto out = O::out(d);
            const C & constant = c;
            auto r = [&] {
                if constexpr (std::is_void_v<S>) {
                    return std::errc(out(zb::unsized(c), zb::unsized(constant)));
                } else {
                    return std::errc(out(zb::sized<S>(c), zb::sized<S>(constant)));
                }
            }();
            mc::step();
            mc::case_done();
            mc::require(r == std::errc{} && d == e.out + e.out, "function", [&] {
                return mc::format("%s: the function form wrote %s", how, show(d).c_str());
            });
        }
        // Reading.
        exact data(e.out + unhex("0102030405060708090a0b0c0d0e0f101112131415161718"));
        auto view = data.view();
        for (std::size_t before : {std::size_t(0), std::size_t(2), n + 1}) {
            if (p == prefix::none && before) {
                continue;
            }
            W got = [&] {
                if constexpr (bare) {
                    return container<C>(p == prefix::none ? n : before);
                } else {
                    return W{container<C>(p == prefix::none ? n : before)};
                }
            }();
            auto in = O::in(view);
            auto r = std::errc(in(got));
            mc::step();
            mc::case_done();
            mc::require(r == std::errc{} && in.position() == e.out.size() && same_prefix<C>(got, w, telling), "read", [&] {
                return mc::format("%s: reading %zu elements (told %zu): %s, position %zu of %zu, %zu elements", how, n, telling,
                                  show(r).c_str(), in.position(), e.out.size(), got.size());
            });
            if constexpr (!bare) {
                C plain = container<C>(p == prefix::none ? n : before);
                auto in2 = O::in(view);
                if constexpr (std::is_void_v<S>) {
                    r = std::errc(in2(zb::unsized(plain)));
                } else {
                    r = std::errc(in2(zb::sized<S>(plain)));
                }
                mc::require(r == std::errc{} && in2.position() == e.out.size() && same_prefix<C>(plain, w, telling), "read-function", [&] {
                    return mc::format("%s: reading %zu elements through the function: %s, position %zu of %zu, %zu elements", how, n,
                                      show(r).c_str(), in2.position(), e.out.size(), plain.size());
                });
            }
        }
        // One element less than told.
        if (telling && sizeof(typename C::value_type)) {
            exact cut(e.out.data(), e.out.size() - 1);
            auto v = cut.view();
            W got = [&] {
                if constexpr (bare) {
                    return container<C>(p == prefix::none ? n : 0);
                } else {
                    return W{container<C>(p == prefix::none ? n : 0)};
                }
            }();
            auto in = O::in(v);
            auto r = std::errc(in(got));
            mc::step();
            mc::case_done();
            mc::require(r == std::errc::result_out_of_range, "short", [&] { return mc::format("%s: reading too few bytes: %s", how, show(r).c_str()); });
        }
        if (!nested || n > 300) {
            return;
        }
        // What is next to it, inside it and around it has the archive's prefix.
        std::vector<std::uint8_t> neighbour{9, 8, 7};
        using inside = std::vector<W>;
        auto all = std::make_tuple(neighbour, w, neighbour, std::optional<W>(w), inside{w, w}, std::map<std::uint8_t, W>{{5, w}},
                                   std::string("xy"), std::make_unique<W>(w), std::variant<std::monostate, W>(w));
        Enc whole{O::model(), {}};
        auto put_w = [&](const W & x) {
            whole.c.size = p;
            whole.count(x.size());
            whole.c.size = O::p;
            elements(whole, static_cast<const C &>(x), told(p, x.size()));
        };
        M<std::vector<std::uint8_t>>::enc(whole, neighbour);
        put_w(std::get<1>(all));
        M<std::vector<std::uint8_t>>::enc(whole, neighbour);
        whole.number(1, 1);
        put_w(*std::get<3>(all));
        whole.count(2);
        put_w(std::get<4>(all)[0]);
        put_w(std::get<4>(all)[1]);
        if (O::p != prefix::none) {
            whole.count(1);
        }
        whole.number(5, 1);
        put_w(std::get<5>(all).at(5));
        M<std::string>::enc(whole, "xy");
        put_w(*std::get<7>(all));
        whole.number(1, 1);
        put_w(std::get<1>(std::get<8>(all)));
        if constexpr (O::p != prefix::none) {
            compare<decltype(all), O>(how, whole.out, all);
            if constexpr (p != prefix::none) {
                exact b(whole.out);
                auto v = b.view();
                decltype(all) back;
                auto in = O::in(v);
                auto r = std::errc(in(back));
                mc::step();
                mc::case_done();
                auto ok = [&](const W & x) { return same_prefix<C>(x, w, telling); };
                mc::require(r == std::errc{} && in.position() == whole.out.size() && std::get<0>(back) == neighbour && ok(std::get<1>(back)) &&
                                std::get<2>(back) == neighbour && std::get<3>(back) && ok(*std::get<3>(back)) && std::get<4>(back).size() == 2 &&
                                ok(std::get<4>(back)[1]) && std::get<5>(back).size() == 1 && ok(std::get<5>(back)[5]) &&
                                std::get<6>(back) == "xy" && ok(*std::get<7>(back)) && std::get<8>(back).index() == 1 &&
                                ok(std::get<1>(std::get<8>(back))),
                            "nested", [&] { return mc::format("%s: nested reading: %s, position %zu of %zu", how, show(r).c_str(), in.position(), whole.out.size()); });
            }
        }
    }
}
template <typename C, typename O>
void all_wrappers(const char * name)
{
    mc::add(name, [name] {
        auto n = counts[mc::choose(std::size(counts), "count")];
        if (n > 600 && !std::is_arithmetic_v<typename C::value_type> && !mc::thorough() && n != 65536) {
            return;
        }
        bool small = n < 600;
        wrapped<C, int, O>(name, n, small);
        wrapped<C, unsigned char, O>(name, n, small);
        wrapped<C, std::uint16_t, O>(name, n, small);
        wrapped<C, std::uint32_t, O>(name, n, small);
        wrapped<C, std::uint64_t, O>(name, n, small);
        wrapped<C, zb::vsize_t, O>(name, n, small);
        wrapped<C, zb::vuint32_t, O>(name, n, false);
        wrapped<C, void, O>(name, n, small);
    });
}
// The aliases.
template <typename A, typename O>
void alias_one(const char * name, prefix p, std::size_t n)
{
    using E = std::remove_cv_t<typename A::value_type>;
    std::vector<E> storage(n ? n : 1);
    for (std::size_t i = 0; i < n; ++i) {
        storage[i] = element<E>(i);
    }
    A a = [&] {
        if constexpr (requires(A x) { x.push_back(E{}); }) {
            A x;
            x.assign(storage.begin(), storage.begin() + n);
            return x;
        } else {
            return A(storage.data(), n);
        }
    }();
    auto telling = told(p, n);
    Enc e{O::model(), {}};
    e.c.size = p;
    e.count(n);
    e.c.size = O::p;
    for (std::size_t i = 0; i < telling; ++i) {
        M<E>::enc(e, storage[i]);
    }
    compare<A, O>(name, e.out, a);
    mc::state(mc::hash_bytes(e.out.data(), std::min<std::size_t>(e.out.size(), 64), n));
    if constexpr (requires(A x) { x.push_back(E{}); }) {
        A back;
        if (p == prefix::none) {
            back.resize(n);
        }
        exact b(e.out);
        auto v = b.view();
        auto in = O::in(v);
        auto r = std::errc(in(back));
        mc::step();
        mc::case_done();
        mc::require(r == std::errc{} && in.position() == e.out.size() && back.size() == telling && std::equal(back.begin(), back.end(), storage.begin()),
                    "alias-read", [&] { return mc::format("%s: reading: %s, %zu elements of %zu", name, show(r).c_str(), back.size(), n); });
    }
}
template <typename A>
void alias(const char * name, prefix p)
{
    mc::add(name, [=] {
        auto n = counts[mc::choose(std::size(counts), "count")];
        alias_one<A, o_default>(name, p, n);
        alias_one<A, o_2big>(name, p, n);
        alias_one<A, o_varint>(name, p, n);
    });
}
#define FAMILY(NAME)                                     \
    alias<zb::NAME##1b>(#NAME "1b", prefix::p1);         \
    alias<zb::NAME##2b>(#NAME "2b", prefix::p2);         \
    alias<zb::NAME##4b>(#NAME "4b", prefix::p4);         \
    alias<zb::NAME##8b>(#NAME "8b", prefix::p8);         \
    alias<zb::native_##NAME>("native_" #NAME, prefix::p8); \
    alias<zb::static_##NAME>("static_" #NAME, prefix::none);
#define FAMILY_OF(NAME, E)                                              \
    alias<zb::NAME##1b<E>>(#NAME "1b<" #E ">", prefix::p1);             \
    alias<zb::NAME##2b<E>>(#NAME "2b<" #E ">", prefix::p2);             \
    alias<zb::NAME##4b<E>>(#NAME "4b<" #E ">", prefix::p4);             \
    alias<zb::NAME##8b<E>>(#NAME "8b<" #E ">", prefix::p8);             \
    alias<zb::native_##NAME<E>>("native_" #NAME "<" #E ">", prefix::p8); \
    alias<zb::static_##NAME<E>>("static_" #NAME "<" #E ">", prefix::none);

#define EACH_OPTION(T, NAME)                             \
    all_wrappers<T, o_default>(NAME ", default");        \
    all_wrappers<T, o_1>(NAME ", 1");                    \
    all_wrappers<T, o_2big>(NAME ", 2 big");             \
    all_wrappers<T, o_varint>(NAME ", varint");
#define MORE_OPTIONS(T, NAME)                            \
    all_wrappers<T, o_4big>(NAME ", 4 swapped");         \
    all_wrappers<T, o_8>(NAME ", 8");                    \
    all_wrappers<T, o_8big>(NAME ", 8 network");         \
    all_wrappers<T, o_native>(NAME ", native");          \
    all_wrappers<T, o_varint_big>(NAME ", varint big");  \
    all_wrappers<T, o_none>(NAME ", none");

using bytes_c = std::vector<std::uint8_t>;
using words_c = std::vector<std::uint16_t>;
using strings_c = std::vector<std::string>;
using deque_c = std::deque<std::uint8_t>;
using list_c = std::list<std::uint16_t>;
using map_c = std::map<std::uint32_t, std::uint8_t>;
using map_s = std::map<std::uint32_t, std::string>;
using set_c = std::set<std::uint32_t>;
using umap_c = std::unordered_map<std::uint32_t, std::uint16_t>;
using uset_c = std::unordered_set<std::uint32_t>;
bool added = [] {
#if PART == 0
    EACH_OPTION(bytes_c, "vector of bytes");
#elif PART == 1
    MORE_OPTIONS(bytes_c, "vector of bytes");
#elif PART == 2
    EACH_OPTION(words_c, "vector of words");
#elif PART == 3
    EACH_OPTION(std::string, "string");
#elif PART == 4
    EACH_OPTION(strings_c, "vector of strings");
#elif PART == 5
    EACH_OPTION(list_c, "list");
#elif PART == 6
    EACH_OPTION(deque_c, "deque");
#elif PART == 7
    EACH_OPTION(map_c, "map");
#elif PART == 8
    EACH_OPTION(set_c, "set");
#elif PART == 9
    all_wrappers<map_s, o_varint>("map of strings, varint");
    all_wrappers<map_s, o_2big>("map of strings, 2 big");
    all_wrappers<umap_c, o_default>("unordered_map, default");
    all_wrappers<umap_c, o_varint>("unordered_map, varint");
    all_wrappers<uset_c, o_2big>("unordered_set, 2 big");
#elif PART == 10
    FAMILY(string);
    FAMILY(string_view);
    FAMILY(wstring);
    FAMILY(wstring_view);
    FAMILY(u8string);
    FAMILY(u8string_view);
#elif PART == 11
    FAMILY(u16string);
    FAMILY(u16string_view);
    FAMILY(u32string);
    FAMILY(u32string_view);
    FAMILY_OF(vector, std::uint32_t);
    FAMILY_OF(span, const std::uint32_t);
    FAMILY_OF(span, unsigned char);
    FAMILY_OF(vector, std::byte);
#endif
    return true;
}();
} // namespace
