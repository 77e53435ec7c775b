// C15: applying a callable to an input archive.
#include "kit.hpp"
#include <functional>
#include <span>

using namespace kit;

namespace
{
struct item
{
    std::uint8_t a{};
    std::uint32_t b{};
    std::string c;
    bool operator==(const item &) const = default;
};
enum class color : std::uint16_t { red, green, blue = 0x8001 };
} // namespace
template <>
struct model::Fields<item>
{
    static auto get(item & t) { return std::tie(t.a, t.b, t.c); }
};
template <typename E>
struct model::M<std::span<E>>
{
    static void enc(Enc & e, const std::span<E> & v)
    {
        e.count(v.size());
        e.raw(v.data(), v.size());
    }
};

namespace
{
// ---------------------------------------------------------------- what was called
struct record
{
    bytes_t arguments;
    const void * self;
    bool operator==(const record &) const = default;
};
std::vector<record> calls;
std::vector<const void *> views;
bool throws;
struct thrown
{
    int code;
};
std::uint64_t digest(const bytes_t & b, const void *)
{
    return mc::hash_bytes(b.data(), b.size(), 0x1234);
}
template <typename R>
R result(std::uint64_t h)
{
    if constexpr (std::is_void_v<R>) {
        (void)h;
    } else if constexpr (std::is_same_v<R, std::string>) {
        return "result " + std::to_string(h);
    } else if constexpr (std::is_same_v<R, std::unique_ptr<std::uint64_t>>) {
        return std::make_unique<std::uint64_t>(h);
    } else if constexpr (std::is_same_v<R, item>) {
        return item{std::uint8_t(h), std::uint32_t(h), std::to_string(h)};
    } else {
        return R(h);
    }
}
template <typename R>
bool same_result(const R & a, const R & b)
{
    if constexpr (requires { *a; }) {
        return a && b && *a == *b;
    } else {
        return a == b;
    }
}
template <typename A>
void note_view(const A & a)
{
    if constexpr (std::is_same_v<A, std::span<const std::byte>>) {
        views.push_back(a.data());
    }
}
template <typename R, typename... A>
R called(const void * self, const A &... a)
{
    calls.push_back({enc(config{}, a...), self});
    (note_view(a), ...);
    if (throws) {
        throw thrown{int(calls.size())};
    }
    return result<R>(digest(calls.back().arguments, self));
}

// ---------------------------------------------------------------- callables
template <typename R, typename... A>
struct kinds
{
    using V = std::uint64_t;
    static R function(A... a) { return called<R, std::remove_cvref_t<A>...>(nullptr, a...); }
    static R quiet(A... a) noexcept(true) { return called<R, std::remove_cvref_t<A>...>(nullptr, a...); }
    struct object
    {
        R operator()(A... a) { return called<R, std::remove_cvref_t<A>...>(this, a...); }
    };
    struct constant
    {
        R operator()(A... a) const { return called<R, std::remove_cvref_t<A>...>(this, a...); }
    };
    struct object_quiet
    {
        R operator()(A... a) noexcept { return called<R, std::remove_cvref_t<A>...>(this, a...); }
    };
    struct constant_quiet
    {
        R operator()(A... a) const noexcept { return called<R, std::remove_cvref_t<A>...>(this, a...); }
    };
    struct move_only
    {
        move_only() = default;
        move_only(move_only &&) = delete;
        R operator()(A... a) { return called<R, std::remove_cvref_t<A>...>(this, a...); }
    };
    struct host
    {
        R member(A... a) { return called<R, std::remove_cvref_t<A>...>(this, a...); }
        R member_c(A... a) const { return called<R, std::remove_cvref_t<A>...>(this, a...); }
        R member_q(A... a) noexcept { return called<R, std::remove_cvref_t<A>...>(this, a...); }
        R member_cq(A... a) const noexcept { return called<R, std::remove_cvref_t<A>...>(this, a...); }
        virtual R virt(A...) { return result<R>(0); }
        static R fixed(A... a) { return called<R, std::remove_cvref_t<A>...>(nullptr, a...); }
        virtual ~host() = default;
    };
    struct derived : host
    {
        R virt(A... a) override { return called<R, std::remove_cvref_t<A>...>(this, a...); }
    };

    // Calls `use(self, f)` where f(in) applies the callable of this kind.
    static constexpr std::size_t count = 18;
    static bool can_throw(std::size_t k) { return k != 2 && k != 5 && k != 6 && k != 12 && k != 13; }
    static void each(std::size_t k, auto && use)
    {
        host h;
        const host c;
        derived d;
        object o;
        const constant oc;
        object_quiet oq;
        const constant_quiet ocq;
        move_only mo;
        switch (k) {
        case 0: return use(nullptr, [&](auto & in) { return zb::apply(&function, in); });
        case 1: return use(nullptr, [&](auto & in) { return zb::apply(function, in); });
        case 2: return use(nullptr, [&](auto & in) { return zb::apply(&quiet, in); });
        case 3: return use(&o, [&](auto & in) { return zb::apply(o, in); });
        case 4: return use(&oc, [&](auto & in) { return zb::apply(oc, in); });
        case 5: return use(&oq, [&](auto & in) { return zb::apply(oq, in); });
        case 6: return use(&ocq, [&](auto & in) { return zb::apply(ocq, in); });
        case 7: return use(&mo, [&](auto & in) { return zb::apply(mo, in); });
        case 8: return use(&mo, [&](auto & in) { return zb::apply(std::move(mo), in); });
        case 9: return use(&o, [&](auto & in) {
            return zb::apply([&o](A... a) -> R { return called<R, std::remove_cvref_t<A>...>(&o, a...); }, in);
        });
        case 10: return use(&h, [&](auto & in) { return zb::apply(h, &host::member, in); });
        case 11: return use(&c, [&](auto & in) { return zb::apply(c, &host::member_c, in); });
        case 12: return use(&h, [&](auto & in) { return zb::apply(h, &host::member_q, in); });
        case 13: return use(&c, [&](auto & in) { return zb::apply(c, &host::member_cq, in); });
        case 14: return use(&d, [&](auto & in) { return zb::apply(static_cast<host &>(d), &host::virt, in); });
        case 15: return use(&h, [&](auto & in) { return zb::apply(std::move(h), &host::member, in); });
        case 16: return use(nullptr, [&](auto & in) { return zb::apply(&host::fixed, in); });
        case 17: {
            auto times = 0;
            auto f = [times, p = std::make_unique<int>(7)](A... a) mutable -> R {
                mc::require(*p == 7 && times++ == 0, "capture", "the captures are wrong");
                return called<R, std::remove_cvref_t<A>...>(nullptr, a...);
            };
            return use(nullptr, [&](auto & in) { return zb::apply(f, in); });
        }
        }
    }
};

// ---------------------------------------------------------------- the check
template <prefix P, bool Big, typename... O>
struct opt
{
    static config model() { return {Big, P, 512}; }
    static auto in(auto & d) { return zb::in{d, O{}..., zb::alloc_limit<512>{}}; }
};
using o_default = opt<prefix::p4, false>;
using o_big = opt<prefix::p2, true, zb::size2b, zb::endian::big>;
using o_varint = opt<prefix::varint, false, zb::size_varint>;

template <typename T>
T gen(model::G & g)
{
    if constexpr (requires { M<T>::gen(g); }) {
        return M<T>::gen(g);
    } else {
        return T{};
    }
}

// What should happen.
struct expectation
{
    std::errc error{};
    bytes_t arguments;
    std::vector<const void *> at;
    std::size_t pos{};
    bool odd{};
};
template <typename O, typename... A>
expectation expect(const exact & data, std::size_t start)
{
    expectation r;
    model::Dec d{O::model(), data.data.get(), data.size, start};
    std::tuple<std::remove_cvref_t<A>...> values;
    auto take = [&]<typename X>(X & x) {
        if constexpr (std::is_same_v<X, std::span<const std::byte>>) {
            std::uint64_t n = 0;
            r.error = d.count(n);
            if (r.error == std::errc{} && n > d.left()) {
                r.error = std::errc::result_out_of_range;
            }
            if (r.error == std::errc{}) {
                x = {d.data + d.pos, std::size_t(n)};
                r.at.push_back(x.data());
                d.pos += n;
            }
        } else {
            r.error = M<X>::dec(d, x);
        }
        return r.error == std::errc{};
    };
    std::apply([&](auto &... x) { (void)(... && take(x)); }, values);
    r.pos = d.pos;
    r.odd = d.odd_bool || d.duplicate;
    if (r.error == std::errc{}) {
        r.arguments = std::apply([](auto &... x) { return enc(config{}, x...); }, values);
    }
    return r;
}

struct happened
{
    std::errc e{};
    bool caught{};
    bool consistent = true;
    bool value_ok = true;
};
template <typename R, bool Bare>
void look(happened & r, std::uint64_t h, auto && f)
{
    try {
        if constexpr (Bare && std::is_void_v<R>) {
            f();
        } else if constexpr (Bare) {
            auto x = f();
            static_assert(std::is_same_v<decltype(x), R>);
            r.value_ok = same_result(x, result<R>(h));
        } else if constexpr (std::is_void_v<R>) {
            r.e = f();
        } else {
            auto x = f();
            static_assert(std::is_same_v<decltype(x), zb::value_or_errc<R>>);
            r.e = x.failure() ? std::errc(x.error()) : std::errc{};
            r.consistent = x.success() != x.failure() && (!x.failure() || r.e != std::errc{});
            if (x.success() && !calls.empty()) {
                r.value_ok = same_result(x.value(), result<R>(h));
            }
        }
    } catch (const thrown &) {
        r.caught = true;
    }
}
void judge(const expectation & x, const happened & r, const void * self, bool is_throwing, std::size_t position, std::size_t size, auto && text)
{
    mc::step();
    mc::case_done();
    mc::require(r.e == x.error, "verdict", [&] { return text() + ": " + show(r.e) + " instead of " + show(x.error); });
    mc::require(r.caught == is_throwing, "exception", [&] { return text() + ": the exception did not arrive"; });
    mc::require(r.consistent, "result", [&] { return text() + ": the result is not one of value and error"; });
    mc::require(calls.size() == (x.error == std::errc{}), "called", [&] { return text() + mc::format(": called %zu times", calls.size()); });
    if (x.error == std::errc{}) {
        if (!x.odd) {
            mc::require(calls[0].arguments == x.arguments, "arguments", [&] { return text() + ": called with " + show(calls[0].arguments); });
            mc::require(r.value_ok, "returned", [&] { return text() + ": the returned value is wrong"; });
        }
        mc::require(calls[0].self == self, "object", [&] { return text() + ": called on another object"; });
        mc::require(views == x.at, "view", [&] { return text() + ": a view does not denote the input"; });
        mc::require(position == x.pos, "consumed", [&] { return text() + mc::format(": position %zu instead of %zu", position, x.pos); });
    }
    mc::require(position <= size, "position", text);
    mc::outcome(mc::mix(mc::mix(std::uint64_t(r.e), x.pos), position));
}
template <typename O, typename R, typename... A>
void one(const char * name, std::size_t kind, const bytes_t & before, const bytes_t & body, bool may_throw)
{
    using K = kinds<R, A...>;
    exact data(before + body);
    auto v = data.view();
    auto in = O::in(v);
    in.position() = before.size();
    auto x = expect<O, A...>(data, before.size());
    auto text = [&] { return mc::format("%s, kind %zu, %s at %zu", name, kind, show(before + body).c_str(), before.size()); };
    mc::note(text);
    throws = may_throw && K::can_throw(kind) && x.error == std::errc{};
    auto is_throwing = throws;
    if (x.odd && std::is_same_v<std::tuple_element_t<0, std::tuple<std::remove_cvref_t<A>..., void>>, bool>) {
        return; // a boolean which is neither: see the known finding of C03
    }
    calls.clear();
    views.clear();
    happened r;
    const void * self = nullptr;
    K::each(kind, [&](const void * s, auto && f) {
        self = s;
        look<R, !sizeof...(A)>(r, digest(x.arguments, s), [&] { return f(in); });
    });
    judge(x, r, self, is_throwing, in.position(), data.size, text);
}

template <typename O, typename R, typename... A>
void check(const char * name)
{
    mc::bound(mc::thorough() ? 2 : 1);
    auto kind = mc::choose(kinds<R, A...>::count, "kind");
    model::G g;
    auto body = [&] {
        Enc e{O::model(), {}};
        auto put = [&]<typename X>(std::type_identity<X>) {
            if constexpr (std::is_same_v<X, std::span<const std::byte>>) {
                auto n = g.deviate(4, "bytes");
                e.count(n);
                e.out.insert(e.out.end(), n, std::byte(0x31));
            } else {
                M<X>::enc(e, gen<X>(g));
            }
        };
        (put(std::type_identity<std::remove_cvref_t<A>>{}), ...);
        return std::move(e.out);
    }();
    mc::state(mc::hash_bytes(body.data(), body.size(), kind));
    bytes_t before(g.deviate(3, "before"), std::byte(0x11));
    one<O, R, A...>(name, kind, before, body, false);
    one<O, R, A...>(name, kind, before, body + unhex("0102ff"), false);
    one<O, R, A...>(name, kind, before, body, true);
    for (std::size_t cut = 0; cut < body.size(); ++cut) {
        one<O, R, A...>(name, kind, before, {body.begin(), body.begin() + cut}, false);
        for (int x : {0x00, 0xff, -1}) {
            auto other = body;
            other[cut] = x < 0 ? other[cut] ^ std::byte(1) : std::byte(x);
            if (other != body) {
                one<O, R, A...>(name, kind, before, other, false);
            }
        }
    }
}

template <typename R, typename... A>
void add_one(const std::string & name)
{
    auto add = [&]<typename O>(O, const char * option) {
        auto text = new std::string(name + ", " + option);
        mc::add(*text, [=] { check<O, R, A...>(text->c_str()); });
    };
    add(o_default{}, "4 bytes");
    if constexpr (std::is_same_v<R, std::uint64_t>) {
        add(o_big{}, "2 big");
        add(o_varint{}, "varint");
    }
}
template <typename... A>
void add(const std::string & name)
{
    add_one<void, A...>("void(" + name + ")");
    add_one<std::uint64_t, A...>("u64(" + name + ")");
    add_one<std::string, A...>("string(" + name + ")");
    add_one<std::unique_ptr<std::uint64_t>, A...>("unique_ptr(" + name + ")");
    add_one<item, A...>("item(" + name + ")");
}

bool added = [] {
#if PART == 0
    add<>("");
    add<std::uint8_t>("u8");
    add<std::uint32_t, std::string>("u32, string");
#elif PART == 1
    add<const std::string &, double>("const string &, double");
    add<std::vector<std::uint16_t>, std::vector<std::uint16_t>>("vector, vector");
#elif PART == 2
    add<std::unique_ptr<std::string>, std::uint8_t>("unique_ptr, u8");
    add<item, std::optional<std::uint16_t>, std::variant<std::uint32_t, std::string>>("item, optional, variant");
#elif PART == 3
    add<std::string &&, zb::vuint32_t>("string &&, varint");
    add<std::map<std::uint8_t, std::string>>("map");
#elif PART == 4
    add<std::tuple<std::uint8_t, std::uint16_t>>("tuple");
    add<std::uint8_t, std::uint8_t, std::uint8_t, std::uint8_t, std::uint8_t, std::uint8_t, std::uint8_t, std::uint8_t>("8 u8");
#elif PART == 5
    add<std::span<const std::byte>, std::uint8_t>("view, u8");
    add<bool, color, const std::int32_t>("bool, enum, const i32");
#elif PART == 6
    add<std::shared_ptr<item>, std::array<std::uint16_t, 2>, std::bitset<11>>("shared_ptr, array, bitset");
    add<zb::optional_ptr<item>, const item &>("optional_ptr, const item &");
#endif
    return true;
}();
} // namespace
