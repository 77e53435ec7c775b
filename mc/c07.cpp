// C07: allocation limits and size arithmetic.
#if PART == 0
#define ALLOC_IMPLEMENTATION
#endif
#include "alloc.hpp"
#include "kit.hpp"

using namespace kit;

namespace
{
struct agg { std::uint8_t a; std::uint32_t b; std::uint16_t c; };
struct hold { std::uint8_t a; std::vector<std::uint32_t> b; std::uint8_t c; };
} // namespace
namespace model
{
template <>
struct Fields<agg>
{
    static auto get(agg & s) { return std::tie(s.a, s.b, s.c); }
};
template <>
struct Fields<hold>
{
    static auto get(hold & s) { return std::tie(s.a, s.b, s.c); }
};
} // namespace model

namespace
{
constexpr std::size_t no_limit = ~std::size_t{};

// Where the length under test is inside a type: the bytes before it, the size
// and the encoding of an element, the prefix it has.
template <typename T>
struct hole
{
    // A container as such.
    using element = typename T::value_type;
    static bytes_t before(const config &) { return {}; }
    static prefix kind(const config & c) { return c.size; }
    static bytes_t after(const config &) { return {}; }
    static bytes_t item(const config & c) { return enc(c, model::fresh_of<element>()); }
};
template <typename T, typename S>
struct hole<zb::sized_item<T, S>> : hole<T>
{
    static prefix kind(const config &) { return model::prefix_of<S>(); }
};
bytes_t count_bytes(const config & c, prefix p, std::uint64_t n)
{
    Enc e{c, {}};
    e.c.size = p;
    if (p == prefix::varint) {
        e.varint(n);
    } else {
        e.number(n, std::size_t(p));
    }
    return e.out;
}
template <typename E>
    requires requires(E e) { e.resize(1); }
struct hole<std::vector<E>>
{
    using element = typename E::value_type;
    // The second of three inner containers; the first has one element.
    static bytes_t before(const config & c)
    {
        return count_bytes(c, c.size, 3) + count_bytes(c, c.size, 1) + hole<E>::item(c);
    }
    static prefix kind(const config & c) { return c.size; }
    static bytes_t after(const config & c) { return count_bytes(c, c.size, 0); }
    static bytes_t item(const config & c) { return hole<E>::item(c); }
};
template <typename E>
struct hole<std::optional<E>> : hole<E>
{
    static bytes_t before(const config & c) { return unhex("01") + hole<E>::before(c); }
};
template <typename E>
struct hole<std::unique_ptr<E>> : hole<E>
{
};
template <typename A, typename E>
struct hole<std::variant<A, E>> : hole<E>
{
    static bytes_t before(const config & c) { return unhex("01") + hole<E>::before(c); }
};
template <typename E>
struct hole<std::map<std::uint8_t, E>> : hole<E>
{
    static bytes_t before(const config & c) { return count_bytes(c, c.size, 1) + unhex("05") + hole<E>::before(c); }
};
template <typename E>
struct hole<std::set<E>> : hole<E>
{
    static bytes_t before(const config & c) { return count_bytes(c, c.size, 1) + hole<E>::before(c); }
};
template <>
struct hole<hold> : hole<std::vector<std::uint32_t>>
{
    static bytes_t before(const config &) { return unhex("09"); }
    static bytes_t after(const config &) { return unhex("0a"); }
};

std::vector<std::uint64_t> lengths(prefix p, std::size_t width, std::size_t limit)
{
    std::vector<std::uint64_t> r{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17};
    auto around = [&](std::uint64_t x) {
        for (int d = -2; d <= 2; ++d) {
            r.push_back(x + std::uint64_t(d));
        }
    };
    if (limit != no_limit) {
        around(limit);
        around(limit / width);
        around(limit * width);
        around((limit + width - 1) / width);
    }
    for (int k : {8, 16, 32, 63}) {
        around(std::uint64_t{1} << k);
        around((std::uint64_t{1} << k) / width);
    }
    around(0);                              // 2^64
    around(~std::uint64_t{} / width);       // the product wraps just after
    around((std::uint64_t{1} << 63) / width * 2);
    // Lengths whose product with the element size wraps to something small.
    for (std::uint64_t small : {0, 1, 2, 8}) {
        r.push_back(~std::uint64_t{} / width + 1 + small);
    }
    auto bits = p == prefix::varint ? 64 : 8 * std::size_t(p);
    if (bits < 64) {
        for (auto & x : r) {
            x &= (std::uint64_t{1} << bits) - 1;
        }
    }
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}

// ---------------------------------------------------------------- reading
template <typename T, std::size_t L, typename... O>
void declared(config c)
{
    using H = hole<T>;
    using E = typename H::element;
    c.alloc_limit = L;
    auto p = H::kind(c);
    auto list = lengths(p, sizeof(E), L);
    auto n = list[mc::choose(list.size(), "declared length")];
    auto follow = mc::choose(4, "elements which follow"); // all, none, one less, half an element
    bytes_t data = H::before(c) + count_bytes(c, p, n);
    auto item = H::item(c);
    auto available = follow == 1 ? 0 : std::min<std::uint64_t>(n, 1100);
    if (follow == 2 && available) {
        --available;
    }
    for (std::uint64_t i = 0; i < available; ++i) {
        auto x = item;
        if constexpr (requires { typename T::key_type; } && false) {
        }
        data = data + x;
    }
    if (follow == 3 && !data.empty() && n) {
        data.pop_back();
    }
    if (follow == 0) {
        data = data + H::after(c);
    }
    exact e(data);
    model::Dec d{c, data.data(), data.size(), 0};
    std::errc want, got;
    bool same = true;
    {
        T model_value = model::fresh_of<T>();
        want = M<T>::dec(d, model_value);
        T value = model::fresh_of<T>();
        std::size_t end, largest;
        {
            alloc::scope a(0, 1 << 28);
            zb::in in{e.view(), O{}..., zb::alloc_limit<L>{}};
            got = in(value);
            end = in.position();
            largest = alloc::now.max;
        }
        mc::step();
        mc::case_done();
        mc::note([&] {
            return mc::format("declared %llu, largest allocation %zu, %s", (unsigned long long)n, largest, show(got).c_str());
        });
        auto slack = 64 + 4096 * (std::is_same_v<T, std::deque<E>>);
        mc::require(largest <= std::max<std::size_t>(L, 3 * sizeof(E) + 3 * 24) + std::size_t(slack), "allocated", [&] {
            return mc::format("a declared length of %llu made an allocation of %zu bytes, the limit is %zu",
                              (unsigned long long)n, largest, L);
        });
        same = got != std::errc{} || (end == d.pos && M<T>::eq(value, model_value));
    }
    mc::state(mc::hash_bytes(data.data(), data.size(), L));
    mc::outcome(mc::mix(std::uint64_t(got), d.pos));
    mc::require(got == want, "verdict", [&] {
        return mc::format("declared length %llu of elements of %zu bytes, limit %zu, input %s: %s instead of %s",
                          (unsigned long long)n, sizeof(E), L, show(data).c_str(), show(got).c_str(), show(want).c_str());
    });
    mc::require(same, "value", "another value than without the limit");
}

// A container which records what it is asked to become.
struct asked
{
    std::uint64_t n;
};
template <typename E>
struct recorder
{
    using value_type = E;
    using iterator = E *;
    using const_iterator = const E *;
    std::vector<E> v;
    auto begin() { return v.data(); }
    auto end() { return v.data() + v.size(); }
    auto begin() const { return v.data(); }
    auto end() const { return v.data() + v.size(); }
    auto data() { return v.data(); }
    auto data() const { return v.data(); }
    auto size() const { return v.size(); }
    E & operator[](std::size_t i) { return v[i]; }
    const E & operator[](std::size_t i) const { return v[i]; }
    void resize(std::size_t n)
    {
        if (n > 100000) {
            throw asked{n};
        }
        v.resize(n);
    }
};

template <typename E, std::size_t L, typename... O>
void requested(config c)
{
    auto p = c.size;
    auto list = lengths(p, sizeof(E), L);
    auto n = list[mc::choose(list.size(), "declared length")];
    auto available = mc::choose(3, "elements which follow");
    bytes_t data = count_bytes(c, p, n);
    for (std::size_t i = 0; i < available; ++i) {
        data = data + enc(c, E{});
    }
    exact e(data);
    recorder<E> r;
    std::uint64_t wish = 0;
    std::errc got{};
    try {
        if constexpr (L == no_limit) {
            zb::in in{e.view(), O{}...};
            got = in(r);
        } else {
            zb::in in{e.view(), O{}..., zb::alloc_limit<L>{}};
            got = in(r);
        }
    } catch (const asked & a) {
        wish = a.n;
    }
    mc::step();
    mc::case_done();
    mc::state(mc::hash_bytes(data.data(), data.size(), L));
    auto says = [&] {
        return mc::format("declared length %llu, element size %zu, limit %zu, %zu elements follow: resized to %llu, %s",
                          (unsigned long long)n, sizeof(E), L, available, (unsigned long long)(wish ? wish : r.size()),
                          show(got).c_str());
    };
    mc::note(says);
    mc::outcome(mc::mix(std::uint64_t(got), wish));
    if (L != no_limit && n > L / sizeof(E)) {
        mc::require(!wish && got == std::errc::message_size && r.size() == 0, "limit", says);
    } else if (n > 100000) {
        mc::require(wish == n, "truncated", says);
    } else {
        mc::require(!wish && got == (n <= available ? std::errc{} : std::errc::result_out_of_range), "verdict", says);
        mc::require(got != std::errc{} || r.size() == n, "length", says);
    }
}

// Lengths for views and for associative containers, which take no limit.
template <typename V, typename... O>
void views(config c)
{
    auto p = c.size;
    auto list = lengths(p, 1, no_limit);
    auto n = list[mc::choose(list.size(), "declared length")];
    auto follow = mc::choose(20, "bytes which follow");
    bytes_t data = unhex("aabb") + count_bytes(c, p, n);
    auto start = data.size();
    for (std::size_t i = 0; i < follow; ++i) {
        data.push_back(std::byte(i));
    }
    exact e(data);
    using byte = std::remove_const_t<typename V::value_type>;
    zb::in in{std::span<const byte>{reinterpret_cast<const byte *>(e.data.get()), e.size}, O{}..., zb::alloc_limit<1>{}};
    in.position() = 2;
    V v;
    std::errc r = in(v);
    mc::step();
    mc::case_done();
    mc::state(mc::hash_bytes(data.data(), data.size()));
    mc::outcome(mc::mix(std::uint64_t(r), v.size()));
    auto says = [&] {
        return mc::format("view of declared length %llu with %zu bytes left: %s, length %zu", (unsigned long long)n, follow,
                          show(r).c_str(), v.size());
    };
    if (n <= follow) {
        mc::require(r == std::errc{} && v.size() == n && (const void *)v.data() == e.data.get() + start &&
                        in.position() == start + n, "view", says);
    } else {
        mc::require(r == std::errc::result_out_of_range && v.empty() && in.position() <= data.size(), "view", says);
    }
}

template <typename T, typename... O>
void counted(config c)
{
    using K = typename T::key_type;
    auto p = c.size;
    auto list = lengths(p, sizeof(K), no_limit);
    auto n = list[mc::choose(list.size(), "declared length")];
    auto follow = mc::choose(6, "elements which follow");
    bytes_t data = count_bytes(c, p, n);
    for (std::size_t i = 0; i < follow; ++i) {
        K k = K(i + 1);
        data = data + enc(c, k);
        if constexpr (requires { typename T::mapped_type; }) {
            data = data + enc(c, typename T::mapped_type{});
        }
    }
    exact e(data);
    std::size_t total;
    std::errc r;
    std::size_t size;
    {
        T v;
        {
            alloc::scope a(0, 1 << 28);
            zb::in in{e.view(), O{}...};
            r = in(v);
            total = alloc::now.total;
        }
        size = v.size();
    }
    mc::step();
    mc::case_done();
    mc::state(mc::hash_bytes(data.data(), data.size()));
    mc::outcome(mc::mix(std::uint64_t(r), size));
    auto says = [&] {
        return mc::format("declared length %llu with %zu elements: %s, %zu elements, %zu bytes allocated", (unsigned long long)n,
                          follow, show(r).c_str(), size, total);
    };
    mc::require(r == (n <= follow ? std::errc{} : std::errc::result_out_of_range), "verdict", says);
    mc::require(size <= follow && (r != std::errc{} || size == n), "elements", says);
    mc::require(total <= 4096 + 256 * (follow + 1), "allocated", says);
}

// A destination of fixed capacity: a span of mutable elements.
template <typename E, typename... O>
void destinations(config c)
{
    auto p = c.size;
    auto list = lengths(p, sizeof(E), no_limit);
    auto n = list[mc::choose(list.size(), "declared length")];
    auto capacity = mc::choose(5, "capacity");
    auto follow = mc::choose(5, "elements which follow");
    bytes_t data = count_bytes(c, p, n);
    std::vector<E> elements;
    for (std::size_t i = 0; i < follow; ++i) {
        elements.push_back(E(0x0102030405060708ull * (i + 1)));
        data = data + enc(c, elements.back());
    }
    exact e(data);
    std::unique_ptr<E[]> heap(new E[capacity]{});
    std::span<E> s{heap.get(), capacity};
    zb::in in{e.view(), O{}...};
    std::errc r = in(s);
    mc::step();
    mc::case_done();
    mc::state(mc::hash_bytes(data.data(), data.size(), capacity));
    mc::outcome(mc::mix(std::uint64_t(r), s.size()));
    auto says = [&] {
        return mc::format("span of %zu elements, declared length %llu, %zu follow: %s", capacity, (unsigned long long)n, follow,
                          show(r).c_str());
    };
    mc::require(r == (n <= capacity && n <= follow ? std::errc{} : std::errc::result_out_of_range), "verdict", says);
    mc::require(s.data() == heap.get() && s.size() <= capacity, "span", says);
    if (r == std::errc{}) {
        mc::require(s.size() == n && std::equal(s.begin(), s.end(), elements.begin()), "value", says);
    }
}

// ---------------------------------------------------------------- writing
struct growth : std::vector<std::byte>
{
    using std::vector<std::byte>::vector;
    std::size_t largest{};
    void resize(std::size_t n)
    {
        largest = std::max(largest, n);
        std::vector<std::byte>::resize(n);
    }
};

struct message
{
    zb::vint32_t a;
    std::string b;
    using serialize = zb::protocol<zb::pb{}, 2>;
};

template <typename O>
std::errc write(O & out, std::size_t what, bytes_t & bytes, std::size_t & step)
{
    // `step`: the largest single growth this write may ask for beyond what it writes.
    config c;
    step = 0;
    switch (what) {
    case 0: { std::uint8_t v = 0xa1; bytes = enc(c, v); return out(v); }
    case 1: { std::uint32_t v = 0xa1a2a3a4; bytes = enc(c, v); return out(v); }
    case 2: { std::string v = "hello"; bytes = enc(c, v); return out(v); }
    case 3: { zb::vuint32_t v{300}; bytes = enc(c, v); step = 8; return out(v); }
    case 4: { std::bitset<17> v{0x1ffff}; bytes = enc(c, v); return out(v); }
    case 5: { agg v{1, 2, 3}; bytes = enc(c, v); return out(v); }
    case 6: { std::vector<std::uint16_t> v{1, 2, 3, 4, 5, 6, 7}; bytes = enc(c, v); return out(v); }
    case 7: { message v{5, std::string(130, 'x')}; bytes = enc(c, std::uint32_t(135)) + unhex("0805128201") + bytes_of(v.b); step = 16; return out(v); }
    case 8: { std::vector<std::string> v{"ab", "", std::string(20, 'q')}; bytes = enc(c, v); return out(v); }
    case 9: { std::map<std::uint8_t, std::uint64_t> v{{1, 2}, {3, 4}}; bytes = enc(c, v); return out(v); }
    default: { std::array<std::uint64_t, 8> v{1, 2, 3}; bytes = enc(c, v); return out(v); }
    }
}
constexpr std::size_t n_writes = 11;

template <std::size_t L, std::size_t Mul, std::size_t Div, typename... O>
void growing()
{
    static constexpr std::size_t sizes[] = {0, 1, 4, 9, 30, 64};
    auto initial = std::min(sizes[mc::choose(std::size(sizes), "initial size")], L);
    auto back = mc::choose(4, "position from the end");
    back = back == 3 ? initial : back;
    growth g;
    for (std::size_t i = 0; i < initial; ++i) {
        g.push_back(std::byte(0x40 + i));
    }
    bytes_t model(g.begin(), g.end());
    zb::out out{g, O{}..., zb::enlarger<Mul, Div>{}, zb::alloc_limit<L>{}};
    std::size_t pos = back <= initial ? initial - back : initial;
    out.position() = pos;
    int depth = mc::thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        auto w = mc::choose(n_writes, "write");
        bytes_t bytes;
        std::size_t step;
        auto size = g.size();
        g.largest = 0;
        auto r = write(out, w, bytes, step);
        mc::step();
        mc::case_done();
        mc::outcome(mc::mix(std::uint64_t(r), g.size()));
        auto says = [&] {
            return mc::format("write %zu of %zu bytes at %zu of %zu bytes, limit %zu, factor %zu/%zu: %s, grown to %zu, now %zu", w,
                              bytes.size(), pos, size, L, Mul, Div, show(r).c_str(), g.largest, g.size());
        };
        mc::note(says);
        mc::require(g.largest <= std::max(L, size) && g.size() <= std::max(L, size), "limit", says);
        // Anything within this cannot exceed the limit in a growth step.
        bool must = (std::max(pos + bytes.size(), size) + bytes.size() + step) * Mul / Div <= L;
        // What fits asks for no growth.
        must = must || pos + bytes.size() + step <= size;
        bool cannot = pos + bytes.size() > std::max(L, size);
        mc::require(r == std::errc{} || r == std::errc::no_buffer_space, "error", says);
        mc::require(!must || r == std::errc{}, "refused", says);
        mc::require(!cannot || r == std::errc::no_buffer_space, "accepted", says);
        auto end = pos;
        if (r == std::errc{}) {
            end += bytes.size();
            if (model.size() < end) {
                model.resize(end);
            }
            std::copy(bytes.begin(), bytes.end(), model.begin() + std::ptrdiff_t(pos));
            mc::require(out.position() == end, "position", says);
            mc::require(g.size() >= model.size() && std::equal(model.begin(), model.end(), g.begin()), "content", says);
        } else {
            mc::require(out.position() >= pos && out.position() <= g.size(), "position", says);
            mc::require(std::equal(model.begin(), model.begin() + std::ptrdiff_t(pos), g.begin()), "content", says);
            end = out.position();
            model.assign(g.begin(), g.end());
        }
        mc::state(mc::hash_bytes(g.data(), g.size(), mc::mix(end, L)));
        model.assign(g.begin(), g.end());
        pos = end;
    }
}

// A buffer which claims to be nearly as large as the address space.
struct vast
{
    using value_type = std::byte;
    std::size_t n;
    std::byte * data() { return nullptr; }
    const std::byte * data() const { return nullptr; }
    std::byte * begin() { return nullptr; }
    std::byte * end() { return nullptr; }
    std::size_t size() const { return n; }
    std::byte & operator[](std::size_t) { return *data(); }
    void resize(std::size_t m)
    {
        if (m != n) {
            throw asked{m};
        }
    }
};

template <typename E, typename... O>
void wrapping()
{
    constexpr auto Mul = std::get<0>(E::enlarger_value);
    constexpr auto Div = std::get<1>(E::enlarger_value);
    std::vector<std::size_t> list;
    for (std::size_t base : {std::size_t{}, ~std::size_t{} / Mul + 1, std::size_t{1} << 63, ~std::size_t{} / Mul * Div + 1, (std::size_t{1} << 63) / Mul}) {
        for (std::size_t i = 1; i < 40; ++i) {
            list.push_back(base - i);
        }
        list.push_back(base - 1000);
    }
    std::sort(list.begin(), list.end());
    list.erase(std::unique(list.begin(), list.end()), list.end());
    auto n = list[mc::choose(list.size(), "size")];
    auto what = mc::choose(9, "write");
    vast b{n};
    zb::out out{b, E{}, O{}...};
    out.position() = n;
    std::errc r{};
    std::uint64_t wish = 0;
    bool grew = false;
    std::size_t need = 0;
    try {
        switch (what) {
        case 0: need = 1; r = out(std::uint8_t(1)); break;
        case 1: need = 4; r = out(std::uint32_t(1)); break;
        case 2: need = 8; r = out(std::uint64_t(1)); break;
        case 3: need = 1; r = out(zb::vuint32_t{5}); break;
        case 4: need = 3; r = out(std::bitset<17>{}); break;
        case 5: need = 4; r = out(std::string("hello")); break;
        case 6: need = 24; r = out(std::array<std::uint64_t, 3>{}); break;
        case 7: need = 5; r = out(zb::unsized(std::string_view("hello"))); break;
        default: need = 10; r = out(zb::vuint64_t{~0ull}); break;
        }
    } catch (const asked & a) {
        wish = a.n;
        grew = true;
    }
    mc::step();
    mc::case_done();
    mc::state(mc::mix(n, what));
    mc::outcome(mc::mix(std::uint64_t(r), grew));
    using wide = unsigned __int128;
    auto exact = wide(n) + need;
    auto scaled = (wide(n) + 10) * Mul; // with a bit more than any of these asks for
    auto says = [&] {
        return mc::format("writing %zu bytes to a buffer of %zu with factor %zu/%zu: %s, resized to %llu", need, n, Mul, Div,
                          show(r).c_str(), (unsigned long long)wish);
    };
    mc::note(says);
    mc::require(grew || r == std::errc::no_buffer_space, "written", says);
    mc::require(!grew || wide(wish) >= exact, "wrapped", says);
    if (exact > ~std::size_t{}) {
        mc::require(!grew, "wrapped", says);
    }
    if (scaled + wide(30) * Mul <= ~std::size_t{}) {
        mc::require(grew, "refused", says);
    }
}

// ---------------------------------------------------------------- protocol buffers
struct pb_bytes { std::vector<std::byte> v; using serialize = zb::protocol<zb::pb{}, 1>; };
struct pb_string { std::string v; using serialize = zb::protocol<zb::pb{}, 1>; };
struct pb_fixed { std::vector<std::uint32_t> v; using serialize = zb::protocol<zb::pb{}, 1>; };
struct pb_double { std::vector<double> v; using serialize = zb::protocol<zb::pb{}, 1>; };
struct pb_varints { std::vector<zb::vint64_t> v; using serialize = zb::protocol<zb::pb{}, 1>; };
struct pb_bools { std::list<bool> v; using serialize = zb::protocol<zb::pb{}, 1>; };
struct pb_strings { std::vector<std::string> v; using serialize = zb::protocol<zb::pb{}, 1>; };
struct pb_inner { std::vector<std::byte> v; using serialize = zb::protocol<zb::pb{}, 1>; };
struct pb_outer { pb_inner i; using serialize = zb::protocol<zb::pb{}, 1>; };

// The first record of an element, a declared length and what follows it.
template <typename T, std::size_t L, std::size_t Width, std::size_t Wire, bool Chars>
void fields(bytes_t prefix_bytes)
{
    auto list = lengths(prefix::varint, Width, L);
    auto n = list[mc::choose(list.size(), "declared length")];
    auto follow = mc::choose(3, "what follows"); // all, none, one byte less
    auto earlier = mc::choose(3, "records before"); // as many elements are there already
    config c;
    c.size = prefix::varint;
    bytes_t data;
    std::size_t before = 0;
    bytes_t one; // a record of one element
    if constexpr (!Chars) {
        one = unhex("0a") + count_bytes(c, prefix::varint, Wire) + bytes_t(Wire, std::byte{1});
    } else {
        one = unhex("0a0178");
    }
    if (!prefix_bytes.empty()) {
        earlier = 0;
    }
    for (std::size_t i = 0; i < earlier; ++i) {
        data = data + one;
        before += !Chars;
    }
    bytes_t body(std::size_t(std::min<std::uint64_t>(n, 2000)), std::byte{1});
    if (follow == 1) {
        body.clear();
    } else if (follow == 2 && !body.empty()) {
        body.pop_back();
    }
    if (!prefix_bytes.empty()) {
        // The enclosing message is as long as its content really is.
        bytes_t inner = unhex("0a") + count_bytes(c, prefix::varint, n) + body;
        data = data + prefix_bytes + count_bytes(c, prefix::varint, inner.size()) + inner;
    } else {
        data = data + unhex("0a") + count_bytes(c, prefix::varint, n) + body;
    }
    bytes_t whole = count_bytes(c, prefix::varint, data.size()) + data;
    exact e(whole);
    std::errc r;
    std::size_t largest, size = 0;
    {
        T v;
        {
            alloc::scope a(0, 1 << 28);
            zb::in in{e.view(), zb::size_varint{}, zb::alloc_limit<L>{}};
            r = in(v);
            largest = alloc::now.max;
        }
        if constexpr (requires { v.v.size(); }) {
            size = v.v.size();
        } else {
            size = v.i.v.size();
        }
    }
    mc::step();
    mc::case_done();
    mc::state(mc::hash_bytes(whole.data(), whole.size(), L));
    mc::outcome(mc::mix(std::uint64_t(r), size));
    auto says = [&] {
        return mc::format("a field of declared length %llu, limit %zu, %zu elements before, %s: %s, %zu elements, largest allocation %zu",
                          (unsigned long long)n, L, before, show(whole).c_str(), show(r).c_str(), size, largest);
    };
    mc::note(says);
    mc::require(largest <= 2 * L + 96, "allocated", says);
    mc::require(size * Width <= L, "limit", says);
    bool complete = n <= body.size();
    bool ragged = !Chars && n % Wire;
    auto count = before + n / Wire;
    bool over = Chars ? n > L : n > L || count > L / Width;
    if (earlier && ((Chars && L < 1) || (!Chars && before > L / Width))) {
        over = true;
    }
    if (over) {
        mc::require(r != std::errc{}, "accepted", says);
        if (complete && !ragged) {
            mc::require(r == std::errc::message_size, "error", says);
        }
    } else if (!complete || ragged) {
        mc::require(r != std::errc{}, "accepted", says);
    } else {
        mc::require(r == std::errc{} && size == (Chars ? n : count), "refused", says);
    }
}

// ---------------------------------------------------------------- registration
constexpr config c4{false, prefix::p4}, c1{false, prefix::p1}, c2b{true, prefix::p2}, cv{false, prefix::varint},
    cbv{true, prefix::varint}, c8{false, prefix::p8}, c8b{true, prefix::p8};

template <typename T, std::size_t... L>
void add_read(const char * name)
{
    std::string n = name;
    (mc::add("read " + n + mc::format(" limit %zu", L), [] { declared<T, L>(c4); }), ...);
    (mc::add("read size1b " + n + mc::format(" limit %zu", L), [] { declared<T, L, zb::size1b>(c1); }), ...);
    (mc::add("read big,varint " + n + mc::format(" limit %zu", L),
             [] { declared<T, L, zb::endian::big, zb::size_varint>(cbv); }), ...);
    (mc::add("read size8b " + n + mc::format(" limit %zu", L), [] { declared<T, L, zb::size8b>(c8); }), ...);
}
template <typename E, std::size_t... L>
void add_requested(const char * name)
{
    std::string n = name;
    (mc::add("requested " + n + mc::format(" limit %zu", L), [] { requested<E, L>(c4); }), ...);
    (mc::add("requested size8b,big " + n + mc::format(" limit %zu", L),
             [] { requested<E, L, zb::endian::big, zb::size8b>(c8b); }), ...);
    (mc::add("requested native " + n + mc::format(" limit %zu", L), [] { requested<E, L, zb::size_native>(c8); }), ...);
    (mc::add("requested varint " + n + mc::format(" limit %zu", L), [] { requested<E, L, zb::size_varint>(cv); }), ...);
    (mc::add("requested size2b,big " + n + mc::format(" limit %zu", L),
             [] { requested<E, L, zb::size2b, zb::endian::big>(c2b); }), ...);
}
template <std::size_t L>
void add_growing()
{
    mc::add(mc::format("grow limit %zu, 1/1", L), growing<L, 1, 1>);
    mc::add(mc::format("grow limit %zu, 3/2", L), growing<L, 3, 2>);
    mc::add(mc::format("grow limit %zu, 2", L), growing<L, 2, 1>);
    mc::add(mc::format("grow limit %zu, 3/2, no_fit_size", L), growing<L, 3, 2, zb::no_fit_size>);
    mc::add(mc::format("grow limit %zu, 5/4, no_enlarge_overflow", L), growing<L, 5, 4, zb::no_enlarge_overflow>);
}

template <typename V>
void add_views(const char * name)
{
    std::string n = name;
    mc::add("view " + n, [] { views<V>(c4); });
    mc::add("view size8b,big " + n, [] { views<V, zb::endian::big, zb::size8b>(c8b); });
    mc::add("view varint " + n, [] { views<V, zb::size_varint>(cv); });
}
template <typename T>
void add_counted(const char * name)
{
    std::string n = name;
    mc::add("count " + n, [] { counted<T>(c4); });
    mc::add("count size8b,big " + n, [] { counted<T, zb::endian::big, zb::size8b>(c8b); });
    mc::add("count varint " + n, [] { counted<T, zb::size_varint>(cv); });
}
template <typename E>
void add_destinations(const char * name)
{
    std::string n = name;
    mc::add("span " + n, [] { destinations<E>(c4); });
    mc::add("span size8b,big " + n, [] { destinations<E, zb::endian::big, zb::size8b>(c8b); });
    mc::add("span varint " + n, [] { destinations<E, zb::size_varint>(cv); });
}
template <std::size_t L>
void add_fields()
{
    auto n = mc::format(" limit %zu", L);
    mc::add("pb bytes" + n, [] { fields<pb_bytes, L, 1, 1, true>({}); });
    mc::add("pb string" + n, [] { fields<pb_string, L, 1, 1, true>({}); });
    mc::add("pb fixed" + n, [] { fields<pb_fixed, L, 4, 4, false>({}); });
    mc::add("pb double" + n, [] { fields<pb_double, L, 8, 8, false>({}); });
    mc::add("pb varints" + n, [] { fields<pb_varints, L, 8, 1, false>({}); });
    mc::add("pb bools" + n, [] { fields<pb_bools, L, 1, 1, false>({}); });
    mc::add("pb nested bytes" + n, [] { fields<pb_outer, L, 1, 1, true>(unhex("0a")); });
}

bool added = [] {
#if PART == 0
    add_read<std::vector<std::uint8_t>, 0, 1, 7, 64>("vector<u8>");
    add_read<std::vector<std::uint16_t>, 0, 1, 2, 7, 64>("vector<u16>");
    add_read<std::string, 0, 1, 8, 64>("string");
    add_read<std::u32string, 7, 64>("u32string");
#elif PART == 1
    add_read<std::vector<std::uint64_t>, 0, 7, 8, 64, 1000>("vector<u64>");
    add_read<std::vector<agg>, 11, 12, 100>("vector<struct>");
    add_read<std::vector<std::string>, 23, 24, 100>("vector<string>");
    add_read<std::deque<std::uint16_t>, 1, 64>("deque<u16>");
    add_read<std::list<std::uint16_t>, 1, 64>("list<u16>");
#elif PART == 2
    add_read<std::vector<std::vector<std::uint16_t>>, 72, 100>("vector<vector<u16>>");
    add_read<std::optional<std::vector<std::uint32_t>>, 4, 64>("optional<vector<u32>>");
    add_read<std::variant<std::uint8_t, std::vector<std::uint32_t>>, 4, 64>("variant<u8, vector<u32>>");
    add_read<std::unique_ptr<std::vector<std::uint32_t>>, 4, 64>("unique_ptr<vector<u32>>");
    add_read<std::map<std::uint8_t, std::vector<std::uint16_t>>, 4, 64>("map<u8, vector<u16>>");
    add_read<std::set<std::string>, 4, 64>("set<string>");
    add_read<hold, 4, 64>("struct with vector<u32>");
#elif PART == 3
    add_read<zb::sized_t<std::vector<std::uint16_t>, std::uint8_t>, 2, 64>("sized_t<vector<u16>, u8>");
    add_read<zb::sized_t<std::vector<std::uint64_t>, std::uint64_t>, 8, 64>("sized_t<vector<u64>, u64>");
    add_read<zb::sized_t<std::string, zb::vsize_t>, 2, 64>("sized_t<string, vsize_t>");
    add_requested<std::uint8_t, 0, 1, 100, no_limit>("u8");
    add_requested<std::uint16_t, 0, 1, 100, no_limit>("u16");
    add_requested<std::uint64_t, 7, 8, 100, 1000000000000, no_limit>("u64");
    add_requested<agg, 12, 100, no_limit>("struct");
#elif PART == 4
    add_growing<0>();
    add_growing<1>();
    add_growing<12>();
    add_growing<40>();
    add_growing<200>();
    add_growing<1000>();
#elif PART == 5
    mc::add("wrap default", wrapping<zb::enlarger<3, 2>>);
    mc::add("wrap exact", wrapping<zb::exact_enlarger>);
    mc::add("wrap 2", wrapping<zb::enlarger<2>>);
    mc::add("wrap 7/5", wrapping<zb::enlarger<7, 5>>);
    mc::add("wrap no_fit_size", wrapping<zb::enlarger<3, 2>, zb::no_fit_size>);
    mc::add("wrap big,varint", wrapping<zb::enlarger<3, 2>, zb::endian::big, zb::size8b>);
    add_views<std::string_view>("string_view");
    add_views<std::span<const std::byte>>("span<const byte>");
    add_views<std::span<const unsigned char>>("span<const unsigned char>");
    add_counted<std::map<std::uint16_t, std::uint8_t>>("map");
    add_counted<std::set<std::uint32_t>>("set");
    add_counted<std::unordered_map<std::uint8_t, std::string>>("unordered_map");
    add_destinations<std::uint8_t>("u8");
    add_destinations<std::uint16_t>("u16");
    add_destinations<std::uint64_t>("u64");
#elif PART == 6
    add_fields<0>();
    add_fields<1>();
    add_fields<8>();
    add_fields<64>();
    add_fields<1000>();
#endif
    return true;
}();
} // namespace
