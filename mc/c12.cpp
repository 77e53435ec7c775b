// C12: views of the input, spans of mutable elements, and writing views.
#include "kit.hpp"
#include <span>

using namespace kit;

namespace
{
template <typename S, typename Size>
struct with_size
{
};
// The reference length prefix.
std::errc told(const config & c, prefix p, const bytes_t & in, std::size_t & pos, std::uint64_t & n)
{
    model::Dec d{c, in.data(), in.size(), pos};
    d.c.size = p;
    auto e = d.count(n);
    if (e == std::errc{}) {
        pos = d.pos;
    }
    return e;
}

template <prefix P, bool Big, typename... O>
struct opt
{
    static constexpr prefix p = P;
    static config model() { return {Big, P}; }
    static auto in(auto & d) { return zb::in{d, O{}...}; }
    static auto out(auto & d) { return zb::out{d, O{}...}; }
};
using o_default = opt<prefix::p4, false>;
using o_1 = opt<prefix::p1, false, zb::size1b>;
using o_2big = opt<prefix::p2, true, zb::size2b, zb::endian::big>;
using o_8big = opt<prefix::p8, true, zb::size8b, zb::endian::big>;
using o_varint = opt<prefix::varint, false, zb::size_varint>;
using o_none = opt<prefix::none, false, zb::no_size>;
using o_limit = opt<prefix::varint, false, zb::size_varint, zb::alloc_limit<2>>; // views do not allocate

const std::uint64_t lengths[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffc, 0xffffffff,
                                 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffff0, 0xffffffffffffffff};

bytes_t count_bytes(const config & c, prefix p, std::uint64_t n)
{
    Enc e{c, {}};
    e.c.size = p;
    e.count(n);
    return e.out;
}

// ---------------------------------------------------------------- views
// Reads one view V from everything of `whole` at `start`.
template <typename O, typename Container, typename V, prefix P, std::size_t Extent>
void read_view(const char * how, const bytes_t & whole, std::size_t start, auto && read)
{
    using byte = typename Container::value_type;
    auto memory = std::make_unique<std::remove_const_t<byte>[]>(whole.size());
    if (!whole.empty()) {
        std::memcpy(memory.get(), whole.data(), whole.size());
    }
    Container c = [&] {
        if constexpr (requires { Container(memory.get(), whole.size()); }) {
            return Container(memory.get(), whole.size());
        } else {
            return Container(memory.get(), memory.get() + whole.size());
        }
    }();
    const void * base = c.data();
    auto in = O::in(c);
    in.position() = start;
    byte elsewhere[Extent == std::dynamic_extent ? 3 : (Extent ? Extent : 1)]{};
    V v = [&] {
        if constexpr (Extent == std::dynamic_extent) {
            return V(elsewhere, 3);
        } else {
            return V(elsewhere, Extent);
        }
    }();
    auto e = std::errc(read(in, v));
    mc::step();
    mc::case_done();
    // What should have happened.
    std::size_t pos = start;
    std::uint64_t n = 0;
    std::errc expected{};
    if (Extent != std::dynamic_extent && Extent) {
        n = Extent;
    } else if (P == prefix::none) {
        n = whole.size() - start;
    } else {
        expected = told(O::model(), P, whole, pos, n);
    }
    if (expected == std::errc{} && n > whole.size() - pos) {
        expected = std::errc::result_out_of_range;
    }
    auto text = [&] { return mc::format("%s at %zu of %s", how, start, show(whole).c_str()); };
    mc::note(text);
    mc::require(whole.empty() || !std::memcmp(base, whole.data(), whole.size()), "input-changed", [&] { return text() + ": the input was modified"; });
    mc::require(in.position() <= whole.size(), "position", [&] { return text() + ": the position is outside"; });
    mc::require(e == expected, "verdict", [&] { return text() + ": " + show(e) + " instead of " + show(expected); });
    auto begin = static_cast<const std::byte *>(base);
    auto first = reinterpret_cast<const std::byte *>(v.data());
    if (e == std::errc{}) {
        mc::require(v.size() == n && (first == begin + pos || (!n && (!first || (first >= begin && first <= begin + whole.size())))), "view", [&] {
            return text() + mc::format(": the view is %zu bytes at %td instead of %llu at %zu", v.size(), first - begin, (unsigned long long)n, pos);
        });
        mc::require(in.position() == pos + n, "consumed", [&] { return text() + mc::format(": the position is %zu", in.position()); });
    } else {
        bool untouched = first == reinterpret_cast<const std::byte *>(&elsewhere[0]);
        bool inside = first >= begin && first + v.size() <= begin + whole.size() && v.size() <= whole.size();
        mc::require(untouched || inside || !v.size(), "outside", [&] { return text() + ": a view outside of the input was produced"; });
    }
    mc::outcome(mc::mix(mc::mix(std::uint64_t(e), n), start));
}
template <typename O, typename Container, typename V, typename S, std::size_t Extent>
void views(const char * name)
{
    // S: void unsized wrapper, int no wrapper, otherwise the prefix type.
    constexpr bool bare = std::is_same_v<S, int>;
    constexpr prefix P = [] {
        if constexpr (bare) {
            return O::p;
        } else {
            return model::prefix_of<S>();
        }
    }();
    auto declared = lengths[mc::choose(std::size(lengths), "length")];
    auto there = mc::choose(9, "bytes");
    bytes_t body;
    for (std::size_t i = 0; i < there; ++i) {
        body.push_back(std::byte(0xa1 + i));
    }
    auto prefix_bytes = Extent != std::dynamic_extent && Extent ? bytes_t{} : count_bytes(O::model(), P, declared);
    for (std::size_t lead : {0, 1, 5}) {
        bytes_t whole(lead, std::byte(0x77));
        whole = whole + prefix_bytes + body;
        mc::state(mc::hash_bytes(whole.data(), whole.size(), lead));
        for (std::size_t cut = 0; cut <= prefix_bytes.size() && (cut == 0 || body.empty()); ++cut) {
            bytes_t w(whole.begin(), whole.end() - cut);
            read_view<O, Container, V, P, Extent>(name, w, lead, [](auto & in, auto & v) {
                if constexpr (bare) {
                    return std::errc(in(v));
                } else if constexpr (std::is_void_v<S>) {
                    return std::errc(in(zb::unsized(v)));
                } else {
                    return std::errc(in(zb::sized<S>(v)));
                }
            });
            if constexpr (!bare && Extent == std::dynamic_extent) {
                using W = zb::sized_t<V, S>;
                read_view<O, Container, W, P, Extent>(name, w, lead, [](auto & in, auto & v) { return std::errc(in(v)); });
            }
        }
    }
}
template <typename Container, typename V, std::size_t Extent = std::dynamic_extent>
void add_views(const std::string & name)
{
    auto add = [&]<typename O>(O, const char * option) {
        auto text = new std::string(name + ", " + option);
        mc::add(*text, [=] {
            views<O, Container, V, int, Extent>(text->c_str());
        });
        mc::add(*text + " wrapped", [=] {
            auto k = mc::choose(6, "wrapper");
            switch (k) {
            case 0: return views<O, Container, V, void, Extent>(text->c_str());
            case 1: return views<O, Container, V, unsigned char, Extent>(text->c_str());
            case 2: return views<O, Container, V, std::uint16_t, Extent>(text->c_str());
            case 3: return views<O, Container, V, std::uint32_t, Extent>(text->c_str());
            case 4: return views<O, Container, V, std::uint64_t, Extent>(text->c_str());
            case 5: return views<O, Container, V, zb::vsize_t, Extent>(text->c_str());
            }
        });
    };
    add(o_default{}, "4 bytes");
    add(o_1{}, "1 byte");
    add(o_2big{}, "2 big");
    add(o_8big{}, "8 big");
    add(o_varint{}, "varint");
    add(o_none{}, "none");
    add(o_limit{}, "limit");
}

// ---------------------------------------------------------------- nested views
struct header
{
    std::uint8_t kind{};
    std::span<const std::byte> body;
    std::uint16_t end{};
};
struct two_views
{
    using serialize = zb::members<3>;
    std::span<const std::byte> a;
    std::array<std::byte, 2> b{};
    std::span<const std::byte> c;
};
void nested()
{
    // Three views of length 0..4 in each of several types.
    std::size_t n[3];
    for (auto & x : n) {
        x = mc::choose(5, "length");
    }
    auto bytes = [](std::size_t k, int from) {
        bytes_t b;
        for (std::size_t i = 0; i < k; ++i) {
            b.push_back(std::byte(from + i));
        }
        return b;
    };
    auto text = [&](std::size_t k, int from) { return enc(config{}, bytes(k, from)); };
    using view = std::span<const std::byte>;
    auto is = [](const view & v, const exact & data, std::size_t at, std::size_t k) {
        mc::require(v.size() == k && (!k || v.data() == data.data.get() + at), "nested-view", [&] {
            return mc::format("a nested view is %zu bytes at %td instead of %zu at %zu", v.size(), v.data() - data.data.get(), k, at);
        });
        mc::case_done();
    };
    auto whole = text(n[0], 0x10) + text(n[1], 0x20) + text(n[2], 0x30);
    std::size_t at[3] = {4, 8 + n[0], 12 + n[0] + n[1]};
    mc::state(mc::hash_bytes(whole.data(), whole.size()));
    {
        exact d(unhex("03000000") + whole);
        auto v = d.view();
        std::vector<view> t{{}, {}};
        zb::in in{v};
        mc::require(success(in(t)) && t.size() == 3, "nested", "a vector of views was not read");
        for (int i = 0; i < 3; ++i) {
            is(t[i], d, 4 + at[i], n[i]);
        }
        mc::require(in.position() == d.size, "nested", "position");
    }
    {
        exact d(unhex("02000000") + unhex("01") + text(n[0], 0x10) + unhex("07") + text(n[1], 0x20));
        auto v = d.view();
        std::map<std::uint8_t, view> t;
        zb::in in{v};
        mc::require(success(in(t)) && t.size() == 2, "nested", "a map of views was not read");
        is(t[1], d, 9, n[0]);
        is(t[7], d, 14 + n[0], n[1]);
    }
    {
        exact d(whole);
        auto v = d.view();
        std::tuple<view, view, view> t;
        zb::in in{v};
        mc::require(success(in(t)), "nested", "a tuple of views was not read");
        is(std::get<0>(t), d, at[0], n[0]);
        is(std::get<1>(t), d, at[1], n[1]);
        is(std::get<2>(t), d, at[2], n[2]);
        view a, b, c;
        zb::in again{v};
        mc::require(success(again(a, b, c)), "nested", "views were not read");
        is(a, d, at[0], n[0]);
        is(b, d, at[1], n[1]);
        is(c, d, at[2], n[2]);
    }
    {
        exact d(unhex("01") + text(n[0], 0x10) + unhex("01") + text(n[1], 0x20) + unhex("05") + text(n[2], 0x30) + unhex("3412"));
        auto v = d.view();
        std::optional<view> o;
        std::variant<std::monostate, view> w;
        header h;
        zb::in in{v};
        mc::require(success(in(o, w, h)) && o && w.index() == 1 && h.kind == 5 && h.end == 0x1234, "nested", "views in other types were not read");
        is(*o, d, 5, n[0]);
        is(std::get<1>(w), d, 10 + n[0], n[1]);
        is(h.body, d, 15 + n[0] + n[1], n[2]);
    }
    {
        exact d(text(n[0], 0x10) + unhex("aabb") + text(n[2], 0x30));
        auto v = d.view();
        two_views t;
        zb::in in{v};
        mc::require(success(in(t)), "nested", "a class of views was not read");
        is(t.a, d, 4, n[0]);
        mc::require(t.b == std::array{std::byte(0xaa), std::byte(0xbb)}, "nested", "bytes between views");
        is(t.c, d, 10 + n[0], n[2]);
        for (std::size_t cut = 0; cut < d.size; ++cut) {
            exact less(d.data.get(), cut);
            auto lv = less.view();
            two_views x;
            zb::in i{lv};
            auto e = std::errc(i(x));
            mc::require(e == std::errc::result_out_of_range && i.position() <= cut, "nested-cut", "a cut class of views was accepted");
            mc::case_done();
        }
    }
    mc::step(8);
}

// ---------------------------------------------------------------- spans of mutable elements
template <typename E>
E value(std::size_t i)
{
    if constexpr (std::is_same_v<E, std::string>) {
        return std::string(i % 3, char('a' + i));
    } else if constexpr (requires { E::is_item; }) {
        using A = decltype(E::a);
        using B = decltype(E::b);
        return E{A(i + 1), B(0x01020304 * (i + 1))};
    } else {
        return E(0x0102030405060708ull * (i + 1));
    }
}
struct item
{
    std::uint8_t a{};
    std::uint32_t b{};
    static constexpr bool is_item = true;
    bool operator==(const item &) const = default;
};
struct packed_item
{
    std::uint16_t a{};
    std::uint16_t b{};
    static constexpr bool is_item = true;
    bool operator==(const packed_item &) const = default;
};
template <typename E>
void put(Enc & e, const E & x)
{
    if constexpr (requires { E::is_item; }) {
        M<decltype(x.a)>::enc(e, x.a);
        M<decltype(x.b)>::enc(e, x.b);
    } else {
        M<E>::enc(e, x);
    }
}
template <typename O, typename E, typename S, std::size_t Extent>
void mutable_span(const char * name)
{
    constexpr bool bare = std::is_same_v<S, int>;
    constexpr prefix P = [] {
        if constexpr (bare) {
            return O::p;
        } else {
            return model::prefix_of<S>();
        }
    }();
    constexpr bool fixed = Extent != std::dynamic_extent;
    std::size_t capacity = fixed ? Extent : mc::choose(6, "capacity");
    std::uint64_t declared = fixed || P == prefix::none ? capacity : lengths[mc::choose(std::size(lengths), "length")];
    auto there = std::size_t(mc::choose(8, "elements"));
    Enc e{O::model(), {}};
    if (!fixed) {
        e.c.size = P;
        e.count(declared);
        e.c.size = O::p;
    }
    auto head = e.out.size();
    std::vector<std::size_t> ends;
    for (std::size_t i = 0; i < there; ++i) {
        put<E>(e, value<E>(i));
        ends.push_back(e.out.size());
    }
    // What the prefix tells.
    std::uint64_t n = declared;
    if (!fixed && P != prefix::none && P != prefix::varint && P != prefix::p8) {
        n &= (std::uint64_t(1) << (8 * unsigned(P))) - 1;
    }
    mc::state(mc::hash_bytes(e.out.data(), e.out.size(), capacity));
    auto check = [&](std::size_t size, std::size_t whole_elements, bool has_head, int form) {
        exact data(e.out.data(), size);
        auto v = data.view();
        auto memory = std::make_unique<E[]>(capacity + 3);
        for (std::size_t i = 0; i < capacity + 3; ++i) {
            memory[i] = value<E>(40 + i);
        }
        std::span<E, Extent> span(memory.get() + 1, capacity);
        auto in = O::in(v);
        std::errc r{};
        std::size_t size_after = 0;
        const E * data_after = nullptr;
        auto look = [&](auto & s) {
            size_after = s.size();
            data_after = s.data();
        };
        if constexpr (bare) {
            r = std::errc(in(span));
            look(span);
        } else if constexpr (std::is_void_v<S>) {
            r = std::errc(in(zb::unsized(span)));
            look(span);
        } else {
            r = std::errc(in(zb::sized<S>(span)));
            look(span);
        }
        mc::step();
        mc::case_done();
        auto text = [&] {
            return mc::format("%s: %llu elements told, %zu there, span of %zu", name, (unsigned long long)n, whole_elements, capacity);
        };
        mc::note(text);
        bool ok = has_head && n <= capacity && n <= whole_elements;
        mc::require(r == (ok ? std::errc{} : std::errc::result_out_of_range), "span-verdict", [&] { return text() + ": " + show(r); });
        mc::require(data_after == memory.get() + 1 && size_after <= capacity, "span-moved", [&] { return text() + ": the span denotes other memory"; });
        if (ok) {
            mc::require(size_after == n, "span-size", [&] { return text() + mc::format(": the span has %zu elements", size_after); });
            for (std::size_t i = 0; i < n; ++i) {
                mc::require(memory[1 + i] == value<E>(i), "span-element", [&] { return text() + mc::format(": element %zu is wrong", i); });
            }
            mc::require(in.position() == (n ? ends[n - 1] : head), "span-consumed", [&] { return text() + mc::format(": position %zu", in.position()); });
        }
        auto touched = std::min<std::uint64_t>(n, capacity);
        if (!has_head || n > capacity) {
            touched = 0;
        }
        mc::require(memory[0] == value<E>(40), "span-before", [&] { return text() + ": memory before the span was written"; });
        for (std::size_t i = touched; i < capacity + 2; ++i) {
            mc::require(memory[1 + i] == value<E>(41 + i), "span-beyond", [&] { return text() + mc::format(": element %zu beyond was written", i); });
        }
    };
    check(e.out.size(), there, true, 0);
    if (!head || there) {
        // One byte less.
        if (e.out.size() > head && (there == 0 || ends[there - 1] > (there > 1 ? ends[there - 2] : head))) {
            check(e.out.size() - 1, there - 1, true, 0);
        }
    }
    if (!there && head) {
        for (std::size_t cut = 0; cut < head; ++cut) {
            check(cut, 0, false, 0);
        }
    }
}
template <typename E>
void add_spans(const std::string & name)
{
    auto add = [&]<typename O>(O, const char * option) {
        auto text = new std::string("span of " + name + ", " + option);
        mc::add(*text, [=] { mutable_span<O, E, int, std::dynamic_extent>(text->c_str()); });
        mc::add(*text + " wrapped", [=] {
            switch (mc::choose(4, "wrapper")) {
            case 0: return mutable_span<O, E, void, std::dynamic_extent>(text->c_str());
            case 1: return mutable_span<O, E, unsigned char, std::dynamic_extent>(text->c_str());
            case 2: return mutable_span<O, E, std::uint64_t, std::dynamic_extent>(text->c_str());
            case 3: return mutable_span<O, E, zb::vsize_t, std::dynamic_extent>(text->c_str());
            }
        });
        mc::add(*text + " of 1", [=] { mutable_span<O, E, int, 1>(text->c_str()); });
        mc::add(*text + " of 4", [=] { mutable_span<O, E, int, 4>(text->c_str()); });
    };
    add(o_default{}, "4 bytes");
    add(o_2big{}, "2 big");
    add(o_varint{}, "varint");
    if constexpr (!std::is_same_v<E, std::string>) { // a string would take as many characters as it has
        add(o_none{}, "none");
    }
}

// ---------------------------------------------------------------- writing
template <typename O, typename E>
void writing(const char * name)
{
    auto n = std::size_t(mc::choose(6, "elements"));
    std::vector<E> v;
    for (std::size_t i = 0; i < n; ++i) {
        v.push_back(value<E>(i));
    }
    auto write = [&](auto &&... x) {
        std::vector<std::byte> d;
        auto out = O::out(d);
        auto r = std::errc(out(x...));
        mc::step();
        mc::require(r == std::errc{}, "write", "writing a view failed");
        return d;
    };
    auto same = [&](const char * how, const bytes_t & a, const bytes_t & b) {
        mc::case_done();
        mc::require(a == b, "write-view", [&] {
            return mc::format("%s: a %s wrote %s, the container %s", name, how, show(a).c_str(), show(b).c_str());
        });
    };
    auto owned = write(v);
    mc::state(mc::hash_bytes(owned.data(), owned.size()));
    std::span<E> s{v};
    std::span<const E> c{v};
    same("span", write(s), owned);
    same("span of constants", write(c), owned);
    same("constant span", write(std::as_const(s)), owned);
    same("unsized span", write(zb::unsized(s)), write(zb::unsized(v)));
    same("unsized span of constants", write(zb::unsized(c)), write(zb::unsized(v)));
    same("span with 2", write(zb::sized<std::uint16_t>(c)), write(zb::sized<std::uint16_t>(v)));
    same("span with a varint", write(zb::sized<zb::vsize_t>(s)), write(zb::sized<zb::vsize_t>(v)));
    same("span1b", write(zb::span1b<const E>(c)), write(zb::vector1b<E>(v)));
    same("static span", write(zb::static_span<E>(s)), write(zb::static_vector<E>(v)));
    if (n >= 3) {
        std::span<const E, 3> f{v.data(), 3};
        std::array<E, 3> a{v[0], v[1], v[2]};
        same("span of 3", write(f), write(a));
        same("part of a span", write(c.subspan(1, 2)), write(std::vector<E>{v[1], v[2]}));
    }
    std::vector<std::span<const E>> nested{c, c.first(n / 2), {}};
    same("vector of spans", write(nested), write(std::vector<std::vector<E>>{v, {v.begin(), v.begin() + n / 2}, {}}));
    if constexpr (std::is_same_v<E, char>) {
        std::string text(v.begin(), v.end());
        same("string view", write(std::string_view{text}), write(text));
        same("unsized string view", write(zb::unsized(std::string_view{text})), write(zb::unsized(text)));
        same("string_view1b", write(zb::string_view1b(text.data(), text.size())), write(zb::string1b(text)));
    }
}
template <typename E>
void add_writing(const std::string & name)
{
    auto add = [&]<typename O>(O, const char * option) {
        auto text = new std::string("writing " + name + ", " + option);
        mc::add(*text, [=] { writing<O, E>(text->c_str()); });
    };
    add(o_default{}, "4 bytes");
    add(o_1{}, "1 byte");
    add(o_2big{}, "2 big");
    add(o_varint{}, "varint");
    add(o_none{}, "none");
}

bool added = [] {
#if PART == 0
    add_views<std::vector<std::byte>, std::span<const std::byte>>("span of a vector");
    mc::add("nested views", nested);
#elif PART == 1
    add_views<std::span<const std::byte>, std::span<const std::byte>>("span of a span");
    add_views<std::span<std::byte>, std::span<const std::byte>>("span of a mutable span");
#elif PART == 2
    add_views<std::string, std::string_view>("string view of a string");
    add_views<std::string_view, std::string_view>("string view of a string view");
    add_views<std::string, std::span<const char>>("span of a string");
#elif PART == 3
    add_views<std::vector<unsigned char>, std::span<const unsigned char>>("span of unsigned chars");
    add_views<std::vector<char>, std::string_view>("string view of chars");
#elif PART == 4
    add_spans<std::uint8_t>("bytes");
    add_spans<std::uint32_t>("words");
#elif PART == 5
    add_spans<item>("items");
    add_spans<packed_item>("packed items");
#elif PART == 6
    add_spans<std::string>("strings");
    add_spans<double>("doubles");
#elif PART == 7
    add_writing<std::uint8_t>("bytes");
    add_writing<char>("chars");
    add_writing<std::uint32_t>("words");
#elif PART == 8
    add_writing<item>("items");
    add_writing<std::string>("strings");
    add_writing<std::byte>("standard bytes");
#endif
    return true;
}();
} // namespace
