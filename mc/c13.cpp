// C13: copying bytes at once is invisible, and every member is visited.
#include "kit.hpp"
#if PART < 8
#include "c13_gen.hpp"
#endif
#include <list>

using namespace kit;
using model::G;

namespace c13
{
// ---------------------------------------------------------------- subjects
// A value to write and another one to read into, of any type.
struct subject
{
    virtual ~subject() = default;
    virtual void make() = 0;     // the value to write
    virtual void retarget() = 0; // another value to read into
    virtual bytes_t model(bool swapped) = 0;
    virtual std::errc write(bool swapped, bytes_t & to) = 0;
    virtual std::errc read(bool swapped, std::span<const std::byte> from, std::size_t & position) = 0;
    virtual std::errc model_read(bool swapped, std::span<const std::byte> from) = 0;
    virtual bool same() = 0;
    virtual bool readable() = 0;
};

template <typename W>
struct subject_of : subject
{
    std::unique_ptr<W> from, to;
    void make() override
    {
        G g;
        from = std::make_unique<W>(M<W>::gen(g));
    }
    void retarget() override
    {
        G g;
        g.plain = true;
        g.salt = 77;
        to = std::make_unique<W>(M<W>::gen(g));
    }
    bytes_t model(bool swapped) override
    {
        Enc e{{.swapped = swapped}, {}};
        M<W>::enc(e, *from);
        return std::move(e.out);
    }
    std::errc write(bool swapped, bytes_t & data) override
    {
        auto go = [&](auto &&... option) -> std::errc {
            zb::out out{data, std::forward<decltype(option)>(option)...};
            std::errc e = out(std::as_const(*from));
            data.resize(out.position());
            return e;
        };
        return swapped ? go(zb::endian::swapped{}) : go();
    }
    static constexpr bool can_read = !requires { typename M<W>::write_only; };
    bool readable() override
    {
        return can_read;
    }
    std::errc read([[maybe_unused]] bool swapped, [[maybe_unused]] std::span<const std::byte> data,
                   [[maybe_unused]] std::size_t & position) override
    {
        if constexpr (can_read) {
            auto go = [&](auto &&... option) -> std::errc {
                zb::in in{data, std::forward<decltype(option)>(option)...};
                std::errc e = in(*to);
                position = in.position();
                return e;
            };
            return swapped ? go(zb::endian::swapped{}) : go();
        } else {
            return {};
        }
    }
    std::errc model_read([[maybe_unused]] bool swapped, [[maybe_unused]] std::span<const std::byte> data) override
    {
        if constexpr (can_read) {
            model::Dec d{{.swapped = swapped}, data.data(), data.size()};
            G g;
            g.plain = true;
            auto v = std::make_unique<W>(M<W>::gen(g));
            return M<W>::dec(d, *v);
        } else {
            return {};
        }
    }
    bool same() override
    {
        if constexpr (can_read) {
            return M<W>::eq(*from, *to);
        } else {
            return true;
        }
    }
};

// Everything about one type: the bytes, the values, every truncation.
inline void judge(subject & s, const std::string & name)
{
    bool swapped = mc::choose(2, "byte order");
    auto before = mc::deviations_left();
    s.make();
    auto want = s.model(swapped);
    bytes_t got;
    auto e = s.write(swapped, got);
    mc::step();
    mc::state(mc::mix(std::hash<std::string>{}(name), mc::hash_bytes(want.data(), want.size())));
    mc::case_done();
    auto order = swapped ? "foreign" : "native";
    mc::require(e == std::errc{}, "write", [&] { return name + ", " + order + " byte order: " + show(e); });
    mc::require(got == want, "bytes", [&] {
        return name + ", " + order + " byte order: " + show(got) + " instead of " + show(want);
    });
    if (!s.readable()) {
        return;
    }
    auto size = want.size();
    want.insert(want.end(), 3, std::byte{0xee});
    // Every truncation of the encoding of the first value.
    for (std::size_t n = mc::deviations_left() == before ? 0 : size; n <= want.size(); ++n) {
        s.retarget();
        exact data(want.data(), n);
        std::size_t at = 0;
        e = s.read(swapped, data.view(), at);
        mc::step();
        mc::case_done();
        if (n < size) {
            auto expected = s.model_read(swapped, data.view());
            mc::require(e == expected, "truncated", [&] {
                return name + ", " + order + mc::format(" byte order, %zu of %zu bytes: ", n, size) + show(e) + " instead of " + show(expected);
            });
        } else {
            mc::require(e == std::errc{} && at == size, "read", [&] {
                return name + ", " + order + " byte order: " + show(e) + mc::format(" at %zu of %zu", at, size);
            });
            mc::require(s.same(), "value", [&] { return name + ", " + order + " byte order: reads something else than it wrote"; });
        }
    }
    mc::outcome(mc::hash_bytes(want.data(), size));
}

struct entry
{
    std::string name;
    std::unique_ptr<subject> (*make)();
};
template <typename W>
entry one(std::string name)
{
    return {std::move(name), []() -> std::unique_ptr<subject> { return std::make_unique<subject_of<W>>(); }};
}

// ---------------------------------------------------------------- containers
// A C array in an archive of its own, and in a class.
template <typename T>
struct in_array
{
    T x[2];
    constexpr static auto serialize(auto & archive, auto & self)
    {
        return archive(self.x);
    }
};
template <typename T>
struct in_class
{
    using serialize = zb::members<2>;
    T x[2];
    std::uint8_t y;
};
template <typename T>
struct after_byte
{
    using serialize = zb::members<2>;
    std::uint8_t y;
    T x;
};
template <typename T>
struct alone
{
    using serialize = zb::members<1>;
    T x;
};
// A view of the two elements: written only.
template <typename T>
struct viewed
{
    std::array<T, 2> x;
    constexpr static auto serialize(auto & archive, auto & self)
        requires requires { requires std::remove_cvref_t<decltype(archive)>::kind() == zb::kind::out; }
    {
        return archive(std::span<const T>(self.x.data(), 2));
    }
};
} // namespace c13

namespace model
{
template <typename T>
struct Fields<c13::in_array<T>>
{
    static auto get(auto & v) { return std::tie(v.x[0], v.x[1]); }
};
template <typename T>
struct Fields<c13::in_class<T>>
{
    static auto get(auto & v) { return std::tie(v.x[0], v.x[1], v.y); }
};
template <typename T>
struct Fields<c13::after_byte<T>>
{
    static auto get(auto & v) { return std::tie(v.y, v.x); }
};
template <typename T>
struct Fields<c13::alone<T>>
{
    static auto get(auto & v) { return std::tie(v.x); }
};
template <typename T>
struct M<c13::viewed<T>>
{
    using write_only = void;
    static auto gen(G & g)
    {
        return c13::viewed<T>{M<std::array<T, 2>>::gen(g)};
    }
    static void enc(Enc & e, const c13::viewed<T> & v)
    {
        e.count(2);
        M<T>::enc(e, v.x[0]);
        M<T>::enc(e, v.x[1]);
    }
};
} // namespace model

namespace c13
{
// The same, which is read into as well.
template <typename T>
struct spanned
{
    T x[2];
    constexpr static auto serialize(auto & archive, auto & self)
    {
        return archive(std::span(self.x, 2));
    }
};
} // namespace c13
namespace model
{
template <typename T>
struct M<c13::spanned<T>>
{
    using W = c13::spanned<T>;
    static W gen(G & g)
    {
        auto a = M<T>::gen(g);
        return {{std::move(a), M<T>::gen(g)}};
    }
    static void enc(Enc & e, const W & v)
    {
        e.count(2);
        M<T>::enc(e, v.x[0]);
        M<T>::enc(e, v.x[1]);
    }
    static std::errc dec(Dec & d, W & v)
    {
        std::uint64_t n;
        auto e = d.count(n);
        for (int i = 0; e == std::errc{} && i < 2; ++i) {
            e = M<T>::dec(d, v.x[i]);
        }
        return e;
    }
    static bool eq(const W & a, const W & b)
    {
        return M<T>::eq(a.x[0], b.x[0]) && M<T>::eq(a.x[1], b.x[1]);
    }
};
} // namespace model
namespace c13
{
template <typename T, bool More>
void add_all(std::vector<entry> & l, const std::string & n)
{
    l.push_back(one<T>(n));
    if constexpr (!std::same_as<T, bool>) { // whose vector has no elements of that type
        l.push_back(one<std::vector<T>>("vector of " + n));
    }
    if constexpr (More) {
        l.push_back(one<in_array<T>>("array of " + n));
        l.push_back(one<in_class<T>>("array of " + n + " in a class"));
        l.push_back(one<after_byte<T>>("class of a byte and " + n));
        l.push_back(one<alone<T>>("class of " + n));
        l.push_back(one<std::deque<T>>("deque of " + n));
        l.push_back(one<std::array<T, 2>>("std::array of " + n));
    }
}

inline void add_scenario(std::string name, std::vector<entry> l, int bound = 2)
{
    auto p = std::make_shared<std::vector<entry>>(std::move(l));
    mc::add(std::move(name), [p, bound] {
        mc::bound(mc::thorough() && bound > 1 ? bound + 1 : bound);
        auto & e = (*p)[mc::choose(p->size(), "type")];
        auto s = e.make();
        judge(*s, e.name);
    });
}

#if PART < 8
// ---------------------------------------------------------------- all counts
inline std::vector<const void *> visits;
inline std::size_t fuse;
template <int I>
struct traced
{
    std::uint16_t v{};
    constexpr static zb::errc serialize(auto & archive, auto & self)
    {
        visits.push_back(&self);
        if (visits.size() == fuse) {
            return std::errc::owner_dead;
        }
        return archive(self.v);
    }
};
struct traces
{
    template <int I>
    using at = traced<I>;
};

struct trace_ops
{
    std::vector<const void *> members; // of the object
    std::size_t count{};
    std::size_t types{};
    bool types_in_order{};
    std::vector<const void *> mutable_visit, const_visit;
    std::function<std::errc(bytes_t &)> write;
    std::function<std::errc(const bytes_t &)> read;
    std::function<void(int)> set;
    std::function<std::vector<int>()> get;
};

struct types_visitor
{
    template <typename... T>
    constexpr auto operator()() const
    {
        return []<std::size_t... I>(std::index_sequence<I...>) {
            return std::integral_constant<
                int, int(sizeof...(T)) * 2 + (... && std::same_as<std::remove_cvref_t<T>, traced<int(I)>>)>{};
        }(std::index_sequence_for<T...>{});
    }
};

template <int Style, int N>
std::unique_ptr<trace_ops> trace()
{
    using S = shape<Style, N, traces>;
    using T = typename S::type;
    auto o = std::make_unique<trace_ops>();
    auto t = std::make_shared<T>();
    S::all(*t, [&](auto &... m) { o->members = {static_cast<const void *>(&m)...}; });
    o->count = std::size_t(zb::number_of_members<T>());
    constexpr auto seen = decltype(zb::visit_members_types<T>(types_visitor{}))::value;
    o->types = seen / 2;
    o->types_in_order = seen % 2;
    zb::visit_members(*t, [&](auto &&... m) { o->mutable_visit = {static_cast<const void *>(&m)...}; });
    zb::visit_members(std::as_const(*t), [&](auto &&... m) { o->const_visit = {static_cast<const void *>(&m)...}; });
    o->write = [t](bytes_t & d) -> std::errc {
        zb::out out{d};
        auto r = out(std::as_const(*t));
        d.resize(out.position());
        return r;
    };
    o->read = [t](const bytes_t & d) -> std::errc {
        zb::in in{d};
        return in(*t);
    };
    o->set = [t]([[maybe_unused]] int base) {
        S::all(*t, [&](auto &... m) { ((m.v = std::uint16_t(base++)), ...); });
    };
    o->get = [t] {
        std::vector<int> r;
        S::all(*t, [&](auto &... m) { r = {int(m.v)...}; });
        return r;
    };
    return o;
}

struct shape_entry
{
    int n;
    int style;
    std::unique_ptr<trace_ops> (*make)();
};

inline void check_trace(const shape_entry & s)
{
    static constexpr const char * styles[] = {"an aggregate", "a class with private members", "a class described by a function"};
    auto name = mc::format("%s of %d members", styles[s.style], s.n);
    auto o = s.make();
    auto n = std::size_t(s.n);
    mc::case_done();
    mc::require(o->count == n, "count", [&] { return name + mc::format(": %zu are counted", o->count); });
    mc::require(o->types == n && o->types_in_order, "types", [&] { return name + ": other types are visited"; });
    mc::require(o->mutable_visit == o->members && o->const_visit == o->members, "visit", [&] { return name + ": other members are visited"; });
    auto upto = mc::choose(n + 1, "failing member"); // none: the last one
    fuse = upto < n ? upto + 1 : 0;
    auto seen = o->members;
    seen.resize(std::min(n, upto + 1));
    std::vector<int> numbers;
    for (std::size_t i = 0; i < n; ++i) {
        numbers.push_back(0x1000 + int(i));
    }
    auto code = fuse ? std::errc::owner_dead : std::errc{};

    o->set(0x1000);
    bytes_t d;
    visits.clear();
    auto e = o->write(d);
    mc::step(n);
    mc::require(visits == seen, "write visits", [&] { return name + mc::format(": writing visits %zu members or in another order", visits.size()); });
    mc::require(e == code, "write result", [&] { return name + ": writing ends with " + show(e); });
    bytes_t want;
    for (std::size_t i = 0; i < std::min(n, upto); ++i) {
        want.push_back(std::byte(i));
        want.push_back(std::byte(0x10));
    }
    mc::require(d == want, "write bytes", [&] { return name + ": writes " + show(d); });
    for (std::size_t i = upto; i < n; ++i) {
        want.push_back(std::byte(i));
        want.push_back(std::byte(0x10));
    }
    o->set(0x2000);
    visits.clear();
    e = o->read(want);
    mc::step(n);
    mc::require(visits == seen, "read visits", [&] { return name + mc::format(": reading visits %zu members or in another order", visits.size()); });
    mc::require(e == code, "read result", [&] { return name + ": reading ends with " + show(e); });
    for (std::size_t i = std::min(n, upto); i < n; ++i) {
        numbers[i] += 0x1000;
    }
    mc::require(o->get() == numbers, "read values", [&] { return name + ": reads other values"; });
    mc::state(std::uint64_t(s.n * 1000 + s.style * 100) + upto);
}

// Numbers of one width, and numbers which leave gaps.
struct words
{
    template <int I>
    using at = std::uint16_t;
};
struct gaps
{
    template <int I>
    using at = std::conditional_t<I % 3 == 0, std::uint8_t, std::conditional_t<I % 3 == 1, std::uint16_t, std::uint32_t>>;
};
struct octets
{
    template <int I>
    using at = std::conditional_t<I % 2 == 0, unsigned char, std::byte>;
};
struct varints
{
    template <int I>
    using at = zb::vuint32_t;
};
struct fixed32
{
    template <int I>
    using at = std::uint32_t;
};

// Protobuf messages of N members.
struct message_ops
{
    std::function<std::errc(bytes_t &)> write;
    std::function<std::errc(const bytes_t &)> read;
    std::function<void(std::uint32_t, std::uint32_t)> set;
    std::function<std::vector<std::uint32_t>()> get;
};
struct message_entry
{
    int n;
    int style;
    bool fixed;
    std::unique_ptr<message_ops> (*make)();
};
template <int Style, int N, typename P>
std::unique_ptr<message_ops> message()
{
    using S = shape<Style, N, P>;
    using T = typename S::type;
    auto o = std::make_unique<message_ops>();
    auto t = std::make_shared<T>();
    o->write = [t](bytes_t & d) -> std::errc {
        zb::out out{d, zb::no_size{}};
        auto r = out(std::as_const(*t));
        d.resize(out.position());
        return r;
    };
    o->read = [t](const bytes_t & d) -> std::errc {
        zb::in in{d, zb::no_size{}};
        return in(*t);
    };
    o->set = [t]([[maybe_unused]] std::uint32_t base, [[maybe_unused]] std::uint32_t step) {
        S::all(*t, [&](auto &... m) { ((m = base, base += step), ...); });
    };
    o->get = [t] {
        std::vector<std::uint32_t> r;
        S::all(*t, [&](auto &... m) { r = {std::uint32_t(m)...}; });
        return r;
    };
    return o;
}
inline void check_message(const message_entry & s)
{
    auto name = mc::format("a message of %d %s members", s.n, s.fixed ? "fixed" : "varint");
    auto o = s.make();
    auto n = std::size_t(s.n);
    auto record = [&](std::size_t i, std::uint32_t v) {
        Enc e{{}, {}};
        e.varint((i + 1) * 8 + (s.fixed ? 5 : 0));
        if (s.fixed) {
            e.number(v, 4);
        } else {
            e.varint(v);
        }
        return e.out;
    };
    auto base = mc::choose(2, "values") ? 0x10203u : 1u;
    o->set(base, 3);
    bytes_t d;
    auto e = o->write(d);
    mc::step(n);
    mc::case_done();
    bytes_t want;
    for (std::size_t i = 0; i < n; ++i) {
        want = want + record(i, base + std::uint32_t(3 * i));
    }
    mc::require(e == std::errc{} && d == want, "message", [&] { return name + ": writes " + show(d) + ", " + show(e) + " instead of " + show(want); });
    // Every member alone, and all of them in three orders.
    auto which = mc::choose(n + 3, "fields");
    std::vector<std::uint32_t> values(n);
    for (std::size_t i = 0; i < n; ++i) {
        values[i] = 7 + std::uint32_t(i);
    }
    bytes_t in;
    auto put = [&](std::size_t i) {
        values[i] = base + 5 * std::uint32_t(i);
        in = in + record(i, values[i]);
    };
    if (which < n) {
        put(which);
    } else {
        for (std::size_t i = 0; i < n; ++i) {
            put(which == n ? i : which == n + 1 ? n - 1 - i : (i * 17 + 5) % n);
        }
        if (which == n + 2 && n % 17 == 0) {
            return;
        }
    }
    o->set(7, 1);
    e = o->read(in);
    mc::step(n);
    mc::require(e == std::errc{}, "message read", [&] { return name + ": " + show(e) + " from " + show(in); });
    mc::require(o->get() == values, "message values", [&] { return name + ": reads other values from " + show(in); });
    mc::state(mc::mix(std::uint64_t(s.n * 100 + s.style * 10 + s.fixed), which * 2 + (base != 1)));
}

// The counts of this part.
template <int N>
void add_count(std::vector<shape_entry> & t, std::vector<message_entry> & m, std::vector<entry> & v)
{
    t.push_back({N, 0, trace<0, N>});
    t.push_back({N, 1, trace<1, N>});
    t.push_back({N, 2, trace<2, N>});
    m.push_back({N, 3, false, message<3, N, varints>});
    m.push_back({N, 4, false, message<4, N, varints>});
    m.push_back({N, 3, true, message<3, N, fixed32>});
    auto values = [&]<typename P>(P, const char * what) {
        auto add = [&]<typename T>(std::type_identity<T>, const char * style) {
            auto name = mc::format("%s of %d %s", style, N, what);
            v.push_back(one<T>(name));
            if constexpr (N % 5 == 2) {
                v.push_back(one<in_class<T>>("array of " + name));
            }
            if constexpr (N % 5 == 3) {
                v.push_back(one<std::vector<T>>("vector of " + name));
            }
        };
        add(std::type_identity<typename shape<0, N, P>::type>{}, "an aggregate");
        if constexpr (!std::same_as<P, octets>) {
            add(std::type_identity<typename shape<1, N, P>::type>{}, "a class");
        }
    };
    values(words{}, "words");
    values(gaps{}, "numbers with gaps");
    values(octets{}, "bytes");
}

[[maybe_unused]] static bool added = [] {
    auto t = std::make_shared<std::vector<shape_entry>>();
    auto m = std::make_shared<std::vector<message_entry>>();
    std::vector<entry> v;
    [&]<int... I>(std::integer_sequence<int, I...>) {
        (
            [&] {
                // Counts which are about as much work in every part.
                constexpr int n = I * 8 + (I % 2 ? 7 - PART : PART);
                if constexpr (n <= 50) {
                    add_count<n>(*t, *m, v);
                }
            }(),
            ...);
    }(std::make_integer_sequence<int, 7>{});
    mc::add(mc::format("members in order %d", PART), [t] { check_trace((*t)[mc::choose(t->size(), "class")]); });
    mc::add(mc::format("messages %d", PART), [m] { check_message((*m)[mc::choose(m->size(), "class")]); });
    add_scenario(mc::format("values of many members %d", PART), std::move(v), 1);
    return true;
}();
#endif
} // namespace c13

#if PART >= 8
// ---------------------------------------------------------------- type sequences
namespace t
{
enum class e16 : std::uint16_t
{
};
struct padded
{
    std::uint8_t a;
    std::uint32_t b;
};
struct packed
{
    std::uint16_t a;
    std::uint16_t b;
};
struct deep
{
    packed a;
    std::uint32_t b;
};
struct nothing
{
};
struct hidden_gap
{
    std::uint32_t a;
    padded b;
};
// Fixed size classes which are written in their own way.
struct custom
{
    std::uint8_t a;
    std::uint8_t b;
    constexpr static auto serialize(auto & archive, auto & self)
    {
        return archive(self.b, self.a, zb::vuint32_t{5});
    }
};
struct custom_by_function
{
    std::uint16_t a;
};
constexpr auto serialize(auto & archive, const custom_by_function & v)
{
    return archive(std::uint8_t(v.a >> 8), std::uint8_t(v.a));
}
constexpr auto serialize(auto & archive, custom_by_function & v)
{
    if constexpr (std::remove_cvref_t<decltype(archive)>::kind() == zb::kind::out) {
        return archive(std::uint8_t(v.a >> 8), std::uint8_t(v.a));
    } else {
        std::uint8_t h{}, l{};
        zb::errc e = archive(h, l);
        if (zb::success(e)) {
            v.a = std::uint16_t(h * 256 + l);
        }
        return e;
    }
}
struct custom_inside
{
    std::uint16_t a;
    custom b[2];
    using serialize = zb::members<2>;
};
struct empty_custom
{
    constexpr static auto serialize(auto & archive, auto &)
    {
        if constexpr (std::remove_cvref_t<decltype(archive)>::kind() == zb::kind::out) {
            return archive(std::uint8_t{0x42});
        } else {
            std::uint8_t x{};
            zb::errc e = archive(x);
            return zb::success(e) && x != 0x42 ? zb::errc{std::errc::bad_message} : e;
        }
    }
};
struct message
{
    std::uint32_t a;
    std::uint32_t b;
    using serialize = zb::protocol<zb::pb{}>;
};
} // namespace t

namespace model
{
#define FIELDS(type, ...)                                                                                              \
    template <>                                                                                                        \
    struct Fields<type>                                                                                                \
    {                                                                                                                  \
        static auto get([[maybe_unused]] type & v) { return std::tie(__VA_ARGS__); }                                   \
    }
FIELDS(t::padded, v.a, v.b);
FIELDS(t::packed, v.a, v.b);
FIELDS(t::deep, v.a, v.b);
FIELDS(t::nothing, );
FIELDS(t::hidden_gap, v.a, v.b);
FIELDS(t::custom_inside, v.a, v.b[0], v.b[1]);
template <>
struct M<t::custom>
{
    static t::custom gen(G & g)
    {
        auto a = M<std::uint8_t>::gen(g);
        return {a, M<std::uint8_t>::gen(g)};
    }
    static void enc(Enc & e, const t::custom & v)
    {
        e.number(v.b, 1);
        e.number(v.a, 1);
        e.varint(5);
    }
    static std::errc dec(Dec & d, t::custom & v)
    {
        std::uint64_t a, b, c;
        if (d.number(b, 1) != std::errc{} || d.number(a, 1) != std::errc{}) {
            return std::errc::result_out_of_range;
        }
        v = {std::uint8_t(a), std::uint8_t(b)};
        return d.varint(c, 32);
    }
    static bool eq(const t::custom & a, const t::custom & b)
    {
        return a.a == b.a && a.b == b.b;
    }
};
template <>
struct M<t::custom_by_function>
{
    static t::custom_by_function gen(G & g)
    {
        return {M<std::uint16_t>::gen(g)};
    }
    static void enc(Enc & e, const t::custom_by_function & v)
    {
        e.number(v.a / 256, 1);
        e.number(v.a % 256, 1);
    }
    static std::errc dec(Dec & d, t::custom_by_function & v)
    {
        std::uint64_t a, b;
        if (d.number(b, 1) != std::errc{} || d.number(a, 1) != std::errc{}) {
            return std::errc::result_out_of_range;
        }
        v.a = std::uint16_t(b * 256 + a);
        return {};
    }
    static bool eq(const t::custom_by_function & a, const t::custom_by_function & b)
    {
        return a.a == b.a;
    }
};
template <>
struct M<t::empty_custom>
{
    static t::empty_custom gen(G &)
    {
        return {};
    }
    static void enc(Enc & e, const t::empty_custom &)
    {
        e.number(0x42, 1);
    }
    static std::errc dec(Dec & d, t::empty_custom &)
    {
        std::uint64_t a;
        return d.number(a, 1);
    }
    static bool eq(const t::empty_custom &, const t::empty_custom &)
    {
        return true;
    }
};
template <>
struct M<t::message>
{
    static t::message gen(G & g)
    {
        auto a = M<std::uint32_t>::gen(g);
        return {a, M<std::uint32_t>::gen(g)};
    }
    static void enc(Enc & e, const t::message & v)
    {
        e.count(10);
        auto field = [&](unsigned tag, std::uint32_t n) {
            e.out.push_back(std::byte(tag));
            for (int i = 0; i < 4; ++i) {
                e.out.push_back(std::byte(n >> (8 * i)));
            }
        };
        field(0x0d, v.a);
        field(0x15, v.b);
    }
    static std::errc dec(Dec & d, t::message & v)
    {
        // Complete messages written by `enc` only.
        std::uint64_t n;
        if (auto e = d.count(n); e != std::errc{}) {
            return e;
        }
        if (d.left() < n) {
            return std::errc::result_out_of_range;
        }
        auto word = [&](std::size_t at) {
            std::uint32_t w = 0;
            for (std::size_t i = 0; i < 4; ++i) {
                w |= std::uint32_t(d.data[d.pos + at + i]) << (8 * i);
            }
            return w;
        };
        v = {word(1), word(6)};
        d.pos += 10;
        return {};
    }
    static bool eq(const t::message & a, const t::message & b)
    {
        return a.a == b.a && a.b == b.b;
    }
};
} // namespace model

namespace c13
{
// Two and three members, counted by the library and by the class.
template <typename A, typename B>
struct two
{
    A a;
    B b;
};
template <typename A, typename B>
struct told_two
{
    using serialize = zb::members<2>;
    A a;
    B b;
};
template <typename A, typename B, typename C>
struct three
{
    A a;
    B b;
    C c;
};
template <typename A, typename B>
struct squeezed
{
    using serialize = zb::members<2>;
    [[no_unique_address]] A a;
    [[no_unique_address]] B b;
};
template <typename A, typename B>
struct alignas(16) aligned
{
    using serialize = zb::members<2>;
    A a;
    B b;
};
#pragma pack(push, 1)
template <typename A, typename B>
struct tight
{
    using serialize = zb::members<2>;
    A a;
    B b;
};
#pragma pack(pop)
} // namespace c13
namespace model
{
#define FIELDS2(name)                                                                                                  \
    template <typename A, typename B>                                                                                  \
    struct Fields<c13::name<A, B>>                                                                                     \
    {                                                                                                                  \
        static auto get(auto & v) { return std::tie(v.a, v.b); }                                                       \
    }
FIELDS2(two);
FIELDS2(told_two);
FIELDS2(squeezed);
FIELDS2(aligned);
template <typename A, typename B, typename C>
struct Fields<c13::three<A, B, C>>
{
    static auto get(auto & v) { return std::tie(v.a, v.b, v.c); }
};
} // namespace model

namespace c13
{
template <typename T>
struct named
{
    using type = T;
    const char * name;
};
template <typename... T>
struct list
{
    std::tuple<named<T>...> names;
};

constexpr auto alphabet = std::tuple{
    named<std::uint8_t>{"u8"},
    named<std::uint16_t>{"u16"},
    named<std::uint32_t>{"u32"},
    named<std::uint64_t>{"u64"},
    named<std::byte>{"byte"},
    named<t::e16>{"enum"},
    named<t::padded>{"padded"},
    named<t::packed>{"packed"},
    named<t::deep>{"deep"},
    named<t::hidden_gap>{"hidden gap"},
    named<t::nothing>{"nothing"},
    named<t::custom>{"custom"},
    named<t::custom_by_function>{"custom by function"},
    named<t::custom_inside>{"custom inside"},
    named<t::empty_custom>{"empty custom"},
    named<t::message>{"message"},
    named<std::array<std::uint16_t, 2>>{"u16[2]"},
    named<std::array<std::uint8_t, 2>>{"u8[2]"},
    named<std::array<t::custom, 2>>{"custom[2]"},
    named<std::array<t::padded, 2>>{"padded[2]"},
    named<double>{"double"},
    named<bool>{"bool"},
    named<std::optional<std::uint16_t>>{"optional"},
    named<std::string>{"string"},
    named<std::unique_ptr<std::uint16_t>>{"unique_ptr"},
    named<zb::vuint32_t>{"varint"},
    named<std::bitset<16>>{"bitset"},
    named<std::tuple<std::uint8_t, std::uint16_t>>{"tuple"},
    named<std::pair<std::uint16_t, std::uint16_t>>{"pair"},
    named<std::variant<std::uint16_t, std::uint8_t>>{"variant"}};
constexpr auto few = std::tuple{named<std::uint8_t>{"u8"},
                                named<std::uint16_t>{"u16"},
                                named<std::uint32_t>{"u32"},
                                named<t::padded>{"padded"},
                                named<t::packed>{"packed"},
                                named<t::custom>{"custom"},
                                named<t::nothing>{"nothing"},
                                named<t::message>{"message"}};
template <typename... T>
std::tuple<T...> types_of(const std::tuple<named<T>...> &);

template <typename A>
constexpr bool is_optional = requires(A a) { a.has_value(); };

// Calls f with every element of the list whose index is `part` modulo `parts`.
template <std::size_t Parts, std::size_t Part, typename L, typename F>
void some_of(const L & l, F f)
{
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        (
            [&] {
                if constexpr (I % Parts == Part) {
                    f(std::get<I>(l));
                }
            }(),
            ...);
    }(std::make_index_sequence<std::tuple_size_v<L>>{});
}

#if PART >= 8 && PART < 16
[[maybe_unused]] static bool added = [] {
    std::vector<entry> singles, pairs, triples;
    some_of<8, PART - 8>(alphabet, [&]<typename A>(named<A> a) {
        add_all<A, true>(singles, a.name);
        singles.push_back(one<viewed<A>>(std::string("view of ") + a.name));
        if constexpr (!zb::concepts::byte_type<A>) {
            singles.push_back(one<spanned<A>>(std::string("span of ") + a.name));
        }
        some_of<1, 0>(alphabet, [&]<typename B>(named<B> b) {
            auto n = mc::format("class of %s and %s", a.name, b.name);
            constexpr bool rich = std::is_trivially_copyable_v<A> && std::is_trivially_copyable_v<B>;
            if constexpr (is_optional<A> || is_optional<B>) {
                pairs.push_back(one<told_two<A, B>>(n));
            } else {
                pairs.push_back(one<two<A, B>>(n));
            }
            if constexpr (rich) {
                pairs.push_back(one<std::vector<told_two<A, B>>>("vector of " + n));
            }
        });
    });
    some_of<8, PART - 8>(few, [&]<typename A>(named<A> a) {
        some_of<1, 0>(few, [&]<typename B>(named<B> b) {
            some_of<1, 0>(few, [&]<typename C>(named<C> c) {
                triples.push_back(one<three<A, B, C>>(mc::format("class of %s, %s and %s", a.name, b.name, c.name)));
            });
            auto n = mc::format("class of %s and %s", a.name, b.name);
            if constexpr (!std::is_empty_v<A> || !std::is_empty_v<B>) {
                pairs.push_back(one<in_class<squeezed<A, B>>>("array of squeezed " + n));
            }
            pairs.push_back(one<in_class<aligned<A, B>>>("array of aligned " + n));
        });
    });
    add_scenario(mc::format("types %d", PART), std::move(singles));
    add_scenario(mc::format("pairs %d", PART), std::move(pairs));
    add_scenario(mc::format("triples %d", PART), std::move(triples));
    return true;
}();
#endif
} // namespace c13
#if PART == 16
// ---------------------------------------------------------------- odd classes
namespace t
{
struct refers
{
    using serialize = zb::members<1>;
    std::uint64_t & a;
};
struct reference
{
    std::uint64_t v;
    constexpr static auto serialize(auto & archive, auto & self)
    {
        refers r{const_cast<std::uint64_t &>(self.v)};
        return archive(r);
    }
};
struct two_references
{
    std::uint32_t v;
    std::uint64_t w;
    struct both
    {
        using serialize = zb::members<2>;
        std::uint32_t & a;
        std::uint64_t & b;
    };
    constexpr static auto serialize(auto & archive, auto & self)
    {
        both r[1] = {{const_cast<std::uint32_t &>(self.v), const_cast<std::uint64_t &>(self.w)}};
        return archive(r);
    }
};
// Trivially copyable views inside of classes.
struct text_view
{
    std::string v;
    std::uint64_t w;
    struct view
    {
        std::string_view s;
        std::uint64_t n;
    };
    constexpr static auto serialize(auto & archive, auto & self)
    {
        std::vector<view> two(2, view{self.v, self.w});
        std::array<view, 1> one{view{self.v, self.w}};
        return archive(view{self.v, self.w}, two, one);
    }
};
struct number_view
{
    std::array<std::uint32_t, 3> v;
    struct view
    {
        using serialize = zb::members<2>;
        std::span<const std::uint32_t> s;
        std::span<const std::uint32_t, 2> t;
    };
    constexpr static auto serialize(auto & archive, auto & self)
    {
        view x[2] = {{self.v, std::span<const std::uint32_t, 2>(self.v.data() + 1, 2)},
                     {std::span<const std::uint32_t>(), std::span<const std::uint32_t, 2>(self.v.data(), 2)}};
        return archive(x, std::vector<std::span<const std::uint32_t>>(2, self.v));
    }
};
// Only their base has members.
struct from_padded : padded
{
    using serialize = zb::members<2>;
    bool operator==(const from_padded &) const = delete;
};
struct from_packed : packed
{
    using serialize = zb::members<2>;
};
struct from_nothing : nothing
{
    using serialize = zb::members<2>;
    std::uint16_t a;
    std::uint16_t b;
};
// Arrays of arrays.
struct grids
{
    using serialize = zb::members<4>;
    std::uint16_t a[2][2];
    padded b[2][2];
    custom c[2][1];
    std::array<std::array<packed, 2>, 1> d[1];
};
struct words_grid
{
    using serialize = zb::members<1>;
    std::uint32_t a[2][3];
};
struct constant
{
    using serialize = zb::members<2>;
    const std::uint16_t a;
    const std::uint16_t b;
};
struct constants
{
    std::uint16_t a, b;
    constexpr static auto serialize(auto & archive, auto & self)
    {
        constant x[2] = {{self.a, self.b}, {self.b, self.a}};
        return archive(x);
    }
};
// Containers and optionals with their storage inside, which are aggregates.
template <typename E>
struct inline_vector
{
    using value_type = E;
    using iterator = E *;
    using const_iterator = const E *;
    std::uint16_t n{};
    std::array<E, 4> d{};
    std::size_t size() const { return n; }
    E * begin() { return d.data(); }
    E * end() { return d.data() + n; }
    const E * begin() const { return d.data(); }
    const E * end() const { return d.data() + n; }
    E * data() { return d.data(); }
    const E * data() const { return d.data(); }
    E & operator[](std::size_t i) { return d[i]; }
    const E & operator[](std::size_t i) const { return d[i]; }
    void resize(std::size_t count) { n = std::uint16_t(std::min<std::size_t>(count, 4)); }
    void clear() { n = 0; }
    void push_back(const E & e) { d[n++] = e; }
};
template <typename E>
struct inline_optional
{
    E v{};
    E filled{};
    bool has_value() const { return filled; }
    explicit operator bool() const { return filled; }
    E & operator*() { return v; }
    const E & operator*() const { return v; }
    E & value() { return v; }
    const E & value() const { return v; }
    inline_optional & operator=(std::nullopt_t)
    {
        v = filled = {};
        return *this;
    }
    inline_optional & operator=(E e)
    {
        v = e;
        filled = 1;
        return *this;
    }
    void reset() { v = filled = {}; }
};
// Described by functions, inside of others.
struct told
{
    told() = default;
    std::uint8_t a;
    std::uint16_t b;
};
auto serialize(const told &) -> zb::members<2>;
struct told_packed
{
    told_packed() = default;
    std::uint16_t a;
    std::uint16_t b;
};
auto serialize(const told_packed &) -> zb::members<2>;
struct holds_told
{
    told a;
    told_packed b;
};
struct holds_packed
{
    told_packed a;
    std::uint32_t b;
};
class hidden
{
    friend zb::access;
    friend model::Fields<hidden>;
    std::uint16_t a{};
    std::uint16_t b{};

public:
    using serialize = zb::members<2>;
};
struct holds_hidden
{
    hidden a;
    std::uint32_t b;
};
// Nine levels of classes.
template <int N>
struct level
{
    level<N - 1> a;
    std::uint32_t b;
};
template <>
struct level<0>
{
    std::uint32_t b;
};
template <int N>
struct gap_level
{
    gap_level<N - 1> a;
    std::uint32_t b;
};
template <>
struct gap_level<0>
{
    std::uint32_t b;
    std::uint8_t c;
};
template <int N>
struct custom_level
{
    custom_level<N - 1> a;
    std::uint16_t b;
};
template <>
struct custom_level<0>
{
    custom b;
};
} // namespace t

namespace model
{
template <typename T>
struct write_only_model
{
    using write_only = void;
};
template <typename E>
struct M<t::inline_vector<E>> : M<std::vector<E>>
{
    using T = t::inline_vector<E>;
    using base = M<std::vector<E>>;
    static std::vector<E> list(const T & v)
    {
        return {v.begin(), v.end()};
    }
    static T gen(G & g)
    {
        static constexpr std::size_t counts[] = {2, 0, 1, 4};
        auto n = counts[g.deviate(4, "count")];
        T v;
        while (v.size() < n) {
            v.push_back(M<E>::gen(g));
        }
        v.d[3] = n < 4 ? E(0xa5) : v.d[3]; // not to be written
        return v;
    }
    static void enc(Enc & e, const T & v)
    {
        base::enc(e, list(v));
    }
    static std::errc dec(Dec & d, T & v)
    {
        auto l = list(v);
        auto r = base::dec(d, l);
        v.clear();
        for (auto & x : l) {
            v.push_back(x);
        }
        return r;
    }
    static bool eq(const T & a, const T & b)
    {
        return list(a) == list(b);
    }
};
template <typename E>
struct M<t::inline_optional<E>> : M<std::optional<E>>
{
    using T = t::inline_optional<E>;
    using base = M<std::optional<E>>;
    static std::optional<E> same(const T & v)
    {
        return v ? std::optional<E>(*v) : std::nullopt;
    }
    static T gen(G & g)
    {
        T v;
        if (auto x = base::gen(g)) {
            v = *x;
        }
        return v;
    }
    static void enc(Enc & e, const T & v)
    {
        base::enc(e, same(v));
    }
    static std::errc dec(Dec & d, T & v)
    {
        auto x = same(v);
        auto r = base::dec(d, x);
        v.reset();
        if (x) {
            v = *x;
        }
        return r;
    }
    static bool eq(const T & a, const T & b)
    {
        return same(a) == same(b);
    }
};
FIELDS(t::reference, v.v);
FIELDS(t::two_references, v.v, v.w);
FIELDS(t::from_padded, v.a, v.b);
FIELDS(t::from_packed, v.a, v.b);
FIELDS(t::from_nothing, v.a, v.b);
FIELDS(t::grids, v.a[0][0], v.a[0][1], v.a[1][0], v.a[1][1], v.b[0][0], v.b[0][1], v.b[1][0], v.b[1][1], v.c[0][0], v.c[1][0], v.d[0][0][0], v.d[0][0][1]);
FIELDS(t::words_grid, v.a[0][0], v.a[0][1], v.a[0][2], v.a[1][0], v.a[1][1], v.a[1][2]);
FIELDS(t::told, v.a, v.b);
FIELDS(t::told_packed, v.a, v.b);
FIELDS(t::holds_told, v.a, v.b);
FIELDS(t::holds_packed, v.a, v.b);
FIELDS(t::hidden, v.a, v.b);
FIELDS(t::holds_hidden, v.a, v.b);
FIELDS(t::level<0>, v.b);
FIELDS(t::gap_level<0>, v.b, v.c);
FIELDS(t::custom_level<0>, v.b);
template <int N>
struct Fields<t::level<N>>
{
    static auto get(auto & v) { return std::tie(v.a, v.b); }
};
template <int N>
struct Fields<t::gap_level<N>>
{
    static auto get(auto & v) { return std::tie(v.a, v.b); }
};
template <int N>
struct Fields<t::custom_level<N>>
{
    static auto get(auto & v) { return std::tie(v.a, v.b); }
};
template <>
struct M<t::text_view> : write_only_model<t::text_view>
{
    static t::text_view gen(G & g)
    {
        auto s = M<std::string>::gen(g);
        return {s, M<std::uint64_t>::gen(g)};
    }
    static void enc(Enc & e, const t::text_view & v)
    {
        auto one = [&] {
            M<std::string>::enc(e, v.v);
            e.number(v.w, 8);
        };
        one();
        e.count(2);
        one();
        one();
        one();
    }
};
template <>
struct M<t::number_view> : write_only_model<t::number_view>
{
    using A = std::array<std::uint32_t, 3>;
    static t::number_view gen(G & g)
    {
        return {M<A>::gen(g)};
    }
    static void enc(Enc & e, const t::number_view & v)
    {
        auto all = [&] {
            e.count(3);
            M<A>::enc(e, v.v);
        };
        all();
        e.number(v.v[1], 4);
        e.number(v.v[2], 4);
        e.count(0);
        e.number(v.v[0], 4);
        e.number(v.v[1], 4);
        e.count(2);
        all();
        all();
    }
};
template <>
struct M<t::constants> : write_only_model<t::constants>
{
    static t::constants gen(G & g)
    {
        auto a = M<std::uint16_t>::gen(g);
        return {a, M<std::uint16_t>::gen(g)};
    }
    static void enc(Enc & e, const t::constants & v)
    {
        for (auto n : {v.a, v.b, v.b, v.a}) {
            e.number(n, 2);
        }
    }
};
} // namespace model
namespace c13
{
[[maybe_unused]] static bool added = [] {
    std::vector<entry> l;
    l.push_back(one<t::reference>("reference"));
    l.push_back(one<t::two_references>("two references"));
    l.push_back(one<t::text_view>("string view"));
    l.push_back(one<t::number_view>("span"));
    l.push_back(one<t::constants>("constants"));
    add_all<t::from_padded, true>(l, "derived from padded");
    add_all<t::from_packed, true>(l, "derived from packed");
    add_all<t::from_nothing, true>(l, "derived from nothing");
    add_all<t::grids, true>(l, "grids");
    add_all<t::words_grid, true>(l, "grid of words");
    add_all<t::inline_vector<std::uint16_t>, true>(l, "inline vector");
    add_all<t::inline_vector<std::byte>, true>(l, "inline vector of bytes");
    add_all<t::inline_optional<std::uint32_t>, true>(l, "inline optional");
    add_all<t::inline_optional<std::uint8_t>, true>(l, "inline optional byte");
    add_all<t::told, true>(l, "described by a function");
    add_all<t::told_packed, true>(l, "packed, described by a function");
    add_all<t::holds_told, true>(l, "holds some described by a function");
    add_all<t::holds_packed, true>(l, "holds packed, described by a function");
    add_all<t::hidden, true>(l, "private members");
    add_all<t::holds_hidden, true>(l, "holds private members");
    add_all<t::level<9>, true>(l, "nine levels");
    add_all<t::gap_level<9>, true>(l, "nine levels above a gap");
    add_all<t::custom_level<9>, true>(l, "nine levels above a custom class");
    add_scenario("odd classes", std::move(l), 1);
    return true;
}();
} // namespace c13
#endif
#endif
