// C25: the same writes and reads through every kind of buffer and archive.
// PART = byte type * 6 + options
#include "kit.hpp"
#include <memory_resource>
#include <string_view>

using namespace kit;

#define BYTE (PART / 6)
#define OPTIONS (PART % 6)

namespace
{
#if BYTE == 0
using B = std::byte;
constexpr const char * byte_name = "std::byte";
#elif BYTE == 1
using B = char;
constexpr const char * byte_name = "char";
#else
using B = unsigned char;
constexpr const char * byte_name = "unsigned char";
#endif

// The options, for input and output.
#if OPTIONS == 0
#define OPTS
#define MORE_OPTS
constexpr const char * options_name = "no options";
#elif OPTIONS == 1
#define OPTS zb::endian::big{}
constexpr const char * options_name = "big endian";
#elif OPTIONS == 2
#define OPTS zb::size1b{}
constexpr const char * options_name = "size1b";
#elif OPTIONS == 3
#define OPTS zb::endian::swapped{}, zb::size_varint{}
constexpr const char * options_name = "swapped, size_varint";
#elif OPTIONS == 4
#define OPTS zb::size8b{}, zb::alloc_limit<100>{}
constexpr const char * options_name = "size8b, alloc_limit 100";
#else
#define OPTS zb::endian::little{}, zb::size2b{}, zb::exact_enlarger{}, zb::no_enlarge_overflow{}
constexpr const char * options_name = "little endian, size2b, exact_enlarger";
#endif

struct agg { std::uint8_t a; std::string b; std::uint64_t c; };
struct packed { std::uint16_t a; std::uint16_t b; bool operator==(const packed &) const = default; };
struct msg
{
    zb::vint32_t a;
    std::string b;
    std::vector<zb::vuint64_t> c;
    using serialize = zb::protocol<zb::pb{}, 3>;
    bool operator==(const msg &) const = default;
};
enum class color : std::uint16_t { red = 0x8001, green = 7 };
} // namespace
namespace model
{
template <>
struct Fields<agg>
{
    static auto get(agg & s) { return std::tie(s.a, s.b, s.c); }
};
template <>
struct Fields<packed>
{
    static auto get(packed & s) { return std::tie(s.a, s.b); }
};
} // namespace model

namespace
{
using types = std::tuple<std::uint8_t, char, std::int32_t, double, bool, zb::vuint32_t, zb::vsint64_t, zb::vint32_t,
                         std::string, std::u16string, std::vector<std::uint16_t>, std::vector<unsigned char>, std::vector<std::byte>,
                         std::map<std::uint8_t, std::string>, std::optional<std::uint32_t>, std::variant<std::uint8_t, std::string>,
                         std::unique_ptr<std::uint16_t>, std::bitset<12>, std::tuple<std::uint8_t, std::string>, agg,
                         std::array<packed, 2>, std::vector<packed>, std::array<std::string, 2>>;
constexpr std::size_t n_types = std::tuple_size_v<types>;
constexpr std::size_t n_ops = n_types + 6;

struct op
{
    std::size_t kind;
    std::shared_ptr<void> value;
    bytes_t raw; // for the views
};

using model::G;

template <std::size_t I = 0>
std::shared_ptr<void> make_value(std::size_t kind)
{
    if constexpr (I == n_types) {
        return {};
    } else {
        if (kind == I) {
            using T = std::tuple_element_t<I, types>;
            G g;
            g.big = 1;
            return std::make_shared<T>(M<T>::gen(g));
        }
        return make_value<I + 1>(kind);
    }
}

op make_op(std::size_t kind)
{
    op o{kind, nullptr, {}};
    if (kind < n_types) {
        o.value = make_value(kind);
        return o;
    }
    auto n = (mc::deviate(4, "size") + 2) % 4;
    static constexpr std::size_t sizes[] = {0, 1, 3, 130};
    for (std::size_t i = 0; i < sizes[n]; ++i) {
        o.raw.push_back(std::byte(i % 3 == 0 ? 0xff - i : i % 3 == 1 ? 0x80 : i));
    }
    if (kind == n_types + 4) { // protocol buffers
        msg m{int(n) - 2, std::string(sizes[n], '\xfe'), {}};
        for (std::size_t i = 0; i < n; ++i) {
            m.c.push_back(std::uint64_t(1) << (20 * i));
        }
        o.value = std::make_shared<msg>(m);
    }
    return o;
}

template <typename Archive>
using byte_of = std::remove_cvref_t<decltype(*std::declval<Archive &>().data().data())>;

template <typename X>
std::vector<X> as(const bytes_t & b)
{
    std::vector<X> v(b.size());
    if (!b.empty()) {
        std::memcpy(v.data(), b.data(), b.size());
    }
    return v;
}
template <typename R>
bytes_t back(const R & r)
{
    return bytes_t(reinterpret_cast<const std::byte *>(r.data()), reinterpret_cast<const std::byte *>(r.data()) + r.size());
}

template <typename Out, std::size_t... I>
std::errc write_typed(Out & out, const op & o, std::index_sequence<I...>)
{
    static constexpr std::errc (*table[])(Out &, const void *){
        +[](Out & out, const void * v) -> std::errc { return out(*static_cast<const std::tuple_element_t<I, types> *>(v)); }...};
    return table[o.kind](out, o.value.get());
}

template <typename Out>
std::errc write(Out & out, const op & o)
{
    if (o.kind < n_types) {
        return write_typed(out, o, std::make_index_sequence<n_types>());
    }
    auto own = as<byte_of<Out>>(o.raw);
    switch (o.kind - n_types) {
    case 0: return out(std::span<const byte_of<Out>>(own));
    case 1: return out(zb::unsized(std::span<byte_of<Out>>(own)));
    case 2: return out(own);
    case 3: {
        std::array<unsigned char, 3> p{1, static_cast<unsigned char>(o.raw.size()), 0xff};
        return out(zb::bytes(p));
    }
    case 4: return out(*static_cast<const msg *>(o.value.get()));
    default: return out(std::uint16_t(o.raw.size()), own, zb::vuint32_t(std::uint32_t(o.raw.size() * 3)));
    }
}

template <typename In, std::size_t... I>
std::errc read_typed(In & in, const op & o, bool & same, std::index_sequence<I...>)
{
    static constexpr std::errc (*table[])(In &, const void *, bool &){
        +[](In & in, const void * v, bool & same) -> std::errc {
            using T = std::tuple_element_t<I, types>;
            T w = model::fresh_of<T>();
            std::errc e = in(w);
            if constexpr (std::same_as<T, bool>) {
                // Reading a byte which is no bool is C03's business.
                unsigned char raw;
                std::memcpy(&raw, &w, 1);
                same = e != std::errc{} || raw == (*static_cast<const T *>(v) ? 1 : 0);
            } else {
                same = e != std::errc{} || M<T>::eq(*static_cast<const T *>(v), w);
            }
            return e;
        }...};
    return table[o.kind](in, o.value.get(), same);
}

template <typename In>
std::errc read(In & in, const op & o, bool & same)
{
    same = true;
    if (o.kind < n_types) {
        return read_typed(in, o, same, std::make_index_sequence<n_types>());
    }
    std::errc e{};
    switch (o.kind - n_types) {
    case 0: {
        std::span<const byte_of<In>> v;
        e = in(v);
        same = e != std::errc{} || back(v) == o.raw;
        break;
    }
    case 1: {
        std::vector<byte_of<In>> v(o.raw.size());
        e = in(zb::unsized(v));
        same = e != std::errc{} || back(v) == o.raw;
        break;
    }
    case 2: {
        std::vector<byte_of<In>> v;
        e = in(v);
        same = e != std::errc{} || back(v) == o.raw;
        break;
    }
    case 3: {
        std::array<unsigned char, 3> p{};
        e = in(zb::bytes(p));
        same = e != std::errc{} || p == std::array<unsigned char, 3>{1, static_cast<unsigned char>(o.raw.size()), 0xff};
        break;
    }
    case 4: {
        msg m;
        e = in(m);
        same = e != std::errc{} || m == *static_cast<const msg *>(o.value.get());
        break;
    }
    default: {
        std::uint16_t a{};
        std::vector<byte_of<In>> v;
        zb::vuint32_t c{};
        e = in(a, v, c);
        same = e != std::errc{} || (a == o.raw.size() && back(v) == o.raw && c == o.raw.size() * 3);
    }
    }
    return e;
}

struct history
{
    std::vector<std::errc> verdicts;
    std::vector<std::size_t> positions;
    std::vector<bool> same;
    bytes_t bytes; // processed
    std::size_t size{};
    bool operator==(const history &) const = default;
    std::string text() const
    {
        std::string s;
        for (std::size_t i = 0; i < verdicts.size(); ++i) {
            s += show(verdicts[i]) + " at " + std::to_string(positions[i]) + (i < same.size() && !same[i] ? " (another value)" : "") + ", ";
        }
        return s + "size " + std::to_string(size) + ", bytes " + show(bytes);
    }
};

// What every archive can tell about its buffer.
template <typename A>
bool consistent(A & archive)
{
    auto position = archive.position();
    const A & constant = archive;
    auto done = archive.processed_data();
    auto rest = archive.remaining_data();
    auto && all = archive.data();
    return constant.position() == position && done.size() == position && position <= std::size_t(all.size()) &&
           rest.size() == std::size_t(all.size()) - position && done.data() == all.data() && rest.data() == all.data() + position &&
           sizeof(*done.data()) == 1;
}

template <typename Out>
history write_all(Out & out, const std::vector<op> & trace)
{
    history h;
    for (auto & o : trace) {
        h.verdicts.push_back(write(out, o));
        h.positions.push_back(out.position());
        mc::step();
        mc::require(consistent(out), "views", "position(), data(), processed_data() and remaining_data() disagree");
        if (h.verdicts.back() != std::errc{}) {
            break;
        }
    }
    h.bytes = back(out.processed_data());
    h.size = out.data().size();
    return h;
}
template <typename In>
history read_all(In & in, const std::vector<op> & trace)
{
    history h;
    for (auto & o : trace) {
        bool same = true;
        h.verdicts.push_back(read(in, o, same));
        h.positions.push_back(in.position());
        h.same.push_back(same);
        mc::step();
        mc::require(consistent(in), "views", "position(), data(), processed_data() and remaining_data() disagree");
        if (h.verdicts.back() != std::errc{}) {
            break;
        }
    }
    h.size = in.data().size();
    return h;
}

void same(const history & want, const history & got, const char * how)
{
    mc::case_done();
    mc::require(want == got, how, [&] {
        return mc::format("%s of %s (%s): ", how, byte_name, options_name) + got.text() + "; a vector or span of std::byte: " + want.text();
    });
}

// A resizable container and a view of the user.
template <typename X>
struct rope
{
    using value_type = X;
    rope() = default;
    explicit rope(std::size_t n) : v(n) {}
    X * data() { return v.data(); }
    const X * data() const { return v.data(); }
    std::size_t size() const { return v.size(); }
    X & operator[](std::size_t i) { return v[i]; }
    const X & operator[](std::size_t i) const { return v[i]; }
    void resize(std::size_t n) { v.resize(n); }
    auto begin() { return v.begin(); }
    auto end() { return v.end(); }
    auto begin() const { return v.begin(); }
    auto end() const { return v.end(); }
    std::vector<X> v;
};
// Not resizable.
template <typename X>
struct window
{
    using value_type = std::remove_cv_t<X>;
    X * p{};
    std::size_t n{};
    X * data() const { return p; }
    std::size_t size() const { return n; }
    X & operator[](std::size_t i) const { return p[i]; }
    X * begin() const { return p; }
    X * end() const { return p + n; }
};

std::vector<op> choose_trace(std::size_t length)
{
    std::vector<op> trace;
    for (std::size_t i = 0; i < length; ++i) {
        // What follows the first item matters less.
        static constexpr std::size_t few[] = {5, 8, 11, 13, n_types, n_types + 5};
        auto kind = i && !mc::thorough() ? few[mc::choose(std::size(few), "item")] : mc::choose(n_ops, "item");
        mc::note([&] { return mc::format("item %zu", kind); });
        trace.push_back(make_op(kind));
    }
    return trace;
}

// Options as trailing arguments.
#if OPTIONS == 0
#define WITH(...) __VA_ARGS__
#else
#define WITH(...) __VA_ARGS__, OPTS
#endif
// Hostile inputs.
#if OPTIONS == 4
#define FROM(...) __VA_ARGS__, OPTS
#define FROM_OPTS OPTS
#elif OPTIONS == 0
#define FROM(...) __VA_ARGS__, zb::alloc_limit<65536>{}
#define FROM_OPTS zb::alloc_limit<65536>{}
#else
#define FROM(...) __VA_ARGS__, OPTS, zb::alloc_limit<65536>{}
#define FROM_OPTS OPTS, zb::alloc_limit<65536>{}
#endif

std::size_t length()
{
    // Single items with more of their values, pairs with fewer.
    auto n = 1 + mc::choose(2, "length");
    mc::bound(mc::thorough() ? 3 - int(n) : 2 - int(n));
    return n;
}

void growing()
{
    auto trace = choose_trace(length());
    bytes_t b;
    history want;
    {
        zb::out out{WITH(b)};
        want = write_all(out, trace);
        mc::require(b.size() == out.position(), "size", "the buffer is not as long as what was written");
    }
    mc::state(mc::hash_bytes(b.data(), b.size()));
    mc::outcome(mc::hash_bytes(b.data(), b.size()));
    {
        std::vector<B> v;
        zb::out out{WITH(v)};
        same(want, write_all(out, trace), "out of vector");
    }
    {
        std::vector<B> v;
        auto out = zb::output(WITH(v));
        same(want, write_all(out, trace), "output of vector");
    }
    {
        std::vector<B> v;
        auto [in, out] = zb::in_out(WITH(v));
        same(want, write_all(out, trace), "in_out of vector");
        auto read = read_all(in, trace);
        mc::require(!(want.verdicts.back() == std::errc{}) || read.verdicts == want.verdicts, "in_out of vector", "reading back failed");
        mc::require(want.verdicts.back() != std::errc{} || std::find(read.same.begin(), read.same.end(), false) == read.same.end(), "in_out of vector", "reading back gave another value");
    }
    {
        auto [data, in, out] = zb::data_in_out<B>(OPTS);
        static_assert(std::same_as<std::remove_cvref_t<decltype(data)>, std::vector<B>>);
        same(want, write_all(out, trace), "data_in_out");
        mc::require(data.size() == out.position(), "data_in_out", "the data is not what was written");
        auto read = read_all(in, trace);
        mc::require(!(want.verdicts.back() == std::errc{}) || read.verdicts == want.verdicts, "data_in_out", "reading back failed");
        mc::require(want.verdicts.back() != std::errc{} || std::find(read.same.begin(), read.same.end(), false) == read.same.end(), "data_in_out", "reading back gave another value");
    }
    {
        // One item after another is written and read.
        auto [data, in, out] = zb::data_in_out<B>(OPTS);
        for (auto & o : trace) {
            if (write(out, o) != std::errc{}) {
                break;
            }
            bool equal = true;
            auto e = read(in, o, equal);
            mc::step(2);
            mc::require(e == std::errc{} && equal && in.position() == out.position(), "data_in_out", "an item was not read as it was written");
        }
    }
    {
        auto [data, out] = zb::data_out<B>(OPTS);
        same(want, write_all(out, trace), "data_out");
        mc::require(back(data) == want.bytes, "data_out", "the data is not what was written");
        auto [data2, in] = zb::data_in<B>(OPTS);
        data2 = data;
        auto read = read_all(in, trace);
        mc::require(!(want.verdicts.back() == std::errc{}) || read.verdicts == want.verdicts, "data_in", "reading back failed");
        mc::require(want.verdicts.back() != std::errc{} || std::find(read.same.begin(), read.same.end(), false) == read.same.end(), "data_in", "reading back gave another value");
    }
    {
        rope<B> v;
        zb::out out{WITH(v)};
        same(want, write_all(out, trace), "out of a container of the user");
    }
    {
        std::pmr::vector<B> v;
        zb::out out{WITH(v)};
        same(want, write_all(out, trace), "out of pmr vector");
    }
#if BYTE == 1
    {
        std::string v;
        zb::out out{WITH(v)};
        same(want, write_all(out, trace), "out of string");
        mc::require(v.size() == out.position(), "out of string", "the string is not what was written");
    }
    {
        auto v = std::make_unique<std::string>();
        auto [in, out] = zb::in_out(WITH(*v));
        same(want, write_all(out, trace), "in_out of string");
        auto read = read_all(in, trace);
        mc::require(want.verdicts.back() != std::errc{} || std::find(read.same.begin(), read.same.end(), false) == read.same.end(), "in_out of string", "reading back gave another value");
    }
#endif
    {
        zb::sized_t<std::vector<B>, std::uint16_t> v;
        zb::out out{WITH(v)};
        same(want, write_all(out, trace), "out of sized vector");
    }
#if OPTIONS == 1
    {
        std::vector<B> v;
        zb::endian::big lvalue;
        zb::out out{v, lvalue};
        same(want, write_all(out, trace), "out with an option by reference");
    }
    {
        std::vector<B> v;
        zb::endian::big lvalue;
        auto [in, out] = zb::in_out(v, lvalue);
        same(want, write_all(out, trace), "in_out with an option by reference");
        auto read = read_all(in, trace);
        mc::require(want.verdicts.back() != std::errc{} || std::find(read.same.begin(), read.same.end(), false) == read.same.end(), "in_out with an option by reference", "reading back gave another value");
    }
    {
        std::vector<B> v;
        zb::out<std::vector<B>, zb::endian::network> out{v, zb::endian::network{}};
        same(want, write_all(out, trace), "out of explicit type");
    }
#endif
    // Appending, and over used bytes.
    {
        bytes_t r(7, std::byte{0x55});
        std::vector<B> v(7, B(0x55));
        zb::out first{WITH(r), zb::append{}};
        zb::out second{WITH(v), zb::append{}};
        auto w = write_all(first, trace);
        same(w, write_all(second, trace), "appending out of vector");
        if (w.verdicts.back() == std::errc{}) {
            mc::require(w.bytes == bytes_t(7, std::byte{0x55}) + want.bytes, "append", "appending writes something else");
        }
#if BYTE == 1
        std::string s(7, 0x55);
        zb::out third{WITH(s), zb::append{}};
        same(w, write_all(third, trace), "appending out of string");
#endif
        rope<B> u(7);
        std::memset(u.data(), 0x55, 7);
        zb::out fourth{WITH(u), zb::append{}};
        same(w, write_all(fourth, trace), "appending out of a container of the user");
    }
    {
        bytes_t r(300, std::byte{0xff});
        std::vector<B> v(300, B(0xff));
        zb::out first{WITH(r)};
        zb::out second{WITH(v)};
        auto w = write_all(first, trace);
        same(w, write_all(second, trace), "out of used vector");
        mc::require(OPTIONS == 4 || w.bytes == want.bytes || w.verdicts.back() != std::errc{}, "used", "over used bytes something else is written");
        mc::require(back(v) == r, "out of used vector", "the rest of the buffer differs");
    }
}

template <std::size_t N>
void fixed_arrays(const std::vector<op> & trace)
{
    std::unique_ptr<std::byte[]> heap(new std::byte[N]);
    std::memset(heap.get(), 0xc3, N);
    zb::out out{WITH(std::span<std::byte>(heap.get(), N))};
    auto want = write_all(out, trace);
    auto check = [&](auto & out, const void * data, const char * how) {
        same(want, write_all(out, trace), how);
        mc::require(!std::memcmp(data, heap.get(), N), how, "the bytes of the buffer differ");
    };
    {
        auto a = std::make_unique<std::array<B, N>>();
        std::memset(a->data(), 0xc3, N);
        zb::out out{WITH(*a)};
        check(out, a->data(), "out of array");
        std::memset(a->data(), 0xc3, N);
        auto out2 = zb::output(WITH(*a));
        check(out2, a->data(), "output of array");
        std::memset(a->data(), 0xc3, N);
        auto [in3, out3] = zb::in_out(WITH(*a));
        check(out3, a->data(), "in_out of array");
        if (want.verdicts.back() == std::errc{}) {
            auto r = read_all(in3, trace);
            mc::require(r.verdicts == want.verdicts && std::find(r.same.begin(), r.same.end(), false) == r.same.end(), "in_out of array",
                        "reading back gave something else");
        }
    }
    {
        std::unique_ptr<B[]> p(new B[N]);
        std::memset(p.get(), 0xc3, N);
        auto & c = *reinterpret_cast<B(*)[N]>(p.get());
        zb::out out{WITH(c)};
        check(out, c, "out of C array");
        std::memset(p.get(), 0xc3, N);
        std::span<B, N> s(c);
        zb::out out2{WITH(s)};
        check(out2, c, "out of span of fixed extent");
    }
}

void fixed()
{
    auto trace = choose_trace(length());
    bytes_t whole;
    {
        zb::out out{WITH(whole)};
        (void)write_all(out, trace);
    }
    mc::state(mc::hash_bytes(whole.data(), whole.size()));
    fixed_arrays<5>(trace);
    fixed_arrays<64>(trace);
    for (std::size_t n = 0; n <= whole.size() + 2; ++n) {
        if (n > 30 && n + 10 < whole.size()) {
            n = whole.size() - 10;
        }
        std::unique_ptr<std::byte[]> heap(new std::byte[n]);
        std::memset(heap.get(), 0xc3, n);
        zb::out out{WITH(std::span<std::byte>(heap.get(), n))};
        auto want = write_all(out, trace);
        mc::outcome(mc::mix(std::uint64_t(want.verdicts.back()), n));
        std::unique_ptr<B[]> other(new B[n]);
        auto check = [&](auto && out, const char * how) {
            same(want, write_all(out, trace), how);
            mc::require(!std::memcmp(other.get(), heap.get(), n), how, "the bytes of the buffer differ");
            std::memset(other.get(), 0xc3, n);
        };
        std::memset(other.get(), 0xc3, n);
        std::span<B> s(other.get(), n);
        check(zb::out{WITH(s)}, "out of span");
        check(zb::out{WITH(std::span<B>(other.get(), n))}, "out of temporary span");
        check(zb::output(WITH(s)), "output of span");
        window<B> w{other.get(), n};
        check(zb::out{WITH(w)}, "out of a view of the user");
        auto [in, out2] = zb::in_out(WITH(s));
        check(out2, "in_out of span");
        (void)in;
        // A part of a buffer.
        std::vector<B> v(n + 9, B(0xc3));
        auto part = std::span(v).subspan(4, n);
        zb::out out3{WITH(part)};
        same(want, write_all(out3, trace), "out of subspan");
        mc::require(!std::memcmp(v.data() + 4, heap.get(), n), "out of subspan", "the bytes of the buffer differ");
        for (std::size_t i = 0; i < 4; ++i) {
            mc::require(v[i] == B(0xc3) && v[n + 4 + i] == B(0xc3), "out of subspan", "bytes outside of the part were changed");
        }
    }
}

template <std::size_t N>
void source_arrays(const std::vector<op> & trace, const bytes_t & whole)
{
    bytes_t padded(whole.begin(), whole.begin() + std::ptrdiff_t(std::min(N, whole.size())));
    padded.resize(N);
    exact e(padded);
    zb::in in{FROM(e.view())};
    auto want = read_all(in, trace);
    exact o(padded);
    auto p = reinterpret_cast<B *>(o.data.get());
    auto & c = *reinterpret_cast<B(*)[N]>(p);
    const auto & cc = c;
    std::array<B, N> a;
    std::memcpy(a.data(), padded.data(), N);
    const auto ca = a;
    auto check = [&](auto && in, const char * how) { same(want, read_all(in, trace), how); };
    check(zb::in{FROM(a)}, "in of array");
    check(zb::in{FROM(ca)}, "in of constant array");
    check(zb::input(FROM(a)), "input of array");
    check(zb::in{FROM(c)}, "in of C array");
    check(zb::in{FROM(cc)}, "in of constant C array");
    check(zb::in{FROM(std::span<B, N>(c))}, "in of span of fixed extent");
    check(zb::in{FROM(std::span<const B, N>(c))}, "in of constant span of fixed extent");
}

void sources()
{
    auto trace = choose_trace(length());
    bytes_t whole;
    {
        zb::out out{WITH(whole)};
        auto w = write_all(out, trace);
        whole.resize(w.positions.back());
    }
    source_arrays<5>(trace, whole);
    source_arrays<64>(trace, whole);
    // Every cut, and one byte replaced by another near the front.
    std::vector<bytes_t> inputs;
    for (std::size_t n = 0; n <= whole.size(); ++n) {
        if (n > 20 && n + 10 < whole.size()) {
            n = whole.size() - 10;
        }
        inputs.emplace_back(whole.begin(), whole.begin() + std::ptrdiff_t(n));
    }
    for (std::size_t i = 0; i < std::min<std::size_t>(whole.size(), 9); ++i) {
        for (auto x : {0x00, 0x7f, 0x80, 0xff}) {
            auto m = whole;
            m[i] = std::byte(x);
            inputs.push_back(std::move(m));
        }
    }
    for (auto & input : inputs) {
        auto n = input.size();
        mc::state(mc::hash_bytes(input.data(), n));
        exact e(input);
        zb::in in{FROM(e.view())};
        history want;
        {
            auto limited = in;
            want = read_all(limited, trace);
        }
        mc::outcome(mc::mix(std::uint64_t(want.verdicts.back()), want.positions.back()));
        auto check = [&](auto && in, const char * how) {
            same(want, read_all(in, trace), how);
            // The same archive once more.
            in.reset();
            same(want, read_all(in, trace), how);
        };
        exact o(input);
        auto p = reinterpret_cast<B *>(o.data.get());
        auto v = as<B>(input);
        const auto cv = v;
        check(zb::in{FROM(v)}, "in of vector");
        check(zb::in{FROM(cv)}, "in of constant vector");
        check(zb::input(FROM(v)), "input of vector");
        check(zb::input(FROM(cv)), "input of constant vector");
        std::span<B> s(p, n);
        std::span<const B> cs(p, n);
        const auto css = cs;
        check(zb::in{FROM(s)}, "in of span");
        check(zb::in{FROM(cs)}, "in of span of constant bytes");
        check(zb::in{FROM(css)}, "in of constant span of constant bytes");
        check(zb::in{FROM(std::span<B>(p, n))}, "in of temporary span");
        check(zb::in{FROM(std::span<const B>(p, n))}, "in of temporary span of constant bytes");
        check(zb::input(FROM(cs)), "input of span");
        window<B> w{p, n};
        window<const B> cw{p, n};
        check(zb::in{FROM(w)}, "in of a view of the user");
        check(zb::in{FROM(cw)}, "in of a constant view of the user");
        rope<B> r;
        r.v = v;
        check(zb::in{FROM(r)}, "in of a container of the user");
        std::pmr::vector<B> pmr(v.begin(), v.end());
        check(zb::in{FROM(pmr)}, "in of pmr vector");
        zb::sized_t<std::vector<B>, std::uint16_t> sized;
        static_cast<std::vector<B> &>(sized) = v;
        check(zb::in{FROM(sized)}, "in of sized vector");
        const auto csized = sized;
        check(zb::in{FROM(csized)}, "in of constant sized vector");
        {
            auto [data, in2] = zb::data_in<B>(FROM_OPTS);
            data = v;
            check(in2, "data_in");
        }
        {
            auto [data, in2, out2] = zb::data_in_out<B>(FROM_OPTS);
            data = v;
            check(in2, "data_in_out");
            (void)out2;
        }
        {
            auto [in2, out2] = zb::in_out(FROM(v));
            check(in2, "in_out of vector");
            (void)out2;
        }
        {
            auto [in2, out2] = zb::in_out(FROM(s));
            check(in2, "in_out of span");
            (void)out2;
        }
#if BYTE == 1
        std::string text(reinterpret_cast<const char *>(input.data()), n);
        const std::string ctext = text;
        std::string_view view(p, n);
        const std::string_view cview(p, n);
        check(zb::in{FROM(text)}, "in of string");
        check(zb::in{FROM(ctext)}, "in of constant string");
        check(zb::in{FROM(view)}, "in of string_view");
        check(zb::in{FROM(cview)}, "in of constant string_view");
        check(zb::in{FROM(std::string_view(p, n))}, "in of temporary string_view");
        check(zb::input(FROM(text)), "input of string");
#endif
        mc::require(!n || (!std::memcmp(o.data.get(), input.data(), n) && back(v) == input), "input", "an input was changed");
    }
}

[[maybe_unused]] bool added = [] {
    auto name = std::string(" bytes of ") + byte_name + ", " + options_name;
    mc::add("growing" + name, growing);
    mc::add("fixed" + name, fixed);
    mc::add("sources" + name, sources);
    return true;
}();
} // namespace
