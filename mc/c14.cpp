// C14: constant evaluation and the running program agree.
//
// `run<T, Byte, Options...>(i)` does everything with the i-th value of T: all
// capacities, all truncations, all changes of a byte.  The compiler evaluates
// it for every value, and so does the program; both have to get the same
// record.
#include "record.hpp"

#include "mc.hpp"

namespace
{
struct entry
{
    std::string name;
    record (*run)(int);
    const record * table;
    int count;
};
std::vector<entry> entries;

template <typename T, typename Byte, auto... O>
struct evaluated
{
    // Each in an evaluation of its own.
    template <int I>
    static constexpr record one = run<T, Byte, O...>(I);
    static constexpr std::array table{one<0>, one<1>, one<2>, one<3>, one<4>, one<5>, one<6>, one<7>};
    static_assert(table.size() == values);
};
template <typename T, typename Byte, auto... O>
void add(const std::string & name)
{
    entries.push_back({name, run<T, Byte, O...>, evaluated<T, Byte, O...>::table.data(), values});
}

void check_entries(std::size_t first, std::size_t last)
{
    auto & e = entries[first + mc::choose(last - first, "type and options")];
    auto i = int(mc::choose(std::size_t(e.count), "value"));
    auto got = e.run(i);
    auto & want = e.table[i];
    mc::case_done(got.operations);
    mc::step(got.operations);
    mc::state(mc::mix(std::hash<std::string>{}(e.name), std::uint64_t(i)));
    mc::outcome(got.reads ^ got.written ^ got.changes);
    auto same = [&](std::uint64_t a, std::uint64_t b, const char * what) {
        mc::require(a == b, what, [&] {
            return mc::format("%s, value %d: %s differ(s) between constant evaluation and the running program", e.name.c_str(), i, what);
        });
    };
    same(got.written, want.written, "what is written");
    same(got.capacities, want.capacities, "writing to limited space");
    same(got.reads, want.reads, "reading truncated bytes");
    same(got.changes, want.changes, "reading changed bytes");
    same(got.again, want.again, "writing and reading at a position");
    mc::require(got == want, "count", "other results");
    mc::require(std::any_of(e.table, e.table + e.count, [](auto & r) { return r.operations > r.failures; }), "success", "nothing succeeds");
}
void scenario(const char * name, std::size_t first)
{
    auto last = entries.size();
    mc::add(name, [=] { check_entries(first, last); });
}

#if PART < 10
template <typename T>
void options(const std::string & n)
{
    auto first = entries.size();
    add<T, std::byte>(n);
    add<T, std::byte, zb::endian::big{}>(n + ", big endian");
    add<T, std::byte, zb::size_varint{}>(n + ", varint sizes");
    add<T, std::byte, zb::size_varint{}, zb::endian::big{}>(n + ", varint sizes, big endian");
    add<T, std::byte, zb::size1b{}>(n + ", one byte sizes");
    add<T, std::byte, zb::size2b{}, zb::endian::big{}>(n + ", two byte sizes, big endian");
    add<T, std::byte, zb::size8b{}>(n + ", eight byte sizes");
    add<T, char, zb::endian::big{}>(n + ", chars, big endian");
    add<T, unsigned char>(n + ", unsigned chars");
    auto last = entries.size();
    mc::add(n, [=] { check_entries(first, last); });
}
[[maybe_unused]] bool added = [] {
#if PART == 0
    options<bool>("bool");
    options<char>("char");
    options<std::uint8_t>("u8");
    options<std::int16_t>("i16");
    options<std::uint32_t>("u32");
    options<std::int64_t>("i64");
    options<std::uint64_t>("u64");
#elif PART == 1
    options<float>("float");
    options<double>("double");
    options<e8>("enum of a byte");
    options<e32>("enum");
    options<std::byte>("byte");
    options<char16_t>("char16");
    options<nothing>("nothing");
#elif PART == 2
    options<zb::vint32_t>("vint32");
    options<zb::vuint64_t>("vuint64");
    options<zb::vsint32_t>("vsint32");
    options<zb::vsint64_t>("vsint64");
    options<zb::varint<std::uint16_t>>("varint of 16 bit");
    options<zb::varint<e32>>("varint of an enum");
#elif PART == 3
    options<std::array<std::uint16_t, 3>>("array of u16");
    options<std::array<unsigned char, 3>>("array of bytes");
    options<packed>("packed");
    options<padded>("padded");
    options<bytes3>("three bytes");
    options<with_arrays>("with arrays");
#elif PART == 4
    options<std::optional<std::uint16_t>>("optional");
    options<std::optional<packed>>("optional class");
    options<std::tuple<std::uint8_t, std::uint32_t, zb::vint32_t>>("tuple");
    options<std::pair<std::uint16_t, std::uint8_t>>("pair");
    options<custom>("custom");
    options<closed>("private members");
#elif PART == 5
    options<std::string>("string");
    options<std::u16string>("u16string");
    options<std::vector<unsigned char>>("vector of bytes");
    options<std::vector<std::uint32_t>>("vector of u32");
#elif PART == 6
    options<std::vector<packed>>("vector of packed");
    options<std::vector<padded>>("vector of padded");
    options<std::vector<zb::vsint32_t>>("vector of varints");
    options<std::vector<std::array<std::uint16_t, 2>>>("vector of arrays");
#elif PART == 7
    options<std::vector<std::string>>("vector of strings");
    options<std::vector<std::vector<std::uint16_t>>>("vector of vectors");
    options<mixed>("mixed");
#elif PART == 8
    options<numbers>("message of numbers");
    options<text>("message with text");
    options<std::vector<text>>("vector of messages");
    options<holder>("message in a class");
#elif PART == 9
    options<message>("big message");
    options<std::optional<std::string>>("optional string");
#endif
    return true;
}();
#endif

// ---------------------------------------------------------------- lengths
#if PART == 10 || PART == 11
template <typename T, bool Far, typename Byte, auto... O>
struct long_evaluated
{
    static constexpr int count = int(Far ? std::size(far_lengths) : std::size(lengths));
    // Each in an evaluation of its own.
    template <int I>
    static constexpr record one = long_run<T, Far, Byte, O...>(I);
    static constexpr auto table = []<int... I>(std::integer_sequence<int, I...>) {
        return std::array{one<I>...};
    }(std::make_integer_sequence<int, count>{});
};
template <typename T, bool Far, typename Byte, auto... O>
void add_long(const std::string & name)
{
    using t = long_evaluated<T, Far, Byte, O...>;
    entries.push_back({name, long_run<T, Far, Byte, O...>, t::table.data(), t::count});
}
template <typename T, bool Far>
void long_options(const std::string & n)
{
    auto first = entries.size();
    add_long<T, Far, std::byte, zb::size_varint{}>(n + ", varint sizes");
    if constexpr (!Far) {
        add_long<T, Far, std::byte>(n);
        add_long<T, Far, char, zb::size_varint{}, zb::endian::big{}>(n + ", varint sizes, chars, big endian");
        add_long<T, Far, std::byte, zb::size2b{}, zb::endian::big{}>(n + ", two byte sizes, big endian");
        add_long<T, Far, std::byte, zb::size_varint{}, zb::exact_enlarger{}>(n + ", varint sizes, exact growth");
        add_long<T, Far, std::byte, zb::size_varint{}, zb::no_fit_size{}, zb::alloc_limit<300>{}>(n + ", varint sizes, limited");
    }
    scenario(("lengths: " + n).c_str(), first);
}
[[maybe_unused]] bool added = [] {
#if PART == 10
    long_options<text, false>("message");
    long_options<envelope, false>("message in a class");
    long_options<nested, false>("message in a message");
#else
    long_options<text, true>("long message");
#endif
    return true;
}();
#endif

// ---------------------------------------------------------------- objects that are not values
#if PART == 12 || PART == 13
// Each program is given a number, and gives a record.
template <auto Program>
struct program
{
    static constexpr int count = Program(-1).operations;
    template <int I>
    static constexpr record one = Program(I);
    static constexpr auto table = []<int... I>(std::integer_sequence<int, I...>) {
        return std::array{one<I>...};
    }(std::make_integer_sequence<int, count>{});
    static record run(int i)
    {
        return Program(i);
    }
};
template <auto Program>
void add_program(const char * name)
{
    auto first = entries.size();
    entries.push_back({name, program<Program>::run, program<Program>::table.data(), program<Program>::count});
    scenario(name, first);
}
[[maybe_unused]] bool added = [] {
#if PART == 12
    add_program<view_program<std::byte>>("views");
    add_program<view_program<char, zb::endian::big{}>>("views, chars, big endian");
    add_program<view_program<std::byte, zb::size_varint{}>>("views, varint sizes");
    add_program<target_program<std::byte>>("targets");
    add_program<target_program<std::byte, zb::endian::big{}>>("targets, big endian");
    add_program<target_program<unsigned char, zb::size_varint{}>>("targets, unsigned chars, varint sizes");
#elif PART == 13
    add_program<apply_program<std::byte>>("apply");
    add_program<apply_program<char, zb::endian::big{}>>("apply, chars, big endian");
    add_program<apply_program<std::byte, zb::size2b{}>>("apply, two byte sizes");
    add_program<order_program<std::byte>>("orders");
    add_program<order_program<std::byte, zb::endian::big{}>>("orders, big endian");
    add_program<order_program<char, zb::size_varint{}>>("orders, chars, varint sizes");
#endif
    return true;
}();
#endif

// ---------------------------------------------------------------- conversions of constants
#if PART == 14
using namespace zb::literals;

enum class small : std::uint8_t
{
    one = 1,
    high = 0xfe
};
struct structural
{
    std::uint8_t a;
    std::int32_t b;
    std::array<std::uint16_t, 2> c;
    constexpr bool operator==(const structural &) const = default;
};
TIE(structural, x.a, x.b, x.c)

// The bytes of a constant, and of the same object in the running program.
struct constant
{
    std::string name;
    std::vector<std::byte> evaluated;
    std::function<std::vector<std::byte>()> run;
};
std::vector<constant> constants;
template <typename... T>
std::vector<std::byte> write(const T &... x)
{
    std::vector<std::byte> data;
    zb::out out{data};
    out(x...).or_throw();
    data.resize(out.position());
    return data;
}
std::vector<std::byte> owned(const auto & a)
{
    std::vector<std::byte> r;
    for (auto b : a) {
        r.push_back(std::byte(b));
    }
    return r;
}
template <auto Bytes, std::size_t First, std::size_t Last>
void piece(const char * name)
{
    constexpr auto part = zb::slice<First, Last>(Bytes);
    constants.push_back({mc::format("%s, bytes %zu to %zu", name, First, Last), owned(part), [] {
                             std::vector<std::byte> r;
                             for (auto i = First; i < Last; ++i) {
                                 r.push_back(std::byte(Bytes[i]));
                             }
                             return r;
                         }});
}
template <auto Bytes, std::size_t First>
void pieces(const char * name)
{
    [&]<std::size_t... I>(std::index_sequence<I...>) { (piece<Bytes, First, First + 1 + I>(name), ...); }(
        std::make_index_sequence<std::min<std::size_t>(Bytes.size() - First, 6)>{});
    constexpr auto rest = zb::slice<First>(Bytes);
    constants.push_back({mc::format("%s, bytes from %zu", name, First), owned(rest), [] {
                             auto all = owned(Bytes);
                             all.erase(all.begin(), all.begin() + First);
                             return all;
                         }});
}
template <auto... X>
void same_bytes(const char * name)
{
    static constexpr auto bytes = zb::to_bytes<X...>();
    constants.push_back({name, owned(bytes), [] { return write(X...); }});
    // Each part on its own, joined.
    constexpr auto joined = zb::join<zb::to_bytes<X>()...>();
    constants.push_back({std::string(name) + ", joined", owned(joined), [] { return write(X...); }});
    // A name for it.
    if constexpr (bytes.size() != 0) {
        constexpr auto id = zb::id_v<bytes>;
        constants.push_back({std::string(name) + ", as an id", owned(zb::to_bytes<id>()), [] { return write(X...); }});
    }
    // And back.
    if constexpr (sizeof...(X) > 1) {
        static constexpr auto back = zb::from_bytes<bytes, std::remove_cv_t<decltype(X)>...>();
        constants.push_back({std::string(name) + ", and back", owned(bytes), [] { return write(back); }});
        constants.push_back({std::string(name) + ", and back at run time", owned(bytes), [] {
                                 std::tuple<std::remove_cv_t<decltype(X)>...> y;
                                 zb::in{bytes}(y).or_throw();
                                 return write(y);
                             }});
    } else if constexpr (bytes.size() != 0) {
        static constexpr auto back = zb::from_bytes<bytes, std::remove_cv_t<decltype(X)>...>();
        constants.push_back({std::string(name) + ", and back", owned(bytes), [] { return write(back); }});
    }
    [&]<std::size_t... I>(std::index_sequence<I...>) { (pieces<bytes, I>(name), ...); }(
        std::make_index_sequence<std::min<std::size_t>(bytes.size(), 6)>{});
}
// A literal is the characters between the quotes, however it is asked for them.
template <std::size_t N>
constexpr auto letters()
{
    std::array<char, N + 1> r{};
    for (std::size_t i = 0; i < N; ++i) {
        r[i] = char('a' + i % 26);
    }
    return r;
}
template <std::size_t N>
constexpr auto literal_of()
{
    char text[N + 1]{};
    auto l = letters<N>();
    std::copy(l.begin(), l.end(), text);
    return zb::string_literal(text);
}
template <std::size_t N>
constexpr auto forms_of_literal(auto & literal)
{
    std::array<char, 4 * N + 8> r{};
    std::size_t n = 0;
    auto put = [&](char c) {
        if (n < r.size()) {
            r[n] = c;
        }
        ++n;
    };
    for (auto c : literal) {
        put(c);
    }
    put('|');
    for (auto c : std::as_const(literal)) {
        put(c);
    }
    put('|');
    for (std::size_t i = 0; i < literal.size(); ++i) {
        put(literal[i]);
    }
    put('|');
    for (std::size_t i = 0; literal.data()[i]; ++i) {
        put(literal.data()[i]);
    }
    put(literal.empty() ? '0' : '1');
    put(std::size_t(literal.end() - literal.begin()) == N ? '1' : '0');
    put(literal.at(N) == 0 ? '1' : '0');
    auto other = literal;
    if (N) {
        other[N - 1] = 'A';
    }
    put((other == literal) == (N == 0) ? '1' : '0');
    put(n + 1 == 4 * N + 8 ? '1' : '0');
    return r;
}
template <std::size_t N>
void literal_forms()
{
    std::vector<std::byte> want;
    for (int k = 0; k < 4; ++k) {
        auto l = letters<N>();
        for (std::size_t i = 0; i < N; ++i) {
            want.push_back(std::byte(l[i]));
        }
        if (k < 3) {
            want.push_back(std::byte('|'));
        }
    }
    for (char c : {N ? '1' : '0', '1', '1', '1', '1'}) {
        want.push_back(std::byte(c));
    }
    static constexpr auto evaluated = [] {
        auto literal = literal_of<N>();
        return forms_of_literal<N>(literal);
    }();
    constants.push_back({mc::format("a literal of %zu characters, evaluated", N), want, [] { return owned(evaluated); }});
    constants.push_back({mc::format("a literal of %zu characters", N), want, [] {
                             auto literal = literal_of<N>();
                             return owned(forms_of_literal<N>(literal));
                         }});
    constants.push_back({mc::format("a literal of %zu characters, written", N), [] {
                             std::vector<std::byte> r;
                             for (auto c : letters<N>()) {
                                 r.push_back(std::byte(c));
                             }
                             r.pop_back();
                             return r;
                         }(),
                         [] { return owned(zb::to_bytes<literal_of<N>()>()); }});
}
[[maybe_unused]] bool added = [] {
    [&]<std::size_t... N>(std::index_sequence<N...>) { (literal_forms<N>(), ...); }(std::make_index_sequence<18>{});
    literal_forms<33>();
    same_bytes<>("nothing");
    same_bytes<std::uint8_t{0x80}>("a byte");
    same_bytes<1337>("a number");
    same_bytes<-1>("minus one");
    same_bytes<std::numeric_limits<std::int64_t>::min()>("the lowest number");
    same_bytes<std::uint16_t{0xff00}, std::uint8_t{1}, 0x12345678u>("numbers");
    same_bytes<true, 'x', small::high, char16_t{0x1234}>("kinds");
    same_bytes<1.5, -0.5f>("floating point numbers");
    same_bytes<"Hello World!"_s>("text");
    same_bytes<"Hello World!"_s, 1337>("text and a number");
    same_bytes<""_s, 7>("empty text and a number");
    same_bytes<structural{1, -2, {0x1234, 0xff00}}>("a class");
    same_bytes<structural{1, -2, {0x1234, 0xff00}}, std::array<std::uint16_t, 3>{1, 2, 3}, small::one>("class and arrays");
    same_bytes<std::array<structural, 2>{structural{1, 2, {3, 4}}, structural{5, 6, {7, 8}}}>("classes");
    same_bytes<std::array<char, 130>{'a', 'b'}>("long array");
    same_bytes<"0123456789abcdef"_decode_hex>("hexadecimal digits");
    same_bytes<"text as bytes"_b, "ff"_decode_hex>("text as bytes");
    same_bytes<"id"_sha256>("a hash");
    mc::add("constants", [] {
        auto & c = constants[mc::choose(constants.size(), "constant")];
        auto got = c.run();
        mc::case_done();
        mc::step();
        mc::state(std::hash<std::string>{}(c.name));
        mc::outcome(mc::hash_bytes(got.data(), got.size()));
        mc::require(got == c.evaluated, "constants", [&] {
            return mc::format("%s: %s in constant evaluation, %s in the running program", c.name.c_str(), mc::hex(c.evaluated.data(), c.evaluated.size()).c_str(),
                              mc::hex(got.data(), got.size()).c_str());
        });
    });
    return true;
}();
#endif

[[maybe_unused]] int end_of_file;
} // namespace
