// C29: options mean the same in every combination, order and place.
//
// All ordered selections of up to three options out of fifteen, given to every
// kind of archive; a model applies them one after another.
#include "kit.hpp"

using namespace kit;

namespace
{
// ---------------------------------------------------------------- options
enum option_id
{
    BIG,
    LITTLE,
    VARINT,
    ONE,
    TWO,
    EIGHT,
    LIMIT,
    EXACT,
    DOUBLE,
    NO_FIT,
    NO_OVERFLOW,
    OVERFLOW_CHECKED,
    APPEND,
    RESERVE,
    RESIZE,
    option_count
};
constexpr const char * option_names[] = {"big",      "little", "size_varint",      "size1b",          "size2b", "size8b",  "alloc_limit<4096>", "exact_enlarger",
                                         "enlarger<2>", "no_fit_size", "no_enlarge_overflow", "enlarge_overflow", "append", "reserve", "resize"};
// Those of which one archive has at most one.
constexpr int kinds[] = {0, 0, 1, 1, 1, 1, 2, 3, 3, 4, 5, 5, 6, 7, 8};

template <int I>
constexpr auto make()
{
    if constexpr (I == BIG) {
        return zb::endian::big{};
    } else if constexpr (I == LITTLE) {
        return zb::endian::little{};
    } else if constexpr (I == VARINT) {
        return zb::size_varint{};
    } else if constexpr (I == ONE) {
        return zb::size1b{};
    } else if constexpr (I == TWO) {
        return zb::size2b{};
    } else if constexpr (I == EIGHT) {
        return zb::size8b{};
    } else if constexpr (I == LIMIT) {
        return zb::alloc_limit<4096>{};
    } else if constexpr (I == EXACT) {
        return zb::exact_enlarger{};
    } else if constexpr (I == DOUBLE) {
        return zb::enlarger<2>{};
    } else if constexpr (I == NO_FIT) {
        return zb::no_fit_size{};
    } else if constexpr (I == NO_OVERFLOW) {
        return zb::no_enlarge_overflow{};
    } else if constexpr (I == OVERFLOW_CHECKED) {
        return zb::enlarge_overflow{};
    } else if constexpr (I == APPEND) {
        return zb::append{};
    } else if constexpr (I == RESERVE) {
        return zb::reserve{300};
    } else {
        return zb::resize{5};
    }
}
constexpr bool runtime(int i)
{
    return i >= APPEND;
}

// ---------------------------------------------------------------- what is done
struct result
{
    std::errc first{}, second{}, large{}, read{}, refused{};
    std::size_t start = 0, position = 0, size = 0, end = 0, capacity = 0, read_position = 0;
    std::vector<std::byte> data;
    std::uint16_t number = 0;
    std::string text;
    std::vector<std::uint32_t> words;
};
enum form
{
    GROWING, // a vector which holds three bytes
    STRING,  // a string of characters which holds three
    FIXED,   // a span of 64 bytes
    BOTH,    // input and output
    OWNED,   // self-owned data
    form_count
};
constexpr const char * form_names[] = {"vector", "string", "span", "in_out", "data_in_out"};
constexpr std::size_t counts = 3;
struct values
{
    std::uint16_t number = 0x1234;
    std::string text;
    std::vector<std::uint32_t> words;
};
values values_of(std::size_t i)
{
    values v;
    v.text = std::string(i == 2 ? 30 : i, 'x');
    for (std::size_t k = 0; k < i; ++k) {
        v.words.push_back(std::uint32_t(0x10203040 + k));
    }
    return v;
}

void write(auto & out, auto & data, const values & v, result & r)
{
    r.start = out.position();
    r.first = out(v.number, v.text);
    r.second = out(v.words);
    r.position = out.position();
    r.size = data.size();
    if constexpr (requires { data.capacity(); }) {
        r.capacity = data.capacity();
    }
    for (auto b : data) {
        r.data.push_back(std::byte(b));
    }
}
void write_large(auto & out, result & r)
{
    static const std::array<std::byte, 6000> large{};
    r.large = out(large);
}
void read(auto & in, std::size_t from, result & r)
{
    in.reset(from);
    r.read = in(r.number, r.text, r.words);
    r.read_position = in.position();
}
template <int... I>
constexpr bool has(int i)
{
    return (... || (I == i));
}
template <int... I>
result run(int form, const values & v)
{
    result r;
    constexpr bool growing_only = (... || runtime(I));
    switch (form) {
    case GROWING: {
        std::vector<std::byte> data(3, std::byte{0x22});
        zb::out out{data, make<I>()...};
        write(out, data, v, r);
        if constexpr (!growing_only) {
            zb::in in{data, make<I>()...};
            read(in, r.start, r);
            // A declared length which an allocation limit refuses, or the input is too short for.
            // (Without a limit a large one would be allocated.)
            if constexpr (has<I...>(LIMIT) || has<I...>(ONE) || has<I...>(TWO) || has<I...>(VARINT)) {
                std::vector<std::byte> lengths(8, std::byte{0x7f});
                zb::in other{lengths, make<I>()...};
                std::vector<std::uint32_t> w;
                r.refused = other(w);
            }
        }
        write_large(out, r);
        break;
    }
    case STRING: {
        std::string data(3, '\x22');
        zb::out out{data, make<I>()...};
        write(out, data, v, r);
        if constexpr (!growing_only) {
            zb::in in{data, make<I>()...};
            read(in, r.start, r);
        }
        write_large(out, r);
        break;
    }
    case FIXED:
        if constexpr (!growing_only) {
            std::vector<std::byte> data(64, std::byte{0x22});
            std::span<std::byte> view(data);
            zb::out out{view, make<I>()...};
            write(out, view, v, r);
            zb::in in{std::span<const std::byte>(data), make<I>()...};
            read(in, r.start, r);
            write_large(out, r);
        }
        break;
    case BOTH:
        if constexpr (!growing_only) {
            std::vector<std::byte> data(3, std::byte{0x22});
            auto [in, out] = zb::in_out(data, make<I>()...);
            write(out, data, v, r);
            read(in, r.start, r);
            write_large(out, r);
        }
        break;
    case OWNED:
        if constexpr (!growing_only) {
            auto [data, in, out] = zb::data_in_out(make<I>()...);
            write(out, data, v, r);
            read(in, r.start, r);
            write_large(out, r);
        } else {
            auto [data, out] = zb::data_out(make<I>()...);
            write(out, data, v, r);
            write_large(out, r);
        }
        break;
    }
    return r;
}

// ---------------------------------------------------------------- the model
struct selection
{
    std::vector<int> options;
    result (*run)(int, const values &);
    bool has(int i) const
    {
        return std::find(options.begin(), options.end(), i) != options.end();
    }
    std::string name() const
    {
        std::string s;
        for (auto i : options) {
            s += (s.empty() ? "" : ", ") + std::string(option_names[i]);
        }
        return s.empty() ? "none" : s;
    }
};
void number(std::vector<std::byte> & b, std::uint64_t v, std::size_t width, bool big)
{
    for (std::size_t i = 0; i < width; ++i) {
        b.push_back(std::byte(v >> 8 * (big ? width - 1 - i : i)));
    }
}
void check(const selection & s, int form, const values & v)
{
    bool growing_only = std::any_of(s.options.begin(), s.options.end(), runtime);
    if (growing_only && (form == FIXED || form == BOTH)) {
        mc::case_done(0);
        return;
    }
    auto got = s.run(form, v);
    mc::step(5);
    mc::case_done();
    auto fail = [&](const char * what) {
        return [&s, form, &v, what] {
            return mc::format("options %s, %s, %zu words: %s", s.name().c_str(), form_names[form], v.words.size(), what);
        };
    };
    bool big = s.has(BIG);
    std::vector<std::byte> wire;
    auto size_prefix = [&](std::size_t n) {
        if (s.has(VARINT)) {
            wire.push_back(std::byte(n)); // all are below 128
        } else {
            number(wire, n, s.has(ONE) ? 1 : s.has(TWO) ? 2 : s.has(EIGHT) ? 8 : 4, big);
        }
    };
    number(wire, v.number, 2, big);
    size_prefix(v.text.size());
    for (char c : v.text) {
        wire.push_back(std::byte(c));
    }
    size_prefix(v.words.size());
    for (auto w : v.words) {
        number(wire, w, 4, big);
    }
    // The options, one after another.
    std::size_t size = form == FIXED ? 64 : form == OWNED ? 0 : 3, position = 0;
    std::vector<std::byte> content(size, std::byte{0x22});
    for (auto o : s.options) {
        if (o == APPEND) {
            position = content.size();
        } else if (o == RESIZE) {
            content.resize(5);
            position = std::min<std::size_t>(position, 5);
        }
    }
    mc::require(got.start == position, "start", fail("where writing starts"));
    mc::require(got.first == std::errc{} && got.second == std::errc{}, "write", fail("writing fails"));
    auto end = position + wire.size();
    mc::require(got.position == end, "position", fail("the position after writing"));
    if (content.size() < end) {
        content.resize(end);
    }
    std::copy(wire.begin(), wire.end(), content.begin() + std::ptrdiff_t(position));
    if (s.has(NO_FIT) && form != FIXED) {
        mc::require(got.size >= content.size(), "size", fail("the size after writing"));
    } else {
        mc::require(got.size == content.size(), "size", fail("the size after writing"));
    }
    mc::require(std::equal(content.begin(), content.end(), got.data.begin()), "bytes", fail("the bytes written"));
    if (s.has(RESERVE)) {
        mc::require(got.capacity >= 300, "reserve", fail("no space is reserved"));
    }
    if (form == FIXED) {
        mc::require(got.large == std::errc::result_out_of_range, "large", fail("writing more than there is space"));
    } else {
        mc::require(got.large == (s.has(LIMIT) ? std::errc::no_buffer_space : std::errc{}), "large", fail("writing more than a limit"));
    }
    if (!growing_only) {
        mc::require(got.read == std::errc{} && got.read_position == end, "read", fail("reading fails"));
        mc::require(got.number == v.number && got.text == v.text && got.words == v.words, "value", fail("the value read"));
        if (form == GROWING) {
            bool limited = s.has(LIMIT) && !s.has(ONE) && !s.has(VARINT);
            // A varint and a byte of 0x7f are 127 elements of 4 bytes; others are more than the limit.
            if (limited) {
                mc::require(got.refused == std::errc::message_size, "limit", fail("the error for a length beyond the limit"));
            } else if (s.has(ONE) || s.has(VARINT) || s.has(TWO)) {
                mc::require(got.refused == std::errc::result_out_of_range, "short", fail("the error for a length beyond the input"));
            }
        }
    }
    mc::state(mc::mix(std::hash<std::string>{}(s.name()), mc::mix(std::uint64_t(form), v.words.size())));
    mc::outcome(mc::mix(mc::hash_bytes(wire.data(), wire.size()), mc::mix(got.size, position)));
}

// ---------------------------------------------------------------- all selections
std::vector<selection> selections;
template <int... I>
void add()
{
    selections.push_back({{I...}, run<I...>});
}
constexpr bool fits(int i, int j)
{
    return kinds[i] != kinds[j];
}
template <int A>
void add_from()
{
    add<A>();
    [&]<int... B>(std::integer_sequence<int, B...>) {
        auto pair = [&]<int J>() {
            if constexpr (fits(A, J)) {
                add<A, J>();
                [&]<int... C>(std::integer_sequence<int, C...>) {
                    auto triple = [&]<int K>() {
                        if constexpr (fits(A, K) && fits(J, K)) {
                            add<A, J, K>();
                        }
                    };
                    (triple.template operator()<C>(), ...);
                }(std::make_integer_sequence<int, option_count>{});
            }
        };
        (pair.template operator()<B>(), ...);
    }(std::make_integer_sequence<int, option_count>{});
}
[[maybe_unused]] bool added = [] {
    add_from<PART>();
    if (PART == 0) {
        add<>();
    }
    mc::add((std::string("options, the first is ") + option_names[PART]).c_str(), [] {
        auto & s = selections[mc::choose(selections.size(), "options")];
        auto form = int(mc::choose(std::size_t(form_count), "archive"));
        auto v = values_of(mc::choose(counts, "values"));
        check(s, form, v);
    });
    return true;
}();
} // namespace
