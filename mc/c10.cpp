// C10: variants, identifiers, known identifiers.
#include "kit.hpp"

// Digests, computed elsewhere (sha1sum, sha256sum).
#define SHA1_V1 "3bf6ba5f65d798f77c5878c9e662f13c94ca8a9a"
#define SHA256_V1 "a22b86135480d3308514cc0e257d7ae102c63e88d883835b450975c4ef21242b"
#define SHA1_V2 "1700fb9453c638d14c707fca6c626e2b5251c50c"
#define SHA256_V2 "1ff39eecc905bc5ff172f5932685ab412a76e1b346f2d15ef0f4bdc933160b61"

using namespace kit;
using namespace zpp::bits::literals;

namespace
{
struct boom
{
};
struct none
{
};
// An alternative with some identifier and some payload.
template <typename Id, int K>
struct alt;
template <typename Id>
struct base
{
    using serialize_id = Id;
};
template <>
struct base<none>
{
};
template <typename Id>
struct alt<Id, 0> : base<Id>
{
    using serialize = zb::members<1>;
    alt() = default;
    std::uint8_t a{};
    auto fields() { return std::tie(a); }
};
template <typename Id>
struct alt<Id, 1> : base<Id>
{
    using serialize = zb::members<1>;
    alt() = default;
    explicit alt(boom) { throw boom{}; }
    std::string a;
    auto fields() { return std::tie(a); }
};
template <typename Id>
struct alt<Id, 2> : base<Id>
{
    using serialize = zb::members<2>;
    alt() = default;
    std::uint32_t a{};
    std::uint8_t b{};
    auto fields() { return std::tie(a, b); }
};
template <typename Id>
struct alt<Id, 3> : base<Id> // only the library makes these
{
    auto fields() { return std::tie(a, b); }
    static alt make() { return {}; }
    alt(alt &&) = default;
    alt(const alt &) = default;
    alt & operator=(alt &&) = default;
    alt & operator=(const alt &) = default;

private:
    friend zb::access;
    using serialize = zb::members<2>;
    alt() = default;
    std::uint16_t a{};
    std::vector<std::uint8_t> b;
};
template <typename Id>
struct alt<Id, 4> : base<Id>
{
    using serialize = zb::members<1>;
    alt() = default;
    std::unique_ptr<std::uint16_t> a;
    auto fields() { return std::tie(a); }
};
template <typename Id>
struct alt<Id, 5> : base<Id> // nothing
{
    using serialize = zb::members<0>;
    alt() = default;
    auto fields() { return std::tie(); }
};
template <int N>
struct numbered // distinct types without identifiers
{
    std::uint8_t a;
};
} // namespace
namespace model
{
template <typename Id, int K>
struct Fields<alt<Id, K>>
{
    static auto get(alt<Id, K> & s) { return s.fields(); }
    static auto make()
    {
        if constexpr (K == 3) {
            return alt<Id, K>::make();
        } else {
            return alt<Id, K>{};
        }
    }
};
template <int N>
struct Fields<numbered<N>>
{
    static auto get(numbered<N> & s) { return std::tie(s.a); }
};
} // namespace model

namespace
{
template <typename T>
T payload(std::uint64_t salt)
{
    model::G g;
    g.salt = salt;
    g.plain = true;
    return M<T>::gen(g);
}

struct ids
{
    std::vector<bytes_t> of; // as native (little endian) bytes
    bool number;             // in the byte order of the archive
};
bytes_t on_wire(const ids & x, std::size_t i, const config & c)
{
    auto b = x.of[i];
    if (x.number && c.swapped) {
        std::reverse(b.begin(), b.end());
    }
    return b;
}

template <typename V>
constexpr std::size_t count_of = std::variant_size_v<V>;

template <typename V, std::size_t I = 0>
V make(std::size_t i, std::uint64_t salt)
{
    if constexpr (I + 1 == count_of<V>) {
        return V(std::in_place_index<I>, payload<std::variant_alternative_t<I, V>>(salt));
    } else {
        if (i == I) {
            return V(std::in_place_index<I>, payload<std::variant_alternative_t<I, V>>(salt));
        }
        return make<V, I + 1>(i, salt);
    }
}
template <typename V, std::size_t I = 0>
bytes_t payload_bytes(const V & v, const config & c)
{
    if constexpr (I == count_of<V>) {
        return {};
    } else {
        if (v.index() == I) {
            return enc(c, *std::get_if<I>(&v));
        }
        return payload_bytes<V, I + 1>(v, c);
    }
}
template <typename V, std::size_t I = 0>
std::errc payload_read(model::Dec & d, std::size_t i, V & v)
{
    if constexpr (I == count_of<V>) {
        return {};
    } else {
        if (i == I) {
            auto x = model::fresh_of<std::variant_alternative_t<I, V>>();
            auto r = M<std::remove_cvref_t<decltype(x)>>::dec(d, x);
            v.template emplace<I>(std::move(x));
            return r;
        }
        return payload_read<V, I + 1>(d, i, v);
    }
}
template <typename V, std::size_t I = 0>
bool same(const V & a, const V & b)
{
    if constexpr (I == count_of<V>) {
        return a.index() == b.index();
    } else {
        if (a.index() == I && b.index() == I) {
            return M<std::variant_alternative_t<I, V>>::eq(*std::get_if<I>(&a), *std::get_if<I>(&b));
        }
        return same<V, I + 1>(a, b);
    }
}
// Whether it became valueless.
template <typename V, std::size_t I = 0>
bool ruin(V & v)
{
    if constexpr (I == count_of<V>) {
        return false;
    } else if constexpr (std::is_constructible_v<std::variant_alternative_t<I, V>, boom>) {
        try {
            v.template emplace<I>(boom{});
        } catch (const boom &) {
        }
        return v.valueless_by_exception();
    } else {
        return ruin<V, I + 1>(v);
    }
}
// All states a variant can be in before it is read: every alternative and none.
template <typename V>
V before(std::size_t state)
{
    if (state < count_of<V>) {
        return make<V>(state, 500 + state);
    }
    V v = make<V>(0, 600);
    ruin(v);
    return v;
}
template <typename V>
std::size_t states()
{
    V v = make<V>(0, 1);
    return count_of<V> + ruin(v);
}

template <typename V, typename... O>
void check_read(const config & c, const ids & x, const bytes_t & data, std::size_t state)
{
    exact e(data);
    V v = before<V>(state), want = before<V>(state);
    zb::in in{e.view(), O{}..., zb::alloc_limit<4096>{}};
    zb::errc r = in(v);
    mc::step();
    mc::case_done();
    std::errc expected = std::errc::bad_message;
    auto width = x.of[0].size();
    std::size_t end = 0;
    std::size_t index = std::variant_npos;
    if (data.size() < width) {
        expected = std::errc::result_out_of_range;
    } else {
        for (std::size_t i = 0; i < count_of<V>; ++i) {
            auto w = on_wire(x, i, c);
            if (std::equal(w.begin(), w.end(), data.begin())) {
                index = i;
                config limited = c;
                limited.alloc_limit = 4096;
                model::Dec d{limited, data.data(), data.size(), width};
                expected = payload_read(d, i, want);
                end = d.pos;
                break;
            }
        }
    }
    auto says = [&] {
        return mc::format("reading %s over alternative %zu: %s, now alternative %zd, expected %s and %zd", show(data).c_str(), state,
                          show(r.code).c_str(), std::ptrdiff_t(v.index()), show(expected).c_str(), std::ptrdiff_t(index));
    };
    mc::note(says);
    mc::outcome(mc::mix(std::uint64_t(r.code), index));
    mc::require(r.code == expected, "verdict", says);
    mc::require(in.position() <= data.size(), "position", says);
    if (expected == std::errc{}) {
        mc::require(v.index() == index, "alternative", says);
        mc::require(same(v, want), "value", says);
        mc::require(in.position() == end, "consumed", says);
    }
    // Whatever happened, the variant and the archive can be used again.
    auto again = make<V>(count_of<V> - 1, 7);
    auto bytes = on_wire(x, count_of<V> - 1, c) + payload_bytes(again, c);
    exact f(bytes);
    zb::in next{f.view(), O{}..., zb::alloc_limit<4096>{}};
    mc::require(success(next(v)) && same(v, again), "again", "a variant cannot be read after a failure");
}

// Identifiers near the declared ones.
std::vector<bytes_t> nearby(const ids & x, const config & c)
{
    std::vector<bytes_t> r;
    for (std::size_t i = 0; i < x.of.size(); ++i) {
        auto w = on_wire(x, i, c);
        r.push_back(w);
        auto bits = w.size() * 8;
        for (std::size_t a = 0; a < bits; ++a) {
            auto m = w;
            m[a / 8] ^= std::byte(1 << a % 8);
            r.push_back(m);
            if (w.size() <= 4 || (mc::thorough() && w.size() <= 8)) {
                for (std::size_t b = 0; b < a; ++b) {
                    auto k = m;
                    k[b / 8] ^= std::byte(1 << b % 8);
                    r.push_back(k);
                }
            }
        }
        for (std::size_t a = 0; a < w.size(); ++a) {
            for (int v : {0, 0xff, 1, 0x80}) {
                auto m = w;
                m[a] = std::byte(v);
                r.push_back(m);
            }
            for (std::size_t b = 0; b < a; ++b) {
                auto m = w;
                std::swap(m[a], m[b]);
                r.push_back(m);
            }
        }
        auto m = w;
        std::reverse(m.begin(), m.end());
        r.push_back(m);
        r.push_back(bytes_t(w.size()));
        r.push_back(bytes_t(w.size(), std::byte{0xff}));
        // The beginning of one and the end of another.
        for (std::size_t k = 0; k < x.of.size(); ++k) {
            auto o = on_wire(x, k, c);
            for (std::size_t at = 0; at <= w.size(); ++at) {
                bytes_t s(w.begin(), w.begin() + std::ptrdiff_t(at));
                s.insert(s.end(), o.begin() + std::ptrdiff_t(at), o.end());
                r.push_back(s);
            }
        }
    }
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}

template <typename V, typename... O>
void reading(config c, ids x)
{
    auto width = x.of[0].size();
    // Payloads which all alternatives of these families can begin with.
    auto state = mc::choose(states<V>(), "alternative before");
    if (width == 1) {
        auto id = mc::choose(256, "identifier");
        for (auto p : {"", "00", "0100000041ff", "020000004142434445464748", "ffffffff", "112233445566778899aabbcc"}) {
            auto data = bytes_t{std::byte(id)} + unhex(p);
            mc::state(mc::hash_bytes(data.data(), data.size(), state));
            check_read<V, O...>(c, x, data, state);
        }
        if (id == 0) {
            check_read<V, O...>(c, x, {}, state);
        }
    } else if (width == 2) {
        auto high = mc::choose(256, "identifier");
        for (int low = 0; low < 256; ++low) {
            auto data = bytes_t{std::byte(low), std::byte(high)} + unhex("0100000041ff00112233");
            mc::state(mc::hash_bytes(data.data(), data.size(), state));
            check_read<V, O...>(c, x, data, state);
        }
    } else {
        auto list = nearby(x, c);
        auto part = mc::choose(16, "identifiers");
        for (std::size_t i = part; i < list.size(); i += 16) {
            auto data = list[i] + unhex("0100000041ff00112233");
            mc::state(mc::hash_bytes(data.data(), data.size(), state));
            check_read<V, O...>(c, x, data, state);
        }
    }
    // Every declared one, complete and cut everywhere.
    auto which = mc::choose(count_of<V>, "declared");
    auto v = make<V>(which, 50);
    auto data = on_wire(x, which, c) + payload_bytes(v, c);
    for (std::size_t n = 0; n <= data.size(); ++n) {
        check_read<V, O...>(c, x, bytes_t(data.begin(), data.begin() + std::ptrdiff_t(n)), state);
    }
}

template <typename V, typename... O>
void writing(config c, ids x)
{
    auto state = mc::choose(states<V>(), "alternative");
    auto offset = mc::choose(3, "offset");
    auto v = before<V>(state);
    bytes_t buf;
    zb::out out{buf, O{}...};
    for (std::size_t i = 0; i < offset; ++i) {
        mc::require(success(out(std::uint8_t(0x77))), "write", "writing a byte failed");
    }
    zb::errc r = out(v);
    mc::step();
    mc::case_done();
    mc::outcome(std::uint64_t(r.code));
    mc::state(mc::mix(state, offset));
    if (v.valueless_by_exception()) {
        mc::require(r.code == std::errc::invalid_argument && out.position() == offset && buf.size() == offset, "valueless",
                    [&] { return "writing a variant without a value gave " + show(r.code); });
        return;
    }
    auto want = bytes_t(offset, std::byte{0x77}) + on_wire(x, state, c) + payload_bytes(v, c);
    mc::require(r.code == std::errc{} && buf == want, "bytes", [&] {
        return mc::format("alternative %zu was written as %s, expected %s", state, show(buf).c_str(), show(want).c_str());
    });
}

// The identifier is known to both sides and is not part of the bytes.
template <auto Id, auto Max, typename V, typename... O>
void known(config c, ids x, std::size_t which)
{
    auto state = mc::choose(states<V>(), "alternative");
    auto v = before<V>(state);
    {
        bytes_t buf;
        zb::out out{buf, O{}...};
        zb::errc r = out(zb::known_id<Id, Max>(v));
        mc::step();
        mc::case_done();
        mc::outcome(std::uint64_t(r.code));
        if (state == which) {
            auto want = payload_bytes(v, c);
            mc::require(r.code == std::errc{} && buf == want, "known-bytes", [&] {
                return mc::format("alternative %zu with its identifier known was written as %s (%s), expected %s", state,
                                  show(buf).c_str(), show(r.code).c_str(), show(want).c_str());
            });
        } else {
            mc::require(r.code == std::errc::invalid_argument && buf.empty(), "known-inactive", [&] {
                return mc::format("writing alternative %zu under the known identifier of %zu gave %s", state, which,
                                  show(r.code).c_str());
            });
        }
    }
    auto source = make<V>(which, 90);
    auto data = payload_bytes(source, c);
    for (std::size_t n = 0; n <= data.size(); ++n) {
        for (int dynamic = 0; dynamic < 2; ++dynamic) {
            exact e(bytes_t(data.begin(), data.begin() + std::ptrdiff_t(n)));
            zb::in in{e.view(), O{}..., zb::alloc_limit<4096>{}};
            V w = before<V>(state);
            zb::errc r;
            if (dynamic) {
                auto id = zb::id_v<Id, Max>;
                r = in(zb::known_id(id, w));
            } else {
                r = in(zb::known_id<Id, Max>(w));
            }
            mc::step();
            mc::case_done();
            auto says = [&] {
                return mc::format("reading %zu of %zu bytes over alternative %zu with the identifier of %zu known: %s, now %zd", n,
                                  data.size(), state, which, show(r.code).c_str(), std::ptrdiff_t(w.index()));
            };
            mc::require(r.code == (n == data.size() ? std::errc{} : std::errc::result_out_of_range), "known-verdict", says);
            if (r.code == std::errc{}) {
                mc::require(same(w, source) && in.position() == n, "known-value", says);
            }
            mc::state(mc::mix(mc::hash_bytes(e.data.get(), n), mc::mix(state, which)));
        }
    }
    (void)x;
}
// Known at run time: any number may be given.
template <typename Int, typename V, typename... O>
void known_any(config c, ids x)
{
    auto state = mc::choose(states<V>(), "alternative");
    auto list = nearby(x, config{});
    for (auto & raw : list) {
        Int id{};
        std::memcpy(&id, raw.data(), std::min(sizeof id, raw.size()));
        for (std::size_t which = 0; which < count_of<V>; ++which) {
            if (which && raw != x.of[which]) {
                continue;
            }
            std::size_t match = count_of<V>;
            for (std::size_t i = 0; i < count_of<V>; ++i) {
                if (raw == x.of[i]) {
                    match = i;
                }
            }
            auto source = make<V>(match == count_of<V> ? 0 : match, 91);
            auto data = payload_bytes(source, c);
            exact e(data);
            zb::in in{e.view(), O{}..., zb::alloc_limit<4096>{}};
            V w = before<V>(state);
            zb::errc r = in(zb::known_id(id, w));
            mc::step();
            mc::case_done();
            mc::state(mc::mix(mc::hash_bytes(raw.data(), raw.size()), state));
            mc::outcome(std::uint64_t(r.code));
            auto says = [&] {
                return mc::format("reading over alternative %zu with the identifier %s: %s, now %zd, expected %zu", state,
                                  show(raw).c_str(), show(r.code).c_str(), std::ptrdiff_t(w.index()), match);
            };
            if (match == count_of<V>) {
                mc::require(r.code == std::errc::bad_message && in.position() == 0, "known-unknown", says);
            } else {
                mc::require(r.code == std::errc{} && same(w, source) && in.position() == data.size(), "known-dynamic", says);
            }
        }
    }
}

// Null pointers, at every place of a call.
void nulls()
{
    std::unique_ptr<std::uint16_t> u;
    std::shared_ptr<std::string> s;
    zb::optional_ptr<std::uint16_t> o;
    std::vector<std::unique_ptr<std::uint8_t>> v(3);
    std::variant<std::uint8_t, std::unique_ptr<std::uint16_t>> w{std::in_place_index<1>};
    auto k = mc::choose(6, "which");
    auto set = mc::choose(2, "set");
    if (set) {
        u.reset(new std::uint16_t(0x1122));
        s.reset(new std::string("x"));
        o.reset(new std::uint16_t(0x3344));
        for (auto & p : v) {
            p.reset(new std::uint8_t(9));
        }
        std::get<1>(w).reset(new std::uint16_t(0x5566));
    } else if (k == 3) {
        v[0].reset(new std::uint8_t(9));
    }
    bytes_t buf;
    zb::out out{buf};
    std::uint8_t a = 1, b = 2;
    zb::errc r;
    bytes_t want = unhex("01");
    switch (k) {
    case 0: r = out(a, u, b); want = want + (set ? unhex("2211") : bytes_t{}); break;
    case 1: r = out(a, s, b); want = want + (set ? unhex("0100000078") : bytes_t{}); break;
    case 2: r = out(a, o, b); want = want + (set ? unhex("014433") : unhex("00")); break;
    case 3: r = out(a, v, b); want = want + unhex(set ? "03000000090909" : "0300000009"); break;
    case 4: r = out(a, w, b); want = want + unhex(set ? "016655" : "01"); break;
    default: r = out(a, std::tie(u, a), b); want = want + (set ? unhex("221101") : bytes_t{}); break;
    }
    mc::step();
    mc::case_done();
    bool fine = set || k == 2;
    if (fine) {
        want = want + unhex("02");
    }
    mc::outcome(std::uint64_t(r.code));
    mc::state(mc::hash_bytes(want.data(), want.size(), k));
    mc::require(r.code == (fine ? std::errc{} : std::errc::invalid_argument), "null", [&] {
        return mc::format("writing %s pointer %zu gave %s", set ? "a set" : "a null", k, show(r.code).c_str());
    });
    mc::require(buf == want, "null-bytes", [&] { return "wrote " + show(buf) + ", expected " + show(want); });
}

template <typename... O, typename F>
void with_config(const char * name, config c, F f)
{
    f.template operator()<O...>(name, c);
}

ids make_ids(bool number, std::initializer_list<const char *> l)
{
    ids x{{}, number};
    for (auto s : l) {
        x.of.push_back(unhex(s));
    }
    return x;
}

template <typename V>
void add(const char * name, ids x)
{
    auto one = [&]<typename... O>(const char * o, config c) {
        mc::add(std::string("read ") + name + o, [=] { reading<V, O...>(c, x); });
        mc::add(std::string("write ") + name + o, [=] { writing<V, O...>(c, x); });
    };
    one.template operator()<>("", config{});
    one.template operator()<zb::endian::big, zb::size4b>(" big", config{true, prefix::p4});
}
template <auto Id, auto Max, typename V>
void add_known(const char * name, ids x, std::size_t which)
{
    mc::add(mc::format("known %s %zu", name, which), [=] { known<Id, Max, V>(config{}, x, which); });
    mc::add(mc::format("known big %s %zu", name, which),
            [=] { known<Id, Max, V, zb::endian::big>(config{true, prefix::p4}, x, which); });
}

template <typename I>
struct many;
template <std::size_t... I>
struct many<std::index_sequence<I...>>
{
    using type = std::variant<numbered<int(I)>...>;
};

bool added = [] {
#if PART == 0
    auto index = [](std::size_t n) {
        ids x{{}, true};
        for (std::size_t i = 0; i < n; ++i) {
            x.of.push_back({std::byte(i)});
        }
        return x;
    };
    using V1 = std::variant<alt<none, 1>>;
    using V2 = std::variant<alt<none, 3>, alt<none, 1>>;
    using V3 = std::variant<alt<none, 2>, alt<none, 0>, alt<none, 1>>;
    using V6 = std::variant<alt<none, 0>, alt<none, 1>, alt<none, 2>, alt<none, 3>, alt<none, 4>, alt<none, 5>>;
    add<V1>("1 index", index(1));
    add<V2>("2 indices", index(2));
    add<V3>("3 indices", index(3));
    add<V6>("6 indices", index(6));
    add_known<std::byte{0}, -1, V6>("6 indices", index(6), 0);
    add_known<std::byte{1}, -1, V6>("6 indices", index(6), 1);
    add_known<std::byte{3}, -1, V6>("6 indices", index(6), 3);
    add_known<std::byte{4}, -1, V6>("6 indices", index(6), 4);
    add_known<std::byte{5}, -1, V6>("6 indices", index(6), 5);
    mc::add("known any 6 indices", [=] { known_any<std::byte, V6>(config{}, index(6)); });
    mc::add("nulls", nulls);
#elif PART == 1
#ifdef MC_THOROUGH_BUILD
    constexpr std::size_t BIG = 140;
#else
    constexpr std::size_t BIG = 40;
#endif
    using big_v = many<std::make_index_sequence<BIG>>::type;
    ids x{{}, true};
    for (std::size_t i = 0; i < BIG; ++i) {
        x.of.push_back({std::byte(i)});
    }
    mc::add("write " + std::to_string(BIG) + " indices", [=] { writing<big_v>(config{}, x); });
    mc::add("all of " + std::to_string(BIG) + " indices", [=] {
        auto id = mc::choose(256, "identifier");
        for (std::size_t state : std::initializer_list<std::size_t>{0, 1, BIG / 2, BIG - 2, BIG - 1}) {
            check_read<big_v>(config{}, x, bytes_t{std::byte(id), std::byte{0x42}}, state);
            mc::state(mc::mix(id, state));
        }
    });
#elif PART == 2
    using V8 = std::variant<alt<zb::serialization_id<std::uint8_t(7)>, 1>, alt<zb::serialization_id<std::uint8_t(0)>, 3>,
                            alt<zb::serialization_id<std::uint8_t(255)>, 0>>;
    add<V8>("u8 ids", make_ids(true, {"07", "00", "ff"}));
    using V16 = std::variant<alt<zb::serialization_id<std::uint16_t(0x0102)>, 1>, alt<zb::serialization_id<std::uint16_t(0x0201)>, 3>,
                             alt<zb::serialization_id<std::uint16_t(0)>, 0>>;
    add<V16>("u16 ids", make_ids(true, {"0201", "0102", "0000"}));
    mc::add("known any u16", [=] { known_any<std::uint16_t, V16>(config{}, make_ids(true, {"0201", "0102", "0000"})); });
#elif PART == 3
    using V32 = std::variant<alt<zb::serialization_id<0x11223344u>, 2>, alt<zb::serialization_id<0x11223345u>, 1>,
                             alt<zb::serialization_id<0x44332211u>, 3>, alt<zb::serialization_id<0x80000000u>, 5>>;
    auto x = make_ids(true, {"44332211", "45332211", "11223344", "00000080"});
    add<V32>("u32 ids", x);
    add_known<0x11223344u, -1, V32>("u32 ids", x, 0);
    add_known<0x11223345u, -1, V32>("u32 ids", x, 1);
    add_known<0x44332211u, -1, V32>("u32 ids", x, 2);
    add_known<0x80000000u, -1, V32>("u32 ids", x, 3);
    mc::add("known any u32", [=] { known_any<std::uint32_t, V32>(config{}, x); });
    mc::add("known any u32 big", [=] { known_any<std::uint32_t, V32, zb::endian::big>(config{true, prefix::p4}, x); });
#elif PART == 4
    using V64 = std::variant<alt<zb::id<0x1122334455667788ull>, 1>, alt<zb::id<0x1122334455667789ull>, 3>,
                             alt<zb::id<0x8877665544332211ull>, 4>>;
    add<V64>("u64 ids", make_ids(true, {"8877665544332211", "8977665544332211", "1122334455667788"}));
    add_known<0x1122334455667789ull, -1, V64>("u64 ids", make_ids(true, {"8877665544332211", "8977665544332211", "1122334455667788"}), 1);
    using V2 = std::variant<alt<zb::id<"v1"_s>, 1>, alt<zb::id<"v2"_s>, 3>, alt<zb::id<"1v"_s>, 0>>;
    add<V2>("2 byte strings", make_ids(true, {"7631", "7632", "3176"}));
    add_known<"v2"_s, -1, V2>("2 byte strings", make_ids(true, {"7631", "7632", "3176"}), 1);
#elif PART == 5
    using V3 = std::variant<alt<zb::id<"abc"_s>, 1>, alt<zb::id<"abd"_s>, 3>, alt<zb::id<"cba"_s>, 0>>;
    auto x = make_ids(false, {"616263", "616264", "636261"});
    add<V3>("3 byte strings", x);
    add_known<"abc"_s, -1, V3>("3 byte strings", x, 0);
    add_known<"abd"_s, -1, V3>("3 byte strings", x, 1);
    using V10 = std::variant<alt<zb::id<"v1::person"_s>, 1>, alt<zb::id<"v2::person"_s>, 2>>;
    auto y = make_ids(false, {"76313a3a706572736f6e", "76323a3a706572736f6e"});
    add<V10>("10 byte strings", y);
    add_known<"v2::person"_s, -1, V10>("10 byte strings", y, 1);
    using V1 = std::variant<alt<zb::id<"a"_s>, 1>, alt<zb::id<"b"_s>, 3>>;
    add<V1>("1 byte strings", make_ids(true, {"61", "62"}));
#elif PART == 6
    using V20 = std::variant<alt<zb::id<"v1::person"_sha1>, 1>, alt<zb::id<"v2::person"_sha1>, 2>>;
    auto x = make_ids(false, {SHA1_V1, SHA1_V2});
    add<V20>("sha1", x);
    add_known<"v1::person"_sha1, -1, V20>("sha1", x, 0);
    using V32 = std::variant<alt<zb::id<"v1::person"_sha256>, 3>, alt<zb::id<"v2::person"_sha256>, 0>>;
    auto y = make_ids(false, {SHA256_V1, SHA256_V2});
    add<V32>("sha256", y);
    add_known<"v2::person"_sha256, -1, V32>("sha256", y, 1);
    auto cut = [](const char * s, std::size_t n) { return std::string(s).substr(0, 2 * n); };
    using V4 = std::variant<alt<zb::id<"v1::person"_sha256, 4>, 3>, alt<zb::id<"v2::person"_sha256, 4>, 0>>;
    auto z = make_ids(true, {cut(SHA256_V1, 4).c_str(), cut(SHA256_V2, 4).c_str()});
    add<V4>("4 bytes of sha256", z);
    add_known<"v1::person"_sha256, 4, V4>("4 bytes of sha256", z, 0);
    using V4i = std::variant<alt<zb::id<"v1::person"_sha256_int>, 3>, alt<zb::id<"v2::person"_sha256_int>, 0>>;
    add<V4i>("sha256_int", z);
    add_known<"v2::person"_sha256_int, -1, V4i>("sha256_int", z, 1);
    using V7 = std::variant<alt<zb::id<"v1::person"_sha1, 7>, 3>, alt<zb::id<"v2::person"_sha1, 7>, 0>>;
    add<V7>("7 bytes of sha1", make_ids(false, {cut(SHA1_V1, 7).c_str(), cut(SHA1_V2, 7).c_str()}));
#endif
    return true;
}();
} // namespace
