// C08: calls with several items, failures at every item and nesting.
#include "kit.hpp"

using namespace kit;

namespace
{
// A probe serializes one byte and may fail before or after it with any error.
constexpr std::errc errors[] = {std::errc::invalid_argument, std::errc::bad_message, std::errc::result_out_of_range,
                                std::errc::io_error,         std::errc(31337)};
struct happened
{
    std::vector<std::uint8_t> visited; // payloads, in order
    std::errc error{};                 // the first error returned by a probe
    bool late{};
    int failed_at = -1;
    bool ended{};
} now;

template <typename Archive>
std::errc probe(Archive & archive, auto & payload)
{
    mc::require(!now.ended && now.error == std::errc{}, "after-failure", "an item after the first failing one was processed");
    auto k = mc::deviate(1 + 2 * std::size(errors), "probe");
    std::errc e{};
    if (k) {
        e = errors[(k - 1) / 2];
        now.late = (k - 1) % 2;
        now.error = e;
        now.failed_at = int(now.visited.size());
        if (!now.late) {
            now.visited.push_back(0xee);
            return e;
        }
    }
    if (zb::errc r = archive(payload); failure(r)) {
        now.visited.push_back(0xdd);
        now.error = {}; // the archive failed before the probe could
        now.ended = true;
        return r;
    }
    now.visited.push_back(payload);
    return e;
}

struct P // returns the library's type
{
    std::uint8_t payload{0x99};
    static zb::errc serialize(auto & archive, auto & self) { return probe(archive, self.payload); }
    auto operator<=>(const P &) const = default;
};
struct Q // returns the standard type, and is found by its namespace
{
    std::uint8_t payload{0x99};
    Q() = default;
    explicit Q(std::uint8_t p) : payload(p) {}
    auto operator<=>(const Q &) const = default;
};
std::errc serialize(auto & archive, Q & self)
{
    return probe(archive, self.payload);
}
std::errc serialize(auto & archive, const Q & self)
{
    return probe(archive, self.payload);
}

struct agg { P a; std::uint16_t b; P c; };
class members2
{
public:
    using serialize = zb::members<2>;
    members2() = default;
    P a;
    Q b;
};
struct explicit_s
{
    P a;
    Q b;
    std::uint8_t c{};
    static auto serialize(auto & archive, auto & self) { return archive(self.b, self.c, self.a); }
};
struct nested
{
    std::vector<std::optional<P>> a;
    std::map<std::uint8_t, agg> b;
    std::uint8_t c{};
};
struct carr
{
    using serialize = zb::members<2>;
    P a[2];
    std::uint32_t b{};
};
struct ida { using serialize_id = zb::id<std::uint32_t(0x01020304)>; P p; };
struct idb { using serialize_id = zb::id<std::uint32_t(0x01020305)>; std::uint8_t q; Q p; };

std::vector<std::size_t> * offsets; // where the reference encoder put the probes
} // namespace

namespace model
{
template <typename T>
    requires std::same_as<T, P> || std::same_as<T, Q>
struct M<T>
{
    static void enc(Enc & e, const T & v)
    {
        offsets->push_back(e.out.size());
        e.out.push_back(std::byte(v.payload));
    }
};
template <>
struct Fields<agg>
{
    static auto get(agg & s) { return std::tie(s.a, s.b, s.c); }
};
template <>
struct Fields<members2>
{
    static auto get(members2 & s) { return std::tie(s.a, s.b); }
};
template <>
struct Fields<explicit_s>
{
    static auto get(explicit_s & s) { return std::tie(s.b, s.c, s.a); }
};
template <>
struct Fields<nested>
{
    static auto get(nested & s) { return std::tie(s.a, s.b, s.c); }
};
template <>
struct Fields<carr>
{
    static auto get(carr & s) { return std::tie(s.a, s.b); }
};
template <>
struct Fields<ida>
{
    static auto get(ida & s) { return std::tie(s.p); }
};
template <>
struct Fields<idb>
{
    static auto get(idb & s) { return std::tie(s.q, s.p); }
};
template <>
struct variant_id<ida>
{
    static wire_id id() { return {0x01020304, 4, {}}; }
};
template <>
struct variant_id<idb>
{
    static wire_id id() { return {0x01020305, 4, {}}; }
};
} // namespace model

namespace
{
void agree(zb::errc r, std::errc want, const char * what)
{
    auto says = [&] { return std::string(what) + " gave '" + show(r.code) + "' instead of '" + show(want) + "'"; };
    mc::require(r.code == want, "error", says);
    mc::require(std::errc(r) == want, "conversion", says);
    mc::require(success(r) == (want == std::errc{}) && failure(r) == (want != std::errc{}), "query", says);
    mc::require(zb::success(r.code) == success(r) && zb::failure(r.code) == failure(r), "query", says);
    mc::require((r == want) && !(r != want), "compare", says);
    bool thrown = false;
    try {
        r.or_throw();
    } catch (const std::system_error & e) {
        thrown = true;
        mc::require(e.code() == std::make_error_code(want) && e.code().value() == int(want), "throw-code",
                    "or_throw throws another error");
    }
    mc::require(thrown == (want != std::errc{}), "throw", says);
}

// A call of items; `tail` follows them in the same call.
template <typename... T>
struct shape
{
    std::tuple<T...> items;
};

template <typename Archive, typename Tuple, typename Tail>
zb::errc call(Archive & archive, Tuple & items, Tail & tail)
{
    return std::apply([&](auto &... x) -> zb::errc { return archive(x..., tail); }, items);
}

template <typename T>
bytes_t encode(const config & c, const T & items, std::uint32_t tail, std::vector<std::size_t> & at)
{
    offsets = &at;
    Enc e{c, {}};
    std::apply([&](auto &... x) { (M<std::remove_cvref_t<decltype(x)>>::enc(e, x), ...); }, items);
    M<std::uint32_t>::enc(e, tail);
    return std::move(e.out);
}

template <bool Fixed, typename... O>
struct options
{
    static auto make(auto & buf)
    {
        if constexpr (Fixed) {
            return zb::out{std::span<std::byte>{buf}, O{}...};
        } else {
            return zb::out{buf, O{}...};
        }
    }
};

// The failing call, then the call again, then something else.
template <typename Opt, typename Tuple>
void writing(const config & c, const Tuple & items)
{
    mc::bound(mc::thorough() ? 4 : 3);
    std::uint32_t tail = 0xf1f2f3f4;
    std::vector<std::size_t> at;
    auto whole = encode(c, items, tail, at);
    bytes_t buf;
    constexpr bool fixed = std::same_as<Opt, options<true>> || std::same_as<Opt, options<true, zb::endian::big>>;
    if constexpr (fixed) {
        buf.resize(3 * whole.size() + 8, std::byte{0x5c});
    }
    auto out = Opt::make(buf);
    bytes_t want;
    for (int round = 0; round < 2; ++round) {
        now = {};
        auto r = call(out, items, tail);
        mc::step();
        mc::case_done();
        mc::outcome(mc::mix(std::uint64_t(std::errc(r)), now.visited.size()));
        agree(r, now.error, "writing");
        auto n = whole.size();
        if (now.error == std::errc{}) {
            mc::require(now.visited.size() == at.size(), "skipped", "an item was not written");
        } else {
            n = at[std::size_t(now.failed_at)] + now.late;
        }
        for (std::size_t i = 0; i < now.visited.size(); ++i) {
            if (now.visited[i] != 0xee) {
                mc::require(std::byte(now.visited[i]) == whole[at[i]], "order", "items were not written in order");
            }
        }
        want.insert(want.end(), whole.begin(), whole.begin() + std::ptrdiff_t(n));
        mc::state(mc::hash_bytes(want.data(), want.size(), std::uint64_t(round)));
        mc::require(out.position() == want.size(), "position", [&] {
            return mc::format("position %zu after a call, expected %zu", out.position(), want.size());
        });
        mc::require(buf.size() >= want.size() && (want.empty() || !std::memcmp(buf.data(), want.data(), want.size())), "content", [&] {
            return "the buffer is " + show(buf) + ", expected " + show(want);
        });
        mc::require(fixed || buf.size() == want.size(), "size", "the buffer is not as large as what was written");
    }
    std::uint16_t more = 0x0a0b;
    agree(out(more), {}, "writing more");
    want = want + enc(c, more);
    mc::require(buf.size() >= want.size() && (want.empty() || !std::memcmp(buf.data(), want.data(), want.size())), "continue",
                "the archive does not go on after a failure");
}

template <typename... O, typename Tuple>
void reading(const config & c, const Tuple & items, Tuple (*fresh)())
{
    mc::bound(mc::thorough() ? 4 : 3);
    std::uint32_t tail = 0xf1f2f3f4;
    std::vector<std::size_t> at;
    auto whole = encode(c, items, tail, at);
    auto cut = mc::choose(whole.size() + 1, "missing bytes");
    bytes_t data = whole;
    if (!cut) {
        data = data + whole + whole;
    } else {
        data.resize(whole.size() - cut);
    }
    exact e(data);
    zb::in in{e.view(), O{}..., zb::alloc_limit<10000>{}};
    std::size_t pos = 0;
    for (int round = 0; round < (cut ? 1 : 2); ++round) {
        now = {};
        Tuple to = fresh();
        std::uint32_t t = 0x01234567;
        auto r = call(in, to, t);
        mc::step();
        mc::case_done();
        mc::outcome(mc::mix(std::uint64_t(std::errc(r)), now.visited.size()));
        mc::state(mc::mix(mc::hash_bytes(data.data(), data.size(), in.position()), std::uint64_t(std::errc(r))));
        std::errc want = now.error != std::errc{} ? now.error : cut ? std::errc::result_out_of_range : std::errc{};
        agree(r, want, "reading");
        mc::require(t == (want == std::errc{} ? tail : 0x01234567), "tail",
                    "the item after a failed one was modified, or the last one was not read");
        mc::require(in.position() <= data.size(), "beyond", "position beyond the data");
        if (now.error != std::errc{}) {
            auto n = at[std::size_t(now.failed_at)] + now.late;
            mc::require(in.position() == pos + n, "position", [&] {
                return mc::format("position %zu after a failing item, expected %zu", in.position(), pos + n);
            });
        } else if (!cut) {
            mc::require(now.visited.size() == at.size(), "skipped", "an item was not read");
            mc::require(in.position() == pos + whole.size(), "position", "not everything was consumed");
            // What was read is what was written.
            std::vector<std::size_t> at2;
            mc::require(encode(c, to, t, at2) == whole, "value", "other values were read than were written");
        }
        for (std::size_t i = 0; i < now.visited.size(); ++i) {
            mc::require(i < at.size(), "extra", "more items than were written");
            if (now.visited[i] != 0xee && now.visited[i] != 0xdd) {
                mc::require(std::byte(now.visited[i]) == whole[at[i]], "order", "items were not read in order");
            }
        }
        pos = in.position();
        if (!cut && round == 0 && now.error != std::errc{}) {
            in.reset(pos = whole.size());
        }
    }
    if (!cut) {
        // The archive goes on from where it is.
        std::uint8_t more = 0;
        bool left = pos < data.size();
        agree(in(more), left ? std::errc{} : std::errc::result_out_of_range, "reading more");
        mc::require(!left || std::byte(more) == data[pos], "continue", "the archive does not go on after a failure");
    }
}

// Fixed output which ends anywhere.
template <typename... O, typename Tuple>
void overflowing(const config & c, const Tuple & items)
{
    mc::bound(0);
    std::uint32_t tail = 0xf1f2f3f4;
    std::vector<std::size_t> at;
    auto whole = encode(c, items, tail, at);
    auto capacity = mc::choose(whole.size() + 1, "capacity");
    std::unique_ptr<std::byte[]> heap(new std::byte[capacity]);
    std::memset(heap.get(), 0x5c, capacity);
    zb::out out{std::span<std::byte>{heap.get(), capacity}, O{}...};
    now = {};
    auto r = call(out, items, tail);
    mc::step();
    mc::case_done();
    mc::state(mc::hash_bytes(whole.data(), whole.size(), capacity));
    mc::outcome(mc::mix(std::uint64_t(std::errc(r)), out.position()));
    agree(r, capacity == whole.size() ? std::errc{} : std::errc::result_out_of_range, "writing to a fixed buffer");
    mc::require(out.position() <= capacity, "position", "position beyond the buffer");
    mc::require(!out.position() || !std::memcmp(heap.get(), whole.data(), out.position()), "content",
                "items before the failing one were not written");
    for (auto i = out.position(); i < capacity; ++i) {
        mc::require(heap[i] == std::byte{0x5c}, "beyond", "bytes after the position were written");
    }
    // Every single-byte item which fits and precedes the failure is there.
    std::size_t last = 0;
    for (std::size_t i = 0; i < now.visited.size(); ++i) {
        if (now.visited[i] != 0xdd) {
            last = at[i] + 1;
        }
    }
    mc::require(out.position() >= last, "lost", "an item which was written is not part of the output");
}

template <typename... T>
std::tuple<T...> fresh_tuple()
{
    return std::tuple<T...>{};
}

template <typename... T, typename F>
void add(const char * name, F fill)
{
    using Tuple = std::tuple<T...>;
    std::string n = name;
    config def{}, big{true, prefix::p4}, bv{true, prefix::varint};
    auto make = [fill] {
        Tuple t;
        std::apply(fill, t);
        return t;
    };
    mc::add("write " + n, [=] { writing<options<false>>(def, make()); });
    mc::add("write big,varint " + n, [=] { writing<options<false, zb::endian::big, zb::size_varint>>(bv, make()); });
    mc::add("write fixed " + n, [=] { writing<options<true>>(def, make()); });
    mc::add("read " + n, [=] { reading<>(def, make(), fresh_tuple<T...>); });
    mc::add("read big,varint " + n, [=] { reading<zb::endian::big, zb::size_varint>(bv, make(), fresh_tuple<T...>); });
    mc::add("overflow " + n, [=] { overflowing<>(def, make()); });
    mc::add("overflow big " + n, [=] { overflowing<zb::endian::big>(big, make()); });
}

P p(int i) { return P{std::uint8_t(0x10 + i)}; }
Q q(int i) { return Q{std::uint8_t(0x10 + i)}; }

bool added = [] {
#if PART == 0
    add<P, Q, P, Q>("items", [](auto & a, auto & b, auto & c, auto & d) { a = p(1); b = q(2); c = p(3); d = q(4); });
    add<std::vector<P>, P>("vector", [](auto & v, auto & x) { v = {p(1), p(2), p(3)}; x = p(4); });
    add<std::list<Q>, std::deque<P>>("list,deque", [](auto & l, auto & d) { l = {q(1), q(2)}; d = {p(3), p(4)}; });
    add<std::array<P, 3>, Q>("array", [](auto & a, auto & x) { a = {p(1), p(2), p(3)}; x = q(4); });
    add<std::tuple<P, std::uint16_t, Q>, std::pair<Q, P>>(
        "tuple,pair", [](auto & t, auto & x) { t = {p(1), 0x2122, q(2)}; x = {q(3), p(4)}; });
#elif PART == 1
    add<std::optional<P>, std::optional<Q>, P>("optional", [](auto & a, auto & b, auto & c) { a = p(1); b = q(2); c = p(3); });
    add<std::unique_ptr<P>, std::shared_ptr<Q>, zb::optional_ptr<P>, P>("pointers", [](auto & a, auto & b, auto & c, auto & d) {
        a.reset(new P(p(1)));
        b.reset(new Q(q(2)));
        c.reset(new P(p(3)));
        d = p(4);
    });
    add<std::variant<std::uint16_t, P>, std::variant<Q, std::string>, P>(
        "variant", [](auto & a, auto & b, auto & c) { a = p(1); b = q(2); c = p(3); });
    add<std::variant<ida, idb>, std::variant<idb, ida>>("variant with ids", [](auto & a, auto & b) {
        a = ida{p(1)};
        b = idb{7, q(2)};
    });
#elif PART == 2
    add<std::map<std::uint8_t, P>, std::map<std::string, Q>>("map", [](auto & a, auto & b) {
        a[1] = p(1);
        a[9] = p(2);
        b["k"] = q(3);
        b["l"] = q(4);
    });
    add<std::set<P>, std::multiset<Q>>("set", [](auto & a, auto & b) {
        a.insert(p(1));
        a.insert(p(2));
        b.insert(q(3));
        b.insert(q(4));
    });
    add<agg, members2>("struct", [](auto & a, auto & b) {
        a = {p(1), 0x3132, p(2)};
        b.a = p(3);
        b.b = q(4);
    });
    add<explicit_s, carr>("explicit", [](auto & a, auto & b) {
        a.b = q(1);
        a.c = 0x41;
        a.a = p(2);
        b.a[0] = p(3);
        b.a[1] = p(4);
        b.b = 0x51525354;
    });
#else
    add<nested, P>("nested", [](auto & a, auto & b) {
        a.a = {p(1), {}, p(2)};
        a.b[1] = {p(3), 0x0203, p(4)};
        a.b[2] = {p(5), 0x0405, p(6)};
        a.c = 0x61;
        b = p(7);
    });
    add<zb::sized_t<std::vector<P>, std::uint16_t>, std::vector<zb::sized_t<std::vector<Q>, std::uint8_t>>>(
        "sized", [](auto & a, auto & b) {
            a = {p(1), p(2)};
            b.emplace_back();
            b.back().push_back(q(3));
            b.emplace_back();
            b.emplace_back();
            b.back().push_back(q(4));
        });
    add<std::vector<agg>, std::array<std::optional<members2>, 2>>("vector of structs", [](auto & a, auto & b) {
        a = {{p(1), 1, p(2)}, {p(3), 2, p(4)}};
        b[1].emplace();
        b[1]->a = p(5);
        b[1]->b = q(6);
    });
    add<std::vector<std::vector<P>>, std::unique_ptr<std::vector<Q>>>("vectors", [](auto & a, auto & b) {
        a = {{p(1)}, {}, {p(2), p(3)}};
        b.reset(new std::vector<Q>{q(4), q(5)});
    });
#endif
    return true;
}();

// ---------------------------------------------------------------------------
// The library's own errors: any sequence of items, each of which may fail, in
// one call, in several, and one after another with continued use.
#if PART == 4
struct any
{
    int kind{};
    std::uint8_t u8{0x71};
    std::uint32_t u32{0x81828384};
    std::string str{"abc"};
    zb::vuint32_t var{70000};
    std::unique_ptr<std::uint16_t> ptr{new std::uint16_t{0x9192}};
    std::unique_ptr<std::uint16_t> null;
    std::variant<std::uint8_t, std::string> variant{std::string("v")};
    std::optional<std::uint8_t> opt{3};
    std::bitset<3> bits{5};
    std::vector<std::unique_ptr<std::uint8_t>> vec;
    any()
    {
        vec.emplace_back(new std::uint8_t{1});
        vec.emplace_back();
    }
    static zb::errc serialize(auto & archive, auto & self)
    {
        switch (self.kind) {
        case 0: return archive(self.u8);
        case 1: return archive(self.u32);
        case 2: return archive(self.str);
        case 3: return archive(self.var);
        case 4: return archive(self.ptr);
        case 5: return archive(self.variant);
        case 6: return archive(self.bits, self.opt);
        case 7: return archive();
        case 8: return archive(self.u8, self.null, self.u32);
        default: return archive(self.vec);
        }
    }
};
void sequences()
{
    constexpr std::size_t kinds = 10;
    any items[4];
    std::size_t n = 1 + mc::choose(mc::thorough() ? 4 : 3, "items");
    for (std::size_t i = 0; i < n; ++i) {
        items[i].kind = int(mc::choose(kinds, "item"));
    }
    auto run = [&](bool together, std::size_t capacity, bytes_t & buf, std::size_t & pos) -> std::errc {
        buf.assign(capacity, std::byte{0x3c});
        zb::out out{std::span<std::byte>{buf}};
        zb::errc r{};
        if (together) {
            switch (n) {
            case 1: r = out(items[0]); break;
            case 2: r = out(items[0], items[1]); break;
            case 3: r = out(items[0], items[1], items[2]); break;
            default: r = out(items[0], items[1], items[2], items[3]); break;
            }
        } else {
            for (std::size_t i = 0; i < n && success(r); ++i) {
                r = out(items[i]);
            }
        }
        mc::step();
        pos = out.position();
        auto code = r.code;
        // Continue.
        auto m = out(std::uint8_t(0x42));
        agree(m, pos < capacity ? std::errc{} : std::errc::result_out_of_range, "continuing");
        return code;
    };
    for (std::size_t capacity = 0; capacity < 22; ++capacity) {
        bytes_t a, b;
        std::size_t pa, pb;
        auto ra = run(true, capacity, a, pa), rb = run(false, capacity, b, pb);
        mc::case_done();
        mc::state(mc::hash_bytes(a.data(), a.size(), pa));
        mc::outcome(mc::mix(std::uint64_t(ra), pa));
        mc::require(ra == rb && pa == pb && a == b, "sequential", [&] {
            return mc::format("%zu bytes: one call gave '%s' at %zu and %s, several '%s' at %zu and %s", capacity,
                              show(ra).c_str(), pa, show(a).c_str(), show(rb).c_str(), pb, show(b).c_str());
        });
        mc::require(ra == std::errc{} || ra == std::errc::result_out_of_range || ra == std::errc::invalid_argument, "code",
                    "another error than the failing item's");
        // Bytes before the position are those of a write with enough room.
        bytes_t full;
        std::size_t pf;
        auto rf = run(true, 80, full, pf);
        mc::require(std::equal(a.begin(), a.begin() + std::ptrdiff_t(pa), full.begin()) && pa <= pf, "prefix",
                    "the bytes before a failure are not those of a successful write");
        if (pf <= capacity) {
            mc::require(ra == rf && pa == pf, "room", "enough room gives another result than more room");
        } else {
            mc::require(ra == std::errc::result_out_of_range, "no-room", [&] {
                return mc::format("%zu bytes of %zu: '%s'", capacity, pf, show(ra).c_str());
            });
        }
    }
}

// Reading: hostile bytes into sequences of items; in one call and in several.
void read_sequences()
{
    constexpr std::size_t kinds = 9;
    std::size_t n = 1 + mc::choose(3, "items");
    int kind[3];
    for (std::size_t i = 0; i < n; ++i) {
        static const int map[] = {0, 1, 2, 3, 4, 5, 6, 7, 9};
        kind[i] = map[mc::choose(kinds, "item")];
    }
    static const std::string_view streams[] = {"00", "0102030405060708090a0b0c0d0e0f", "ffffffffffffffffffffffffff",
                                               "0101000000620101010000000000", "050000000161ffffffff7f0300000000",
                                               "80808080800100000000000001020000006162", ""};
    for (auto hex : streams) {
        auto data = unhex(hex);
        auto run = [&](bool together, std::size_t & pos, std::uint64_t & hash) -> std::errc {
            any items[3];
            for (std::size_t i = 0; i < 3; ++i) {
                items[i].kind = i < n ? kind[i] : 0;
            }
            exact e(data);
            zb::in in{e.view(), zb::alloc_limit<4096>{}};
            zb::errc r{};
            if (together) {
                r = n == 1 ? in(items[0]) : n == 2 ? in(items[0], items[1]) : in(items[0], items[1], items[2]);
            } else {
                for (std::size_t i = 0; i < n && success(r); ++i) {
                    r = in(items[i]);
                }
            }
            mc::step();
            pos = in.position();
            hash = 1;
            for (auto & x : items) {
                auto b = enc(config{}, x.u8, x.u32, x.str, x.var, x.variant, x.opt, x.bits);
                hash = mc::hash_bytes(b.data(), b.size(), hash);
                hash = mc::mix(hash, x.vec.size());
                hash = mc::mix(hash, x.ptr ? *x.ptr : 0x10000);
            }
            auto code = r.code;
            std::uint8_t more = 0;
            agree(in(more), pos < data.size() ? std::errc{} : std::errc::result_out_of_range, "continuing");
            return code;
        };
        std::size_t pa, pb;
        std::uint64_t ha, hb;
        auto ra = run(true, pa, ha), rb = run(false, pb, hb);
        mc::case_done();
        mc::state(mc::mix(ha, mc::hash_bytes(data.data(), data.size(), pa)));
        mc::outcome(mc::mix(std::uint64_t(ra), pa));
        mc::require(ra == rb && pa == pb && ha == hb, "sequential-read", [&] {
            return mc::format("%s: one call gave '%s' at %zu, several '%s' at %zu", show(data).c_str(), show(ra).c_str(),
                              pa, show(rb).c_str(), pb);
        });
    }
}

// Every error code through every way to look at it.
void codes()
{
    for (int code = 0; code < 140; ++code) {
        agree(zb::errc(std::errc(code)), std::errc(code), "an error");
        mc::case_done();
        mc::step();
        mc::state(std::uint64_t(code));
    }
}
bool more = mc::add("sequences", sequences) && mc::add("read sequences", read_sequences) && mc::add("codes", codes);
#endif
} // namespace
