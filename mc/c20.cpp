// C20: arbitrary bytes as a protocol buffers message, alone and inside a size.
#include "pb_gen.hpp"
#if PART == 0
#define ALLOC_IMPLEMENTATION
#endif
#include "alloc.hpp"

namespace
{
// Heap blocks of exactly 0, 1, 2... bytes, allocated once.
std::byte * block(std::size_t n)
{
    static std::vector<std::unique_ptr<std::byte[]>> blocks;
    while (blocks.size() <= n) {
        blocks.push_back(std::make_unique<std::byte[]>(blocks.size()));
    }
    return blocks[n].get();
}

template <typename T, typename... O>
std::errc decode(const std::byte * p, std::size_t n, T & t, std::size_t & position, std::size_t input, std::size_t start = 0)
{
    std::span<const std::byte> view{p, n};
    zb::in in{view, O{}...};
    in.position() = start;
    std::errc e;
    std::size_t peak;
    {
        alloc::scope a;
        e = std::errc(in(t));
        peak = alloc::now.peak_bytes;
    }
    position = in.position();
    mc::require(position <= n, "position", [&] { return mc::format("the position %zu is outside of the %zu bytes", position, n); });
    mc::require(peak <= (std::is_same_v<T, pbt::packed2> ? 8192 : 512) + 128 * input, "memory", [&] {
        return mc::format("%zu bytes were allocated for a message of %zu bytes: %s", peak, input, mc::hex(p, n).c_str());
    });
    return e;
}
template <typename T>
void judge(const char * how, const std::byte * whole, std::size_t size, const pb::decoded & d, const val & cleared, const T & t,
           std::errc e, bool consumed)
{
    mc::step();
    mc::case_done();
    auto text = [&] { return mc::hex(whole, size); };
    if (d.v == pb::verdict::invalid) {
        mc::require(e != std::errc{}, "accepted", [&] { return mc::format("%s: %s is accepted, it is no valid message", how, text().c_str()); });
        return;
    }
    if (d.v == pb::verdict::valid) {
        mc::require(e == std::errc{}, "rejected", [&] { return mc::format("%s: the valid message %s is rejected", how, text().c_str()); });
    }
    if (e != std::errc{}) {
        return;
    }
    mc::require(consumed, "consumed", [&] { return mc::format("%s: not exactly the message of %s was consumed", how, text().c_str()); });
    if (d.v == pb::verdict::valid) {
        auto got = pb::to_val(t);
        mc::outcome(pb::hash(got));
        mc::require(got == d.x || got == cleared, "value", [&] {
            return mc::format("%s: %s gives %s instead of %s", how, text().c_str(), pb::show(got).c_str(), pb::show(d.x).c_str());
        });
    } else {
        (void)pb::to_val(t); // looks at everything
    }
}
template <typename T>
struct expected
{
    pb::decoded d;
    val cleared;
};
template <typename T>
void reference(const std::byte * p, std::size_t n, pb::decoded & d, val & cleared)
{
    static const val fresh = pb::to_val(T{});
    bool loose = false;
    d.x = fresh;
    d.v = pb::decode(S<T>::of(), {p, n, &loose}, d.x, true);
    if (loose && d.v == pb::verdict::valid) {
        d.v = pb::verdict::free;
    }
    cleared = d.x;
    if (d.v == pb::verdict::valid) {
        cleared = fresh;
        pb::decode(S<T>::of(), {p, n, &loose}, cleared, false);
    }
}
// The message is everything.
template <typename T>
void alone(const std::byte * p, std::size_t n)
{
    pb::decoded d;
    val cleared;
    reference<T>(p, n, d, cleared);
    auto b = block(n);
    if (n) {
        std::memcpy(b, p, n);
    }
    T t{};
    std::size_t position;
    auto e = decode<T, zb::no_size>(b, n, t, position, n);
    judge("no size", b, n, d, cleared, t, e, position == n);
}
// The message is `n` bytes, of which `declared` are said to be there; `more`
// bytes follow.
template <typename T, typename... O>
void sized(const char * how, const bytes_t & prefix, const std::byte * p, std::size_t n, std::uint64_t declared)
{
    pb::decoded d;
    val cleared;
    if (declared > n) {
        d.v = pb::verdict::invalid;
    } else {
        reference<T>(p, declared, d, cleared);
    }
    auto total = prefix.size() + n;
    auto b = block(total);
    std::memcpy(b, prefix.data(), prefix.size());
    if (n) {
        std::memcpy(b + prefix.size(), p, n);
    }
    T t{};
    std::size_t position;
    auto e = decode<T, O...>(b, total, t, position, total);
    judge(how, b, total, d, cleared, t, e, position == prefix.size() + declared);
    mc::require(declared > n || position <= prefix.size() + declared, "beyond", [&] {
        return mc::format("%s: the read position went beyond the message: %s", how, mc::hex(b, total).c_str());
    });
}
// Whether no text and no packed list of `x` takes more bytes than `limit`.
bool within(const pb::field & f, pb::kind k, const val & x, std::size_t limit);
bool within(const schema & s, const val & x, std::size_t limit)
{
    for (std::size_t i = 0; i < s.fields.size() && i < x.v.size(); ++i) {
        auto & f = s.fields[i];
        if (f.r == pb::rule::one) {
            if (!within(f, f.k, x.v[i], limit)) {
                return false;
            }
        } else if (f.r == pb::rule::map) {
            for (auto & e : x.v[i].v) {
                if (e.v.size() == 2 && (!within(f, f.key, e.v[0], limit) || !within(f, f.k, e.v[1], limit))) {
                    return false;
                }
            }
        } else if (f.r != pb::rule::nothing) {
            auto width = f.k == pb::kind::fixed32 ? 4 : f.k == pb::kind::fixed64 ? 8 : 1;
            if (f.r == pb::rule::list && f.k != pb::kind::text && f.k != pb::kind::message && x.v[i].v.size() * width > limit) {
                return false;
            }
            for (auto & e : x.v[i].v) {
                if (!within(f, f.k, e, limit)) {
                    return false;
                }
            }
        }
    }
    return true;
}
bool within(const pb::field & f, pb::kind k, const val & x, std::size_t limit)
{
    return k == pb::kind::text ? x.s.size() <= limit : k != pb::kind::message || !f.sub || within(*f.sub, x, limit);
}
// The message is the rest of the input, and what it may allocate is limited.
template <std::size_t Limit, typename T>
void limited(const bytes_t & whole, std::size_t start, pb::decoded & d, val & cleared)
{
    auto b = block(whole.size());
    T t{};
    std::size_t position;
    auto e = decode<T, zb::no_size, zb::alloc_limit<Limit>>(b, whole.size(), t, position, whole.size(), start);
    auto n = whole.size() - start;
    if (e == std::errc::message_size && n * 8 > Limit) {
        mc::step();
        mc::case_done();
        return;
    }
    judge("with an allocation limit", b, whole.size(), d, cleared, t, e, position == whole.size());
    if (e == std::errc{} && d.v == pb::verdict::valid) {
        auto got = pb::to_val(t);
        mc::require(within(S<T>::of(), got, Limit), "limit", [&] {
            return mc::format("a limit of %zu bytes allows %s from %s", Limit, pb::show(got).c_str(), mc::hex(b, whole.size()).c_str());
        });
    }
}
// The message is the rest of the input.
template <typename T>
void rest(const bytes_t & m)
{
    for (std::size_t start : {0, 1, 7}) {
        bytes_t whole;
        for (std::size_t i = 0; i < start; ++i) {
            whole.push_back(std::byte(0x0a));
        }
        whole.insert(whole.end(), m.begin(), m.end());
        auto b = block(whole.size());
        if (!whole.empty()) {
            std::memcpy(b, whole.data(), whole.size());
        }
        pb::decoded d;
        val cleared;
        reference<T>(b + start, m.size(), d, cleared);
        if (start) {
            T t{};
            std::size_t position;
            auto e = decode<T, zb::no_size>(b, whole.size(), t, position, whole.size(), start);
            judge("behind other data", b, whole.size(), d, cleared, t, e, position == whole.size());
        }
        limited<5, T>(whole, start, d, cleared);
    }
}
template <typename T>
void all_ways(const bytes_t & m)
{
    alone<T>(m.data(), m.size());
    rest<T>(m);
    auto n = m.size();
    mc::state(mc::hash_bytes(m.data(), n));
    for (std::uint64_t declared : {std::uint64_t(n), std::uint64_t(n ? n - 1 : 0), std::uint64_t(n / 2), std::uint64_t(n + 1),
                                   std::uint64_t(n + 1000), std::uint64_t(0xffffffff), std::uint64_t(1) << 32, ~std::uint64_t{},
                                   ~std::uint64_t{} - 4}) {
        bytes_t prefix;
        pb::put_varint(prefix, declared);
        sized<T, zb::size_varint>("varint", prefix, m.data(), n, declared);
        prefix.clear();
        pb::put_fixed(prefix, declared, 8);
        sized<T, zb::size8b>("8 bytes", prefix, m.data(), n, declared);
        if (declared <= 0xffffffff) {
            prefix.clear();
            for (int i = 3; i >= 0; --i) {
                prefix.push_back(std::byte(std::uint8_t(declared >> (8 * i))));
            }
            sized<T, zb::endian::big>("4 bytes, big endian", prefix, m.data(), n, declared);
        }
    }
}

std::vector<std::byte> letters(const schema & s)
{
    std::vector<std::byte> r;
    auto put = [&](unsigned b) {
        if (std::find(r.begin(), r.end(), std::byte(b)) == r.end()) {
            r.push_back(std::byte(b));
        }
    };
    for (unsigned b : {0x00, 0x01, 0x02, 0x80, 0xff}) {
        put(b);
    }
    std::size_t fields = 0;
    for (auto & f : s.fields) {
        if (f.number < 16 && r.size() < 11) {
            auto w = f.r == pb::rule::map ? 2 : pb::wire(f.k);
            put(f.number << 3 | w);
            if (!fields++) {
                put(f.number << 3 | (w == 2 ? 0 : 2));
            }
        }
    }
    put(0x12);
    put(0x08);
    put(0x04);
    return r;
}
template <typename T>
void strings()
{
    static const auto a = letters(S<T>::of());
    std::size_t longest = mc::thorough() ? 7 : 6;
    std::byte m[8];
    auto first = mc::choose(a.size(), "byte");
    auto second = mc::choose(a.size(), "byte");
    m[0] = a[first];
    m[1] = a[second];
    if (!second) {
        alone<T>(m, 1);
    }
    alone<T>(m, 2);
    for (std::size_t n = 3; n <= longest; ++n) {
        std::size_t at[8]{};
        for (;;) {
            for (std::size_t i = 2; i < n; ++i) {
                m[i] = a[at[i]];
            }
            alone<T>(m, n);
            std::size_t i = 2;
            while (i < n && ++at[i] == a.size()) {
                at[i++] = 0;
            }
            if (i == n) {
                break;
            }
        }
        mc::state(mc::mix(first * 100 + second, n));
    }
}
template <typename T>
void nothing()
{
    mc::choose(1);
    all_ways<T>({});
}
template <typename T>
void mutations()
{
    static const records base = [] {
        auto a = alphabet(S<T>::of(), true, 2);
        records r;
        for (auto & b : a) {
            if (b.size() < 60) {
                r.push_back(b);
            }
        }
        auto n = r.size();
        for (std::size_t i = 0; i + 1 < n; ++i) {
            r.push_back(r[i] + r[i + 1]);
            if (mc::thorough()) {
                r.push_back(r[i] + r[(i * 7 + 3) % n] + r[i + 1]);
            }
        }
        return r;
    }();
    auto & m = base[mc::choose(base.size(), "message")];
    all_ways<T>(m);
    for (std::size_t i = 0; i < m.size(); ++i) {
        auto c = m;
        for (int v = 0; v < 256; ++v) {
            c[i] = std::byte(v);
            alone<T>(c.data(), c.size());
        }
        for (int v : {0, 1, 0x7f, 0x80, 0xff, int(m[i]) + 1 & 255, int(m[i]) - 1 & 255}) {
            c[i] = std::byte(v);
            all_ways<T>(c);
        }
        alone<T>(m.data(), i);
        c = m;
        c.erase(c.begin() + i);
        all_ways<T>(c);
        for (int v : {0, 1, 2, 0x80, 0xff}) {
            c = m;
            c.insert(c.begin() + i, std::byte(v));
            alone<T>(c.data(), c.size());
        }
        // Longer varints.
        c = m;
        c[i] |= std::byte(0x80);
        c.insert(c.begin() + i + 1, std::byte(0));
        alone<T>(c.data(), c.size());
        for (int extra : {1, 2, 3, 7, 8, 9}) {
            c.insert(c.begin() + i + 1, extra, std::byte(0x80));
            alone<T>(c.data(), c.size());
        }
        // A length of 64 bits.
        for (std::uint64_t v : {std::uint64_t(0xffffffff), std::uint64_t(1) << 32, ~std::uint64_t{}, ~std::uint64_t{} - 9, ~std::uint64_t{} >> 1}) {
            bytes_t huge(m.begin(), m.begin() + i);
            pb::put_varint(huge, v);
            huge.insert(huge.end(), m.begin() + i + 1, m.end());
            alone<T>(huge.data(), huge.size());
        }
    }
}
template <typename T>
void add(const char * name)
{
    mc::add("!" + std::string(name) + " strings", strings<T>);
    mc::add(std::string(name) + " nothing", nothing<T>);
    mc::add(std::string(name) + " mutations", mutations<T>);
}
using namespace pbt;
bool added = [] {
#if PART == 0
    add<one>("one");
    add<pbt::numbers>("numbers");
    add<fixed>("fixed");
    add<pbt::empty>("empty");
#elif PART == 1
    add<texts>("texts");
    add<packed>("packed");
    add<mapped>("mapped");
#elif PART == 2
    add<packed2>("packed2");
    add<repeated>("repeated");
#elif PART == 3
    add<maps>("maps");
    add<preset>("preset");
#elif PART == 4
    add<maps2>("maps2");
    add<inner>("inner");
#elif PART == 5
    add<nested>("nested");
    add<large>("large");
#elif PART == 6
    add<deep>("deep");
    add<node>("node");
#endif
    return true;
}();
} // namespace
