// C24: histories of reads and position changes on an input archive.
#include "kit.hpp"

using namespace kit;

namespace
{
struct agg { std::uint8_t a; std::uint16_t b; };
struct packed { std::uint16_t a; std::uint16_t b; };
struct msg
{
    zb::vint32_t a;
    std::string b;
    using serialize = zb::protocol<zb::pb{}, 2>;
    bool operator==(const msg &) const = default;
};
} // namespace
namespace model
{
template <>
struct Fields<agg>
{
    static auto get(agg & s) { return std::tie(s.a, s.b); }
};
template <>
struct Fields<packed>
{
    static auto get(packed & s) { return std::tie(s.a, s.b); }
};
} // namespace model

namespace
{
using types = std::tuple<std::uint8_t, std::uint32_t, std::string, zb::vuint32_t, zb::vsint64_t, agg, std::vector<std::uint16_t>,
                         std::optional<std::uint16_t>, std::bitset<9>, std::variant<std::uint8_t, std::string>,
                         std::map<std::uint8_t, std::uint8_t>, std::array<packed, 2>, std::unique_ptr<std::uint16_t>,
                         std::tuple<std::uint8_t, std::string>>;
constexpr std::size_t n_types = std::tuple_size_v<types>;

struct result
{
    std::errc error{};
    std::size_t end{};
    std::uint64_t value{}; // a hash of the re-encoded value
    bool operator==(const result &) const = default;
};

template <typename T>
std::uint64_t value_hash(const T & v)
{
    auto e = enc(config{}, v);
    return mc::hash_bytes(e.data(), e.size());
}

template <typename In>
using view_t = std::span<const std::remove_cvref_t<decltype(*std::declval<In &>().data().data())>>;

template <typename In, typename T>
result read_one(In & in)
{
    result r;
    T v = model::fresh_of<T>();
    r.error = in(v);
    r.end = in.position();
    if (r.error == std::errc{}) {
        r.value = value_hash(v);
    }
    return r;
}

template <typename In, std::size_t I = 0>
result read(In & in, std::size_t what)
{
    if constexpr (I < n_types) {
        if (what == I) {
            return read_one<In, std::tuple_element_t<I, types>>(in);
        }
        return read<In, I + 1>(in, what);
    } else if (what == n_types) {
        // Several items in one call.
        std::uint8_t a{};
        std::string b;
        std::uint16_t c{};
        result r;
        r.error = in(a, b, c);
        r.end = in.position();
        r.value = mc::mix(value_hash(a), mc::mix(value_hash(b), value_hash(c)));
        return r;
    } else if (what == n_types + 1) {
        view_t<In> v;
        result r;
        r.error = in(v);
        r.end = in.position();
        if (r.error == std::errc{}) {
            r.value = mc::hash_bytes(v.data(), v.size());
        }
        return r;
    } else if (what == n_types + 2) {
        view_t<In> v;
        result r;
        r.error = in(zb::unsized(v));
        r.end = in.position();
        r.value = mc::hash_bytes(v.data(), v.size());
        return r;
    } else {
        msg m;
        result r;
        r.error = in(m);
        r.end = in.position();
        if (r.error == std::errc{}) {
            r.value = mc::mix(value_hash(m.a), value_hash(m.b));
        }
        return r;
    }
}
constexpr std::size_t n_reads = n_types + 4;

template <std::size_t I = 0>
bool by_model(std::size_t what, const config & c, const bytes_t & data, std::size_t pos, result & r)
{
    if constexpr (I < n_types) {
        if (what == I) {
            using T = std::tuple_element_t<I, types>;
            model::Dec d{c, data.data(), data.size(), pos};
            T v = model::fresh_of<T>();
            r.error = M<T>::dec(d, v);
            r.end = d.pos;
            if (r.error == std::errc{}) {
                r.value = value_hash(v);
            }
            return true;
        }
        return by_model<I + 1>(what, c, data, pos, r);
    } else {
        return false;
    }
}

const std::string_view streams[] = {
    "0361ff0300616263ac0201020304",
    "010000000201006180808001ffffff7f05",
    "0200000001000200030004",
    "00000000ffffffffffffffffffff01",
};

template <typename B>
B as(const bytes_t & b)
{
    using V = std::remove_const_t<B>;
    if constexpr (requires(V x) { x.resize(1); }) {
        V r;
        r.resize(b.size());
        std::memcpy(r.data(), b.data(), b.size());
        return r;
    } else {
        V r{};
        std::memcpy(r.data(), b.data(), b.size());
        return r;
    }
}

template <typename B, typename... X>
void history(config c, std::string_view hex)
{
    auto data = unhex(hex);
    B buf = as<B>(data);
    c.alloc_limit = 4096;
    zb::in in{buf, X{}..., zb::alloc_limit<4096>{}};
    std::size_t pos = 0;
    int depth = mc::thorough() ? 4 : 3;
    auto n = buf.size();
    data.resize(n); // a fixed array may be longer
    for (int d = 0; d < depth; ++d) {
        auto k = mc::choose(n_reads + n + 1 + 1, "");
        mc::state(mc::mix(pos, k * 8 + std::size_t(d)));
        if (k < n_reads) {
            auto got = read(in, k);
            mc::step();
            // A fresh archive over a fresh copy.
            using byte = std::remove_cvref_t<decltype(*buf.data())>;
            exact copy(data);
            zb::in fresh{std::span<const byte>{reinterpret_cast<const byte *>(copy.data.get()), n}, X{}..., zb::alloc_limit<4096>{}};
            fresh.position() = pos;
            auto want = read(fresh, k);
            mc::case_done();
            mc::note([&] { return mc::format("read %zu at %zu: %s, now at %zu", k, pos, show(got.error).c_str(), got.end); });
            mc::outcome(mc::mix(std::uint64_t(got.error), mc::mix(got.end, got.value)));
            mc::require(got == want, "history", [&] {
                return mc::format("read %zu at %zu of %s gave %s at %zu, a fresh archive %s at %zu", k, pos,
                                  show(data).c_str(), show(got.error).c_str(), got.end, show(want.error).c_str(), want.end);
            });
            mc::require(got.end <= n, "position", "the position is beyond the data");
            result m;
            if (by_model(k, c, data, pos, m)) {
                mc::require(m.error == got.error && (m.error != std::errc{} || m == got), "model", [&] {
                    return mc::format("read %zu at %zu of %s gave %s at %zu, expected %s at %zu", k, pos,
                                      show(data).c_str(), show(got.error).c_str(), got.end, show(m.error).c_str(), m.end);
                });
            }
            pos = got.end;
        } else if (k < n_reads + n + 1) {
            pos = k - n_reads;
            if (d % 2) {
                in.reset(pos);
            } else {
                in.position() = pos;
            }
            mc::note([&] { return mc::format("position %zu", pos); });
        } else {
            in.reset();
            pos = 0;
        }
        mc::require(std::as_const(in).position() == pos, "position-read", "position() is not what was set");
        auto done = in.processed_data();
        auto left = in.remaining_data();
        auto base = reinterpret_cast<const std::byte *>(buf.data());
        mc::require(reinterpret_cast<const std::byte *>(done.data()) == base && done.size() == pos &&
                        reinterpret_cast<const std::byte *>(left.data()) == base + pos && left.size() == n - pos,
                    "parts", "processed and remaining data do not partition the data at the position");
        mc::require(in.data().size() == n && !std::memcmp(buf.data(), data.data(), n), "modified", "reading changed the data");
    }
}

// Reading while the same buffer is written: what was read stays read, what is
// written can be read, and neither moves the other.
template <typename... X>
void both(config c)
{
    c.alloc_limit = 4096;
    auto [data, in, out] = zb::data_in_out(X{}..., zb::alloc_limit<4096>{});
    bytes_t model;
    std::size_t rpos = 0, wpos = 0;
    int depth = mc::thorough() ? 8 : 6;
    for (int d = 0; d < depth; ++d) {
        mc::state(mc::hash_bytes(model.data(), model.size(), mc::mix(rpos, wpos)));
        auto k = mc::choose(9, "");
        if (k < 4) {
            bytes_t e;
            std::errc r{};
            std::uint16_t u = std::uint16_t(0x1102 + d);
            std::string s(std::size_t(d) * 9, char('a' + d));
            zb::vuint32_t v{std::uint32_t(200 + d)};
            switch (k) {
            case 0: r = out(u); e = enc(c, u); break;
            case 1: r = out(s); e = enc(c, s); break;
            case 2: r = out(v); e = enc(c, v); break;
            default: r = out(s, u); e = enc(c, s, u); break;
            }
            mc::step();
            mc::require(r == std::errc{}, "write", "a write failed");
            if (model.size() < wpos + e.size()) {
                model.resize(wpos + e.size());
            }
            std::copy(e.begin(), e.end(), model.begin() + std::ptrdiff_t(wpos));
            wpos += e.size();
        } else if (k < 7) {
            static const std::size_t what[] = {0, 2, 3};
            auto w = what[k - 4];
            result m;
            by_model(w, c, model, rpos, m);
            auto got = read(in, w);
            mc::step();
            mc::case_done();
            mc::outcome(mc::mix(std::uint64_t(got.error), mc::mix(got.end, got.value)));
            mc::require(m.error == got.error && (m.error != std::errc{} || m == got), "both", [&] {
                return mc::format("reading %zu at %zu while writing gave %s at %zu, expected %s at %zu", w, rpos,
                                  show(got.error).c_str(), got.end, show(m.error).c_str(), m.end);
            });
            rpos = got.end;
        } else if (k == 7) {
            in.reset();
            rpos = 0;
        } else {
            out.reset();
            wpos = 0;
        }
        mc::require(in.position() == rpos && out.position() == wpos, "independent", "one archive moved the other");
        mc::require(in.remaining_data().size() == data.size() - rpos && in.processed_data().size() == rpos, "parts",
                    "the views of the input do not follow the data");
        mc::require(data.size() == model.size() && (model.empty() || !std::memcmp(data.data(), model.data(), model.size())),
                    "written", "the buffer is not what was written");
    }
}

using vb = std::vector<std::byte>;
constexpr config native{false, prefix::p4};

template <typename B, typename... X>
void add(const char * name, config c)
{
    for (auto h : streams) {
        mc::add(std::string("!") + name + " " + std::string(h.substr(0, 12)), [=] { history<B, X...>(c, h); });
    }
}

bool added = [] {
#if PART == 0
    add<vb>("vector", native);
#elif PART == 1
    add<const std::string, zb::size1b>("const string,size1b", config{false, prefix::p1});
#elif PART == 2
    add<std::array<unsigned char, 18>, zb::endian::big, zb::size_varint>("array,big,size_varint", config{true, prefix::varint});
#elif PART == 3
    add<std::vector<char>, zb::endian::big, zb::size2b>("vector<char>,big,size2b", config{true, prefix::p2});
    mc::add("!both default", [] { both<>(native); });
    mc::add("!both big,varint", [] { both<zb::endian::big, zb::size_varint>(config{true, prefix::varint}); });
#endif
    return true;
}();
} // namespace
