// C18: every message within the deviation bound is written as the protocol
// buffers specification says, with every option of the archive around it.
#include "pb_types.hpp"

using namespace kit;
using pb::S;
using pb::val;

namespace
{
std::uint64_t pick_number(unsigned width, const char * label)
{
    static const std::uint64_t some[] = {0, 1, 127, 128, 150, 255, 16383, 16384, 0x7fffffff, 0x80000000, 0xffffffff,
                                         0x100000000, 0x7fffffffffffffff, 0x8000000000000000, ~std::uint64_t{}, 0xfffffffffffffffe,
                                         0x0102030405060708};
    return pb::mask(some[mc::deviate(std::size(some), label)], width);
}
val gen(const pb::field & f);

// Lengths instead of values: every length of one field, the rest at rest.
bool lengths;
int depth;
std::size_t pick_length()
{
    static const auto all = [] {
        std::vector<std::size_t> r;
        auto add = [&](std::size_t from, std::size_t to) {
            for (auto n = from; n <= to; ++n) {
                r.push_back(n);
            }
        };
        add(0, 300);
        add(16370, 16390);
        if (mc::thorough()) {
            add(301, 600);
            add(32740, 32780);
            add(65500, 65560);
            add(2097140, 2097156);
        }
        return r;
    }();
    return all[mc::deviate(all.size(), "length")];
}
val gen_text()
{
    static const std::size_t sizes[] = {0, 1, 2, 9, 127, 128, 16384};
    val x;
    auto n = lengths ? pick_length() : sizes[mc::deviate(std::size(sizes), "text")];
    for (std::size_t i = 0; i < n; ++i) {
        x.s.push_back(std::byte(n == 1 ? 0 : n == 2 ? 0xff - i : i * 7 + 1));
    }
    return x;
}
val gen_one(const pb::field & f)
{
    val x;
    switch (f.k) {
    case pb::kind::boolean:
        x.n = mc::deviate(2, "bool");
        break;
    case pb::kind::fixed32:
        x.n = pick_number(4, "fixed32");
        break;
    case pb::kind::fixed64:
    case pb::kind::varint:
    case pb::kind::zigzag:
        x.n = pick_number(f.k == pb::kind::fixed64 ? 8 : f.width, "number");
        break;
    case pb::kind::text:
        return gen_text();
    case pb::kind::message:
        ++depth;
        for (auto & g : f.sub->fields) {
            x.v.push_back(gen(g));
        }
        --depth;
        break;
    }
    return x;
}
val gen(const pb::field & f)
{
    val x;
    switch (f.r) {
    case pb::rule::nothing:
        return x;
    case pb::rule::one:
        return gen_one(f);
    case pb::rule::list:
    case pb::rule::set: {
        static const std::size_t sizes[] = {0, 1, 2, 3, 17, 130};
        auto n = lengths ? ((depth < 2) + mc::deviate(160, "elements")) % 160 : sizes[mc::deviate(std::size(sizes), "elements")];
        for (std::size_t i = 0; i < n; ++i) {
            auto e = n > 3 ? pb::default_of(pb::element_of(f)) : gen_one(f);
            if (n > 1) {
                if (f.k == pb::kind::text) {
                    e.s.insert(e.s.begin(), std::byte(i));
                } else if (f.k == pb::kind::message) {
                    (f.sub->fields[0].k == pb::kind::message ? e.v[0].v[0] : e.v[0]).n ^= i;
                } else {
                    e.n ^= f.k == pb::kind::boolean ? i & 1 : pb::mask(i * 3, f.k == pb::kind::fixed32 ? 4 : f.width);
                }
            }
            x.v.push_back(e);
        }
        if (f.r == pb::rule::set) {
            pb::to_set(x);
        }
        return x;
    }
    case pb::rule::map: {
        static const std::size_t sizes[] = {0, 1, 2, 40};
        auto n = lengths ? ((depth < 2) + mc::deviate(60, "entries")) % 60 : sizes[mc::deviate(std::size(sizes), "entries")];
        for (std::size_t i = 0; i < n; ++i) {
            val e;
            auto k = pb::key_of(f), v = pb::value_of(f);
            e.v.push_back(n > 2 ? pb::default_of(k) : gen_one(k));
            e.v.push_back(n > 2 ? pb::default_of(v) : gen_one(v));
            if (k.k == pb::kind::text) {
                e.v[0].s.insert(e.v[0].s.end(), i, std::byte(0x30 + i % 64));
            } else {
                e.v[0].n ^= k.k == pb::kind::boolean ? i & 1 : pb::mask(i * 5, k.k == pb::kind::fixed32 ? 4 : k.width);
            }
            std::erase_if(x.v, [&](auto & o) { return o.v[0] == e.v[0]; });
            x.v.push_back(e);
        }
        std::sort(x.v.begin(), x.v.end());
        return x;
    }
    }
    return x;
}
// The value with maps and sets in the order of the target's containers.
template <typename T>
val ordered(const T & t)
{
    pb::keep_order() = true;
    auto x = pb::to_val(t);
    pb::keep_order() = false;
    return x;
}

bytes_t prefixed(const bytes_t & body, prefix p, bool big)
{
    Enc e{{big, p}, {}};
    e.count(body.size());
    e.out.insert(e.out.end(), body.begin(), body.end());
    return e.out;
}

template <typename Write>
void expect(const char * how, const bytes_t & expected, Write && write)
{
    bytes_t got;
    auto e = write(got);
    mc::step();
    mc::case_done();
    mc::note([&] { return std::string(how) + ": " + show(e) + " " + show(got); });
    mc::require(e == std::errc{}, "write", [&] { return mc::format("%s: writing failed with %s", how, show(e).c_str()); });
    mc::require(got == expected, "bytes", [&] {
        return mc::format("%s: wrote %s, protocol buffers encoding is %s", how, show(got).c_str(), show(expected).c_str());
    });
}
template <typename T, typename... Options>
void options(const char * how, const T & t, const bytes_t & body, prefix p, bool big, Options... o)
{
    auto message = prefixed(body, p, big);
    bool fits = p == prefix::varint || p == prefix::none || p == prefix::p8 || body.size() >> (8 * unsigned(p)) == 0;
    if (!fits) {
        bytes_t d;
        zb::out out{d, o...};
        auto e = std::errc(out(t));
        mc::step();
        mc::case_done();
        mc::require(e == std::errc::message_size, "too-large", [&] {
            return mc::format("%s: a message of %zu bytes got %s", how, body.size(), show(e).c_str());
        });
        return;
    }
    expect(how, message, [&](bytes_t & d) {
        zb::out out{d, o...};
        auto e = std::errc(out(t));
        mc::require(e != std::errc{} || out.position() == message.size(), "position", [&] {
            return mc::format("%s: the position is %zu", how, out.position());
        });
        return e;
    });
    // Between other items, over an earlier content.
    Enc before{{big, p}, {}};
    before.number(0x1234, 2);
    Enc after{{big, p}, {}};
    after.number(0x56789abc, 4);
    expect(how, before.out + message + message + after.out, [&](bytes_t & d) {
        d.assign(message.size() + 7, std::byte{0xee});
        std::size_t n = 2 * message.size() + 6;
        zb::out out{d, o...};
        auto e = std::errc(out(std::uint16_t(0x1234), t, t, std::uint32_t(0x56789abc)));
        if (d.size() > n) { // message.size() < 1
            d.resize(n);
        }
        return e;
    });
}
// Every capacity of a fixed buffer, from the given position.
template <typename T, typename... O>
void fixed_sizes(const T & t, const bytes_t & message, std::size_t start, O... o)
{
    auto n = start + message.size();
    for (std::size_t cut = start; cut <= n + 2; ++cut) {
        if (cut > 40 && cut + 40 < n) {
            continue;
        }
        auto b = std::make_unique<std::byte[]>(cut);
        std::memset(b.get(), 0xcd, cut);
        std::span<std::byte> s{b.get(), cut};
        zb::out out{s, o...};
        out.position() = start;
        auto e = std::errc(out(t));
        mc::step();
        mc::case_done();
        for (std::size_t i = 0; i < start; ++i) {
            mc::require(b[i] == std::byte(0xcd), "fixed-before", "bytes before the position were changed");
        }
        if (cut < n) {
            mc::require(e == std::errc::result_out_of_range, "fixed-short", [&] {
                return mc::format("%zu bytes into a buffer of %zu: %s", n, cut, show(e).c_str());
            });
            mc::require(out.position() <= cut, "fixed-position", "the position is outside of the buffer");
        } else {
            mc::require(e == std::errc{} && out.position() == n && std::equal(message.begin(), message.end(), b.get() + start), "fixed-bytes", [&] {
                return mc::format("%zu bytes into a buffer of %zu: %s, position %zu, %s", n, cut, show(e).c_str(), out.position(),
                                  mc::hex(b.get(), cut).c_str());
            });
            for (std::size_t i = n; i < cut; ++i) {
                mc::require(b[i] == std::byte(0xcd), "fixed-after", "bytes after the message were changed");
            }
        }
    }
}

template <typename T, bool Lengths = false>
void run()
{
    lengths = Lengths;
    depth = 0;
    mc::bound(Lengths ? 1 : mc::thorough() ? 3 : 2);
    auto & s = S<T>::of();
    val x;
    for (auto & f : s.fields) {
        x.v.push_back(gen(f));
    }
    T t{};
    pb::from_val(t, x);
    mc::require(pb::to_val(t) == x, "harness", "the value was not built");
    auto body = pb::encode(s, ordered(t));
    mc::state(pb::hash(x));
    mc::outcome(mc::hash_bytes(body.data(), body.size()));
    mc::note([&] { return "value " + pb::show(x); });
    // The reference encoder and decoder agree.
    auto d = pb::decode(s, body.data(), body.size());
    mc::require(d.v == pb::verdict::valid && d.x == x, "harness", [&] { return "the reference decodes " + pb::show(d.x); });

#ifdef CHECK_C05
    fixed_sizes(t, prefixed(body, prefix::varint, false), 0, zb::size_varint{});
    fixed_sizes(t, prefixed(body, prefix::varint, false), 3, zb::size_varint{}, zb::endian::big{});
    fixed_sizes(t, prefixed(body, prefix::p4, false), 0);
    fixed_sizes(t, prefixed(body, prefix::p4, true), 5, zb::endian::big{});
    fixed_sizes(t, body, 1, zb::no_size{});
    return;
#endif
    options("no size", t, body, prefix::none, false, zb::no_size{});
    options("no size, big endian", t, body, prefix::none, true, zb::no_size{}, zb::endian::big{});
    options("4 bytes", t, body, prefix::p4, false);
    options("1 byte", t, body, prefix::p1, false, zb::size1b{});
    options("2 bytes, big endian", t, body, prefix::p2, true, zb::size2b{}, zb::endian::big{});
    options("8 bytes", t, body, prefix::p8, false, zb::size8b{}, zb::exact_enlarger{});
    options("varint", t, body, prefix::varint, false, zb::size_varint{});
    options("varint, big endian", t, body, prefix::varint, true, zb::size_varint{}, zb::endian::big{});
    options("varint, limit", t, body, prefix::varint, false, zb::size_varint{}, zb::alloc_limit<1000000>{}, zb::no_enlarge_overflow{});
    expect("unsized", body, [&](bytes_t & d) {
        zb::out out{d};
        return std::errc(out(zb::unsized(t)));
    });
    expect("sized 2", prefixed(body, prefix::p2, false), [&](bytes_t & d) {
        zb::out out{d, zb::no_size{}};
        return std::errc(out(zb::sized<std::uint16_t>(t)));
    });
    expect("no fit", prefixed(body, prefix::p4, false), [&](bytes_t & d) {
        zb::out out{d, zb::no_fit_size{}};
        auto e = std::errc(out(t));
        d.resize(std::min(d.size(), out.position()));
        return e;
    });
    expect("appended string", prefixed(body, prefix::p4, false), [&](bytes_t & d) {
        std::string text = "ab";
        zb::out out{text, zb::append{}};
        auto e = std::errc(out(t));
        mc::require(text.substr(0, 2) == "ab", "earlier", "earlier content is lost");
        d = bytes_of(text.substr(2));
        return e;
    });
    std::vector<T> v(1, t);
    expect("in a vector", unhex("01000000") + prefixed(pb::encode(s, ordered(v[0])), prefix::p4, false), [&](bytes_t & d) {
        zb::out out{d};
        return std::errc(out(v));
    });
    fixed_sizes(t, prefixed(body, prefix::varint, false), 0, zb::size_varint{});
    // And back.
    exact whole(body);
    T u{};
    zb::in in{whole.view(), zb::no_size{}};
    auto e = std::errc(in(u));
    mc::step();
    mc::case_done();
    mc::require(e == std::errc{} && pb::to_val(u) == x && in.position() == body.size(), "back", [&] {
        return mc::format("reading %s back: %s, position %zu, value %s", show(body).c_str(), show(e).c_str(), in.position(),
                          pb::show(pb::to_val(u)).c_str());
    });
}

#define MESSAGE(T) mc::add(#T, run<T>), mc::add("lengths of " #T, run<T, true>)
using namespace pbt;
bool added = [] {
#if PART == 0
    MESSAGE(one);
    mc::add("numbers", run<pbt::numbers>);
    mc::add("lengths of numbers", run<pbt::numbers, true>);
    MESSAGE(fixed);
    mc::add("empty", run<pbt::empty>);
#elif PART == 1
    MESSAGE(texts);
    MESSAGE(packed);
    MESSAGE(mapped);
#elif PART == 2
    MESSAGE(packed2);
    MESSAGE(repeated);
#elif PART == 3
    MESSAGE(maps);
    MESSAGE(preset);
#elif PART == 4
    MESSAGE(maps2);
    MESSAGE(inner);
#elif PART == 5
    MESSAGE(nested);
    MESSAGE(large);
#elif PART == 6
    MESSAGE(deep);
    MESSAGE(node);
#endif
    return true;
}();
} // namespace
