// C19: every sequence of records from an alphabet which has, for each field,
// every valid way to write it (and for unknown and mismatching fields every
// wire type) is decoded to what the specification says.
#include "pb_gen.hpp"

namespace
{
template <typename T, typename... O>
void read_one(const char * how, const bytes_t & whole, std::size_t end, const val & expected, const val & cleared, const bytes_t & message, O... o)
{
    exact data(whole);
    T t{};
    zb::in in{data.view(), O{}...};
    auto e = std::errc(in(t));
    mc::step();
    mc::case_done();
    mc::require(e == std::errc{}, "rejected", [&] {
        return mc::format("%s: the valid message %s is rejected with %s", how, show(message).c_str(), show(e).c_str());
    });
    auto got = pb::to_val(t);
    mc::outcome(pb::hash(got));
    if (!(got == expected) && got == cleared) {
        mc::report("split-embedded", mc::format("%s: the message %s gives %s, the specification says %s: an embedded message in several "
                                              "records keeps only the repeated fields of the last",
                                              how, show(message).c_str(), pb::show(got).c_str(), pb::show(expected).c_str()));
        return;
    }
    mc::require(got == expected, "value", [&] {
        return mc::format("%s: the message %s gives %s, the specification says %s", how, show(message).c_str(), pb::show(got).c_str(),
                          pb::show(expected).c_str());
    });
    mc::require(in.position() == end, "consumed", [&] {
        return mc::format("%s: reading %s ended at %zu instead of %zu", how, show(message).c_str(), in.position(), end);
    });
}
bytes_t prefixed(const bytes_t & body, prefix p, bool big)
{
    Enc e{{big, p}, {}};
    e.count(body.size());
    e.out.insert(e.out.end(), body.begin(), body.end());
    return e.out;
}
template <typename T>
void check(const bytes_t & m, bool ways_to_read)
{
    auto & s = S<T>::of();
    bool loose = false;
    val x = pb::to_val(T{}), y = x;
    auto v = pb::decode(s, {m.data(), m.size(), &loose}, x, true);
    mc::require(v == pb::verdict::valid && !loose, "harness", [&] { return "not a valid message: " + show(m); });
    pb::decode(s, {m.data(), m.size(), &loose}, y, false);
    mc::state(mc::hash_bytes(m.data(), m.size()));
    read_one<T>("no size", m, m.size(), x, y, m, zb::no_size{});
    if (!ways_to_read) {
        return;
    }
    bytes_t tail = unhex("08011201410a0242420d");
    auto with = [&](prefix p, bool big) { return prefixed(m, p, big) + tail; };
    auto w = with(prefix::p4, false);
    read_one<T>("4 bytes", w, 4 + m.size(), x, y, m);
    w = with(prefix::varint, false);
    auto n = w.size() - tail.size();
    read_one<T>("varint", w, n, x, y, m, zb::size_varint{});
    read_one<T>("varint, big endian", w, n, x, y, m, zb::size_varint{}, zb::endian::big{});
    read_one<T>("varint, limit", w, n, x, y, m, zb::size_varint{}, zb::alloc_limit<100000>{});
    w = with(prefix::p2, true);
    read_one<T>("2 bytes, big endian", w, 2 + m.size(), x, y, m, zb::size2b{}, zb::endian::big{});
    w = with(prefix::p8, false);
    read_one<T>("8 bytes", w, 8 + m.size(), x, y, m, zb::size8b{});
    if (m.size() < 256) {
        w = with(prefix::p1, false);
        read_one<T>("1 byte", w, 1 + m.size(), x, y, m, zb::size1b{});
    }
    // Twice, the second over the first: only what is absent may stay.
    w = prefixed(m, prefix::p4, false);
    exact data(w + w);
    T t{};
    zb::in in{data.view()};
    auto e = std::errc(in(t, t));
    mc::require(e == std::errc{} && pb::to_val(t) == y && in.position() == 2 * w.size(), "again", [&] {
        return mc::format("reading %s twice into one object: %s, %s instead of %s", show(m).c_str(), show(e).c_str(),
                          pb::show(pb::to_val(t)).c_str(), pb::show(y).c_str());
    });
}
template <typename T>
void pairs()
{
    static const records a = alphabet(S<T>::of(), true, 3);
    bytes_t m;
    auto n = a.size() + 1;
    auto first = mc::choose(n, "record");
    for (std::size_t i = 0; i < n; ++i) {
        m = first ? a[first - 1] : bytes_t{};
        if (i) {
            m = m + a[i - 1];
        }
        if (first || !i) {
            check<T>(m, true);
        }
    }
}
template <typename T>
void sequences()
{
    static const records a = [] {
        auto all = alphabet(S<T>::of(), false, 2);
        // The short alphabet, without the foreign records but for one of each wire type.
        return all;
    }();
    static const records rich = alphabet(S<T>::of(), true, 2);
    auto limit = mc::thorough() ? 3000000.0 : 150000.0;
    int length = 2;
    for (double c = double(a.size()) * a.size() * a.size(); c < limit && length < 8; c *= a.size()) {
        ++length;
    }
    bytes_t m;
    auto first = mc::choose(a.size(), "record");
    m = a[first];
    auto second = mc::choose(a.size(), "record");
    m = m + a[second];
    std::vector<std::size_t> at(length - 2, 0);
    for (;;) {
        auto w = m;
        for (auto i : at) {
            w = w + a[i];
        }
        check<T>(w, false);
        std::size_t i = 0;
        while (i < at.size() && ++at[i] == a.size()) {
            at[i++] = 0;
        }
        if (i == at.size()) {
            break;
        }
    }
}
template <typename T>
void add(const char * name)
{
    mc::add(std::string(name) + " pairs", pairs<T>);
    mc::add(std::string(name) + " sequences", sequences<T>);
}
using namespace pbt;
bool added = [] {
#if PART == 0
    add<one>("one");
    add<pbt::numbers>("numbers");
    add<fixed>("fixed");
    add<pbt::empty>("empty");
#elif PART == 1
    add<texts>("texts");
    add<packed>("packed");
    add<mapped>("mapped");
#elif PART == 2
    add<packed2>("packed2");
    add<repeated>("repeated");
#elif PART == 3
    add<maps>("maps");
    add<preset>("preset");
#elif PART == 4
    add<maps2>("maps2");
    add<inner>("inner");
#elif PART == 5
    add<nested>("nested");
    add<large>("large");
#elif PART == 6
    add<deep>("deep");
    add<node>("node");
#endif
    return true;
}();
} // namespace
