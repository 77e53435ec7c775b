// Ways to write the fields of a schema.
#ifndef PB_GEN_HPP
#define PB_GEN_HPP

#include "pb_types.hpp"

using namespace kit;
using pb::S;
using pb::val;
using pb::schema;

namespace
{
using records = std::vector<bytes_t>;

bytes_t varint_record(std::uint32_t number, std::uint64_t v, int padding = 0, int tag_padding = 0)
{
    bytes_t b;
    pb::put_tag(b, number, 0, tag_padding);
    pb::put_varint(b, v, padding);
    return b;
}
bytes_t fixed_record(std::uint32_t number, std::uint64_t v, int width, int tag_padding = 0)
{
    bytes_t b;
    pb::put_tag(b, number, width == 4 ? 5 : 1, tag_padding);
    pb::put_fixed(b, v, width);
    return b;
}
bytes_t text_record(std::uint32_t number, const bytes_t & s, int padding = 0, int tag_padding = 0)
{
    bytes_t b;
    pb::put_tag(b, number, 2, tag_padding);
    pb::put_text(b, s, padding);
    return b;
}
int longest_tag_padding(std::uint32_t number)
{
    bytes_t b;
    pb::put_tag(b, number, 0);
    return 5 - int(b.size());
}
// The wire values of a numeric kind, and paddings.
struct wired
{
    std::uint64_t v;
    int padding;
};
std::vector<wired> wire_values(const pb::field & f, bool rich)
{
    switch (f.k) {
    case pb::kind::boolean:
        return rich ? std::vector<wired>{{1, 0}, {0, 0}, {1, 3}, {0, 9}, {2, 0}, {256, 0}, {~std::uint64_t{}, 0}}
                    : std::vector<wired>{{1, 0}, {0, 0}};
    case pb::kind::varint:
    case pb::kind::zigzag: {
        auto all = pb::mask(~std::uint64_t{}, f.width);
        std::vector<wired> r{{1, 0}, {150 & all, 0}};
        if (rich) {
            r.insert(r.end(), {{0, 0}, {2, 1}, {3, 8}, {0, 9}, {all, 0}, {all >> 1, 0}, {(all >> 1) + 1, 0}, {all - 1, 0},
                               {~std::uint64_t{}, 0}, {~std::uint64_t{} - 4, 0}});
            if (f.width < 8) {
                r.push_back({all + 6, 0}); // what does not fit is dropped
            }
        }
        return r;
    }
    default:
        return rich ? std::vector<wired>{{0x0102030405060708, 0}, {0, 0}, {~std::uint64_t{}, 0}, {0x7ff0000000000001, 0}}
                    : std::vector<wired>{{0x0102030405060708, 0}, {1, 0}};
    }
}
bytes_t number_body(const pb::field & f, wired w)
{
    bytes_t b;
    if (pb::wire(f.k) == 0) {
        pb::put_varint(b, w.v, w.padding);
    } else {
        pb::put_fixed(b, w.v, pb::wire(f.k) == 5 ? 4 : 8);
    }
    return b;
}
bytes_t number_record(const pb::field & f, wired w, int tag_padding = 0)
{
    bytes_t b;
    pb::put_tag(b, f.number, pb::wire(f.k), tag_padding);
    pb::append(b, number_body(f, w));
    return b;
}
// A record of another field number of each wire type.
records foreign(std::uint32_t number, unsigned except, bool rich)
{
    records r;
    if (except != 0) {
        r.push_back(varint_record(number, 5));
        if (rich) {
            r.push_back(varint_record(number, ~std::uint64_t{}));
            r.push_back(varint_record(number, 1, 9));
        }
    }
    if (except != 1) {
        r.push_back(fixed_record(number, 0x0a08120810081a08, 8));
    }
    if (except != 5) {
        r.push_back(fixed_record(number, 0x08100810, 4));
    }
    if (except != 2) {
        r.push_back(text_record(number, unhex("08091209")));
        if (rich) {
            r.push_back(text_record(number, {}));
            r.push_back(text_record(number, bytes_t(130, std::byte{0xff}), 1));
        }
    }
    return r;
}
// Message bodies of a schema, not many.
records bodies(const schema & s, int depth);
// Entries of a map.
records entries(const pb::field & f, int depth)
{
    auto k = pb::key_of(f), v = pb::value_of(f);
    records keys, values, r;
    if (pb::numeric(k.k)) {
        for (auto w : wire_values(k, false)) {
            keys.push_back(number_record(k, w));
        }
    } else {
        keys = {text_record(1, bytes_of("a")), text_record(1, bytes_of("bc"))};
    }
    if (pb::numeric(v.k)) {
        for (auto w : wire_values(v, false)) {
            values.push_back(number_record(v, w));
        }
    } else if (v.k == pb::kind::text) {
        values = {text_record(2, bytes_of("x")), text_record(2, {})};
    } else {
        auto b = bodies(*v.sub, depth - 1);
        for (std::size_t i = 0; i < b.size() && i < 3; ++i) {
            values.push_back(text_record(2, b[i]));
        }
    }
    auto unknown = text_record(3, bytes_of("zz"));
    for (auto & a : keys) {
        for (auto & b : values) {
            r.push_back(a + b);
        }
    }
    r.push_back(values[0] + keys[0]);
    r.push_back(keys[0]);
    r.push_back(values[1]);
    r.push_back({});
    r.push_back(keys[0] + keys[1] + values[0]);
    r.push_back(values[0] + values[1] + keys[0]);
    r.push_back(unknown + keys[1] + varint_record(15, 9) + values[1] + fixed_record(16, 1, 4));
    r.push_back(fixed_record(1, 1, k.k == pb::kind::fixed32 ? 8 : 4) + values[0]); // a key which is none
    return r;
}
// Every way to write this field.
records ways(const pb::field & f, bool rich, int depth)
{
    records r;
    auto tp = longest_tag_padding(f.number);
    switch (f.r) {
    case pb::rule::nothing:
        return foreign(f.number, 9, rich);
    case pb::rule::one:
        if (pb::numeric(f.k)) {
            for (auto w : wire_values(f, rich)) {
                r.push_back(number_record(f, w));
            }
            if (rich && tp) {
                r.push_back(number_record(f, wire_values(f, false)[0], tp));
            }
        } else if (f.k == pb::kind::text) {
            r = {text_record(f.number, bytes_of("a")), text_record(f.number, bytes_of("bcd"))};
            if (rich) {
                r.push_back(text_record(f.number, {}));
                r.push_back(text_record(f.number, bytes_of("e"), 3));
                r.push_back(text_record(f.number, bytes_t(128, std::byte{0x80})));
            }
        } else {
            auto b = bodies(*f.sub, depth - 1);
            for (std::size_t i = 0; i < b.size() && (rich || i < 4); ++i) {
                r.push_back(text_record(f.number, b[i], rich && i == 1 ? 2 : 0, rich && i == 2 ? tp : 0));
            }
        }
        break;
    case pb::rule::list:
    case pb::rule::set:
        if (pb::numeric(f.k)) {
            bytes_t all;
            for (auto w : wire_values(f, rich)) {
                auto b = number_body(f, w);
                r.push_back(number_record(f, w));
                if (rich) {
                    r.push_back(text_record(f.number, b));
                }
                pb::append(all, b);
            }
            r.push_back(text_record(f.number, all));
            if (rich) {
                r.push_back(text_record(f.number, {}));
                r.push_back(text_record(f.number, all + all, 2, tp));
            }
        } else if (f.k == pb::kind::text) {
            r = {text_record(f.number, bytes_of("a")), text_record(f.number, {})};
            if (rich) {
                r.push_back(text_record(f.number, bytes_of("bcd"), 3));
            }
        } else {
            auto b = bodies(*f.sub, depth - 1);
            for (std::size_t i = 0; i < b.size() && (rich || i < 3); ++i) {
                r.push_back(text_record(f.number, b[i]));
            }
        }
        break;
    case pb::rule::map: {
        auto e = entries(f, depth);
        for (std::size_t i = 0; i < e.size() && (rich || i < 3); ++i) {
            r.push_back(text_record(f.number, e[i], rich && i == 2 ? 1 : 0));
        }
        break;
    }
    }
    if (rich) {
        auto w = f.r == pb::rule::map ? 2 : pb::wire(f.k);
        for (auto & b : foreign(f.number, w, false)) {
            bool packed = (f.r == pb::rule::list || f.r == pb::rule::set) && pb::numeric(f.k) && (unsigned(b[0]) & 7) == 2;
            bytes_t t;
            pb::put_tag(t, f.number, 2);
            if (!(packed || ((f.r == pb::rule::list || f.r == pb::rule::set) && pb::numeric(f.k) && b.size() >= t.size() &&
                             std::equal(t.begin(), t.end(), b.begin())))) {
                r.push_back(b);
            }
        }
    }
    return r;
}
std::uint32_t unused_number(const schema & s, std::uint32_t from)
{
    while (std::any_of(s.fields.begin(), s.fields.end(), [&](auto & f) { return f.number == from; })) {
        ++from;
    }
    return from;
}
records alphabet(const schema & s, bool rich, int depth)
{
    records r;
    for (auto & f : s.fields) {
        for (auto & b : ways(f, rich, depth)) {
            r.push_back(b);
        }
    }
    for (auto & b : foreign(unused_number(s, 1), 9, rich)) {
        r.push_back(b);
    }
    if (rich) {
        for (auto n : {unused_number(s, 16), unused_number(s, 2048), std::uint32_t((1u << 29) - 2), std::uint32_t(19000)}) {
            for (auto & b : foreign(n, 9, false)) {
                r.push_back(b);
            }
        }
    }
    return r;
}
records bodies(const schema & s, int depth)
{
    records r{{}};
    if (depth <= 0) {
        return r;
    }
    auto a = alphabet(s, false, depth);
    for (auto & x : a) {
        r.push_back(x);
    }
    // Pairs of neighbours in the alphabet.
    for (std::size_t i = 0; i + 1 < a.size(); ++i) {
        r.push_back(a[i] + a[i + 1]);
        r.push_back(a[i + 1] + a[i]);
    }
    return r;
}

} // namespace

#endif
