// Protocol buffers, written from the published encoding: schemas, dynamic
// values, a reference encoder and a reference decoder.  Nothing here uses the
// implementation.
#ifndef PB_HPP
#define PB_HPP

#include "kit.hpp"
#include <algorithm>

namespace pb
{
using model::bytes_t;
namespace zb = zpp::bits;

enum class kind
{
    varint, // two's complement, `width` bytes
    zigzag,
    boolean,
    fixed32,
    fixed64,
    text, // string or bytes
    message,
};
enum class rule
{
    one,
    list,    // packed when numeric
    set,     // as list; the target sorts and drops doubles
    map,
    nothing, // reserved
};

struct schema;
struct field
{
    std::uint32_t number{};
    rule r{};
    kind k{};
    unsigned width = 8; // of varint, zigzag: bytes the target keeps
    const schema * sub{};
    kind key{}; // of maps
    unsigned key_width = 8;
};
struct schema
{
    std::vector<field> fields;
};

// A value: a number, text, or the fields of a message, the elements of a list,
// or the entries {key, value} of a map.
struct val
{
    std::uint64_t n{};
    bytes_t s;
    std::vector<val> v;
};
inline int compare(const val & a, const val & b)
{
    if (a.n != b.n) {
        return a.n < b.n ? -1 : 1;
    }
    if (a.s != b.s) {
        return a.s < b.s ? -1 : 1;
    }
    for (std::size_t i = 0; i < a.v.size() && i < b.v.size(); ++i) {
        if (auto c = compare(a.v[i], b.v[i])) {
            return c;
        }
    }
    return a.v.size() == b.v.size() ? 0 : a.v.size() < b.v.size() ? -1 : 1;
}
inline bool operator==(const val & a, const val & b)
{
    return compare(a, b) == 0;
}
inline bool operator<(const val & a, const val & b)
{
    return compare(a, b) < 0;
}
inline std::string show(const val & x)
{
    std::string s;
    if (!x.v.empty()) {
        s = "[";
        for (auto & e : x.v) {
            s += (s.size() > 1 ? "," : "") + show(e);
        }
        return s + "]";
    }
    if (!x.s.empty()) {
        return "'" + kit::show(x.s) + "'";
    }
    return mc::format("%llu", (unsigned long long)x.n);
}
inline std::uint64_t hash(const val & x, std::uint64_t h = 7)
{
    h = mc::mix(h, x.n);
    h = mc::hash_bytes(x.s.data(), x.s.size(), h);
    for (auto & e : x.v) {
        h = hash(e, h);
    }
    return mc::mix(h, x.v.size());
}

inline std::uint64_t mask(std::uint64_t v, unsigned width)
{
    return width >= 8 ? v : v & ((std::uint64_t{1} << (8 * width)) - 1);
}

inline val default_of(const field & f)
{
    val x;
    if (f.r == rule::one && f.k == kind::message) {
        for (auto & g : f.sub->fields) {
            x.v.push_back(default_of(g));
        }
    }
    return x;
}
inline val default_of(const schema & s)
{
    val x;
    for (auto & g : s.fields) {
        x.v.push_back(default_of(g));
    }
    return x;
}
inline field element_of(field f)
{
    f.r = rule::one;
    return f;
}
inline field key_of(const field & f)
{
    field k;
    k.number = 1;
    k.r = rule::one;
    k.k = f.key;
    k.width = f.key_width;
    return k;
}
inline field value_of(field f)
{
    f.number = 2;
    f.r = rule::one;
    return f;
}
inline bool numeric(kind k)
{
    return k != kind::text && k != kind::message;
}
inline unsigned wire(kind k)
{
    switch (k) {
    case kind::fixed32:
        return 5;
    case kind::fixed64:
        return 1;
    case kind::text:
    case kind::message:
        return 2;
    default:
        return 0;
    }
}

// ------------------------------------------------------------------ encoding
inline void put_varint(bytes_t & out, std::uint64_t v, int padding = 0)
{
    while (v >= 128) {
        out.push_back(std::byte(std::uint8_t(v % 128 + 128)));
        v /= 128;
    }
    for (; padding; --padding) {
        out.push_back(std::byte(std::uint8_t(v + 128)));
        v = 0;
    }
    out.push_back(std::byte(std::uint8_t(v)));
}
inline void put_fixed(bytes_t & out, std::uint64_t v, int width)
{
    for (int i = 0; i < width; ++i) {
        out.push_back(std::byte(std::uint8_t(v >> (8 * i))));
    }
}
inline void put_tag(bytes_t & out, std::uint32_t number, unsigned w, int padding = 0)
{
    put_varint(out, (std::uint64_t(number) << 3) | w, padding);
}
inline void put_text(bytes_t & out, const bytes_t & s, int padding = 0)
{
    put_varint(out, s.size(), padding);
    out.insert(out.end(), s.begin(), s.end());
}
inline std::int64_t sign_extend(std::uint64_t v, unsigned width)
{
    return width >= 8 ? std::int64_t(v) : std::int64_t(v << (64 - 8 * width)) >> (64 - 8 * width);
}
inline std::uint64_t zigzag(std::uint64_t v, unsigned width)
{
    auto s = sign_extend(v, width);
    return (std::uint64_t(s) << 1) ^ std::uint64_t(s >> 63);
}
inline bytes_t encode(const schema & s, const val & x);
inline bytes_t body(const field & f, const val & x)
{
    bytes_t out;
    switch (f.k) {
    case kind::varint:
    case kind::boolean:
        put_varint(out, x.n);
        break;
    case kind::zigzag:
        put_varint(out, zigzag(x.n, f.width));
        break;
    case kind::fixed32:
        put_fixed(out, x.n, 4);
        break;
    case kind::fixed64:
        put_fixed(out, x.n, 8);
        break;
    case kind::text:
        put_text(out, x.s);
        break;
    case kind::message:
        put_text(out, encode(*f.sub, x));
        break;
    }
    return out;
}
inline void append(bytes_t & out, const bytes_t & b)
{
    out.insert(out.end(), b.begin(), b.end());
}
// As documented: every field in declaration order, empty containers nothing.
inline bytes_t encode(const schema & s, const val & x)
{
    bytes_t out;
    for (std::size_t i = 0; i < s.fields.size(); ++i) {
        auto & f = s.fields[i];
        auto & v = x.v[i];
        switch (f.r) {
        case rule::nothing:
            break;
        case rule::one:
            if (f.k == kind::text && v.s.empty()) {
                break;
            }
            put_tag(out, f.number, wire(f.k));
            append(out, body(f, v));
            break;
        case rule::list:
        case rule::set:
            if (!numeric(f.k)) {
                for (auto & e : v.v) {
                    put_tag(out, f.number, 2);
                    append(out, body(f, e));
                }
            } else if (!v.v.empty()) {
                bytes_t packed;
                for (auto & e : v.v) {
                    append(packed, body(f, e));
                }
                put_tag(out, f.number, 2);
                put_text(out, packed);
            }
            break;
        case rule::map:
            for (auto & e : v.v) {
                bytes_t entry;
                auto k = key_of(f), m = value_of(f);
                if (k.k != kind::text || !e.v[0].s.empty()) {
                    put_tag(entry, 1, wire(k.k));
                    append(entry, body(k, e.v[0]));
                }
                if (m.k != kind::text || !e.v[1].s.empty()) {
                    put_tag(entry, 2, wire(m.k));
                    append(entry, body(m, e.v[1]));
                }
                put_tag(out, f.number, 2);
                put_text(out, entry);
            }
            break;
        }
    }
    return out;
}

// ------------------------------------------------------------------ decoding
enum class verdict
{
    valid,
    invalid, // must be rejected
    free,    // outside of the specification: accepted or not
};
struct reader
{
    const std::byte * p;
    std::size_t left;
    bool * loose; // something outside of the specification was met

    bool varint(std::uint64_t & v, int longest = 10)
    {
        v = 0;
        for (int i = 0; i < longest; ++i) {
            if (!left) {
                return false;
            }
            auto b = std::uint8_t(*p++);
            --left;
            if (i == 9 && (b & 0x7e)) {
                *loose = true; // more than 64 bits
            }
            if (i < 10) {
                v |= i == 9 ? std::uint64_t(b & 1) << 63 : std::uint64_t(b & 127) << (7 * i);
            }
            if (!(b & 128)) {
                return true;
            }
        }
        return false;
    }
    bool take(reader & r, std::uint64_t n)
    {
        if (n > left) {
            return false;
        }
        r = {p, std::size_t(n), loose};
        p += n;
        left -= n;
        return true;
    }
    bool fixed(std::uint64_t & v, unsigned n)
    {
        if (n > left) {
            return false;
        }
        v = 0;
        for (unsigned i = 0; i < n; ++i) {
            v |= std::uint64_t(p[i]) << (8 * i);
        }
        p += n;
        left -= n;
        return true;
    }
};
inline verdict decode(const schema & s, reader r, val & x, bool merge = true);
// One value of a field, the tag of which was read.
inline verdict scalar(const field & f, reader & r, val & x, bool merge)
{
    std::uint64_t n;
    reader sub{};
    switch (f.k) {
    case kind::varint:
    case kind::zigzag:
    case kind::boolean:
        if (!r.varint(n)) {
            return verdict::invalid;
        }
        x.n = f.k == kind::boolean  ? n != 0
              : f.k == kind::varint ? mask(n, f.width)
                                    : mask((mask(n, f.width) >> 1) ^ -(n & 1), f.width);
        return verdict::valid;
    case kind::fixed32:
        return r.fixed(x.n, 4) ? verdict::valid : verdict::invalid;
    case kind::fixed64:
        return r.fixed(x.n, 8) ? verdict::valid : verdict::invalid;
    default:
        if (!r.varint(n) || !r.take(sub, n)) {
            return verdict::invalid;
        }
        if (f.k == kind::text) {
            x.s.assign(sub.p, sub.p + sub.left);
            return verdict::valid;
        }
        return decode(*f.sub, sub, x, merge);
    }
}
inline void to_set(val & x)
{
    std::sort(x.v.begin(), x.v.end());
    x.v.erase(std::unique(x.v.begin(), x.v.end()), x.v.end());
}
// Merges the records into x.
// `merge` false: a message field begins with empty repeated fields each time
// it occurs.
inline verdict decode(const schema & s, reader r, val & x, bool merge)
{
    auto worst = verdict::valid;
    if (!merge) {
        for (std::size_t i = 0; i < s.fields.size(); ++i) {
            if (s.fields[i].r != rule::one || s.fields[i].k == kind::text) {
                x.v[i] = {};
            }
        }
    }
    while (r.left) {
        std::uint64_t tag, n;
        auto start = r.left;
        if (!r.varint(tag)) {
            return verdict::invalid;
        }
        if (start - r.left > 5 || tag >> 32) {
            return verdict::free;
        }
        auto number = tag >> 3;
        unsigned w = tag & 7;
        if (!number || w > 5) {
            return verdict::invalid;
        }
        if (w == 3 || w == 4) {
            return verdict::free; // groups
        }
        std::size_t i = 0;
        while (i < s.fields.size() && s.fields[i].number != number) {
            ++i;
        }
        verdict v = verdict::valid;
        const field * f = i < s.fields.size() ? &s.fields[i] : nullptr;
        bool known = f && f->r != rule::nothing;
        if (known && (f->r == rule::list || f->r == rule::set) && numeric(f->k) && w == 2) {
            reader sub{};
            if (!r.varint(n) || !r.take(sub, n)) {
                return verdict::invalid;
            }
            while (sub.left) {
                val e;
                if (scalar(element_of(*f), sub, e, merge) != verdict::valid) {
                    return verdict::invalid;
                }
                x.v[i].v.push_back(e);
            }
        } else if (known && f->r == rule::map && w == 2) {
            schema entry{{key_of(*f), value_of(*f)}};
            val e = default_of(entry);
            reader sub{};
            if (!r.varint(n) || !r.take(sub, n)) {
                return verdict::invalid;
            }
            v = decode(entry, sub, e, merge);
            auto & m = x.v[i].v;
            std::erase_if(m, [&](auto & o) { return o.v[0] == e.v[0]; });
            m.push_back(e);
            std::sort(m.begin(), m.end());
        } else if (known && f->r != rule::map && w == wire(f->k)) {
            if (f->r == rule::one) {
                v = scalar(*f, r, x.v[i], merge);
            } else {
                val e = default_of(element_of(*f));
                v = scalar(element_of(*f), r, e, merge);
                x.v[i].v.push_back(e);
            }
        } else {
            reader sub{};
            bool ok = w == 0   ? r.varint(n)
                      : w == 1 ? r.fixed(n, 8)
                      : w == 5 ? r.fixed(n, 4)
                               : r.varint(n) && r.take(sub, n);
            if (!ok) {
                return verdict::invalid;
            }
        }
        if (v == verdict::invalid) {
            return v;
        }
        if (v == verdict::free) {
            return v;
        }
        if (known && f->r == rule::set) {
            to_set(x.v[i]);
        }
    }
    return worst;
}
struct decoded
{
    verdict v;
    val x;
};
inline decoded decode(const schema & s, const std::byte * p, std::size_t n, bool merge = true)
{
    decoded d{verdict::valid, default_of(s)};
    bool loose = false;
    d.v = decode(s, reader{p, n, &loose}, d.x, merge);
    if (loose && d.v == verdict::valid) {
        d.v = verdict::free;
    }
    return d;
}

// ------------------------------------------------------------------ adapters
// S<T>::of() is the schema of T, S<T>::get(T&) a tuple of its fields.
template <typename T>
struct S;
template <typename T>
concept message = requires { S<T>::of(); };
template <typename T>
concept wrapped = requires { typename T::pb_field_type; };
template <typename T>
concept map_like = requires { typename T::mapped_type; };
template <typename T>
concept text_like = requires(T t) { t.push_back(typename T::value_type{}); } && sizeof(typename T::value_type) == 1 &&
                    (std::same_as<typename T::value_type, char> || std::same_as<typename T::value_type, std::byte> ||
                     std::same_as<typename T::value_type, unsigned char>)&&requires(T t) { t.data(); };

// Maps and sets in the order of their containers instead of sorted.
inline bool & keep_order()
{
    static bool b;
    return b;
}
template <typename T>
val to_val(const T & t)
{
    val x;
    if constexpr (wrapped<T>) {
        return to_val(zb::pb_value(t));
    } else if constexpr (message<T>) {
        std::apply([&](auto &... f) { (x.v.push_back(to_val(f)), ...); }, S<T>::get(const_cast<T &>(t)));
    } else if constexpr (std::is_same_v<T, zb::pb_reserved>) {
    } else if constexpr (std::is_enum_v<T>) {
        x.n = mask(std::uint64_t(t), sizeof(T));
    } else if constexpr (std::is_same_v<T, bool>) {
        x.n = *reinterpret_cast<const unsigned char *>(&t);
    } else if constexpr (std::is_same_v<T, float>) {
        x.n = std::bit_cast<std::uint32_t>(t);
    } else if constexpr (std::is_same_v<T, double>) {
        x.n = std::bit_cast<std::uint64_t>(t);
    } else if constexpr (std::is_integral_v<T>) {
        x.n = mask(std::uint64_t(t), sizeof(T));
    } else if constexpr (requires { t.value; T::encoding; }) {
        x.n = mask(std::uint64_t(t.value), sizeof(t.value));
    } else if constexpr (text_like<T>) {
        x.s.resize(t.size());
        if (!t.empty()) {
            std::memcpy(x.s.data(), t.data(), t.size());
        }
    } else if constexpr (map_like<T>) {
        for (auto & [k, v] : t) {
            val e;
            e.v.push_back(to_val(k));
            e.v.push_back(to_val(v));
            x.v.push_back(std::move(e));
        }
        if (!keep_order()) {
            std::sort(x.v.begin(), x.v.end());
        }
    } else {
        for (auto & e : t) {
            x.v.push_back(to_val(e));
        }
        if constexpr (requires { typename T::key_type; }) {
            if (!keep_order())
                std::sort(x.v.begin(), x.v.end());
        }
    }
    return x;
}

template <typename T>
void from_val(T & t, const val & x)
{
    if constexpr (wrapped<T>) {
        from_val(zb::pb_value(t), x);
    } else if constexpr (message<T>) {
        std::apply(
            [&](auto &... f) {
                std::size_t i = 0;
                (from_val(f, x.v[i++]), ...);
            },
            S<T>::get(t));
    } else if constexpr (std::is_same_v<T, zb::pb_reserved>) {
    } else if constexpr (std::is_same_v<T, float>) {
        t = std::bit_cast<float>(std::uint32_t(x.n));
    } else if constexpr (std::is_same_v<T, double>) {
        t = std::bit_cast<double>(x.n);
    } else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) {
        t = T(x.n);
    } else if constexpr (requires { t.value; T::encoding; }) {
        t.value = decltype(t.value)(x.n);
    } else if constexpr (text_like<T>) {
        t.resize(x.s.size());
        if (!x.s.empty()) {
            std::memcpy(t.data(), x.s.data(), x.s.size());
        }
    } else if constexpr (map_like<T>) {
        t.clear();
        for (auto & e : x.v) {
            std::remove_const_t<typename T::key_type> k{};
            typename T::mapped_type v{};
            from_val(k, e.v[0]);
            from_val(v, e.v[1]);
            t.emplace(std::move(k), std::move(v));
        }
    } else {
        t.clear();
        for (auto & e : x.v) {
            typename T::value_type v{};
            from_val(v, e);
            t.insert(t.end(), std::move(v));
        }
    }
}
} // namespace pb

#endif
