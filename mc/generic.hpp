// Generic checks over the universe of types: C01, C02, C03, C04, C05, C11.
#ifndef GENERIC_HPP
#define GENERIC_HPP

#include "universe.hpp"
#if defined CHECK_C21
#include "alloc.hpp"
#endif

#include <memory>

namespace generic
{
using namespace model;
namespace zb = zpp::bits;

constexpr std::size_t limit = 1 << 16;

template <typename T, typename... O>
std::errc write_growing(const T & v, bytes_t & buf, std::size_t pos, std::size_t & end)
{
    zb::out out{buf, O{}...};
    out.position() = pos;
    auto r = out(v);
    end = out.position();
    return r;
}
template <typename T, typename... O>
std::errc write_fixed(const T & v, std::span<std::byte> buf, std::size_t pos, std::size_t & end)
{
    zb::out out{buf, O{}...};
    out.position() = pos;
    auto r = out(v);
    end = out.position();
    return r;
}
template <typename T, typename... O>
std::errc read(std::span<const std::byte> buf, std::size_t pos, T & v, std::size_t & end)
{
    zb::in in{buf, O{}..., zb::alloc_limit<limit>{}};
    in.position() = pos;
    auto r = in(v);
    end = in.position();
    return r;
}

template <typename T>
struct codec
{
    const char * name;
    config c;
    std::errc (*write)(const T &, bytes_t &, std::size_t, std::size_t &);
    std::errc (*fixed)(const T &, std::span<std::byte>, std::size_t, std::size_t &);
    std::errc (*read)(std::span<const std::byte>, std::size_t, T &, std::size_t &);
};

#ifndef NEED_WRITE
#define NEED_WRITE 1
#endif
#ifndef NEED_FIXED
#define NEED_FIXED 0
#endif
#ifndef NEED_READ
#define NEED_READ 1
#endif

template <typename T, typename... O>
codec<T> make_codec(const char * name, bool swapped, prefix p)
{
    codec<T> r{name, {swapped, p, limit}, nullptr, nullptr, nullptr};
#if NEED_WRITE
    r.write = write_growing<T, O...>;
#endif
#if NEED_FIXED
    r.fixed = write_fixed<T, O...>;
#endif
#if NEED_READ
    r.read = read<T, O...>;
#endif
    return r;
}

template <typename T>
const std::vector<codec<T>> & codecs()
{
#if defined CHECK_C21
    static const std::vector<codec<T>> few{
        make_codec<T>("default", false, prefix::p4),
        make_codec<T, zb::endian::big, zb::size_varint>("big,size_varint", true, prefix::varint),
#if defined MC_MORE_CONFIGS
        make_codec<T, zb::size1b>("size1b", false, prefix::p1),
        make_codec<T, zb::endian::little, zb::size8b>("little,size8b", false, prefix::p8),
#endif
    };
    return few;
#endif
    static const std::vector<codec<T>> list{
        make_codec<T>("default", false, prefix::p4),
        make_codec<T, zb::endian::big>("big", true, prefix::p4),
        make_codec<T, zb::size1b>("size1b", false, prefix::p1),
        make_codec<T, zb::size2b, zb::endian::big>("size2b,big", true, prefix::p2),
        make_codec<T, zb::size_varint>("size_varint", false, prefix::varint),
        make_codec<T, zb::endian::big, zb::size_varint>("big,size_varint", true, prefix::varint),
        make_codec<T, zb::endian::little, zb::size8b>("little,size8b", false, prefix::p8),
#if defined MC_MORE_CONFIGS
        make_codec<T, zb::endian::swapped, zb::size4b>("swapped,size4b", true, prefix::p4),
        make_codec<T, zb::endian::native, zb::size_native>("native,size_native", false, prefix::p8),
        make_codec<T, zb::endian::network, zb::size1b>("network,size1b", true, prefix::p1),
#endif
    };
    return list;
}

template <typename T>
std::string type_name()
{
    std::string s = __PRETTY_FUNCTION__;
    auto a = s.find("T = ");
    auto e = s.find_last_of(']');
    s = s.substr(a + 4, e - a - 4);
    for (auto & [from, to] : std::initializer_list<std::pair<const char *, const char *>>{
             {"zpp::bits::", ""}, {"std::", ""}, {"uni::", ""}, {"__1::", ""}, {"__cxx11::", ""}}) {
        for (std::size_t p; (p = s.find(from)) != std::string::npos;) {
            s.replace(p, std::strlen(from), to);
        }
    }
    return s;
}

inline std::string show(const bytes_t & b)
{
    return mc::hex(b.data(), b.size());
}
inline std::string show(std::errc e)
{
    return e == std::errc{} ? "ok" : std::make_error_code(e).message();
}

// A heap copy of exactly the given bytes, so that the sanitizer sees any access
// outside of it.
struct exact
{
    explicit exact(const std::byte * p, std::size_t n) :
        data(new std::byte[n]), size(n)
    {
        if (n) {
            std::memcpy(data.get(), p, n);
        }
    }
    std::span<const std::byte> view() const
    {
        return {data.get(), size};
    }
    std::unique_ptr<std::byte[]> data;
    std::size_t size;
};

template <typename T>
bytes_t reference(const config & c, const T & v, std::errc & error)
{
    Enc e{c, {}};
    M<T>::enc(e, v);
    error = e.error;
    return std::move(e.out);
}

template <typename T>
const codec<T> & pick_codec()
{
    auto & list = codecs<T>();
    auto & c = list[mc::choose(list.size(), "options")];
    mc::note([&] { return std::string("options: ") + c.name; });
    return c;
}

template <typename T>
T pick_value(int big)
{
    G g;
    g.big = big;
    return M<T>::gen(g);
}

template <typename T>
bytes_t encode(const codec<T> & c, const T & v)
{
    bytes_t b;
    std::size_t end = 0;
    auto r = c.write(v, b, 0, end);
    mc::step();
    mc::require(r == std::errc{}, "write-failed",
                [&] { return std::string("writing a value failed: ") + show(r); });
    mc::require(end == b.size(), "write-size", [&] {
        return mc::format("position %zu after writing, but %zu bytes", end, b.size());
    });
    mc::note([&] { return "encoding: " + show(b); });
    return b;
}

// -------------------------------------------------------------- C01
template <typename T>
void round_trip()
{
    mc::bound(mc::thorough() ? 3 : 2);
    auto & c = pick_codec<T>();
    T v = pick_value<T>(1);
    auto b = encode(c, v);
    mc::state(mc::hash_bytes(b.data(), b.size(), std::uint64_t(&c - codecs<T>().data())));
    mc::outcome(b.size());
    static constexpr std::size_t befores[] = {0, 3};
    static constexpr std::size_t afters[] = {0, 1, 7, 19};
    for (auto before : befores) {
        for (auto after : afters) {
            bytes_t all(before, std::byte{0xa5});
            all.insert(all.end(), b.begin(), b.end());
            all.insert(all.end(), after, std::byte{0xff});
            exact e(all.data(), all.size());
            T w = fresh_of<T>();
            std::size_t end = 0;
            auto r = c.read(e.view(), before, w, end);
            mc::step();
            mc::case_done();
            mc::require(r == std::errc{}, "read-failed", [&] {
                return "reading back failed: " + show(r) + " (options " + c.name +
                       ", encoding " + show(b) + mc::format(", %zu bytes follow)", after);
            });
            mc::require(end == before + b.size(), "consumed", [&] {
                return mc::format("consumed %zu bytes of %zu", end - before, b.size());
            });
            mc::require(M<T>::eq(v, w), "value",
                        [&] { return "read another value than was written, options " +
                                     std::string(c.name) + ", encoding " + show(b); });
        }
    }
}

// -------------------------------------------------------------- C02
template <typename T>
void format()
{
    mc::bound(mc::thorough() ? 3 : 2);
    auto & c = pick_codec<T>();
    T v = pick_value<T>(1);
    std::errc error;
    auto want = reference(c.c, v, error);
    mc::require(error == std::errc{}, "reference", "the reference does not encode");
    mc::state(mc::hash_bytes(want.data(), want.size(), std::uint64_t(&c - codecs<T>().data())));
    mc::outcome(mc::hash_bytes(want.data(), want.size()));
    auto b = encode(c, v);
    mc::case_done();
    mc::require(b == want, "layout", [&] {
        return std::string("options ") + c.name + ": wrote " + show(b) +
               ", the documented layout is " + show(want);
    });
    // Whatever the buffer held before, and wherever the write starts.
    for (auto fill : {std::byte{0xff}, std::byte{0x5a}}) {
        for (auto offset : {std::size_t(0), std::size_t(3)}) {
            bytes_t dirty(offset + want.size() + 5, fill);
            dirty.reserve(dirty.size() + (offset ? 64 : 0));
            std::size_t end = 0;
            auto r = c.write(v, dirty, offset, end);
            mc::step();
            mc::case_done();
            bytes_t expect(offset + want.size() + 5, fill);
            std::copy(want.begin(), want.end(), expect.begin() + std::ptrdiff_t(offset));
            mc::require(r == std::errc{} && end == offset + want.size(), "dirty-write",
                        "writing into a used buffer failed");
            // Growth is C06's business: compare what the write is about.
            dirty.resize(expect.size());
            for (std::size_t i = 0; i < offset + want.size(); ++i) {
                mc::require(dirty[i] == expect[i], "dirty-layout", [&] {
                    return std::string("options ") + c.name + ": over used bytes wrote " + show(dirty) +
                           ", expected " + show(expect);
                });
            }
        }
    }
    // The value after moving through another object of its type which held
    // something else: representation must not matter.
    if constexpr (std::is_move_assignable_v<T>) {
        G g2;
        g2.salt = 77;
        T other = M<T>::gen(g2);
        other = std::move(v);
        auto b2 = encode(c, other);
        mc::case_done();
        mc::require(b2 == want, "representation", [&] {
            return std::string("options ") + c.name + ": wrote " + show(b2) +
                   " after assignment, the documented layout is " + show(want);
        });
    }
    // Padding must not matter either.
    if constexpr (std::is_trivially_copyable_v<T> && std::is_trivially_default_constructible_v<T> && std::is_class_v<T>) {
        for (int fill : {0x00, 0xff}) {
            alignas(T) unsigned char storage[sizeof(T)];
            std::memset(storage, fill, sizeof(T));
            T * p = new (storage) T;
            G g3;
            std::memset(storage, fill, sizeof(T));
            [&](auto & x) {
                if constexpr (has_fields<T>) {
                    [&]<typename... X>(std::tuple<X &...> to, std::tuple<X &...> from) {
                        [&]<std::size_t... I>(std::index_sequence<I...>) {
                            (std::memcpy(&std::get<I>(to), &std::get<I>(from),
                                         sizeof(std::get<I>(to))), ...);
                        }(std::index_sequence_for<X...>{});
                    }(Fields<T>::get(*p), Fields<T>::get(x));
                } else {
                    *p = x;
                }
            }(v);
            auto b3 = encode(c, *p);
            mc::case_done();
            mc::require(b3 == want, "padding", [&] {
                return std::string("options ") + c.name + ": wrote " + show(b3) +
                       " with other padding, the documented layout is " + show(want);
            });
        }
    }
}

// -------------------------------------------------------------- C03
template <typename T>
void compare_decode(const codec<T> & c, const bytes_t & input)
{
    exact e(input.data(), input.size());
    Dec d{c.c, input.data(), input.size(), 0};
    T want = fresh_of<T>();
    auto wr = M<T>::dec(d, want);
    T got = fresh_of<T>();
    std::size_t end = 0;
    auto r = c.read(e.view(), 0, got, end);
    mc::step();
    mc::case_done();
    mc::outcome(mc::mix(std::uint64_t(wr), d.pos));
    mc::require(r == wr, "verdict", [&] {
        return std::string("options ") + c.name + ", input " + show(input) + ": decoding gave '" +
               show(r) + "', the format says '" + show(wr) + "'";
    });
    mc::require(end <= input.size(), "position",
                [&] { return "position beyond the end of input " + show(input); });
    mc::require(!input.size() || !std::memcmp(e.data.get(), input.data(), input.size()),
                "input-modified", "decoding modified its input");
    if (r == std::errc{}) {
        mc::require(end == d.pos, "consumed", [&] {
            return std::string("options ") + c.name + ", input " + show(input) +
                   mc::format(": consumed %zu bytes, the format says %zu", end, d.pos);
        });
        if (!d.odd_bool) {
            mc::require(M<T>::eq(got, want), "value", [&] {
                return std::string("options ") + c.name + ", input " + show(input) +
                       ": decoded to another value than the format says";
            });
        }
    }
}

template <typename T>
void hostile_mutations()
{
    mc::bound(mc::thorough() ? 2 : 1);
    auto & c = pick_codec<T>();
    T v = pick_value<T>(0);
    std::errc error;
    auto valid = reference(c.c, v, error);
    mc::note([&] { return "valid encoding: " + show(valid); });
    auto salt = std::uint64_t(&c - codecs<T>().data());
    auto check = [&](const bytes_t & m) {
        mc::state(mc::hash_bytes(m.data(), m.size(), salt));
        compare_decode(c, m);
    };
    check(valid);
    auto follow = valid;
    follow.push_back(std::byte{0x01});
    check(follow);
    // Every byte replaced, removed, doubled; every truncation of those.
    static constexpr std::uint8_t alphabet[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x7f, 0x80, 0x81, 0xfe, 0xff};
    for (std::size_t i = 0; i < valid.size(); ++i) {
        for (auto a : alphabet) {
            auto m = valid;
            m[i] = std::byte(a);
            if (m != valid) {
                check(m);
            }
        }
        for (auto x : {0x01, 0x80}) {
            auto m = valid;
            m[i] ^= std::byte(x);
            check(m);
        }
        auto m = valid;
        m.erase(m.begin() + std::ptrdiff_t(i));
        check(m);
        m = valid;
        m.insert(m.begin() + std::ptrdiff_t(i), valid[i]);
        check(m);
    }
    for (std::size_t i = 0; i < valid.size(); ++i) {
        check(bytes_t(valid.begin(), valid.begin() + std::ptrdiff_t(i)));
    }
    // Pairs of adjacent bytes.
    for (std::size_t i = 0; i + 1 < valid.size(); ++i) {
        for (auto [a, b] : {std::pair{0xff, 0xff}, {0x80, 0x80}, {0x00, 0x00}, {0x00, 0x80}}) {
            auto m = valid;
            m[i] = std::byte(a);
            m[i + 1] = std::byte(b);
            check(m);
        }
    }
}

template <typename T>
void hostile_strings()
{
    auto & c = pick_codec<T>();
    static constexpr std::uint8_t alphabet[] = {0x00, 0x01, 0x02, 0x80, 0xff, 0x03, 0x7f};
    std::size_t symbols = mc::thorough() ? 7 : 5;
    std::size_t length = mc::thorough() ? 6 : 5;
    std::size_t first = mc::choose(symbols, "first byte");
    bytes_t input;
    auto salt = std::uint64_t(&c - codecs<T>().data());
    if (first == 0) {
        compare_decode(c, input);
    }
    std::vector<std::size_t> digits{first};
    // Odometer over all strings which begin with `first`.
    for (std::size_t n = 1; n <= length; ++n) {
        digits.assign(n, 0);
        digits[0] = first;
        for (;;) {
            input.resize(n);
            for (std::size_t i = 0; i < n; ++i) {
                input[i] = std::byte(alphabet[digits[i]]);
            }
            mc::state(mc::hash_bytes(input.data(), n, salt));
            compare_decode(c, input);
            std::size_t k = n - 1;
            while (k > 0 && ++digits[k] == symbols) {
                digits[k--] = 0;
            }
            if (k == 0) {
                break;
            }
        }
    }
}

// -------------------------------------------------------------- C04
template <typename T>
void truncation()
{
    mc::bound(mc::thorough() ? 3 : 2);
    auto & c = pick_codec<T>();
    T v = pick_value<T>(1);
    std::errc error;
    auto b = reference(c.c, v, error);
    for (std::size_t cut = 0; cut < b.size(); ++cut) {
        if (cut > 40 && cut + 40 < b.size()) {
            cut = b.size() - 40; // long containers: both ends
        }
        mc::state(mc::hash_bytes(b.data(), cut, std::uint64_t(&c - codecs<T>().data())));
        exact e(b.data(), cut);
        T w = fresh_of<T>();
        std::size_t end = 0;
        auto r = c.read(e.view(), 0, w, end);
        mc::step();
        mc::case_done();
        mc::outcome(mc::mix(std::uint64_t(r), end));
        mc::require(r == std::errc::result_out_of_range, "truncated", [&] {
            return std::string("options ") + c.name + mc::format(": the first %zu bytes of ", cut) +
                   show(b) + " gave '" + show(r) + "'";
        });
        mc::require(end <= cut, "position", [&] {
            return std::string("options ") + c.name + mc::format(": position %zu in an input of %zu bytes", end, cut);
        });
    }
    mc::state(mc::hash_bytes(b.data(), b.size(), 5));
    // The whole encoding still reads.
    exact e(b.data(), b.size());
    T w = fresh_of<T>();
    std::size_t end = 0;
    auto r = c.read(e.view(), 0, w, end);
    mc::case_done();
    mc::require(r == std::errc{}, "complete", [&] { return "the complete encoding " + show(b) + " gave " + show(r); });
}

// -------------------------------------------------------------- C05
template <typename T>
void fixed_output()
{
    mc::bound(mc::thorough() ? 3 : 2);
    auto & c = pick_codec<T>();
    T v = pick_value<T>(1);
    std::errc error;
    auto b = reference(c.c, v, error);
    auto n = b.size();
    for (std::size_t offset : {0, 1, 6}) {
        for (std::size_t capacity = 0; capacity <= n + 12; ++capacity) {
            if (capacity > 24 && capacity + 24 < n) {
                capacity = n - 24;
            }
            mc::state(mc::mix(mc::hash_bytes(b.data(), n, std::uint64_t(&c - codecs<T>().data())),
                              offset * 100000 + capacity));
            auto size = offset + capacity;
            std::unique_ptr<std::byte[]> heap(new std::byte[size]);
            std::memset(heap.get(), 0xc3, size);
            std::size_t end = 0;
            auto r = c.fixed(v, {heap.get(), size}, offset, end);
            mc::step();
            mc::case_done();
            mc::outcome(mc::mix(std::uint64_t(r), capacity));
            if (capacity >= n) {
                mc::require(r == std::errc{}, "fits", [&] {
                    return std::string("options ") + c.name + mc::format(": %zu bytes did not fit in %zu: ", n, capacity) + show(r);
                });
                mc::require(end == offset + n, "advance", "the position did not advance by the size of the encoding");
                mc::require(!n || !std::memcmp(heap.get() + offset, b.data(), n), "content", [&] {
                    return std::string("options ") + c.name + ": wrote " + mc::hex(heap.get() + offset, n) + ", expected " + show(b);
                });
                for (std::size_t i = end; i < size; ++i) {
                    mc::require(heap[i] == std::byte{0xc3}, "after", "a byte after the encoding was modified");
                }
            } else {
                mc::require(r == std::errc::result_out_of_range, "overflow", [&] {
                    return std::string("options ") + c.name + mc::format(": %zu bytes into %zu gave ", n, capacity) + show(r);
                });
                mc::require(end <= size, "position", "position beyond the end of the buffer");
            }
            for (std::size_t i = 0; i < offset; ++i) {
                mc::require(heap[i] == std::byte{0xc3}, "before", "a byte before the start was modified");
            }
        }
    }
}

// -------------------------------------------------------------- C11
template <typename T>
void dirty_target()
{
    mc::bound(mc::thorough() ? 3 : 2);
    auto & c = pick_codec<T>();
    G g;
    g.big = 1;
    T before = M<T>::gen(g);
    g.salt = 1000;
    T v = M<T>::gen(g);
    std::errc error;
    auto b0 = reference(c.c, before, error);
    auto b = reference(c.c, v, error);
    auto salt = std::uint64_t(&c - codecs<T>().data());
    mc::state(mc::hash_bytes(b.data(), b.size(), mc::hash_bytes(b0.data(), b0.size(), salt)));
    mc::outcome(mc::hash_bytes(b.data(), b.size()));
    exact e(b.data(), b.size());
    std::size_t end = 0;
    auto r = c.read(e.view(), 0, before, end);
    mc::step();
    mc::case_done();
    mc::require(r == std::errc{} && end == b.size(), "verdict", [&] {
        return std::string("options ") + c.name + ": reading " + show(b) + " over the value " + show(b0) + " gave " + show(r);
    });
    mc::require(M<T>::eq(before, v), "value", [&] {
        return std::string("options ") + c.name + ": reading " + show(b) + " over the value " + show(b0) + " gave another value";
    });
    // A failing read and then a good one.
    static constexpr int parts[] = {1, 2};
    for (auto part : parts) {
        auto cut = part == 1 ? b0.size() / 2 : b0.size() - (b0.size() ? 1 : 0);
        exact e0(b0.data(), cut);
        T w = fresh_of<T>();
        (void)c.read(e.view(), 0, w, end);
        (void)c.read(e0.view(), 0, w, end);
        r = c.read(e.view(), 0, w, end);
        mc::step(3);
        mc::case_done();
        mc::require(r == std::errc{} && end == b.size() && M<T>::eq(w, v), "after-failure", [&] {
            return std::string("options ") + c.name + ": reading " + show(b) + " after a failed read of " +
                   mc::hex(b0.data(), cut) + " gave another result";
        });
    }
}

// -------------------------------------------------------------- C21
#if defined CHECK_C21
template <typename T, typename... O>
struct faulty
{
    static constexpr int none = 0, allocation = 1, code = 2;
    // Fails the allocation `fail_at` of a read of the first `cut` bytes over
    // the value which `b0` encodes (unless it is empty).
    static std::size_t read(const config & c, const bytes_t & b, const bytes_t * b0, std::size_t cut, std::size_t fail_at)
    {
        auto context = [&] {
            return mc::format("reading the first %zu bytes of ", cut) + show(b) + (b0 ? " over " + show(*b0) : "") +
                   mc::format(", allocation %zu fails", fail_at);
        };
        exact e(b.data(), cut);
        exact all(b.data(), b.size());
        std::size_t count = 0;
        const char * wrong = nullptr;
        alloc::scope scope;
        {
            T w = fresh_of<T>();
            if (b0) {
                Dec d{c, b0->data(), b0->size(), 0};
                (void)M<T>::dec(d, w);
            }
            zb::in in{e.view(), O{}..., zb::alloc_limit<limit>{}};
            auto before = alloc::now.count;
            alloc::now.fail_at = fail_at ? before + fail_at : 0;
            int how = none;
            std::errc error{};
            try {
                error = in(w);
                how = error == std::errc{} ? none : code;
            } catch (const std::bad_alloc &) {
                how = allocation;
            }
            count = alloc::now.count - before;
            alloc::now.fail_at = 0;
            mc::step();
            if (in.position() > cut) {
                wrong = "the position is beyond the end";
            }
            // An allocation which failed is reported, unless the read could
            // do without (the standard library's business); a cut input is
            // reported.
            if (how == none && cut < b.size()) {
                wrong = "a truncated input was accepted";
            }
            if (how == allocation && !fail_at) {
                wrong = "an allocation failed which need not fail";
            }
            T v = fresh_of<T>();
            {
                Dec d{c, b.data(), b.size(), 0};
                (void)M<T>::dec(d, v);
            }
            if (how == none && !M<T>::eq(w, v)) {
                wrong = "another value was read";
            }
            // The same archive goes on.
            in.reset();
            auto r = in(w);
            mc::step();
            if (cut == b.size() ? r != std::errc{} || !M<T>::eq(w, v) : r == std::errc{}) {
                wrong = "the archive does not read the same again";
            }
            // So does the object: with another archive, moved, assigned.
            zb::in again{all.view(), O{}..., zb::alloc_limit<limit>{}};
            r = again(w);
            if (r != std::errc{} || !M<T>::eq(w, v)) {
                wrong = "the object can not be read into after the failure";
            }
            if constexpr (std::is_move_constructible_v<T>) {
                T moved(std::move(w));
                if (!M<T>::eq(moved, v)) {
                    wrong = "the object can not be moved after the failure";
                }
                if constexpr (std::is_move_assignable_v<T>) {
                    w = std::move(moved);
                    if (!M<T>::eq(w, v)) {
                        wrong = "the object can not be assigned after the failure";
                    }
                }
            }
        }
        alloc::now.on = false;
        auto live = alloc::now.live;
        mc::case_done();
        mc::require(!wrong, "failure", [&] { return wrong + (": " + context()); });
        mc::require(!live, "leak", [&] { return mc::format("%zu blocks of memory were not freed: ", live) + context(); });
        return count;
    }

    // The object is destroyed right after the failure.
    static void read_and_destroy(const config & c, const bytes_t & b, const bytes_t * b0, std::size_t cut, std::size_t fail_at)
    {
        exact e(b.data(), cut);
        alloc::scope scope;
        {
            T w = fresh_of<T>();
            if (b0) {
                Dec d{c, b0->data(), b0->size(), 0};
                (void)M<T>::dec(d, w);
            }
            zb::in in{e.view(), O{}..., zb::alloc_limit<limit>{}};
            alloc::now.fail_at = fail_at ? alloc::now.count + fail_at : 0;
            try {
                (void)in(w);
            } catch (const std::bad_alloc &) {
            }
            mc::step();
            alloc::now.fail_at = 0;
        }
        alloc::now.on = false;
        auto live = alloc::now.live;
        mc::case_done();
        mc::require(!live, "leak", [&] {
            return mc::format("%zu blocks of memory were not freed: reading the first %zu bytes of ", live, cut) + show(b) +
                   (b0 ? " over " + show(*b0) : "") + mc::format(", allocation %zu fails", fail_at);
        });
    }

    static std::size_t write(const T & v, const bytes_t & b, std::size_t used, std::size_t fail_at)
    {
        std::size_t count = 0;
        const char * wrong = nullptr;
        alloc::scope scope;
        {
            bytes_t buf(used, std::byte{0x77});
            zb::out out{buf, O{}...};
            auto before = alloc::now.count;
            alloc::now.fail_at = fail_at ? before + fail_at : 0;
            bool failed = false;
            try {
                std::errc r = out(v);
                if (r != std::errc{}) {
                    wrong = "an error";
                }
            } catch (const std::bad_alloc &) {
                failed = true;
            }
            mc::step();
            count = alloc::now.count - before;
            alloc::now.fail_at = 0;
            if (out.position() > std::max(buf.size(), used)) {
                wrong = "the position is beyond the end of the buffer";
            }
            if (failed != (fail_at != 0)) {
                wrong = "the failing allocation was not reported";
            }
            out.reset();
            std::errc r = out(v);
            if (r != std::errc{} || out.position() != b.size() || buf.size() < b.size() ||
                !std::equal(b.begin(), b.end(), buf.begin())) {
                wrong = "the archive does not write the same again";
            }
        }
        alloc::now.on = false;
        auto live = alloc::now.live;
        mc::case_done();
        mc::require(!wrong, "failure", [&] { return wrong + mc::format(": writing, allocation %zu fails: ", fail_at) + show(b); });
        mc::require(!live, "leak", [&] {
            return mc::format("%zu blocks of memory were not freed: writing, allocation %zu fails: ", live, fail_at) + show(b);
        });
        return count;
    }
};

template <typename T>
struct faulty_codec
{
    const char * name;
    config c;
    std::size_t (*read)(const config &, const bytes_t &, const bytes_t *, std::size_t, std::size_t);
    void (*read_and_destroy)(const config &, const bytes_t &, const bytes_t *, std::size_t, std::size_t);
    std::size_t (*write)(const T &, const bytes_t &, std::size_t, std::size_t);
};

template <typename T, typename... O>
faulty_codec<T> make_faulty(const char * name, bool swapped, prefix p)
{
    return {name, {swapped, p, limit}, faulty<T, O...>::read, faulty<T, O...>::read_and_destroy, faulty<T, O...>::write};
}

template <typename T>
void faults()
{
    mc::bound(mc::thorough() ? 2 : 1);
    static const std::vector<faulty_codec<T>> list{
        make_faulty<T>("default", false, prefix::p4),
        make_faulty<T, zb::endian::big, zb::size_varint>("big,size_varint", true, prefix::varint),
    };
    auto & c = list[mc::choose(list.size(), "options")];
    mc::note([&] { return std::string("options: ") + c.name; });
    G g;
    g.big = 1;
    T v = M<T>::gen(g);
    g.salt = 1000;
    bool used = mc::choose(2, "used target");
    std::errc error{};
    auto b = reference(c.c, v, error);
    bytes_t b0;
    if (used) {
        T before = M<T>::gen(g);
        b0 = reference(c.c, before, error);
    }
    mc::state(mc::hash_bytes(b.data(), b.size(), mc::hash_bytes(b0.data(), b0.size(), std::uint64_t(&c - list.data()))));
    auto target = used ? &b0 : nullptr;
    for (std::size_t cut = 0; cut < b.size(); ++cut) {
        if (cut > 40 && cut + 40 < b.size()) {
            cut = b.size() - 40;
        }
        c.read(c.c, b, target, cut, 0);
        c.read_and_destroy(c.c, b, target, cut, 0);
    }
    auto count = c.read(c.c, b, target, b.size(), 0);
    c.read_and_destroy(c.c, b, target, b.size(), 0);
    mc::outcome(count);
    for (std::size_t i = 1; i <= count; ++i) {
        if (i > 40 && i + 40 < count) {
            i = count - 40;
        }
        c.read(c.c, b, target, b.size(), i);
        c.read_and_destroy(c.c, b, target, b.size(), i);
    }
    if (!used) {
        for (std::size_t before : {0, 5}) {
            count = c.write(v, b, before, 0);
            for (std::size_t i = 1; i <= count; ++i) {
                c.write(v, b, before, i);
            }
        }
    }
}
#endif

template <typename T>
void add_all(const char * group)
{
    auto name = std::string(group) + " " + type_name<T>();
    (void)name;
#if defined CHECK_C01
    mc::add("round-trip " + name, round_trip<T>);
#elif defined CHECK_C02
    mc::add("format " + name, format<T>);
#elif defined CHECK_C03
    mc::add("mutations " + name, hostile_mutations<T>);
    mc::add("strings " + name, hostile_strings<T>);
#elif defined CHECK_C04
    mc::add("truncation " + name, truncation<T>);
#elif defined CHECK_C05
    mc::add("fixed " + name, fixed_output<T>);
#elif defined CHECK_C21
    mc::add("faults " + name, faults<T>);
#elif defined CHECK_C11
    mc::add("dirty " + name, dirty_target<T>);
#endif
}

template <typename... T>
bool add_group(uni::types<T...>, const char * group)
{
    (add_all<T>(group), ...);
    return true;
}
} // namespace generic

#endif
