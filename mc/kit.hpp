// Small things shared by the hand-written checks.
#ifndef KIT_HPP
#define KIT_HPP

#include "model.hpp"

namespace kit
{
namespace zb = zpp::bits;
using model::bytes_t;
using model::config;
using model::Enc;
using model::M;
using model::prefix;

inline std::string show(const bytes_t & b)
{
    return mc::hex(b.data(), b.size());
}
template <typename C>
std::string show_any(const C & c)
{
    return mc::hex(c.data(), c.size() * sizeof(*c.data()));
}
inline std::string show(std::errc e)
{
    return e == std::errc{} ? "ok" : std::make_error_code(e).message();
}
inline bytes_t bytes_of(std::string_view s)
{
    bytes_t b(s.size());
    if (!s.empty()) {
        std::memcpy(b.data(), s.data(), s.size());
    }
    return b;
}
inline bytes_t unhex(std::string_view s)
{
    bytes_t b;
    auto d = [](char c) { return c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10; };
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) {
        b.push_back(std::byte(d(s[i]) * 16 + d(s[i + 1])));
    }
    return b;
}
inline bytes_t operator+(bytes_t a, const bytes_t & b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
template <typename... T>
bytes_t enc(const config & c, const T &... v)
{
    Enc e{c, {}};
    (M<T>::enc(e, v), ...);
    return std::move(e.out);
}

// A heap copy of exactly these bytes.
struct exact
{
    exact(const void * p, std::size_t n) : data(new std::byte[n]), size(n)
    {
        if (n) {
            std::memcpy(data.get(), p, n);
        }
    }
    explicit exact(const bytes_t & b) : exact(b.data(), b.size())
    {
    }
    std::span<std::byte> writable()
    {
        return {data.get(), size};
    }
    std::span<const std::byte> view() const
    {
        return {data.get(), size};
    }
    std::unique_ptr<std::byte[]> data;
    std::size_t size;
};
} // namespace kit

#endif
