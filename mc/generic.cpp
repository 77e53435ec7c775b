#include "generic.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
static bool added = generic::add_group(uni::CAT(group, GROUP){}, "g" STR(GROUP));

#if defined CHECK_C03 && GROUP == 0
// ---------------------------------------------------------------- truth values
// Each byte as a bool, wherever one can be; the bytes of the object are looked
// at rather than the object, which may be none.
namespace truth
{
struct plain
{
    bool a;
    std::uint8_t b;
};
struct wide
{
    bool a;
    std::uint32_t b;
    bool c;
};
struct custom
{
    bool a;
    std::uint8_t b;
    static constexpr auto serialize(auto & archive, auto & self) { return archive(self.a, self.b); }
};
std::uint8_t byte_of(const bool & b)
{
    std::uint8_t r;
    std::memcpy(&r, static_cast<const void *>(&b), 1);
    return r;
}
template <auto... O>
void read(const char * options)
{
    auto context = mc::choose(8, "where");
    auto value = std::uint8_t(mc::choose(256, "byte"));
    auto b = std::byte(value);
    std::byte n{};
    generic::bytes_t bytes;
    auto run = [&](auto & target, auto get) {
        zpp::bits::in in{bytes, zpp::bits::no_size{}, decltype(O)(O)...};
        std::errc e = in(target);
        mc::step();
        mc::case_done();
        mc::state(mc::mix(mc::mix(context, value), std::uint64_t(sizeof(target)) + sizeof...(O)));
        auto got = e == std::errc{} ? byte_of(get()) : std::uint8_t{0xee};
        mc::outcome(mc::mix(got, std::uint64_t(int(e))));
        if (e != std::errc{}) {
            mc::require(value > 1, "truth", "a truth value is refused");
            return;
        }
        if (value > 1 && got == value) {
            mc::report("noncanonical-bool", mc::format("%s: reading the byte %02x as a bool succeeds and leaves that byte in the object, "
                                                       "which is neither true nor false",
                                                       options, value));
            return;
        }
        mc::require(got == (value != 0), "truth", [&] { return mc::format("%s: the byte %02x is read as %02x", options, value, got); });
        mc::require(in.position() == bytes.size(), "truth-size", "another size is read");
    };
    switch (context) {
    case 0: { bool x = false; bytes = {b}; run(x, [&]() -> bool & { return x; }); break; }
    case 1: { plain x{}; bytes = {b, n}; run(x, [&]() -> bool & { return x.a; }); break; }
    case 2: { wide x{}; bytes = {n, n, n, n, n, b}; run(x, [&]() -> bool & { return x.c; }); break; }
    case 3: { custom x{}; bytes = {b, n}; run(x, [&]() -> bool & { return x.a; }); break; }
    case 4: { std::array<bool, 3> x{}; bytes = {n, b, n}; run(x, [&]() -> bool & { return x[1]; }); break; }
    case 5: { std::optional<bool> x; bytes = {std::byte{1}, b}; run(x, [&]() -> bool & { return *x; }); break; }
    case 6: { std::tuple<std::uint8_t, bool> x; bytes = {n, b}; run(x, [&]() -> bool & { return std::get<1>(x); }); break; }
    case 7: { std::vector<plain> x(2); bytes = {n, n, b, n}; run(x, [&]() -> bool & { return x[1].a; }); break; }
    }
}
static bool added = [] {
    mc::add("truth values", [] { read<>("little endian"); });
    mc::add("truth values, big endian", [] { read<zpp::bits::endian::big{}>("big endian"); });
    return true;
}();
} // namespace truth
#endif
