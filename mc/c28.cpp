// C28: programs built differently read and write the same.
//
// Every file of this program but one is built with other compilers, libraries,
// language standards and switches, each with a library of its own (the
// namespace is renamed); the record of every case has to be the same in all.
#ifdef CONFIG
#include "record.hpp"

#include "c28.hpp"

#include <csignal>
#include <cstdio>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
template <typename T, typename Byte, auto... O>
void one(const char * name, void (*add)(const char *, record_numbers (*)(int), int))
{
    add(name, [](int i) { return numbers_of(run<T, Byte, O...>(i)); }, values);
}
using add_t = void (*)(const char *, record_numbers (*)(int), int);
template <typename T>
void all(const char * name, add_t add)
{
    one<T, std::byte>(name, add);
    one<T, std::byte, zb::endian::big{}>(name, add);
    one<T, char, zb::size_varint{}, zb::endian::big{}>(name, add);
    one<T, unsigned char, zb::size2b{}>(name, add);
}
template <auto Program>
void program(const char * name, add_t add)
{
    add(name, [](int i) { return numbers_of(Program(i)); }, int(Program(-1).operations));
}
template <auto Run, bool Far>
void longs(const char * name, add_t add)
{
    add(name, [](int i) { return numbers_of(Run(i)); }, int(Far ? std::size(far_lengths) : std::size(lengths)));
}
// Whether failures throw (or, without exceptions, end the program), and
// successes do not.
bool returns(auto && f)
{
    std::fflush(nullptr);
    auto child = ::fork();
    if (child == 0) {
        ::signal(SIGABRT, SIG_DFL);
        ::close(2);
#ifdef __cpp_exceptions
        try {
            f();
        } catch (...) {
            ::_exit(7);
        }
        ::_exit(0);
#else
        f();
        ::_exit(0);
#endif
    }
    int status = 0;
    ::waitpid(child, &status, 0);
#ifdef __cpp_exceptions
    return !(WIFEXITED(status) && WEXITSTATUS(status) == 7);
#else
    return !(WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT);
#endif
}
record throwing(int i)
{
    constexpr std::errc codes[] = {std::errc{}, std::errc::result_out_of_range, std::errc::message_size, std::errc::no_buffer_space,
                                   std::errc::bad_message, std::errc::protocol_error, std::errc::value_too_large, std::errc::not_supported};
    record r;
    auto e = codes[i];
    r.operations = 5;
    r.written = returns([&] { zb::errc(e).or_throw(); });
    std::vector<std::byte> data(4);
    auto apply_to = [&](std::size_t n) {
        zb::in in{std::span<const std::byte>(data.data(), n)};
        return zb::apply([](std::uint32_t a) { return a; }, in);
    };
    r.reads = returns([&] { (void)apply_to(std::size_t(i)).or_throw(); });
    r.again = returns([&] {
        auto x = apply_to(std::size_t(i));
        (void)x.or_throw();
    });
    r.capacities = returns([&] {
        const auto x = apply_to(std::size_t(i));
        (void)x.or_throw();
    });
    r.changes = returns([&] {
        zb::in in{std::span<const std::byte>(data.data(), 3)};
        std::uint16_t a = 0;
        for (int k = 0; k < i; ++k) {
            in(a).or_throw();
        }
    });
    r.failures = std::uint32_t(r.written + r.reads + r.again + r.capacities + r.changes);
    return r;
}
} // namespace

#define NAME2(a, b) a##b
#define NAME(a, b) NAME2(a, b)
extern "C" void NAME(c28_cases_, CONFIG)(add_t add)
{
#define ALL(...) all<__VA_ARGS__>(#__VA_ARGS__, add)
#if PART == 0
    ALL(bool);
    ALL(char);
    ALL(std::uint8_t);
    ALL(std::int16_t);
    ALL(std::uint32_t);
    ALL(std::int64_t);
    ALL(float);
    ALL(double);
    ALL(e32);
    ALL(char16_t);
    ALL(zb::vint32_t);
    ALL(zb::vuint64_t);
    ALL(zb::vsint32_t);
    ALL(zb::vsint64_t);
    ALL(zb::varint<std::uint16_t>);
    ALL(nothing);
#elif PART == 1
    ALL(std::array<std::uint16_t, 3>);
    ALL(packed);
    ALL(padded);
    ALL(bytes3);
    ALL(with_arrays);
    ALL(std::optional<packed>);
    ALL(std::tuple<std::uint8_t, std::uint32_t, zb::vint32_t>);
    ALL(custom);
    ALL(closed);
    ALL(std::string);
    ALL(std::u16string);
    ALL(std::vector<unsigned char>);
    ALL(std::vector<std::uint32_t>);
#elif PART == 2
    ALL(std::vector<padded>);
    ALL(std::vector<zb::vsint32_t>);
    ALL(std::vector<std::array<std::uint16_t, 2>>);
    ALL(std::vector<std::vector<std::uint16_t>>);
    ALL(std::variant<std::uint16_t, std::string, packed>);
    ALL(mixed);
    ALL(message);
    ALL(std::vector<text>);
    ALL(holder);
#elif PART == 3
    longs<long_run<text, false, std::byte, zb::size_varint{}>, false>("lengths, text", add);
    longs<long_run<nested, false, char, zb::size_varint{}, zb::endian::big{}>, false>("lengths, nested", add);
    longs<long_run<envelope, false, std::byte, zb::size_varint{}, zb::exact_enlarger{}>, false>("lengths, envelope", add);
    longs<long_run<text, true, std::byte, zb::size_varint{}>, true>("long lengths, text", add);
    program<view_program<std::byte>>("views", add);
    program<view_program<char, zb::endian::big{}>>("views, big endian", add);
    program<target_program<std::byte>>("targets", add);
    program<target_program<unsigned char, zb::size_varint{}>>("targets, varint sizes", add);
    program<apply_program<std::byte>>("apply", add);
    program<order_program<std::byte>>("orders", add);
    program<order_program<char, zb::size_varint{}>>("orders, varint sizes", add);
    add("exceptions", [](int i) { return numbers_of(throwing(i)); }, 5);
#endif
}

#else
#include "c28.hpp"
#include "mc.hpp"

#include <string>
#include <vector>

extern "C" {
#define CONFIGURATION(id, name)                                                                                        \
    void c28_cases_##id##0(c28_add), c28_cases_##id##1(c28_add), c28_cases_##id##2(c28_add), c28_cases_##id##3(c28_add);
#include CONFIGURATIONS
#undef CONFIGURATION
}

namespace
{
struct test
{
    std::string name;
    record_numbers (*run)(int);
    int count;
};
struct configuration
{
    const char * name;
    std::vector<test> tests;
};
std::vector<configuration> configurations;
void collect(const char * name, record_numbers (*run)(int), int count)
{
    configurations.back().tests.push_back({name, run, count});
}
[[maybe_unused]] bool added = [] {
#define CONFIGURATION(id, name)                                                                                        \
    configurations.push_back({name, {}});                                                                              \
    c28_cases_##id##0(collect);                                                                                        \
    c28_cases_##id##1(collect);                                                                                        \
    c28_cases_##id##2(collect);                                                                                        \
    c28_cases_##id##3(collect);
#include CONFIGURATIONS
    for (std::size_t c = 1; c < configurations.size(); ++c) {
        mc::add(configurations[c].name, [c] {
            auto & base = configurations[0].tests;
            auto & mine = configurations[c].tests;
            mc::require(base.size() == mine.size(), "cases", "different cases");
            auto t = mc::choose(base.size(), "case");
            auto i = int(mc::choose(std::size_t(base[t].count), "value"));
            auto want = base[t].run(i), got = mine[t].run(i);
            mc::case_done(got.n[5]);
            mc::step(2 * got.n[5]);
            mc::state(mc::mix(mc::mix(t, std::uint64_t(i)), c));
            mc::outcome(mc::mix(got.n[0], got.n[2]));
            static const char * what[] = {"what is written", "writing to limited space", "reading truncated bytes", "reading changed bytes",
                                          "writing and reading at a position", "number of operations", "number of failures"};
            for (int k = 0; k < 7; ++k) {
                mc::require(got.n[k] == want.n[k], "configuration", [&] {
                    return mc::format("%s (form %zu), value %d: %s differ(s) between a program built with %s and one built with %s",
                                      base[t].name.c_str(), t, i, what[k], configurations[c].name, configurations[0].name);
                });
            }
        });
    }
    return true;
}();
} // namespace
#endif
