// C30: errors passed on with co_await, and functions which are coroutines.
//
// Built with a stand-in for the header of zpp::throwing (mc/throwing), once
// with functions which start when called and once with ones which start when
// awaited.
#include "kit.hpp"

#include <memory>
#include <span>

#if !__has_include("zpp_throwing.h")
#error the stand-in is not found
#endif

using namespace kit;

namespace
{
template <typename T>
using throwing = zpp::throwing<T>;
using view = std::span<const std::byte>;
using in_type = zb::in<std::vector<std::byte>>;

std::string show_code(std::errc e)
{
    return show(e);
}
void same_code(std::errc got, std::errc want, const char * where)
{
    mc::require(got == want, "code", [&] { return mc::format("%s: %s, and it should be: %s", where, show_code(got).c_str(), show_code(want).c_str()); });
}

// ---------------------------------------------------------------- the handlers
struct call
{
    int which;
    const void * self;
    bytes_t arguments;
    bool operator==(const call &) const = default;
};
std::vector<call> calls;
// What the next handler is to do: succeed, fail itself, pass on a failure of
// the library, pass on one of another coroutine, pass on one from two deep.
enum plan_t
{
    succeed,
    yield,
    library,
    nested,
    deep,
    plans
};
plan_t plan;
std::errc code_of(plan_t p)
{
    switch (p) {
    case yield:
        return std::errc::invalid_argument;
    case library:
        return std::errc::result_out_of_range;
    case nested:
        return std::errc::permission_denied;
    case deep:
        return std::errc::timed_out;
    default:
        return {};
    }
}
throwing<std::uint8_t> inner(std::errc e)
{
    if (e != std::errc{}) {
        co_yield e;
        mc::fail("continued", "a coroutine went on after it failed");
    }
    co_return std::uint8_t(7);
}
throwing<std::string> outer(std::errc e)
{
    auto x = co_await inner(e);
    co_return std::string(x, 'x');
}
template <typename R>
R value_of(int k, const bytes_t & a)
{
    auto h = mc::hash_bytes(a.data(), a.size(), std::uint64_t(k));
    if constexpr (std::is_same_v<R, std::string>) {
        return std::string(h % 5, char('a' + k));
    } else if constexpr (std::is_same_v<R, std::unique_ptr<std::uint16_t>>) {
        return std::make_unique<std::uint16_t>(std::uint16_t(h));
    } else if constexpr (!std::is_void_v<R>) {
        return R(h);
    }
}
template <typename... A>
bytes_t log(int k, const void * self, const A &... a)
{
    calls.push_back({k, self, enc(config{}, a...)});
    return calls.back().arguments;
}
bytes_t log(int k, const void * self, view a)
{
    calls.push_back({k, self, bytes_t(a.begin(), a.end())});
    return calls.back().arguments;
}
template <typename R>
throwing<R> carry_out(int k, bytes_t a)
{
    switch (plan) {
    case yield:
        co_yield code_of(yield);
        mc::fail("continued", "a coroutine went on after it failed");
        break;
    case library: {
        zb::in in{std::span<const std::byte>()};
        std::uint16_t x;
        co_await in(x);
        mc::fail("continued", "a failure of the library was not passed on");
        break;
    }
    case nested:
        co_await inner(code_of(nested));
        mc::fail("continued", "a failure of a coroutine was not passed on");
        break;
    case deep:
        co_await outer(code_of(deep));
        mc::fail("continued", "a failure of a coroutine was not passed on");
        break;
    default:
        co_await inner({});
        break;
    }
    if constexpr (std::is_void_v<R>) {
        co_return;
    } else {
        co_return value_of<R>(k, a);
    }
}

std::uint32_t f0(std::uint8_t a, std::string b) { return value_of<std::uint32_t>(0, log(0, nullptr, a, b)); }
void f1(std::uint8_t a) { log(1, nullptr, a); }
throwing<std::uint32_t> f2(std::uint8_t a, std::string b)
{
    auto l = log(2, nullptr, a, b);
    co_return co_await carry_out<std::uint32_t>(2, l);
}
throwing<std::string> f3()
{
    auto l = log(3, nullptr);
    co_return co_await carry_out<std::string>(3, l);
}
throwing<void> f4(std::uint8_t a)
{
    auto l = log(4, nullptr, a);
    co_await carry_out<void>(4, l);
}
throwing<void> f5()
{
    auto l = log(5, nullptr);
    co_await carry_out<void>(5, l);
}
throwing<std::uint32_t> f9(view a)
{
    auto l = log(9, nullptr, a);
    co_return co_await carry_out<std::uint32_t>(9, l);
}
throwing<void> f10(view a)
{
    auto l = log(10, nullptr, a);
    co_await carry_out<void>(10, l);
}
throwing<std::string> f11()
{
    auto l = log(11, nullptr);
    co_return co_await carry_out<std::string>(11, l);
}
std::uint32_t f12(view a) { return value_of<std::uint32_t>(12, log(12, nullptr, a)); }
zb::errc f13(view a)
{
    log(13, nullptr, a);
    return code_of(plan);
}
template <typename In>
throwing<void> f14(In & in)
{
    std::uint8_t a{};
    std::uint16_t b{};
    co_await in(a, b);
    auto l = log(14, nullptr, a, b);
    co_await carry_out<void>(14, l);
}
template <typename In, typename Out>
throwing<void> f15(In & in, Out & out)
{
    std::uint8_t a{};
    co_await in(a);
    auto l = log(15, nullptr, a);
    co_await carry_out<void>(15, l);
    co_await out(std::uint16_t(a * 3));
}
void f16(view a) { log(16, nullptr, a); }

struct context
{
    throwing<std::unique_ptr<std::uint16_t>> f6(std::string a)
    {
        auto l = log(6, this, a);
        co_return co_await carry_out<std::unique_ptr<std::uint16_t>>(6, l);
    }
    throwing<void> f7(std::uint8_t a) const
    {
        auto l = log(7, this, a);
        co_await carry_out<void>(7, l);
    }
    zb::errc f8()
    {
        log(8, this);
        return code_of(plan);
    }
    throwing<std::string> f17() noexcept
    {
        auto l = log(17, this);
        co_return co_await carry_out<std::string>(17, l);
    }
    throwing<void> f18(view a)
    {
        auto l = log(18, this, a);
        co_await carry_out<void>(18, l);
    }
    throwing<std::uint32_t> f19() const
    {
        auto l = log(19, this);
        co_return co_await carry_out<std::uint32_t>(19, l);
    }
    int unused{};
};
enum shape
{
    number,
    text,
    pointer,
    nothing,
    code,
    own // writes what it writes itself
};
struct handler
{
    bool plain; // not a coroutine, cannot fail
    bool member;
    shape result;
    // Arguments: 0 none, 1 a byte, 2 a byte and a string, 3 a string, 4 all
    // that is left, 5 a byte and two bytes, read by the handler.
    int parameters;
};
constexpr handler handlers[] = {
    {true, false, number, 2},  // 0
    {true, false, nothing, 1}, // 1
    {false, false, number, 2}, // 2
    {false, false, text, 0},   // 3
    {false, false, nothing, 1},// 4
    {false, false, nothing, 0},// 5
    {false, true, pointer, 3}, // 6
    {false, true, nothing, 1}, // 7
    {false, true, code, 0},    // 8
    {false, false, number, 4}, // 9
    {false, false, nothing, 4},// 10
    {false, false, text, 0},   // 11
    {true, false, number, 4},  // 12
    {false, false, code, 4},   // 13
    {false, false, nothing, 5},// 14
    {false, false, own, 1},    // 15
    {true, false, nothing, 4}, // 16
    {false, true, text, 0},    // 17
    {false, true, nothing, 4}, // 18
    {false, true, number, 0},  // 19
};
constexpr int handler_count = int(std::size(handlers));

constexpr std::uint16_t id_of(int k)
{
    return std::uint16_t(0x5a00 + 0x0101 * k);
}
template <typename In, typename Out>
struct bindings
{
    template <int K>
    static constexpr auto get()
    {
        constexpr auto id = id_of(K);
        if constexpr (K == 0) return zb::bind<f0, id>{};
        if constexpr (K == 1) return zb::bind<f1, id>{};
        if constexpr (K == 2) return zb::bind<f2, id>{};
        if constexpr (K == 3) return zb::bind<f3, id>{};
        if constexpr (K == 4) return zb::bind<f4, id>{};
        if constexpr (K == 5) return zb::bind<f5, id>{};
        if constexpr (K == 6) return zb::bind<&context::f6, id>{};
        if constexpr (K == 7) return zb::bind<&context::f7, id>{};
        if constexpr (K == 8) return zb::bind<&context::f8, id>{};
        if constexpr (K == 9) return zb::bind_opaque<f9, id>{};
        if constexpr (K == 10) return zb::bind_opaque<f10, id>{};
        if constexpr (K == 11) return zb::bind_opaque<f11, id>{};
        if constexpr (K == 12) return zb::bind_opaque<f12, id>{};
        if constexpr (K == 13) return zb::bind_opaque<f13, id>{};
        if constexpr (K == 14) return zb::bind_opaque<f14<In>, id>{};
        if constexpr (K == 15) return zb::bind_opaque<f15<In, Out>, id>{};
        if constexpr (K == 16) return zb::bind_opaque<f16, id>{};
        if constexpr (K == 17) return zb::bind<&context::f17, id>{};
        if constexpr (K == 18) return zb::bind_opaque<&context::f18, id>{};
        if constexpr (K == 19) return zb::bind_opaque<&context::f19, id>{};
    }
    template <int... K>
    using rpc = zb::rpc<decltype(get<K>())...>;
};

// ---------------------------------------------------------------- the model
struct arguments
{
    std::uint8_t a;
    std::uint16_t b;
    std::string s;
};
arguments arguments_of(int v)
{
    if (v == 0) {
        return {0x41, 0x1234, "x"};
    }
    return {0xff, 0, ""};
}
bytes_t encoded(int k, const arguments & a)
{
    switch (handlers[k].parameters) {
    case 1:
        return enc(config{}, a.a);
    case 2:
    case 4:
        return enc(config{}, a.a, a.s);
    case 3:
        return enc(config{}, a.s);
    case 5:
        return enc(config{}, a.a, a.b);
    default:
        return {};
    }
}
bytes_t response_of(int k, const bytes_t & log)
{
    switch (handlers[k].result) {
    case number:
        return enc(config{}, value_of<std::uint32_t>(k, log));
    case text:
        return enc(config{}, value_of<std::string>(k, log));
    case pointer:
        return enc(config{}, *value_of<std::unique_ptr<std::uint16_t>>(k, log));
    case own:
        return enc(config{}, std::uint16_t(std::uint8_t(log.at(0)) * 3));
    default:
        return {};
    }
}
template <int K>
throwing<void> request(auto & client, arguments a)
{
    constexpr auto id = id_of(K);
    constexpr auto p = handlers[K].parameters;
    if constexpr (p == 0) {
        co_await client.template request<id>();
    } else if constexpr (p == 1) {
        co_await client.template request<id>(a.a);
    } else if constexpr (p == 2 || p == 4) {
        co_await client.template request<id>(a.a, a.s);
    } else if constexpr (p == 3) {
        co_await client.template request<id>(a.s);
    } else {
        co_await client.template request<id>(a.a, a.b);
    }
}
template <int K>
throwing<void> respond(auto & client, bytes_t log)
{
    constexpr auto id = id_of(K);
    if constexpr (handlers[K].result == number) {
        auto x = co_await client.template response<id>();
        static_assert(std::is_same_v<decltype(x), std::uint32_t>);
        mc::require(x == value_of<std::uint32_t>(K, log), "response", "the client got another value than was returned");
    } else if constexpr (handlers[K].result == text) {
        auto x = co_await client.template response<id>();
        static_assert(std::is_same_v<decltype(x), std::string>);
        mc::require(x == value_of<std::string>(K, log), "response", "the client got another value than was returned");
    } else if constexpr (handlers[K].result == pointer) {
        auto x = co_await client.template response<id>();
        mc::require(*x == *value_of<std::unique_ptr<std::uint16_t>>(K, log), "response", "the client got another value than was returned");
    } else if constexpr (handlers[K].result == nothing) {
        static_assert(std::is_void_v<decltype(client.template response<id>())>);
        client.template response<id>();
        co_return;
    }
}

struct growing
{
    std::vector<std::byte> data;
    zb::out<std::vector<std::byte>> out{data};
    explicit growing(std::size_t)
    {
    }
};
struct limited
{
    exact data;
    std::span<std::byte> span;
    zb::out<std::span<std::byte>> out{span};
    explicit limited(std::size_t n) : data(bytes_t(n, std::byte(0xcc))), span(data.writable())
    {
    }
};

template <typename O, bool Coroutines, int... K>
void histories(int depth, std::size_t room = 1000, std::size_t form = 0)
{
    using out_type = decltype(O::out);
    using rpc = typename bindings<in_type, out_type>::template rpc<K...>;
    constexpr int ks[] = {K...};
    constexpr bool is_limited = std::is_same_v<O, limited>;
    mc::bound(1);
    calls.clear();
    auto before = zpp::throwing_detail::alive;
    {
        std::vector<std::byte> requests;
        context c;
        O o{room};
        in_type in{requests};
        zb::out request_out{requests, zb::append{}};
        typename rpc::template server<in_type &, out_type &, context &> server{in, o.out, c};
        typename rpc::template client<in_type &, decltype(request_out) &> client{in, request_out};
        std::vector<call> expected;
        bytes_t response;
        struct answered
        {
            int k;
            bytes_t log;
        };
        std::vector<answered> answers;
        bool over = false;
        for (int d = 0; d < depth && !over; ++d) {
            auto k = ks[mc::choose(sizeof...(K), "handler")];
            auto & h = handlers[k];
            plan = h.plain ? succeed : plan_t(mc::choose(plans, "plan"));
            auto v = h.parameters ? int(mc::deviate(2, "arguments")) : 0;
            auto a = arguments_of(v);
            mc::note([&] { return mc::format("handler %d, plan %d, arguments %d", k, int(plan), v); });
            auto start = requests.size();
            request_out.position() = start;
            auto e = std::errc{};
            (void)(... || (K == k && (e = zpp::outcome_of([&] { return request<K>(client, a); }), true)));
            same_code(e, {}, "the request");
            auto body = encoded(k, a);
            mc::require(requests == bytes_t(requests.begin(), requests.begin() + start) + enc(config{}, id_of(k)) + body, "request",
                        "another request than that of a function which is not a coroutine");
            // Cut, or for something else.
            auto whole = requests.size() - start;
            auto cut = mc::deviate(whole + 2, "damage");
            std::size_t left = whole;
            bool unknown = false;
            if (cut == whole + 1) {
                requests[start] ^= std::byte(0xff);
                unknown = true;
            } else if (cut) {
                left = cut - 1;
                requests.resize(start + left);
            }
            in.position() = start;
            bytes_t given(requests.begin() + start, requests.end());
            // What should happen.
            std::errc want{};
            auto position = start;
            bool answered_now = false;
            bytes_t log_now;
            if (left < 2) {
                want = std::errc::result_out_of_range;
            } else if (unknown) {
                want = std::errc::not_supported;
                position = start + 2;
            } else {
                position = start + 2;
                model::Dec dec{config{}, given.data(), given.size(), 2};
                std::uint8_t x{};
                std::uint16_t y{};
                std::string s;
                bool called = true;
                if (h.parameters == 4) {
                    log_now = bytes_t(given.begin() + 2, given.end());
                    dec.pos = given.size();
                } else {
                    if (h.parameters == 1 || h.parameters == 2 || h.parameters == 5) {
                        want = M<std::uint8_t>::dec(dec, x);
                    }
                    if (want == std::errc{} && (h.parameters == 2 || h.parameters == 3)) {
                        want = M<std::string>::dec(dec, s);
                    }
                    if (want == std::errc{} && h.parameters == 5) {
                        want = M<std::uint16_t>::dec(dec, y);
                    }
                    called = want == std::errc{};
                    if (called) {
                        log_now = body;
                    }
                }
                position = start + dec.pos;
                if (called) {
                    expected.push_back({k, h.member ? &c : nullptr, log_now});
                    want = code_of(plan);
                    answered_now = want == std::errc{};
                }
            }
            bytes_t response_now;
            bool full = false;
            if (answered_now) {
                response_now = response_of(k, log_now);
                full = response.size() + response_now.size() > room;
                if (full) {
                    want = std::errc::result_out_of_range;
                }
            }
            auto got = zpp::outcome_of([&]() -> throwing<void> {
                static_assert(std::is_same_v<decltype(server.serve()), zb::errc> == !Coroutines);
                if (form && left >= 2) {
                    std::uint16_t id{};
                    co_await in(id);
                    co_await server.serve(id);
                } else {
                    co_await server.serve();
                }
            });
            mc::step(2);
            mc::case_done();
            same_code(got, want, "serving");
            mc::require(calls == expected, "calls", [&] {
                return mc::format("handlers were called %zu time(s) with some arguments, and they should have been %zu time(s)", calls.size(), expected.size());
            });
            if (left >= 2 && (want == std::errc{} || !answered_now) && (want == std::errc{} || h.parameters == 4 || want == code_of(plan))) {
                mc::require(in.position() == position, "position", [&] {
                    return mc::format("reading is at %zu, and it should be at %zu", in.position(), position);
                });
            }
            if (!full) {
                response = response + response_now;
                mc::require(o.out.position() == response.size(), "response", [&] {
                    return mc::format("%zu bytes were answered in all, and it should be %zu", o.out.position(), response.size());
                });
                if (answered_now) {
                    answers.push_back({k, log_now});
                }
            } else {
                mc::require(o.out.position() <= room, "response", "the position is past the end");
                over = true;
            }
            auto written = [&](std::size_t i) {
                if constexpr (is_limited) {
                    return o.span[i];
                } else {
                    return o.data[i];
                }
            };
            for (std::size_t i = 0; i < response.size(); ++i) {
                mc::require(written(i) == response[i], "response", "other bytes were answered");
            }
            mc::state(mc::mix(mc::hash_bytes(response.data(), response.size(), std::uint64_t(k)), mc::hash_bytes(given.data(), given.size())));
            mc::outcome(mc::mix(std::uint64_t(int(got)), response_now.size()));
            if (cut) {
                over = true;
            }
        }
        // Back at the client; all of it, or cut short.
        std::vector<std::byte> back = response;
        auto cut = mc::deviate(back.size() + 1, "response cut");
        if (cut) {
            back.resize(cut - 1);
        }
        std::vector<std::byte> unused;
        zb::out none{unused};
        in_type from{back};
        typename rpc::template client<in_type &, decltype(none) &> reader{from, none};
        std::size_t at = 0;
        for (auto & a : answers) {
            auto e = std::errc{};
            if (handlers[a.k].result == own) {
                std::uint16_t x{};
                e = from(x);
            } else {
                (void)(... || (K == a.k && (e = zpp::outcome_of([&] { return respond<K>(reader, a.log); }), true)));
            }
            at += response_of(a.k, a.log).size();
            same_code(e, at <= back.size() ? std::errc{} : std::errc::result_out_of_range, "the response");
            mc::case_done();
            mc::step();
            if (e != std::errc{}) {
                break;
            }
        }
    }
    mc::require(zpp::throwing_detail::alive == before, "alive", "a coroutine was left behind");
}

// ---------------------------------------------------------------- awaiting results
template <typename T>
T sample(int i)
{
    if constexpr (std::is_same_v<T, std::string>) {
        return std::string(std::size_t(i) * 13, 's');
    } else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) {
        return std::make_unique<int>(i);
    } else {
        return T(i);
    }
}
template <typename T>
bool same(const T & a, int i)
{
    if constexpr (std::is_same_v<T, std::unique_ptr<int>>) {
        return a && *a == i;
    } else {
        return a == sample<T>(i);
    }
}
template <typename T>
void results()
{
    auto before = zpp::throwing_detail::alive;
    auto code = std::errc(int(mc::choose(140, "code")));
    auto i = code == std::errc{} ? int(mc::choose(4, "value")) : 0;
    auto way = mc::choose(std::is_copy_constructible_v<T> ? 3 : 1, "way");
    bool on = false;
    auto got = zpp::outcome_of([&]() -> throwing<void> {
        auto make = [&] {
            if (code == std::errc{}) {
                return zb::value_or_errc<T>{sample<T>(i)};
            }
            return zb::value_or_errc<T>{zb::errc{code}};
        };
        if (way == 0) {
            auto x = co_await make();
            mc::require(same<T>(x, i), "value", "another value");
        } else if constexpr (std::is_copy_constructible_v<T>) {
            auto result = make();
            if (way == 1) {
                auto x = co_await result;
                mc::require(same<T>(x, i), "value", "another value");
                mc::require(result.success() && same<T>(result.value(), i), "value", "the result was changed by awaiting it");
                auto y = co_await std::move(result);
                mc::require(same<T>(y, i), "value", "another value");
            } else {
                auto x = co_await std::as_const(result);
                mc::require(same<T>(x, i), "value", "another value");
                mc::require(result.success() && same<T>(result.value(), i), "value", "the result was changed by awaiting it");
            }
        }
        on = true;
    });
    mc::case_done();
    mc::step();
    mc::outcome(std::uint64_t(int(got)));
    mc::state(mc::mix(std::uint64_t(int(code)), std::uint64_t(i)));
    same_code(got, code, "awaiting a value or an error");
    mc::require(on == (code == std::errc{}), "continued", "the coroutine went on after a failure, or not after a success");
    mc::require(zpp::throwing_detail::alive == before, "alive", "a coroutine was left behind");
}
void codes()
{
    auto before = zpp::throwing_detail::alive;
    auto code = std::errc(int(mc::choose(140, "code")));
    auto way = mc::choose(3, "way");
    bool on = false;
    auto got = zpp::outcome_of([&]() -> throwing<void> {
        zb::errc e{code};
        const zb::errc ce{code};
        if (way == 0) {
            co_await e;
        } else if (way == 1) {
            co_await ce;
        } else {
            co_await zb::errc{code};
        }
        on = true;
    });
    mc::case_done();
    mc::step();
    mc::outcome(std::uint64_t(int(got)));
    mc::state(std::uint64_t(int(code)));
    same_code(got, code, "awaiting an error code");
    mc::require(on == (code == std::errc{}), "continued", "the coroutine went on after a failure, or not after a success");
    mc::require(zpp::throwing_detail::alive == before, "alive", "a coroutine was left behind");
}

// Programs of reads and writes, awaited and not, in the same limited space.
template <typename... O>
void programs()
{
    auto before = zpp::throwing_detail::alive;
    constexpr int kinds = 6;
    const int length = mc::thorough() ? 4 : 3;
    std::vector<int> program;
    for (int i = 0; i < length; ++i) {
        program.push_back(int(mc::choose(kinds, "operation")));
    }
    auto room = mc::choose(24, "room");
    auto available = mc::choose(room + 1, "available");
    struct seen
    {
        std::size_t steps{};
        std::errc error{};
        std::size_t out_position{}, in_position{};
        bytes_t bytes;
        std::uint64_t values{};
        bool operator==(const seen &) const = default;
    };
    auto operation = [](auto & archive, int kind, std::uint64_t & values) {
        std::uint8_t a = 5;
        std::uint32_t b = 0x01020304;
        std::string s = "abc";
        std::optional<std::uint16_t> o = std::uint16_t(77);
        std::vector<std::uint16_t> v{1, 2};
        zb::errc e;
        if constexpr (std::remove_cvref_t<decltype(archive)>::kind() == zb::kind::in) {
            a = 0, b = 0, s.clear(), o.reset(), v.clear();
        }
        switch (kind) {
        case 0:
            e = archive(a);
            break;
        case 1:
            e = archive(a, b);
            break;
        case 2:
            e = archive(s);
            break;
        case 3:
            e = archive(o, a);
            break;
        case 4:
            e = archive(v);
            break;
        default:
            e = archive();
            break;
        }
        if (success(e)) {
            values = mc::mix(values, a);
            values = mc::mix(values, b);
            values = mc::hash_bytes(s.data(), s.size(), values);
            values = mc::mix(values, o ? *o : 99999u);
            values = mc::hash_bytes(v.data(), v.size() * 2, values);
        }
        return e;
    };
    auto finish = [](seen & r, const exact & data, auto & out, auto & in) {
        r.out_position = out.position();
        r.in_position = in.position();
        r.bytes.assign(data.data.get(), data.data.get() + data.size);
    };
    seen plain, awaited;
    {
        exact data(bytes_t(room, std::byte(0)));
        zb::out out{data.writable(), O{}...};
        zb::in in{data.view().first(available), O{}...};
        [&] {
            for (auto k : program) {
                if (plain.error = operation(out, k, plain.values); plain.error != std::errc{}) {
                    return;
                }
                ++plain.steps;
                if (plain.error = operation(in, k, plain.values); plain.error != std::errc{}) {
                    return;
                }
                ++plain.steps;
            }
        }();
        finish(plain, data, out, in);
    }
    {
        exact data(bytes_t(room, std::byte(0)));
        zb::out out{data.writable(), O{}...};
        zb::in in{data.view().first(available), O{}...};
        awaited.error = zpp::outcome_of([&]() -> throwing<void> {
            for (auto k : program) {
                co_await operation(out, k, awaited.values);
                ++awaited.steps;
                co_await operation(in, k, awaited.values);
                ++awaited.steps;
            }
        });
        finish(awaited, data, out, in);
    }
    mc::case_done();
    mc::step(awaited.steps + plain.steps + 1);
    mc::outcome(mc::mix(std::uint64_t(int(awaited.error)), awaited.steps));
    mc::state(mc::mix(mc::hash_bytes(awaited.bytes.data(), awaited.bytes.size()), awaited.in_position));
    mc::require(awaited == plain, "program", [&] {
        return mc::format("awaited: %zu operations and %s; not awaited: %zu and %s", awaited.steps, show(awaited.error).c_str(), plain.steps,
                          show(plain.error).c_str());
    });
    mc::require(zpp::throwing_detail::alive == before, "alive", "a coroutine was left behind");
}

// Applied functions, coroutines or not.
void applied()
{
    auto before = zpp::throwing_detail::alive;
    calls.clear();
    auto which = int(mc::choose(8, "function"));
    plan = which == 0 || which == 7 ? succeed : plan_t(mc::choose(plans, "plan"));
    auto v = int(mc::choose(2, "arguments"));
    auto a = arguments_of(v);
    bytes_t data;
    switch (which) {
    case 0:
    case 1:
    case 6:
        data = enc(config{}, a.a, a.s);
        break;
    case 2:
    case 5:
    case 7:
        data = enc(config{}, a.a);
        break;
    case 4:
        data = enc(config{}, a.s);
        break;
    default:
        break;
    }
    auto n = data.size();
    auto left = mc::choose(n + 1, "left");
    exact bytes(data.data(), left);
    zb::in in{bytes.view()};
    context c;
    bool on = false;
    auto k = std::array{0, 2, 4, 3, 6, 7, 2, 1}[std::size_t(which)];
    auto got = zpp::outcome_of([&]() -> throwing<void> {
        auto log_now = data;
        switch (which) {
        case 0: {
            auto x = co_await zb::apply(f0, in);
            mc::require(x == value_of<std::uint32_t>(0, log_now), "value", "another value");
            break;
        }
        case 1: {
            auto x = co_await co_await zb::apply(f2, in);
            mc::require(x == value_of<std::uint32_t>(2, log_now), "value", "another value");
            break;
        }
        case 2:
            co_await co_await zb::apply(f4, in);
            break;
        case 3: {
            auto x = co_await zb::apply(f3, in);
            mc::require(x == value_of<std::string>(3, log_now), "value", "another value");
            break;
        }
        case 4: {
            auto x = co_await co_await zb::apply(c, &context::f6, in);
            mc::require(*x == *value_of<std::unique_ptr<std::uint16_t>>(6, log_now), "value", "another value");
            break;
        }
        case 5:
            co_await co_await zb::apply(std::as_const(c), &context::f7, in);
            break;
        case 6: {
            auto x = co_await co_await zb::apply([](std::uint8_t a, std::string b) { return f2(a, b); }, in);
            mc::require(x == value_of<std::uint32_t>(2, log_now), "value", "another value");
            break;
        }
        case 7:
            co_await zb::apply(f1, in);
            break;
        }
        on = true;
    });
    auto want = left < n ? std::errc::result_out_of_range : code_of(plan);
    std::vector<call> expected;
    if (left == n) {
        expected.push_back({k, handlers[k].member ? &c : nullptr, data});
    }
    mc::case_done();
    mc::step();
    mc::outcome(std::uint64_t(int(got)));
    mc::state(mc::mix(std::uint64_t(which), left));
    same_code(got, want, "applying");
    mc::require(calls == expected, "calls", "the function was not called once, or not with what was read");
    mc::require(on == (want == std::errc{}), "continued", "the coroutine went on after a failure, or not after a success");
    mc::require(zpp::throwing_detail::alive == before, "alive", "a coroutine was left behind");
}

#define ALL_HANDLERS 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19
#define REVERSED_HANDLERS 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0
#ifdef THROWING_LAZY
#define MODE "lazy: "
#else
#define MODE "eager: "
#endif
[[maybe_unused]] bool added = [] {
#if PART == 0
    mc::add(MODE "codes", codes);
    mc::add(MODE "results, number", results<std::uint32_t>);
    mc::add(MODE "results, text", results<std::string>);
    mc::add(MODE "results, pointer", results<std::unique_ptr<int>>);
    mc::add(MODE "programs", programs<>);
    mc::add(MODE "programs, big endian", programs<zb::endian::big, zb::size_varint>);
    mc::add(MODE "applied", applied);
#else
    const bool more = mc::thorough();
    for (std::size_t form = 0; form < 2; ++form) {
        auto add = [&](std::string name, auto f) {
            mc::add(MODE "histories" + name + (form ? ", identifier apart" : ""), f);
        };
#if PART == 1
        add("", [=] { histories<growing, true, ALL_HANDLERS>(more ? 3 : 2, 1000, form); });
#elif PART == 2
        for (std::size_t room : more ? std::vector<std::size_t>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 1000}
                                     : std::vector<std::size_t>{0, 1, 4, 6, 1000}) {
            add(mc::format(", limited to %zu", room), [=] { histories<limited, true, REVERSED_HANDLERS>(2, room, form); });
        }
#elif PART == 3
        add(", no coroutines", [=] { histories<growing, false, 0, 1, 8, 12, 13, 16>(more ? 3 : 2, 1000, form); });
        add(", one coroutine", [=] { histories<growing, true, 0, 1, 5>(more ? 4 : 3, 1000, form); });
        add(", one without a result", [=] { histories<limited, true, 4>(more ? 5 : 4, 1000, form); });
        add(", one with a result", [=] { histories<growing, true, 19>(more ? 5 : 4, 1000, form); });
#endif
    }
#endif
    return true;
}();
} // namespace
