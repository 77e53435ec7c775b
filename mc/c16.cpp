// C16: remote procedure calls over byte buffers.
#include "kit.hpp"
#include <span>

using namespace kit;
using namespace zpp::bits::literals;

namespace
{
struct item
{
    std::uint8_t a{};
    std::uint32_t b{};
    std::string c;
    bool operator==(const item &) const = default;
};
enum class number : std::uint32_t {};
using view = std::span<const std::byte>;
} // namespace
template <>
struct model::Fields<item>
{
    static auto get(item & t) { return std::tie(t.a, t.b, t.c); }
};
template <>
struct model::M<view>
{
    static void enc(Enc & e, const view & v)
    {
        e.count(v.size());
        e.raw(v.data(), v.size());
    }
    static std::errc dec(Dec & d, view & v)
    {
        std::uint64_t n = 0;
        auto e = d.count(n);
        if (e == std::errc{} && n > d.left()) {
            e = std::errc::result_out_of_range;
        }
        if (e == std::errc{}) {
            v = {d.data + d.pos, std::size_t(n)};
            d.pos += n;
        }
        return e;
    }
};

namespace
{
// ---------------------------------------------------------------- the handlers
struct call
{
    std::size_t which;
    const void * self;
    bytes_t arguments;
    bool operator==(const call &) const = default;
};
std::vector<call> calls;
struct thrown
{
};
std::size_t earlier; // calls before this one
template <typename R>
R result(std::size_t k, const bytes_t & arguments)
{
    auto h = mc::hash_bytes(arguments.data(), arguments.size(), k);
    if constexpr (std::is_void_v<R>) {
    } else if constexpr (std::is_same_v<R, std::string>) {
        return std::string(h % 5, char('a' + k));
    } else if constexpr (std::is_same_v<R, std::unique_ptr<std::string>>) {
        return std::make_unique<std::string>(std::to_string(h % 1000));
    } else if constexpr (std::is_same_v<R, item>) {
        return item{std::uint8_t(h), std::uint32_t(h), std::to_string(h % 100)};
    } else if constexpr (std::is_same_v<R, zb::errc>) {
        // Every other call fails.
        return zb::errc{earlier % 2 ? std::errc::invalid_argument : std::errc{}};
    } else if constexpr (std::is_same_v<R, std::vector<std::uint16_t>>) {
        return R(h % 4, std::uint16_t(h));
    } else {
        return R(h);
    }
}
bool throws(const bytes_t & arguments)
{
    return arguments.size() == 1 && arguments[0] == std::byte(0xee);
}
template <std::size_t K, typename R, typename... A>
R handle(const void * self, const A &... a)
{
    earlier = calls.size();
    calls.push_back({K, self, enc(config{}, a...)});
    if (throws(calls.back().arguments)) {
        throw thrown{};
    }
    return result<R>(K, calls.back().arguments);
}

std::uint32_t f0(std::uint32_t a, std::string b) { return handle<0, std::uint32_t>(nullptr, a, b); }
std::string f1() { return handle<1, std::string>(nullptr); }
void f2(std::uint8_t a) { return handle<2, void>(nullptr, a); }
void f3() { return handle<3, void>(nullptr); }
std::unique_ptr<std::string> f4(std::unique_ptr<std::uint16_t> a, std::uint8_t b)
{
    return handle<4, std::unique_ptr<std::string>>(nullptr, a, b);
}
struct context
{
    std::uint16_t f5(std::uint16_t a) { return handle<5, std::uint16_t>(this, a); }
    std::string f6(const std::string & a) const { return handle<6, std::string>(this, a); }
    void f7(std::vector<std::uint8_t> a) { return handle<7, void>(this, a); }
    zb::errc f9() { return handle<9, zb::errc>(this); }
    std::string f13() const noexcept { return handle<13, std::string>(this); }
    int unused{};
};
double f8(std::uint16_t a, double b) { return handle<8, double>(nullptr, a, b); }
std::uint8_t f10(std::uint8_t a) { return handle<10, std::uint8_t>(nullptr, a); }
item f11(item a, std::optional<std::uint8_t> b) noexcept { return handle<11, item>(nullptr, a, b); }
std::uint64_t f12(view a, std::uint8_t b) { return handle<12, std::uint64_t>(nullptr, a, b); }

template <typename R, typename... A>
struct signature
{
    using result = R;
    using parameters = std::tuple<A...>;
};
template <std::size_t K>
auto signature_of()
{
    if constexpr (K == 0) return signature<std::uint32_t, std::uint32_t, std::string>{};
    if constexpr (K == 1) return signature<std::string>{};
    if constexpr (K == 2) return signature<void, std::uint8_t>{};
    if constexpr (K == 3) return signature<void>{};
    if constexpr (K == 4) return signature<std::unique_ptr<std::string>, std::unique_ptr<std::uint16_t>, std::uint8_t>{};
    if constexpr (K == 5) return signature<std::uint16_t, std::uint16_t>{};
    if constexpr (K == 6) return signature<std::string, std::string>{};
    if constexpr (K == 7) return signature<void, std::vector<std::uint8_t>>{};
    if constexpr (K == 8) return signature<double, std::uint16_t, double>{};
    if constexpr (K == 9) return signature<zb::errc>{};
    if constexpr (K == 10) return signature<std::uint8_t, std::uint8_t>{};
    if constexpr (K == 11) return signature<item, item, std::optional<std::uint8_t>>{};
    if constexpr (K == 12) return signature<std::uint64_t, view, std::uint8_t>{};
    if constexpr (K == 13) return signature<std::string>{};
}
template <std::size_t K>
using sig = decltype(signature_of<K>());
constexpr std::size_t handlers = 14;
bool is_member(std::size_t k)
{
    return (k >= 5 && k <= 7) || k == 9 || k == 13;
}

// Calls f(index) with a constant.
template <typename F>
auto with(std::size_t k, F && f)
{
    using R = decltype(f(std::integral_constant<std::size_t, 0>{}));
    return [&]<std::size_t... I>(std::index_sequence<I...>) -> R {
        using entry = R (*)(F &);
        static constexpr entry table[]{+[](F & g) -> R { return g(std::integral_constant<std::size_t, I>{}); }...};
        return table[k](f);
    }(std::make_index_sequence<handlers>{});
}

// The arguments of handler K, in one of two variants.
std::byte some_bytes[4]{std::byte(1), std::byte(2), std::byte(0xff), std::byte(4)};
template <std::size_t K>
typename sig<K>::parameters arguments(std::size_t v)
{
    typename sig<K>::parameters p;
    if constexpr (K == 0) p = {v ? 0xfffffffe : 0x01020304, v ? "" : "hello"};
    if constexpr (K == 2) p = {v ? 0 : 0x81};
    if constexpr (K == 4) p = {std::make_unique<std::uint16_t>(v ? 0xffff : 0x0102), v ? 0 : 7};
    if constexpr (K == 5) p = {v ? 0 : 0x8001};
    if constexpr (K == 6) p = {v ? std::string(130, 'x') : "key"};
    if constexpr (K == 7) p = {v ? std::vector<std::uint8_t>{} : std::vector<std::uint8_t>{1, 2, 3}};
    if constexpr (K == 8) p = {v ? 2 : 0xfff1, v ? -3.0 : 1e10};
    if constexpr (K == 10) p = {v ? 0xee : 3};
    if constexpr (K == 11) p = {v ? item{} : item{1, 0x02030405, "c"}, v ? std::optional<std::uint8_t>{} : std::optional<std::uint8_t>{9}};
    if constexpr (K == 12) p = {v ? view{} : view{some_bytes}, 0x55};
    return p;
}

// ---------------------------------------------------------------- ids
template <std::size_t K>
constexpr auto digit = char('a' + K);
struct sha256_int
{
    static constexpr auto size = 4;
    template <std::size_t K>
    static constexpr auto id()
    {
        return std::uint32_t(0x9e3779b9u * (K + 1));
    }
    static constexpr auto max = -1;
    static constexpr bool number = true;
};
template <int Max, bool Number>
struct digest
{
    template <std::size_t K>
    static constexpr auto id()
    {
        return zb::sha256<zb::to_bytes<K + 17>()>();
    }
    static constexpr auto max = Max;
    static constexpr bool number = Number;
};
struct small
{
    template <std::size_t K>
    static constexpr auto id()
    {
        return std::uint8_t(0x7a + K);
    }
    static constexpr auto max = -1;
    static constexpr bool number = true;
};
struct numbers
{
    template <std::size_t K>
    static constexpr auto id()
    {
        return ::number(K ? K * 0x01000001 : 0);
    }
    static constexpr auto max = -1;
    static constexpr bool number = true;
};
struct text
{
    template <std::size_t K>
    static constexpr auto id()
    {
        return std::array<char, 5>{'n', 'a', 'm', 'e', char('A' + K)};
    }
    static constexpr auto max = -1;
    static constexpr bool number = false;
};
template <std::size_t... K>
constexpr auto names = 0;

template <typename S, std::size_t K>
constexpr auto function()
{
    if constexpr (K == 0) return zb::bind<f0, S::template id<0>(), S::max>{};
    if constexpr (K == 1) return zb::bind<f1, S::template id<1>(), S::max>{};
    if constexpr (K == 2) return zb::bind<f2, S::template id<2>(), S::max>{};
    if constexpr (K == 3) return zb::bind<f3, S::template id<3>(), S::max>{};
    if constexpr (K == 4) return zb::bind<f4, S::template id<4>(), S::max>{};
    if constexpr (K == 5) return zb::bind<&context::f5, S::template id<5>(), S::max>{};
    if constexpr (K == 6) return zb::bind<&context::f6, S::template id<6>(), S::max>{};
    if constexpr (K == 7) return zb::bind<&context::f7, S::template id<7>(), S::max>{};
    if constexpr (K == 8) return zb::bind<f8, S::template id<8>(), S::max>{};
    if constexpr (K == 9) return zb::bind<&context::f9, S::template id<9>(), S::max>{};
    if constexpr (K == 10) return zb::bind<f10, S::template id<10>(), S::max>{};
    if constexpr (K == 11) return zb::bind<f11, S::template id<11>(), S::max>{};
    if constexpr (K == 12) return zb::bind<&f12, S::template id<12>(), S::max>{};
    if constexpr (K == 13) return zb::bind<&context::f13, S::template id<13>(), S::max>{};
}
template <typename S, typename = std::make_index_sequence<handlers>>
struct rpc_maker;
template <typename S, std::size_t... K>
struct rpc_maker<S, std::index_sequence<K...>>
{
    using type = zb::rpc<decltype(function<S, K>())...>;
};
template <typename S>
using rpc_of = typename rpc_maker<S>::type;

// The bytes of an id, from the property: those of the object, cut.
template <typename S>
const bytes_t & id_bytes(std::size_t k, const config & c)
{
    static const auto known = [] {
        std::array<std::array<bytes_t, handlers>, 2> r;
        [&]<std::size_t... K>(std::index_sequence<K...>) {
            for (int swapped = 0; swapped < 2; ++swapped) {
                auto one = [&](std::size_t k, auto id) {
                    bytes_t b(sizeof(id));
                    std::memcpy(b.data(), &id, sizeof(id));
                    if (S::max >= 0) {
                        b.resize(std::size_t(S::max));
                    }
                    if (S::number && swapped) {
                        std::reverse(b.begin(), b.end());
                    }
                    r[swapped][k] = b;
                };
                (one(K, S::template id<K>()), ...);
            }
        }(std::make_index_sequence<handlers>{});
        return r;
    }();
    return known[c.swapped][k];
}

template <prefix P, bool Big, typename... O>
struct opt
{
    static config model() { return {Big, P, 4096}; }
    static auto in(auto & d) { return zb::in{d, O{}..., zb::alloc_limit<4096>{}}; }
    static auto out(auto & d) { return zb::out{d, O{}..., zb::append{}}; }
    static auto out_fixed(auto & d) { return zb::out{d, O{}...}; }
};
using o_default = opt<prefix::p4, false>;
using o_big = opt<prefix::p2, true, zb::size2b, zb::endian::big>;
using o_varint = opt<prefix::varint, false, zb::size_varint>;

// ---------------------------------------------------------------- the model of a server
template <typename S, typename O>
struct served
{
    std::errc error{};
    bool throws{};
    bool odd{};
    std::size_t position{};
    std::vector<call> calls;
    bytes_t response;

    void run(std::size_t k, model::Dec & d, const void * self)
    {
        with(k, [&](auto i) {
            constexpr auto K = decltype(i)::value;
            using R = typename sig<K>::result;
            typename sig<K>::parameters p;
            std::apply([&](auto &... x) {
                (void)(... && ((error = M<std::remove_cvref_t<decltype(x)>>::dec(d, x)) == std::errc{}));
            }, p);
            position = d.pos;
            odd = d.odd_bool || d.duplicate;
            if (error != std::errc{}) {
                return;
            }
            auto a = std::apply([](auto &... x) { return enc(config{}, x...); }, p);
            calls.push_back({K, is_member(K) ? self : nullptr, a});
            if (::throws(a)) {
                throws = true;
                return;
            }
            if constexpr (std::is_same_v<R, zb::errc>) {
                earlier = ::calls.size();
                error = result<R>(K, a);
            } else if constexpr (!std::is_void_v<R>) {
                response = enc(O::model(), result<R>(K, a));
            }
        });
    }
    served(const std::byte * data, std::size_t size, std::size_t start, const void * self, std::size_t known = ~std::size_t{})
    {
        model::Dec d{O::model(), data, size, start};
        if (known != ~std::size_t{}) {
            run(known, d, self);
            return;
        }
        auto width = id_bytes<S>(0, O::model()).size();
        position = start;
        if (d.left() < width) {
            error = std::errc::result_out_of_range;
            return;
        }
        bytes_t id(data + start, data + start + width);
        position = d.pos = start + width;
        for (std::size_t k = 0; k < handlers; ++k) {
            if (id == id_bytes<S>(k, O::model())) {
                run(k, d, self);
                return;
            }
        }
        error = std::errc::not_supported;
    }
};

// A request, or its body alone, as the client makes it.
template <typename S, std::size_t K, bool Body = false>
std::errc request(auto & client, std::size_t v, int form)
{
    constexpr auto id = S::template id<K>();
    auto p = arguments<K>(v);
    auto go = [&](auto &&... a) {
        if constexpr (Body) {
            return std::errc(client.template request_body<id, S::max>(std::forward<decltype(a)>(a)...));
        } else {
            return std::errc(client.template request<id, S::max>(std::forward<decltype(a)>(a)...));
        }
    };
    if constexpr (std::tuple_size_v<typename sig<K>::parameters> == 0) {
        if constexpr (Body) {
            static_assert(std::is_void_v<decltype(client.template request_body<id, S::max>())>);
            client.template request_body<id, S::max>();
            return {};
        } else {
            return go();
        }
    } else {
        switch (form) {
        case 1: // arguments of other types
            if constexpr (K == 0) {
                return go(int(std::get<0>(p)), std::get<1>(p));
            } else if constexpr (K == 2 || K == 5 || K == 10) {
                return go(static_cast<long long>(std::get<0>(p)));
            } else if constexpr (K == 8) {
                return go(int(std::get<0>(p)), float(std::get<1>(p)));
            } else {
                using type = zb::id<id, S::max>;
                return std::apply([&](auto &... a) {
                    if constexpr (Body) {
                        return std::errc(client.template request_body<type>(a...));
                    } else {
                        return std::errc(client.template request<type>(a...));
                    }
                }, p);
            }
        case 2:
            return std::apply([&](auto &... a) { return go(std::move(a)...); }, p);
        case 3:
            if constexpr (K == 8) {
                return go(static_cast<long long>(std::get<0>(p)), static_cast<long long>(std::get<1>(p)));
            } else if constexpr (K == 2 || K == 5 || K == 10) {
                return go(double(std::get<0>(p)));
            } else {
                return std::apply([&](auto &... a) { return go(std::as_const(a)...); }, p);
            }
        default:
            return std::apply([&](auto &... a) { return go(a...); }, p);
        }
    }
}
template <std::size_t K>
bytes_t body(std::size_t v, const config & c)
{
    auto p = arguments<K>(v);
    return std::apply([&](auto &... a) { return enc(c, a...); }, p);
}
// What the client makes of a response; `got` is its encoding.
template <typename S, std::size_t K>
std::errc response(auto & client, bytes_t & got)
{
    using R = typename sig<K>::result;
    if constexpr (std::is_void_v<R>) {
        static_assert(std::is_void_v<decltype(client.template response<S::template id<K>(), S::max>())>);
        client.template response<S::template id<K>(), S::max>();
        return {};
    } else if constexpr (std::is_same_v<R, zb::errc>) {
        return {};
    } else {
        auto r = client.template response<S::template id<K>(), S::max>();
        static_assert(std::is_same_v<decltype(r), zb::value_or_errc<R>>);
        if (r.failure()) {
            return r.error();
        }
        got = enc(config{}, r.value());
        return {};
    }
}
bool responds(std::size_t k)
{
    return with(k, [](auto i) {
        using R = typename sig<decltype(i)::value>::result;
        return !std::is_void_v<R> && !std::is_same_v<R, zb::errc>;
    });
}

template <typename F>
std::errc serve(bool & thrown_, F && f)
{
    thrown_ = false;
    try {
        return std::errc(f());
    } catch (const thrown &) {
        thrown_ = true;
        return {};
    }
}

// ---------------------------------------------------------------- histories
struct pending
{
    std::size_t which;
};
template <typename S, typename O>
void history(const char * name, std::size_t depth, std::vector<std::size_t> alphabet)
{
    using rpc = rpc_of<S>;
    auto c = O::model();
    std::vector<std::byte> requests, responses;
    context self;
    auto client_in = O::in(responses);
    auto client_out = O::out(requests);
    auto server_in = O::in(requests);
    auto server_out = O::out(responses);
    auto client = typename rpc::template client<decltype(client_in) &, decltype(client_out) &>{client_in, client_out};
    auto server = typename rpc::template server<decltype(server_in) &, decltype(server_out) &, context &>{server_in, server_out, self};

    bytes_t m_requests, m_responses;
    std::size_t served_to = 0, read_to = 0;
    std::vector<std::size_t> waiting; // handlers whose response is still to be read
    std::vector<call> m_calls;
    calls.clear();
    std::string text = name;
    auto fail_text = [&] { return text; };
    auto same = [&] {
        mc::step();
        mc::case_done();
        mc::require(requests == m_requests, "requests", [&] { return text + ": the requests are " + show(requests) + " instead of " + show(m_requests); });
        mc::require(responses == m_responses, "responses", [&] { return text + ": the responses are " + show(responses) + " instead of " + show(m_responses); });
        mc::require(calls == m_calls, "calls", [&] { return text + mc::format(": %zu calls instead of %zu, or with other arguments", calls.size(), m_calls.size()); });
        mc::require(server_in.position() == served_to, "served", [&] { return text + mc::format(": the server is at %zu instead of %zu", server_in.position(), served_to); });
        mc::require(client_in.position() == read_to, "read", [&] { return text + mc::format(": the client is at %zu instead of %zu", client_in.position(), read_to); });
        mc::require(client_out.position() == m_requests.size() && server_out.position() == m_responses.size(), "written", fail_text);
    };
    auto verdict = [&](std::errc e, std::errc expected) {
        mc::require(e == expected, "verdict", [&] { return text + ": " + show(e) + " instead of " + show(expected); });
    };
    auto a = alphabet.size();
    for (std::size_t n = 0; n < depth; ++n) {
        // Requests, an unknown request, serving, reading a response.
        auto op = mc::choose(2 * a + 3, "operation");
        if (op < 2 * a) {
            auto k = alphabet[op / 2];
            auto v = op % 2;
            text += mc::format(" request(%zu,%zu)", k, v);
            auto form = int((n + k + v) % 3);
            verdict(with(k, [&](auto i) { return request<S, decltype(i)::value>(client, v, form); }), {});
            m_requests = m_requests + id_bytes<S>(k, c) + with(k, [&](auto i) { return body<decltype(i)::value>(v, c); });
        } else if (op == 2 * a) {
            text += " unknown";
            auto id = id_bytes<S>(0, c);
            for (auto & b : id) {
                b = std::byte(0xe3);
            }
            std::array<std::byte, 64> copy{};
            std::copy(id.begin(), id.end(), copy.begin());
            for (auto b : id) {
                verdict(std::errc(client_out(b)), {});
            }
            m_requests = m_requests + id;
        } else if (op == 2 * a + 1) {
            text += " serve";
            served<S, O> x(m_requests.data(), m_requests.size(), served_to, &self);
            bool t = false;
            auto e = serve(t, [&] { return server.serve(); });
            mc::require(t == x.throws, "exception", fail_text);
            verdict(e, x.error);
            m_responses = m_responses + x.response;
            if (x.calls.size() && !x.throws && responds(x.calls[0].which)) {
                waiting.push_back(x.calls[0].which);
            }
            m_calls.insert(m_calls.end(), x.calls.begin(), x.calls.end());
            if (x.error == std::errc::result_out_of_range && x.calls.empty()) {
                served_to = server_in.position(); // not specified here
            } else {
                served_to = x.position;
            }
        } else {
            // The client knows which response comes next; with none waiting it
            // reads one of the first handler which responds, and fails.
            std::size_t k = 1;
            std::errc expected = std::errc::result_out_of_range;
            if (!waiting.empty()) {
                k = waiting.front();
                waiting.erase(waiting.begin());
                expected = {};
            }
            text += mc::format(" response(%zu)", k);
            bytes_t got;
            verdict(with(k, [&](auto i) { return response<S, decltype(i)::value>(client, got); }), expected);
            if (expected == std::errc{}) {
                model::Dec d{c, m_responses.data(), m_responses.size(), read_to};
                bytes_t value;
                with(k, [&](auto i) {
                    using R = typename sig<decltype(i)::value>::result;
                    if constexpr (!std::is_void_v<R> && !std::is_same_v<R, zb::errc>) {
                        auto v = model::fresh_of<R>();
                        M<R>::dec(d, v);
                        value = enc(config{}, v);
                    }
                });
                read_to = d.pos;
                mc::require(got == value, "response", [&] { return text + ": the client got " + show(got) + " instead of " + show(value); });
            }
        }
        mc::note(fail_text);
        same();
        auto h = mc::hash_bytes(m_requests.data(), m_requests.size(), served_to);
        h = mc::mix(h, mc::hash_bytes(m_responses.data(), m_responses.size(), read_to));
        mc::state(h);
        mc::outcome(mc::mix(calls.size(), mc::mix(m_responses.size(), served_to)));
        for (auto k : waiting) {
            h = mc::mix(h, k);
        }
        mc::visit(mc::mix(h, n % 3), int(depth - n - 1));
    }
}

// ---------------------------------------------------------------- one call, every fault
template <typename S, typename O>
void faults(const char * name)
{
    using rpc = rpc_of<S>;
    auto c = O::model();
    auto k = mc::choose(handlers, "handler");
    auto v = mc::choose(2, "variant");
    auto form = int(mc::choose(4, "form"));
    context self;
    std::string text = mc::format("%s handler %zu variant %zu form %d", name, k, v, form);
    auto id = id_bytes<S>(k, c);
    auto b = with(k, [&](auto i) { return body<decltype(i)::value>(v, c); });
    auto whole = id + b;
    mc::state(mc::hash_bytes(whole.data(), whole.size(), form));

    // The request into every buffer size.
    for (std::size_t room = 0; room <= whole.size(); ++room) {
        exact target(bytes_t(room, std::byte(0x99)));
        std::vector<std::byte> none;
        auto view = target.writable();
        auto in = O::in(none);
        auto out = O::out_fixed(view);
        auto client = typename rpc::template client<decltype(in) &, decltype(out) &>{in, out};
        auto e = with(k, [&](auto i) { return request<S, decltype(i)::value>(client, v, form); });
        mc::step();
        mc::case_done();
        mc::require((e == std::errc{}) == (room == whole.size()), "room", [&] { return text + mc::format(" in %zu: ", room) + show(e); });
        if (room == whole.size()) {
            mc::require(!std::memcmp(target.data.get(), whole.data(), room), "request", [&] {
                return text + ": " + mc::hex(target.data.get(), room) + " instead of " + show(whole);
            });
        } else {
            mc::require(e == std::errc::result_out_of_range || e == std::errc::no_buffer_space, "room-error", [&] { return text + show(e); });
        }
    }

    // The server, given something.
    auto check = [&](const bytes_t & given, std::size_t known, std::size_t room, const bytes_t & before) {
        exact data(given);
        auto view = data.view();
        auto in = O::in(view);
        auto run = [&](auto & out, auto && written) {
            calls.clear();
            served<S, O> x(data.data.get(), data.size, 0, &self, known);
            auto [client, server] = rpc::client_server(in, out, self);
            bool t = false;
            auto where = [&] { return text + ": given " + show(given) + (known == ~std::size_t{} ? "" : " without its id") + mc::format(", room for %zu", room); };
            mc::note(where);
            auto e = serve(t, [&] {
                if (known == ~std::size_t{}) {
                    return server.serve();
                } else {
                    return with(known, [&](auto i) { return server.serve(zb::id_v<S::template id<decltype(i)::value>(), S::max>); });
                }
            });
            mc::step();
            mc::case_done();
            auto expected = x.error;
            auto full = x.response.size() > room;
            mc::require(t == x.throws, "exception", where);
            if (full) {
                mc::require(e == std::errc::result_out_of_range || e == std::errc::no_buffer_space, "response-room", [&] { return where() + ": " + show(e); });
            } else {
                mc::require(e == expected, "verdict", [&] { return where() + ": " + show(e) + " instead of " + show(expected); });
            }
            if (x.odd) {
                return;
            }
            mc::require(calls == x.calls, "calls", [&] { return where() + mc::format(": %zu calls instead of %zu, or with other arguments", calls.size(), x.calls.size()); });
            if (x.calls.size() || x.error == std::errc::not_supported) {
                mc::require(in.position() == x.position, "consumed", [&] { return where() + mc::format(": position %zu instead of %zu", in.position(), x.position); });
            }
            mc::require(in.position() <= data.size, "position", where);
            if (!full) {
                auto w = written();
                mc::require(w == before + x.response, "response", [&] { return where() + ": wrote " + show(w) + " instead of " + show(before + x.response); });
                mc::require(out.position() == w.size(), "response-position", where);
            }
            mc::outcome(mc::mix(mc::mix(std::uint64_t(e), x.position), x.response.size()));
        };
        if (room == ~std::size_t{}) {
            std::vector<std::byte> target = before;
            auto out = O::out(target);
            run(out, [&] { return target; });
        } else {
            exact target(bytes_t(room, std::byte(0x99)));
            auto v = target.writable();
            auto out = O::out_fixed(v);
            run(out, [&] { return bytes_t(target.data.get(), target.data.get() + out.position()); });
        }
    };
    constexpr auto any = ~std::size_t{};
    check(whole, any, any, {});
    check(whole, any, any, unhex("010203"));
    check(whole + whole, any, any, {});
    check(b, k, any, {});
    check(b + unhex("ff"), k, any, {});
    for (std::size_t room = 0; room < 16; ++room) {
        check(whole, any, room, {});
    }
    // The body alone.
    {
        std::vector<std::byte> none, target;
        auto in = O::in(none);
        auto out = O::out(target);
        auto [client, server] = rpc::client_server(in, out, self);
        auto e = with(k, [&](auto i) { return request<S, decltype(i)::value, true>(client, v, form); });
        mc::case_done();
        mc::require(e == std::errc{} && target == b, "body", [&] { return text + ": the body is " + show(target) + " instead of " + show(b); });
    }
    if (form) {
        return;
    }
    for (std::size_t cut = 0; cut < whole.size(); ++cut) {
        check({whole.begin(), whole.begin() + cut}, any, any, {});
        for (int x : {0x00, 0xff, 0x02, -1, -2}) {
            auto other = whole;
            other[cut] = x < 0 ? other[cut] ^ std::byte(x == -1 ? 1 : 0x80) : std::byte(x);
            check(other, any, any, unhex("05"));
        }
    }
    for (std::size_t cut = 0; cut < b.size(); ++cut) {
        check({b.begin(), b.begin() + cut}, k, any, {});
    }
    // An id which no handler has.
    for (std::size_t i = 0; i < id.size(); ++i) {
        for (int bit = 0; bit < 8; ++bit) {
            auto other = whole;
            other[i] ^= std::byte(1 << bit);
            check(other, any, any, {});
        }
    }
    // The response.
    if (responds(k)) {
        served<S, O> x(whole.data(), whole.size(), 0, &self);
        if (x.throws) {
            return;
        }
        auto read = [&](const bytes_t & given, std::size_t start) {
            exact data(given);
            auto view = data.view();
            std::vector<std::byte> none;
            auto in = O::in(view);
            in.position() = start;
            auto out = O::out(none);
            auto client = typename rpc::template client<decltype(in) &, decltype(out) &>{in, out};
            bytes_t got, value;
            auto e = with(k, [&](auto i) { return response<S, decltype(i)::value>(client, got); });
            model::Dec d{c, data.data.get(), data.size, start};
            auto expected = with(k, [&](auto i) {
                using R = typename sig<decltype(i)::value>::result;
                if constexpr (!std::is_void_v<R> && !std::is_same_v<R, zb::errc>) {
                    auto v = model::fresh_of<R>();
                    auto e = M<R>::dec(d, v);
                    if (e == std::errc{}) {
                        value = enc(config{}, v);
                    }
                    return e;
                } else {
                    return std::errc{};
                }
            });
            mc::step();
            mc::case_done();
            auto where = [&] { return text + ": response " + show(given); };
            mc::require(e == expected, "response-verdict", [&] { return where() + ": " + show(e) + " instead of " + show(expected); });
            mc::require(got == value, "response-value", [&] { return where() + ": " + show(got) + " instead of " + show(value); });
            if (e == std::errc{}) {
                mc::require(in.position() == d.pos, "response-consumed", where);
            }
            mc::require(none.empty() || out.position() == 0, "response-wrote", where);
        };
        read(x.response, 0);
        read(unhex("0102") + x.response + unhex("03"), 2);
        for (std::size_t cut = 0; cut < x.response.size(); ++cut) {
            read({x.response.begin(), x.response.begin() + cut}, 0);
            for (int y : {0x00, 0xff, 0x02, -1}) {
                auto other = x.response;
                other[cut] = y < 0 ? other[cut] ^ std::byte(1) : std::byte(y);
                read(other, 0);
            }
        }
    }
}

// One buffer for everything, as with data_in_out().
template <typename S>
void one_buffer(const char * name)
{
    using rpc = rpc_of<S>;
    context self;
    auto [data, in, out] = zb::data_in_out();
    auto [client, server] = rpc::client_server(in, out, self);
    bytes_t all;
    config c{};
    std::size_t at = 0;
    calls.clear();
    std::vector<call> m_calls;
    std::string text = name;
    for (int n = 0; n < 3; ++n) {
        auto k = mc::choose(handlers, "handler");
        auto v = mc::choose(2, "variant");
        text += mc::format(" %zu/%zu", k, v);
        auto e = with(k, [&](auto i) { return request<S, decltype(i)::value>(client, v, 0); });
        all = all + id_bytes<S>(k, c) + with(k, [&](auto i) { return body<decltype(i)::value>(v, c); });
        mc::require(e == std::errc{}, "one-request", text.c_str());
        served<S, o_default> x(all.data(), all.size(), at, &self);
        bool t = false;
        auto s = serve(t, [&] { return server.serve(); });
        m_calls.insert(m_calls.end(), x.calls.begin(), x.calls.end());
        mc::step(2);
        mc::case_done();
        mc::require(t == x.throws && s == x.error && in.position() == x.position && calls == m_calls, "one-serve", [&] { return text; });
        at = x.position;
        all = all + x.response;
        if (!x.throws) {
            bytes_t got;
            auto r = with(k, [&](auto i) { return response<S, decltype(i)::value>(client, got); });
            at += x.response.size();
            mc::require(r == std::errc{}, "one-response", [&] { return text; });
            if (responds(k)) {
                auto value = with(k, [&](auto i) {
                    using R = typename sig<decltype(i)::value>::result;
                    if constexpr (!std::is_void_v<R> && !std::is_same_v<R, zb::errc>) {
                        return enc(config{}, result<R>(k, x.calls[0].arguments));
                    } else {
                        return bytes_t{};
                    }
                });
                mc::require(got == value, "one-value", [&] { return text; });
            }
        }
        mc::require(in.position() == at && out.position() == all.size() && std::equal(all.begin(), all.end(), data.begin()), "one-bytes", [&] { return text; });
        mc::state(mc::hash_bytes(all.data(), all.size(), at));
        mc::visit(mc::hash_bytes(all.data(), all.size(), at), 2 - n);
    }
}

template <typename S, typename O>
void add(const std::string & ids, const std::string & options, std::size_t deep = 5)
{
    auto text = new std::string(ids + " ids, " + options);
    mc::add("faults, " + *text, [=] { faults<S, O>(text->c_str()); });
    mc::add("history, " + *text, [=] {
        std::vector<std::size_t> all;
        for (std::size_t k = 0; k < handlers; ++k) {
            all.push_back(k);
        }
        history<S, O>(text->c_str(), 3, all);
    });
    for (std::size_t a = 0; a < handlers; ++a) {
        auto t = new std::string(*text + mc::format(", %zu", a));
        mc::add("pairs, " + *t, [=] {
            auto b = mc::choose(handlers - 1, "other");
            history<S, O>(t->c_str(), deep + mc::thorough(), {a, b >= a ? b + 1 : b});
        });
    }
}
template <typename S>
void add_buffer(const std::string & ids)
{
    auto text = new std::string("one buffer, " + ids + " ids");
    mc::add(*text, [=] { one_buffer<S>(text->c_str()); });
}

#if PART == 9
// ---------------------------------------------------------------- ordinary and opaque handlers in one
std::uint16_t plain_one(std::uint16_t a, std::uint8_t b) { return handle<0, std::uint16_t>(nullptr, a, b); }
void plain_two(std::uint8_t a) { handle<1, void>(nullptr, a); }
bytes_t seen(std::span<const std::byte> s) { return {s.begin(), s.end()}; }
void opaque_one(std::span<const std::byte> s) { calls.push_back({2, nullptr, seen(s)}); }
std::uint8_t opaque_two(std::span<const std::byte> s)
{
    calls.push_back({3, nullptr, seen(s)});
    return std::uint8_t(s.size());
}
constexpr std::uint8_t ids[] = {0x10, 0x80, 0x11, 0x00};
using b0 = zb::bind<plain_one, std::byte{0x10}>;
using b1 = zb::bind<plain_two, std::byte{0x80}>;
using b2 = zb::bind_opaque<opaque_one, std::byte{0x11}>;
using b3 = zb::bind_opaque<opaque_two, std::byte{0x00}>;

// The handlers in order of binding; each tried with every id, given or read.
template <typename Rpc, std::size_t... Bound>
void mixed(const char * name)
{
    auto given = std::uint8_t(mc::choose(256, "id"));
    auto known = mc::choose(2, "known");
    for (auto size = 0u; size < 5; ++size) {
        bytes_t content;
        for (auto i = 0u; i < size; ++i) {
            content.push_back(std::byte(i + 1));
        }
        bytes_t request = content;
        if (!known) {
            request.insert(request.begin(), std::byte(given));
        }
        exact data(request);
        auto view = data.view();
        bytes_t target;
        zb::in in{view};
        zb::out out{target};
        typename Rpc::template server<decltype(in) &, decltype(out) &> server{in, out};
        calls.clear();
        auto e = known ? std::errc(server.serve(std::byte(given))) : std::errc(server.serve());
        mc::case_done();
        std::size_t which = ~std::size_t{};
        ((which = ids[Bound] == given ? Bound : which), ...);
        auto where = [&] { return mc::format("%s, id %02x%s, %u bytes: ", name, given, known ? " given" : "", size) + show(e) + mc::format(", %zu calls", calls.size()); };
        std::errc expected{};
        std::vector<call> made;
        bytes_t response;
        std::size_t position = request.size();
        switch (which) {
        case 0: {
            model::Dec d{config{}, request.data(), request.size(), std::size_t(!known)};
            std::uint16_t a{};
            std::uint8_t b{};
            expected = M<std::uint16_t>::dec(d, a);
            if (expected == std::errc{}) {
                expected = M<std::uint8_t>::dec(d, b);
            }
            if (expected == std::errc{}) {
                made.push_back({0, nullptr, enc(config{}, a, b)});
                response = enc(config{}, result<std::uint16_t>(0, made[0].arguments));
                position = d.pos;
            }
            break;
        }
        case 1:
            if (!size) {
                expected = std::errc::result_out_of_range;
            } else {
                made.push_back({1, nullptr, {content[0]}});
                position = !known + 1;
            }
            break;
        case 2:
            made.push_back({2, nullptr, content});
            break;
        case 3:
            made.push_back({3, nullptr, content});
            response = {std::byte(size)};
            break;
        default:
            expected = std::errc::not_supported;
            position = !known;
        }
        mc::require(e == expected, "mixed-verdict", where);
        mc::require(calls == made, "mixed-calls", where);
        mc::require(target == response, "mixed-response", where);
        if (e == std::errc{} || e == std::errc::not_supported) {
            mc::require(in.position() == position, "mixed-position", where);
        }
        mc::state(mc::hash_bytes(request.data(), request.size(), known));
        mc::outcome(mc::mix(std::uint64_t(e), which));
    }
}
template <typename Rpc, std::size_t... Bound>
void add_mixed(const char * name)
{
    mc::add(std::string("mixed, ") + name, [=] { mixed<Rpc, Bound...>(name); });
}
#endif

bool added = [] {
#if PART == 9
    add_mixed<zb::rpc<b0, b1, b2, b3>, 0, 1, 2, 3>("opaque last");
    add_mixed<zb::rpc<b2, b3, b1, b0>, 2, 3, 1, 0>("opaque first");
    add_mixed<zb::rpc<b0, b2, b1>, 0, 2, 1>("opaque between");
    add_mixed<zb::rpc<b1, b3>, 1, 3>("two, opaque last");
    add_mixed<zb::rpc<b3, b1>, 3, 1>("two, opaque first");
    add_mixed<zb::rpc<b2>, 2>("one opaque");
    add_mixed<zb::rpc<b0>, 0>("one");
#elif PART == 0
    add<sha256_int, o_default>("number", "4 bytes", 5);
    add_buffer<sha256_int>("number");
#elif PART == 1
    add<sha256_int, o_big>("number", "2 big");
#elif PART == 2
    add<small, o_varint>("1 byte", "varint");
    add_buffer<small>("1 byte");
#elif PART == 3
    add<digest<2, true>, o_big>("2 byte", "2 big");
#elif PART == 4
    add<digest<8, true>, o_big>("8 byte", "2 big");
#elif PART == 5
    add<digest<-1, false>, o_default>("digest", "4 bytes");
#elif PART == 6
    add<digest<3, false>, o_big>("3 byte", "2 big", 5);
    add_buffer<digest<3, false>>("3 byte");
#elif PART == 7
    add<numbers, o_varint>("enumerated", "varint");
#elif PART == 8
    add<text, o_default>("text", "4 bytes");
    add_buffer<text>("text");
#endif
    return true;
}();
} // namespace
