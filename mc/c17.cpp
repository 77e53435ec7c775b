// C17: remote procedure calls whose handlers take the request undecoded.
#include "kit.hpp"
#include <span>

using namespace kit;

namespace
{
using view = std::span<const std::byte>;
struct thrown
{
};
// What the handler is to do, and what it saw.
struct orders
{
    std::size_t consume{};
    std::size_t produce{};
    int ending{}; // 1: fails or throws
};
struct sight
{
    const void * self{};
    const std::byte * data{}; // the remainder
    std::size_t size{};
    std::size_t in_position{};
    std::size_t out_position{};
};
orders order;
std::vector<sight> seen;
std::vector<std::uint8_t> plain_calls;
enum kind
{
    in_out,
    in_only,
    out_only,
    by_value,
    by_reference,
    nothing,
};

template <typename R>
R ending()
{
    if (order.ending && !std::is_same_v<R, zb::errc>) {
        throw thrown{};
    }
    if constexpr (std::is_same_v<R, zb::errc>) {
        return zb::errc{order.ending ? std::errc::invalid_argument : std::errc{}};
    } else if constexpr (std::is_same_v<R, std::string>) {
        return std::string("result").substr(order.consume);
    } else if constexpr (!std::is_void_v<R>) {
        return R(0x0102 + order.consume);
    }
}
template <typename R>
bytes_t ending_bytes(const config & c, const orders & o)
{
    if constexpr (std::is_same_v<R, std::string>) {
        return enc(c, std::string("result").substr(o.consume));
    } else if constexpr (std::is_same_v<R, std::uint16_t>) {
        return enc(c, R(0x0102 + o.consume));
    }
    return {};
}
void consume(auto & in)
{
    for (std::size_t i = 0; i < order.consume; ++i) {
        std::uint8_t b;
        if (failure(in(b))) {
            break;
        }
    }
}
void produce(auto & out)
{
    for (std::size_t i = 0; i < order.produce; ++i) {
        (void)out(std::uint8_t(0xd0 + i));
    }
}

template <typename In, typename Out, typename R>
struct host
{
    static R do_in_out(const void * self, In & in, Out & out)
    {
        auto r = in.remaining_data();
        seen.push_back({self, r.data(), r.size(), in.position(), out.position()});
        consume(in);
        produce(out);
        return ending<R>();
    }
    static R do_in(const void * self, In & in)
    {
        auto r = in.remaining_data();
        seen.push_back({self, r.data(), r.size(), in.position(), 0});
        consume(in);
        return ending<R>();
    }
    static R do_out(const void * self, Out & out)
    {
        seen.push_back({self, nullptr, 0, 0, out.position()});
        produce(out);
        return ending<R>();
    }
    static R do_value(const void * self, view v)
    {
        seen.push_back({self, v.data(), v.size(), 0, 0});
        return ending<R>();
    }
    static R do_reference(const void * self, view & v)
    {
        seen.push_back({self, v.data(), v.size(), 0, 0});
        v = v.first(std::min(v.size(), order.consume));
        return ending<R>();
    }
    static R do_nothing(const void * self)
    {
        seen.push_back({self, nullptr, 0, 0, 0});
        return ending<R>();
    }

    static R free_in_out(In & in, Out & out) { return do_in_out(nullptr, in, out); }
    static R free_in(In & in) { return do_in(nullptr, in); }
    static R free_out(Out & out) { return do_out(nullptr, out); }
    static R free_value(view v) { return do_value(nullptr, v); }
    static R free_reference(view & v) { return do_reference(nullptr, v); }
    static R free_nothing() { return do_nothing(nullptr); }

    R member_in_out(In & in, Out & out) { return do_in_out(this, in, out); }
    R member_in(In & in) { return do_in(this, in); }
    R member_out(Out & out) { return do_out(this, out); }
    R member_value(view v) { return do_value(this, v); }
    R member_reference(view & v) { return do_reference(this, v); }
    R member_nothing() { return do_nothing(this); }

    R constant_in_out(In & in, Out & out) const { return do_in_out(this, in, out); }
    R constant_in(In & in) const { return do_in(this, in); }
    R constant_out(Out & out) const { return do_out(this, out); }
    R constant_value(view v) const { return do_value(this, v); }
    R constant_reference(view & v) const { return do_reference(this, v); }
    R constant_nothing() const { return do_nothing(this); }

    std::uint8_t plain(std::uint8_t a)
    {
        plain_calls.push_back(a);
        return a + 1;
    }
};
std::uint16_t other(std::uint8_t a)
{
    plain_calls.push_back(a);
    return a * 257;
}

template <typename H, kind K, int Who>
constexpr auto function()
{
    if constexpr (Who == 0) {
        if constexpr (K == in_out) return &H::free_in_out;
        if constexpr (K == in_only) return &H::free_in;
        if constexpr (K == out_only) return &H::free_out;
        if constexpr (K == by_value) return &H::free_value;
        if constexpr (K == by_reference) return &H::free_reference;
        if constexpr (K == nothing) return &H::free_nothing;
    } else if constexpr (Who == 1) {
        if constexpr (K == in_out) return &H::member_in_out;
        if constexpr (K == in_only) return &H::member_in;
        if constexpr (K == out_only) return &H::member_out;
        if constexpr (K == by_value) return &H::member_value;
        if constexpr (K == by_reference) return &H::member_reference;
        if constexpr (K == nothing) return &H::member_nothing;
    } else {
        if constexpr (K == in_out) return &H::constant_in_out;
        if constexpr (K == in_only) return &H::constant_in;
        if constexpr (K == out_only) return &H::constant_out;
        if constexpr (K == by_value) return &H::constant_value;
        if constexpr (K == by_reference) return &H::constant_reference;
        if constexpr (K == nothing) return &H::constant_nothing;
    }
}

template <prefix P, bool Big, typename... O>
struct opt
{
    static config model() { return {Big, P}; }
    static auto make_in(std::vector<std::byte> & d) { return zb::in{d, O{}...}; }
    static auto make_out(std::vector<std::byte> & d) { return zb::out{d, zb::append{}, O{}...}; }
    using in = decltype(make_in(std::declval<std::vector<std::byte> &>()));
    using out = decltype(make_out(std::declval<std::vector<std::byte> &>()));
};
using o_default = opt<prefix::p4, false>;
using o_big = opt<prefix::p1, true, zb::size1b, zb::endian::big>;

constexpr std::uint32_t id_opaque = 0x0a0b0c0d, id_plain = 0x00000001, id_other = 0xfffffffe;

template <typename O, kind K, int Who, typename R>
void check(const char * name)
{
    using In = typename O::in;
    using Out = typename O::out;
    using H = host<In, Out, R>;
    constexpr auto f = function<H, K, Who>();
    using first = zb::rpc<zb::bind_opaque<f, id_opaque>, zb::bind<&H::plain, id_plain>, zb::bind<other, id_other>>;
    using last = zb::rpc<zb::bind<&H::plain, id_plain>, zb::bind<other, id_other>, zb::bind_opaque<f, id_opaque>>;
    auto run = [&]<typename rpc>(std::type_identity<rpc>) {
        auto c = O::model();
        std::vector<std::byte> requests, responses;
        auto server_in = O::make_in(requests);
        auto client_in = O::make_in(responses);
        auto server_out = O::make_out(responses);
        auto client_out = O::make_out(requests);
        H h;
        typename rpc::template client<In &, Out &> client{client_in, client_out};
        typename rpc::template server<In &, Out &, H &> server{server_in, server_out, h};
        bytes_t m_requests, m_responses;
        seen.clear();
        plain_calls.clear();
        std::string text = name;
        auto where = [&] { return text; };
        // Without parameters to pass the bytes come from elsewhere.
        auto ask = [&](auto... a) {
            if constexpr (K != nothing) {
                return std::errc(client.template request<id_opaque>(a...));
            } else {
                auto e = std::errc(client.template request<id_opaque>());
                return e == std::errc{} ? std::errc(client_out(a...)) : e;
            }
        };
        auto ask_body = [&](auto... a) {
            if constexpr (K != nothing) {
                return std::errc(client.template request_body<id_opaque>(a...));
            } else {
                client.template request_body<id_opaque>();
                return std::errc(client_out(a...));
            }
        };
        // The requests.
        std::size_t count = (mc::thorough() ? 4 : 3) - std::is_same_v<rpc, last>;
        for (std::size_t i = 0; i < count; ++i) {
            auto op = mc::choose(7, "request");
            std::errc e{};
            if (op < 4) {
                text += mc::format(" opaque(%zu)", op);
                switch (op) {
                case 0: e = ask(); break;
                case 1: e = ask(std::uint8_t(7)); break;
                case 2: e = ask(std::uint16_t(0x0203)); break;
                case 3: e = ask(std::string("ab"), std::uint8_t(9)); break;
                }
                m_requests = m_requests + enc(c, id_opaque);
                switch (op) {
                case 1: m_requests = m_requests + enc(c, std::uint8_t(7)); break;
                case 2: m_requests = m_requests + enc(c, std::uint16_t(0x0203)); break;
                case 3: m_requests = m_requests + enc(c, std::string("ab"), std::uint8_t(9)); break;
                }
            } else if (op == 4) {
                text += " plain";
                e = std::errc(client.template request<id_plain>(std::uint8_t(0x30 + i)));
                m_requests = m_requests + enc(c, id_plain, std::uint8_t(0x30 + i));
            } else if (op == 5) {
                text += " other";
                e = std::errc(client.template request<id_other>(std::uint8_t(0x40 + i)));
                m_requests = m_requests + enc(c, id_other, std::uint8_t(0x40 + i));
            } else {
                text += " body(3)";
                e = ask_body(std::uint8_t(1), std::uint16_t(2));
                m_requests = m_requests + enc(c, std::uint8_t(1), std::uint16_t(2));
            }
            mc::require(e == std::errc{}, "request", where);
            mc::require(requests == m_requests, "requests", [&] { return text + ": the requests are " + show(requests) + " instead of " + show(m_requests); });
        }
        mc::step(count);
        // Serving.
        std::size_t at = 0, read = 0;
        for (std::size_t i = 0; i < count; ++i) {
            auto before_seen = seen.size(), before_plain = plain_calls.size();
            model::Dec d{c, m_requests.data(), m_requests.size(), at};
            std::uint64_t id = 0;
            std::errc expected = d.number(id, 4);
            bool is_thrown = false, is_plain = false, is_opaque = false;
            std::uint64_t argument = 0;
            bytes_t answer;
            auto out_before = m_responses.size();
            bool body_only = i == 0 && mc::choose(2, "dispatch") && d.left() >= 0;
            std::uint32_t given = id_opaque;
            if (body_only) { // the id arrived some other way
                at = 0;
                d.pos = 0;
                id = id_opaque;
                expected = {};
            }
            auto begin = d.pos;
            if (expected == std::errc{}) {
                if (id == id_opaque) {
                    is_opaque = true;
                    constexpr bool reads = K == in_out || K == in_only || K == by_reference;
                    constexpr bool writes = K == in_out || K == out_only;
                    order.consume = reads ? mc::choose(5, "consume") : 1;
                    order.produce = writes ? mc::choose(3, "produce") : 0;
                    order.ending = int(mc::choose(2, "ending"));
                    if (K == by_value) {
                        d.pos = d.size;
                    } else if (reads) {
                        d.pos += std::min(order.consume, d.left());
                    }
                    for (std::size_t j = 0; j < order.produce; ++j) {
                        answer.push_back(std::byte(0xd0 + j));
                    }
                    if (!order.ending) {
                        answer = answer + ending_bytes<R>(c, order);
                    } else if (std::is_same_v<R, zb::errc>) {
                        expected = std::errc::invalid_argument;
                    } else {
                        is_thrown = true;
                    }
                    text += mc::format(" serve(%zu,%zu,%d)", order.consume, order.produce, order.ending);
                } else if (id == id_plain || id == id_other) {
                    is_plain = true;
                    expected = d.number(argument, 1);
                    is_plain = expected == std::errc{};
                    if (is_plain) {
                        answer = id == id_plain ? enc(c, std::uint8_t(argument + 1)) : enc(c, std::uint16_t(argument * 257));
                    }
                    text += " serve";
                } else {
                    expected = std::errc::not_supported;
                    text += " serve(unknown)";
                }
            }
            mc::note(where);
            std::errc e{};
            bool caught = false;
            try {
                e = body_only ? std::errc(server.serve(given)) : std::errc(server.serve());
            } catch (const thrown &) {
                caught = true;
            }
            mc::step();
            mc::case_done();
            m_responses = m_responses + answer;
            mc::require(caught == is_thrown, "exception", where);
            mc::require(e == expected, "verdict", [&] { return text + ": " + show(e) + " instead of " + show(expected); });
            mc::require(seen.size() == before_seen + is_opaque && plain_calls.size() == before_plain + is_plain, "calls", [&] { return text + ": the wrong handlers were called"; });
            mc::require(requests == m_requests, "request-changed", where);
            mc::require(responses == m_responses, "response", [&] { return text + ": the responses are " + show(responses) + " instead of " + show(m_responses); });
            mc::require(server_out.position() == m_responses.size(), "out-position", [&] { return text + mc::format(": the output is at %zu", server_out.position()); });
            if (is_plain) {
                mc::require(plain_calls.back() == argument, "plain-argument", where);
            }
            if (is_opaque) {
                auto & s = seen.back();
                mc::require(s.self == (Who ? &h : nullptr), "self", where);
                constexpr bool looks = K == in_out || K == in_only || K == by_value || K == by_reference;
                if (looks) {
                    mc::require(s.size == requests.size() - begin && (!s.size || s.data == requests.data() + begin), "remainder", [&] {
                        return text + mc::format(": the handler saw %zu bytes at %td instead of %zu at %zu", s.size, s.data - requests.data(), requests.size() - begin, begin);
                    });
                }
                if (K == in_out || K == in_only) {
                    mc::require(s.in_position == begin, "handler-in-position", where);
                }
                if (K == in_out || K == out_only) {
                    mc::require(s.out_position == out_before, "handler-out-position", where);
                }
            }
            if (expected == std::errc::result_out_of_range) {
                break;
            }
            mc::require(server_in.position() == d.pos, "in-position", [&] { return text + mc::format(": the input is at %zu instead of %zu", server_in.position(), d.pos); });
            at = d.pos;
            // The client reads the response at once.
            if (is_plain) {
                if (id == id_plain) {
                    auto r = client.template response<id_plain>();
                    mc::require(success(r) && r.value() == std::uint8_t(argument + 1), "plain-response", where);
                } else {
                    auto r = client.template response<id_other>();
                    mc::require(success(r) && r.value() == std::uint16_t(argument * 257), "plain-response", where);
                }
            } else if (is_opaque && !is_thrown) {
                for (std::size_t j = 0; j < order.produce; ++j) {
                    std::uint8_t b = 0;
                    mc::require(success(client_in(b)) && b == 0xd0 + j, "produced", where);
                }
                if constexpr (!std::is_void_v<R> && !std::is_same_v<R, zb::errc>) {
                    auto r = client.template response<id_opaque>();
                    mc::require(success(r) && enc(c, r.value()) == ending_bytes<R>(c, order), "opaque-response", where);
                }
            } else {
                client_in.position() = m_responses.size();
            }
            mc::require(client_in.position() == m_responses.size(), "client-position", where);
            auto state = mc::mix(mc::hash_bytes(m_requests.data(), m_requests.size(), at), mc::hash_bytes(m_responses.data(), m_responses.size()));
            mc::state(state);
            mc::outcome(mc::mix(std::uint64_t(e), mc::mix(d.pos - begin, m_responses.size() - out_before)));
            mc::visit(mc::mix(state, std::is_same_v<rpc, last>), int(count - i));
        }
    };
    if (mc::choose(2, "binding order")) {
        run(std::type_identity<last>{});
    } else {
        run(std::type_identity<first>{});
    }
}

template <typename O, kind K, int Who>
void add_one(const std::string & name)
{
    auto add = [&]<typename R>(std::type_identity<R>, const char * r) {
        auto text = new std::string(name + ", returning " + r);
        mc::add(*text, [=] { check<O, K, Who, R>(text->c_str()); });
    };
    add(std::type_identity<void>{}, "nothing");
    add(std::type_identity<std::uint16_t>{}, "a number");
    add(std::type_identity<std::string>{}, "a string");
    add(std::type_identity<zb::errc>{}, "a status");
}
template <kind K>
void add(const std::string & name)
{
    add_one<o_default, K, 0>(name + ", function");
    add_one<o_default, K, 1>(name + ", member");
    add_one<o_default, K, 2>(name + ", constant member");
    add_one<o_big, K, 0>(name + ", function, big");
    add_one<o_big, K, 1>(name + ", member, big");
}
bool added = [] {
#if PART == 0
    add<in_out>("input and output");
#elif PART == 1
    add<in_only>("input");
#elif PART == 2
    add<out_only>("output");
#elif PART == 3
    add<by_value>("view");
#elif PART == 4
    add<by_reference>("view by reference");
#elif PART == 5
    add<nothing>("nothing");
#endif
    return true;
}();
} // namespace
