// C26: archives used side by side, inside of each other, after each other and
// from several threads behave as if they were alone.
#include "kit.hpp"
#include <condition_variable>
#include <deque>
#include <list>
#include <mutex>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>

using namespace kit;
using namespace zpp::bits::literals;

namespace
{
// What happens when the user's code is called from inside of an archive.
thread_local std::function<void()> * on_hook{};
thread_local bool in_hook{};
void hooked()
{
    if (on_hook && !in_hook) {
        in_hook = true;
        struct leave
        {
            ~leave() { in_hook = false; }
        } l;
        (*on_hook)();
    }
}
struct stop
{
};

struct hook
{
    std::uint8_t n{};
    std::string s;
    constexpr static auto serialize(auto & archive, auto & self)
    {
        hooked();
        auto r = archive(self.n, self.s);
        hooked();
        return r;
    }
    bool operator==(const hook &) const = default;
    bool operator<(const hook & o) const
    {
        hooked();
        return n < o.n;
    }
};
struct thrower
{
    std::uint8_t n{};
    constexpr static auto serialize(auto & archive, auto & self)
    {
        hooked();
        if (self.n == 9) {
            throw stop{};
        }
        auto r = archive(self.n);
        if (self.n == 8) {
            throw stop{};
        }
        return r;
    }
};
struct agg
{
    std::uint8_t a{};
    std::vector<hook> b;
    std::uint64_t c{};
};
struct packed
{
    std::uint16_t a{}, b{};
};
struct tree
{
    hook h;
    std::vector<tree> below;
    zb::optional_ptr<tree> next;
    using serialize = zb::members<3>;
};
struct inner_msg
{
    inner_msg() { hooked(); }
    inner_msg(const inner_msg & o) : a(o.a), s(o.s) { hooked(); }
    inner_msg & operator=(const inner_msg &) = default;
    zb::vint32_t a;
    std::string s;
    using serialize = zb::protocol<zb::pb{}, 2>;
};
struct outer_msg
{
    inner_msg one;
    std::vector<inner_msg> many;
    std::map<std::string, zb::vint32_t> map;
    std::vector<zb::vuint32_t> packed;
    std::vector<std::string> texts;
    using serialize = zb::protocol<zb::pb{}, 5>;
};
struct id_one
{
    using serialize_id = zb::id<"one"_sha1>;
    std::uint16_t a{};
    using serialize = zb::members<1>;
};

hook make_hook(int n)
{
    hook h;
    h.n = std::uint8_t(n);
    h.s = std::string(std::size_t(n) * 9, char('a' + n));
    return h;
}
tree make_tree(int depth)
{
    tree t{make_hook(depth), {}, {}};
    for (int i = 0; i < depth; ++i) {
        t.below.push_back(make_tree(i));
    }
    if (depth == 2) {
        t.next = std::make_unique<tree>(make_tree(1));
    }
    return t;
}
outer_msg make_msg(int n)
{
    outer_msg m;
    m.one.a = -n;
    m.one.s = std::string(std::size_t(n) * 40, 'p');
    for (int i = 0; i < n; ++i) {
        inner_msg k;
        k.a = i << (7 * i);
        k.s = std::string(std::size_t(i), 'k');
        m.many.push_back(k);
        m.map[std::string(std::size_t(i), 'm')] = i * 1000;
        m.packed.push_back(std::uint32_t(i) * 70000);
        m.texts.push_back(std::string(std::size_t(i) * 60, 't'));
    }
    return m;
}

// ---------------------------------------------------------------- sessions
struct session
{
    virtual ~session() = default;
    virtual std::size_t steps() const = 0;
    virtual void step(std::size_t i) = 0;
    void run(std::size_t i)
    {
        try {
            step(i);
        } catch (const stop &) {
            log("stopped");
        } catch (const std::bad_variant_access &) {
            log("no value");
        }
    }
    void log(std::string s) { lines.push_back(std::move(s)); }
    void log(std::errc e, std::size_t position, const void * data = nullptr, std::size_t size = 0)
    {
        lines.push_back(mc::format("%d at %zu, ", int(e), position) + (data ? mc::hex(data, size) + mc::format(" %llx", (unsigned long long)mc::hash_bytes(data, size)) : ""));
    }
    template <typename T>
    void log(std::errc e, std::size_t position, const T & value)
        requires(!std::is_pointer_v<T>)
    {
        // Values are shown by an independent encoder where there is one.
        log(e, position);
        if (e == std::errc{}) {
            lines.back() += look(value);
        }
    }
    static std::string look(const std::string & s) { return "'" + s + "'"; }
    template <std::integral T>
    static std::string look(T v)
    {
        return std::to_string(v);
    }
    static std::string look(double v) { return std::to_string(v); }
    template <typename T, zb::varint_encoding E>
    static std::string look(const zb::varint<T, E> & v)
    {
        return std::to_string(v.value);
    }
    static std::string look(std::byte b) { return std::to_string(int(b)); }
    static std::string look(const hook & h) { return look(h.n) + look(h.s); }
    static std::string look(const thrower & h) { return look(h.n); }
    static std::string look(const packed & h) { return look(h.a) + "/" + look(h.b); }
    static std::string look(const id_one & h) { return look(h.a); }
    static std::string look(const agg & a) { return look(a.a) + look(a.b) + look(a.c); }
    static std::string look(const inner_msg & m) { return "<" + look(m.a) + look(m.s) + ">"; }
    static std::string look(const outer_msg & m)
    {
        return "<" + look(m.one) + look(m.many) + look(m.map) + look(m.packed) + look(m.texts) + ">";
    }
    static std::string look(const tree & t)
    {
        return "(" + look(t.h) + look(t.below) + (t.next ? look(*t.next) : "") + ")";
    }
    template <typename A, typename Z>
    static std::string look(const std::pair<A, Z> & p)
    {
        return look(p.first) + ":" + look(p.second);
    }
    template <typename... T>
    static std::string look(const std::tuple<T...> & t)
    {
        return std::apply([](auto &... x) { return "(" + ((look(x) + ",") + ... + ")"); }, t);
    }
    template <typename... T>
    static std::string look(const std::variant<T...> & v)
    {
        return v.valueless_by_exception() ? "valueless" : std::to_string(v.index()) + std::visit([](auto & x) { return look(x); }, v);
    }
    template <typename P>
        requires requires(const P & p) { *p; bool(p); }
    static std::string look(const P & p)
    {
        return p ? "*" + look(*p) : "null";
    }
    template <std::size_t N>
    static std::string look(const std::bitset<N> & b)
    {
        return b.to_string();
    }
    template <typename C>
        requires(requires(const C & c) { c.begin(); } && !std::same_as<C, std::string>)
    static std::string look(const C & c)
    {
        std::string s = "[";
        for (auto & x : c) {
            s += look(x) + ",";
        }
        return s + "]";
    }
    std::vector<std::string> lines;
};

template <typename... O>
struct writer : session
{
    bytes_t data;
    zb::out<bytes_t, O...> out{data, O{}...};
    std::size_t steps() const override { return 4; }
    void step(std::size_t i) override
    {
        std::errc e;
        switch (i) {
        case 0: e = out(std::uint32_t(0x12345678), std::string("hello"), make_hook(2)); break;
        case 1: e = out(std::map<std::uint8_t, hook>{{1, make_hook(1)}, {3, make_hook(4)}}, zb::vuint32_t(300)); break;
        case 2: e = out(make_tree(2), std::unique_ptr<hook>(new hook(make_hook(3)))); break;
        default: e = out(std::optional<hook>(make_hook(5)), std::variant<std::uint8_t, hook>(make_hook(1)), std::bitset<11>(0x2a5), packed{1, 2}); break;
        }
        log(e, out.position(), data.data(), data.size());
    }
};

struct fixed_writer : session
{
    std::array<unsigned char, 40> data{};
    zb::out<std::array<unsigned char, 40>> out{data};
    std::size_t steps() const override { return 4; }
    void step(std::size_t i) override
    {
        std::errc e;
        switch (i) {
        case 0: e = out(make_hook(1)); break;
        case 1: e = out(std::vector<hook>{make_hook(1), make_hook(9)}); break; // does not fit
        case 2: out.reset(3); e = out(zb::vint64_t(-1), std::uint16_t(7)); break;
        default: e = out(std::string(100, 'z')); break; // does not fit
        }
        log(e, out.position(), data.data(), data.size());
    }
};

// Reads what was written by others long ago.
template <typename... T>
bytes_t written(const T &... v)
{
    bytes_t b;
    zb::out out{b};
    (void)std::errc(out(v...));
    return b;
}

struct reader : session
{
    bytes_t data = written(make_tree(2), std::vector<hook>{make_hook(1), make_hook(2)}, std::unique_ptr<hook>(new hook(make_hook(3))),
                           std::map<std::uint8_t, hook>{{1, make_hook(1)}, {3, make_hook(4)}}, std::optional<hook>(make_hook(2)),
                           std::variant<std::uint8_t, hook>(make_hook(1)), std::bitset<11>(0x2a5), std::uint32_t(77));
    zb::in<bytes_t> in{data};
    std::size_t steps() const override { return 4; }
    void step(std::size_t i) override
    {
        switch (i) {
        case 0: {
            tree t;
            std::errc e = in(t);
            log(e, in.position(), t);
            break;
        }
        case 1: {
            std::vector<hook> v;
            std::unique_ptr<hook> p;
            std::errc e = in(v, p);
            log(e, in.position(), v);
            log(e, in.position(), p);
            break;
        }
        case 2: {
            std::map<std::uint8_t, hook> m;
            std::optional<hook> o;
            std::errc e = in(m, o);
            log(e, in.position(), m);
            log(e, in.position(), o);
            break;
        }
        default: {
            std::variant<std::uint8_t, hook> v;
            std::bitset<11> b;
            std::uint32_t n{};
            std::errc e = in(v, b, n);
            log(e, in.position(), v);
            log(e, in.position(), b);
            log(e, in.position(), n);
        }
        }
    }
};

// Every read fails.
struct truncated_reader : session
{
    bytes_t data = written(make_hook(1));
    std::size_t steps() const override { return 5; }
    template <typename T>
    void fails(const bytes_t & whole, std::size_t cut)
    {
        bytes_t b(whole.begin(), whole.end() - std::ptrdiff_t(cut));
        zb::in in{b};
        T v{};
        std::errc e = in(v);
        log(e, in.position());
    }
    void step(std::size_t i) override
    {
        switch (i) {
        case 0: fails<std::unique_ptr<hook>>(written(make_hook(2)), 3); break;
        case 1: fails<std::vector<hook>>(written(std::vector<hook>{make_hook(1), make_hook(2)}), 3); break;
        case 2: fails<std::optional<hook>>(written(std::optional<hook>(make_hook(2))), 1); break;
        case 3: fails<tree>(written(make_tree(2)), 3); break;
        default: fails<std::map<std::uint8_t, std::shared_ptr<std::variant<hook, std::string>>>>(
            written(std::uint32_t(2), std::uint8_t(1), std::byte{0}, make_hook(2), std::uint8_t(4), std::byte{1}, std::string("abc")), 2);
        }
    }
};

struct limited : session
{
    bytes_t data = written(std::vector<std::uint32_t>{1, 2, 3, 4, 5, 6, 7, 8, 9});
    bytes_t buffer;
    zb::in<bytes_t, zb::alloc_limit<32>> in{data, zb::alloc_limit<32>{}};
    zb::out<bytes_t, zb::alloc_limit<20>> out{buffer, zb::alloc_limit<20>{}};
    std::size_t steps() const override { return 4; }
    void step(std::size_t i) override
    {
        if (i % 2) {
            std::errc e = out(make_hook(i == 1 ? 1 : 3));
            log(e, out.position());
        } else {
            if (i) {
                in.reset();
                data[0] = std::byte(3);
            }
            std::vector<std::uint32_t> v;
            std::errc e = in(v);
            log(e, in.position(), v);
        }
    }
};

struct variants : session
{
    using type = std::variant<id_one, std::string, hook>;
    using plain = std::variant<std::uint16_t, hook, std::unique_ptr<hook>>;
    bytes_t data = written(plain(make_hook(2)), plain(std::make_unique<hook>(make_hook(3))), std::uint8_t(7), std::uint16_t(3));
    zb::in<bytes_t> in{data};
    std::size_t steps() const override { return 4; }
    void step(std::size_t i) override
    {
        if (i == 3) {
            in.reset();
        }
        plain v;
        std::errc e = in(v);
        log(e, in.position(), v);
    }
};

struct pb_writer : session
{
    std::string data;
    zb::out<std::string, zb::size_varint> out{data, zb::size_varint{}};
    std::size_t steps() const override { return 3; }
    void step(std::size_t i) override
    {
        std::errc e = out(make_msg(int(i) + 1));
        log(e, out.position(), data.data(), data.size());
    }
};

struct pb_reader : session
{
    bytes_t data = written(make_msg(2), make_msg(3), make_msg(1));
    zb::in<bytes_t> in{data};
    std::size_t steps() const override { return 3; }
    void step(std::size_t) override
    {
        outer_msg m;
        std::errc e = in(m);
        log(e, in.position(), m);
    }
};

struct pb_malformed : session
{
    std::size_t steps() const override { return 4; }
    void step(std::size_t i) override
    {
        static constexpr const char * texts[] = {"0a03080115", "12041202ffff", "22038080", "0a0208ffffffffffffffffffff01"};
        auto body = unhex(texts[i]);
        auto b = written(std::uint32_t(body.size())) + body;
        zb::in in{b};
        outer_msg m;
        std::errc e = in(m);
        log(e, in.position(), m);
    }
};

int add(int a, hook h)
{
    hooked();
    return a + h.n;
}
std::string name(std::vector<hook> v)
{
    hooked();
    return v.empty() ? "none" : v.back().s;
}
struct object
{
    std::uint16_t count(std::uint16_t n)
    {
        hooked();
        return total = std::uint16_t(total + n);
    }
    void throws(std::uint8_t)
    {
        hooked();
        throw stop{};
    }
    std::uint16_t total{};
};
using rpc = zb::rpc<zb::bind<add, "add"_sha256_int>, zb::bind<name, "name"_sha256_int>, zb::bind<&object::count, "count"_sha256_int>,
                    zb::bind<&object::throws, "throws"_sha256_int>>;

struct caller : session
{
    bytes_t requests, responses;
    zb::out<bytes_t> client_out{requests}, server_out{responses};
    zb::in<bytes_t> server_in{requests}, client_in{responses};
    object self;
    rpc::client<zb::in<bytes_t> &, zb::out<bytes_t> &> client{client_in, client_out};
    rpc::server<zb::in<bytes_t> &, zb::out<bytes_t> &, object &> server{server_in, server_out, self};
    std::size_t steps() const override { return 5; }
    void step(std::size_t i) override
    {
        switch (i) {
        case 0: {
            std::errc e = client.request<"add"_sha256_int>(40, make_hook(2));
            log(e, client_out.position(), requests.data(), requests.size());
            e = client.request<"name"_sha256_int>(std::vector<hook>{make_hook(1), make_hook(3)});
            log(e, client_out.position(), requests.data(), requests.size());
            e = client.request<"count"_sha256_int>(std::uint16_t(5));
            log(e, client_out.position(), requests.data(), requests.size());
            break;
        }
        case 1: case 2: {
            std::errc e = server.serve();
            log(e, server_out.position(), responses.data(), responses.size());
            break;
        }
        case 3: {
            auto r = client.response<"add"_sha256_int>();
            log(r.error(), client_in.position());
            if (r.success()) {
                log(look(r.value()));
            }
            auto q = client.response<"name"_sha256_int>();
            if (q.success()) {
                log(look(q.value()));
            }
            break;
        }
        default: {
            std::errc e = server.serve();
            log(e, server_out.position(), responses.data(), responses.size());
            auto r = client.response<"count"_sha256_int>();
            log(r.success() ? look(r.value()) : "failed");
        }
        }
    }
};

struct bad_caller : session
{
    bytes_t requests, responses;
    zb::out<bytes_t> out{requests}, server_out{responses};
    zb::in<bytes_t> in{requests};
    object self;
    rpc::client<zb::in<bytes_t> &, zb::out<bytes_t> &> client{in, out};
    rpc::server<zb::in<bytes_t> &, zb::out<bytes_t> &, object &> server{in, server_out, self};
    std::size_t steps() const override { return 4; }
    void step(std::size_t i) override
    {
        std::errc e{};
        switch (i) {
        case 0: e = out(std::uint32_t(0x01020304), std::uint8_t(1)); break;
        case 1: e = server.serve(); break; // unknown id
        case 2:
            out.reset();
            in.reset();
            e = client.request<"throws"_sha256_int>(std::uint8_t(1));
            break;
        default: e = server.serve(); // throws
        }
        log(e, in.position() * 100 + out.position());
    }
};

struct throwing : session
{
    bytes_t data;
    zb::out<bytes_t> out{data};
    bytes_t source = written(std::uint32_t(3), std::uint8_t(1), std::uint8_t(8), std::uint8_t(2));
    zb::in<bytes_t> in{source};
    std::size_t steps() const override { return 4; }
    void step(std::size_t i) override
    {
        switch (i) {
        case 0: {
            std::vector<thrower> v(3);
            v[1].n = 9;
            std::errc e = out(v);
            log(e, out.position());
            break;
        }
        case 1: {
            out.reset();
            std::errc e = out(std::vector<thrower>(2));
            log(e, out.position(), data.data(), data.size());
            break;
        }
        case 2: {
            std::vector<thrower> v;
            std::errc e = in(v);
            log(e, in.position());
            break;
        }
        default: {
            in.reset(4);
            thrower t;
            std::errc e = in(t);
            log(e, in.position(), t);
        }
        }
    }
};

struct together : session
{
    decltype(zb::data_in_out()) all = zb::data_in_out();
    std::size_t steps() const override { return 4; }
    void step(std::size_t i) override
    {
        if (i % 2 == 0) {
            std::errc e = all.output(make_hook(int(i) + 1), zb::vsint64_t(-7), std::list<hook>{make_hook(1)});
            log(e, all.output.position(), all.data.data(), all.data.size());
        } else {
            hook h;
            zb::vsint64_t n{};
            std::list<hook> l;
            std::errc e = all.input(h, n, l);
            log(e, all.input.position(), h);
            log(look(n) + look(l));
        }
    }
};

struct views : session
{
    bytes_t data = written(std::string("hello"), make_hook(1), std::string("world"));
    zb::in<bytes_t> in{data};
    std::size_t steps() const override { return 4; }
    void step(std::size_t i) override
    {
        std::span<const std::byte> v;
        if (i == 1) {
            hook h;
            std::errc e = in(h);
            log(e, in.position(), h);
        } else if (i == 3) {
            in.reset(2);
            std::errc e = in(zb::unsized(v));
            log(e, in.position(), v.data(), v.size());
        } else {
            std::errc e = in(v);
            log(e, in.position(), v.data(), v.size());
        }
    }
};

struct applier : session
{
    bytes_t data = written(5, make_hook(3), std::vector<hook>{make_hook(2)});
    zb::in<bytes_t> in{data};
    std::size_t steps() const override { return 3; }
    void step(std::size_t i) override
    {
        if (i != 1) {
            in.reset(0);
            auto r = zb::apply(add, in);
            log(r.success() ? look(r.value()) : "failed");
        } else {
            auto r = zb::apply(name, in);
            log(r.success() ? look(r.value()) : "failed");
        }
        log(std::to_string(in.position()));
    }
};

struct varints : session
{
    bytes_t data = unhex("ac02ffffffffffffffffffffff7f80808080010505");
    zb::in<bytes_t> in{data};
    std::size_t steps() const override { return 4; }
    void step(std::size_t i) override
    {
        if (i == 1) {
            zb::vuint64_t v{};
            std::errc e = in(v);
            log(e, in.position(), v);
            in.reset(15);
        } else if (i == 3) {
            zb::vuint64_t v{};
            std::errc e = in(v, v, v);
            log(e, in.position());
        } else {
            zb::vuint32_t v{};
            std::errc e = in(v);
            log(e, in.position(), v);
        }
    }
};

struct enlarging : session
{
    bytes_t data;
    zb::out<bytes_t, zb::exact_enlarger, zb::no_fit_size> out{data, zb::exact_enlarger{}, zb::no_fit_size{}};
    std::size_t steps() const override { return 4; }
    void step(std::size_t i) override
    {
        std::errc e = out(std::deque<hook>(i * 3, make_hook(1)), zb::unsized(std::string(i, 'u')), zb::sized<std::uint8_t>(std::string(i * 5, 's')));
        log(e, out.position(), data.data(), data.size());
    }
};

struct kind
{
    const char * name;
    std::unique_ptr<session> (*make)();
};
template <typename S>
std::unique_ptr<session> make()
{
    return std::make_unique<S>();
}
constexpr kind kinds[] = {
    {"writer", make<writer<>>},
    {"big endian writer", make<writer<zb::endian::big, zb::size_varint>>},
    {"fixed writer", make<fixed_writer>},
    {"reader", make<reader>},
    {"truncated reader", make<truncated_reader>},
    {"limited", make<limited>},
    {"variants", make<variants>},
    {"pb writer", make<pb_writer>},
    {"pb reader", make<pb_reader>},
    {"malformed pb reader", make<pb_malformed>},
    {"remote calls", make<caller>},
    {"bad remote calls", make<bad_caller>},
    {"throwing", make<throwing>},
    {"in and out together", make<together>},
    {"views", make<views>},
    {"apply", make<applier>},
    {"varints", make<varints>},
    {"enlarging", make<enlarging>},
};
constexpr std::size_t n_kinds = std::size(kinds);

using log_t = std::vector<std::string>;

// What a session does in a process of its own.
struct alone_t
{
    log_t lines;
    std::size_t hooks{};
};
alone_t alone(const kind & k)
{
    int fd[2];
    if (pipe(fd)) {
        std::abort();
    }
    pid_t pid = fork();
    if (pid == 0) {
        std::size_t hooks = 0;
        std::function<void()> count = [&] { ++hooks; };
        auto s = k.make();
        on_hook = &count;
        for (std::size_t i = 0; i < s->steps(); ++i) {
            s->run(i);
        }
        std::string all = std::to_string(hooks) + "\n";
        for (auto & l : s->lines) {
            all += l + "\n";
        }
        for (std::size_t i = 0; i < all.size();) {
            auto n = write(fd[1], all.data() + i, all.size() - i);
            if (n <= 0) {
                _exit(1);
            }
            i += std::size_t(n);
        }
        _exit(0);
    }
    close(fd[1]);
    std::string all;
    char buffer[4096];
    for (ssize_t n; (n = ::read(fd[0], buffer, sizeof buffer)) > 0;) {
        all.append(buffer, std::size_t(n));
    }
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (status) {
        std::fprintf(stderr, "the session '%s' ends with %d alone\n", k.name, status);
    }
    alone_t r;
    std::size_t at = all.find('\n');
    r.hooks = std::size_t(std::atoi(all.c_str()));
    while (at != std::string::npos && at + 1 < all.size()) {
        auto next = all.find('\n', at + 1);
        r.lines.push_back(all.substr(at + 1, next - at - 1));
        at = next;
    }
    return r;
}
const alone_t & expected(std::size_t k)
{
    static std::array<std::unique_ptr<alone_t>, n_kinds> cache;
    if (!cache[k]) {
        cache[k] = std::make_unique<alone_t>(alone(kinds[k]));
    }
    return *cache[k];
}

void check(std::size_t k, const session & s, const char * how)
{
    mc::case_done();
    auto & want = expected(k).lines;
    mc::require(s.lines == want, how, [&] {
        std::string m = mc::format("%s: the session '%s' goes on differently: ", how, kinds[k].name);
        for (std::size_t i = 0; i < std::max(want.size(), s.lines.size()); ++i) {
            auto got = i < s.lines.size() ? s.lines[i] : "(nothing)";
            auto alone = i < want.size() ? want[i] : "(nothing)";
            if (got != alone) {
                return m + got.substr(0, 300) + " instead of " + alone.substr(0, 300);
            }
        }
        return m;
    });
}

// ------------------------------------------------------ side by side
template <std::size_t N>
void interleave(const std::array<std::size_t, N> & which, const char * how)
{
    std::array<std::unique_ptr<session>, N> s;
    std::array<std::size_t, N> at{};
    for (std::size_t i = 0; i < N; ++i) {
        s[i] = kinds[which[i]].make();
    }
    std::uint64_t h = 0;
    std::size_t last = N;
    for (;;) {
        std::size_t ready[N];
        std::size_t n = 0;
        for (std::size_t i = 0; i < N; ++i) {
            if (at[i] < s[i]->steps()) {
                ready[n++] = i;
            }
        }
        if (!n) {
            break;
        }
        std::size_t i;
        if (N == 2 || last == N || at[last] >= s[last]->steps()) {
            i = ready[n == 1 ? 0 : mc::choose(n, "session")];
        } else {
            // Of three, the one which runs goes on but for a few times.
            for (std::size_t j = 0; j < n; ++j) {
                if (ready[j] == last) {
                    std::swap(ready[0], ready[j]);
                }
            }
            i = ready[n == 1 ? 0 : mc::deviate(n, "session")];
        }
        last = i;
        mc::note([&] { return mc::format("'%s' does step %zu", kinds[which[i]].name, at[i]); });
        s[i]->run(at[i]++);
        mc::step();
        for (std::size_t j = 0; j < N; ++j) {
            h = mc::mix(h, at[j] * 100 + which[j]);
        }
        mc::state(h);
    }
    for (std::size_t i = 0; i < N; ++i) {
        check(which[i], *s[i], how);
    }
}

void side_by_side(std::size_t first)
{
    auto second = mc::choose(n_kinds, "other session");
    interleave<2>({first, second}, "side by side");
}
void three_side_by_side(std::size_t first)
{
    mc::bound(mc::thorough() ? 3 : 2);
    auto second = mc::choose(n_kinds, "other session");
    auto third = mc::choose(n_kinds, "third session");
    interleave<3>({first, second, third}, "side by side");
}

// ------------------------------------------------------ after each other
void afterwards(std::size_t first)
{
    static constexpr std::size_t times[] = {1, 2, 17, 40, 300};
    auto n = times[mc::choose(std::size(times), "times")];
    auto second = mc::choose(n_kinds, "session after them");
    auto s = kinds[second].make();
    auto half = mc::choose(2, "started before");
    std::size_t i = 0;
    if (half) {
        s->run(i++);
    }
    for (std::size_t k = 0; k < n; ++k) {
        auto f = kinds[first].make();
        for (std::size_t j = 0; j < f->steps(); ++j) {
            f->run(j);
            mc::step();
        }
        check(first, *f, "repeated");
    }
    mc::state(mc::mix(first * 1000 + second, n * 2 + half));
    for (; i < s->steps(); ++i) {
        s->run(i);
    }
    check(second, *s, "afterwards");
}

// ------------------------------------------------------ inside of each other
// Before step `at` of the outer session or in any of its hooks, the inner one
// runs (completely, or a part of it at each of two places).
void inside(std::size_t outer)
{
    auto inner = mc::choose(n_kinds, "inner session");
    auto hooks = expected(outer).hooks;
    if (!hooks) {
        return;
    }
    auto first = mc::choose(hooks, "hook");
    auto split = mc::choose(2, "parts");
    auto i = kinds[inner].make();
    auto o = kinds[outer].make();
    std::size_t second = first;
    if (split) {
        // The rest of the inner session in a later hook.
        second = std::min(hooks - 1, first + 1 + (hooks - first) / 2);
    }
    std::size_t count = 0, done = 0;
    std::function<void()> run = [&] {
        auto n = count++;
        if (n == first) {
            auto until = split ? i->steps() / 2 : i->steps();
            for (; done < until; ++done) {
                i->run(done);
                mc::step();
            }
        } else if (n == second) {
            for (; done < i->steps(); ++done) {
                i->run(done);
                mc::step();
            }
        }
    };
    on_hook = &run;
    struct off
    {
        ~off() { on_hook = nullptr; }
    } off;
    for (std::size_t k = 0; k < o->steps(); ++k) {
        o->run(k);
        mc::step();
    }
    on_hook = nullptr;
    for (; done < i->steps(); ++done) {
        i->run(done);
    }
    mc::state(mc::mix(outer * 1000 + inner, first * 2 + split));
    mc::outcome(first);
    check(outer, *o, "outside");
    check(inner, *i, "inside");
}

// Inside at every hook.
void always_inside(std::size_t outer)
{
    auto inner = mc::choose(n_kinds, "inner session");
    auto deepest = mc::choose(n_kinds, "innermost session");
    auto o = kinds[outer].make();
    std::vector<std::unique_ptr<session>> inners, deepests;
    std::function<void()> low = [&] {
        if (deepests.size() < 3) {
            auto & d = *deepests.emplace_back(kinds[deepest].make());
            for (std::size_t k = 0; k < d.steps(); ++k) {
                d.run(k);
                mc::step();
            }
        }
    };
    std::function<void()> run = [&] {
        if (inners.size() >= 6) {
            return;
        }
        auto before = on_hook;
        on_hook = &low;
        in_hook = false;
        auto & i = *inners.emplace_back(kinds[inner].make());
        for (std::size_t k = 0; k < i.steps(); ++k) {
            i.run(k);
            mc::step();
        }
        in_hook = true;
        on_hook = before;
    };
    on_hook = &run;
    struct off
    {
        ~off() { on_hook = nullptr; }
    } off;
    for (std::size_t k = 0; k < o->steps(); ++k) {
        o->run(k);
    }
    on_hook = nullptr;
    mc::state(mc::mix(outer * 1000 + inner, deepest));
    check(outer, *o, "outside");
    for (auto & i : inners) {
        check(inner, *i, "inside");
    }
    for (auto & d : deepests) {
        check(deepest, *d, "inside of both");
    }
}

// ------------------------------------------------------ threads
// Two threads of which one runs at a time; where they change is a choice.
// They may change between any two steps, in every hook and in every allocation.
struct
{
    std::mutex lock;
    std::condition_variable changed;
    int turn = -1;
    bool done[2]{};
    std::size_t points{};
} threads;
thread_local int this_thread = -1;

void hand_over(int to)
{
    std::unique_lock l(threads.lock);
    threads.turn = to;
    threads.changed.notify_all();
    threads.changed.wait(l, [] { return threads.turn == this_thread; });
}
void point()
{
    if (this_thread < 0 || threads.done[1 - this_thread] || threads.points >= 300) {
        return;
    }
    ++threads.points;
    // While choosing, allocations are no points.
    auto me = this_thread;
    this_thread = -1;
    bool change = mc::deviate(2, "other thread");
    this_thread = me;
    if (change) {
        hand_over(1 - me);
    }
}

void in_threads(std::size_t first)
{
    mc::bound(mc::thorough() ? 2 : 1);
    auto second = mc::choose(n_kinds, "other session");
    std::unique_ptr<session> s[2] = {kinds[first].make(), kinds[second].make()};
    (void)expected(first);
    (void)expected(second);
    threads.done[0] = threads.done[1] = false;
    threads.points = 0;
    threads.turn = 0;
    std::exception_ptr error[2];
    auto body = [&](int me) {
        {
            std::unique_lock l(threads.lock);
            threads.changed.wait(l, [&] { return threads.turn == me; });
        }
        std::function<void()> yield = point;
        on_hook = &yield;
        this_thread = me;
        try {
            for (std::size_t i = 0; i < s[me]->steps(); ++i) {
                s[me]->run(i);
                point();
            }
        } catch (...) {
            error[me] = std::current_exception();
        }
        this_thread = -1;
        on_hook = nullptr;
        std::unique_lock l(threads.lock);
        threads.done[me] = true;
        threads.turn = 1 - me;
        threads.changed.notify_all();
    };
    {
        std::thread a(body, 0), b(body, 1);
        a.join();
        b.join();
    }
    for (auto & e : error) {
        if (e) {
            std::rethrow_exception(e);
        }
    }
    mc::step(s[0]->steps() + s[1]->steps());
    mc::state(mc::mix(first * 1000 + second, threads.points));
    check(first, *s[0], "in threads");
    check(second, *s[1], "in threads");
}

// Two threads which run freely: for the race detector.
void freely(std::size_t first)
{
    auto second = mc::choose(n_kinds, "other session");
    (void)expected(first);
    (void)expected(second);
    std::vector<std::unique_ptr<session>> s[2];
    for (int k = 0; k < 2; ++k) {
        s[0].push_back(kinds[first].make());
        s[1].push_back(kinds[second].make());
    }
    std::atomic<int> ready{};
    auto body = [&](int me) {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < 2) {
        }
        for (auto & x : s[me]) {
            for (std::size_t i = 0; i < x->steps(); ++i) {
                x->run(i);
            }
        }
    };
    {
        std::thread a(body, 0), b(body, 1);
        a.join();
        b.join();
    }
    mc::state(first * 1000 + second);
    for (int k = 0; k < 2; ++k) {
        mc::step(s[0][0]->steps() + s[1][0]->steps());
        check(first, *s[0][std::size_t(k)], "in free threads");
        check(second, *s[1][std::size_t(k)], "in free threads");
    }
}

[[maybe_unused]] bool added = [] {
    for (std::size_t k = 0; k < n_kinds; ++k) {
        // Before anything else happens in this process.
        (void)expected(k);
    }
    for (std::size_t k = 0; k < n_kinds; ++k) {
        auto name = std::string(kinds[k].name);
#if defined RACES
        mc::add("free threads: " + name, [k] { freely(k); });
#else
        mc::add("side by side: " + name, [k] { side_by_side(k); });
        if (k == 2 || k == 5 || k == 7) {
            mc::add("three side by side: " + name, [k] { three_side_by_side(k); });
        }
        mc::add("afterwards: " + name, [k] { afterwards(k); });
        mc::add("inside: " + name, [k] { inside(k); });
        mc::add("inside of each other: " + name, [k] { always_inside(k); });
        mc::add("threads: " + name, [k] { in_threads(k); });
#endif
    }
    return true;
}();
} // namespace

#if !defined RACES
void * operator new(std::size_t n)
{
    point();
    if (void * p = std::malloc(n ? n : 1)) {
        return p;
    }
    throw std::bad_alloc();
}
void operator delete(void * p) noexcept
{
    std::free(p);
}
void operator delete(void * p, std::size_t) noexcept
{
    std::free(p);
}
#endif
