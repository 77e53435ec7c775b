// C21: objects which fail in the middle.  Every constructor, assignment,
// comparison, serialization and handler of a tracked object may throw, every
// allocation may fail and the input may end anywhere; afterwards every object
// was destroyed exactly once, nothing leaked, and archive and object go on.
#if PART == 0
#define ALLOC_IMPLEMENTATION
#endif
#include "alloc.hpp"
#include "kit.hpp"
#include <deque>
#include <list>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace kit;

namespace
{
struct boom
{
};

// The fault plan.
struct
{
    std::size_t ticks{};
    std::size_t fail_at{}; // 0: never
    bool counting{};
    std::string broken;
    std::size_t alive_count{};
} plan;

// Addresses of living objects: a table which does not allocate.
struct addresses
{
    static constexpr std::size_t size = 1 << 12;
    const void * at[size]{};
    std::size_t find(const void * p) const
    {
        auto i = (reinterpret_cast<std::uintptr_t>(p) >> 3) * 0x9e3779b97f4a7c15ull >> 52;
        while (at[i] && at[i] != p) {
            i = (i + 1) % size;
        }
        return i;
    }
    bool insert(const void * p)
    {
        auto i = find(p);
        if (at[i]) {
            return false;
        }
        at[i] = p;
        ++plan.alive_count;
        return true;
    }
    bool has(const void * p) const { return at[find(p)]; }
    bool erase(const void * p)
    {
        auto i = find(p);
        if (!at[i]) {
            return false;
        }
        at[i] = nullptr;
        --plan.alive_count;
        for (auto j = (i + 1) % size; at[j]; j = (j + 1) % size) {
            auto q = at[j];
            at[j] = nullptr;
            at[find(q)] = q;
        }
        return true;
    }
    void clear()
    {
        std::memset(at, 0, sizeof at);
        plan.alive_count = 0;
    }
} alive;

void tick()
{
    if (plan.counting && ++plan.ticks == plan.fail_at) {
        throw boom{};
    }
}
void fault(const char * what)
{
    if (plan.broken.empty()) {
        alloc::pause p;
        plan.broken = what;
    }
}
template <typename D>
void born(const D * d)
{
    if (!alive.insert(d)) {
        fault("an object was constructed over a living one");
    }
}
template <typename D>
void died(const D * d)
{
    if (!alive.erase(d)) {
        fault("an object was destroyed which was not alive");
    }
}
template <typename D>
void used(const D * d)
{
    if (!alive.has(d)) {
        fault("an object was used which was not alive");
    }
}

// The tracked object: a number and a text.
#define TRACKED(name)                                                          \
    name(name && o) : a(o.a), s((tick(), used(&o), std::move(o.s)))            \
    {                                                                          \
        born(this);                                                            \
    }                                                                          \
    name & operator=(name && o)                                                \
    {                                                                          \
        used(this);                                                            \
        used(&o);                                                              \
        tick();                                                                \
        a = o.a;                                                               \
        s = std::move(o.s);                                                    \
        return *this;                                                          \
    }                                                                          \
    ~name()                                                                    \
    {                                                                          \
        died(this);                                                            \
    }                                                                          \
    bool operator==(const name & o) const                                      \
    {                                                                          \
        used(this);                                                            \
        used(&o);                                                              \
        tick();                                                                \
        return a == o.a && s == o.s;                                           \
    }                                                                          \
    bool operator<(const name & o) const                                       \
    {                                                                          \
        used(this);                                                            \
        used(&o);                                                              \
        tick();                                                                \
        return a != o.a ? a < o.a : s < o.s;                                   \
    }
#define COPIED(name)                                                           \
    name(const name & o) : a(o.a), s((tick(), used(&o), o.s))                  \
    {                                                                          \
        born(this);                                                            \
    }                                                                          \
    name & operator=(const name & o)                                           \
    {                                                                          \
        used(this);                                                            \
        used(&o);                                                              \
        tick();                                                                \
        a = o.a;                                                               \
        s = o.s;                                                               \
        return *this;                                                          \
    }
#define SERIALIZED                                                             \
    constexpr static auto serialize(auto & archive, auto & self)               \
    {                                                                          \
        used(&self);                                                           \
        tick();                                                                \
        auto result = archive(self.a, self.s);                                 \
        tick();                                                                \
        return result;                                                         \
    }

struct obj
{
    obj() : obj(0) {}
    explicit obj(int n) : a((tick(), std::uint16_t(n))), s(n ? 3 + 10 * std::size_t(n) : 0, char('a' + n)) { born(this); }
    COPIED(obj)
    TRACKED(obj)
    SERIALIZED
    std::uint16_t a;
    std::string s;
};

// Only the library may construct it.
class prv
{
    friend zb::access;
    prv() : prv(0) {}

public:
    SERIALIZED
    explicit prv(int n) : a((tick(), std::uint16_t(n))), s(n ? 3 + 10 * std::size_t(n) : 0, char('a' + n)) { born(this); }
    COPIED(prv)
    TRACKED(prv)
    std::uint16_t a;
    std::string s;
};

struct mov
{
    mov() : mov(0) {}
    explicit mov(int n) : a((tick(), std::uint16_t(n))), s(n ? 3 + 10 * std::size_t(n) : 0, char('a' + n)) { born(this); }
    TRACKED(mov)
    SERIALIZED
    std::uint16_t a;
    std::string s;
};

// A move only class which only the library may construct.
class own_prv
{
    friend zb::access;
    own_prv() : own_prv(0) {}

public:
    SERIALIZED
    explicit own_prv(int n) : a((tick(), std::uint16_t(n))), s(n ? 3 + 10 * std::size_t(n) : 0, char('a' + n)) { born(this); }
    TRACKED(own_prv)
    std::uint16_t a;
    std::string s;
};

// Discovered members.
struct agg
{
    obj x;
    std::string t;
    std::vector<obj> v;
    obj y;
    bool operator==(const agg &) const = default;
};

} // namespace
template <>
struct std::hash<obj>
{
    std::size_t operator()(const obj & o) const
    {
        used(&o);
        tick();
        return o.a;
    }
};

namespace
{
struct tree
{
    obj o;
    std::vector<tree> children;
    zb::optional_ptr<tree> next;
    using serialize = zb::members<3>;
};

// Protocol buffers messages, one of them tracked.
struct pmsg
{
    pmsg() : pmsg(0) {}
    explicit pmsg(int n) : a((tick(), n)), s(n ? 3 + 10 * std::size_t(n) : 0, char('a' + n)) { born(this); }
    COPIED(pmsg)
    TRACKED(pmsg)
    zb::vint32_t a;
    std::string s;
    using serialize = zb::protocol<zb::pb{}, 2>;
};
struct pouter
{
    pmsg one;
    std::vector<pmsg> many;
    std::map<zb::vuint32_t, pmsg> map;
    std::vector<std::string> texts;
    std::map<std::string, std::string> names;
    pmsg last;
    using serialize = zb::protocol<zb::pb{}, 6>;
};

template <typename T>
struct V // makes values
{
    static T make(int n) { return T(n); }
};
template <typename C>
C fill(int n)
{
    C c;
    for (int i = 0; i < n; ++i) {
        c.push_back(V<typename C::value_type>::make(n + i));
    }
    return c;
}
template <typename T>
struct V<std::vector<T>>
{
    static auto make(int n) { return fill<std::vector<T>>(n); }
};
template <typename T>
struct V<std::list<T>>
{
    static auto make(int n) { return fill<std::list<T>>(n); }
};
template <typename T>
struct V<std::deque<T>>
{
    static auto make(int n) { return fill<std::deque<T>>(n); }
};
template <typename T>
struct V<std::array<T, 2>>
{
    static std::array<T, 2> make(int n) { return {V<T>::make(n), V<T>::make(n + 1)}; }
};
template <>
struct V<std::string>
{
    static std::string make(int n) { return std::string(std::size_t(n) * 17, 'x'); }
};
template <typename T>
    requires std::integral<T>
struct V<T>
{
    static T make(int n) { return T(n); }
};
template <typename A, typename B>
struct V<std::pair<A, B>>
{
    static std::pair<A, B> make(int n) { return {V<A>::make(n), V<B>::make(n + 1)}; }
};
template <typename... T>
struct V<std::tuple<T...>>
{
    static std::tuple<T...> make(int n) { return {V<T>::make(n++)...}; }
};
template <typename C>
    requires requires { typename C::key_type; typename C::mapped_type; }
struct V<C>
{
    static C make(int n)
    {
        C c;
        for (int i = 0; i < n; ++i) {
            c.emplace(V<typename C::key_type>::make(n + i), V<typename C::mapped_type>::make(1 + i));
        }
        return c;
    }
};
template <typename C>
    requires(requires { typename C::key_type; } && !requires { typename C::mapped_type; })
struct V<C>
{
    static C make(int n)
    {
        C c;
        for (int i = 0; i < n; ++i) {
            c.insert(V<typename C::key_type>::make(n + i));
        }
        return c;
    }
};
template <typename T>
struct V<std::optional<T>>
{
    static std::optional<T> make(int n)
    {
        std::optional<T> o;
        if (n > 1) {
            o = V<T>::make(n);
        }
        return o;
    }
};
template <typename... T>
struct V<std::variant<T...>>
{
    static std::variant<T...> make(int n)
    {
        constexpr std::size_t N = sizeof...(T);
        std::optional<std::variant<T...>> v;
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (void)((std::size_t(n) % N == I &&
              (v.emplace(std::in_place_index<I>, V<std::variant_alternative_t<I, std::variant<T...>>>::make(n)), true)) || ...);
        }(std::make_index_sequence<N>());
        return std::move(*v);
    }
};
template <>
struct V<std::monostate>
{
    static std::monostate make(int) { return {}; }
};
template <typename T>
struct V<std::unique_ptr<T>>
{
    static auto make(int n) { return std::make_unique<T>(V<T>::make(n)); }
};
template <typename T>
struct V<std::shared_ptr<T>>
{
    static auto make(int n) { return std::make_shared<T>(V<T>::make(n)); }
};
template <typename T>
struct V<zb::optional_ptr<T>>
{
    static zb::optional_ptr<T> make(int n)
    {
        zb::optional_ptr<T> p;
        if (n > 1) {
            p = std::make_unique<T>(V<T>::make(n));
        }
        return p;
    }
};
template <>
struct V<agg>
{
    static agg make(int n) { return {obj(n), V<std::string>::make(n), V<std::vector<obj>>::make(n), obj(n + 1)}; }
};
template <>
struct V<tree>
{
    static tree make(int n)
    {
        tree t{obj(n), {}, {}};
        if (n > 1) {
            for (int i = 1; i < n; ++i) {
                t.children.push_back(make(n - 1));
            }
        }
        if (n > 2) {
            t.next = std::make_unique<tree>();
            t.next->o = obj(n);
        }
        return t;
    }
};
template <>
struct V<pouter>
{
    static pouter make(int n)
    {
        return {pmsg(n), V<std::vector<pmsg>>::make(n), V<std::map<zb::vuint32_t, pmsg>>::make(n), V<std::vector<std::string>>::make(n),
                {{"k" + std::string(std::size_t(n) * 10, 'y'), std::string(20, 'z')}, {"l", ""}}, pmsg(n + 1)};
    }
};
template <>
struct V<zb::vuint32_t>
{
    static zb::vuint32_t make(int n) { return std::uint32_t(n); }
};

// Whether null pointers occur which can not be written.
template <typename T>
constexpr bool writable_always = true;
template <typename T>
constexpr bool writable_always<std::unique_ptr<T>> = false;
template <typename T>
constexpr bool writable_always<std::shared_ptr<T>> = false;
template <typename T>
constexpr bool writable_always<std::vector<std::unique_ptr<T>>> = false;
template <typename T>
constexpr bool writable_always<std::optional<std::unique_ptr<T>>> = false;
template <typename... T>
constexpr bool writable_always<std::variant<T...>> = (writable_always<T> && ...);

// The order in which unordered containers are written is theirs.
template <typename T>
struct same_as
{
    static bool eq(const T & a, const T & b)
    {
        if constexpr (requires { typename T::hasher; a == b; }) {
            return a == b;
        } else {
            bytes_t x, y;
            return zb::success(zb::out{x}(a)) && zb::success(zb::out{y}(b)) && x == y;
        }
    }
};

// Runs one execution: `f` is told to begin (returns nothing); everything it
// makes must be gone when it returns.
template <typename F>
void execution(F && f)
{
    alive.clear();
    plan = {};
    const char * wrong = nullptr;
    alloc::scope scope;
    try {
        wrong = f();
    } catch (...) {
        alloc::now.on = false;
        throw;
    }
    alloc::now.on = false;
    auto live = alloc::now.live;
    mc::case_done();
    mc::require(plan.broken.empty(), "object", [&] { return plan.broken; });
    mc::require(!wrong, "failure", [&] { return std::string(wrong); });
    mc::require(!plan.alive_count, "object", [&] { return mc::format("%zu objects were not destroyed", plan.alive_count); });
    mc::require(!live, "leak", [&] { return mc::format("%zu blocks of memory were not freed", live); });
}

enum class ended { good, code, thrown, memory };

// Calls with the faults on.
template <typename F>
ended attempt(std::size_t tick_at, std::size_t alloc_at, F && f)
{
    ended how;
    plan.ticks = 0;
    plan.fail_at = tick_at;
    plan.counting = true;
    alloc::now.count = 0;
    alloc::now.fail_at = alloc_at;
    try {
        std::errc r = f();
        how = r == std::errc{} ? ended::good : ended::code;
    } catch (const boom &) {
        how = ended::thrown;
    } catch (const std::bad_alloc &) {
        how = ended::memory;
    }
    plan.counting = false;
    alloc::now.fail_at = 0;
    mc::step();
    return how;
}

void observed(ended how, std::size_t position)
{
    alloc::pause p;
    mc::outcome(mc::mix(std::uint64_t(how), position));
}

struct fault_plan
{
    std::size_t cut{}, tick{}, memory{};
};

// Asks for a plan: `total` bytes, `ticks` and `allocations` of the undisturbed
// execution.
fault_plan choose_plan(std::size_t total, std::size_t ticks, std::size_t allocations)
{
    fault_plan p{total, 0, 0};
    switch (mc::choose(mc::thorough() ? 4 : 3, "kind of fault")) {
    case 0:
        p.cut = mc::choose(total + 1, "length of the input");
        break;
    case 1:
        p.tick = mc::choose(ticks + 1, "operation which throws");
        break;
    case 2:
        p.memory = mc::choose(allocations + 1, "allocation which fails");
        break;
    case 3:
        p.cut = mc::choose(total + 1, "length of the input");
        p.tick = mc::choose(ticks + 1, "operation which throws");
        break;
    }
    return p;
}

template <typename T, typename... O>
struct check_type
{
    static bytes_t encode(int n)
    {
        T v = V<T>::make(n);
        bytes_t b;
        zb::out out{b, O{}...};
        mc::require(zb::success(out(v)), "setup", "writing failed");
        return b;
    }

    static T target(int which)
    {
        if (which == 0) {
            if constexpr (std::is_default_constructible_v<T>) {
                return T{};
            } else {
                return V<T>::make(1);
            }
        }
        return V<T>::make(which);
    }

    static void reading()
    {
        alive.clear();
        plan = {};
        int n = 1 + int(mc::choose(std::same_as<T, std::vector<pouter>> && !mc::thorough() ? 2 : 3, "value"));
        auto data = encode(n);
        int which = int(mc::choose(4, "target"));
        // Count what happens undisturbed.
        std::size_t ticks = 0, allocations = 0;
        {
            T w = target(which);
            zb::in in{data, O{}...};
            alloc::scope scope;
            plan.counting = true;
            std::errc r = in(w);
            plan.counting = false;
            ticks = plan.ticks;
            allocations = alloc::now.count;
            alloc::now.on = false;
            mc::require(r == std::errc{}, "setup", "reading failed");
        }
        auto f = choose_plan(data.size(), ticks, allocations);
        auto then = mc::choose(6, "what happens next");
        std::size_t second = 0;
        if (then == 5) {
            // Of long executions, every n-th operation.
            auto every = 1 + ticks / (mc::thorough() ? 200 : 16);
            second = every * mc::choose(ticks / every + 1, "second operation which throws");
        }
        mc::state(mc::mix(mc::mix(f.cut, f.tick * 1000 + f.memory), mc::hash_bytes(data.data(), data.size(), then * 4 + std::uint64_t(which))));
        exact e(data.data(), f.cut);
        execution([&]() -> const char * {
            T expect = V<T>::make(n);
            std::optional<T> w;
            w.emplace(target(which));
            zb::in in{e.view(), O{}...};
            auto how = attempt(f.tick, f.memory, [&] { return in(*w); });
            observed(how, in.position());
            if (in.position() > f.cut) {
                return "the position is beyond the end";
            }
            if (how == ended::good && f.cut < data.size()) {
                return "a truncated input was accepted";
            }
            if (how == ended::code && f.cut == data.size()) {
                return "a complete input was rejected";
            }
            if (f.tick && f.cut == data.size() && f.tick <= ticks && how != ended::thrown) {
                return "an exception was swallowed";
            }
            if (how == ended::good && !same_as<T>::eq(*w, expect)) {
                return "another value was read";
            }
            switch (then) {
            case 0: // destroyed
                break;
            case 1: { // read again from the same archive
                in.reset();
                std::errc r = in(*w);
                if ((f.cut == data.size()) != (r == std::errc{})) {
                    return "the archive does not read the same again";
                }
                if (r == std::errc{} && !same_as<T>::eq(*w, expect)) {
                    return "the archive reads another value after the failure";
                }
                break;
            }
            case 2: { // moved and assigned
                T moved(std::move(*w));
                *w = std::move(moved);
                *w = V<T>::make(n);
                if (!same_as<T>::eq(*w, expect)) {
                    return "assigning to the object has no effect";
                }
                break;
            }
            case 3: { // written, whatever it holds
                if (writable_always<T>) {
                    bytes_t b;
                    zb::out out{b, O{}...};
                    try {
                        std::errc r = out(*w);
                        if (r == std::errc{}) {
                            T again = target(0);
                            zb::in back{b, O{}...};
                            std::errc q = back(again);
                            if (q != std::errc{} || !same_as<T>::eq(again, *w)) {
                                return "the object does not survive writing and reading after the failure";
                            }
                        }
                    } catch (const std::bad_variant_access &) {
                        // A variant which lost its value.
                    }
                }
                break;
            }
            case 4: // destroyed before the archive, which is used for another object
                w.reset();
                {
                    in.reset();
                    T other = target(2);
                    std::errc r = in(other);
                    if ((f.cut == data.size()) != (r == std::errc{}) || (r == std::errc{} && !same_as<T>::eq(other, expect))) {
                        return "the archive does not read another object after the failure";
                    }
                }
                break;
            case 5: { // fails again, then succeeds
                exact all(data.data(), data.size());
                zb::in again{all.view(), O{}...};
                attempt(second, 0, [&] { return again(*w); });
                again.reset();
                std::errc r = again(*w);
                if (r != std::errc{} || !same_as<T>::eq(*w, expect)) {
                    return "the object can not be read into after two failures";
                }
                break;
            }
            }
            return nullptr;
        });
    }

    static void writing()
    {
        alive.clear();
        plan = {};
        int n = 1 + int(mc::choose(3, "value"));
        auto data = encode(n);
        auto fixed = mc::choose(2, "buffer");
        std::size_t ticks = 0, allocations = 0;
        {
            T v = V<T>::make(n);
            bytes_t b;
            zb::out out{b, O{}...};
            alloc::scope scope;
            plan.counting = true;
            std::errc r = out(v);
            plan.counting = false;
            alloc::now.on = false;
            ticks = plan.ticks;
            allocations = fixed ? 0 : alloc::now.count;
            mc::require(r == std::errc{} && b == data, "setup", "writing failed");
        }
        auto f = choose_plan(fixed ? data.size() : 0, ticks, allocations);
        mc::state(mc::mix(mc::mix(f.cut, f.tick * 1000 + f.memory), mc::hash_bytes(data.data(), data.size(), fixed)));
        std::unique_ptr<std::byte[]> heap(new std::byte[f.cut]);
        execution([&]() -> const char * {
            T v = V<T>::make(n);
            T same = V<T>::make(n);
            auto go = [&](auto & out, auto & buffer) -> const char * {
                auto how = attempt(f.tick, f.memory, [&] { return out(v); });
                observed(how, out.position());
                if (!same_as<T>::eq(v, same)) {
                    return "writing changed the object";
                }
                if (out.position() > buffer.size()) {
                    return "the position is beyond the end of the buffer";
                }
                if (f.tick && (!fixed || f.cut == data.size()) && how != ended::thrown) {
                    return "an exception was swallowed";
                }
                if (how != ended::good && !f.tick && !f.memory && (!fixed || f.cut == data.size())) {
                    return "writing failed";
                }
                if (how == ended::good && fixed && f.cut < data.size()) {
                    return "writing to a buffer which is too small succeeded";
                }
                out.reset();
                std::errc r = out(v);
                if (fixed && f.cut < data.size()) {
                    if (r == std::errc{}) {
                        return "writing to a buffer which is too small succeeded";
                    }
                } else if (r != std::errc{} || out.position() != data.size() ||
                           !std::equal(data.begin(), data.end(), buffer.data())) {
                    return "the archive does not write the same again";
                }
                return nullptr;
            };
            if (fixed) {
                std::span<std::byte> s(heap.get(), f.cut);
                zb::out out{s, O{}...};
                return go(out, s);
            }
            bytes_t b;
            zb::out out{b, O{}...};
            return go(out, b);
        });
    }
};

template <typename T, typename... O>
void add(const char * name)
{
    mc::add(std::string("reading ") + name, check_type<T, O...>::reading);
    mc::add(std::string("writing ") + name, check_type<T, O...>::writing);
}

#if PART == 5
// ------------------------------------------------ applying and remote calls
obj join(obj a, std::vector<obj> v)
{
    tick();
    obj r(a.a + int(v.size()));
    tick();
    return r;
}
std::vector<obj> many(std::uint8_t n)
{
    tick();
    std::vector<obj> v;
    for (int i = 0; i < n; ++i) {
        v.emplace_back(i + 1);
    }
    tick();
    return v;
}
void nothing(const obj & o, mov m)
{
    used(&o);
    used(&m);
    tick();
}
mov pass(mov m)
{
    tick();
    return m;
}
std::unique_ptr<obj> owner(std::optional<obj> o, std::string s)
{
    tick();
    return std::make_unique<obj>(o ? o->a : int(s.size()));
}
obj plain()
{
    tick();
    return obj(3);
}
struct service
{
    obj call(agg a)
    {
        tick();
        state = a.x;
        return a.y;
    }
    std::string name(std::variant<obj, std::string> v) const
    {
        tick();
        return v.index() ? std::get<1>(v) : std::get<0>(v).s;
    }
    obj state;
};

template <std::size_t K>
auto arguments(int n)
{
    if constexpr (K == 0) return std::tuple(obj(n), V<std::vector<obj>>::make(n));
    if constexpr (K == 1) return std::tuple(std::uint8_t(n));
    if constexpr (K == 2) return std::tuple(obj(n), mov(n));
    if constexpr (K == 3) return std::tuple(mov(n));
    if constexpr (K == 4) return std::tuple(V<std::optional<obj>>::make(n), std::string(std::size_t(n) * 20, 'q'));
    if constexpr (K == 5) return std::tuple();
    if constexpr (K == 6) return std::tuple(V<agg>::make(n));
    if constexpr (K == 7) return std::tuple(V<std::variant<obj, std::string>>::make(n));
}
using rpc = zb::rpc<zb::bind<join, std::uint32_t(1)>, zb::bind<many, std::uint32_t(2)>, zb::bind<nothing, std::uint32_t(3)>,
                    zb::bind<pass, std::uint32_t(4)>, zb::bind<owner, std::uint32_t(5)>, zb::bind<plain, std::uint32_t(6)>,
                    zb::bind<&service::call, std::uint32_t(7)>, zb::bind<&service::name, std::uint32_t(8)>>;

// One handler, one step of its call and one fault in it.
template <std::size_t K>
struct remote
{
    static constexpr std::uint32_t id = K + 1;

    struct ends
    {
        bytes_t request, response;
        std::size_t ticks{}, allocations{};
    };

    static std::errc request(auto & client, auto & arguments)
    {
        return std::apply([&](auto &... a) -> std::errc { return client.template request<id>(a...); }, arguments);
    }
    static std::errc response(auto & client, bytes_t * again)
    {
        if constexpr (std::is_void_v<decltype(client.template response<id>())>) {
            client.template response<id>();
            return {};
        } else {
            auto r = client.template response<id>();
            if (r.failure()) {
                return r.error();
            }
            if (again) {
                zb::out out{*again};
                return out(r.value());
            }
            return {};
        }
    }

    // Does the steps up to `last` undisturbed and counts what the last does.
    static ends rehearse(int n, std::size_t last)
    {
        ends r;
        service self;
        bytes_t requests, responses;
        zb::out client_out{requests}, server_out{responses};
        zb::in server_in{requests}, client_in{responses};
        typename rpc::template client<decltype(client_in) &, decltype(client_out) &> client{client_in, client_out};
        typename rpc::template server<decltype(server_in) &, decltype(server_out) &, service &> server{server_in, server_out, self};
        auto a = arguments<K>(n);
        for (std::size_t step = 0; step < 3; ++step) {
            alloc::scope scope;
            plan = {.alive_count = plan.alive_count};
            plan.counting = step == last;
            std::errc e = step == 0 ? request(client, a) : step == 1 ? std::errc(server.serve()) : response(client, nullptr);
            plan.counting = false;
            alloc::now.on = false;
            if (step == last) {
                r.ticks = plan.ticks;
                r.allocations = alloc::now.count;
            }
            mc::require(e == std::errc{}, "setup", "the undisturbed call failed");
        }
        r.request = requests;
        r.response = responses;
        return r;
    }

    static void run()
    {
        alive.clear();
        plan = {};
        int n = 1 + int(mc::choose(3, "value"));
        auto step = mc::choose(3, "step");
        auto r = rehearse(n, step);
        auto & input = step == 1 ? r.request : r.response;
        auto f = choose_plan(step == 0 ? 0 : input.size(), r.ticks, r.allocations);
        auto retry = mc::choose(2, "what happens next");
        mc::state(mc::mix(mc::mix(f.cut, f.tick * 1000 + f.memory), mc::mix(K * 100 + step * 10 + std::uint64_t(n), retry)));
        exact e(input.data(), step == 0 ? 0 : f.cut);
        bool whole = step == 0 || f.cut == input.size();
        execution([&]() -> const char * {
            service self;
            bytes_t written;
            zb::in in{e.view()};
            zb::out out{written};
            typename rpc::template client<decltype(in) &, decltype(out) &> client{in, out};
            typename rpc::template server<decltype(in) &, decltype(out) &, service &> server{in, out, self};
            auto a = arguments<K>(n);
            auto go = [&](bytes_t * again) -> std::errc {
                return step == 0 ? request(client, a) : step == 1 ? std::errc(server.serve()) : response(client, again);
            };
            auto how = attempt(f.tick, f.memory, [&] { return go(nullptr); });
            observed(how, in.position() + out.position());
            if (in.position() > e.size || out.position() > written.size()) {
                return "a position is beyond the end";
            }
            if (how == ended::good && !whole) {
                return "a truncated input was accepted";
            }
            if (how == ended::code && whole) {
                return "a complete input was rejected";
            }
            if (f.tick && whole && f.tick <= r.ticks && how != ended::thrown) {
                return "an exception was swallowed";
            }
            if (retry) {
                in.reset();
                out.reset();
                bytes_t again;
                std::errc second = go(&again);
                if ((second == std::errc{}) != whole) {
                    return "the call does not end the same again";
                }
                if (whole) {
                    auto & expect = step == 0 ? r.request : r.response;
                    auto & got = step == 2 ? again : written;
                    if (step != 2) {
                        if (out.position() != expect.size() || !std::equal(expect.begin(), expect.end(), got.begin())) {
                            return "the call writes other bytes after the failure";
                        }
                    } else if (again != expect) {
                        return "the response is another after the failure";
                    }
                }
            }
            return nullptr;
        });
    }
};

template <auto F, std::size_t K>
struct applied
{
    static void run()
    {
        alive.clear();
        plan = {};
        int n = 1 + int(mc::choose(3, "value"));
        auto data = [&] {
            bytes_t b;
            zb::out out{b};
            auto a = arguments<K>(n);
            mc::require(zb::success(out(a)), "setup", "writing failed");
            return b;
        }();
        auto call = [](auto & in, bytes_t * result) -> std::errc {
            if constexpr (std::same_as<decltype(zb::apply(F, in)), zb::errc>) {
                return zb::apply(F, in);
            } else {
                auto r = zb::apply(F, in);
                if (r.failure()) {
                    return r.error();
                }
                // The value outlives the result.
                auto v(std::move(r).value());
                if (result) {
                    zb::out out{*result};
                    return out(v);
                }
                return {};
            }
        };
        std::size_t ticks = 0, allocations = 0;
        bytes_t expect;
        {
            zb::in in{data};
            alloc::scope scope;
            plan.counting = true;
            std::errc r = call(in, nullptr);
            plan.counting = false;
            alloc::now.on = false;
            ticks = plan.ticks;
            allocations = alloc::now.count;
            in.reset();
            mc::require(r == std::errc{} && call(in, &expect) == std::errc{}, "setup", "the undisturbed call failed");
        }
        auto f = choose_plan(data.size(), ticks, allocations);
        exact e(data.data(), f.cut);
        bool whole = f.cut == data.size();
        execution([&]() -> const char * {
            zb::in in{e.view()};
            auto how = attempt(f.tick, f.memory, [&] { return call(in, nullptr); });
            observed(how, in.position());
            if (how == ended::good && !whole) {
                return "a truncated input was accepted";
            }
            if (how == ended::code && whole) {
                return "a complete input was rejected";
            }
            if (f.tick && whole && how != ended::thrown) {
                return "an exception was swallowed";
            }
            in.reset();
            bytes_t again;
            std::errc r = call(in, &again);
            if ((r == std::errc{}) != whole || (whole && again != expect)) {
                return "the call ends differently after the failure";
            }
            return nullptr;
        });
    }
};
#endif

[[maybe_unused]] bool added = [] {
#if PART == 0
    add<std::vector<obj>>("vector");
    add<std::list<obj>>("list");
    add<std::deque<obj>>("deque");
    add<std::array<obj, 2>>("array");
    add<std::vector<mov>>("vector of move only objects");
    add<std::vector<std::vector<obj>>, zb::size_varint>("vector of vectors");
    add<std::vector<std::unique_ptr<obj>>>("vector of unique_ptr");
    add<std::vector<agg>>("vector of aggregates");
#elif PART == 1
    add<std::map<std::uint8_t, obj>>("map");
    add<std::map<obj, std::uint8_t>>("map with tracked keys");
    add<std::map<obj, obj>, zb::endian::big>("map of objects");
    add<std::set<obj>>("set");
    add<std::multiset<obj>>("multiset");
    add<std::unordered_map<obj, std::string>>("unordered_map");
    add<std::unordered_set<obj>>("unordered_set");
    add<std::map<std::string, std::vector<obj>>>("map of vectors");
    add<std::map<std::uint8_t, std::optional<mov>>>("map of optionals of move only objects");
#elif PART == 2
    add<std::optional<obj>>("optional");
    add<std::optional<prv>>("optional of a class only the library constructs");
    add<std::optional<own_prv>>("optional of a move only class only the library constructs");
    add<std::optional<std::vector<obj>>>("optional of vector");
    add<std::unique_ptr<obj>>("unique_ptr");
    add<std::shared_ptr<obj>>("shared_ptr");
    add<std::unique_ptr<agg>>("unique_ptr to aggregate");
    add<zb::optional_ptr<obj>>("optional_ptr");
    add<std::optional<std::unique_ptr<mov>>>("optional of unique_ptr");
    add<std::vector<std::optional<prv>>>("vector of optionals of a class only the library constructs");
#elif PART == 3
    add<std::variant<obj, std::string>>("variant");
    add<std::variant<prv, std::string>>("variant with a class only the library constructs");
    add<std::variant<std::uint8_t, own_prv, prv>>("variant with two classes only the library constructs");
    add<std::variant<std::vector<obj>, std::monostate, mov>>("variant with vector");
    add<std::variant<std::optional<obj>, std::unique_ptr<obj>>>("variant of optional and unique_ptr");
    add<std::vector<std::variant<obj, prv>>>("vector of variants");
    add<std::variant<std::variant<obj, std::string>, prv>>("variant of variant");
#elif PART == 4
    add<obj>("an object");
    add<agg, zb::size2b>("aggregate");
    add<std::tuple<obj, std::string, mov>>("tuple");
    add<std::pair<obj, obj>>("pair");
    add<tree>("tree");
    add<pmsg>("protocol buffers message");
    add<pouter>("protocol buffers message of messages");
    add<std::vector<pouter>, zb::size_varint>("vector of protocol buffers messages");
#elif PART == 5
    mc::add("remote call: objects", remote<0>::run);
    mc::add("remote call: returns vector", remote<1>::run);
    mc::add("remote call: returns nothing", remote<2>::run);
    mc::add("remote call: move only", remote<3>::run);
    mc::add("remote call: returns unique_ptr", remote<4>::run);
    mc::add("remote call: no parameters", remote<5>::run);
    mc::add("remote call: member", remote<6>::run);
    mc::add("remote call: constant member", remote<7>::run);
    mc::add("apply: objects", applied<join, 0>::run);
    mc::add("apply: returns vector", applied<many, 1>::run);
    mc::add("apply: returns nothing", applied<nothing, 2>::run);
    mc::add("apply: move only", applied<pass, 3>::run);
    mc::add("apply: returns unique_ptr", applied<owner, 4>::run);
#endif
    return true;
}();
} // namespace
