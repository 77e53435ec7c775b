// C27: histories of result objects.
#define ALLOC_IMPLEMENTATION
#include "alloc.hpp"
#include "kit.hpp"
#include <memory>
#include <set>
#include <system_error>

using namespace kit;

namespace
{
std::size_t pick(std::size_t n, const char * label)
{
    alloc::pause p;
    return mc::choose(n, label);
}

// Objects which know where they were constructed.
std::set<const void *> alive;
std::string broken;

struct tracked
{
    explicit tracked(int v) : value(v), me(this) { born(); }
    tracked() : tracked(7) {}
    tracked(const tracked & other) : value(other.get()), me(this) { born(); }
    tracked(tracked && other) noexcept : value(other.get()), me(this)
    {
        other.value = -1;
        born();
    }
    tracked & operator=(const tracked & other)
    {
        check();
        value = other.get();
        return *this;
    }
    tracked & operator=(tracked && other) noexcept
    {
        check();
        value = other.get();
        if (&other != this) {
            other.value = -1;
        }
        return *this;
    }
    ~tracked()
    {
        check();
        if (!alive.erase(this)) {
            broken = "an object was destroyed which was not alive";
        }
        me = nullptr;
    }
    void born()
    {
        if (!alive.insert(this).second) {
            broken = "an object was constructed over a living one";
        }
    }
    void check() const
    {
        if (me != this || !alive.count(this)) {
            broken = "an object was used which was not constructed here";
        }
    }
    int get() const
    {
        check();
        return value;
    }
    int value;
    const tracked * me;
};

struct move_only : tracked
{
    using tracked::tracked;
    move_only(move_only &&) = default;
    move_only & operator=(move_only &&) = default;
};

struct no_default : tracked
{
    explicit no_default(int v) : tracked(v) {}
};

struct no_assign : tracked
{
    using tracked::tracked;
    no_assign(const no_assign &) = default;
    no_assign(no_assign &&) = default;
    no_assign & operator=(const no_assign &) = delete;
};

// Trivially destructible, but knows where it is.
struct here
{
    here() : here(7) {}
    explicit here(int v) : value(v), me(this) {}
    here(const here & o) : value(o.value), me(this) {}
    here(here && o) noexcept : value(o.value), me(this) { o.value = -1; }
    here & operator=(const here & o)
    {
        value = o.value;
        return *this;
    }
    int get() const
    {
        if (me != this) {
            broken = "an object was copied as bytes";
        }
        return value;
    }
    int value;
    const here * me;
};

struct alignas(64) aligned : tracked
{
    using tracked::tracked;
    int get() const
    {
        if (reinterpret_cast<std::uintptr_t>(this) % 64) {
            broken = "an object was constructed at a misaligned address";
        }
        return tracked::get();
    }
};

struct plain
{
    std::uint8_t a{};
    std::uint32_t b{};
    std::array<char, 40> c{};
};

struct throwing_base
{
    virtual ~throwing_base() = default;
    virtual int get() const { return -2; }
};
struct derived : throwing_base
{
    derived() = default;
    explicit derived(int v) : t(v) {}
    int get() const override { return t.get(); }
    tracked t;
};

enum class color : std::uint8_t { red = 1, green, blue };

// How values of a type are made and recognised: payloads 1 and 2, -1 when
// moved from, 7 when default constructed.
template <typename T>
struct kind_of
{
    static T make(int n) { return T(n); }
    static int look(const T & v) { return v.get(); }
    static constexpr bool default_is_zero = false;
    static constexpr int fresh = 7;
};
template <std::integral T>
struct kind_of<T>
{
    static T make(int n) { return T(n == 1 ? 1 : 0); }
    static int look(const T & v) { return v ? 1 : 2; }
    static constexpr int fresh = 2;
};
template <>
struct kind_of<double>
{
    static double make(int n) { return n * 1.5; }
    static int look(double v) { return v == 0 ? 7 : int(v / 1.5); }
    static constexpr int fresh = 7;
};
template <>
struct kind_of<color>
{
    static color make(int n) { return color(n); }
    static int look(color v) { return int(v) ? int(v) : 7; }
    static constexpr int fresh = 7;
};
template <>
struct kind_of<std::string>
{
    static std::string make(int n) { return std::string(20 * n, char('0' + n)); }
    static int look(const std::string & s) { return s.empty() ? 7 : s == make(1) ? 1 : s == make(2) ? 2 : -3; }
    static constexpr int fresh = 7;
};
template <>
struct kind_of<std::vector<tracked>>
{
    static std::vector<tracked> make(int n)
    {
        std::vector<tracked> v;
        for (int i = 0; i < n; ++i) {
            v.emplace_back(n);
        }
        return v;
    }
    static int look(const std::vector<tracked> & v)
    {
        for (auto & t : v) {
            if (t.get() != int(v.size())) {
                return -3;
            }
        }
        return v.empty() ? 7 : int(v.size());
    }
    static constexpr int fresh = 7;
};
template <>
struct kind_of<std::unique_ptr<tracked>>
{
    static auto make(int n) { return std::make_unique<tracked>(n); }
    static int look(const std::unique_ptr<tracked> & v) { return v ? v->get() : 7; }
    static constexpr int fresh = 7;
};
template <>
struct kind_of<plain>
{
    static plain make(int n)
    {
        plain p{std::uint8_t(n), std::uint32_t(n * 1000000), {}};
        p.c.fill(char(n));
        return p;
    }
    static int look(const plain & p)
    {
        if (!p.a) {
            return p.b || p.c[39] ? -3 : 7;
        }
        auto q = make(p.a);
        return q.b == p.b && q.c == p.c ? p.a : -3;
    }
    static constexpr int fresh = 7;
};
template <>
struct kind_of<std::tuple<tracked, std::string>>
{
    using T = std::tuple<tracked, std::string>;
    static T make(int n) { return T(tracked(n), std::string(30, char('0' + n))); }
    static int look(const T & v)
    {
        auto & [t, s] = v;
        return s.empty() ? t.get() == -1 || t.get() == 7 ? 7 : -3 : s == std::string(30, char('0' + t.get())) ? t.get() : -3;
    }
    static constexpr int fresh = 7;
};
template <>
struct kind_of<std::optional<move_only>>
{
    using T = std::optional<move_only>;
    static T make(int n) { return T(std::in_place, n); }
    static int look(const T & v) { return v ? v->get() : 7; }
    static constexpr int fresh = 7;
};
template <>
struct kind_of<std::variant<tracked, std::string>>
{
    using T = std::variant<tracked, std::string>;
    static T make(int n)
    {
        return n == 1 ? T(std::in_place_index<0>, 1) : T(std::in_place_index<1>, 30, '2');
    }
    static int look(const T & v)
    {
        if (v.index()) {
            return std::get<1>(v).empty() ? -1 : std::get<1>(v) == std::string(30, '2') ? 2 : -3;
        }
        return std::get<0>(v).get();
    }
    static constexpr int fresh = 7;
};
template <>
struct kind_of<std::span<const std::byte>>
{
    static constexpr std::byte data[3]{};
    using T = std::span<const std::byte>;
    static T make(int n) { return {data, std::size_t(n)}; }
    static int look(const T & v) { return v.empty() ? 7 : v.data() == data ? int(v.size()) : -3; }
    static constexpr int fresh = 7;
};
template <>
struct kind_of<const char *>
{
    static constexpr const char * texts[] = {"", "a", "b"};
    static const char * make(int n) { return texts[n]; }
    static int look(const char * v) { return v == texts[1] ? 1 : v == texts[2] ? 2 : v ? -3 : 7; }
    static constexpr int fresh = 7;
};

// A moved from object: anything a move may leave behind.
template <typename T>
bool is_moved_from(int look)
{
    // Trivial types keep their value.
    return std::is_trivially_copyable_v<T> ? look == 1 || look == 2 || look == kind_of<T>::fresh : look == -1 || look == 7;
}

constexpr std::errc codes[] = {std::errc::result_out_of_range, std::errc::address_family_not_supported /* may be any */, std::errc(-1)};

enum class st { none, value, moved, error };
struct slot
{
    st state{};
    int payload{}; // or index of the code
};

template <typename T>
struct machine
{
    using result = zb::value_or_errc<T>;
    static constexpr bool reference = std::is_reference_v<T>;
    using object = std::remove_cvref_t<T>;
    static constexpr std::size_t slots = 3;
    alignas(result) unsigned char memory[slots][sizeof(result)];
    slot model[slots];
    std::optional<std::array<object, 2>> referents;
    std::size_t owned{}; // objects not in results

    result & at(std::size_t i)
    {
        return *std::launder(reinterpret_cast<result *>(memory[i]));
    }

    ~machine()
    {
        for (std::size_t i = 0; i < slots; ++i) {
            if (model[i].state != st::none) {
                at(i).~result();
            }
        }
    }

    static void require(bool ok, const char * key, std::string m)
    {
        mc::require(ok, key, [&] { return m; });
    }

    void make_value(std::size_t i, int n, bool rvalue)
    {
        if constexpr (reference) {
            // Reference results are made of the address, as the library does
            // not take references.
            ::new (memory[i]) result(&(*referents)[n - 1]);
        } else if (rvalue) {
            ::new (memory[i]) result(kind_of<object>::make(n));
        } else if constexpr (std::is_copy_constructible_v<object>) {
            auto v = kind_of<object>::make(n);
            ::new (memory[i]) result(v);
            require(kind_of<object>::look(v) == n, "value", "an lvalue the result was made of has changed");
        }
        model[i] = {st::value, n};
    }

    void check_value(const object & v, const slot & m, const char * how)
    {
        int look = kind_of<object>::look(v);
        mc::step();
        if (m.state == st::value) {
            require(look == m.payload, "value",
                    mc::format("%s gives payload %d instead of %d", how, look, m.payload));
        } else {
            require(is_moved_from<object>(look), "value", mc::format("%s of a moved value gives payload %d", how, look));
        }
        if constexpr (reference) {
            require(&v == &(*referents)[m.payload - 1], "value", "a reference refers to another object");
        }
    }

    void check(std::size_t i)
    {
        auto & m = model[i];
        if (m.state == st::none) {
            return;
        }
        auto & r = at(i);
        const auto & c = r;
        bool good = m.state != st::error;
        require(r.success() == good && c.success() == good && r.failure() == !good && c.failure() == !good, "status",
                "success() or failure() is wrong");
        require(zb::success(r) == good && zb::success(c) == good && zb::failure(r) == !good && zb::failure(c) == !good &&
                    zb::success(std::move(r)) == good && zb::failure(std::move(r)) == !good,
                "status", "the free success() or failure() is wrong");
        if (good) {
            static_assert(std::same_as<decltype(r.value()), object &> || reference);
            static_assert(std::same_as<decltype(c.value()), const object &> || reference);
            static_assert(std::same_as<decltype(std::move(r).value()), object &&> || reference);
            static_assert(!reference || std::same_as<decltype(std::move(r).value()), T &&>);
            static_assert(std::same_as<decltype(r.value()), decltype(r.or_throw())>);
            static_assert(std::same_as<decltype(c.value()), decltype(c.or_throw())>);
            static_assert(std::same_as<decltype(std::move(r).value()), decltype(std::move(r).or_throw())>);
            check_value(r.value(), m, "value() &");
            check_value(c.value(), m, "value() const &");
            check_value(r.or_throw(), m, "or_throw() &");
            check_value(c.or_throw(), m, "or_throw() const &");
            require(&r.value() == &c.value() && &r.value() == &r.or_throw() && &c.value() == &c.or_throw(), "value",
                    "the value is not a single object");
            if constexpr (!reference) {
                auto p = reinterpret_cast<const unsigned char *>(&r.value());
                require(p >= memory[i] && p < memory[i] + sizeof(result), "value", "the value is not in the result");
                // Only referring to it changes nothing.
                [[maybe_unused]] auto && ref = std::move(r).value();
                check_value(ref, m, "value() &&");
            } else {
                check_value(std::move(r).value(), m, "value() &&");
            }
        } else {
            static_assert(std::same_as<decltype(c.error()), zb::errc>);
            require(c.error().code == codes[m.payload] && c.error() == codes[m.payload] && std::errc(r.error()) == codes[m.payload],
                    "error", mc::format("error() gives %d instead of %d", int(c.error().code), int(codes[m.payload])));
            auto thrown = [&](auto && f, const char * how) {
                mc::step();
                // The library does not free the texts of exceptions visibly.
                alloc::pause p;
                bool ok = false;
                try {
                    f();
                } catch (const std::system_error & e) {
                    ok = e.code() == std::make_error_code(codes[m.payload]) && e.code() == codes[m.payload];
                }
                require(ok, "throw", mc::format("%s of a failure does not throw its error", how));
            };
            thrown([&] { (void)r.or_throw(); }, "or_throw() &");
            thrown([&] { (void)c.or_throw(); }, "or_throw() const &");
            thrown([&] { (void)std::move(r).or_throw(); }, "or_throw() &&");
        }
    }

    std::size_t objects() const
    {
        std::size_t n = owned;
        for (auto & m : model) {
            if (m.state == st::none || m.state == st::error) {
                continue;
            }
            if constexpr (std::derived_from<object, tracked> || std::same_as<object, derived>) {
                n += !reference;
            } else if constexpr (std::same_as<object, std::vector<tracked>>) {
                n += m.state == st::value && m.payload != 7 ? m.payload : 0;
            } else if constexpr (std::same_as<object, std::unique_ptr<tracked>>) {
                n += m.state == st::value && m.payload != 7;
            } else if constexpr (std::same_as<object, std::tuple<tracked, std::string>>) {
                ++n;
            } else if constexpr (std::same_as<object, std::optional<move_only>>) {
                // A moved from optional keeps its (moved from) object.
                n += m.payload != 7;
            } else if constexpr (std::same_as<object, std::variant<tracked, std::string>>) {
                n += m.payload != 2;
            }
        }
        return n;
    }

    void invariants()
    {
        for (std::size_t i = 0; i < slots; ++i) {
            check(i);
        }
        require(broken.empty(), "object", broken);
        require(alive.size() == objects(), "object",
                mc::format("%zu objects are alive instead of %zu", alive.size(), objects()));
    }

    std::uint64_t hash(int extra) const
    {
        std::uint64_t h = 5;
        for (auto & m : model) {
            h = mc::mix(h, std::uint64_t(m.state) * 100 + std::uint64_t(m.payload));
        }
        return mc::mix(h, std::uint64_t(extra));
    }

    bool go(int depth, bool pruned)
    {
        if constexpr (reference) {
            referents.emplace(std::array<object, 2>{kind_of<object>::make(1), kind_of<object>::make(2)});
            if constexpr (std::derived_from<object, tracked>) {
                owned = 2;
            }
        }
        for (int left = depth; left > 0; --left) {
            // The first empty slot and one which is not.
            std::size_t empty = slots;
            std::vector<std::size_t> full;
            for (std::size_t i = 0; i < slots; ++i) {
                if (model[i].state == st::none) {
                    if (empty == slots) {
                        empty = i;
                    }
                } else {
                    full.push_back(i);
                }
            }
            alloc::now.on = false;
            if (pruned) {
                mc::visit(hash(0), left);
            } else {
                mc::state(hash(0));
            }
            alloc::now.on = true;
            auto what = pick(2 + (full.empty() ? 0 : 1), "make or use");
            if (what == 0) {
                return true; // the end: everything is destroyed
            }
            if (what == 1) {
                if (empty == slots) {
                    return true;
                }
                auto how = pick(9, "make");
                mc::note([&] { alloc::pause p; return mc::format("slot %zu: make form %zu", empty, how); });
                switch (how) {
                case 0: case 1:
                    make_value(empty, int(how) + 1, true);
                    break;
                case 2: case 3:
                    if (!std::is_copy_constructible_v<object> || reference) {
                        return true;
                    }
                    make_value(empty, int(how) - 1, false);
                    break;
                case 4:
                    if constexpr (!reference && std::is_default_constructible_v<object>) {
                        ::new (memory[empty]) result();
                        model[empty] = {st::value, kind_of<object>::fresh};
                    } else {
                        return true;
                    }
                    break;
                case 5: case 6: case 7:
                    ::new (memory[empty]) result(zb::errc(codes[how - 5]));
                    model[empty] = {st::error, int(how) - 5};
                    break;
                case 8: {
                    const zb::errc e{codes[0]};
                    ::new (memory[empty]) result(e);
                    model[empty] = {st::error, 0};
                    break;
                }
                }
            } else {
                auto i = full[pick(full.size(), "slot")];
                auto how = pick(7, "use");
                mc::note([&] { alloc::pause p; return mc::format("slot %zu: use form %zu", i, how); });
                auto & m = model[i];
                switch (how) {
                case 0:
                    if (empty == slots) {
                        return true;
                    }
                    ::new (memory[empty]) result(std::move(at(i)));
                    model[empty] = m;
                    if (m.state == st::value && !reference) {
                        m.state = st::moved;
                    }
                    break;
                case 1:
                    at(i).~result();
                    m = {};
                    break;
                case 2: case 3:
                    if (m.state == st::error) {
                        return true;
                    }
                    if constexpr (reference) {
                        if constexpr (!std::is_const_v<std::remove_reference_t<T>>) {
                            auto && v = how == 2 ? std::move(at(i)).value() : std::move(at(i)).or_throw();
                            check_value(v, m, "value");
                        }
                    } else {
                        auto before = m;
                        {
                            object v(how == 2 ? std::move(at(i)).value() : std::move(at(i)).or_throw());
                            check_value(v, before, "the moved out value");
                        }
                        m.state = st::moved;
                    }
                    break;
                case 4:
                    if (m.state == st::error) {
                        return true;
                    }
                    if constexpr (std::is_copy_constructible_v<object>) {
                        object v(std::as_const(at(i)).value());
                        check_copy(v, m);
                        object w(at(i).value());
                        check_copy(w, m);
                    }
                    break;
                case 5: case 6:
                    if (m.state == st::error) {
                        return true;
                    }
                    if constexpr (!std::is_const_v<std::remove_reference_t<T>> && std::is_move_assignable_v<object>) {
                        int n = int(how) - 4;
                        if constexpr (reference) {
                            at(i).or_throw() = kind_of<object>::make(n);
                            require(kind_of<object>::look((*referents)[m.payload - 1]) == n, "value",
                                    "assigning through the result does not change the object referred to");
                            at(i).value() = kind_of<object>::make(m.payload);
                        } else {
                            (n == 1 ? at(i).value() : at(i).or_throw()) = kind_of<object>::make(n);
                            m = {st::value, n};
                        }
                    }
                    break;
                }
            }
            invariants();
        }
        return true;
    }

    void check_copy(const object & v, const slot & m)
    {
        int look = kind_of<object>::look(v);
        require(m.state == st::value ? look == m.payload : is_moved_from<object>(look), "value", "a copy of the value differs");
    }
};

template <typename T>
void scenario(bool pruned)
{
    alive.clear();
    broken.clear();
    int depth = pruned ? (mc::thorough() ? 8 : 5) : (mc::thorough() ? 5 : 4);
    // The allocations of this very function end with the machine.
    std::string failed;
    alloc::scope a;
    {
        auto m = std::make_unique<machine<T>>();
        m->go(depth, pruned);
    }
    mc::require(broken.empty(), "object", [&] { return broken; });
    mc::require(alive.empty(), "object", [&] { return mc::format("%zu objects were not destroyed", alive.size()); });
    std::size_t live = alloc::now.live;
    mc::require(live == 0, "leak", [&] { return mc::format("%zu blocks of memory were not freed", live); });
    mc::case_done();
}

template <typename T>
void add(const char * name)
{
    mc::add(std::string("every history of results of ") + name, [] { scenario<T>(false); });
    mc::add(std::string("every state of results of ") + name, [] { scenario<T>(true); });
}

// Status results.
std::vector<std::errc> statuses()
{
    std::vector<std::errc> v;
    for (int i = -3; i < 260; ++i) {
        v.push_back(std::errc(i));
    }
    for (auto i : {256, 512, 1024, 32767, 32768, 65535, 65536, 0x10001, 1 << 24, 0x7fffffff, -0x7fffffff - 1}) {
        v.push_back(std::errc(i));
    }
    return v;
}

template <typename Result>
void status(Result r, std::errc code)
{
    const Result c{r};
    bool good = code == std::errc{};
    auto check = [&](bool ok, const char * what) {
        mc::step();
        mc::require(ok, "status", [&] { return mc::format("%s is wrong for the code %d", what, int(code)); });
    };
    check(zb::success(r) == good, "success()");
    check(zb::failure(r) == !good, "failure()");
    check(zb::success(c) == good && zb::failure(c) == !good, "success() of a constant");
    check(zb::success(Result(code)) == good && zb::failure(Result(code)) == !good, "success() of a temporary");
    check(r == code && !(r != code) && code == r, "comparison with its code");
    check((r == std::errc{}) == good, "comparison with no error");
    std::errc back = r;
    check(back == code, "conversion to std::errc");
    check(std::make_error_code(std::errc(r)) == code || good, "conversion to an error code");
}

void throws(const zb::errc & r, std::errc code, bool returns)
{
    bool thrown = false;
    try {
        r.or_throw();
    } catch (const std::system_error & e) {
        thrown = e.code() == std::make_error_code(code) && e.code().value() == int(code) && e.code().category() == std::generic_category();
    }
    mc::require(thrown == !returns, "throw", [&] { return mc::format("or_throw() is wrong for the code %d", int(code)); });
}

[[maybe_unused]] bool codes_scenario = mc::add("every status", [] {
    auto all = statuses();
    auto code = all[mc::choose(all.size(), "code")];
    mc::note([&] { return "code " + std::to_string(int(code)); });
    status<std::errc>(code, code);
    status<zb::errc>(code, code);
    zb::errc a{code};
    mc::require(a.code == code, "status", "the code is not kept");
    throws(a, code, code == std::errc{});
    throws(zb::errc(code), code, code == std::errc{});
    zb::errc assigned;
    mc::require(assigned == std::errc{} && zb::success(assigned), "status", "a default status is not a success");
    assigned = code;
    throws(assigned, code, code == std::errc{});
    for (auto other : all) {
        zb::errc b{other};
        mc::step(4);
        mc::require((a == b) == (code == other) && (a != b) == (code != other) && (a == other) == (code == other) &&
                        (code == b) == (code == other),
                    "compare", [&] { return mc::format("comparing %d with %d is wrong", int(code), int(other)); });
        b = a;
        mc::require(b == code, "compare", "assignment changes the code");
    }
    // The same in a result.
    zb::value_or_errc<std::string> r{a};
    mc::require(r.failure() && r.error() == code && zb::failure(r), "status", "the code is not kept in a result");
    auto moved = std::move(r);
    mc::require(moved.failure() && moved.error().code == code, "status", "the code is not kept in a moved result");
    bool thrown = false;
    try {
        (void)moved.or_throw();
    } catch (const std::system_error & e) {
        thrown = e.code() == std::make_error_code(code);
    }
    mc::require(thrown, "throw", "a result does not throw its code");
    mc::case_done();
});
} // namespace

namespace
{
// Results of the library: a function which takes what it reads, applied to
// every prefix of its arguments.
tracked global{5};
template <int How>
decltype(auto) function(std::uint8_t n, std::string s)
{
    if constexpr (How == 0) {
        return std::string(n, s.empty() ? '-' : s[0]);
    } else if constexpr (How == 1) {
        return tracked(n);
    } else if constexpr (How == 2) {
        return move_only(n);
    } else if constexpr (How == 3) {
        return std::make_unique<tracked>(n);
    } else if constexpr (How == 4) {
        return std::vector<tracked>(n % 4, tracked(n));
    } else if constexpr (How == 5) {
        return no_default(n);
    } else {
        return bool(n & 1);
    }
}

template <int How>
void applied()
{
    alive.clear();
    broken.clear();
    std::uint8_t n = std::uint8_t(mc::choose(3, "n"));
    auto data = enc(config{}, n, std::string(n * 20, 'x'));
    auto cut = mc::choose(data.size() + 1, "length of the input");
    auto exact = kit::exact(data.data(), cut);
    alloc::scope a;
    {
        zb::in in{exact.view()};
        auto r = zb::apply(function<How>, in);
        static_assert(std::same_as<decltype(r), zb::value_or_errc<decltype(function<How>(0, ""))>>);
        mc::step();
        bool good = cut == data.size();
        mc::require(r.success() == good, "status", "apply reports the wrong status");
        auto chain = pick(3, "moves");
        auto use = [&](auto && last) {
            mc::require(last.success() == good, "status", "the moved result has another status");
            if (!good) {
                mc::require(last.error() == std::errc::result_out_of_range, "error", "the error is not kept");
                return;
            }
            auto && v = last.value();
            using V = std::remove_cvref_t<decltype(v)>;
            if constexpr (std::same_as<V, bool>) {
                mc::require(v == bool(n & 1), "value", "wrong value");
            } else if constexpr (std::same_as<V, std::string>) {
                mc::require(v == std::string(n, n ? 'x' : '-'), "value", "wrong value");
            } else if constexpr (std::same_as<V, std::vector<tracked>>) {
                mc::require(v.size() == n % 4u && (v.empty() || v.back().get() == n), "value", "wrong value");
            } else if constexpr (std::same_as<V, std::unique_ptr<tracked>>) {
                mc::require(v->get() == n, "value", "wrong value");
            } else {
                mc::require(v.get() == n, "value", "wrong value");
            }
        };
        if (chain == 0) {
            use(r);
        } else if (chain == 1) {
            auto s = std::move(r);
            use(s);
        } else {
            auto s = std::move(r);
            auto t = std::move(s);
            use(t);
            if (good) {
                auto out = std::move(t).or_throw();
                (void)out;
            }
        }
    }
    std::size_t live = alloc::now.live;
    mc::require(broken.empty(), "object", [&] { return broken; });
    mc::require(alive.empty(), "object", [&] { return mc::format("%zu objects were not destroyed", alive.size()); });
    mc::require(live == 0, "leak", "memory was not freed");
    mc::case_done();
}

[[maybe_unused]] bool added = [] {
    add<int>("int");
    add<bool>("bool");
    add<std::uint64_t>("uint64_t");
    add<double>("double");
    add<color>("an enum");
    add<plain>("an aggregate");
    add<const char *>("a pointer");
    add<std::span<const std::byte>>("a span");
    add<std::string>("string");
    add<tracked>("a tracked class");
    add<move_only>("a move only class");
    add<no_default>("a class without default constructor");
    add<no_assign>("a class which can not be assigned");
    add<here>("a trivially destructible class which knows its address");
    add<aligned>("an over-aligned class");
    add<derived>("a polymorphic class");
    add<std::unique_ptr<tracked>>("unique_ptr");
    add<std::vector<tracked>>("vector");
    add<std::tuple<tracked, std::string>>("tuple");
    add<std::optional<move_only>>("optional");
    add<std::variant<tracked, std::string>>("variant");
    add<tracked &>("a reference");
    add<const tracked &>("a reference to constant");
    add<int &>("a reference to int");
    add<const std::string &>("a reference to string");
    add<tracked &&>("an rvalue reference");
    mc::add("apply: string", applied<0>);
    mc::add("apply: tracked", applied<1>);
    mc::add("apply: move only", applied<2>);
    mc::add("apply: unique_ptr", applied<3>);
    mc::add("apply: vector", applied<4>);
    mc::add("apply: no default constructor", applied<5>);
    mc::add("apply: bool", applied<6>);
    return true;
}();
} // namespace
