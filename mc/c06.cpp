// C06: histories of writes, resets and re-creations over a growable buffer.
#include "kit.hpp"

using namespace kit;

namespace
{
struct agg { std::uint8_t a; std::uint32_t b; std::uint16_t c; };
struct packed { std::uint32_t a; std::uint32_t b; };
struct message
{
    zb::vint32_t a;
    std::string b;
    using serialize = zb::protocol<zb::pb{}, 2>;
};
} // namespace
namespace model
{
template <>
struct Fields<agg>
{
    static auto get(agg & s) { return std::tie(s.a, s.b, s.c); }
};
template <>
struct Fields<packed>
{
    static auto get(packed & s) { return std::tie(s.a, s.b); }
};
} // namespace model

namespace
{
enum op
{
    w_u8, w_u32, w_str, w_var, w_bits, w_agg, w_vec, w_long, w_two, w_none, w_null, w_msg, w_bigmsg, w_packed, w_count,
    w_opt, w_map,
};

struct values
{
    std::uint8_t u8 = 0xa1;
    std::uint32_t u32 = 0xb1b2b3b4;
    std::string str = "xyz";
    zb::vuint32_t var{300};
    std::bitset<9> bits{0x155};
    agg a{0xc1, 0xc2c3c4c5, 0xc6c7};
    std::vector<std::uint16_t> vec{0xd1d2, 0xd3d4};
    std::string lng = std::string(37, 'L');
    std::uint16_t u16 = 0xe1e2;
    std::tuple<> none{};
    std::unique_ptr<std::uint8_t> null{};
    message msg{150, "m"};
    message bigmsg{-1, std::string(130, 'M')};
    std::array<packed, 2> pk{{{0xf1f2f3f4, 0xf5f6f7f8}, {0xe9eaebec, 0xedeeeff0}}};
    std::optional<std::uint16_t> opt{0x9192};
    std::map<std::uint8_t, std::string> map{{1, "q"}, {2, ""}};
};

template <typename O>
std::errc write(O & out, int op, const values & v)
{
    switch (op) {
    case w_u8: return out(v.u8);
    case w_u32: return out(v.u32);
    case w_str: return out(v.str);
    case w_var: return out(v.var);
    case w_bits: return out(v.bits);
    case w_agg: return out(v.a);
    case w_vec: return out(v.vec);
    case w_long: return out(v.lng);
    case w_two: return out(v.u8, v.u16, v.str);
    case w_none: return out(v.none);
    case w_null: return out(v.u16, v.null, v.u32);
    case w_msg: return out(v.msg);
    case w_bigmsg: return out(v.bigmsg, v.u8);
    case w_packed: return out(v.pk);
    case w_opt: return out(v.opt);
    case w_map: return out(v.map);
    default: return out();
    }
}

bytes_t expected(int op, const values & v, const config & c)
{
    auto sized = [&](bytes_t m) {
        Enc e{c, {}};
        e.count(m.size());
        return e.out + m;
    };
    switch (op) {
    case w_u8: return enc(c, v.u8);
    case w_u32: return enc(c, v.u32);
    case w_str: return enc(c, v.str);
    case w_var: return enc(c, v.var);
    case w_bits: return enc(c, v.bits);
    case w_agg: return enc(c, v.a);
    case w_vec: return enc(c, v.vec);
    case w_long: return enc(c, v.lng);
    case w_two: return enc(c, v.u8, v.u16, v.str);
    case w_null: return enc(c, v.u16);
    case w_msg: return sized(unhex("08960112016d"));
    case w_bigmsg:
        return sized(unhex("08ffffffff0f128201") + bytes_of(v.bigmsg.b)) + enc(c, v.u8);
    case w_packed: return enc(c, v.pk);
    case w_opt: return enc(c, v.opt);
    case w_map: return enc(c, v.map);
    default: return {};
    }
}

// An archive of whatever type.
struct archive
{
    virtual ~archive() = default;
    virtual std::errc write(int op, const values & v) = 0;
    virtual std::size_t position() = 0;
    virtual void set(std::size_t p, bool reset) = 0;
    virtual std::pair<std::size_t, std::size_t> parts() = 0;
};
template <typename O>
struct archive_of : archive
{
    template <typename B, typename... X>
    explicit archive_of(B & b, X... x) : out(b, std::forward<X>(x)...)
    {
    }
    std::errc write(int op, const values & v) override { return ::write(out, op, v); }
    std::size_t position() override { return std::as_const(out).position(); }
    void set(std::size_t p, bool reset) override
    {
        if (reset) {
            p ? out.reset(p) : out.reset();
        } else {
            out.position() = p;
        }
    }
    std::pair<std::size_t, std::size_t> parts() override
    {
        return {out.processed_data().size(), out.remaining_data().size()};
    }
    O out;
};
template <typename B, typename... X>
std::unique_ptr<archive> make(B & b, X... x)
{
    return std::unique_ptr<archive>(new archive_of<zb::out<B, X...>>(b, std::move(x)...));
}

enum start
{
    plain, append_, reserve_, resize_small, resize_large, append_resize, resize_append, starts,
};

template <typename B, typename... X>
std::unique_ptr<archive> create(B & b, int how)
{
    switch (how) {
    case plain: return make<B, X...>(b, X{}...);
    case append_: return make<B, X..., zb::append>(b, X{}..., zb::append{});
    case reserve_: return make<B, zb::reserve, X...>(b, zb::reserve{50}, X{}...);
    case resize_small: return make<B, X..., zb::resize>(b, X{}..., zb::resize{4});
    case resize_large: return make<B, X..., zb::resize>(b, X{}..., zb::resize{21});
    case append_resize: return make<B, X..., zb::append, zb::resize>(b, X{}..., zb::append{}, zb::resize{6});
    default: return make<B, X..., zb::resize, zb::append>(b, X{}..., zb::resize{6}, zb::append{});
    }
}

template <typename B>
bytes_t snapshot(const B & b)
{
    bytes_t r(b.size());
    if (!r.empty()) {
        std::memcpy(r.data(), b.data(), b.size());
    }
    return r;
}

const char * const op_names[] = {"u8", "u32", "string", "varint", "bitset", "struct", "vector", "long string",
                                 "u8,u16,string", "nothing", "u16,null,u32", "message", "big message,u8", "packed array", "()",
                                 "optional", "map"};

template <typename B, bool Fit, typename... X>
void history(config c, std::size_t initial)
{
    values v;
    B buf;
    for (std::size_t i = 0; i < initial; ++i) {
        buf.push_back(typename B::value_type(0x30 + i));
    }
    bytes_t model = snapshot(buf);
    std::size_t pos = 0;
    int depth = mc::thorough() ? 5 : 4;
    auto a = create<B, X...>(buf, plain);
    for (int d = 0; d < depth; ++d) {
        mc::visit(mc::hash_bytes(model.data(), model.size(), pos), depth - d);
        // Operations: writes, positions, re-creations, outside changes.
        static const int small[] = {w_u8, w_u32, w_str, w_var, w_bits, w_agg, w_vec, w_long, w_two, w_none, w_null,
                                    w_msg, w_bigmsg, w_packed, w_opt, w_map};
        constexpr std::size_t n_writes = std::size(small);
        constexpr std::size_t n_pos = 5;
        auto k = mc::choose(n_writes + n_pos + starts + 2, "");
        if (k < n_writes) {
            int op = small[k];
            auto e = expected(op, v, c);
            mc::note([&] { return std::string("write ") + op_names[op] + " at " + std::to_string(pos); });
            auto before = model;
            auto r = a->write(op, v);
            mc::step();
            mc::case_done();
            mc::require(r == (op == w_null ? std::errc::invalid_argument : std::errc{}), "verdict",
                        [&] { return std::string("writing ") + op_names[op] + " gave " + show(r); });
            auto end = pos + e.size();
            if (model.size() < end) {
                model.resize(end);
            }
            std::copy(e.begin(), e.end(), model.begin() + std::ptrdiff_t(pos));
            pos = end;
            auto now = snapshot(buf);
            mc::require(Fit ? now.size() == model.size() : now.size() >= model.size(), "size", [&] {
                return mc::format("after writing %s the buffer has %zu bytes instead of %zu", op_names[op], now.size(),
                                  model.size());
            });
            for (std::size_t i = 0; i < model.size(); ++i) {
                mc::require(now[i] == model[i], "content", [&] {
                    return std::string("after writing ") + op_names[op] + mc::format(" ending at %zu", pos) +
                           " the buffer is " + show(now) + ", expected " + show(model) + ", before " + show(before);
                });
            }
            model = now; // spare bytes, if any, are what they are
        } else if (k < n_writes + n_pos) {
            std::size_t q[] = {0, 1, model.size() / 2, model.size(), model.size() - (model.size() ? 1 : 0)};
            pos = std::min(q[k - n_writes], model.size());
            a->set(pos, k % 2);
            mc::note([&] { return "position " + std::to_string(pos); });
        } else if (k < n_writes + n_pos + starts) {
            int how = int(k - n_writes - n_pos);
            a.reset();
            a = create<B, X...>(buf, how);
            mc::step();
            switch (how) {
            case plain:
            case reserve_: pos = 0; break;
            case append_: pos = model.size(); break;
            case resize_small: model.resize(4); pos = 0; break;
            case resize_large: model.resize(21); pos = 0; break;
            case append_resize: pos = std::min<std::size_t>(model.size(), 6); model.resize(6); break;
            default: model.resize(6); pos = 6; break;
            }
            mc::note([&] { return "create " + std::to_string(how); });
            mc::require(snapshot(buf) == model, "options", [&] {
                return mc::format("creation %d made the buffer %s, expected %s", how, show(snapshot(buf)).c_str(),
                                  show(model).c_str());
            });
        } else if (k == n_writes + n_pos + starts) {
            // The caller empties the buffer and uses it again.
            buf.clear();
            model.clear();
            a = create<B, X...>(buf, plain);
            pos = 0;
        } else {
            // The caller adds to the buffer, the archive goes on after it.
            buf.push_back(typename B::value_type(0x77));
            model.push_back(std::byte{0x77});
            a = create<B, X...>(buf, append_);
            pos = model.size();
        }
        mc::require(a->position() == pos, "position", [&] {
            return mc::format("position %zu, expected %zu", a->position(), pos);
        });
        auto [done, left] = a->parts();
        mc::require(done == pos && left == buf.size() - pos, "parts", [&] {
            return mc::format("processed %zu and remaining %zu of %zu at %zu", done, left, buf.size(), pos);
        });
        mc::outcome(mc::hash_bytes(model.data(), model.size()));
    }
}

using vb = std::vector<std::byte>;
constexpr config native{};
constexpr config big{true};
constexpr config varint_size{false, prefix::varint};
constexpr config big_varint{true, prefix::varint};

template <typename B, bool Fit, typename... X>
void add(const char * name, config c)
{
    for (std::size_t initial : {0, 5}) {
        mc::add(std::string("!") + name + (initial ? ", 5 bytes" : ", empty"),
                [=] { history<B, Fit, X...>(c, initial); });
    }
}

bool added = [] {
#if PART == 0
    add<vb, true>("default", native);
    add<vb, true, zb::endian::big, zb::size_varint>("big,size_varint", big_varint);
#elif PART == 1
    add<vb, true, zb::exact_enlarger>("exact", native);
    add<vb, true, zb::enlarger<2>>("enlarger<2>", native);
#elif PART == 2
    add<vb, false, zb::no_fit_size>("no_fit_size", native);
    add<vb, false, zb::no_fit_size, zb::exact_enlarger>("no_fit_size,exact", native);
#elif PART == 3
    add<vb, false, zb::size_varint, zb::no_fit_size, zb::enlarger<2>>("size_varint,no_fit_size,enlarger<2>", varint_size);
    add<vb, true, zb::enlarger<5, 4>, zb::no_enlarge_overflow, zb::alloc_limit<100000>>(
        "enlarger<5,4>,no_enlarge_overflow,alloc_limit", native);
#elif PART == 4
    add<std::string, true, zb::size_varint>("string,size_varint", varint_size);
    add<std::vector<unsigned char>, true, zb::endian::big>("vector<unsigned char>,big", big);
#else
    add<std::vector<char>, true, zb::exact_enlarger, zb::size_varint>("vector<char>,exact,size_varint", varint_size);
    add<std::vector<char>, false, zb::no_fit_size, zb::enlarger<3, 2>>("vector<char>,no_fit_size,enlarger<3,2>", native);
#endif
    return true;
}();
} // namespace
