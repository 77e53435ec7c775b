#!/usr/bin/env python3
"""Writes mc/c13_gen.hpp: classes with 0 to 50 members in every style."""
import pathlib
out = ["// Written by tools/gen_c13.py.", "#ifndef C13_GEN_HPP", "#define C13_GEN_HPP", "",
       '#include "kit.hpp"', "", "namespace c13", "{",
       "// A class with N members of the types P::template at<0>, ..., by style.",
       "template <int Style, int N, typename P>", "struct shape;", ""]
for n in range(51):
    m = " ".join("typename P::template at<%d> m%d{};" % (i, i) for i in range(n))
    each = "f(%s)" % ", ".join("x.m%d" % i for i in range(n))
    # 0: nothing but members, counted by the library.
    out.append("template <typename P> struct implicit%d { %s };" % (n, m))
    # 1: a class with private members which tells their number.
    out.append("template <typename P> class closed%d { public: using serialize = zpp::bits::members<%d>; "
               "closed%d() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; %s };" % (n, n, n, m))
    # 2: the number told by a function.
    out.append("template <typename P> struct told%d { told%d() {} %s }; "
               "template <typename P> auto serialize(const told%d<P> &) -> zpp::bits::members<%d>;" % (n, n, m, n, n))
    # 3: a protobuf message.
    out.append("template <typename P> struct message%d { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; %s };" % (n, m))
    # 4: a protobuf message which tells the number of its members.
    out.append("template <typename P> struct counted%d { counted%d() {} using serialize = zpp::bits::pb_members<%d>; %s };" % (n, n, n, m))
    for s, name in enumerate(("implicit", "closed", "told", "message", "counted")):
        out.append("template <typename P> struct shape<%d, %d, P> { using type = %s%d<P>; "
                   "static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return %s; } };" % (s, n, name, n, each))
    out.append("")
out += ["template <int Style, int N, typename P>",
        "struct fields",
        "{",
        "    static auto get(typename shape<Style, N, P>::type & x)",
        "    {",
        "        return shape<Style, N, P>::all(x, [](auto &... m) { return std::tie(m...); });",
        "    }",
        "};",
        "} // namespace c13", "", "namespace model", "{"]
for n in range(51):
    for s, name in enumerate(("implicit", "closed", "told", "message", "counted")):
        out.append("template <typename P> struct Fields<c13::%s%d<P>> : c13::fields<%d, %d, P> {};" % (name, n, s, n))
out += ["} // namespace model", "", "#endif", ""]
pathlib.Path(__file__).resolve().parent.parent.joinpath("mc/c13_gen.hpp").write_text("\n".join(out))
