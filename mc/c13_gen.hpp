// Written by tools/gen_c13.py.
#ifndef C13_GEN_HPP
#define C13_GEN_HPP

#include "kit.hpp"

namespace c13
{
// A class with N members of the types P::template at<0>, ..., by style.
template <int Style, int N, typename P>
struct shape;

template <typename P> struct implicit0 {  };
template <typename P> class closed0 { public: using serialize = zpp::bits::members<0>; closed0() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape;  };
template <typename P> struct told0 { told0() {}  }; template <typename P> auto serialize(const told0<P> &) -> zpp::bits::members<0>;
template <typename P> struct message0 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>;  };
template <typename P> struct counted0 { counted0() {} using serialize = zpp::bits::pb_members<0>;  };
template <typename P> struct shape<0, 0, P> { using type = implicit0<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(); } };
template <typename P> struct shape<1, 0, P> { using type = closed0<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(); } };
template <typename P> struct shape<2, 0, P> { using type = told0<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(); } };
template <typename P> struct shape<3, 0, P> { using type = message0<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(); } };
template <typename P> struct shape<4, 0, P> { using type = counted0<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(); } };

template <typename P> struct implicit1 { typename P::template at<0> m0{}; };
template <typename P> class closed1 { public: using serialize = zpp::bits::members<1>; closed1() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; };
template <typename P> struct told1 { told1() {} typename P::template at<0> m0{}; }; template <typename P> auto serialize(const told1<P> &) -> zpp::bits::members<1>;
template <typename P> struct message1 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; };
template <typename P> struct counted1 { counted1() {} using serialize = zpp::bits::pb_members<1>; typename P::template at<0> m0{}; };
template <typename P> struct shape<0, 1, P> { using type = implicit1<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0); } };
template <typename P> struct shape<1, 1, P> { using type = closed1<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0); } };
template <typename P> struct shape<2, 1, P> { using type = told1<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0); } };
template <typename P> struct shape<3, 1, P> { using type = message1<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0); } };
template <typename P> struct shape<4, 1, P> { using type = counted1<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0); } };

template <typename P> struct implicit2 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; };
template <typename P> class closed2 { public: using serialize = zpp::bits::members<2>; closed2() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; };
template <typename P> struct told2 { told2() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; }; template <typename P> auto serialize(const told2<P> &) -> zpp::bits::members<2>;
template <typename P> struct message2 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; };
template <typename P> struct counted2 { counted2() {} using serialize = zpp::bits::pb_members<2>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; };
template <typename P> struct shape<0, 2, P> { using type = implicit2<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1); } };
template <typename P> struct shape<1, 2, P> { using type = closed2<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1); } };
template <typename P> struct shape<2, 2, P> { using type = told2<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1); } };
template <typename P> struct shape<3, 2, P> { using type = message2<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1); } };
template <typename P> struct shape<4, 2, P> { using type = counted2<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1); } };

template <typename P> struct implicit3 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; };
template <typename P> class closed3 { public: using serialize = zpp::bits::members<3>; closed3() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; };
template <typename P> struct told3 { told3() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; }; template <typename P> auto serialize(const told3<P> &) -> zpp::bits::members<3>;
template <typename P> struct message3 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; };
template <typename P> struct counted3 { counted3() {} using serialize = zpp::bits::pb_members<3>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; };
template <typename P> struct shape<0, 3, P> { using type = implicit3<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2); } };
template <typename P> struct shape<1, 3, P> { using type = closed3<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2); } };
template <typename P> struct shape<2, 3, P> { using type = told3<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2); } };
template <typename P> struct shape<3, 3, P> { using type = message3<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2); } };
template <typename P> struct shape<4, 3, P> { using type = counted3<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2); } };

template <typename P> struct implicit4 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; };
template <typename P> class closed4 { public: using serialize = zpp::bits::members<4>; closed4() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; };
template <typename P> struct told4 { told4() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; }; template <typename P> auto serialize(const told4<P> &) -> zpp::bits::members<4>;
template <typename P> struct message4 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; };
template <typename P> struct counted4 { counted4() {} using serialize = zpp::bits::pb_members<4>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; };
template <typename P> struct shape<0, 4, P> { using type = implicit4<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3); } };
template <typename P> struct shape<1, 4, P> { using type = closed4<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3); } };
template <typename P> struct shape<2, 4, P> { using type = told4<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3); } };
template <typename P> struct shape<3, 4, P> { using type = message4<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3); } };
template <typename P> struct shape<4, 4, P> { using type = counted4<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3); } };

template <typename P> struct implicit5 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; };
template <typename P> class closed5 { public: using serialize = zpp::bits::members<5>; closed5() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; };
template <typename P> struct told5 { told5() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; }; template <typename P> auto serialize(const told5<P> &) -> zpp::bits::members<5>;
template <typename P> struct message5 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; };
template <typename P> struct counted5 { counted5() {} using serialize = zpp::bits::pb_members<5>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; };
template <typename P> struct shape<0, 5, P> { using type = implicit5<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4); } };
template <typename P> struct shape<1, 5, P> { using type = closed5<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4); } };
template <typename P> struct shape<2, 5, P> { using type = told5<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4); } };
template <typename P> struct shape<3, 5, P> { using type = message5<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4); } };
template <typename P> struct shape<4, 5, P> { using type = counted5<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4); } };

template <typename P> struct implicit6 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; };
template <typename P> class closed6 { public: using serialize = zpp::bits::members<6>; closed6() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; };
template <typename P> struct told6 { told6() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; }; template <typename P> auto serialize(const told6<P> &) -> zpp::bits::members<6>;
template <typename P> struct message6 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; };
template <typename P> struct counted6 { counted6() {} using serialize = zpp::bits::pb_members<6>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; };
template <typename P> struct shape<0, 6, P> { using type = implicit6<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5); } };
template <typename P> struct shape<1, 6, P> { using type = closed6<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5); } };
template <typename P> struct shape<2, 6, P> { using type = told6<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5); } };
template <typename P> struct shape<3, 6, P> { using type = message6<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5); } };
template <typename P> struct shape<4, 6, P> { using type = counted6<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5); } };

template <typename P> struct implicit7 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; };
template <typename P> class closed7 { public: using serialize = zpp::bits::members<7>; closed7() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; };
template <typename P> struct told7 { told7() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; }; template <typename P> auto serialize(const told7<P> &) -> zpp::bits::members<7>;
template <typename P> struct message7 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; };
template <typename P> struct counted7 { counted7() {} using serialize = zpp::bits::pb_members<7>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; };
template <typename P> struct shape<0, 7, P> { using type = implicit7<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6); } };
template <typename P> struct shape<1, 7, P> { using type = closed7<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6); } };
template <typename P> struct shape<2, 7, P> { using type = told7<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6); } };
template <typename P> struct shape<3, 7, P> { using type = message7<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6); } };
template <typename P> struct shape<4, 7, P> { using type = counted7<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6); } };

template <typename P> struct implicit8 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; };
template <typename P> class closed8 { public: using serialize = zpp::bits::members<8>; closed8() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; };
template <typename P> struct told8 { told8() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; }; template <typename P> auto serialize(const told8<P> &) -> zpp::bits::members<8>;
template <typename P> struct message8 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; };
template <typename P> struct counted8 { counted8() {} using serialize = zpp::bits::pb_members<8>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; };
template <typename P> struct shape<0, 8, P> { using type = implicit8<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7); } };
template <typename P> struct shape<1, 8, P> { using type = closed8<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7); } };
template <typename P> struct shape<2, 8, P> { using type = told8<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7); } };
template <typename P> struct shape<3, 8, P> { using type = message8<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7); } };
template <typename P> struct shape<4, 8, P> { using type = counted8<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7); } };

template <typename P> struct implicit9 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; };
template <typename P> class closed9 { public: using serialize = zpp::bits::members<9>; closed9() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; };
template <typename P> struct told9 { told9() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; }; template <typename P> auto serialize(const told9<P> &) -> zpp::bits::members<9>;
template <typename P> struct message9 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; };
template <typename P> struct counted9 { counted9() {} using serialize = zpp::bits::pb_members<9>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; };
template <typename P> struct shape<0, 9, P> { using type = implicit9<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8); } };
template <typename P> struct shape<1, 9, P> { using type = closed9<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8); } };
template <typename P> struct shape<2, 9, P> { using type = told9<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8); } };
template <typename P> struct shape<3, 9, P> { using type = message9<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8); } };
template <typename P> struct shape<4, 9, P> { using type = counted9<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8); } };

template <typename P> struct implicit10 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; };
template <typename P> class closed10 { public: using serialize = zpp::bits::members<10>; closed10() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; };
template <typename P> struct told10 { told10() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; }; template <typename P> auto serialize(const told10<P> &) -> zpp::bits::members<10>;
template <typename P> struct message10 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; };
template <typename P> struct counted10 { counted10() {} using serialize = zpp::bits::pb_members<10>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; };
template <typename P> struct shape<0, 10, P> { using type = implicit10<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9); } };
template <typename P> struct shape<1, 10, P> { using type = closed10<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9); } };
template <typename P> struct shape<2, 10, P> { using type = told10<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9); } };
template <typename P> struct shape<3, 10, P> { using type = message10<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9); } };
template <typename P> struct shape<4, 10, P> { using type = counted10<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9); } };

template <typename P> struct implicit11 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; };
template <typename P> class closed11 { public: using serialize = zpp::bits::members<11>; closed11() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; };
template <typename P> struct told11 { told11() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; }; template <typename P> auto serialize(const told11<P> &) -> zpp::bits::members<11>;
template <typename P> struct message11 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; };
template <typename P> struct counted11 { counted11() {} using serialize = zpp::bits::pb_members<11>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; };
template <typename P> struct shape<0, 11, P> { using type = implicit11<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10); } };
template <typename P> struct shape<1, 11, P> { using type = closed11<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10); } };
template <typename P> struct shape<2, 11, P> { using type = told11<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10); } };
template <typename P> struct shape<3, 11, P> { using type = message11<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10); } };
template <typename P> struct shape<4, 11, P> { using type = counted11<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10); } };

template <typename P> struct implicit12 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; };
template <typename P> class closed12 { public: using serialize = zpp::bits::members<12>; closed12() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; };
template <typename P> struct told12 { told12() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; }; template <typename P> auto serialize(const told12<P> &) -> zpp::bits::members<12>;
template <typename P> struct message12 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; };
template <typename P> struct counted12 { counted12() {} using serialize = zpp::bits::pb_members<12>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; };
template <typename P> struct shape<0, 12, P> { using type = implicit12<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11); } };
template <typename P> struct shape<1, 12, P> { using type = closed12<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11); } };
template <typename P> struct shape<2, 12, P> { using type = told12<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11); } };
template <typename P> struct shape<3, 12, P> { using type = message12<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11); } };
template <typename P> struct shape<4, 12, P> { using type = counted12<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11); } };

template <typename P> struct implicit13 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; };
template <typename P> class closed13 { public: using serialize = zpp::bits::members<13>; closed13() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; };
template <typename P> struct told13 { told13() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; }; template <typename P> auto serialize(const told13<P> &) -> zpp::bits::members<13>;
template <typename P> struct message13 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; };
template <typename P> struct counted13 { counted13() {} using serialize = zpp::bits::pb_members<13>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; };
template <typename P> struct shape<0, 13, P> { using type = implicit13<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12); } };
template <typename P> struct shape<1, 13, P> { using type = closed13<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12); } };
template <typename P> struct shape<2, 13, P> { using type = told13<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12); } };
template <typename P> struct shape<3, 13, P> { using type = message13<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12); } };
template <typename P> struct shape<4, 13, P> { using type = counted13<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12); } };

template <typename P> struct implicit14 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; };
template <typename P> class closed14 { public: using serialize = zpp::bits::members<14>; closed14() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; };
template <typename P> struct told14 { told14() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; }; template <typename P> auto serialize(const told14<P> &) -> zpp::bits::members<14>;
template <typename P> struct message14 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; };
template <typename P> struct counted14 { counted14() {} using serialize = zpp::bits::pb_members<14>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; };
template <typename P> struct shape<0, 14, P> { using type = implicit14<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13); } };
template <typename P> struct shape<1, 14, P> { using type = closed14<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13); } };
template <typename P> struct shape<2, 14, P> { using type = told14<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13); } };
template <typename P> struct shape<3, 14, P> { using type = message14<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13); } };
template <typename P> struct shape<4, 14, P> { using type = counted14<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13); } };

template <typename P> struct implicit15 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; };
template <typename P> class closed15 { public: using serialize = zpp::bits::members<15>; closed15() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; };
template <typename P> struct told15 { told15() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; }; template <typename P> auto serialize(const told15<P> &) -> zpp::bits::members<15>;
template <typename P> struct message15 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; };
template <typename P> struct counted15 { counted15() {} using serialize = zpp::bits::pb_members<15>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; };
template <typename P> struct shape<0, 15, P> { using type = implicit15<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14); } };
template <typename P> struct shape<1, 15, P> { using type = closed15<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14); } };
template <typename P> struct shape<2, 15, P> { using type = told15<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14); } };
template <typename P> struct shape<3, 15, P> { using type = message15<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14); } };
template <typename P> struct shape<4, 15, P> { using type = counted15<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14); } };

template <typename P> struct implicit16 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; };
template <typename P> class closed16 { public: using serialize = zpp::bits::members<16>; closed16() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; };
template <typename P> struct told16 { told16() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; }; template <typename P> auto serialize(const told16<P> &) -> zpp::bits::members<16>;
template <typename P> struct message16 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; };
template <typename P> struct counted16 { counted16() {} using serialize = zpp::bits::pb_members<16>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; };
template <typename P> struct shape<0, 16, P> { using type = implicit16<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15); } };
template <typename P> struct shape<1, 16, P> { using type = closed16<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15); } };
template <typename P> struct shape<2, 16, P> { using type = told16<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15); } };
template <typename P> struct shape<3, 16, P> { using type = message16<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15); } };
template <typename P> struct shape<4, 16, P> { using type = counted16<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15); } };

template <typename P> struct implicit17 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; };
template <typename P> class closed17 { public: using serialize = zpp::bits::members<17>; closed17() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; };
template <typename P> struct told17 { told17() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; }; template <typename P> auto serialize(const told17<P> &) -> zpp::bits::members<17>;
template <typename P> struct message17 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; };
template <typename P> struct counted17 { counted17() {} using serialize = zpp::bits::pb_members<17>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; };
template <typename P> struct shape<0, 17, P> { using type = implicit17<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16); } };
template <typename P> struct shape<1, 17, P> { using type = closed17<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16); } };
template <typename P> struct shape<2, 17, P> { using type = told17<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16); } };
template <typename P> struct shape<3, 17, P> { using type = message17<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16); } };
template <typename P> struct shape<4, 17, P> { using type = counted17<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16); } };

template <typename P> struct implicit18 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; };
template <typename P> class closed18 { public: using serialize = zpp::bits::members<18>; closed18() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; };
template <typename P> struct told18 { told18() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; }; template <typename P> auto serialize(const told18<P> &) -> zpp::bits::members<18>;
template <typename P> struct message18 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; };
template <typename P> struct counted18 { counted18() {} using serialize = zpp::bits::pb_members<18>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; };
template <typename P> struct shape<0, 18, P> { using type = implicit18<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17); } };
template <typename P> struct shape<1, 18, P> { using type = closed18<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17); } };
template <typename P> struct shape<2, 18, P> { using type = told18<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17); } };
template <typename P> struct shape<3, 18, P> { using type = message18<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17); } };
template <typename P> struct shape<4, 18, P> { using type = counted18<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17); } };

template <typename P> struct implicit19 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; };
template <typename P> class closed19 { public: using serialize = zpp::bits::members<19>; closed19() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; };
template <typename P> struct told19 { told19() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; }; template <typename P> auto serialize(const told19<P> &) -> zpp::bits::members<19>;
template <typename P> struct message19 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; };
template <typename P> struct counted19 { counted19() {} using serialize = zpp::bits::pb_members<19>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; };
template <typename P> struct shape<0, 19, P> { using type = implicit19<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18); } };
template <typename P> struct shape<1, 19, P> { using type = closed19<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18); } };
template <typename P> struct shape<2, 19, P> { using type = told19<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18); } };
template <typename P> struct shape<3, 19, P> { using type = message19<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18); } };
template <typename P> struct shape<4, 19, P> { using type = counted19<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18); } };

template <typename P> struct implicit20 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; };
template <typename P> class closed20 { public: using serialize = zpp::bits::members<20>; closed20() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; };
template <typename P> struct told20 { told20() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; }; template <typename P> auto serialize(const told20<P> &) -> zpp::bits::members<20>;
template <typename P> struct message20 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; };
template <typename P> struct counted20 { counted20() {} using serialize = zpp::bits::pb_members<20>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; };
template <typename P> struct shape<0, 20, P> { using type = implicit20<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19); } };
template <typename P> struct shape<1, 20, P> { using type = closed20<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19); } };
template <typename P> struct shape<2, 20, P> { using type = told20<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19); } };
template <typename P> struct shape<3, 20, P> { using type = message20<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19); } };
template <typename P> struct shape<4, 20, P> { using type = counted20<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19); } };

template <typename P> struct implicit21 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; };
template <typename P> class closed21 { public: using serialize = zpp::bits::members<21>; closed21() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; };
template <typename P> struct told21 { told21() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; }; template <typename P> auto serialize(const told21<P> &) -> zpp::bits::members<21>;
template <typename P> struct message21 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; };
template <typename P> struct counted21 { counted21() {} using serialize = zpp::bits::pb_members<21>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; };
template <typename P> struct shape<0, 21, P> { using type = implicit21<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20); } };
template <typename P> struct shape<1, 21, P> { using type = closed21<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20); } };
template <typename P> struct shape<2, 21, P> { using type = told21<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20); } };
template <typename P> struct shape<3, 21, P> { using type = message21<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20); } };
template <typename P> struct shape<4, 21, P> { using type = counted21<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20); } };

template <typename P> struct implicit22 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; };
template <typename P> class closed22 { public: using serialize = zpp::bits::members<22>; closed22() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; };
template <typename P> struct told22 { told22() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; }; template <typename P> auto serialize(const told22<P> &) -> zpp::bits::members<22>;
template <typename P> struct message22 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; };
template <typename P> struct counted22 { counted22() {} using serialize = zpp::bits::pb_members<22>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; };
template <typename P> struct shape<0, 22, P> { using type = implicit22<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21); } };
template <typename P> struct shape<1, 22, P> { using type = closed22<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21); } };
template <typename P> struct shape<2, 22, P> { using type = told22<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21); } };
template <typename P> struct shape<3, 22, P> { using type = message22<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21); } };
template <typename P> struct shape<4, 22, P> { using type = counted22<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21); } };

template <typename P> struct implicit23 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; };
template <typename P> class closed23 { public: using serialize = zpp::bits::members<23>; closed23() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; };
template <typename P> struct told23 { told23() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; }; template <typename P> auto serialize(const told23<P> &) -> zpp::bits::members<23>;
template <typename P> struct message23 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; };
template <typename P> struct counted23 { counted23() {} using serialize = zpp::bits::pb_members<23>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; };
template <typename P> struct shape<0, 23, P> { using type = implicit23<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22); } };
template <typename P> struct shape<1, 23, P> { using type = closed23<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22); } };
template <typename P> struct shape<2, 23, P> { using type = told23<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22); } };
template <typename P> struct shape<3, 23, P> { using type = message23<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22); } };
template <typename P> struct shape<4, 23, P> { using type = counted23<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22); } };

template <typename P> struct implicit24 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; };
template <typename P> class closed24 { public: using serialize = zpp::bits::members<24>; closed24() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; };
template <typename P> struct told24 { told24() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; }; template <typename P> auto serialize(const told24<P> &) -> zpp::bits::members<24>;
template <typename P> struct message24 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; };
template <typename P> struct counted24 { counted24() {} using serialize = zpp::bits::pb_members<24>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; };
template <typename P> struct shape<0, 24, P> { using type = implicit24<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23); } };
template <typename P> struct shape<1, 24, P> { using type = closed24<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23); } };
template <typename P> struct shape<2, 24, P> { using type = told24<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23); } };
template <typename P> struct shape<3, 24, P> { using type = message24<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23); } };
template <typename P> struct shape<4, 24, P> { using type = counted24<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23); } };

template <typename P> struct implicit25 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; };
template <typename P> class closed25 { public: using serialize = zpp::bits::members<25>; closed25() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; };
template <typename P> struct told25 { told25() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; }; template <typename P> auto serialize(const told25<P> &) -> zpp::bits::members<25>;
template <typename P> struct message25 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; };
template <typename P> struct counted25 { counted25() {} using serialize = zpp::bits::pb_members<25>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; };
template <typename P> struct shape<0, 25, P> { using type = implicit25<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24); } };
template <typename P> struct shape<1, 25, P> { using type = closed25<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24); } };
template <typename P> struct shape<2, 25, P> { using type = told25<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24); } };
template <typename P> struct shape<3, 25, P> { using type = message25<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24); } };
template <typename P> struct shape<4, 25, P> { using type = counted25<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24); } };

template <typename P> struct implicit26 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; };
template <typename P> class closed26 { public: using serialize = zpp::bits::members<26>; closed26() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; };
template <typename P> struct told26 { told26() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; }; template <typename P> auto serialize(const told26<P> &) -> zpp::bits::members<26>;
template <typename P> struct message26 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; };
template <typename P> struct counted26 { counted26() {} using serialize = zpp::bits::pb_members<26>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; };
template <typename P> struct shape<0, 26, P> { using type = implicit26<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25); } };
template <typename P> struct shape<1, 26, P> { using type = closed26<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25); } };
template <typename P> struct shape<2, 26, P> { using type = told26<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25); } };
template <typename P> struct shape<3, 26, P> { using type = message26<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25); } };
template <typename P> struct shape<4, 26, P> { using type = counted26<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25); } };

template <typename P> struct implicit27 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; };
template <typename P> class closed27 { public: using serialize = zpp::bits::members<27>; closed27() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; };
template <typename P> struct told27 { told27() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; }; template <typename P> auto serialize(const told27<P> &) -> zpp::bits::members<27>;
template <typename P> struct message27 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; };
template <typename P> struct counted27 { counted27() {} using serialize = zpp::bits::pb_members<27>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; };
template <typename P> struct shape<0, 27, P> { using type = implicit27<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26); } };
template <typename P> struct shape<1, 27, P> { using type = closed27<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26); } };
template <typename P> struct shape<2, 27, P> { using type = told27<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26); } };
template <typename P> struct shape<3, 27, P> { using type = message27<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26); } };
template <typename P> struct shape<4, 27, P> { using type = counted27<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26); } };

template <typename P> struct implicit28 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; };
template <typename P> class closed28 { public: using serialize = zpp::bits::members<28>; closed28() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; };
template <typename P> struct told28 { told28() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; }; template <typename P> auto serialize(const told28<P> &) -> zpp::bits::members<28>;
template <typename P> struct message28 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; };
template <typename P> struct counted28 { counted28() {} using serialize = zpp::bits::pb_members<28>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; };
template <typename P> struct shape<0, 28, P> { using type = implicit28<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27); } };
template <typename P> struct shape<1, 28, P> { using type = closed28<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27); } };
template <typename P> struct shape<2, 28, P> { using type = told28<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27); } };
template <typename P> struct shape<3, 28, P> { using type = message28<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27); } };
template <typename P> struct shape<4, 28, P> { using type = counted28<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27); } };

template <typename P> struct implicit29 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; };
template <typename P> class closed29 { public: using serialize = zpp::bits::members<29>; closed29() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; };
template <typename P> struct told29 { told29() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; }; template <typename P> auto serialize(const told29<P> &) -> zpp::bits::members<29>;
template <typename P> struct message29 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; };
template <typename P> struct counted29 { counted29() {} using serialize = zpp::bits::pb_members<29>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; };
template <typename P> struct shape<0, 29, P> { using type = implicit29<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28); } };
template <typename P> struct shape<1, 29, P> { using type = closed29<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28); } };
template <typename P> struct shape<2, 29, P> { using type = told29<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28); } };
template <typename P> struct shape<3, 29, P> { using type = message29<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28); } };
template <typename P> struct shape<4, 29, P> { using type = counted29<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28); } };

template <typename P> struct implicit30 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; };
template <typename P> class closed30 { public: using serialize = zpp::bits::members<30>; closed30() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; };
template <typename P> struct told30 { told30() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; }; template <typename P> auto serialize(const told30<P> &) -> zpp::bits::members<30>;
template <typename P> struct message30 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; };
template <typename P> struct counted30 { counted30() {} using serialize = zpp::bits::pb_members<30>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; };
template <typename P> struct shape<0, 30, P> { using type = implicit30<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29); } };
template <typename P> struct shape<1, 30, P> { using type = closed30<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29); } };
template <typename P> struct shape<2, 30, P> { using type = told30<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29); } };
template <typename P> struct shape<3, 30, P> { using type = message30<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29); } };
template <typename P> struct shape<4, 30, P> { using type = counted30<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29); } };

template <typename P> struct implicit31 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; };
template <typename P> class closed31 { public: using serialize = zpp::bits::members<31>; closed31() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; };
template <typename P> struct told31 { told31() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; }; template <typename P> auto serialize(const told31<P> &) -> zpp::bits::members<31>;
template <typename P> struct message31 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; };
template <typename P> struct counted31 { counted31() {} using serialize = zpp::bits::pb_members<31>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; };
template <typename P> struct shape<0, 31, P> { using type = implicit31<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30); } };
template <typename P> struct shape<1, 31, P> { using type = closed31<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30); } };
template <typename P> struct shape<2, 31, P> { using type = told31<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30); } };
template <typename P> struct shape<3, 31, P> { using type = message31<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30); } };
template <typename P> struct shape<4, 31, P> { using type = counted31<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30); } };

template <typename P> struct implicit32 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; };
template <typename P> class closed32 { public: using serialize = zpp::bits::members<32>; closed32() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; };
template <typename P> struct told32 { told32() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; }; template <typename P> auto serialize(const told32<P> &) -> zpp::bits::members<32>;
template <typename P> struct message32 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; };
template <typename P> struct counted32 { counted32() {} using serialize = zpp::bits::pb_members<32>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; };
template <typename P> struct shape<0, 32, P> { using type = implicit32<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31); } };
template <typename P> struct shape<1, 32, P> { using type = closed32<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31); } };
template <typename P> struct shape<2, 32, P> { using type = told32<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31); } };
template <typename P> struct shape<3, 32, P> { using type = message32<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31); } };
template <typename P> struct shape<4, 32, P> { using type = counted32<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31); } };

template <typename P> struct implicit33 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; };
template <typename P> class closed33 { public: using serialize = zpp::bits::members<33>; closed33() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; };
template <typename P> struct told33 { told33() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; }; template <typename P> auto serialize(const told33<P> &) -> zpp::bits::members<33>;
template <typename P> struct message33 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; };
template <typename P> struct counted33 { counted33() {} using serialize = zpp::bits::pb_members<33>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; };
template <typename P> struct shape<0, 33, P> { using type = implicit33<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32); } };
template <typename P> struct shape<1, 33, P> { using type = closed33<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32); } };
template <typename P> struct shape<2, 33, P> { using type = told33<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32); } };
template <typename P> struct shape<3, 33, P> { using type = message33<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32); } };
template <typename P> struct shape<4, 33, P> { using type = counted33<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32); } };

template <typename P> struct implicit34 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; };
template <typename P> class closed34 { public: using serialize = zpp::bits::members<34>; closed34() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; };
template <typename P> struct told34 { told34() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; }; template <typename P> auto serialize(const told34<P> &) -> zpp::bits::members<34>;
template <typename P> struct message34 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; };
template <typename P> struct counted34 { counted34() {} using serialize = zpp::bits::pb_members<34>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; };
template <typename P> struct shape<0, 34, P> { using type = implicit34<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33); } };
template <typename P> struct shape<1, 34, P> { using type = closed34<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33); } };
template <typename P> struct shape<2, 34, P> { using type = told34<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33); } };
template <typename P> struct shape<3, 34, P> { using type = message34<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33); } };
template <typename P> struct shape<4, 34, P> { using type = counted34<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33); } };

template <typename P> struct implicit35 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; };
template <typename P> class closed35 { public: using serialize = zpp::bits::members<35>; closed35() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; };
template <typename P> struct told35 { told35() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; }; template <typename P> auto serialize(const told35<P> &) -> zpp::bits::members<35>;
template <typename P> struct message35 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; };
template <typename P> struct counted35 { counted35() {} using serialize = zpp::bits::pb_members<35>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; };
template <typename P> struct shape<0, 35, P> { using type = implicit35<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34); } };
template <typename P> struct shape<1, 35, P> { using type = closed35<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34); } };
template <typename P> struct shape<2, 35, P> { using type = told35<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34); } };
template <typename P> struct shape<3, 35, P> { using type = message35<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34); } };
template <typename P> struct shape<4, 35, P> { using type = counted35<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34); } };

template <typename P> struct implicit36 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; };
template <typename P> class closed36 { public: using serialize = zpp::bits::members<36>; closed36() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; };
template <typename P> struct told36 { told36() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; }; template <typename P> auto serialize(const told36<P> &) -> zpp::bits::members<36>;
template <typename P> struct message36 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; };
template <typename P> struct counted36 { counted36() {} using serialize = zpp::bits::pb_members<36>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; };
template <typename P> struct shape<0, 36, P> { using type = implicit36<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35); } };
template <typename P> struct shape<1, 36, P> { using type = closed36<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35); } };
template <typename P> struct shape<2, 36, P> { using type = told36<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35); } };
template <typename P> struct shape<3, 36, P> { using type = message36<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35); } };
template <typename P> struct shape<4, 36, P> { using type = counted36<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35); } };

template <typename P> struct implicit37 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; };
template <typename P> class closed37 { public: using serialize = zpp::bits::members<37>; closed37() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; };
template <typename P> struct told37 { told37() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; }; template <typename P> auto serialize(const told37<P> &) -> zpp::bits::members<37>;
template <typename P> struct message37 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; };
template <typename P> struct counted37 { counted37() {} using serialize = zpp::bits::pb_members<37>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; };
template <typename P> struct shape<0, 37, P> { using type = implicit37<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36); } };
template <typename P> struct shape<1, 37, P> { using type = closed37<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36); } };
template <typename P> struct shape<2, 37, P> { using type = told37<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36); } };
template <typename P> struct shape<3, 37, P> { using type = message37<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36); } };
template <typename P> struct shape<4, 37, P> { using type = counted37<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36); } };

template <typename P> struct implicit38 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; };
template <typename P> class closed38 { public: using serialize = zpp::bits::members<38>; closed38() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; };
template <typename P> struct told38 { told38() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; }; template <typename P> auto serialize(const told38<P> &) -> zpp::bits::members<38>;
template <typename P> struct message38 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; };
template <typename P> struct counted38 { counted38() {} using serialize = zpp::bits::pb_members<38>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; };
template <typename P> struct shape<0, 38, P> { using type = implicit38<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37); } };
template <typename P> struct shape<1, 38, P> { using type = closed38<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37); } };
template <typename P> struct shape<2, 38, P> { using type = told38<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37); } };
template <typename P> struct shape<3, 38, P> { using type = message38<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37); } };
template <typename P> struct shape<4, 38, P> { using type = counted38<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37); } };

template <typename P> struct implicit39 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; };
template <typename P> class closed39 { public: using serialize = zpp::bits::members<39>; closed39() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; };
template <typename P> struct told39 { told39() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; }; template <typename P> auto serialize(const told39<P> &) -> zpp::bits::members<39>;
template <typename P> struct message39 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; };
template <typename P> struct counted39 { counted39() {} using serialize = zpp::bits::pb_members<39>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; };
template <typename P> struct shape<0, 39, P> { using type = implicit39<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38); } };
template <typename P> struct shape<1, 39, P> { using type = closed39<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38); } };
template <typename P> struct shape<2, 39, P> { using type = told39<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38); } };
template <typename P> struct shape<3, 39, P> { using type = message39<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38); } };
template <typename P> struct shape<4, 39, P> { using type = counted39<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38); } };

template <typename P> struct implicit40 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; };
template <typename P> class closed40 { public: using serialize = zpp::bits::members<40>; closed40() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; };
template <typename P> struct told40 { told40() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; }; template <typename P> auto serialize(const told40<P> &) -> zpp::bits::members<40>;
template <typename P> struct message40 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; };
template <typename P> struct counted40 { counted40() {} using serialize = zpp::bits::pb_members<40>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; };
template <typename P> struct shape<0, 40, P> { using type = implicit40<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39); } };
template <typename P> struct shape<1, 40, P> { using type = closed40<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39); } };
template <typename P> struct shape<2, 40, P> { using type = told40<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39); } };
template <typename P> struct shape<3, 40, P> { using type = message40<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39); } };
template <typename P> struct shape<4, 40, P> { using type = counted40<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39); } };

template <typename P> struct implicit41 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; };
template <typename P> class closed41 { public: using serialize = zpp::bits::members<41>; closed41() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; };
template <typename P> struct told41 { told41() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; }; template <typename P> auto serialize(const told41<P> &) -> zpp::bits::members<41>;
template <typename P> struct message41 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; };
template <typename P> struct counted41 { counted41() {} using serialize = zpp::bits::pb_members<41>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; };
template <typename P> struct shape<0, 41, P> { using type = implicit41<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40); } };
template <typename P> struct shape<1, 41, P> { using type = closed41<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40); } };
template <typename P> struct shape<2, 41, P> { using type = told41<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40); } };
template <typename P> struct shape<3, 41, P> { using type = message41<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40); } };
template <typename P> struct shape<4, 41, P> { using type = counted41<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40); } };

template <typename P> struct implicit42 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; };
template <typename P> class closed42 { public: using serialize = zpp::bits::members<42>; closed42() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; };
template <typename P> struct told42 { told42() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; }; template <typename P> auto serialize(const told42<P> &) -> zpp::bits::members<42>;
template <typename P> struct message42 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; };
template <typename P> struct counted42 { counted42() {} using serialize = zpp::bits::pb_members<42>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; };
template <typename P> struct shape<0, 42, P> { using type = implicit42<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41); } };
template <typename P> struct shape<1, 42, P> { using type = closed42<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41); } };
template <typename P> struct shape<2, 42, P> { using type = told42<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41); } };
template <typename P> struct shape<3, 42, P> { using type = message42<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41); } };
template <typename P> struct shape<4, 42, P> { using type = counted42<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41); } };

template <typename P> struct implicit43 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; };
template <typename P> class closed43 { public: using serialize = zpp::bits::members<43>; closed43() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; };
template <typename P> struct told43 { told43() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; }; template <typename P> auto serialize(const told43<P> &) -> zpp::bits::members<43>;
template <typename P> struct message43 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; };
template <typename P> struct counted43 { counted43() {} using serialize = zpp::bits::pb_members<43>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; };
template <typename P> struct shape<0, 43, P> { using type = implicit43<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42); } };
template <typename P> struct shape<1, 43, P> { using type = closed43<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42); } };
template <typename P> struct shape<2, 43, P> { using type = told43<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42); } };
template <typename P> struct shape<3, 43, P> { using type = message43<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42); } };
template <typename P> struct shape<4, 43, P> { using type = counted43<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42); } };

template <typename P> struct implicit44 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; };
template <typename P> class closed44 { public: using serialize = zpp::bits::members<44>; closed44() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; };
template <typename P> struct told44 { told44() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; }; template <typename P> auto serialize(const told44<P> &) -> zpp::bits::members<44>;
template <typename P> struct message44 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; };
template <typename P> struct counted44 { counted44() {} using serialize = zpp::bits::pb_members<44>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; };
template <typename P> struct shape<0, 44, P> { using type = implicit44<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43); } };
template <typename P> struct shape<1, 44, P> { using type = closed44<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43); } };
template <typename P> struct shape<2, 44, P> { using type = told44<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43); } };
template <typename P> struct shape<3, 44, P> { using type = message44<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43); } };
template <typename P> struct shape<4, 44, P> { using type = counted44<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43); } };

template <typename P> struct implicit45 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; };
template <typename P> class closed45 { public: using serialize = zpp::bits::members<45>; closed45() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; };
template <typename P> struct told45 { told45() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; }; template <typename P> auto serialize(const told45<P> &) -> zpp::bits::members<45>;
template <typename P> struct message45 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; };
template <typename P> struct counted45 { counted45() {} using serialize = zpp::bits::pb_members<45>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; };
template <typename P> struct shape<0, 45, P> { using type = implicit45<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44); } };
template <typename P> struct shape<1, 45, P> { using type = closed45<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44); } };
template <typename P> struct shape<2, 45, P> { using type = told45<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44); } };
template <typename P> struct shape<3, 45, P> { using type = message45<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44); } };
template <typename P> struct shape<4, 45, P> { using type = counted45<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44); } };

template <typename P> struct implicit46 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; };
template <typename P> class closed46 { public: using serialize = zpp::bits::members<46>; closed46() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; };
template <typename P> struct told46 { told46() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; }; template <typename P> auto serialize(const told46<P> &) -> zpp::bits::members<46>;
template <typename P> struct message46 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; };
template <typename P> struct counted46 { counted46() {} using serialize = zpp::bits::pb_members<46>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; };
template <typename P> struct shape<0, 46, P> { using type = implicit46<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45); } };
template <typename P> struct shape<1, 46, P> { using type = closed46<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45); } };
template <typename P> struct shape<2, 46, P> { using type = told46<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45); } };
template <typename P> struct shape<3, 46, P> { using type = message46<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45); } };
template <typename P> struct shape<4, 46, P> { using type = counted46<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45); } };

template <typename P> struct implicit47 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; };
template <typename P> class closed47 { public: using serialize = zpp::bits::members<47>; closed47() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; };
template <typename P> struct told47 { told47() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; }; template <typename P> auto serialize(const told47<P> &) -> zpp::bits::members<47>;
template <typename P> struct message47 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; };
template <typename P> struct counted47 { counted47() {} using serialize = zpp::bits::pb_members<47>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; };
template <typename P> struct shape<0, 47, P> { using type = implicit47<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46); } };
template <typename P> struct shape<1, 47, P> { using type = closed47<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46); } };
template <typename P> struct shape<2, 47, P> { using type = told47<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46); } };
template <typename P> struct shape<3, 47, P> { using type = message47<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46); } };
template <typename P> struct shape<4, 47, P> { using type = counted47<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46); } };

template <typename P> struct implicit48 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; };
template <typename P> class closed48 { public: using serialize = zpp::bits::members<48>; closed48() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; };
template <typename P> struct told48 { told48() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; }; template <typename P> auto serialize(const told48<P> &) -> zpp::bits::members<48>;
template <typename P> struct message48 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; };
template <typename P> struct counted48 { counted48() {} using serialize = zpp::bits::pb_members<48>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; };
template <typename P> struct shape<0, 48, P> { using type = implicit48<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47); } };
template <typename P> struct shape<1, 48, P> { using type = closed48<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47); } };
template <typename P> struct shape<2, 48, P> { using type = told48<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47); } };
template <typename P> struct shape<3, 48, P> { using type = message48<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47); } };
template <typename P> struct shape<4, 48, P> { using type = counted48<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47); } };

template <typename P> struct implicit49 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; typename P::template at<48> m48{}; };
template <typename P> class closed49 { public: using serialize = zpp::bits::members<49>; closed49() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; typename P::template at<48> m48{}; };
template <typename P> struct told49 { told49() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; typename P::template at<48> m48{}; }; template <typename P> auto serialize(const told49<P> &) -> zpp::bits::members<49>;
template <typename P> struct message49 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; typename P::template at<48> m48{}; };
template <typename P> struct counted49 { counted49() {} using serialize = zpp::bits::pb_members<49>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; typename P::template at<48> m48{}; };
template <typename P> struct shape<0, 49, P> { using type = implicit49<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47, x.m48); } };
template <typename P> struct shape<1, 49, P> { using type = closed49<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47, x.m48); } };
template <typename P> struct shape<2, 49, P> { using type = told49<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47, x.m48); } };
template <typename P> struct shape<3, 49, P> { using type = message49<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47, x.m48); } };
template <typename P> struct shape<4, 49, P> { using type = counted49<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47, x.m48); } };

template <typename P> struct implicit50 { typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; typename P::template at<48> m48{}; typename P::template at<49> m49{}; };
template <typename P> class closed50 { public: using serialize = zpp::bits::members<50>; closed50() = default; private: friend zpp::bits::access; template <int, int, typename> friend struct shape; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; typename P::template at<48> m48{}; typename P::template at<49> m49{}; };
template <typename P> struct told50 { told50() {} typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; typename P::template at<48> m48{}; typename P::template at<49> m49{}; }; template <typename P> auto serialize(const told50<P> &) -> zpp::bits::members<50>;
template <typename P> struct message50 { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; typename P::template at<48> m48{}; typename P::template at<49> m49{}; };
template <typename P> struct counted50 { counted50() {} using serialize = zpp::bits::pb_members<50>; typename P::template at<0> m0{}; typename P::template at<1> m1{}; typename P::template at<2> m2{}; typename P::template at<3> m3{}; typename P::template at<4> m4{}; typename P::template at<5> m5{}; typename P::template at<6> m6{}; typename P::template at<7> m7{}; typename P::template at<8> m8{}; typename P::template at<9> m9{}; typename P::template at<10> m10{}; typename P::template at<11> m11{}; typename P::template at<12> m12{}; typename P::template at<13> m13{}; typename P::template at<14> m14{}; typename P::template at<15> m15{}; typename P::template at<16> m16{}; typename P::template at<17> m17{}; typename P::template at<18> m18{}; typename P::template at<19> m19{}; typename P::template at<20> m20{}; typename P::template at<21> m21{}; typename P::template at<22> m22{}; typename P::template at<23> m23{}; typename P::template at<24> m24{}; typename P::template at<25> m25{}; typename P::template at<26> m26{}; typename P::template at<27> m27{}; typename P::template at<28> m28{}; typename P::template at<29> m29{}; typename P::template at<30> m30{}; typename P::template at<31> m31{}; typename P::template at<32> m32{}; typename P::template at<33> m33{}; typename P::template at<34> m34{}; typename P::template at<35> m35{}; typename P::template at<36> m36{}; typename P::template at<37> m37{}; typename P::template at<38> m38{}; typename P::template at<39> m39{}; typename P::template at<40> m40{}; typename P::template at<41> m41{}; typename P::template at<42> m42{}; typename P::template at<43> m43{}; typename P::template at<44> m44{}; typename P::template at<45> m45{}; typename P::template at<46> m46{}; typename P::template at<47> m47{}; typename P::template at<48> m48{}; typename P::template at<49> m49{}; };
template <typename P> struct shape<0, 50, P> { using type = implicit50<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47, x.m48, x.m49); } };
template <typename P> struct shape<1, 50, P> { using type = closed50<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47, x.m48, x.m49); } };
template <typename P> struct shape<2, 50, P> { using type = told50<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47, x.m48, x.m49); } };
template <typename P> struct shape<3, 50, P> { using type = message50<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47, x.m48, x.m49); } };
template <typename P> struct shape<4, 50, P> { using type = counted50<P>; static decltype(auto) all([[maybe_unused]] auto && x, auto && f) { return f(x.m0, x.m1, x.m2, x.m3, x.m4, x.m5, x.m6, x.m7, x.m8, x.m9, x.m10, x.m11, x.m12, x.m13, x.m14, x.m15, x.m16, x.m17, x.m18, x.m19, x.m20, x.m21, x.m22, x.m23, x.m24, x.m25, x.m26, x.m27, x.m28, x.m29, x.m30, x.m31, x.m32, x.m33, x.m34, x.m35, x.m36, x.m37, x.m38, x.m39, x.m40, x.m41, x.m42, x.m43, x.m44, x.m45, x.m46, x.m47, x.m48, x.m49); } };

template <int Style, int N, typename P>
struct fields
{
    static auto get(typename shape<Style, N, P>::type & x)
    {
        return shape<Style, N, P>::all(x, [](auto &... m) { return std::tie(m...); });
    }
};
} // namespace c13

namespace model
{
template <typename P> struct Fields<c13::implicit0<P>> : c13::fields<0, 0, P> {};
template <typename P> struct Fields<c13::closed0<P>> : c13::fields<1, 0, P> {};
template <typename P> struct Fields<c13::told0<P>> : c13::fields<2, 0, P> {};
template <typename P> struct Fields<c13::message0<P>> : c13::fields<3, 0, P> {};
template <typename P> struct Fields<c13::counted0<P>> : c13::fields<4, 0, P> {};
template <typename P> struct Fields<c13::implicit1<P>> : c13::fields<0, 1, P> {};
template <typename P> struct Fields<c13::closed1<P>> : c13::fields<1, 1, P> {};
template <typename P> struct Fields<c13::told1<P>> : c13::fields<2, 1, P> {};
template <typename P> struct Fields<c13::message1<P>> : c13::fields<3, 1, P> {};
template <typename P> struct Fields<c13::counted1<P>> : c13::fields<4, 1, P> {};
template <typename P> struct Fields<c13::implicit2<P>> : c13::fields<0, 2, P> {};
template <typename P> struct Fields<c13::closed2<P>> : c13::fields<1, 2, P> {};
template <typename P> struct Fields<c13::told2<P>> : c13::fields<2, 2, P> {};
template <typename P> struct Fields<c13::message2<P>> : c13::fields<3, 2, P> {};
template <typename P> struct Fields<c13::counted2<P>> : c13::fields<4, 2, P> {};
template <typename P> struct Fields<c13::implicit3<P>> : c13::fields<0, 3, P> {};
template <typename P> struct Fields<c13::closed3<P>> : c13::fields<1, 3, P> {};
template <typename P> struct Fields<c13::told3<P>> : c13::fields<2, 3, P> {};
template <typename P> struct Fields<c13::message3<P>> : c13::fields<3, 3, P> {};
template <typename P> struct Fields<c13::counted3<P>> : c13::fields<4, 3, P> {};
template <typename P> struct Fields<c13::implicit4<P>> : c13::fields<0, 4, P> {};
template <typename P> struct Fields<c13::closed4<P>> : c13::fields<1, 4, P> {};
template <typename P> struct Fields<c13::told4<P>> : c13::fields<2, 4, P> {};
template <typename P> struct Fields<c13::message4<P>> : c13::fields<3, 4, P> {};
template <typename P> struct Fields<c13::counted4<P>> : c13::fields<4, 4, P> {};
template <typename P> struct Fields<c13::implicit5<P>> : c13::fields<0, 5, P> {};
template <typename P> struct Fields<c13::closed5<P>> : c13::fields<1, 5, P> {};
template <typename P> struct Fields<c13::told5<P>> : c13::fields<2, 5, P> {};
template <typename P> struct Fields<c13::message5<P>> : c13::fields<3, 5, P> {};
template <typename P> struct Fields<c13::counted5<P>> : c13::fields<4, 5, P> {};
template <typename P> struct Fields<c13::implicit6<P>> : c13::fields<0, 6, P> {};
template <typename P> struct Fields<c13::closed6<P>> : c13::fields<1, 6, P> {};
template <typename P> struct Fields<c13::told6<P>> : c13::fields<2, 6, P> {};
template <typename P> struct Fields<c13::message6<P>> : c13::fields<3, 6, P> {};
template <typename P> struct Fields<c13::counted6<P>> : c13::fields<4, 6, P> {};
template <typename P> struct Fields<c13::implicit7<P>> : c13::fields<0, 7, P> {};
template <typename P> struct Fields<c13::closed7<P>> : c13::fields<1, 7, P> {};
template <typename P> struct Fields<c13::told7<P>> : c13::fields<2, 7, P> {};
template <typename P> struct Fields<c13::message7<P>> : c13::fields<3, 7, P> {};
template <typename P> struct Fields<c13::counted7<P>> : c13::fields<4, 7, P> {};
template <typename P> struct Fields<c13::implicit8<P>> : c13::fields<0, 8, P> {};
template <typename P> struct Fields<c13::closed8<P>> : c13::fields<1, 8, P> {};
template <typename P> struct Fields<c13::told8<P>> : c13::fields<2, 8, P> {};
template <typename P> struct Fields<c13::message8<P>> : c13::fields<3, 8, P> {};
template <typename P> struct Fields<c13::counted8<P>> : c13::fields<4, 8, P> {};
template <typename P> struct Fields<c13::implicit9<P>> : c13::fields<0, 9, P> {};
template <typename P> struct Fields<c13::closed9<P>> : c13::fields<1, 9, P> {};
template <typename P> struct Fields<c13::told9<P>> : c13::fields<2, 9, P> {};
template <typename P> struct Fields<c13::message9<P>> : c13::fields<3, 9, P> {};
template <typename P> struct Fields<c13::counted9<P>> : c13::fields<4, 9, P> {};
template <typename P> struct Fields<c13::implicit10<P>> : c13::fields<0, 10, P> {};
template <typename P> struct Fields<c13::closed10<P>> : c13::fields<1, 10, P> {};
template <typename P> struct Fields<c13::told10<P>> : c13::fields<2, 10, P> {};
template <typename P> struct Fields<c13::message10<P>> : c13::fields<3, 10, P> {};
template <typename P> struct Fields<c13::counted10<P>> : c13::fields<4, 10, P> {};
template <typename P> struct Fields<c13::implicit11<P>> : c13::fields<0, 11, P> {};
template <typename P> struct Fields<c13::closed11<P>> : c13::fields<1, 11, P> {};
template <typename P> struct Fields<c13::told11<P>> : c13::fields<2, 11, P> {};
template <typename P> struct Fields<c13::message11<P>> : c13::fields<3, 11, P> {};
template <typename P> struct Fields<c13::counted11<P>> : c13::fields<4, 11, P> {};
template <typename P> struct Fields<c13::implicit12<P>> : c13::fields<0, 12, P> {};
template <typename P> struct Fields<c13::closed12<P>> : c13::fields<1, 12, P> {};
template <typename P> struct Fields<c13::told12<P>> : c13::fields<2, 12, P> {};
template <typename P> struct Fields<c13::message12<P>> : c13::fields<3, 12, P> {};
template <typename P> struct Fields<c13::counted12<P>> : c13::fields<4, 12, P> {};
template <typename P> struct Fields<c13::implicit13<P>> : c13::fields<0, 13, P> {};
template <typename P> struct Fields<c13::closed13<P>> : c13::fields<1, 13, P> {};
template <typename P> struct Fields<c13::told13<P>> : c13::fields<2, 13, P> {};
template <typename P> struct Fields<c13::message13<P>> : c13::fields<3, 13, P> {};
template <typename P> struct Fields<c13::counted13<P>> : c13::fields<4, 13, P> {};
template <typename P> struct Fields<c13::implicit14<P>> : c13::fields<0, 14, P> {};
template <typename P> struct Fields<c13::closed14<P>> : c13::fields<1, 14, P> {};
template <typename P> struct Fields<c13::told14<P>> : c13::fields<2, 14, P> {};
template <typename P> struct Fields<c13::message14<P>> : c13::fields<3, 14, P> {};
template <typename P> struct Fields<c13::counted14<P>> : c13::fields<4, 14, P> {};
template <typename P> struct Fields<c13::implicit15<P>> : c13::fields<0, 15, P> {};
template <typename P> struct Fields<c13::closed15<P>> : c13::fields<1, 15, P> {};
template <typename P> struct Fields<c13::told15<P>> : c13::fields<2, 15, P> {};
template <typename P> struct Fields<c13::message15<P>> : c13::fields<3, 15, P> {};
template <typename P> struct Fields<c13::counted15<P>> : c13::fields<4, 15, P> {};
template <typename P> struct Fields<c13::implicit16<P>> : c13::fields<0, 16, P> {};
template <typename P> struct Fields<c13::closed16<P>> : c13::fields<1, 16, P> {};
template <typename P> struct Fields<c13::told16<P>> : c13::fields<2, 16, P> {};
template <typename P> struct Fields<c13::message16<P>> : c13::fields<3, 16, P> {};
template <typename P> struct Fields<c13::counted16<P>> : c13::fields<4, 16, P> {};
template <typename P> struct Fields<c13::implicit17<P>> : c13::fields<0, 17, P> {};
template <typename P> struct Fields<c13::closed17<P>> : c13::fields<1, 17, P> {};
template <typename P> struct Fields<c13::told17<P>> : c13::fields<2, 17, P> {};
template <typename P> struct Fields<c13::message17<P>> : c13::fields<3, 17, P> {};
template <typename P> struct Fields<c13::counted17<P>> : c13::fields<4, 17, P> {};
template <typename P> struct Fields<c13::implicit18<P>> : c13::fields<0, 18, P> {};
template <typename P> struct Fields<c13::closed18<P>> : c13::fields<1, 18, P> {};
template <typename P> struct Fields<c13::told18<P>> : c13::fields<2, 18, P> {};
template <typename P> struct Fields<c13::message18<P>> : c13::fields<3, 18, P> {};
template <typename P> struct Fields<c13::counted18<P>> : c13::fields<4, 18, P> {};
template <typename P> struct Fields<c13::implicit19<P>> : c13::fields<0, 19, P> {};
template <typename P> struct Fields<c13::closed19<P>> : c13::fields<1, 19, P> {};
template <typename P> struct Fields<c13::told19<P>> : c13::fields<2, 19, P> {};
template <typename P> struct Fields<c13::message19<P>> : c13::fields<3, 19, P> {};
template <typename P> struct Fields<c13::counted19<P>> : c13::fields<4, 19, P> {};
template <typename P> struct Fields<c13::implicit20<P>> : c13::fields<0, 20, P> {};
template <typename P> struct Fields<c13::closed20<P>> : c13::fields<1, 20, P> {};
template <typename P> struct Fields<c13::told20<P>> : c13::fields<2, 20, P> {};
template <typename P> struct Fields<c13::message20<P>> : c13::fields<3, 20, P> {};
template <typename P> struct Fields<c13::counted20<P>> : c13::fields<4, 20, P> {};
template <typename P> struct Fields<c13::implicit21<P>> : c13::fields<0, 21, P> {};
template <typename P> struct Fields<c13::closed21<P>> : c13::fields<1, 21, P> {};
template <typename P> struct Fields<c13::told21<P>> : c13::fields<2, 21, P> {};
template <typename P> struct Fields<c13::message21<P>> : c13::fields<3, 21, P> {};
template <typename P> struct Fields<c13::counted21<P>> : c13::fields<4, 21, P> {};
template <typename P> struct Fields<c13::implicit22<P>> : c13::fields<0, 22, P> {};
template <typename P> struct Fields<c13::closed22<P>> : c13::fields<1, 22, P> {};
template <typename P> struct Fields<c13::told22<P>> : c13::fields<2, 22, P> {};
template <typename P> struct Fields<c13::message22<P>> : c13::fields<3, 22, P> {};
template <typename P> struct Fields<c13::counted22<P>> : c13::fields<4, 22, P> {};
template <typename P> struct Fields<c13::implicit23<P>> : c13::fields<0, 23, P> {};
template <typename P> struct Fields<c13::closed23<P>> : c13::fields<1, 23, P> {};
template <typename P> struct Fields<c13::told23<P>> : c13::fields<2, 23, P> {};
template <typename P> struct Fields<c13::message23<P>> : c13::fields<3, 23, P> {};
template <typename P> struct Fields<c13::counted23<P>> : c13::fields<4, 23, P> {};
template <typename P> struct Fields<c13::implicit24<P>> : c13::fields<0, 24, P> {};
template <typename P> struct Fields<c13::closed24<P>> : c13::fields<1, 24, P> {};
template <typename P> struct Fields<c13::told24<P>> : c13::fields<2, 24, P> {};
template <typename P> struct Fields<c13::message24<P>> : c13::fields<3, 24, P> {};
template <typename P> struct Fields<c13::counted24<P>> : c13::fields<4, 24, P> {};
template <typename P> struct Fields<c13::implicit25<P>> : c13::fields<0, 25, P> {};
template <typename P> struct Fields<c13::closed25<P>> : c13::fields<1, 25, P> {};
template <typename P> struct Fields<c13::told25<P>> : c13::fields<2, 25, P> {};
template <typename P> struct Fields<c13::message25<P>> : c13::fields<3, 25, P> {};
template <typename P> struct Fields<c13::counted25<P>> : c13::fields<4, 25, P> {};
template <typename P> struct Fields<c13::implicit26<P>> : c13::fields<0, 26, P> {};
template <typename P> struct Fields<c13::closed26<P>> : c13::fields<1, 26, P> {};
template <typename P> struct Fields<c13::told26<P>> : c13::fields<2, 26, P> {};
template <typename P> struct Fields<c13::message26<P>> : c13::fields<3, 26, P> {};
template <typename P> struct Fields<c13::counted26<P>> : c13::fields<4, 26, P> {};
template <typename P> struct Fields<c13::implicit27<P>> : c13::fields<0, 27, P> {};
template <typename P> struct Fields<c13::closed27<P>> : c13::fields<1, 27, P> {};
template <typename P> struct Fields<c13::told27<P>> : c13::fields<2, 27, P> {};
template <typename P> struct Fields<c13::message27<P>> : c13::fields<3, 27, P> {};
template <typename P> struct Fields<c13::counted27<P>> : c13::fields<4, 27, P> {};
template <typename P> struct Fields<c13::implicit28<P>> : c13::fields<0, 28, P> {};
template <typename P> struct Fields<c13::closed28<P>> : c13::fields<1, 28, P> {};
template <typename P> struct Fields<c13::told28<P>> : c13::fields<2, 28, P> {};
template <typename P> struct Fields<c13::message28<P>> : c13::fields<3, 28, P> {};
template <typename P> struct Fields<c13::counted28<P>> : c13::fields<4, 28, P> {};
template <typename P> struct Fields<c13::implicit29<P>> : c13::fields<0, 29, P> {};
template <typename P> struct Fields<c13::closed29<P>> : c13::fields<1, 29, P> {};
template <typename P> struct Fields<c13::told29<P>> : c13::fields<2, 29, P> {};
template <typename P> struct Fields<c13::message29<P>> : c13::fields<3, 29, P> {};
template <typename P> struct Fields<c13::counted29<P>> : c13::fields<4, 29, P> {};
template <typename P> struct Fields<c13::implicit30<P>> : c13::fields<0, 30, P> {};
template <typename P> struct Fields<c13::closed30<P>> : c13::fields<1, 30, P> {};
template <typename P> struct Fields<c13::told30<P>> : c13::fields<2, 30, P> {};
template <typename P> struct Fields<c13::message30<P>> : c13::fields<3, 30, P> {};
template <typename P> struct Fields<c13::counted30<P>> : c13::fields<4, 30, P> {};
template <typename P> struct Fields<c13::implicit31<P>> : c13::fields<0, 31, P> {};
template <typename P> struct Fields<c13::closed31<P>> : c13::fields<1, 31, P> {};
template <typename P> struct Fields<c13::told31<P>> : c13::fields<2, 31, P> {};
template <typename P> struct Fields<c13::message31<P>> : c13::fields<3, 31, P> {};
template <typename P> struct Fields<c13::counted31<P>> : c13::fields<4, 31, P> {};
template <typename P> struct Fields<c13::implicit32<P>> : c13::fields<0, 32, P> {};
template <typename P> struct Fields<c13::closed32<P>> : c13::fields<1, 32, P> {};
template <typename P> struct Fields<c13::told32<P>> : c13::fields<2, 32, P> {};
template <typename P> struct Fields<c13::message32<P>> : c13::fields<3, 32, P> {};
template <typename P> struct Fields<c13::counted32<P>> : c13::fields<4, 32, P> {};
template <typename P> struct Fields<c13::implicit33<P>> : c13::fields<0, 33, P> {};
template <typename P> struct Fields<c13::closed33<P>> : c13::fields<1, 33, P> {};
template <typename P> struct Fields<c13::told33<P>> : c13::fields<2, 33, P> {};
template <typename P> struct Fields<c13::message33<P>> : c13::fields<3, 33, P> {};
template <typename P> struct Fields<c13::counted33<P>> : c13::fields<4, 33, P> {};
template <typename P> struct Fields<c13::implicit34<P>> : c13::fields<0, 34, P> {};
template <typename P> struct Fields<c13::closed34<P>> : c13::fields<1, 34, P> {};
template <typename P> struct Fields<c13::told34<P>> : c13::fields<2, 34, P> {};
template <typename P> struct Fields<c13::message34<P>> : c13::fields<3, 34, P> {};
template <typename P> struct Fields<c13::counted34<P>> : c13::fields<4, 34, P> {};
template <typename P> struct Fields<c13::implicit35<P>> : c13::fields<0, 35, P> {};
template <typename P> struct Fields<c13::closed35<P>> : c13::fields<1, 35, P> {};
template <typename P> struct Fields<c13::told35<P>> : c13::fields<2, 35, P> {};
template <typename P> struct Fields<c13::message35<P>> : c13::fields<3, 35, P> {};
template <typename P> struct Fields<c13::counted35<P>> : c13::fields<4, 35, P> {};
template <typename P> struct Fields<c13::implicit36<P>> : c13::fields<0, 36, P> {};
template <typename P> struct Fields<c13::closed36<P>> : c13::fields<1, 36, P> {};
template <typename P> struct Fields<c13::told36<P>> : c13::fields<2, 36, P> {};
template <typename P> struct Fields<c13::message36<P>> : c13::fields<3, 36, P> {};
template <typename P> struct Fields<c13::counted36<P>> : c13::fields<4, 36, P> {};
template <typename P> struct Fields<c13::implicit37<P>> : c13::fields<0, 37, P> {};
template <typename P> struct Fields<c13::closed37<P>> : c13::fields<1, 37, P> {};
template <typename P> struct Fields<c13::told37<P>> : c13::fields<2, 37, P> {};
template <typename P> struct Fields<c13::message37<P>> : c13::fields<3, 37, P> {};
template <typename P> struct Fields<c13::counted37<P>> : c13::fields<4, 37, P> {};
template <typename P> struct Fields<c13::implicit38<P>> : c13::fields<0, 38, P> {};
template <typename P> struct Fields<c13::closed38<P>> : c13::fields<1, 38, P> {};
template <typename P> struct Fields<c13::told38<P>> : c13::fields<2, 38, P> {};
template <typename P> struct Fields<c13::message38<P>> : c13::fields<3, 38, P> {};
template <typename P> struct Fields<c13::counted38<P>> : c13::fields<4, 38, P> {};
template <typename P> struct Fields<c13::implicit39<P>> : c13::fields<0, 39, P> {};
template <typename P> struct Fields<c13::closed39<P>> : c13::fields<1, 39, P> {};
template <typename P> struct Fields<c13::told39<P>> : c13::fields<2, 39, P> {};
template <typename P> struct Fields<c13::message39<P>> : c13::fields<3, 39, P> {};
template <typename P> struct Fields<c13::counted39<P>> : c13::fields<4, 39, P> {};
template <typename P> struct Fields<c13::implicit40<P>> : c13::fields<0, 40, P> {};
template <typename P> struct Fields<c13::closed40<P>> : c13::fields<1, 40, P> {};
template <typename P> struct Fields<c13::told40<P>> : c13::fields<2, 40, P> {};
template <typename P> struct Fields<c13::message40<P>> : c13::fields<3, 40, P> {};
template <typename P> struct Fields<c13::counted40<P>> : c13::fields<4, 40, P> {};
template <typename P> struct Fields<c13::implicit41<P>> : c13::fields<0, 41, P> {};
template <typename P> struct Fields<c13::closed41<P>> : c13::fields<1, 41, P> {};
template <typename P> struct Fields<c13::told41<P>> : c13::fields<2, 41, P> {};
template <typename P> struct Fields<c13::message41<P>> : c13::fields<3, 41, P> {};
template <typename P> struct Fields<c13::counted41<P>> : c13::fields<4, 41, P> {};
template <typename P> struct Fields<c13::implicit42<P>> : c13::fields<0, 42, P> {};
template <typename P> struct Fields<c13::closed42<P>> : c13::fields<1, 42, P> {};
template <typename P> struct Fields<c13::told42<P>> : c13::fields<2, 42, P> {};
template <typename P> struct Fields<c13::message42<P>> : c13::fields<3, 42, P> {};
template <typename P> struct Fields<c13::counted42<P>> : c13::fields<4, 42, P> {};
template <typename P> struct Fields<c13::implicit43<P>> : c13::fields<0, 43, P> {};
template <typename P> struct Fields<c13::closed43<P>> : c13::fields<1, 43, P> {};
template <typename P> struct Fields<c13::told43<P>> : c13::fields<2, 43, P> {};
template <typename P> struct Fields<c13::message43<P>> : c13::fields<3, 43, P> {};
template <typename P> struct Fields<c13::counted43<P>> : c13::fields<4, 43, P> {};
template <typename P> struct Fields<c13::implicit44<P>> : c13::fields<0, 44, P> {};
template <typename P> struct Fields<c13::closed44<P>> : c13::fields<1, 44, P> {};
template <typename P> struct Fields<c13::told44<P>> : c13::fields<2, 44, P> {};
template <typename P> struct Fields<c13::message44<P>> : c13::fields<3, 44, P> {};
template <typename P> struct Fields<c13::counted44<P>> : c13::fields<4, 44, P> {};
template <typename P> struct Fields<c13::implicit45<P>> : c13::fields<0, 45, P> {};
template <typename P> struct Fields<c13::closed45<P>> : c13::fields<1, 45, P> {};
template <typename P> struct Fields<c13::told45<P>> : c13::fields<2, 45, P> {};
template <typename P> struct Fields<c13::message45<P>> : c13::fields<3, 45, P> {};
template <typename P> struct Fields<c13::counted45<P>> : c13::fields<4, 45, P> {};
template <typename P> struct Fields<c13::implicit46<P>> : c13::fields<0, 46, P> {};
template <typename P> struct Fields<c13::closed46<P>> : c13::fields<1, 46, P> {};
template <typename P> struct Fields<c13::told46<P>> : c13::fields<2, 46, P> {};
template <typename P> struct Fields<c13::message46<P>> : c13::fields<3, 46, P> {};
template <typename P> struct Fields<c13::counted46<P>> : c13::fields<4, 46, P> {};
template <typename P> struct Fields<c13::implicit47<P>> : c13::fields<0, 47, P> {};
template <typename P> struct Fields<c13::closed47<P>> : c13::fields<1, 47, P> {};
template <typename P> struct Fields<c13::told47<P>> : c13::fields<2, 47, P> {};
template <typename P> struct Fields<c13::message47<P>> : c13::fields<3, 47, P> {};
template <typename P> struct Fields<c13::counted47<P>> : c13::fields<4, 47, P> {};
template <typename P> struct Fields<c13::implicit48<P>> : c13::fields<0, 48, P> {};
template <typename P> struct Fields<c13::closed48<P>> : c13::fields<1, 48, P> {};
template <typename P> struct Fields<c13::told48<P>> : c13::fields<2, 48, P> {};
template <typename P> struct Fields<c13::message48<P>> : c13::fields<3, 48, P> {};
template <typename P> struct Fields<c13::counted48<P>> : c13::fields<4, 48, P> {};
template <typename P> struct Fields<c13::implicit49<P>> : c13::fields<0, 49, P> {};
template <typename P> struct Fields<c13::closed49<P>> : c13::fields<1, 49, P> {};
template <typename P> struct Fields<c13::told49<P>> : c13::fields<2, 49, P> {};
template <typename P> struct Fields<c13::message49<P>> : c13::fields<3, 49, P> {};
template <typename P> struct Fields<c13::counted49<P>> : c13::fields<4, 49, P> {};
template <typename P> struct Fields<c13::implicit50<P>> : c13::fields<0, 50, P> {};
template <typename P> struct Fields<c13::closed50<P>> : c13::fields<1, 50, P> {};
template <typename P> struct Fields<c13::told50<P>> : c13::fields<2, 50, P> {};
template <typename P> struct Fields<c13::message50<P>> : c13::fields<3, 50, P> {};
template <typename P> struct Fields<c13::counted50<P>> : c13::fields<4, 50, P> {};
} // namespace model

#endif
