#include "c28_quick.inc"
CONFIGURATION(6, "gcc, libstdc++, -O3, no exceptions, inline varints, unsigned char")
CONFIGURATION(7, "clang, libc++, -Os, C++23, NDEBUG")
CONFIGURATION(8, "gcc, libstdc++, -Os, checked containers")
CONFIGURATION(9, "clang, libc++, -O3, wrapping, no strict aliasing")
