CONFIGURATION(0, "clang, libc++, no optimization, no inlining")
CONFIGURATION(1, "clang, libc++, -O2, inlining")
CONFIGURATION(2, "clang, libc++, -O1, no exceptions, no type information, inline varints, unsigned char")
CONFIGURATION(3, "gcc, libstdc++, no optimization")
CONFIGURATION(4, "gcc, libstdc++, -O2, no exceptions, C++23")
CONFIGURATION(5, "clang, libstdc++, -O1, C++23, hardened")
