"""What each check is built from."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def generic(macro, *defs, more=()):
    others = more

    def variants(tier):
        more = ["-DMC_MORE_CONFIGS"] if tier == "thorough" else []
        tus = [("generic.cpp", ["-DGROUP=%d" % g, "-DCHECK_" + macro] + list(defs) + more)
               for g in (7, 3, 6, 2, 4, 9, 11, 10, 0, 1, 5, 8)] + list(others)
        r = [{"name": "clang", "tus": tus}]
        if tier == "thorough":
            r.append({"name": "gcc", "tus": tus, "compiler": "gcc"})
        return r
    return {"variants": variants}


CHECKS = {
    "C01": generic("C01"),
    "C02": generic("C02", "-DNEED_READ=0"),
    "C03": generic("C03", "-DNEED_WRITE=0"),
    "C04": generic("C04", "-DNEED_WRITE=0"),
    "C05": generic("C05", "-DNEED_WRITE=0", "-DNEED_READ=0", "-DNEED_FIXED=1",
                   more=[("c18.cpp", ["-DCHECK_C05", "-DPART=%d" % i]) for i in (5, 3, 1, 0)]),
    "C11": generic("C11", "-DNEED_WRITE=0"),
}


def own(*sources, quick_defs=(), thorough_defs=(), gcc=True, level="model_checking", **kw):
    def variants(tier):
        tus = [s if isinstance(s, tuple) else (s, []) for s in sources]
        d = list(quick_defs if tier == "quick" else thorough_defs)
        tus = [(s, list(x) + d) for s, x in tus]
        r = [dict(kw, name="clang", tus=tus)]
        if tier == "thorough" and gcc:
            r.append(dict(kw, name="gcc", tus=tus, compiler="gcc"))
        return r
    return {"variants": variants, "level": level}


CHECKS["C06"] = own(*[("c06.cpp", ["-DPART=%d" % i]) for i in range(6)])
CHECKS["C24"] = own(*[("c24.cpp", ["-DPART=%d" % i]) for i in range(4)])
CHECKS["C08"] = own(*[("c08.cpp", ["-DPART=%d" % i]) for i in range(5)], opt="-O0")
CHECKS["C07"] = own(*[("c07.cpp", ["-DPART=%d" % i]) for i in (1, 2, 0, 3, 4, 5, 6)])


def c09(tier):
    tus = [("c09.cpp", ["-DPART=%d" % i]) for i in range(6)]
    r = []
    for inline in (0, 1):
        for cc in (("clang", "gcc") if tier == "thorough" else ("clang",)):
            r.append({"name": "%s-inline-decode-%d" % (cc, inline), "tus": tus, "compiler": cc,
                      "defs": ["-DZPP_BITS_INLINE_MODE=0", "-DZPP_BITS_INLINE_DECODE_VARINT=%d" % inline]})
    return r


CHECKS["C09"] = {"variants": c09}
CHECKS["C10"] = own(*[("c10.cpp", ["-DPART=%d" % i]) for i in (1, 6, 3, 0, 4, 5, 2)],
                    thorough_defs=["-DMC_THOROUGH_BUILD"])
CHECKS["C18"] = own(*[("c18.cpp", ["-DPART=%d" % i]) for i in (6, 5, 4, 3, 2, 1, 0)])
CHECKS["C19"] = own(*[("c19.cpp", ["-DPART=%d" % i]) for i in (6, 5, 4, 3, 2, 1, 0)])
CHECKS["C20"] = own(*[("c20.cpp", ["-DPART=%d" % i]) for i in (6, 5, 4, 3, 2, 1, 0)])
CHECKS["C22"] = own(*[("c22.cpp", ["-DPART=%d" % i]) for i in range(8)],
                    quick_defs=["-DMC_THOROUGH_BUILD=0"], thorough_defs=["-DMC_THOROUGH_BUILD=1"], opt="-O0")
CHECKS["C23"] = own(*[("c23.cpp", ["-DPART=%d" % i]) for i in (4, 9, 11, 0, 1, 2, 3, 5, 6, 7, 8, 10)])
CHECKS["C12"] = own(*[("c12.cpp", ["-DPART=%d" % i]) for i in (1, 2, 3, 0, 5, 6, 4, 7, 8)], opt="-O0")
CHECKS["C15"] = own(*[("c15.cpp", ["-DPART=%d" % i]) for i in (2, 6, 5, 3, 1, 4, 0)], opt="-O0")
CHECKS["C16"] = own(*[("c16.cpp", ["-DPART=%d" % i]) for i in range(10)])
CHECKS["C17"] = own(*[("c17.cpp", ["-DPART=%d" % i]) for i in range(6)])
CHECKS["C27"] = own("c27.cpp", opt="-O0")


def c21(tier):
    tus = [("c21.cpp", ["-DPART=%d" % i]) for i in range(6)]
    tus += [("generic.cpp", ["-DGROUP=%d" % g, "-DCHECK_C21", "-DNEED_WRITE=0", "-DNEED_READ=0"])
            for g in (7, 3, 6, 2, 4, 9, 11, 10, 5)]
    r = [{"name": "clang", "tus": tus}]
    if tier == "thorough":
        r.append({"name": "gcc", "tus": tus, "compiler": "gcc"})
    return r


CHECKS["C21"] = {"variants": c21, "level": "fault_enumeration"}
CHECKS["C13"] = own(*[("c13.cpp", ["-DPART=%d" % i]) for i in range(17)], opt="-O0",
                     sanitize=["-fsanitize=address", "-fno-sanitize-recover=all"])


def c14(tier):
    tus = [("c14.cpp", ["-DPART=%d" % i]) for i in (9, 8, 7, 6, 14, 5, 4, 3, 10, 2, 1, 11, 12, 0, 13)]
    r = [{"name": "clang", "tus": tus, "opt": "-O0", "sanitize": []},
         {"name": "gcc", "tus": tus, "compiler": "gcc", "opt": "-O0", "sanitize": []}]
    if tier == "thorough":
        r.append({"name": "clang-O2", "tus": tus, "opt": "-O2", "sanitize": []})
        r.append({"name": "gcc-O2", "tus": tus, "compiler": "gcc", "opt": "-O2", "sanitize": []})
        r.append({"name": "clang-checked", "tus": tus, "opt": "-O0"})
    return r


CHECKS["C14"] = {"variants": c14}
CHECKS["C25"] = own(*[("c25.cpp", ["-DPART=%d" % i]) for i in range(18)], opt="-O0")


def c26(tier):
    r = [{"name": "clang", "tus": [("c26.cpp", [])], "opt": "-O0"},
         {"name": "threads", "tus": [("c26.cpp", ["-DRACES"])], "sanitize": ["-fsanitize=thread"]}]
    if tier == "thorough":
        r.append({"name": "gcc", "tus": [("c26.cpp", [])], "compiler": "gcc"})
    return r


CHECKS["C26"] = {"variants": c26}
CHECKS["C29"] = own(*[("c29.cpp", ["-DPART=%d" % i]) for i in range(15)], opt="-O0", sanitize=[])


def c28(tier):
    clang, gcc = ["clang++-18"], ["g++"]
    cxx = "-stdlib=libc++"
    configs = [
        (clang, [cxx, "-O0", "-DZPP_BITS_INLINE_MODE=0"]),
        (clang, [cxx, "-O2"]),
        (clang, [cxx, "-O1", "-fno-exceptions", "-fno-rtti", "-DZPP_BITS_INLINE_DECODE_VARINT=1", "-funsigned-char"]),
        (gcc, ["-O0"]),
        (gcc, ["-O2", "-fno-exceptions", "-std=c++23"]),
        (clang, ["-stdlib=libstdc++", "-O1", "-std=c++2b", "-D_GLIBCXX_ASSERTIONS"]),
    ]
    if tier == "thorough":
        configs += [
            (gcc, ["-O3", "-DZPP_BITS_INLINE_DECODE_VARINT=1", "-funsigned-char", "-fno-exceptions"]),
            (clang, [cxx, "-Os", "-std=c++2b", "-DNDEBUG"]),
            (gcc, ["-Os", "-D_GLIBCXX_ASSERTIONS", "-DZPP_BITS_INLINE_MODE=0"]),
            (clang, [cxx, "-O3", "-fwrapv", "-fno-strict-aliasing"]),
        ]
    tus = []
    for part in (2, 1, 0, 3):
        for i, (compiler, flags) in sorted(enumerate(configs), key=lambda c: "-O0" in c[1][1]):
            tus.append(("c28.cpp", flags + ["-DCONFIG=%d%d" % (i, part), "-DPART=%d" % part, "-Dzpp=zpp_%d" % i, "-DRECORD_LIMIT=1500000"],
                        compiler + ["-std=c++20"]))
    tus.append(("c28.cpp", ["-DCONFIGURATIONS=\"c28_%s.inc\"" % tier]))
    return [{"name": "all", "tus": tus, "sanitize": [], "opt": "-O0", "defs": [], "libs": ["-Wl,-lstdc++"]}]


CHECKS["C28"] = {"variants": c28}


def c30(tier):
    r = []
    for cc in (("clang", "gcc") if tier == "thorough" else ("clang",)):
        for mode, more in (("eager", []), ("lazy", ["-DTHROWING_LAZY"])):
            r.append({"name": cc + "-" + mode, "compiler": cc, "opt": "-O0",
                      "tus": [("c30.cpp", ["-DPART=%d" % i, "-I%s/throwing" % HERE] + more) for i in (1, 2, 3, 0)]})
    return r


CHECKS["C30"] = {"variants": c30}
