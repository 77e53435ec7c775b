#!/usr/bin/env python3
"""Small changes to zpp_bits.h, one at a time; keeps those which compile and pass the existing tests.

usage: mutate.py survive OUT FROM STEP [JOBS]   every STEP-th change from FROM on, survivors to OUT/*.diff
       mutate.py list                           the number of changes per operator
A tool for measuring the checks; none of them uses it.
"""
import os, re, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MC_REPO", "/repo")
OPS = [
    ("rel", r"(?<![<>=!\-])<(?![<=>a-zA-Z_.])(?= )", ["<="]),
    ("rel", r"(?<= )>(?![>=])(?= )", [">="]),
    ("rel", r"<=(?!>)", ["<"]),
    ("rel", r"(?<![=<>])>=", [">"]),
    ("rel", r"==", ["!="]),
    ("rel", r"!=", ["=="]),
    ("arith", r"(?<= )\+(?= )", ["-"]),
    ("arith", r"(?<= )-(?= )", ["+"]),
    ("arith", r"(?<= )\*(?= )(?!this)", ["+"]),
    ("arith", r"\+=", ["-=", "="]),
    ("arith", r"(?<= )/(?= )", ["*"]),
    ("shift", r"<<(?!=)", [">>"]),
    ("logic", r"&&(?= [a-z(!s])", ["||"]),
    ("logic", r"\|\|", ["&&"]),
    ("const", r"(?<![\w.])0(?![\w.])", ["1"]),
    ("const", r"(?<![\w.])1(?![\w.])", ["0", "2"]),
    ("const", r"0x7f", ["0x3f", "0xff"]),
    ("const", r"0x80", ["0x81", "0x100"]),
    ("const", r"\b7\b", ["6", "8"]),
    ("error", r"std::errc::result_out_of_range", ["std::errc::message_size"]),
    ("error", r"std::errc::message_size", ["std::errc::result_out_of_range"]),
    ("error", r"std::errc::protocol_error", ["std::errc::bad_message"]),
    ("error", r"std::errc::bad_message", ["std::errc::protocol_error"]),
    ("bool", r"\btrue\b", ["false"]),
    ("bool", r"\bfalse\b", ["true"]),
    ("stmt", r"^(\s+)((?:[a-z_.>\-*]+(?:\([^()]*(?:\([^()]*\))?[^()]*\))|[\w.]+ [+\-]?= [^;]*));$", [r"\1;"]),
    ("cond", r"if \((?!constexpr)", ["if (!"]),
    ("move", r"std::move\(", ["(", ]),
    ("sign", r"std::int(\d+)_t", [r"std::uint\1_t"]),
    ("sign", r"std::uint(\d+)_t", [r"std::int\1_t"]),
]


def original_lines():
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "zpp_bits.h"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    base = "5a485d9"
    anc = set(subprocess.run(["git", "-C", "/repo", "rev-list", base + "..HEAD"], stdout=subprocess.PIPE, text=True).stdout.split())
    return [not any(c.startswith(l.split(" ")[0].lstrip("^")) for c in anc) for l in out if l]


def changes():
    src = open(REPO + "/zpp_bits.h").read().split("\n")
    mine = original_lines()
    r = []
    for n, line in enumerate(src):
        if n < 640 or len(line) > 110 or n >= len(mine) or not mine[n]:
            continue
        t = line.strip()
        if t.startswith(("//", "#", "*", "template", "requires", "static_assert", "using", "concept", "friend")) or not t:
            continue
        for op, pat, reps in OPS:
            for m in re.finditer(pat, line):
                for rep in reps:
                    new = line[:m.start()] + m.expand(rep) + line[m.end():]
                    if new != line:
                        r.append((n, op, new))
    return src, r


def survives(src, n, new, jobs):
    t = tempfile.mkdtemp(prefix="mutant.")
    try:
        lines = list(src)
        lines[n] = new
        open(t + "/zpp_bits.h", "w").write("\n".join(lines))
        flags = ["clang++-18", "-std=c++20", "-stdlib=libc++", "-O0", "-w", "-fsanitize=address", "-DZPP_BITS_AUTODETECT_MEMBERS_MODE=0",
                 "-I" + t, "-I/repo/test/include", "-I/repo/test/src/gtest", "-pthread"]
        p = subprocess.run(flags + ["-fsyntax-only", "/repo/test/src/test_sanity.cpp"], stderr=subprocess.DEVNULL)
        if p.returncode:
            return "compile"
        files = sorted(glob.glob("/repo/test/src/test_*.cpp"))
        # includes "../../zpp_bits.h"-like paths are resolved by a copy of the tests
        objs = []

        def one(f):
            o = t + "/" + os.path.basename(f) + ".o"
            ok = subprocess.run(flags + ["-c", f, "-o", o], stderr=subprocess.DEVNULL).returncode == 0
            return o if ok else None
        with ThreadPoolExecutor(jobs) as ex:
            objs = list(ex.map(one, files))
        if None in objs:
            return "compile"
        g = glob.glob("/repo/_build/obj/**/*gtest*.o", recursive=True)
        if subprocess.run(flags + objs + g + ["-o", t + "/tests"], stderr=subprocess.PIPE).returncode:
            return "link"
        try:
            p = subprocess.run([t + "/tests"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60, cwd=t,
                               env=dict(os.environ, ASAN_OPTIONS="alloc_dealloc_mismatch=0"))
        except subprocess.TimeoutExpired:
            return "test"
        return "survives" if p.returncode == 0 else "test"
    finally:
        shutil.rmtree(t)


def main():
    src, all_changes = changes()
    if sys.argv[1] == "list":
        print(len(all_changes))
        for op in sorted({c[1] for c in all_changes}):
            print(op, sum(c[1] == op for c in all_changes))
        return
    out, first, step = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 8
    os.makedirs(out, exist_ok=True)
    for i in range(first, len(all_changes), step):
        n, op, new = all_changes[i]
        r = survives(src, n, new, jobs)
        print("%d %s line %d %s: %s  ---->  %s" % (i, r, n + 1, op, src[n].strip(), new.strip()), flush=True)
        if r == "survives":
            lines = list(src)
            lines[n] = new
            d = "%s/%05d.h" % (out, i)
            open(d, "w").write("\n".join(lines))


main()
