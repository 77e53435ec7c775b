#!/usr/bin/env python3
"""Plants the bugs described in tools/plants/*.txt: generates /verif/seeded/<id>/, confirms each
in a scratch copy of /repo (applies, only original lines, builds, stable tests pass, demo passes
without and fails with it) and keeps only the confirmed ones.

usage: plant.py generate [ID...]      confirm and (re)write seeded/<id>
       plant.py check [ID...]         run this property's quick check against the planted bug

A plant is a text file of sections `=== NAME` : property, needs, breaks, edit (old text, a line `---->`,
new text; optional first line `#n` to take the n-th occurrence), demo (C++ body), flags (optional),
copy (optional: files of /verif to lie beside the demo).
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
BASE = "5a485d9"

PRELUDE = """#include "zpp_bits.h"
#include <bitset>
#include <cstdio>
#include <cstdlib>
#include <list>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <optional>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("FAILED line %d: %s\\n", __LINE__, #__VA_ARGS__); std::exit(1); } } while (0)
using namespace zpp::bits;
using namespace zpp::bits::literals;
"""

DEMO_SH = """#!/bin/bash
# Exit 0 where the property holds, nonzero with the planted change. Run with cwd at the repository.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
clang++-18 -std=c++20 -stdlib=libc++ -O0 %s -I"$PWD" "$here/demo.cpp" -o "$scratch/demo" > "$scratch/log" 2>&1 || { tail -20 "$scratch/log"; exit 3; }
timeout 120 "$scratch/demo"
"""


def load(path):
    s, name = {"edits": []}, None
    parts = re.split(r"^=== (\w+)\n", open(path).read(), flags=re.M)
    for k, v in zip(parts[1::2], parts[2::2]):
        if k == "edit":
            s["edits"].append(v)
        else:
            s[k] = v.rstrip("\n")
    s["id"] = os.path.basename(path)[:-4]
    return s


def apply_edits(src, p):
    for e in p["edits"]:
        nth = 1
        if re.match(r"#\d+\n", e):
            head, e = e.split("\n", 1)
            nth = int(head[1:])
        old, new = e.split("---->\n")
        old, new = old.rstrip("\n"), new.rstrip("\n")
        if old not in src:
            sys.exit("%s: text not found:\n%s" % (p["id"], old))
        i = -1
        for _ in range(nth):
            i = src.find(old, i + 1)
            if i < 0:
                sys.exit("%s: occurrence not found" % p["id"])
        if nth == 1 and src.count(old) > 1 and not "#1\n" in p["edits"][0][:3] :
            print("  note: %s: %d occurrences, first taken" % (p["id"], src.count(old)))
        src = src[:i] + new + src[i + len(old):]
    return src


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def generate(p, run_tests=True):
    d = os.path.join(VERIF, "seeded", p["id"])
    os.makedirs(d, exist_ok=True)
    src = open(REPO + "/zpp_bits.h").read()
    new = apply_edits(src, p)
    with tempfile.TemporaryDirectory() as t:
        open(t + "/a", "w").write(src)
        open(t + "/b", "w").write(new)
        diff = sh(["diff", "-u", "--label", "a/zpp_bits.h", "--label", "b/zpp_bits.h", t + "/a", t + "/b"]).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(PRELUDE + p.get("top", "") + "\nint main()\n{\n" + p["demo"] + "\n    return 0;\n}\n")
    open(d + "/demo.sh", "w").write(DEMO_SH % p.get("flags", "").strip())
    os.chmod(d + "/demo.sh", 0o755)
    for f in p.get("copy", "").split():
        shutil.copy(os.path.join(VERIF, f), d)
    json.dump({"property": p["property"].strip(), "needs": " ".join(p["needs"].split()),
               "what_it_breaks": " ".join(p["breaks"].split())}, open(d + "/meta.json", "w"), indent=1)
    # only original lines
    blame = sh(["git", "-C", REPO, "blame", "-s", "--line-porcelain", BASE + "..HEAD", "--", "zpp_bits.h"]).stdout
    lines = re.findall(r"^([0-9a-f^]{40,41}) \d+ (\d+)", blame, flags=re.M)
    base_sha = sh(["git", "-C", REPO, "rev-parse", BASE]).stdout.strip()
    owner = {int(n): c.lstrip("^") for c, n in lines}
    cur, bad, removed = 0, [], 0
    for l in diff.split("\n")[2:]:
        m = re.match(r"@@ -(\d+)", l)
        if m:
            cur = int(m.group(1))
            continue
        if l.startswith("-"):
            removed += 1
            if not base_sha.startswith(owner[cur][:39]):
                bad.append(cur)
        if l.startswith("-") or l.startswith(" "):
            cur += 1
    if bad or not removed:
        print("  %s: changes lines of our own commits (%s) or none" % (p["id"], bad))
    ok = True
    r = sh(["bash", d + "/demo.sh"], cwd=REPO)
    if r.returncode:
        print("%s: demo fails on the unchanged tree: %s" % (p["id"], r.stdout[-1500:]))
        ok = False
    scratch = tempfile.mkdtemp(prefix="plant.")
    try:
        open(scratch + "/zpp_bits.h", "w").write(new)
        r = sh(["bash", d + "/demo.sh"], cwd=scratch)
        if r.returncode in (0,):
            print("%s: demo passes with the patch" % p["id"])
            ok = False
        elif r.returncode == 3:
            print("%s: demo does not compile with the patch: %s" % (p["id"], r.stdout[-1500:]))
            ok = False
        else:
            print("  %s: demo: %d %s" % (p["id"], r.returncode, r.stdout.strip().split("\n")[-1][:200]))
    finally:
        shutil.rmtree(scratch)
    if ok and run_tests:
        # In a copy, with the scripts' paths changed to it.
        scratch = tempfile.mkdtemp(prefix="planttest.")
        try:
            copy = scratch + "/repo"
            sh(["cp", "-a", REPO, copy])
            for f in ("build.sh", "test.sh"):
                open(scratch + "/" + f, "w").write(open("/opt/vp/" + f).read().replace("/repo", copy).replace("/opt/vp/build.sh", scratch + "/build.sh"))
            r = sh(["git", "-C", copy, "apply", d + "/patch.diff"])
            if r.returncode:
                print(p["id"], "does not apply", r.stdout)
                ok = False
            else:
                out = scratch + "/plant.json"
                r = sh(["bash", scratch + "/test.sh", out])
                stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                passed = set(json.load(open(out))["passed"])
                if stable - passed:
                    print("%s: tests fail: %s %s" % (p["id"], sorted(stable - passed)[:8], r.stdout[-800:] if not passed else ""))
                    ok = False
        finally:
            shutil.rmtree(scratch)
    print(p["id"], "confirmed" if ok else "REJECTED", flush=True)
    if not ok:
        shutil.rmtree(d)
    return ok


def check(p, props=None):
    d = os.path.join(VERIF, "seeded", p["id"])
    scratch = tempfile.mkdtemp(prefix="plantcheck.")
    try:
        os.makedirs(scratch + "/repo")
        shutil.copy(REPO + "/zpp_bits.h", scratch + "/repo/")
        r = sh(["git", "apply", d + "/patch.diff"], cwd=scratch + "/repo")
        if r.returncode:
            print(p["id"], "does not apply", r.stdout)
            return
        env = dict(os.environ, MC_REPO=scratch + "/repo", MC_OUT=scratch)
        for prop in props or [p["property"].strip()]:
            r = sh(["./check", prop], cwd=VERIF, env=env)
            v = [l for l in r.stdout.split("\n") if "VIOLATION" in l]
            print("%s: %s: %s %s" % (p["id"], prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "exit %d" % r.returncode),
                                     v[0] if v else r.stdout[-300:] if r.returncode not in (0, 1) else ""), flush=True)
    finally:
        shutil.rmtree(scratch)


def main():
    mode, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    props = None
    for a in sys.argv[2:]:
        if a.startswith("--props="):
            props = a[8:].split(",")
    files = sorted(f for f in os.listdir(HERE + "/plants") if f.endswith(".txt"))
    for f in files:
        if ids and not any(f.startswith(i) for i in ids):
            continue
        p = load(HERE + "/plants/" + f)
        if mode == "generate":
            generate(p, "--no-tests" not in sys.argv)
        elif os.path.exists(os.path.join(VERIF, "seeded", p["id"])):
            check(p, props)


main()
