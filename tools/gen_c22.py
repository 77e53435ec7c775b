#!/usr/bin/env python3
"""Writes mc/c22_literals.inc: one hex literal with every pair of digits."""
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = "0123456789abcdefABCDEF"
pairs = [a + b for a in d for b in d]
with open(os.path.join(here, "mc", "c22_literals.inc"), "w") as f:
    f.write("// Written by tools/gen_c22.py.\n")
    f.write("HEX_ALL(\n" + "\n".join('"%s"' % "".join(pairs[i:i + 30]) for i in range(0, len(pairs), 30)) + ")\n")
    for p in ["", "00", "fF", "7f80", "000102030405060708090a0b0c0d0e0f", "DEADbeef"]:
        f.write('HEX("%s")\n' % p)
