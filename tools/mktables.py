#!/usr/bin/env python3
"""Writes spec/Tables.tla: values of mathematical functions on grids, rounded
to integers.  The specification's own oracle for tan, sin, log2."""
import math, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seq(name, xs, comment):
    out = "(* %s *)\n%s == <<" % (comment, name)
    line = "\n  "
    for i, x in enumerate(xs):
        t = "%d%s" % (x, "," if i + 1 < len(xs) else "")
        if len(line) + len(t) > 76:
            out += line; line = "\n  "
        line += t + " "
    return out + line.rstrip() + ">>\n"
import sys
t = "------------------------------- MODULE Tables -------------------------------\n"
t += "(* Generated by tools/mktables.py: function values on grids. *)\nEXTENDS Integers, Sequences\n\n"
t += seq("TanTab", [round(math.tan(math.pi * j / 1024) * 2**20) for j in range(0, 257)],
         "tan(pi j / 1024) * 2^20, j = 0..256")
t += "\n" + seq("SinTab", [round(math.sin(math.pi / 2 * j / 256) * 2**24) for j in range(0, 257)],
         "sin(pi/2 * j / 256) * 2^24, j = 0..256")
t += "\n" + seq("Log2Tab", [round(math.log2(1 + j / 64) * 2**20) for j in range(0, 65)],
         "log2(1 + j/64) * 2^20, j = 0..64")
t += "=============================================================================\n"
open(os.path.join(V, "spec", "Tables.tla"), "w").write(t)

# ------------------------------------------------------------- Tables2
# Data of the band-limited rectangle (a constant of the library, copied to
# tools/bl_rect.txt from the pinned commit) and integrals / hyperbolics.
import struct
f32 = lambda x: struct.unpack("<f", struct.pack("<f", x))[0]
bl = [f32(float(x)) for x in open(os.path.join(V, "tools", "bl_rect.txt"))]
def si_grid(n, per):
    sinc = lambda t: math.sin(t) / t if t else 1.0
    out, acc, sub = [0.0], 0.0, 16
    for i in range(n):
        for j in range(sub):
            a = (i + j / sub) / per
            h = 1 / per / sub
            acc += h / 6 * (sinc(a) + 4 * sinc(a + h / 2) + sinc(a + h))
        out.append(acc)
    return out
t = "------------------------------- MODULE Tables2 ------------------------------\n"
t += "(* Generated by tools/mktables.py. *)\nEXTENDS Integers, Sequences\n\n"
t += seq("BlRect", [round(x * 2**24) for x in bl], "band-limited rectangle, quarter cycle, scale 2^24")
t += "\n" + seq("SiTab", [round(x * 2**24) for x in si_grid(1280, 64)], "sine integral at j/64 * 2^24, j = 0..1280")
t += "\n" + seq("TanX", [round(math.tan(j / 1024) * 2**24) for j in range(1025)], "tan(j/1024) * 2^24, j = 0..1024")
t += "\n" + seq("CoshTab", [round(math.cosh(j / 32) * 2**16) for j in range(257)], "cosh(j/32) * 2^16, j = 0..256")
t += "\n" + seq("SinhTab", [round(math.sinh(j / 32) * 2**16) for j in range(257)], "sinh(j/32) * 2^16, j = 0..256")
t += "=============================================================================\n"
open(os.path.join(V, "spec", "Tables2.tla"), "w").write(t)
