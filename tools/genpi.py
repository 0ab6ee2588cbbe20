#!/usr/bin/env python3
"""Writes ref/pi_tables.h: the fractional hex digits of pi (Machin's formula in integers), 18 + 4*256 words, as Blowfish uses them."""
import sys
N = 18 + 4 * 256
bits = 32 * N
g = 64
one = 1 << (bits + g)
def arctan_inv(x):
    t = one // x
    s, k, sg = t, 3, -1
    x2 = x * x
    while t:
        t //= x2
        s += sg * (t // k)
        sg, k = -sg, k + 2
    return s
pi = 4 * (4 * arctan_inv(5) - arctan_inv(239))
frac = (pi - 3 * one) >> g
w = [(frac >> (32 * (N - 1 - i))) & 0xffffffff for i in range(N)]
assert w[0] == 0x243F6A88 and w[1] == 0x85A308D3
o = ["// generated by tools/genpi.py: fractional part of pi, 32 bits per word", "static const unsigned REF_PI[%d] = {" % N]
for i in range(0, N, 8):
    o.append("    " + " ".join("0x%08xu," % x for x in w[i:i + 8]))
o.append("};")
open(sys.argv[1], "w").write("\n".join(o) + "\n")
