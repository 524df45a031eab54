#!/usr/bin/env python3-vt
"""Offline: writes harness/cmtab.h, all CM curves with at most 500-bit order (type D: D < 8000, type G: D < 40000)
from sympy's solver of the generalised Pell equation, independent of the library."""
import sys, math
from sympy import isprime, primerange
from sympy.solvers.diophantine.diophantine import diop_DN
SP = list(primerange(2, 65536)); BITS = 500
def unit(N):
    (a, b), = diop_DN(N, 1); return a, b
def good(n):
    if n < 2: return False
    if isprime(n): return True
    for p in SP:
        while n % p == 0: n //= p
        if isprime(n): return True
        if n == 1: return False
    return False
def sols(N, c, lim):
    f = diop_DN(N, c)
    if not f: return set()
    a, b = unit(N); out = set()
    for u, v in f:
        for s in (1, -1):
            x, y = u, s * v
            k = 0
            while True: # forward
                if abs(x).bit_length() > lim:
                    break
                out.add(abs(x)); x, y = x * a + N * y * b, x * b + y * a
    return out
rows = []
for D in range(3, 40000):
    if D % 4 not in (0, 3): continue
    N = 15 * D
    if math.isqrt(N) ** 2 != N:
        for X in sols(N, -20, BITS // 4 + 12):
            for s in (1, -1):
                if (s * X - 5) % 15: continue
                x = (s * X - 5) // 15; q = 25*x**4 + 25*x**3 + 25*x**2 + 10*x + 3; t = 10*x*x + 5*x + 3; n = q + 1 - t
                if n.bit_length() <= BITS and q > 3 and isprime(q) and good(n): rows.append((10, D, q, n))
    N = 3 * D
    if D < 8000 and math.isqrt(N) ** 2 != N:
        for X in sols(N, -8, BITS // 2 + 12):
            for s in (1, -1):
                if (s * X - 1) % 3: continue
                x = (s * X - 1) // 3; q = x * x + 1; n = q + 1 - (1 - x)
                if n.bit_length() <= BITS and q > 3 and isprime(q) and good(n): rows.append((6, D, q, n))
rows = sorted(set(rows))
with open(sys.argv[1], 'w') as f:
    f.write('// written by tools/gen_cmtab.py\nstatic const struct { int k; long D; const char *q, *n; } cmtab[] = {\n')
    for r in rows: f.write('{ %d, %d, "%d", "%d" },\n' % r)
    f.write('};\n')
print(len(rows), sum(r[0] == 10 for r in rows))
