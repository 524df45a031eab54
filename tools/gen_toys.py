#!/usr/bin/env python3
"""Generates harness/toys.h: small pairing parameters of every type, found and
verified by brute force (naive point counting), independent of the library.
Run once; its output is committed."""
import itertools, sys
def isprime(n):
    if n < 2: return False
    i = 2
    while i * i <= n:
        if n % i == 0: return False
        i += 1
    return True
bgn = []
out = []   # (name, type, r, text)
def emit(name, typ, rr, **kv):
    out.append((name, typ, rr, "type %s\\n" % typ + "".join("%s %s\\n" % (k, v) for k, v in kv.items())))
# ---- type A: q = h r - 1, r = 2^e2 + s1 2^e1 + s0
seen = set()
for e2 in range(2, 9):
    for e1 in range(1, e2):
        for s1 in (1, -1):
            for s0 in (1, -1):
                r = 2**e2 + s1 * 2**e1 + s0
                if r < 3 or not isprime(r): continue
                got = 0
                h = 4
                while got < (2 if e2 <= 5 else 1):
                    q = h * r - 1
                    if h % r and isprime(q) and q % 4 == 3 and q > 3:
                        emit('a_r%d_q%d_%d_%d_%s%s' % (r, q, e2, e1, 'pm'[s1 < 0], 'pm'[s0 < 0]), 'a', r, q=q, h=h, r=r, exp2=e2, exp1=e1, sign1=s1, sign0=s0)
                        got += 1
                        h = h * 7 + 4 * 3   # next one with a larger cofactor
                        h -= h % 4
                    h += 4
# large cofactor type A: tiny r, multi-limb q
for (e2, e1, s1, s0) in ((2, 1, 1, 1), (3, 1, 1, 1), (4, 1, 1, 1), (5, 2, 1, 1), (4, 2, -1, 1), (4, 1, 1, -1), (5, 1, -1, -1)):
    r = 2**e2 + s1 * 2**e1 + s0
    if not isprime(r): continue
    for bits in (70, 130):
        h = (1 << bits) // 12 * 12
        def mr(n):
            return all(pow(a, n - 1, n) == 1 for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37))
        while not (h % r and mr(h * r - 1)): h += 12
        emit('a_r%d_big%d' % (r, bits), 'a', r, q=h * r - 1, h=h, r=r, exp2=e2, exp1=e1, sign1=s1, sign0=s0)
# ---- type A1: p = l n - 1
for n in (15, 21, 33, 35, 39, 55, 77, 91, 105, 143, 221, 323, 437, 667, 899, 1147, 1517, 5, 7, 13, 31, 127, 9, 25, 45):
    l = 4; got = 0
    while got < 2:
        p = l * n - 1
        from math import gcd
        if isprime(p) and p % 4 == 3 and gcd(l, n) == 1:
            emit('a1_n%d_p%d' % (n, p), 'a1', n, p=p, n=n, l=l); got += 1; l = l * 5
            l -= l % 4
        l += 4
# BGN-style: product of two secret primes, realistic sizes
for bits in (40, 80, 130):
    def np(x):
        while not mr(x): x += 1
        return x
    p1 = np((1 << bits) + 12345); p2 = np((3 << (bits - 1)) + 777)
    n = p1 * p2; l = 4
    while not mr(l * n - 1): l += 4
    out.append(('bgn%d' % bits, 'a1', p1 if bits == 40 else 0, "type a1\\np %d\\nn %d\\nl %d\\n" % (l * n - 1, n, l), ))
    bgn.append((p1, p2))
# ---- naive curve counting over F_q
def chitab(q):
    t = [-1] * q
    for x in range(1, q): t[x * x % q] = 1
    t[0] = 0
    return t
def count(q, a, b, chi): return q + 1 + sum(chi[(x * x * x + a * x + b) % q] for x in range(q))
# polys over F_q for irreducibility
def pmulmod(f, g, m, q):
    d = len(m) - 1
    r = [0] * (2 * d)
    for i, x in enumerate(f):
        for j, y in enumerate(g): r[i + j] = (r[i + j] + x * y) % q
    for i in range(len(r) - 1, d - 1, -1):
        c = r[i]
        if c:
            for j in range(d + 1): r[i - d + j] = (r[i - d + j] - c * m[j]) % q
    return r[:d]
def ppow(f, e, m, q):
    d = len(m) - 1
    r = [1] + [0] * (d - 1)
    f = (f + [0] * d)[:d]
    while e:
        if e & 1: r = pmulmod(r, f, m, q)
        f = pmulmod(f, f, m, q); e >>= 1
    return r
def irred_prime_degree(m, q):
    """d prime: irreducible iff no root and x^(q^d) = x (distinct-degree: factors have degree 1 or d)."""
    d = len(m) - 1
    for x in range(q):
        v = 0
        for c in reversed(m): v = (v * x + c) % q
        if v == 0: return False
    X = [0, 1] + [0] * (d - 2)
    return ppow(X, q**d, m, q) == X
def trace_n(q, t, n):
    a, b = 2, t
    for _ in range(n - 1): a, b = b, t * b - q * a
    return b
def find_irred(q, d, skip=0):
    import random
    rnd = random.Random(q * 100 + d + skip)
    while True:
        m = [rnd.randrange(q) for _ in range(d)] + [1]
        if irred_prime_degree(m, q): return m
def cc(kind, k, want, qmax, rmax):
    d = k // 2; done = {}
    for q in range(5, qmax):
        if not isprime(q): continue
        phi = {6: q*q - q + 1, 10: q**4 - q**3 + q*q - q + 1}[k]
        rs = [r for r in range(5, rmax) if isprime(r) and phi % r == 0 and q % r and r != k and (r - 1) % k == 0]
        rs = [r for r in rs if done.get(r, 0) < want]
        if not rs: continue
        chi = chitab(q); nq = next(x for x in range(2, q) if chi[x] == -1)
        tries = 0
        for a in range(0, q):
            for b in range(1, q):
                if (4 * a**3 + 27 * b * b) % q == 0: continue
                tries += 1
                if tries > 400: break
                n = count(q, a, b, chi)
                for r in list(rs):
                    if n % r or (n // r) % r == 0: continue
                    t = q + 1 - n
                    tw = q**d + 1 + trace_n(q, t, d)
                    if tw % r or (tw // r) % r == 0: continue
                    m = find_irred(q, d)
                    nk = q**k + 1 - trace_n(q, t, k)
                    if nk % (r * r): continue
                    kv = dict(q=q, n=n, h=n // r, r=r, a=a, b=b)
                    if kind == 'd': kv['k'] = k
                    kv['nk'] = nk; kv['hk'] = nk // (r * r)
                    for i in range(d): kv['coeff%d' % i] = m[i]
                    kv['nqr'] = nq
                    emit('%s_r%d_q%d_h%d%s' % (kind, r, q, n // r, '' if k in (6, 10) and (kind, k) != ('d', 10) else '_k%d' % k), kind, r, **kv)
                    done[r] = done.get(r, 0) + 1; rs.remove(r)
            if tries > 400 or not rs: break
cc('d', 6, 2, 700, 130)
# a few type D with bigger q relative to r
cc('g', 10, 2, 400, 260)
# Freeman curve x=-2
# ---- type E
for (e2, e1, s1, s0) in ((2, 1, 1, -1), (2, 1, 1, 1), (3, 1, 1, 1), (3, 2, 1, 1), (4, 1, 1, 1), (3, 2, -1, 1), (4, 2, -1, -1), (4, 3, 1, -1), (5, 1, -1, 1)):
    r = 2**e2 + s1 * 2**e1 + s0
    if not isprime(r) or r < 5: continue
    got = 0
    for s in range(1, 60):
        if s % r == 0: continue
        h = 3 * s * s; q = h * r * r + 1
        if q > 60000 or not isprime(q): continue
        chi = chitab(q)
        g = next(x for x in range(2, q) if chi[x] == -1)
        for a, b in ((0, 1), (0, pow(g, 3, q))):
            if count(q, a, b, chi) == q - 1:
                emit('e_r%d_q%d_%d_%d_%s%s' % (r, q, e2, e1, 'pm'[s1 < 0], 'pm'[s0 < 0]), 'e', r, q=q, r=r, h=h, a=a, b=b, exp2=e2, exp1=e1, sign1=s1, sign0=s0); got += 1
                break
        if got == 2: break
# ---- type F
for x in (-1, 1, -2):
    q = 36 * x**4 + 36 * x**3 + 24 * x * x + 6 * x + 1; t = 6 * x * x + 1; r = q + 1 - t
    assert isprime(q) and isprime(r), (x, q, r)
    chi = chitab(q)
    bs = [b for b in range(1, q) if count(q, 0, b, chi) == r][:2]
    betas = [x_ for x_ in range(2, q) if chi[x_] == -1]
    for b, beta in itertools.product(bs, betas[:2]):
        def mul(u, v): return ((u[0] * v[0] + beta * u[1] * v[1]) % q, (u[0] * v[1] + u[1] * v[0]) % q)
        def pw(u, e):
            r_ = (1, 0)
            while e:
                if e & 1: r_ = mul(r_, u)
                u = mul(u, u); e >>= 1
            return r_
        sq = {}
        for u0 in range(q):
            for u1 in range(q):
                s_ = mul((u0, u1), (u0, u1)); sq[s_] = sq.get(s_, 0) + 1
        done = False
        for a1 in range(1, q):
            for a0 in range(0, 3):
                na = ((-a0) % q, (-a1) % q)
                if pw(na, (q * q - 1) // 2) == (1, 0) or pw(na, (q * q - 1) // 3) == (1, 0): continue
                bb = (na[0] * b % q, na[1] * b % q)
                N = 1
                cub = {}
                for u0 in range(q):
                    for u1 in range(q):
                        u = (u0, u1); c3 = mul(mul(u, u), u)
                        N += sq.get(((c3[0] + bb[0]) % q, (c3[1] + bb[1]) % q), 0)
                if N == r * (2 * q - r) and (N // r) % r:
                    emit('f_r%d_q%d_b%d_beta%d' % (r, q, b, beta), 'f', r, q=q, r=r, b=b, beta=beta, alpha0=a0, alpha1=a1); done = True; break
            if done: break
with open(sys.argv[1], 'w') as f:
    f.write('// Generated by tools/gen_toys.py (brute force, independent of the library).\n#ifndef TOYS_H\n#define TOYS_H\n')
    f.write('typedef struct { const char *name, *type; long r; const char *text; } toy_t;\nstatic const toy_t toys[] = {\n')
    normal = [o for o in out if not o[0].startswith('bgn')]; big = [o for o in out if o[0].startswith('bgn')]
    for n, t, r, s in normal: f.write('  { "%s", "%s", %d, "%s" },\n' % (n, t, r, s))
    f.write('};\n#define NTOYS (int)(sizeof(toys)/sizeof(toys[0]))\n')
    f.write('// composite order n = p1 p2 with the factors known\nstatic const struct { const char *name, *p1, *p2, *text; } bgns[] = {\n')
    for (n, t, r, s), (p1, p2) in zip(big, bgn): f.write('  { "%s", "%d", "%d", "%s" },\n' % (n, p1, p2, s))
    f.write('};\n#define NBGN 3\n#endif\n')
from collections import Counter
print(Counter(t for _, t, _, _ in out))
for n, *_ in out: print(n, end=' ')
