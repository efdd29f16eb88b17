#!/usr/bin/env python3-vt
"""Generates mc/src/curves.rs: curves of known order over fields of many sizes, none of them a named one.
W: prime order, by complex multiplication (discriminants -3 and -11). E, M: p = 4r-1 with r prime, supersingular
(Ax^2+y^2 = 1-Ax^2y^2 with A a square; By^2 = x^3+x), order 4r. Every order is confirmed by multiplying points."""
import math, os, random
from sympy import isprime
from sympy.ntheory import sqrt_mod
rnd = random.Random(9)
SMALL = [q for q in range(3, 400) if all(q % d for d in range(2, q))]
def prime(n):
    if n < 2: return False
    for q in SMALL:
        if n % q == 0: return n == q
    return n % 2 == 1 and pow(2, n - 1, n) == 1 and isprime(n)
def inv(a, p): return pow(a, -1, p)
def wadd(P, Q, a, p):
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0: return None
        l = (3 * P[0] * P[0] + a) * inv(2 * P[1], p)
    else: l = (Q[1] - P[1]) * inv(Q[0] - P[0], p)
    x = (l * l - P[0] - Q[0]) % p
    return (x, (l * (P[0] - x) - P[1]) % p)
def madd(P, Q, A, B, p):
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0: return None
        l = (3 * P[0] * P[0] + 2 * A * P[0] + 1) * inv(2 * B * P[1], p)
    else: l = (Q[1] - P[1]) * inv(Q[0] - P[0], p)
    x = (B * l * l - A - P[0] - Q[0]) % p
    return (x, (l * (P[0] - x) - P[1]) % p)
def eadd(P, Q, a, d, p):
    t = d * P[0] * Q[0] * P[1] * Q[1]
    return ((P[0] * Q[1] + P[1] * Q[0]) * inv(1 + t, p) % p, (P[1] * Q[1] - a * P[0] * Q[0]) * inv(1 - t, p) % p)
def mul(k, P, add, zero):
    R = zero
    for c in bin(k)[2:]:
        R = add(R, R)
        if c == '1': R = add(R, P)
    return R
def weier(bits, cof=False):
    """prime p of the given length, curve of prime order, or of odd order with a cofactor"""
    tries = 0
    while True:
        tries += 1
        disc = [3, 11][(bits + tries // 20000) % 2]
        # 4p = t^2 + disc*v^2
        v = rnd.randrange(1, max(3, int((4 * 2 ** bits / disc) ** .5)) if bits < 200 else 1 << (bits // 2))
        rest = (1 << (bits + 2)) - disc * v * v
        lo = (1 << (bits + 1)) - disc * v * v
        if rest <= 0: continue
        a, b = math.isqrt(max(lo, 0)), math.isqrt(rest)
        if b <= a: continue
        t = rnd.randrange(a, b + 1)
        if (t * t + disc * v * v) % 4: continue
        p = (t * t + disc * v * v) // 4
        if p.bit_length() != bits or p % 8 == 1 or not prime(p): continue
        cand = {p + 1 - t, p + 1 + t}
        if disc == 3: cand |= {p + 1 + s * u for s in (1, -1) for u in ((t + 3 * v) // 2, (t - 3 * v) // 2) if (t + 3 * v) % 2 == 0}
        cand = [n for n in cand if n != p and (n % 2 == 1 and not prime(n) and any(n % q == 0 and (n // q) % q for q in SMALL) if cof else prime(n))]
        if not cand: continue
        for n in cand:
            for _ in range(60):
                if disc == 3: ca, cb = 0, rnd.randrange(1, p)
                else:
                    k = -32768 * inv(1728 + 32768, p) % p; c = rnd.randrange(1, p)
                    ca, cb = 3 * k * c * c % p, 2 * k * c * c * c % p
                if (4 * ca ** 3 + 27 * cb ** 2) % p == 0: continue
                ok = True; g = None
                for _ in range(3):
                    while True:
                        x = rnd.randrange(p); z = (x ** 3 + ca * x + cb) % p
                        if z and pow(z, (p - 1) // 2, p) == 1: break
                    g = (x, sqrt_mod(z, p))
                    if mul(n, g, lambda P, Q: wadd(P, Q, ca, p), None) is not None: ok = False; break
                if ok and cof:
                    r = next(q for q in SMALL if n % q == 0 and (n // q) % q); P = mul(n // r, g, lambda P, Q: wadd(P, Q, ca, p), None)
                    if P is None: continue
                    return dict(p=p, a=ca, b=cb, s=0, r=r, h=n // r, gx=P[0], gy=P[1])
                if ok:
                    if bits <= 12:
                        assert 1 + sum(1 + (0 if z == 0 else 1 if pow(z, (p - 1) // 2, p) == 1 else -1) for z in ((x ** 3 + ca * x + cb) % p for x in range(p))) == n
                    else: assert (n - p - 1) ** 2 <= 4 * p
                    return dict(p=p, a=ca, b=cb, s=0, r=n, h=1, gx=g[0], gy=g[1])
def noroot(A, c, p):
    """x^3+A x^2+x-c has no root modulo p"""
    # x^p mod f
    def mulmod(u, v):
        w = [0] * 5
        for i in range(3):
            for j in range(3): w[i + j] += u[i] * v[j]
        for i in (4, 3):
            # x^3 = -A x^2 - x + c
            w[i - 1] -= A * w[i]; w[i - 2] -= w[i]; w[i - 3] += c * w[i]; w[i] = 0
        return [z % p for z in w[:3]]
    r = [1, 0, 0]
    for ch in bin(p)[2:]:
        r = mulmod(r, r)
        if ch == '1': r = mulmod(r, [0, 1, 0])
    g = [r[0], (r[1] - 1) % p, r[2]]
    f = [-c % p, 1, A % p, 1]
    def trim(u):
        while u and u[-1] == 0: u.pop()
        return u
    f, g = trim(f), trim(g)
    while g:
        while len(f) >= len(g):
            q = f[-1] * inv(g[-1], p) % p; s = len(f) - len(g)
            f = trim([(f[i] - (q * g[i - s] if i >= s else 0)) % p for i in range(len(f) - 1)] ) if f else f
            if not f: break
        f, g = g, f
    return len(f) == 1
def pair(bits):
    """p = 4r-1; an Edwards and a Montgomery curve of order 4r"""
    while True:
        r = rnd.randrange(1 << (bits - 3), 1 << (bits - 2)) | 1
        p = 4 * r - 1
        if p.bit_length() == bits and r > 2 and all(r % q and p % q or r == q or p == q for q in SMALL) and prime(r) and prime(p): break
    c = rnd.randrange(2, p)
    a, d = c * c % p, -c * c % p
    while True:
        y = rnd.randrange(2, p - 1); den = (d * y * y - a) % p
        if den == 0: continue
        z = (y * y - 1) * inv(den, p) % p
        if z == 0 or pow(z, (p - 1) // 2, p) != 1: continue
        P = (pow(z, (p + 1) // 4, p), y); add = lambda P, Q: eadd(P, Q, a, d, p)
        g = mul(4, P, add, (0, 1))
        assert mul(r, g, add, (0, 1)) == (0, 1)
        if g != (0, 1): break
    ed = dict(p=p, a=a, b=d, s=0, r=r, h=4, gx=g[0], gy=g[1])
    B = rnd.randrange(2, p)
    s = 1
    while not noroot(0, B * s * s % p, p): s += 1
    while True:
        x = rnd.randrange(1, p); z = (x ** 3 + x) * inv(B, p) % p
        if z == 0 or pow(z, (p - 1) // 2, p) != 1: continue
        P = (x, pow(z, (p + 1) // 4, p)); add = lambda P, Q: madd(P, Q, 0, B, p)
        g = mul(4, P, add, None)
        assert mul(r, g, add, None) is None
        if g is not None: break
    if bits <= 10:
        assert not any((x ** 3 + x - B * s * s) % p == 0 for x in range(p))
    return ed, dict(p=p, a=0, b=B, s=s, r=r, h=4, gx=g[0], gy=g[1])
bits = [b for b in range(6, 531) if b <= 72 or b % 16 in (15, 0, 1, 2, 3)]
T = {'W': [], 'E': [], 'M': []}
for b in bits:
    T['W'].append((b, weier(b)))
    e, m = pair(b)
    T['E'].append((b, e)); T['M'].append((b, m))
    print(b, flush=True)
T['WH'] = [(b, weier(b, True)) for b in (16, 24, 31, 32, 33, 40, 48, 63, 64, 65, 72, 80, 96, 127, 128, 129, 160, 192, 256, 257, 320, 384, 512, 521)]
rnd = random.Random(11)
for b in (640, 801, 1031):
    T['W'].append((b, weier(b)))
    e, m = pair(b)
    T['E'].append((b, e)); T['M'].append((b, m))
    print(b, flush=True)
out = ['// Generated by tools/gen_curves.py. Columns: bits of p; p, a, b (Edwards: d), s, r, h, gx, gy in hexadecimal.']
for m in T:
    out.append('#[rustfmt::skip]\npub const %s: &[(u32, [&str; 8])] = &[' % m)
    for b, d in T[m]:
        out.append('(%d, [%s]),' % (b, ', '.join('"%x"' % d[k] for k in ('p', 'a', 'b', 's', 'r', 'h', 'gx', 'gy'))))
    out.append('];')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../mc/src/curves.rs'), 'w').write('\n'.join(out) + '\n')
