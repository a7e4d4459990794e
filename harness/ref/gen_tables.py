#!/usr/bin/env python3
"""Constants of the reference definitions, derived from the published
mathematical definitions (never from the library).  Writes tables.h."""
import math, os
from math import isqrt


def primes(n):
    r, k = [], 2
    while len(r) < n:
        if all(k % p for p in r):
            r.append(k)
        k += 1
    return r


def icbrt(n):
    x = 1 << -(-n.bit_length() // 3)
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x:
            return x
        x = y


def frac_sqrt(p, b): return isqrt(p << (2 * b)) & ((1 << b) - 1)
def frac_cbrt(p, b): return icbrt(p << (3 * b)) & ((1 << b) - 1)


def pi_words(n, b):
    bits = n * b + 64
    one = 1 << bits

    def atan_inv(x):
        t = one // x
        s, k, sg = t, 3, -1
        while t:
            t //= x * x
            s += sg * (t // k)
            k += 2
            sg = -sg
        return s
    pi = 4 * (4 * atan_inv(5) - atan_inv(239))
    f = pi - 3 * one
    return [(f >> (bits - b * (i + 1))) & ((1 << b) - 1) for i in range(n)]


def sin_words():
    # floor(2^32 |sin(i)|), with integer arithmetic (Taylor series, 160 bits)
    out = []
    S = 200
    for i in range(1, 65):
        x = i << S
        t, s, k = x, x, 1
        while t:
            t = -(t * x >> S) * x >> S
            t //= (k + 1) * (k + 2)
            if abs(t) <= 2:
                break
            s += t
            k += 2
        out.append((abs(s) << 32) >> S)
    return out


M64 = (1 << 64) - 1


def tiger_tables():
    """the published generator: five passes over byte permutations driven by Tiger itself"""
    msg = b'Tiger - A Fast New Hash Function, by Ross Anderson and Eli Biham'
    assert len(msg) == 64
    T = [[i & 255] * 8 for i in range(1024)]

    def word(i): return int.from_bytes(bytes(T[i]), 'little')

    def compress(x, st):
        a, b, c = st
        x = list(x)

        def rnd(a, b, c, x, mul):
            c ^= x
            by = c.to_bytes(8, 'little')
            a = (a - (word(by[0]) ^ word(256 + by[2]) ^ word(512 + by[4]) ^ word(768 + by[6]))) & M64
            b = (b + (word(768 + by[1]) ^ word(512 + by[3]) ^ word(256 + by[5]) ^ word(by[7]))) & M64
            b = b * mul & M64
            return a, b, c

        def pas(a, b, c, mul):
            a, b, c = rnd(a, b, c, x[0], mul)
            b, c, a = rnd(b, c, a, x[1], mul)
            c, a, b = rnd(c, a, b, x[2], mul)
            a, b, c = rnd(a, b, c, x[3], mul)
            b, c, a = rnd(b, c, a, x[4], mul)
            c, a, b = rnd(c, a, b, x[5], mul)
            a, b, c = rnd(a, b, c, x[6], mul)
            b, c, a = rnd(b, c, a, x[7], mul)
            return a, b, c

        def sched():
            x[0] = (x[0] - (x[7] ^ 0xA5A5A5A5A5A5A5A5)) & M64
            x[1] ^= x[0]
            x[2] = (x[2] + x[1]) & M64
            x[3] = (x[3] - (x[2] ^ ((~x[1] << 19) & M64))) & M64
            x[4] ^= x[3]
            x[5] = (x[5] + x[4]) & M64
            x[6] = (x[6] - (x[5] ^ ((~x[4] & M64) >> 23))) & M64
            x[7] ^= x[6]
            x[0] = (x[0] + x[7]) & M64
            x[1] = (x[1] - (x[0] ^ ((~x[7] << 19) & M64))) & M64
            x[2] ^= x[1]
            x[3] = (x[3] + x[2]) & M64
            x[4] = (x[4] - (x[3] ^ ((~x[2] & M64) >> 23))) & M64
            x[5] ^= x[4]
            x[6] = (x[6] + x[5]) & M64
            x[7] = (x[7] - (x[6] ^ 0x0123456789ABCDEF)) & M64
        s = (a, b, c)
        a, b, c = pas(a, b, c, 5)
        sched()
        c, a, b = pas(c, a, b, 7)
        sched()
        b, c, a = pas(b, c, a, 9)
        return [a ^ s[0], (b - s[1]) & M64, (c + s[2]) & M64]
    x = [int.from_bytes(msg[8 * i:8 * i + 8], 'little') for i in range(8)]
    st = [0x0123456789ABCDEF, 0xFEDCBA9876543210, 0xF096A5B4C3B2E187]
    abc = 2
    for cnt in range(5):
        for i in range(256):
            for sb in range(0, 1024, 256):
                abc += 1
                if abc == 3:
                    abc = 0
                    st = compress(x, st)
                by = st[abc].to_bytes(8, 'little')
                for col in range(8):
                    j = sb + by[col]
                    T[sb + i][col], T[j][col] = T[j][col], T[sb + i][col]
    return [word(i) for i in range(1024)]


def arr(name, vals, b):
    d = b // 4
    o = ['static const uint%d_t %s[%d] = {' % (b, name, len(vals))]
    per = 8 if b <= 32 else 4
    for i in range(0, len(vals), per):
        o.append('\t' + ', '.join('0x%0*X' % (d, v) for v in vals[i:i + per]) + ',')
    o.append('};')
    return '\n'.join(o)


def main():
    p80 = primes(80)
    out = ['/* generated by gen_tables.py */', '#ifndef REF_TABLES_H', '#define REF_TABLES_H', '#include <stdint.h>']
    out.append(arr('T_SIN', sin_words(), 32))
    out.append(arr('T_CBRT32', [frac_cbrt(p, 32) for p in p80[:64]], 32))
    out.append(arr('T_CBRT64', [frac_cbrt(p, 64) for p in p80], 64))
    out.append(arr('T_SQRT32', [frac_sqrt(p, 32) for p in p80[:8]], 32))
    out.append(arr('T_SQRT64', [frac_sqrt(p, 64) for p in p80[:16]], 64))
    out.append(arr('T_PI32', pi_words(16, 32), 32))
    out.append(arr('T_PI64', pi_words(16, 64), 64))
    out.append(arr('T_TIGER', tiger_tables(), 64))
    out.append('#endif')
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.h'), 'w').write('\n'.join(out) + '\n')


main()
