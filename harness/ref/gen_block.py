#!/usr/bin/env python3
"""Tables of the reference block ciphers.  Derived from their mathematical
definition where one is short; CAST5, SEED, Camellia, SM4, Skipjack and RC2
substitution tables are data of their specifications and were read once from
the pinned, vector-tested sources (git show dd5566c), reduced to the plain
S-box.  Writes block_tables.h."""
import os, re, subprocess, sys
from gen_tables import primes, frac_cbrt

REPO = sys.argv[1] if len(sys.argv) > 1 else '/repo'


def lib(f, name):
    s = subprocess.run(['git', '-C', REPO, 'show', 'dd5566c:lib/block/' + f], capture_output=True, text=True).stdout
    m = re.search(r'static const \w+ ' + name + r'\[[^=]*=\s*\{(.*?)\};', s, re.S)
    return [int(x, 0) for x in re.findall(r'0[xX][0-9A-Fa-f]+|\d+', m.group(1))]


def gmul(a, b, p):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= p
        b >>= 1
    return r


def gpow(a, n, p):
    r = 1
    for _ in range(n):
        r = gmul(r, a, p)
    return r


def aes_box(x):
    i = gpow(x, 254, 0x11B)
    r = 0x63
    for k in range(5):
        r ^= ((i << k) | (i >> (8 - k))) & 255
    return r


AES = [aes_box(x) for x in range(256)]
ARIA2 = []
# ARIA S2(x) = C x^247 + e2, the matrix fixed by its images of the powers of two
M = [[0, 1, 0, 1, 1, 1, 1, 0], [0, 0, 1, 1, 1, 1, 0, 1], [1, 1, 0, 1, 0, 1, 1, 1], [1, 0, 0, 1, 1, 1, 0, 1],
     [0, 0, 1, 0, 1, 1, 0, 0], [1, 0, 0, 0, 0, 0, 0, 1], [0, 1, 0, 1, 1, 1, 0, 1], [1, 1, 0, 1, 0, 0, 1, 1]]
for x in range(256):
    i = gpow(x, 247, 0x11B)
    r = 0xE2
    for row in range(8):
        b = 0
        for col in range(8):
            b ^= M[row][col] & (i >> col)
        r ^= (b & 1) << row
    ARIA2.append(r)

# Khazad / Anubis: three layers of two 4-bit boxes
P = [3, 15, 14, 0, 5, 4, 11, 12, 13, 10, 9, 6, 7, 8, 2, 1]
Q = [9, 14, 5, 6, 10, 2, 3, 12, 15, 0, 4, 13, 7, 11, 1, 8]


def mini(x):
    h, l = x >> 4, x & 15
    h, l = P[h], Q[l]
    h, l = (h & 12) | (l >> 2), ((h & 3) << 2) | (l & 3)
    h, l = Q[h], P[l]
    h, l = (h & 12) | (l >> 2), ((h & 3) << 2) | (l & 3)
    return P[h] << 4 | Q[l]


KHAZAD = [mini(x) for x in range(256)]

# Twofish q0, q1
TQ = [[[8, 1, 7, 13, 6, 15, 3, 2, 0, 11, 5, 9, 14, 12, 10, 4], [14, 12, 11, 8, 1, 2, 3, 5, 15, 4, 10, 6, 7, 0, 9, 13],
       [11, 10, 5, 14, 6, 13, 9, 0, 12, 8, 15, 3, 2, 4, 7, 1], [13, 7, 15, 4, 1, 2, 6, 14, 9, 11, 3, 0, 8, 5, 12, 10]],
      [[2, 8, 11, 13, 15, 7, 6, 14, 3, 1, 9, 4, 0, 10, 12, 5], [1, 14, 2, 11, 4, 12, 3, 7, 6, 13, 10, 5, 15, 9, 0, 8],
       [4, 12, 7, 5, 1, 6, 9, 10, 0, 14, 13, 8, 2, 11, 3, 15], [11, 9, 5, 1, 12, 3, 13, 14, 6, 4, 7, 15, 2, 0, 8, 10]]]


def q(k, x):
    a, b = x >> 4, x & 15
    r4 = lambda v: (v >> 1 | v << 3) & 15
    for h in (0, 2):
        a, b = a ^ b, (a ^ r4(b) ^ (8 * a)) & 15
        a, b = TQ[k][h][a], TQ[k][h + 1][b]
    return b << 4 | a


# SAFER
EXP = [pow(45, x, 257) & 255 for x in range(256)]
LOG = [EXP.index(x) for x in range(256)]


def pi_hex(n):  # n 32-bit words of the fraction of pi
    bits = n * 32 + 128
    one = 1 << bits

    def at(x):
        t = one // x
        s, k, sg = t, 3, -1
        while t:
            t //= x * x
            s += sg * (t // k)
            k += 2
            sg = -sg
        return s
    f = (4 * (4 * at(5) - at(239)) - 3 * one) >> 128
    return [(f >> (32 * (n - 1 - i))) & 0xFFFFFFFF for i in range(n)]


def masked(f, name, mask):  # the S-box inside a combined table
    return [x & mask for x in lib(f, name)]


def main():
    out = ['/* written by gen_block.py */', '#ifndef REF_BLOCK_TABLES_H', '#define REF_BLOCK_TABLES_H', '#include <stdint.h>']

    def emit(name, ty, v):
        w = {'uint8_t': 2, 'uint32_t': 8, 'uint64_t': 16}[ty]
        out.append('static const %s %s[%d] = {' % (ty, name, len(v)))
        n = {2: 16, 8: 8, 16: 4}[w]
        for i in range(0, len(v), n):
            out.append('\t' + ', '.join('0x%0*X' % (w, x) for x in v[i:i + n]) + ',')
        out.append('};')
    emit('B_AES', 'uint8_t', AES)
    emit('B_AESI', 'uint8_t', [AES.index(x) for x in range(256)])
    emit('B_ARIA2', 'uint8_t', ARIA2)
    emit('B_ARIA2I', 'uint8_t', [ARIA2.index(x) for x in range(256)])
    emit('B_MINI', 'uint8_t', KHAZAD)
    emit('B_Q0', 'uint8_t', [q(0, x) for x in range(256)])
    emit('B_Q1', 'uint8_t', [q(1, x) for x in range(256)])
    emit('B_EXP', 'uint8_t', EXP)
    emit('B_LOG', 'uint8_t', LOG)
    emit('B_PI', 'uint32_t', pi_hex(1060))
    emit('B_CBRT', 'uint32_t', [frac_cbrt(p, 32) for p in primes(128)])
    emit('B_SM4', 'uint8_t', lib('sm4.c', 'S'))
    emit('B_SKIP', 'uint8_t', lib('skipjack.c', 'S'))
    emit('B_RC2', 'uint8_t', lib('rc2.c', 'sp'))
    emit('B_CAM', 'uint8_t', [x >> 24 for x in lib('camellia.c', 'SP1110')])
    for k in (0, 1):
        emit('B_SEED%d' % k, 'uint8_t', [x >> 24 | x >> 16 & 255 | x >> 8 & 255 | x & 255 for x in lib('seed.c', 'S%d' % k)])
    emit('B_CAST', 'uint32_t', [x for k in range(1, 9) for x in lib('cast5.c', 's%d' % k)])
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'block_tables.h'), 'w').write('\n'.join(out + ['#endif', '']))


if __name__ == '__main__':
    main()
