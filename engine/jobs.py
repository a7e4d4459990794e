"""Abstract configurations ("jobs") handed to the abstract interpreter.

One job = one harness driver with fixed lengths; every byte of key, iv, salt,
header, message, tag and tweak stays abstract.  A job line is
    driver maxfault arg...
maxfault = k: the job is analysed once without failures and once more for each
of the first k+1 allocations (or reads) with that one failing; -1: no failures.
"""
# block cipher: (block bytes, max key bytes)
BLOCKS = {
 '3way': (12, 12), 'aes': (16, 32), 'anubis': (16, 40), 'aria': (16, 32), 'blowfish': (8, 56), 'camellia': (16, 32),
 'cast5': (8, 16), 'crax_s': (8, 16), 'des': (8, 24), 'idea': (8, 16), 'khazad': (8, 16),
 'lea': (16, 32), 'noekeon': (16, 16), 'rc2': (8, 128), 'rc5': (8, 255), 'rc6': (16, 255),
 'rectangle': (8, 16), 'rijndael128': (16, 32), 'rijndael256': (32, 32), 'safer': (8, 16),
 'safer_sk': (8, 16), 'saferpp': (16, 32), 'seed': (16, 16), 'serpent': (16, 32), 'shacal2': (32, 64),
 'simon128': (16, 32), 'simon32': (4, 8), 'simon64': (8, 16), 'skipjack': (8, 10), 'sm4': (16, 16),
 'speck128': (16, 32), 'speck32': (4, 8), 'speck64': (8, 16), 'tea': (8, 16), 'threefish1024': (128, 128),
 'threefish256': (32, 32), 'threefish512': (64, 64), 'trax_l': (32, 32), 'trax_m': (16, 16),
 'twofish': (16, 32), 'xtea': (8, 16)}
# hash: (output bytes, input block bytes, max salt)
HASHES = {'md5': (16, 64, 0), 'sha1': (20, 64, 0), 'sha2_256': (32, 64, 0), 'sha2_512': (64, 128, 0), 'sha3': (64, 72, 0),
 'tiger': (24, 64, 0), 'whirlpool': (64, 64, 0), 'blake256': (32, 64, 16), 'blake512': (64, 128, 32), 'blake2s': (32, 64, 8),
 'blake2b': (64, 128, 16), 'keccak1600': (32, 136, 0), 'keccak800': (16, 68, 0), 'skein256': (32, 32, 40),
 'skein512': (64, 64, 70), 'skein1024': (128, 128, 130)}
NATIVE_MACS = {'keccak1600': (49, 136), 'keccak800': (49, 68), 'skein256': (32, 32), 'skein512': (64, 64), 'skein1024': (128, 128)}
HMAC = {'md5': (16, 64), 'sha1': (20, 64), 'sha2_256': (32, 64), 'sha2_512': (64, 128), 'sha3': (32, 200), 'tiger': (24, 64),
 'whirlpool': (64, 64), 'blake256': (32, 64), 'blake512': (64, 128), 'blake2s': (32, 64), 'blake2b': (64, 128),
 'keccak1600': (32, 200), 'keccak800': (16, 100), 'skein256': (32, 32), 'skein512': (64, 64), 'skein1024': (128, 128)}
CMAC = {'aes': 16, 'blowfish': 8, 'des': 8, 'threefish256': 32, 'threefish512': 64, 'threefish1024': 128, 'rijndael256': 32, 'speck32': 4}
CMAC_KEYS = {'aes': [16, 24, 32], 'des': [16, 8, 24], 'rijndael256': [16, 32], 'threefish256': [16, 32], 'speck32': [8]}
VALUED = lambda g: g != 'kripto_block_blowfish'  # a key schedule of 521 encryptions exceeds the value-number limit
# native stream cipher: (key lengths, iv lengths, block)
STREAMS = {'chacha': ([16, 32], [0, 8, 24], 64), 'salsa20': ([16, 32], [0, 8, 24], 64), 'rc4': ([1, 16, 256], [0], 1),
 'keccak1600': ([16, 49], [0, 8, 200], 100), 'keccak800': ([16, 49], [0, 8, 100], 50), 'skein256': ([16, 32, 40], [0, 16, 40], 32),
 'skein512': ([16, 64, 70], [0, 16, 70], 64), 'skein1024': ([16, 128, 130], [0, 16, 130], 128)}
MODES = {'aes': 16, 'des': 8, 'threefish256': 32, 'speck32': 4}
CTR, CBC, CFB, OFB, ECB = 1, 2, 3, 4, 5


def uniq(l):
    return list(dict.fromkeys(l))


def cuts(tier, n, bs):
    """sizes of the first two of three chunks"""
    q = [(n // 3, n // 2), (bs, bs)]
    if tier == 'thorough':
        q += [(1, n - 1), (0, n // 2), (bs - 1, bs + 1), (bs - 1, 1), (1, bs - 1), (n, 0), (0, n)]
    return uniq(c for c in q if c[0] >= 0 and c[1] >= 0 and sum(c) <= n)


def block(tier):
    for b, (bs, mk) in BLOCKS.items():
        g = 'kripto_block_' + b
        ks = range(1, mk + 1) if tier == 'thorough' else uniq(k for k in (1, 5, 7, 8, 9, 10, 15, 16, 17, 24, 25, 31, 32, 33, 40, 56, 64, 127, 128, 129, 254, 255, mk - 1, mk) if 0 < k <= mk)
        for k in ks:
            yield f'drv_block 3 {g} 0 {k}'
    for kind in (0, 1, 2):
        for k in (1, 16, 31, 32) if tier == 'quick' else range(1, 33):
            yield f'drv_gost 3 {kind} 0 {k}'


def block_re(tier):
    for b, (bs, mk) in BLOCKS.items():
        g = 'kripto_block_' + b
        h = max(mk // 2, 1)
        ps = [(mk, 1), (1, mk), (h, mk), (mk, h), (mk, mk)]
        if tier == 'thorough':
            ks = [k for k in (1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255) if k <= mk]
            ps += [(a, c) for a in ks for c in ks]
        for a, c in uniq(ps):
            yield f'drv_block_re 4 {g} 0 {a} 0 {c}'
    for a, c in ((32, 1), (1, 32), (32, 32), (16, 32)):
        yield f'drv_gost_re 4 0 0 {a} 0 {c}'


def rounds(tier):
    """non-default round counts: either honoured or rejected by assertion"""
    rs = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 20, 24, 31, 32, 33, 36, 40, 64, 65] if tier == 'quick' else list(range(1, 100)) + [100, 101, 127, 128, 129, 200, 255, 256]
    for b, (bs, mk) in BLOCKS.items():
        g = 'kripto_block_' + b
        for r in rs:
            for k in uniq([mk] if tier == 'quick' else [1, max(mk // 2, 1), mk]):
                yield f'drv_block -1 {g} {r} {k}'
        for r, q in ((8, 16), (16, 8), (0, 8), (8, 0), (24, 8)):
            yield f'drv_block_re {1 if r == 8 else -1} {g} {r} {mk} {q} {max(mk // 2, 1)}'
    for r in rs:
        yield f'drv_gost -1 1 {r} 32'
    for r, q in ((8, 16), (16, 8), (0, 8), (8, 0)):
        yield f'drv_gost_re 1 1 {r} 32 {q} 16'
    hr = [1, 2, 7, 10, 11, 16, 24, 40, 41, 48, 49, 64, 80, 128, 129, 160, 161] if tier == 'quick' else list(range(1, 60)) + [63, 64, 65, 79, 80, 81, 127, 128, 129, 159, 160, 161, 200, 255]
    for h, (ol, bs, sl) in HASHES.items():
        for r in hr:
            yield f'drv_hash -1 kripto_hash_{h} {r} 0 {ol} 3'
            if tier == 'thorough':
                yield f'drv_hash -1 kripto_hash_{h} {r} {sl} {ol} {2 * bs + 1}'
    for s, (ks, ivs, bs) in STREAMS.items():
        for r in hr:
            yield f'drv_stream -1 kripto_stream_{s} 0 {r} {ks[0]} {ivs[-1]} {bs + 1}'
    for m, (mt, bs) in NATIVE_MACS.items():
        for r in hr:
            yield f'drv_mac -1 kripto_mac_{m} 0 {r} 16 {mt} {bs + 1}'


def pads(bs):
    """message lengths around the place where the padding no longer fits into the block, for length fields of 8, 16 and 32 bytes"""
    return [bs - k for k in (33, 32, 17, 16, 9, 8) if bs >= k]


def hash_(tier):
    for h, (ol, bs, sl) in HASHES.items():
        g = 'kripto_hash_' + h
        for n in range(0, 2 * bs + 10):
            yield f'drv_hash {2 if n == 1 else -1} {g} 0 0 {ol} {n}'
        for o in range(1, ol):
            yield f'drv_hash -1 {g} 0 0 {o} 3'
        for s in range(1, sl + 1):
            yield f'drv_hash -1 {g} 0 {s} {ol} 3'
        for s in uniq([1, sl // 2, sl]) if sl else []:
            yield f'drv_hash 2 {g} 0 {s} {ol} 3'


def hash_split(tier):
    for h, (ol, bs, sl) in HASHES.items():
        g = 'kripto_hash_' + h
        ns = [0, 1, *pads(bs), bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 7] if tier == 'quick' else list(range(0, 2 * bs + 10, 3))
        for n in ns:
            for c in cuts(tier, n, bs):
                yield f'drv_hash_split -1 {g} 0 0 {ol} {n} {c[0]} {c[1]}'
        for n in [9 * bs + 5] if tier == 'quick' else [4 * bs, 5 * bs + 3, 9 * bs + 5, 17 * bs + 1]:
            for c in ((3, n // 2), (bs - 1, 5 * bs + 2))[:1 if tier == 'quick' and bs > 64 else 2] if n > 6 * bs else ((1, n // 2),):
                yield f'drv_hash_split -1 {g} 0 0 {ol} {n} {c[0]} {c[1]}'
        if sl:
            for s in uniq([1, sl]):
                yield f'drv_hash_split -1 {g} 0 {s} {ol} {bs + 3} 1 {bs}'


def hash_all(tier):
    for h, (ol, bs, sl) in HASHES.items():
        g = 'kripto_hash_' + h
        for n in [0, 5, bs] + ([] if tier == 'quick' else [1, bs - 1, bs + 1, 2 * bs + 3]):
            yield f'drv_hash_all 4 {g} 0 0 {ol} {n}'
        yield f'drv_hash_all -1 {g} 0 0 {max(ol // 2, 1)} {bs + 1}'
        yield f'drv_hash_all -1 {g} 0 0 {ol - 1} {2 * bs - 3}'
        for r in HROUNDS.get(h, ())[-2:]:
            yield f'drv_hash_all -1 {g} {r} {sl // 2} {ol} {bs + 1}'
        if sl:
            yield f'drv_hash_all 4 {g} 0 {sl} {ol} 5'
            yield f'drv_hash_all -1 {g} 0 {sl // 2 + 1} {ol - 2} {bs}'
            yield f'drv_hash_all -1 {g} 0 1 {ol} 3'


def hash_re(tier):
    for h, (ol, bs, sl) in HASHES.items():
        g = 'kripto_hash_' + h
        for fin in (0, 1):
            yield f'drv_hash_re 4 {g} 0 0 {ol} {bs + 5} {fin} 0 0 {ol} {bs + 1}'
            yield f'drv_hash_re 4 {g} 0 {min(sl, 3)} {ol // 2} 5 {fin} 0 0 {ol} 0'
            yield f'drv_hash_re 4 {g} 0 0 {ol} 5 {fin} 0 {sl} {ol // 2} 3'
            if tier == 'thorough':
                for n in range(0, bs + 2, 5):
                    yield f'drv_hash_re -1 {g} 0 {sl} {ol} {n} {fin} 0 {sl // 2} {ol} {n}'


def hash_xof(tier):
    for h in ('keccak1600', 'keccak800', 'skein256', 'skein512', 'skein1024'):
        ol, bs, sl = HASHES[h]
        g = 'kripto_hash_' + h
        tot = 3 * bs + 7
        for a, b in [(bs, 3), (bs - 1, bs + 2), (1, 2 * bs)] + ([] if tier == 'quick' else [(i, j) for i in range(0, bs + 2, 7) for j in (1, bs, bs + 1)]):
            yield f'drv_hash_xof -1 {g} 0 {tot if h.startswith("skein") else ol} 5 {tot} {a} {b}'


def macs():
    for m, (mt, bs) in NATIVE_MACS.items():
        yield 0, 'kripto_mac_' + m, mt, bs, [1, 16, bs - 1, bs, bs + 1, 2 * bs + 3]
    for h, (ol, bs) in HMAC.items():
        yield 1, 'kripto_hash_' + h, ol, bs, [1, bs - 1, bs, bs + 1]
    for b, bs in CMAC.items():
        for k in (2, 3):
            yield k, 'kripto_block_' + b, bs, bs, CMAC_KEYS.get(b, [16])


def mac(tier):
    for k, g, mt, bs, kls in macs():
        for kl in kls:
            for n in [0, 1, bs - 1, bs, bs + 1, 2 * bs + 3] if tier == 'quick' else uniq(list(range(0, 20)) + list(range(bs - 2, bs + 3)) + [2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs]):
                yield f'drv_mac {3 if n == 1 else -1} {g} {k} 0 {kl} {mt} {n}'
        kl = 16 if k == 0 else kls[0]
        for t in range(1, mt):
            yield f'drv_mac -1 {g} {k} 0 {kl} {t} 3'
        # every length of the key
        for kl in range(1, kls[-1] + 1) if k < 2 else ():
            yield f'drv_mac -1 {g} {k} 0 {kl} {mt} 3'


def mac_split(tier):
    for k, g, mt, bs, kls in macs():
        if not VALUED(g):
            continue
        kl = 16 if k == 0 else kls[0]
        if bs < 100 or tier == 'thorough':
            for n in [300 // bs * bs + 3]:
                yield f'drv_mac_split -1 {g} {k} 0 {kl} {mt} {n} 1 {n // 2}'
        for n in [0, bs, 2 * bs, 2 * bs + 7] if tier == 'quick' else range(0, 2 * bs + 8, 5):
            for c in cuts(tier, n, bs):
                yield f'drv_mac_split -1 {g} {k} 0 {kl} {mt} {n} {c[0]} {c[1]}'


def mac_verify(tier):
    for k, g, mt, bs, kls in macs():
        kl = 16 if k == 0 else kls[0]
        for n in [0, bs, 2 * bs + 7]:
            yield f'drv_mac_verify 3 {g} {k} 0 {kl} {mt} {n}'
        for t in uniq([1, mt // 2] if tier == 'quick' else range(1, mt)):
            yield f'drv_mac_verify -1 {g} {k} 0 {kl} {t} 3'


def mac_all(tier):
    for k, g, mt, bs, kls in macs():
        if not VALUED(g):
            continue
        kl = 16 if k == 0 else kls[0]
        for n in [5] if tier == 'quick' else [0, 1, 5, bs, bs + 1]:
            yield f'drv_mac_all 6 {g} {k} 0 {kl} {mt} {n}'
        yield f'drv_mac_all -1 {g} {k} 0 {kls[-1]} {max(mt // 2, 1)} {bs + 1}'
        yield f'drv_mac_all -1 {g} {k} 0 {kls[0]} {mt} {2 * bs}'
        yield f'drv_mac_all -1 {g} {k} 0 {kls[-1]} 1 0'


def mac_re(tier):
    for k, g, mt, bs, kls in macs():
        if not VALUED(g):
            continue
        kl = 16 if k == 0 else kls[0]
        for fin in (0, 1):
            for kl2 in uniq(kls[-1:] + kls[:1]) if tier == 'quick' else kls:
                yield f'drv_mac_re 8 {g} {k} 0 {kl} {mt} {bs + 3} {fin} 0 {kl2} {mt} {bs + 1}'
                yield f'drv_mac_re -1 {g} {k} 0 {kl} {max(mt // 2, 1)} {bs + 3} {fin} 0 {kl2} {mt} 0'


def streams():
    for s, (kls, ils, bs) in STREAMS.items():
        yield 0, 'kripto_stream_' + s, kls, ils, bs
    for b, bs in MODES.items():
        for k in (CTR, CBC, CFB, OFB, ECB):
            yield k, 'kripto_block_' + b, [8], [0, 1, bs] if k != ECB else [0], bs


def stream(tier):
    for k, g, kls, ils, bs in streams():
        for kl in kls:
            for il in ils:
                for n in [0, 1, bs, bs + 1, 3 * bs] if tier == 'quick' else uniq(list(range(0, 12)) + [bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 3 * bs, 4 * bs + 1]):
                    yield f'drv_stream {2 if n == 1 else -1} {g} {k} 0 {kl} {il} {n}'
        # every length of key and IV
        if k == 0:
            for kl in range(kls[0] if kls[0] < 16 else 16, kls[-1] + 1):
                yield f'drv_stream -1 {g} {k} 0 {kl} {ils[-1]} {min(bs, 64) + 1}'
            for il in range(ils[-1] + 1):
                yield f'drv_stream -1 {g} {k} 0 {kls[-1]} {il} {min(bs, 64) + 1}'


def stream_split(tier):
    for k, g, kls, ils, bs in streams():
        for kl in kls:
            for il in ils:
                if k in (CBC, ECB):
                    cs = [(bs, 2 * bs)] if tier == 'quick' else [(bs, 2 * bs), (0, bs), (2 * bs, 2 * bs), (bs, bs)]
                    n = 4 * bs
                else:
                    cs = [(1, bs), (bs, 1), (bs // 2, bs // 2 + 1), (0, bs)] if tier == 'quick' else [(i, j) for i in uniq([0, 1, 2, bs // 2, bs - 1, bs, bs + 1]) for j in uniq([0, 1, bs // 2 + 1, bs - 1, bs, bs + 1]) if i + j <= 2 * bs + bs // 2 and i >= 0 and j >= 0]
                    n = 2 * bs + bs // 2
                for a, b in uniq(cs):
                    if a + b <= n:
                        yield f'drv_stream_split -1 {g} {k} 0 {kl} {il} {n} {a} {b}'
                if kl == kls[-1] and il == ils[-1] and k not in (CBC, ECB):
                    n = max(7 * bs, 300) + 5
                    yield f'drv_stream_split -1 {g} {k} 0 {kl} {il} {n} 1 {n // 2}'
                if bs < 64 and il == ils[-1]:
                    m = bs * (96 // bs) if k in (CBC, ECB) else 91
                    yield f'drv_stream_split -1 {g} {k} 0 {kl} {il} {m} {70 // bs * bs if k in (CBC, ECB) else 70} {bs if k in (CBC, ECB) else 10}'


def stream_xor(tier):
    for k, g, kls, ils, bs in streams():
        if k in (CBC, CFB, ECB):
            continue
        for kl in kls:
            for il in ils:
                for n in [3 * bs + 1] if tier == 'quick' else [1, bs, 3 * bs + 1, 4 * bs]:
                    yield f'drv_stream_xor -1 {g} {k} 0 {kl} {il} {n}'


def stream_re(tier):
    for k, g, kls, ils, bs in streams():
        for kl in kls:
            for il in ils:
                yield f'drv_stream_re 6 {g} {k} 0 {kls[0]} {ils[0]} {bs + 1} 0 0 {kl} {il} {2 * bs + 1}'
                yield f'drv_stream_re -1 {g} {k} 0 {kls[-1]} {ils[-1]} {bs + 1} 0 0 {kl} {il} {2 * bs + 1}'


def aes_():
    out = []
    for b, bs in {'aes': 16, 'des': 8, 'threefish256': 32}.items():
        out.append((0, 'kripto_block_' + b, 'kripto_block_aes', bs, bs, bs))
        out.append((2, 'kripto_block_' + b, 'kripto_block_aes', bs, bs, bs))
    out.append((1, 'kripto_stream_chacha', 'kripto_mac_keccak1600', 32, 16, 24))
    out.append((3, 'kripto_stream_salsa20', 'kripto_hash_sha2_256', 32, 16, 24))
    out.append((3, 'kripto_stream_chacha', 'kripto_hash_sha2_512', 64, 16, 24))
    out.append((1, 'kripto_stream_skein512', 'kripto_mac_skein256', 32, 16, 32))
    return out


def ae(tier):
    for k, d, e, mt, bs, miv in aes_():
        ks = f'{d} {e} {k} 0 16'
        for il in uniq([0, 1, 8, miv] if tier == 'quick' else [0, 1, 3, 8, miv - 1, miv]):
            for hl in [0, 5] if tier == 'quick' else [0, 1, bs, bs + 1]:
                for n in [0, 1, bs, 2 * bs + 3]:
                    for tl in [mt, mt // 2] if tier == 'quick' else [mt, mt // 2, 1]:
                        yield f'drv_ae {8 if n == 1 and tl == mt and il == 8 else -1} {ks} {il} {hl} {tl} {n}'
        for il in range(miv + 1):
            yield f'drv_ae -1 {ks} {il} 3 {mt} {bs + 1}'


def ae_peer(tier):
    for k, d, e, mt, bs, miv in aes_():
        for il in uniq([1, 8, miv] if tier == 'quick' else [0, 1, 3, 8, miv]):
            for hl in [0, 5]:
                for n in [0, 1, bs, 2 * bs + 3]:
                    yield f'drv_ae_peer -1 {d} {e} {k} 0 16 {il} {hl} {mt} {n}'


def ae_split(tier):
    for k, d, e, mt, bs, miv in aes_():
        for il in uniq([1, 8, miv]):
            for a, b in [(3, bs), (bs, bs)] if tier == 'quick' else [(3, bs), (bs, bs), (0, 1), (1, 0), (bs - 1, bs + 1)]:
                yield f'drv_ae_split -1 {d} {e} {k} 0 16 {il} 7 {mt} {3 * bs} {a} {b}'
            if il == miv:
                yield f'drv_ae_split -1 {d} {e} {k} 0 16 {il} 7 {mt} 300 1 150'


def ae_re(tier):
    for k, d, e, mt, bs, miv in aes_():
        for il in uniq([0, 8, miv] if tier == 'quick' else [0, 1, 8, miv]):
            for fin in (0, 1):
                yield f'drv_ae_re 12 {d} {e} {k} 0 8 8 {bs + 1} {mt} {fin} 0 16 {il} 3 {mt} {bs + 1}'
                yield f'drv_ae_re -1 {d} {e} {k} 0 16 0 {bs + 1} {mt // 2} {fin} 0 8 {il} 3 {mt} {bs + 1}'


def aged(tier):
    """recreate after an arbitrary history (kai_age)"""
    for h, (ol, bs, sl) in HASHES.items():
        g = 'kripto_hash_' + h
        yield f'drv_hash_re -1 {g} 0 0 {ol} {bs + 5} 2 0 0 {ol} {bs + 1}'
        yield f'drv_hash_re -1 {g} 0 0 {ol // 2} {bs + 5} 2 0 {sl} {ol} 3'
    for k, g, mt, bs, kls in macs():
        if not VALUED(g):
            continue
        kl = 16 if k == 0 else kls[0]
        for kl2 in uniq([kls[-1], kls[0]]):
            yield f'drv_mac_re -1 {g} {k} 0 {kl} {mt} {bs + 3} 2 0 {kl2} {mt} {bs + 1}'
    for k, g, kls, ils, bs in streams():
        for il in ils:
            yield f'drv_stream_re -1 {g} {k} 0 {kls[0]} {ils[-1]} {bs + 1} 2 0 {kls[-1]} {il} {2 * bs + 1}'
    for k, d, e, mt, bs, miv in aes_():
        for il in uniq([0, 8, miv]):
            yield f'drv_ae_re -1 {d} {e} {k} 0 16 8 {bs + 1} {mt} 2 0 16 {il} 3 {mt} {bs + 1}'


PRFS = [(1, 'kripto_hash_sha1', 20), (1, 'kripto_hash_sha2_256', 32), (0, 'kripto_mac_skein256', 32), (0, 'kripto_mac_keccak1600', 49)]


def kdf(tier):
    for k, g, ol in PRFS:
        for it in [1, 2, 3] if tier == 'quick' else [1, 2, 3, 4, 7]:
            for sl in [0, 8] if it > 1 else range(0, 70):
                for o in [1, ol, ol + 1, 2 * ol + 3] if sl in (0, 8) else [ol]:
                    yield f'drv_pbkdf2 -1 {g} {k} 0 {it} 5 {sl} {o}'
        yield f'drv_pbkdf2 8 {g} {k} 0 2 5 3 {ol + 1}'
        for n, r, p in [(2, 1, 1), (4, 1, 2), (2, 2, 1)] + ([] if tier == 'quick' else [(8, 1, 1), (2, 3, 2), (16, 2, 2)]):
            yield f'drv_scrypt 8 {g} {k} 0 {n} {r} {p} 3 2 {ol + 1}'


def pkcs7(tier):
    for n in [0, 1, 7, 8, 15, 16, 17, 31] if tier == 'quick' else range(0, 70):
        for pad in [8, 16]:
            for mx in uniq([n, n + 1, n + pad, 64]):
                yield f'drv_pkcs7_add -1 {n} {pad} {mx}'
        yield f'drv_pkcs7_rem -1 {n}'
    for b, mx in ((256, 512), (128, 512), (255, 512), (128, 137)):
        yield f'drv_pkcs7_add -1 10 {b} {mx}'
    yield 'drv_pkcs7_rem -1 300'


def memory(tier):
    for n in [0, 1, 7, 8, 15, 16, 17, 31, 64] if tier == 'quick' else range(0, 130):
        yield f'drv_memory -1 {n}'


def memory_eq(tier):
    for n in [1, 2, 7, 8, 16, 31, 64] if tier == 'quick' else list(range(1, 66)) + [100, 128, 255]:
        for d in [1, 2, 4, 8, 16, 32, 64, 128, 255, 0x5a] if tier == 'quick' or n > 16 else range(1, 256):
            yield f'drv_memory_eq -1 {n} {d}'


def random_(tier):
    for n in [1, 7, 16, 31, 100] if tier == 'quick' else range(1, 64):
        yield f'drv_random 2 {n}'
    yield 'drv_random -1 0'


# hashes against published definitions: (number in refhash.c, digest sizes, block, most salt)
HREF = {'md5': (0, [16], 64, 0), 'sha1': (1, [20], 64, 0), 'sha2_256': (2, [32, 28], 64, 0), 'sha2_512': (3, [64, 48], 128, 0),
 'sha3': (4, [64, 32, 48, 28], 0, 0), 'keccak1600': (5, [32, 64, 28, 48], 0, 0), 'tiger': (6, [24, 16, 20], 64, 0), 'whirlpool': (7, [64], 64, 0),
 'blake256': (8, [32, 28], 64, 16), 'blake512': (9, [64, 48], 128, 32), 'blake2s': (10, [32, 28, 20, 16], 64, 8), 'blake2b': (11, [64, 48, 32, 20], 128, 16),
 'keccak800': (15, [32, 16, 49], 0, 0), 'skein256': (12, [32, 16, 71], 32, 40), 'skein512': (13, [64, 32, 71], 64, 70), 'skein1024': (14, [128, 64, 47], 128, 130)}


# round numbers other than the default
HROUNDS = {'sha2_256': [16, 24, 56], 'sha2_512': [24, 40, 72], 'sha3': [1, 12, 30], 'keccak1600': [2, 23, 48], 'keccak800': [1, 20, 40], 'whirlpool': [1, 5, 9],
 'blake256': [1, 8, 20], 'blake512': [3, 14, 21], 'blake2s': [1, 7, 23], 'blake2b': [5, 10, 16], 'skein256': [8, 32, 80], 'skein512': [16, 36, 72], 'skein1024': [8, 72, 88]}


def hash_def(tier):
    """digest = published definition"""
    for h, (alg, ols, blk, sl) in HREF.items():
        cap = 1024 if h.startswith('blake') else 256
        for ol in ols:
            bs = blk or (100 if h == 'keccak800' else 200) - 2 * ol
            if tier == 'quick':
                ns = uniq([0, 3, *pads(bs), bs - 1, bs, bs + 1, 2 * bs + 3] if ol == ols[0] else [5, bs])
            else:
                ns = range(0, 2 * bs + 3) if ol == ols[0] else range(0, 2 * bs + 3, 7)
            for i, n in enumerate(ns):
                yield f'drv_hash_ref -1 kripto_hash_{h} {alg} 0 0 {ol} {n} {n * (i % 4) // 3} {i % 3} {cap}'
            for s in uniq([1, sl // 2, sl]) if sl else []:
                yield f'drv_hash_ref -1 kripto_hash_{h} {alg} 0 {s} {ol} {bs + 3} 7 {s % 3} {cap}'
        ol = ols[0]
        bs = blk or (100 if h == 'keccak800' else 200) - 2 * ol
        for n in [12 * bs + 5] if tier == 'quick' else [12 * bs, 33 * bs + 1]:
            yield f'drv_hash_ref -1 kripto_hash_{h} {alg} 0 0 {ol} {n} {5 * bs + 1} 1 {cap}'
        rs = HROUNDS.get(h, [])
        for i, r in enumerate(rs[::2] if tier == 'quick' else rs):
            for n in (bs + 3,) if tier == 'quick' else (0, bs, 2 * bs + 3):
                yield f'drv_hash_ref -1 kripto_hash_{h} {alg} {r} 0 {ol} {n} {n // 2} {(i + n) % 3} {cap}'


def mac_def(tier):
    """HMAC, OMAC, XCBC over any primitive; Skein-MAC and keyed Keccak"""
    q = tier == 'quick'
    for bs, mo in ((64, 32), (64, 16), (128, 64), (200, 32)) if q else ((64, 32), (64, 20), (64, 16), (64, 64), (128, 64), (128, 48), (200, 32), (72, 64), (32, 32)):
        for kl in [1, mo, bs - 1, bs, bs + 1, 2 * bs + 1]:
            for n in [0, 33, bs, 3 * bs + 1]:
                for r, re in ((0, 0), (0, 1), (7, 2)) if q else ((0, 0), (5, 0), (0, 1), (7, 1), (0, 2), (7, 2)):
                    yield f'drv_hmac -1 {bs} {mo} {r} {kl} {n} {n // 3} {re}'
    for k in (2, 3):
        for bs in (4, 8, 16, 32, 64, 128) if k == 2 else (4, 8, 16, 32):
            for i, n in enumerate(uniq([0, 1, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 1]) if q else range(0, min(4 * bs + 2, 140))):
                for re in (0, 1, 2):
                    for tl in uniq([bs, bs // 2] if q else [bs, bs // 2, 1, bs - 1]):
                        yield f'drv_cmac -1 {k} {bs} {0 if i % 2 else 9} {8 + 8 * (i % 3)} {tl} {n} {n * (i % 3) // 2} {re}'
    for m, alg, bs, tls in (('keccak1600', 5, 136, [32, 48]), ('keccak800', 15, 68, [16, 32]), ('skein256', 12, 32, [32, 16]), ('skein512', 13, 64, [64, 32]), ('skein1024', 14, 128, [128, 64])):
        for tl in tls:
            for kl in [1, 16, bs - 1, bs, bs + 1, 2 * bs + 3]:
                for i, n in enumerate([0, 5, bs, 2 * bs + 3] if q else [0, 1, 5, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 3]):
                    yield f'drv_mac_ref -1 kripto_mac_{m} {alg} {8 if i == 1 else 0} {kl} {tl} {n} {n // 3} {(i + kl) % 3}'


def mode_def(tier):
    """CTR, CBC, CFB, OFB, ECB over any block cipher = their definitions; both directions invert each other"""
    q = tier == 'quick'
    for k in (CTR, CBC, CFB, OFB, ECB):
        for bs in (4, 8, 16, 32, 128) if q else (4, 8, 12, 16, 32, 64, 128):
            for il in uniq([0, 1, bs // 2, bs] if k != ECB else [0]):
                for re in (0, 1):
                    if k in (CBC, ECB):
                        sz = [(0, 0), (bs, 0), (3 * bs, bs), (5 * bs, 2 * bs)] + ([] if q else [(4 * bs, 0), (4 * bs, 4 * bs), (6 * bs, 3 * bs)])
                    else:
                        sz = [(0, 0), (1, 0), (bs, 1), (3 * bs + 1, bs - 1), (3 * bs + 1, bs), (3 * bs + 2, bs + 1), (4 * bs, 2 * bs)]
                        if not q:
                            sz += [(3 * bs + 1, a) for a in range(0, min(3 * bs, 70))]
                    for i, (n, a) in enumerate(uniq(sz)):
                        yield f'drv_mode -1 {k} {bs} {0 if i % 2 else 11} {8 + 8 * (i % 3)} {il} {n} {a} {re}'
    yield 'drv_mode -1 1 4 0 8 4 1100 513 0'
    yield 'drv_mode -1 1 16 0 16 16 1200 513 1'


def ae_def(tier):
    """EAX over any block cipher, EAX2 over any stream cipher and MAC"""
    q = tier == 'quick'
    for bs in (8, 16, 32) if q else (4, 8, 16, 32, 64):
        for i, il in enumerate(uniq([0, 1, bs - 1, bs])):
            for hl in (0, 5, bs, 2 * bs + 1):
                for n in (0, 1, bs, 2 * bs + 3):
                    for re in ((i + hl + n) % 3,) if q else (0, 1, 2):
                        yield f'drv_eax -1 {bs} {0 if n % 2 else 9} {16 + 8 * (hl % 3)} {il} {hl} {bs if n % 2 else max(bs // 2, 1)} {n} {n // 3} {re}'
    for ms, mm in ((64, 64), (32, 64), (64, 16), (16, 8)):
        for i, kl in enumerate((2, 16, 17, 24)):
            for il in (0, 1, 8, 24):
                for tl in (1, 16, 32):
                    for n in (0, 1, 33) if q else (0, 1, 16, 33, 65):
                        for re in ((i + il + tl + n) % 3,) if q else (0, 1, 2):
                            yield f'drv_eax2 -1 {ms} {mm} {0 if n % 2 else 9} {kl} {il} {5 * (n % 3)} {tl} {n} {n // 3} {re}'


def kdf_def(tier):
    """PBKDF2 and scrypt over any MAC"""
    q = tier == 'quick'
    for mt in (16, 20, 32, 64):
        for it in (1, 2, 3) if q else (1, 2, 3, 4, 5, 9):
            for pl in (1, 5, 33):
                for sl in (0, 4, 20):
                    for n in (1, mt - 1, mt, mt + 1, 3 * mt + 2) if q else (1, mt - 1, mt, mt + 1, 2 * mt, 3 * mt + 2, 5 * mt):
                        yield f'drv_pbkdf2_def -1 {mt} {0 if n % 2 else 7} {it} {pl} {sl} {n}'
    for n, r, p in [(2, 1, 1), (4, 1, 1), (1, 1, 2), (2, 2, 2), (8, 1, 2)] + ([] if q else [(16, 1, 1), (8, 2, 3), (4, 2, 1), (16, 2, 2)]):
        for mt in (20, 32, 64):
            for pl, sl, ol in ((3, 4, 40), (1, 0, 64)):
                yield f'drv_scrypt_def -1 {mt} {0 if ol == 64 else 7} {n} {r} {p} {pl} {sl} {ol}'


# normal forms of the two directions do not meet: such a comparison can refute, not prove
OPEN_INVERSE = ('3way', 'noekeon', 'rectangle', 'serpent', 'idea')


def re_rounds(tier):
    """recreate with another number of rounds: the object may have to be released and made again"""
    def rs(b):
        return REFROUNDS.get(b, [5, 8])[-2:]
    for b, (bs, mk) in BLOCKS.items():
        rr = rs(b)
        ps = [(0, r) for r in rr[-1:]] + [(r, 0) for r in rr[-1:]] + ([(rr[0], rr[1]), (rr[1], rr[0])] if len(rr) > 1 else [])
        if tier == 'thorough':
            ps += [(a, c) for a in (0, 4, 8, 12, 16, 20, 24, 32, 40) for c in (0, 4, 8, 12, 16, 20, 24, 32, 40)]
        for i, (a, c) in enumerate(uniq(ps)):
            yield f'drv_block_re {4 if i < 2 else -1} kripto_block_{b} {a} {mk} {c} {max(mk // 2, 1) if i % 2 else mk}'
    for a, c in ((0, 16), (16, 0), (16, 24)):
        yield f'drv_gost_re 4 {a % 3} {a} 32 {c} 32'
    carriers = [('xtea', 8, 16, 32), ('rc6', 16, 16, 12)] if tier == 'quick' else [('xtea', 8, 16, 32), ('rc6', 16, 16, 12), ('speck32', 4, 8, 9), ('sm4', 16, 16, 8), ('trax_l', 32, 32, 8), ('rc5', 8, 16, 5)]
    for b, bs, kl, r in carriers:
        g = 'kripto_block_' + b
        for a, c in ((0, r), (r, 0)):
            for k in (CTR, CBC, CFB, OFB, ECB):
                yield f'drv_stream_re 6 {g} {k} {a} {kl} {bs if k != ECB else 0} {bs + 1} {int(c == r) * 2 if tier == "thorough" else 0} {c} {kl} {1 if k != ECB else 0} {2 * bs + 1}'
            for k in (2, 3):
                yield f'drv_mac_re 8 {g} {k} {a} {kl} {bs} {bs + 3} {int(a == r)} {c} {kl} {bs} {bs + 1}'
            yield f'drv_ae_re 12 {g} kripto_block_aes 0 {a} {kl} 8 {bs + 1} {bs} {int(a == r)} {c} {kl} 3 3 {bs} {bs + 1}'
    for s, (ks, ils, bs) in STREAMS.items():
        if s != 'rc4':
            for a, c in ((0, 12), (12, 0)):
                yield f'drv_stream_re 6 kripto_stream_{s} 0 {a} {ks[-1]} {ils[0]} {bs + 1} 0 {c} {ks[0]} {ils[-1]} {bs + 1}'
    for m, (mt, bs) in NATIVE_MACS.items():
        for a, c in ((0, 12), (12, 0)):
            yield f'drv_mac_re 8 kripto_mac_{m} 0 {a} 16 {mt} {bs + 1} {int(a == 0)} {c} 17 {mt} 5'
    for h, r in (('blake2s', 7), ('sha2_256', 32), ('whirlpool', 8), ('skein256', 36), ('keccak800', 12)):
        ol, bs = HMAC[h]
        for a, c in ((0, r), (r, 0)):
            yield f'drv_mac_re 8 kripto_hash_{h} 1 {a} 16 {ol} 5 {int(a == 0)} {c} {bs + 1} {ol} 5'
    for h, (ol, bs, sl) in HASHES.items():
        for a, c in ((0, 40), (40, 0), (0, 8)):
            yield f'drv_hash_re 4 kripto_hash_{h} {a} 0 {ol} {bs + 5} {int(a == 0)} {c} {sl} {ol} 7'
    for k, d, e, mt, bs, miv in aes_()[-4:]:
        yield f'drv_ae_re 12 {d} {e} {k} 0 16 8 {bs + 1} {mt} 0 12 16 {miv} 3 {mt} {bs + 1}'


def block_inv(tier):
    """decryption inverts encryption, for every key and block"""
    for b, (bs, mk) in BLOCKS.items():
        if b == 'blowfish':
            continue
        ks = uniq(k for k in ([mk] if tier == 'quick' and b in OPEN_INVERSE else [1, mk // 2, mk] if tier == 'quick' else [1, 5, 7, 8, 9, 12, 16, 17, 20, 24, 25, 28, 31, 32, 40, 56, 64, 127, 128, 129, 255]) if 0 < k <= mk)
        for i, k in enumerate(ks):
            for r in (0, *((1, 2, 3, 5, 8, 16) if i == len(ks) - 1 else ())) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 16, 20, 24, 31, 32):
                yield f'drv_inverse -1 kripto_block_{b} {r} {k} {i % 2} 4096'
    for kind in (0, 1, 2):
        for k in (16, 32):
            yield f'drv_gost_inverse -1 {kind} 0 {k} {k // 32}'


# block ciphers against published definitions: order of the enumeration in ref/block.h
REFBLOCKS = ('tea xtea rc5 rc6 rc2 speck32 speck64 speck128 simon32 simon64 simon128 lea shacal2 crax_s trax_m trax_l threefish256 '
 'threefish512 threefish1024 skipjack sm4 seed khazad anubis rijndael128 rijndael256 aria idea 3way noekeon rectangle serpent '
 'blowfish des safer safer_sk saferpp cast5 camellia twofish').split()
# published key sizes (others: every multiple of 4 or 8 bytes up to the largest)
REFKEYS = {'3way': [12], 'anubis': range(16, 41, 4), 'aria': [16, 24, 32], 'camellia': [16, 24, 32], 'cast5': range(5, 17), 'crax_s': [16], 'des': [8, 16, 24],
 'idea': [16], 'khazad': [16], 'lea': [16, 24, 32], 'noekeon': [16], 'rc2': [1, 5, 8, 16, 33, 64, 127, 128], 'rc5': [1, 5, 16, 24, 32, 104, 105, 255],
 'rc6': [1, 16, 24, 32, 176, 177, 255], 'rectangle': [10, 16], 'rijndael128': [16, 20, 24, 28, 32], 'rijndael256': [16, 20, 24, 28, 32], 'aes': [16, 24, 32], 'safer': [8, 16],
 'safer_sk': [8, 16], 'saferpp': [16, 32], 'seed': [16], 'serpent': [16, 24, 32], 'shacal2': [16, 32, 64], 'simon32': [8], 'simon64': [12, 16],
 'simon128': [16, 24, 32], 'skipjack': [10], 'sm4': [16], 'speck32': [8], 'speck64': [12, 16], 'speck128': [16, 24, 32], 'tea': [16], 'threefish256': [32],
 'threefish512': [64], 'threefish1024': [128], 'trax_m': [16], 'trax_l': [32], 'twofish': [8, 16, 24, 32], 'xtea': [16]}
REFROUNDS = {'des': [], 'rc2': [], 'skipjack': [], 'cast5': [], 'camellia': [], 'threefish256': [], 'threefish512': [], 'threefish1024': [], 'lea': [4, 8], 'shacal2': [16, 32],
 'sm4': [4, 8], 'serpent': [8, 16], 'aria': [2, 8], 'twofish': [2, 8], '3way': [1, 4, 7], 'noekeon': [1, 7, 33], 'simon32': [7, 20], 'simon64': [7, 20], 'simon128': [7, 20], 'rectangle': [1, 7, 13]}
REFDEC = ('3way', 'noekeon', 'rectangle', 'serpent', 'idea')


def block_def(tier):
    """block ciphers = their published definitions"""
    for b in [*REFBLOCKS, 'aes']:
        if b == 'blowfish':
            continue
        mt = {'threefish256': 16, 'threefish512': 16, 'threefish1024': 16, 'trax_m': 8, 'trax_l': 16}.get(b, 0)
        a = REFBLOCKS.index('rijndael128' if b == 'aes' else b)
        for i, k in enumerate(REFKEYS[b]):
            if b == 'twofish' and k == 8 and tier == 'quick':
                continue  # not a published size
            rs = REFROUNDS.get(b, [1, 5, 8] if tier == 'quick' else [1, 2, 3, 5, 7, 8, 12, 16, 20])
            for r in uniq([0, *(rs[i % max(len(rs), 1):][:1] if tier == 'quick' else rs)]):
                for d in ((0, 1) if b in REFDEC else (0,)):
                    re = (i + (r > 0)) % (3 if rs else 2)
                    yield f'drv_block_ref -1 kripto_block_{b} {a} {r} {k} {mt} {d} {re} { {"3way": 5, "shacal2": 16}.get(b, 8)}'
    for kind in (0, 1, 2):
        for k in (16, 32):
            for r in (0,) if tier == 'quick' else (0, 16, 18, 64):
                yield f'drv_gost_ref -1 {kind} {r} {k} {kind % 3}'


def stream_def(tier):
    """ChaCha, XChaCha, Salsa20, XSalsa20, RC4 = their definitions"""
    q = tier == 'quick'
    for i, kl in enumerate((1, 5, 16, 256) if q else (1, 2, 3, 5, 8, 13, 16, 32, 100, 255, 256)):
        for r in (0, (1, 7, 256)[i % 3]) if q else (0, 1, 7, 256, 768):
            for n, a in ((9, 2),) if q else ((1, 0), (9, 2), (40, 39)):
                yield f'drv_stream_ref -1 kripto_stream_rc4 2 {r} {kl} 0 {n} {a} {(i + r) % 3}'
    for j, (s, alg, kls, ils, bs) in enumerate((('skein256', 3, (1, 16, 32, 33), (0, 16, 40), 32), ('skein512', 4, (1, 16, 64, 70), (0, 16, 70), 64), ('skein1024', 5, (16, 128, 130), (0, 16, 130), 128),
                                       ('keccak1600', 6, (1, 16, 32, 49), (0, 8, 200), 136), ('keccak800', 7, (1, 16, 32), (0, 8, 100), 68))):
        for kl in kls:
            for i, il in enumerate(ils):
                for n, a in ((2 * bs + 9, bs - 3),) if q else ((1, 0), (bs, bs), (2 * bs + 9, bs - 3), (3 * bs, 1), (2 * bs + 9, 64)):
                    yield f'drv_stream_ref -1 kripto_stream_{s} {alg} {(0, 0, 8)[(i + kl) % 3]} {kl} {il} {n} {a} {(i + j) % 3}'
    for s, alg, ils in (('chacha', 0, (8, 12, 24)), ('salsa20', 1, (8, 24))):
        for il in ils:
            for kl in (16, 32):
                for r in (0, 1, 7, 8) if q else (0, *range(1, 13), 14, 20, 21, 22):
                    for i, (n, a) in enumerate(((1, 0), (64, 63), (130, 7), (200, 128)) if q else [(n, a) for n in (1, 63, 64, 65, 130, 257) for a in (0, 1, n // 2, n)]):
                        yield f'drv_stream_ref -1 kripto_stream_{s} {alg} {r} {kl} {il} {n} {a} {i % 3}'


def long_def(tier):
    """length and block counters where they outgrow 32 and 64 bits"""
    for h, (alg, ols, bs, sl) in HREF.items():
        if not bs:
            continue  # the sponges keep no length
        cap = 1024 if h.startswith('blake') else 256
        big = h in ('sha2_512', 'whirlpool', 'blake512', 'blake2b', 'skein256', 'skein512', 'skein1024')
        for bits in (32, 64) if big else (32,):
            for ol in ols[:1] if tier == 'quick' else ols:
                for more in (1, bs, 2 * bs + 9, 3 * bs - 3) if tier == 'quick' else uniq([1, bs // 2, bs - 9, bs - 1, bs, bs + 1, 2 * bs - 9, 2 * bs, 2 * bs + 9, 3 * bs - 3, 4 * bs + 1]):
                    yield f'drv_hash_long -1 kripto_hash_{h} {alg} {bs} {ol} {bits} {more} {cap}'
    for m, alg, bs in (('skein256', 12, 32), ('skein512', 13, 64), ('skein1024', 14, 128)):
        for bits in (32, 64):
            for more in (1, 2 * bs + 9) if tier == 'quick' else (1, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 9, 3 * bs - 3):
                yield f'drv_mac_long -1 kripto_mac_{m} {alg} {bs} {16 if more == 1 else bs + 1} {bs} {bits} {more}'
    for s, alg in (('chacha', 0), ('salsa20', 1)):
        for il in (8, 24):
            for kl in (16, 32):
                for n, a in ((64, 63), (130, 64), (200, 7)) if tier == 'quick' else ((1, 0), (64, 63), (65, 64), (130, 64), (200, 7), (300, 129)):
                    for r in (0,) if tier == 'quick' else (0, 8, 12):
                        yield f'drv_stream_long -1 kripto_stream_{s} {alg} {r} {kl} {il} {n} {a}'
    yield 'drv_pbkdf2_def -1 4 0 1 5 4 1033'
    yield 'drv_mode -1 1 4 0 8 4 1100 513 0'


GROUPS = {f.__name__.rstrip('_') if f is not aes_ else '': f for f in (
    block, block_re, rounds, hash_, hash_split, hash_all, hash_re, hash_xof, mac, mac_split, mac_verify, mac_all, mac_re,
    stream, stream_split, stream_xor, stream_re, ae, ae_peer, ae_split, ae_re, aged, kdf, pkcs7, memory, memory_eq, random_,
    re_rounds, hash_def, mac_def, mode_def, ae_def, kdf_def, block_inv, stream_def, block_def, long_def)}
ALL = [g for g in GROUPS if g != 'rounds']


def jobs(groups, tier, faults=True):
    for g in groups:
        for l in uniq(GROUPS[g](tier)):
            p = l.split()
            if faults == 'only' and p[1] == '-1':
                continue
            if not faults:
                p[1] = '-1'
            yield ' '.join(p)
