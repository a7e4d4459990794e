/* Library hashes, hash-based MACs and stream ciphers against independent
   reference definitions (ref/), compared as values for every input. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <kripto/block.h>
#include <kripto/hash.h>
#include <kripto/mac.h>
#include <kripto/stream.h>
#include "ref/hash.h"
#include "ref/stream.h"
#include "drv.h"

enum { MD5, SHA1, SHA256, SHA512, SHA3, KECCAK, TIGER, WHIRLPOOL, BLAKE256, BLAKE512, BLAKE2S, BLAKE2B, SKEIN256, SKEIN512, SKEIN1024, KECCAK800 };

/* digest of ol bytes into out (room for 128) */
static void ref_hash(unsigned alg, const uint8_t *salt, unsigned sl, unsigned ol, const uint8_t *in, uint64_t n, uint8_t *out)
{
	uint8_t s[32];
	for(unsigned i = 0; i < 32; i++) s[i] = i < sl ? salt[i] : 0;
	switch(alg)
	{
		case MD5: ref_md5(in, n, out); break;
		case SHA1: ref_sha1(in, n, out); break;
		case SHA256: ref_sha256(ol > 28 ? 256 : 224, in, n, out); break;
		case SHA512: ref_sha512(ol > 48 ? 512 : 384, in, n, out); break;
		case SHA3: ref_sponge(8, 200 - 2 * ol, 6, in, n, out, ol); break;
		case KECCAK: ref_sponge(8, 200 - 2 * ol, 1, in, n, out, ol); break;
		case KECCAK800: ref_sponge(4, 100 - 2 * ol, 1, in, n, out, ol); break;
		case TIGER: ref_tiger(in, n, out); break;
		case WHIRLPOOL: ref_whirlpool(in, n, out); break;
		case BLAKE256: ref_blake(ol > 28 ? 256 : 224, s, in, n, out); break;
		case BLAKE512: ref_blake(ol > 48 ? 512 : 384, s, in, n, out); break;
		case BLAKE2S: ref_blake2(4, s, ol, in, n, out); break;
		case BLAKE2B: ref_blake2(8, s, ol, in, n, out); break;
		case SKEIN256: ref_skein(4, 0, 0, salt, sl, in, n, out, ol); break;
		case SKEIN512: ref_skein(8, 0, 0, salt, sl, in, n, out, ol); break;
		case SKEIN1024: ref_skein(16, 0, 0, salt, sl, in, n, out, ol); break;
	}
}

/* message in pieces of a and n - a bytes; re: 1 the object was used before, 2 one-shot interface */
void drv_hash_ref(const kripto_desc_hash *const *dd, unsigned alg, unsigned r, unsigned sl, unsigned ol, unsigned n, unsigned a, unsigned re, unsigned cap)
{
	kai_vn(cap);
	uint8_t *salt = drv_in(sl, "salt", SALT, 0), *in = drv_in(n, "message", DATA, 0), *out = kai_buf(ol, "digest"), *want = kai_buf(128, "digest");
	kripto_hash *s;
	if(re == 2)
	{
		int e = kripto_hash_all(*dd, r, salt, sl, in, n, out, ol);
		kai_expect(e == 0, "one-shot hash succeeds");
	}
	else
	{
		if(re)
		{
			s = kripto_hash_create(*dd, 0, 0, 0, 20 < ol ? 20 : ol);
			kripto_hash_input(s, "used before", 11);
			kripto_hash_output(s, want, 3);
			s = kripto_hash_recreate(s, r, salt, sl, ol);
		}
		else s = kripto_hash_create(*dd, r, salt, sl, ol);
		kripto_hash_input(s, in, a);
		kripto_hash_input(s, in + a, n - a);
		if(re) { kripto_hash_output(s, out, ol / 3); kripto_hash_output(s, out + ol / 3, ol - ol / 3); }
		else kripto_hash_output(s, out, ol);
		kripto_hash_destroy(s);
	}
	ref_rounds = r;
	ref_hash(alg, salt, sl, ol, in, n, want);
	kai_value(out, want, ol, "digest equals the published definition");
}

/* A message about to make the length counter reach 2^bits: after five blocks the
   counter found in the object is moved on, as it would be by the bytes left out;
   1 if it was found. */
static int move_on(void *s, unsigned bs, unsigned bits)
{
	unsigned places = 0, unit = 0, done = 0;
	for(unsigned u = 1; u <= 8; u += 7)
		for(unsigned k = 4; k <= 5; k++)
		{
			unsigned c = kai_poke(s, (uint64_t)k * bs * u, (uint64_t)k * bs * u, 8);
			places += c;
			if(c) { unit = u; done = k * bs; }
		}
	if(places != 1) return 0;
	uint64_t to = (bits == 32 ? (uint64_t)1 << 32 : 0) - bs * unit;
	kai_poke(s, (uint64_t)done * unit, to, 8);
	ref_from = done;
	ref_jump = to / unit - done;
	return 1;
}
void drv_hash_long(const kripto_desc_hash *const *dd, unsigned alg, unsigned bs, unsigned ol, unsigned bits, unsigned more, unsigned cap)
{
	kai_vn(cap);
	unsigned n = 5 * bs + more;
	uint8_t *in = drv_in(n, "message", DATA, 0), *out = kai_buf(ol, "digest"), *want = kai_buf(128, "digest");
	kripto_hash *s = kripto_hash_create(*dd, 0, 0, 0, ol);
	kripto_hash_input(s, in, 5 * bs);
	if(move_on(s, bs, bits))
	{
		kripto_hash_input(s, in + 5 * bs, more / 2);
		kripto_hash_input(s, in + 5 * bs + more / 2, more - more / 2);
		kripto_hash_output(s, out, ol);
		ref_hash(alg, 0, 0, ol, in, n, want);
		kai_value(out, want, ol, "digest of a long message equals the published definition");
	}
	kripto_hash_destroy(s);
}
void drv_mac_long(const kripto_desc_mac *const *dd, unsigned alg, unsigned bs, unsigned kl, unsigned tl, unsigned bits, unsigned more)
{
	kai_vn(0);
	unsigned n = 5 * bs + more;
	uint8_t *key = drv_in(kl, "key", KEY, 0), *in = drv_in(n, "message", DATA, 0), *out = kai_buf(tl, "tag"), *want = kai_buf(128, "tag");
	kripto_mac *s = kripto_mac_create(*dd, 0, key, kl, tl);
	kripto_mac_input(s, in, 5 * bs);
	if(move_on(s, bs, bits))
	{
		kripto_mac_input(s, in + 5 * bs, more / 2);
		kripto_mac_input(s, in + 5 * bs + more / 2, more - more / 2);
		kripto_mac_tag(s, out, tl);
		ref_skein(alg == SKEIN256 ? 4 : alg == SKEIN512 ? 8 : 16, key, kl, 0, 0, in, n, want, tl);
		kai_value(out, want, tl, "tag of a long message equals the published definition");
	}
	kripto_mac_destroy(s);
}

/* MACs keyed natively: Skein-MAC, keyed Keccak */
void drv_mac_ref(const kripto_desc_mac *const *dd, unsigned alg, unsigned r, unsigned kl, unsigned tl, unsigned n, unsigned a, unsigned re)
{
	kai_vn(0);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *in = drv_in(n, "message", DATA, 0), *out = kai_buf(tl, "tag"), *want = kai_buf(128, "tag");
	kripto_mac *s;
	if(re == 2)
	{
		int e = kripto_mac_all(*dd, r, key, kl, in, n, out, tl);
		kai_expect(e == 0, "one-shot MAC succeeds");
	}
	else
	{
		if(re)
		{
			s = kripto_mac_create(*dd, 0, "another key", 11, tl / 2);
			kripto_mac_input(s, "used before", 11);
			kripto_mac_tag(s, want, tl / 2);
			s = kripto_mac_recreate(s, r, key, kl, tl);
		}
		else s = kripto_mac_create(*dd, r, key, kl, tl);
		kripto_mac_input(s, in, a);
		kripto_mac_input(s, in + a, n - a);
		kripto_mac_tag(s, out, tl);
		kripto_mac_destroy(s);
	}
	ref_rounds = r;
	if(alg == KECCAK || alg == KECCAK800)
	{
		uint8_t m[1200];
		for(unsigned i = 0; i < kl; i++) m[i] = key[i];
		for(unsigned i = 0; i < n; i++) m[kl + i] = in[i];
		ref_sponge(alg == KECCAK ? 8 : 4, (alg == KECCAK ? 200 : 100) - 2 * tl, 1, m, kl + n, want, tl);
	}
	else ref_skein(alg == SKEIN256 ? 4 : alg == SKEIN512 ? 8 : 16, key, kl, 0, 0, in, n, want, tl);
	kai_value(out, want, tl, "tag equals the published definition");
}

enum { CHACHA, SALSA20, RC4, SKEINS256, SKEINS512, SKEINS1024, KECCAKS1600, KECCAKS800 };
/* Skein: the output of the chain key, configuration (length 2^64-1), nonce.
   Keccak: the sponge with a capacity of two keys, over key and nonce */
static void ref_keystream(unsigned alg, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *iv, unsigned il, uint8_t *out, unsigned n)
{
	if(alg <= RC4) { ref_stream(alg, r, key, kl, iv, il, out, n); return; }
	ref_rounds = r;
	if(alg <= SKEINS1024)
	{
		unsigned nw = alg == SKEINS256 ? 4 : alg == SKEINS512 ? 8 : 16;
		uint8_t g[128], c[32] = {'S', 'H', 'A', '3', 1};
		for(unsigned i = 0; i < 128; i++) g[i] = 0;
		for(unsigned i = 8; i < 16; i++) c[i] = 255;
		ref_ubi(nw, g, key, kl, 0);
		ref_ubi(nw, g, c, 32, 4);
		if(il) ref_ubi(nw, g, iv, il, 20);
		ref_skein_out(nw, g, out, n);
	}
	else
	{
		uint8_t m[600];
		for(unsigned i = 0; i < kl; i++) m[i] = key[i];
		for(unsigned i = 0; i < il; i++) m[kl + i] = iv[i];
		if(alg == KECCAKS1600) ref_sponge(8, 200 - 2 * kl, 1, m, kl + il, out, n);
		else ref_sponge(4, 100 - 2 * kl, 1, m, kl + il, out, n);
	}
}

/* keystream against the reference; re: through an object used with other parameters */
void drv_stream_ref(const kripto_desc_stream *const *dd, unsigned alg, unsigned r, unsigned kl, unsigned il, unsigned n, unsigned a, unsigned re)
{
	kai_vn(0);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *in = drv_in(n, "input", DATA, 0);
	uint8_t *k1 = drv_in(20, "key", OLD, 0), *i1 = drv_in(24, "iv", OLD, 100), *o1 = kai_buf(100, "output");
	uint8_t *out = kai_buf(n, "output"), *want = kai_buf(n, "output");
	for(unsigned op = 0; op < 3; op++)
	{
		kripto_stream *s;
		if(re)
		{
			s = kripto_stream_create(*dd, 8, k1, 20, i1, alg == RC4 ? 0 : re == 2 ? 24 : 8);
			kripto_stream_prng(s, o1, 100);
			s = kripto_stream_recreate(s, r, key, kl, iv, il);
		}
		else s = kripto_stream_create(*dd, r, key, kl, iv, il);
		if(op == 0) { kripto_stream_encrypt(s, in, out, a); kripto_stream_encrypt(s, in + a, out + a, n - a); }
		if(op == 1) { kripto_stream_decrypt(s, in, out, a); kripto_stream_decrypt(s, in + a, out + a, n - a); }
		if(op == 2) { kripto_stream_prng(s, out, a); kripto_stream_prng(s, out + a, n - a); }
		kripto_stream_destroy(s);
		ref_keystream(alg, r, key, kl, iv, il, want, n);
		if(op < 2) for(unsigned i = 0; i < n; i++) want[i] ^= in[i];
		kai_value(out, want, n, op == 2 ? "keystream equals the published definition" : "output equals input xor published keystream");
	}
}

/* keystream where the block counter passes 2^32 */
void drv_stream_long(const kripto_desc_stream *const *dd, unsigned alg, unsigned r, unsigned kl, unsigned il, unsigned n, unsigned a)
{
	kai_vn(0);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *in = drv_in(320 + n, "input", DATA, 0);
	uint8_t *out = kai_buf(320 + n, "output"), *want = kai_buf(320 + n, "output");
	for(unsigned op = 0; op < 3; op++)
	{
		kripto_stream *s = kripto_stream_create(*dd, r, key, kl, iv, il);
		uint64_t to = ((uint64_t)1 << 32) - 1;
		kripto_stream_encrypt(s, in, out, 320);
		if(kai_poke(s, 5, to, 8) == 1)
		{
			if(op == 0) { kripto_stream_encrypt(s, in + 320, out + 320, a); kripto_stream_encrypt(s, in + 320 + a, out + 320 + a, n - a); }
			if(op == 1) { kripto_stream_decrypt(s, in + 320, out + 320, a); kripto_stream_decrypt(s, in + 320 + a, out + 320 + a, n - a); }
			if(op == 2) { kripto_stream_prng(s, out + 320, a); kripto_stream_prng(s, out + 320 + a, n - a); }
			ref_blocks = 5;
			ref_skip = to - 5;
			ref_stream(alg, r, key, kl, iv, il, want, 320 + n);
			if(op < 2) for(unsigned i = 0; i < n; i++) want[320 + i] ^= in[320 + i];
			kai_value(out + 320, want + 320, n, "keystream beyond 2^32 blocks equals the published definition");
		}
		kripto_stream_destroy(s);
	}
}
