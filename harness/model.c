/* Compositions over uninterpreted primitives: the modes are analysed over a
   block cipher, hash, MAC or stream cipher of which nothing is known but that
   it is a function of its parameters (and, for a block cipher, invertible).
   What is shown holds for every primitive. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <kripto/block.h>
#include <kripto/hash.h>
#include <kripto/mac.h>
#include <kripto/stream.h>
#include <kripto/ae.h>
#include <kripto/desc/block.h>
#include <kripto/desc/hash.h>
#include <kripto/desc/mac.h>
#include <kripto/desc/stream.h>
#include <kripto/stream/ctr.h>
#include <kripto/stream/cbc.h>
#include <kripto/stream/cfb.h>
#include <kripto/stream/ofb.h>
#include <kripto/stream/ecb.h>
#include <kripto/mac/hmac.h>
#include <kripto/mac/omac.h>
#include <kripto/mac/xcbc.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
#include <kripto/memory.h>
#include "drv.h"

#define PMAX 300
#define MMAX 1200

/* ------------------------------------------------------- parameters of one instance */
static unsigned put(uint8_t *p, unsigned n, unsigned v) { p[n++] = v; p[n++] = v >> 8; return n; }
static unsigned params(uint8_t *p, unsigned r, unsigned x, const void *a, unsigned al, const void *b, unsigned bl)
{
	unsigned n = 0;
	n = put(p, n, r); n = put(p, n, x); n = put(p, n, al);
	for(unsigned i = 0; i < al; i++) p[n++] = ((const uint8_t *)a)[i];
	for(unsigned i = 0; i < bl; i++) p[n++] = ((const uint8_t *)b)[i];
	return n;
}

/* ------------------------------------------------------- block cipher */
struct kripto_block { const kripto_desc_block *desc; unsigned np; uint8_t p[PMAX]; };
static kripto_block *mb_recreate(kripto_block *s, unsigned r, const void *key, unsigned kl)
{
	memset(s->p, 0, PMAX);
	s->np = params(s->p, r, 0, key, kl, 0, 0);
	return s;
}
static kripto_block *mb_create(const kripto_desc_block *d, unsigned r, const void *key, unsigned kl)
{
	kripto_block *s = malloc(sizeof(kripto_block));
	if(!s) return 0;
	s->desc = d;
	return mb_recreate(s, r, key, kl);
}
static void mb_tweak(kripto_block *s, const void *t, unsigned n) { (void)s; (void)t; (void)n; }
static void mb_encrypt(const kripto_block *s, const void *pt, void *ct) { kai_uf("E", 1, s->p, s->np, pt, s->desc->blocksize, ct, s->desc->blocksize); }
static void mb_decrypt(const kripto_block *s, const void *ct, void *pt) { kai_ufinv("E", s->p, s->np, ct, s->desc->blocksize, pt, s->desc->blocksize); }
static void mb_destroy(kripto_block *s) { kripto_memory_wipe(s, sizeof(kripto_block)); free(s); }
static kripto_desc_block MB = {mb_create, mb_recreate, mb_tweak, mb_encrypt, mb_decrypt, mb_destroy, 16, 255, 0};
/* reference: E_key(in) */
static void refE(unsigned bs, unsigned r, const void *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint8_t p[PMAX];
	unsigned n = params(p, r, 0, key, kl, 0, 0);
	kai_uf("E", 1, p, n, in, bs, out, bs);
}
static void refD(unsigned bs, unsigned r, const void *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint8_t p[PMAX];
	unsigned n = params(p, r, 0, key, kl, 0, 0);
	kai_ufinv("E", p, n, in, bs, out, bs);
}

/* ------------------------------------------------------- hash (the digest may depend on its length) */
struct kripto_hash { const kripto_desc_hash *desc; unsigned r, ol, n, pos; int fin; uint8_t m[MMAX], d[MMAX]; };
static kripto_hash *mh_recreate(kripto_hash *s, unsigned r, const void *salt, unsigned sl, unsigned ol)
{
	(void)salt; (void)sl;
	s->r = r; s->ol = ol; s->n = 0; s->pos = 0; s->fin = 0;
	return s;
}
static kripto_hash *mh_create(const kripto_desc_hash *d, unsigned r, const void *salt, unsigned sl, unsigned ol)
{
	kripto_hash *s = malloc(sizeof(kripto_hash));
	if(!s) return 0;
	s->desc = d;
	return mh_recreate(s, r, salt, sl, ol);
}
static void mh_input(kripto_hash *s, const void *in, size_t n) { for(size_t i = 0; i < n; i++) s->m[s->n++] = ((const uint8_t *)in)[i]; }
static void refH(unsigned r, unsigned ol, const uint8_t *m, unsigned n, uint8_t *out)
{
	uint8_t p[8];
	unsigned np = put(p, 0, r);
	np = put(p, np, ol);
	kai_uf("H", 0, p, np, m, n, out, ol);
}
static void mh_output(kripto_hash *s, void *out, size_t n)
{
	if(!s->fin) { refH(s->r, s->ol, s->m, s->n, s->d); s->fin = 1; }
	for(size_t i = 0; i < n; i++) ((uint8_t *)out)[i] = s->d[s->pos++];
}
static void mh_destroy(kripto_hash *s) { kripto_memory_wipe(s, sizeof(kripto_hash)); free(s); }
static int mh_all(const kripto_desc_hash *d, unsigned r, const void *salt, unsigned sl, const void *in, size_t n, void *out, size_t ol)
{
	(void)d; (void)salt; (void)sl;
	refH(r, ol, in, n, out);
	return 0;
}
static kripto_desc_hash MH = {mh_create, mh_recreate, mh_input, mh_output, mh_destroy, mh_all, 32, 64, 0};

/* ------------------------------------------------------- MAC (the tag may depend on its length) */
struct kripto_mac { const kripto_desc_mac *desc; unsigned np, tl, n, pos; int fin; uint8_t p[PMAX], m[MMAX], d[MMAX]; };
static kripto_mac *mm_recreate(kripto_mac *s, unsigned r, const void *key, unsigned kl, unsigned tl)
{
	s->np = params(s->p, r, tl, key, kl, 0, 0); s->tl = tl; s->n = 0; s->pos = 0; s->fin = 0;
	return s;
}
static kripto_mac *mm_create(const kripto_desc_mac *d, unsigned r, const void *key, unsigned kl, unsigned tl)
{
	kripto_mac *s = malloc(sizeof(kripto_mac));
	if(!s) return 0;
	s->desc = d;
	return mm_recreate(s, r, key, kl, tl);
}
static void mm_input(kripto_mac *s, const void *in, size_t n) { for(size_t i = 0; i < n; i++) s->m[s->n++] = ((const uint8_t *)in)[i]; }
static void mm_tag(kripto_mac *s, void *out, unsigned n)
{
	if(!s->fin) { kai_uf("M", 0, s->p, s->np, s->m, s->n, s->d, s->tl); s->fin = 1; }
	for(size_t i = 0; i < n; i++) ((uint8_t *)out)[i] = s->d[s->pos++];
}
static void mm_destroy(kripto_mac *s) { kripto_memory_wipe(s, sizeof(kripto_mac)); free(s); }
static kripto_desc_mac MM = {mm_create, mm_recreate, mm_input, mm_tag, mm_destroy, 64, 64};
static void refM(unsigned r, const void *key, unsigned kl, unsigned tl, const uint8_t *m, unsigned n, uint8_t *out)
{
	uint8_t p[PMAX];
	unsigned np = params(p, r, tl, key, kl, 0, 0);
	kai_uf("M", 0, p, np, m, n, out, tl);
}

/* ------------------------------------------------------- stream cipher */
struct kripto_stream { const kripto_desc_stream *desc; unsigned multof, np, pos; uint8_t p[PMAX]; };
static kripto_stream *ms_recreate(kripto_stream *s, unsigned r, const void *key, unsigned kl, const void *iv, unsigned il)
{
	s->np = params(s->p, r, 0, key, kl, iv, il); s->pos = 0;
	return s;
}
static kripto_stream *ms_create(const kripto_desc_stream *d, unsigned r, const void *key, unsigned kl, const void *iv, unsigned il)
{
	kripto_stream *s = malloc(sizeof(kripto_stream));
	if(!s) return 0;
	s->desc = d; s->multof = 1;
	return ms_recreate(s, r, key, kl, iv, il);
}
static uint8_t ks(const uint8_t *p, unsigned np, unsigned pos) { uint8_t c[2], o; put(c, 0, pos); kai_uf("S", 0, p, np, c, 2, &o, 1); return o; }
static void ms_crypt(kripto_stream *s, const void *in, void *out, size_t n)
{
	for(size_t i = 0; i < n; i++) ((uint8_t *)out)[i] = ((const uint8_t *)in)[i] ^ ks(s->p, s->np, s->pos++);
}
static void ms_prng(kripto_stream *s, void *out, size_t n) { for(size_t i = 0; i < n; i++) ((uint8_t *)out)[i] = ks(s->p, s->np, s->pos++); }
static void ms_destroy(kripto_stream *s) { kripto_memory_wipe(s, sizeof(kripto_stream)); free(s); }
static kripto_desc_stream MS = {ms_create, ms_recreate, ms_crypt, ms_crypt, ms_prng, ms_destroy, 64, 255};

/* ------------------------------------------------------- references */
static void increment(uint8_t *x, unsigned bs)
{
	unsigned c = 1;
	for(unsigned i = bs; i-- > 0;) { c += x[i]; x[i] = c; c >>= 8; }
}

/* op: 0 encrypt, 1 decrypt, 2 generate */
static void ref_mode(unsigned kind, unsigned bs, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *iv, unsigned il, unsigned op, const uint8_t *in, uint8_t *out, unsigned n)
{
	uint8_t x[128], y[128];
	for(unsigned i = 0; i < bs; i++) x[i] = i < il ? iv[i] : 0;
	for(unsigned o = 0; o < n; o += bs)
	{
		unsigned m = n - o < bs ? n - o : bs;
		if(kind == 1 || kind == 3 || kind == 4) refE(bs, r, key, kl, x, y);
		if(kind == 1)
		{
			increment(x, bs);
			for(unsigned i = 0; i < m; i++) out[o + i] = (op == 2 ? 0 : in[o + i]) ^ y[i];
		}
		else if(kind == 2)
		{
			if(op == 0)
			{
				for(unsigned i = 0; i < bs; i++) y[i] = in[o + i] ^ x[i];
				refE(bs, r, key, kl, y, x);
				for(unsigned i = 0; i < bs; i++) out[o + i] = x[i];
			}
			else
			{
				refD(bs, r, key, kl, in + o, y);
				for(unsigned i = 0; i < bs; i++) { out[o + i] = y[i] ^ x[i]; x[i] = in[o + i]; }
			}
		}
		else if(kind == 3)
		{
			for(unsigned i = 0; i < m; i++)
			{
				uint8_t c = op == 2 ? 0 : in[o + i];
				out[o + i] = y[i] ^ c;
				x[i] = op == 1 ? c : out[o + i];
			}
		}
		else if(kind == 4)
		{
			for(unsigned i = 0; i < bs; i++) x[i] = y[i];
			for(unsigned i = 0; i < m; i++) out[o + i] = (op == 2 ? 0 : in[o + i]) ^ y[i];
		}
		else if(op == 0) refE(bs, r, key, kl, in + o, out + o);
		else refD(bs, r, key, kl, in + o, out + o);
	}
}

static const uint8_t POLY[6][4] = {{4, 0, 0, 0x8D}, {8, 0, 0, 0x1B}, {16, 0, 0, 0x87}, {32, 0, 4, 0x25}, {64, 0, 1, 0x25}, {128, 8, 0, 0x43}};
static void times_x(uint8_t *l, unsigned bs)
{
	uint8_t top = l[0] >> 7;
	for(unsigned i = 0; i < bs; i++) l[i] = (uint8_t)(l[i] << 1) | (i + 1 < bs ? l[i + 1] >> 7 : 0);
	for(unsigned k = 0; k < 6; k++)
		if(POLY[k][0] == bs)
			for(unsigned j = 0; j < 24; j++)
				if(POLY[k][3 - j / 8] >> j % 8 & 1) l[bs - 1 - j / 8] ^= (uint8_t)(top << j % 8);
}

/* CMAC of m[0..n) */
static void ref_omac(unsigned bs, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *m, unsigned n, uint8_t *tag)
{
	uint8_t l[128], x[128];
	for(unsigned i = 0; i < bs; i++) l[i] = x[i] = 0;
	refE(bs, r, key, kl, l, l);
	times_x(l, bs);
	unsigned o = 0;
	for(; n - o > bs; o += bs)
	{
		for(unsigned i = 0; i < bs; i++) x[i] ^= m[o + i];
		refE(bs, r, key, kl, x, x);
	}
	if(n - o < bs) times_x(l, bs);
	for(unsigned i = 0; i < bs; i++) x[i] ^= l[i] ^ (o + i < n ? m[o + i] : o + i == n ? 0x80 : 0);
	refE(bs, r, key, kl, x, tag);
}

static void ref_xcbc(unsigned bs, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *m, unsigned n, uint8_t *tag)
{
	uint8_t k1[128], k2[128], k3[128], x[128];
	for(unsigned i = 0; i < bs; i++) { k1[i] = 1; k2[i] = 2; k3[i] = 3; x[i] = 0; }
	refE(bs, r, key, kl, k1, k1);
	refE(bs, r, key, kl, k2, k2);
	refE(bs, r, key, kl, k3, k3);
	unsigned o = 0;
	for(; n - o > bs; o += bs)
	{
		for(unsigned i = 0; i < bs; i++) x[i] ^= m[o + i];
		refE(bs, r, k1, bs, x, x);
	}
	for(unsigned i = 0; i < bs; i++) x[i] ^= (n - o == bs ? k2[i] : k3[i]) ^ (o + i < n ? m[o + i] : o + i == n ? 0x80 : 0);
	refE(bs, r, k1, bs, x, tag);
}

static void ref_hmac(unsigned bs, unsigned r, const uint8_t *key, unsigned kl, unsigned tl, const uint8_t *m, unsigned n, uint8_t *tag)
{
	uint8_t k[200], b[MMAX];
	for(unsigned i = 0; i < bs; i++) k[i] = 0;
	if(kl > bs) refH(r, tl > bs ? bs : tl, key, kl, k);
	else for(unsigned i = 0; i < kl; i++) k[i] = key[i];
	for(unsigned i = 0; i < bs; i++) b[i] = k[i] ^ 0x36;
	for(unsigned i = 0; i < n; i++) b[bs + i] = m[i];
	refH(r, tl, b, bs + n, tag);
	for(unsigned i = 0; i < bs; i++) b[i] = k[i] ^ 0x5C;
	for(unsigned i = 0; i < tl; i++) b[bs + i] = tag[i];
	refH(r, tl, b, bs + tl, tag);
}

/* ------------------------------------------------------- drivers */
static const kripto_desc_stream *mode(unsigned kind)
{
	if(kind == 1) return kripto_stream_ctr(&MB);
	if(kind == 2) return kripto_stream_cbc(&MB);
	if(kind == 3) return kripto_stream_cfb(&MB);
	if(kind == 4) return kripto_stream_ofb(&MB);
	return kripto_stream_ecb(&MB);
}
static void use(kripto_stream *s, unsigned op, const void *in, void *out, size_t n)
{
	if(op == 0) kripto_stream_encrypt(s, in, out, n);
	if(op == 1) kripto_stream_decrypt(s, in, out, n);
	if(op == 2) kripto_stream_prng(s, out, n);
}

/* mode of operation = its definition; data in pieces of a and n - a bytes;
   re: through an object that was used with other parameters and recreated */
void drv_mode(unsigned kind, unsigned bs, unsigned r, unsigned kl, unsigned il, unsigned n, unsigned a, unsigned re)
{
	kai_vn(0);
	MB.blocksize = bs;
	const kripto_desc_stream *d = mode(kind);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *in = drv_in(n, "input", DATA, 0);
	uint8_t *out = kai_buf(n, "output"), *want = kai_buf(n, "output"), *back = kai_buf(n, "output");
	uint8_t *k1 = drv_in(24, "key", OLD, 0), *i1 = drv_in(bs, "iv", OLD, 100), *d1 = drv_in(3 * bs, "input", OLD, 300), *o1 = kai_buf(3 * bs, "output");
	for(unsigned op = 0; op < (kind == 2 || kind == 5 ? 2 : 3); op++)
	{
		kripto_stream *s;
		if(re)
		{
			s = kripto_stream_create(d, r + 1, k1, 24, i1, kind == 5 ? 0 : bs);
			use(s, op, d1, o1, 2 * bs + (kind == 2 || kind == 5 ? 0 : bs / 2));
			s = kripto_stream_recreate(s, r, key, kl, iv, il);
		}
		else s = kripto_stream_create(d, r, key, kl, iv, il);
		use(s, op, in, out, a);
		use(s, op, in + a, out + a, n - a);
		kripto_stream_destroy(s);
		ref_mode(kind, bs, r, key, kl, iv, il, op, in, want, n);
		kai_value(out, want, n, op == 0 ? "encryption equals the definition of the mode" : op == 1 ? "decryption equals the definition of the mode" : "output equals the keystream of the mode");
		if(op < 2)
		{
			s = kripto_stream_create(d, r, key, kl, iv, il);
			use(s, !op, out, back, n);
			kripto_stream_destroy(s);
			kai_value(back, in, n, op ? "encryption inverts decryption" : "decryption inverts encryption");
		}
	}
	free((void *)d);
}

/* OMAC, XCBC over any block cipher of bs bytes */
void drv_cmac(unsigned kind, unsigned bs, unsigned r, unsigned kl, unsigned tl, unsigned n, unsigned a, unsigned re)
{
	kai_vn(0);
	MB.blocksize = bs;
	kripto_desc_mac *d = kind == 2 ? kripto_mac_omac(&MB) : kripto_mac_xcbc(&MB);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *in = drv_in(n, "message", DATA, 0), *k1 = drv_in(24, "key", OLD, 0), *d1 = drv_in(3 * bs, "message", OLD, 300);
	uint8_t *tag = kai_buf(tl, "tag"), *want = kai_buf(bs, "tag");
	kripto_mac *s;
	if(re)
	{
		s = kripto_mac_create(d, r + 1, k1, 24, bs);
		kripto_mac_input(s, d1, 2 * bs + 1);
		if(re > 1) kripto_mac_tag(s, want, bs);
		s = kripto_mac_recreate(s, r, key, kl, tl);
	}
	else s = kripto_mac_create(d, r, key, kl, tl);
	kripto_mac_input(s, in, a);
	kripto_mac_input(s, in + a, n - a);
	kripto_mac_tag(s, tag, tl);
	kripto_mac_destroy(s);
	if(kind == 2) ref_omac(bs, r, key, kl, in, n, want);
	else ref_xcbc(bs, r, key, kl, in, n, want);
	kai_value(tag, want, tl, kind == 2 ? "OMAC equals its definition" : "XCBC equals its definition");
	free(d);
}

/* HMAC over any hash with bs byte blocks and mo byte digests */
void drv_hmac(unsigned bs, unsigned mo, unsigned r, unsigned kl, unsigned n, unsigned a, unsigned re)
{
	kai_vn(0);
	MH.blocksize = bs; MH.maxout = mo;
	kripto_desc_mac *d = kripto_mac_hmac(&MH);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *in = drv_in(n, "message", DATA, 0), *k1 = drv_in(bs + 9, "key", OLD, 0), *d1 = drv_in(2 * bs, "message", OLD, 300);
	uint8_t *tag = kai_buf(mo, "tag"), *want = kai_buf(mo, "tag");
	kripto_mac *s;
	if(re)
	{
		s = kripto_mac_create(d, r + 1, k1, re == 1 ? bs + 9 : bs - 1, mo);
		kripto_mac_input(s, d1, bs + 3);
		if(re > 1) kripto_mac_tag(s, want, mo);
		s = kripto_mac_recreate(s, r, key, kl, mo);
	}
	else s = kripto_mac_create(d, r, key, kl, mo);
	kripto_mac_input(s, in, a);
	kripto_mac_input(s, in + a, n - a);
	kripto_mac_tag(s, tag, mo);
	kripto_mac_destroy(s);
	ref_hmac(bs, r, key, kl, mo, in, n, want);
	kai_value(tag, want, mo, "HMAC equals its definition");
	free(d);
}

/* EAX over any block cipher: tag = OMAC_0(N) ^ OMAC_1(H) ^ OMAC_2(C), C = CTR_{OMAC_0(N)}(P) */
static void ref_eax_omac(unsigned t, unsigned bs, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *m, unsigned n, uint8_t *tag)
{
	uint8_t b[MMAX];
	for(unsigned i = 0; i < bs; i++) b[i] = 0;
	b[bs - 1] = t;
	for(unsigned i = 0; i < n; i++) b[bs + i] = m[i];
	ref_omac(bs, r, key, kl, b, bs + n, tag);
}
void drv_eax(unsigned bs, unsigned r, unsigned kl, unsigned il, unsigned hl, unsigned tl, unsigned n, unsigned a, unsigned re)
{
	kai_vn(0);
	MB.blocksize = bs;
	kripto_desc_ae *d = kripto_ae_eax(&MB);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *hdr = drv_in(hl, "header", HDR, 0), *in = drv_in(n, "input", DATA, 0);
	uint8_t *k1 = drv_in(24, "key", OLD, 0), *d1 = drv_in(3 * bs, "input", OLD, 300), *o1 = kai_buf(3 * bs, "output");
	uint8_t *out = kai_buf(n, "output"), *want = kai_buf(n, "output"), *tag = kai_buf(bs, "tag"), *wt = kai_buf(bs, "tag");
	uint8_t N[128], t[128];
	ref_eax_omac(0, bs, r, key, kl, iv, il, N);
	for(unsigned op = 0; op < 2; op++)
	{
		kripto_ae *s;
		if(re)
		{
			s = kripto_ae_create(d, r + 1, k1, 24, d1, bs - 1, bs);
			kripto_ae_header(s, d1, bs + 1);
			kripto_ae_encrypt(s, d1, o1, 2 * bs + 1);
			if(re > 1) kripto_ae_tag(s, tag, bs);
			s = kripto_ae_recreate(s, r, key, kl, iv, il, tl);
		}
		else s = kripto_ae_create(d, r, key, kl, iv, il, tl);
		kripto_ae_header(s, hdr, hl / 2);
		if(op) { kripto_ae_decrypt(s, in, out, a); kripto_ae_decrypt(s, in + a, out + a, n - a); }
		else { kripto_ae_encrypt(s, in, out, a); kripto_ae_encrypt(s, in + a, out + a, n - a); }
		kripto_ae_header(s, hdr + hl / 2, hl - hl / 2);
		kripto_ae_tag(s, tag, tl);
		kripto_ae_destroy(s);
		ref_mode(1, bs, r, key, kl, N, bs, op, in, want, n);
		kai_value(out, want, n, op ? "EAX plaintext equals the definition" : "EAX ciphertext equals the definition");
		ref_eax_omac(2, bs, r, key, kl, op ? in : want, n, wt);
		ref_eax_omac(1, bs, r, key, kl, hdr, hl, t);
		for(unsigned i = 0; i < bs; i++) wt[i] ^= N[i] ^ t[i];
		kai_value(tag, wt, tl, "EAX tag equals the definition");
	}
	free(d);
}

/* EAX2 over any stream cipher and MAC: K1 for the MAC is the first floor(kl/2) bytes (both key sizes permitting), K2 the rest */
void drv_eax2(unsigned ms, unsigned mm, unsigned r, unsigned kl, unsigned il, unsigned hl, unsigned tl, unsigned n, unsigned a, unsigned re)
{
	kai_vn(0);
	MS.maxkey = ms; MM.maxkey = mm;
	kripto_desc_ae *d = kripto_ae_eax2(&MS, &MM);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *hdr = drv_in(hl, "header", HDR, 0), *in = drv_in(n, "input", DATA, 0);
	uint8_t *k1 = drv_in(24, "key", OLD, 0), *d1 = drv_in(64, "input", OLD, 300), *o1 = kai_buf(64, "output");
	uint8_t *out = kai_buf(n, "output"), *want = kai_buf(n, "output"), *tag = kai_buf(tl, "tag"), *wt = kai_buf(tl, "tag"), *t1 = kai_buf(7, "tag");
	unsigned len = tl > il ? tl : il, s2 = (kl + 1) / 2;
	if(s2 > ms) s2 = ms;
	if(kl - s2 > mm) s2 = kl - mm;
	unsigned s1 = kl - s2;
	uint8_t N[128], t[128], b[MMAX];
	for(unsigned i = 0; i < tl; i++) b[i] = 0;
	for(unsigned i = 0; i < il; i++) b[tl + i] = iv[i];
	refM(r, key, s1, len, b, tl + il, N);
	for(unsigned op = 0; op < 2; op++)
	{
		kripto_ae *s;
		if(re)
		{
			s = kripto_ae_create(d, r + 1, k1, re == 1 ? 24 : 10, d1, re == 1 ? 40 : 3, re == 1 ? 7 : 2);
			kripto_ae_header(s, d1, 9);
			kripto_ae_encrypt(s, d1, o1, 33);
			if(re > 1) kripto_ae_tag(s, t1, 2);
			s = kripto_ae_recreate(s, r, key, kl, iv, il, tl);
		}
		else s = kripto_ae_create(d, r, key, kl, iv, il, tl);
		kripto_ae_header(s, hdr, hl / 2);
		if(op) { kripto_ae_decrypt(s, in, out, a); kripto_ae_decrypt(s, in + a, out + a, n - a); }
		else { kripto_ae_encrypt(s, in, out, a); kripto_ae_encrypt(s, in + a, out + a, n - a); }
		kripto_ae_header(s, hdr + hl / 2, hl - hl / 2);
		kripto_ae_tag(s, tag, tl);
		kripto_ae_destroy(s);
		uint8_t p[PMAX];
		unsigned np = params(p, r, 0, key + s1, s2, N, il);
		for(unsigned i = 0; i < n; i++) want[i] = in[i] ^ ks(p, np, i);
		kai_value(out, want, n, op ? "EAX2 plaintext equals the definition" : "EAX2 ciphertext equals the definition");
		const uint8_t *c = op ? in : want;
		for(unsigned i = 0; i < tl; i++) b[i] = i + 1 == tl ? 2 : 0;
		for(unsigned i = 0; i < n; i++) b[tl + i] = c[i];
		refM(r, key, s1, tl, b, tl + n, wt);
		b[tl - 1] = 1;
		for(unsigned i = 0; i < hl; i++) b[tl + i] = hdr[i];
		refM(r, key, s1, tl, b, tl + hl, t);
		for(unsigned i = 0; i < tl; i++) wt[i] ^= N[i] ^ t[i];
		kai_value(tag, wt, tl, "EAX2 tag equals the definition");
	}
	free(d);
}

/* PBKDF2 over any MAC with mt byte tags */
static void ref_pbkdf2(unsigned mt, unsigned r, unsigned it, const uint8_t *pw, unsigned pl, const uint8_t *salt, unsigned sl, uint8_t *out, unsigned n)
{
	uint8_t b[MMAX], u[128], t[128];
	for(unsigned blk = 1, o = 0; o < n; blk++, o += mt)
	{
		for(unsigned i = 0; i < sl; i++) b[i] = salt[i];
		b[sl] = blk >> 24; b[sl + 1] = blk >> 16; b[sl + 2] = blk >> 8; b[sl + 3] = blk;
		refM(r, pw, pl, mt, b, sl + 4, u);
		for(unsigned i = 0; i < mt; i++) t[i] = u[i];
		for(unsigned j = 1; j < it; j++)
		{
			refM(r, pw, pl, mt, u, mt, u);
			for(unsigned i = 0; i < mt; i++) t[i] ^= u[i];
		}
		for(unsigned i = 0; i < mt && o + i < n; i++) out[o + i] = t[i];
	}
}
void drv_pbkdf2_def(unsigned mt, unsigned r, unsigned it, unsigned pl, unsigned sl, unsigned n)
{
	kai_vn(0);
	MM.maxtag = mt;
	uint8_t *pw = drv_in(pl, "password", KEY, 0), *salt = drv_in(sl, "salt", SALT, 0), *out = kai_buf(n, "derived key"), *want = kai_buf(n, "derived key");
	int e = kripto_pbkdf2(&MM, r, it, pw, pl, salt, sl, out, n);
	kai_expect(e == 0, "key derivation succeeds");
	ref_pbkdf2(mt, r, it, pw, pl, salt, sl, want, n);
	kai_value(out, want, n, "PBKDF2 equals its definition");
}

/* scrypt over any MAC */
static uint32_t rotl(uint32_t x, unsigned n) { return (x << n) | (x >> (32 - n)); }
static void salsa8(uint32_t *b)
{
	static const uint8_t col[4][4] = {{0, 4, 8, 12}, {5, 9, 13, 1}, {10, 14, 2, 6}, {15, 3, 7, 11}}, row[4][4] = {{0, 1, 2, 3}, {5, 6, 7, 4}, {10, 11, 8, 9}, {15, 12, 13, 14}};
	uint32_t x[16];
	for(unsigned i = 0; i < 16; i++) x[i] = b[i];
	for(unsigned d = 0; d < 8; d++)
		for(unsigned q = 0; q < 4; q++)
		{
			const uint8_t *z = d % 2 ? row[q] : col[q];
			x[z[1]] ^= rotl(x[z[0]] + x[z[3]], 7);
			x[z[2]] ^= rotl(x[z[1]] + x[z[0]], 9);
			x[z[3]] ^= rotl(x[z[2]] + x[z[1]], 13);
			x[z[0]] ^= rotl(x[z[3]] + x[z[2]], 18);
		}
	for(unsigned i = 0; i < 16; i++) b[i] += x[i];
}
static void ref_blockmix(uint32_t *b, unsigned r)
{
	uint32_t x[16], y[64 * 4];
	for(unsigned i = 0; i < 16; i++) x[i] = b[(2 * r - 1) * 16 + i];
	for(unsigned k = 0; k < 2 * r; k++)
	{
		for(unsigned i = 0; i < 16; i++) x[i] ^= b[16 * k + i];
		salsa8(x);
		unsigned pos = k % 2 ? r + k / 2 : k / 2;
		for(unsigned i = 0; i < 16; i++) y[16 * pos + i] = x[i];
	}
	for(unsigned i = 0; i < 32 * r; i++) b[i] = y[i];
}
void drv_scrypt_def(unsigned mt, unsigned mr, unsigned n, unsigned r, unsigned p, unsigned pl, unsigned sl, unsigned ol)
{
	kai_vn(0);
	MM.maxtag = mt;
	uint8_t *pw = drv_in(pl, "password", KEY, 0), *salt = drv_in(sl, "salt", SALT, 0), *out = kai_buf(ol, "derived key"), *want = kai_buf(ol, "derived key");
	int e = kripto_scrypt(&MM, mr, n, r, p, pw, pl, salt, sl, out, ol);
	kai_expect(e == 0, "key derivation succeeds");
	uint8_t B[128 * 2 * 3];
	uint32_t X[32 * 2], V[16 * 32 * 2];
	ref_pbkdf2(mt, mr, 1, pw, pl, salt, sl, B, 128 * r * p);
	for(unsigned k = 0; k < p; k++)
	{
		uint8_t *b = B + 128 * r * k;
		for(unsigned i = 0; i < 32 * r; i++) X[i] = b[4 * i] | (uint32_t)b[4 * i + 1] << 8 | (uint32_t)b[4 * i + 2] << 16 | (uint32_t)b[4 * i + 3] << 24;
		for(unsigned j = 0; j < n; j++)
		{
			for(unsigned i = 0; i < 32 * r; i++) V[j * 32 * r + i] = X[i];
			ref_blockmix(X, r);
		}
		for(unsigned j = 0; j < n; j++)
		{
			unsigned z = X[(2 * r - 1) * 16] & (n - 1);
			for(unsigned i = 0; i < 32 * r; i++) X[i] ^= V[z * 32 * r + i];
			ref_blockmix(X, r);
		}
		for(unsigned i = 0; i < 32 * r; i++) { b[4 * i] = X[i]; b[4 * i + 1] = X[i] >> 8; b[4 * i + 2] = X[i] >> 16; b[4 * i + 3] = X[i] >> 24; }
	}
	ref_pbkdf2(mt, mr, 1, pw, pl, B, 128 * r * p, want, ol);
	kai_value(out, want, ol, "scrypt equals its definition");
}
