/* Reference hash functions, written from the published definitions and kept as
   close to them as possible: no unrolling, no combined tables. */
#ifndef REF_HASH_H
#define REF_HASH_H
#include <stdint.h>
#include "tables.h"

static uint32_t r32(uint32_t x, unsigned n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
static uint64_t r64(uint64_t x, unsigned n) { n &= 63; return n ? (x << n) | (x >> (64 - n)) : x; }
static uint64_t rd(const uint8_t *p, unsigned n, int big)
{
	uint64_t x = 0;
	for(unsigned i = 0; i < n; i++) x |= (uint64_t)p[i] << (8 * (big ? n - 1 - i : i));
	return x;
}
static void wr(uint8_t *p, unsigned n, int big, uint64_t x) { for(unsigned i = 0; i < n; i++) p[i] = x >> (8 * (big ? n - 1 - i : i)); }

/* A long message is represented by its first ref_from bytes followed by what stands
   ref_jump bytes further on; lengths and positions count the bytes left out. */
static uint64_t ref_from, ref_jump;
static unsigned ref_rounds; /* 0: the published number */
#define ROUNDS(N) (ref_rounds ? ref_rounds : (N))
static void ref_len(uint64_t pos, int bits, uint64_t c[2])
{
	uint64_t lo = pos > ref_from ? pos + ref_jump : pos, hi = lo < pos;
	c[0] = bits ? lo << 3 : lo;
	c[1] = bits ? hi << 3 | lo >> 61 : hi;
}

/* block j of the padded message: in || first || 0* || length (lb bytes, big or little) */
static unsigned md_blocks(uint64_t n, unsigned bs, unsigned lb) { return (n + 1 + lb + bs - 1) / bs; }
static void md_block(uint8_t *b, unsigned j, const uint8_t *in, uint64_t n, unsigned bs, unsigned lb, int big, uint8_t first)
{
	unsigned last = md_blocks(n, bs, lb) - 1;
	for(unsigned i = 0; i < bs; i++)
	{
		uint64_t k = (uint64_t)j * bs + i;
		b[i] = k < n ? in[k] : k == n ? first : 0;
	}
	uint64_t c[2];
	ref_len(n, 1, c);
	if(j == last) wr(b + bs - 8, 8, big, c[0]);
	if(j == last && lb > 8) wr(b + bs - 16, 8, big, c[1]);
}

/* ---------------------------------------------------------------- RFC 1321 */
static void ref_md5(const uint8_t *in, uint64_t n, uint8_t *out)
{
	static const uint8_t S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
	uint32_t h[4] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476};
	uint8_t b[64];
	for(unsigned j = 0; j < md_blocks(n, 64, 8); j++)
	{
		md_block(b, j, in, n, 64, 8, 0, 0x80);
		uint32_t A = h[0], B = h[1], C = h[2], D = h[3];
		for(unsigned i = 0; i < 64; i++)
		{
			uint32_t f; unsigned g;
			if(i < 16) { f = (B & C) | (~B & D); g = i; }
			else if(i < 32) { f = (D & B) | (~D & C); g = (5 * i + 1) % 16; }
			else if(i < 48) { f = B ^ C ^ D; g = (3 * i + 5) % 16; }
			else { f = C ^ (B | ~D); g = 7 * i % 16; }
			f = f + A + T_SIN[i] + (uint32_t)rd(b + 4 * g, 4, 0);
			A = D; D = C; C = B;
			B = B + r32(f, S[i / 16][i % 4]);
		}
		h[0] += A; h[1] += B; h[2] += C; h[3] += D;
	}
	for(unsigned i = 0; i < 4; i++) wr(out + 4 * i, 4, 0, h[i]);
}

/* ---------------------------------------------------------------- FIPS 180-4 */
static void ref_sha1(const uint8_t *in, uint64_t n, uint8_t *out)
{
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}, w[80];
	uint8_t m[64];
	for(unsigned j = 0; j < md_blocks(n, 64, 8); j++)
	{
		md_block(m, j, in, n, 64, 8, 1, 0x80);
		for(unsigned t = 0; t < 80; t++) w[t] = t < 16 ? (uint32_t)rd(m + 4 * t, 4, 1) : r32(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for(unsigned t = 0; t < 80; t++)
		{
			uint32_t f, k;
			if(t < 20) { f = (b & c) ^ (~b & d); k = 0x5A827999; }
			else if(t < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; }
			else if(t < 60) { f = (b & c) ^ (b & d) ^ (c & d); k = 0x8F1BBCDC; }
			else { f = b ^ c ^ d; k = 0xCA62C1D6; }
			uint32_t x = r32(a, 5) + f + e + k + w[t];
			e = d; d = c; c = r32(b, 30); b = a; a = x;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
	}
	for(unsigned i = 0; i < 5; i++) wr(out + 4 * i, 4, 1, h[i]);
}
/* bits: 224, 256 */
static void ref_sha256(unsigned bits, const uint8_t *in, uint64_t n, uint8_t *out)
{
	uint32_t h[8], w[64], v[8];
	uint8_t m[64];
	for(unsigned i = 0; i < 8; i++) h[i] = bits == 256 ? T_SQRT32[i] : (uint32_t)T_SQRT64[8 + i];
	for(unsigned j = 0; j < md_blocks(n, 64, 8); j++)
	{
		md_block(m, j, in, n, 64, 8, 1, 0x80);
		for(unsigned t = 0; t < 64; t++)
			w[t] = t < 16 ? (uint32_t)rd(m + 4 * t, 4, 1) : (r32(w[t - 2], 15) ^ r32(w[t - 2], 13) ^ (w[t - 2] >> 10)) + w[t - 7] + (r32(w[t - 15], 25) ^ r32(w[t - 15], 14) ^ (w[t - 15] >> 3)) + w[t - 16];
		for(unsigned i = 0; i < 8; i++) v[i] = h[i];
		for(unsigned t = 0; t < ROUNDS(64); t++)
		{
			uint32_t e = v[4], a = v[0];
			uint32_t t1 = v[7] + (r32(e, 26) ^ r32(e, 21) ^ r32(e, 7)) + ((e & v[5]) ^ (~e & v[6])) + T_CBRT32[t] + w[t];
			uint32_t t2 = (r32(a, 30) ^ r32(a, 19) ^ r32(a, 10)) + ((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
			for(unsigned i = 7; i; i--) v[i] = v[i - 1];
			v[4] += t1;
			v[0] = t1 + t2;
		}
		for(unsigned i = 0; i < 8; i++) h[i] += v[i];
	}
	for(unsigned i = 0; i < bits / 32; i++) wr(out + 4 * i, 4, 1, h[i]);
}
/* bits: 384, 512 */
static void ref_sha512(unsigned bits, const uint8_t *in, uint64_t n, uint8_t *out)
{
	uint64_t h[8], w[80], v[8];
	uint8_t m[128];
	for(unsigned i = 0; i < 8; i++) h[i] = bits == 512 ? T_SQRT64[i] : T_SQRT64[8 + i];
	for(unsigned j = 0; j < md_blocks(n, 128, 16); j++)
	{
		md_block(m, j, in, n, 128, 16, 1, 0x80);
		for(unsigned t = 0; t < 80; t++)
			w[t] = t < 16 ? rd(m + 8 * t, 8, 1) : (r64(w[t - 2], 45) ^ r64(w[t - 2], 3) ^ (w[t - 2] >> 6)) + w[t - 7] + (r64(w[t - 15], 63) ^ r64(w[t - 15], 56) ^ (w[t - 15] >> 7)) + w[t - 16];
		for(unsigned i = 0; i < 8; i++) v[i] = h[i];
		for(unsigned t = 0; t < ROUNDS(80); t++)
		{
			uint64_t e = v[4], a = v[0];
			uint64_t t1 = v[7] + (r64(e, 50) ^ r64(e, 46) ^ r64(e, 23)) + ((e & v[5]) ^ (~e & v[6])) + T_CBRT64[t] + w[t];
			uint64_t t2 = (r64(a, 36) ^ r64(a, 30) ^ r64(a, 25)) + ((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
			for(unsigned i = 7; i; i--) v[i] = v[i - 1];
			v[4] += t1;
			v[0] = t1 + t2;
		}
		for(unsigned i = 0; i < 8; i++) h[i] += v[i];
	}
	for(unsigned i = 0; i < bits / 64; i++) wr(out + 8 * i, 8, 1, h[i]);
}

/* ---------------------------------------------------------------- Keccak, FIPS 202; w: lane bytes (4, 8) */
static uint64_t rolw(uint64_t x, unsigned n, unsigned w) { return w == 4 ? r32((uint32_t)x, n % 32) : r64(x, n); }
static void keccak_f(uint64_t a[25], unsigned w)
{
	uint8_t lfsr = 1;
	uint64_t mask = w == 4 ? 0xFFFFFFFF : ~(uint64_t)0;
	for(unsigned round = 0; round < ROUNDS(w == 4 ? 22 : 24); round++)
	{
		uint64_t c[5], b[25];
		for(unsigned x = 0; x < 5; x++) { c[x] = 0; for(unsigned y = 0; y < 5; y++) c[x] ^= a[x + 5 * y]; }
		for(unsigned x = 0; x < 5; x++) for(unsigned y = 0; y < 5; y++) a[x + 5 * y] ^= c[(x + 4) % 5] ^ rolw(c[(x + 1) % 5], 1, w);
		unsigned x = 1, y = 0;
		b[0] = a[0];
		for(unsigned t = 0; t < 24; t++)
		{
			unsigned nx = y, ny = (2 * x + 3 * y) % 5;
			b[nx + 5 * ny] = rolw(a[x + 5 * y], (t + 1) * (t + 2) / 2, w);
			x = nx; y = ny;
		}
		for(x = 0; x < 5; x++) for(y = 0; y < 5; y++) a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & mask & b[(x + 2) % 5 + 5 * y]);
		for(unsigned j = 0; j < 7; j++)
		{
			if(lfsr & 1 && (1u << j) <= 8 * w) a[0] ^= (uint64_t)1 << ((1 << j) - 1);
			lfsr = (uint8_t)(lfsr << 1) ^ (lfsr >> 7 ? 0x71 : 0);
		}
	}
}
static void ref_sponge(unsigned w, unsigned rate, uint8_t suffix, const uint8_t *in, uint64_t n, uint8_t *out, unsigned ol)
{
	uint64_t a[25];
	uint8_t b[200];
	for(unsigned i = 0; i < 25; i++) a[i] = 0;
	for(uint64_t j = 0; j <= n / rate; j++)
	{
		for(unsigned i = 0; i < 200; i++) b[i] = i < rate && j * rate + i < n ? in[j * rate + i] : 0;
		if(j == n / rate) { b[n % rate] ^= suffix; b[rate - 1] ^= 0x80; }
		for(unsigned i = 0; i < 25; i++) a[i] ^= rd(b + w * i, w, 0);
		keccak_f(a, w);
	}
	for(unsigned o = 0; o < ol; o++)
	{
		if(o && o % rate == 0) keccak_f(a, w);
		out[o] = a[o % rate / w] >> (8 * (o % rate % w));
	}
}

/* ---------------------------------------------------------------- Tiger */
static void tiger_pass(uint64_t v[3], const uint64_t x[8], uint64_t mul, unsigned rot)
{
	for(unsigned i = 0; i < 8; i++)
	{
		uint64_t *a = &v[(i + rot) % 3], *b = &v[(i + rot + 1) % 3], *c = &v[(i + rot + 2) % 3];
		*c ^= x[i];
		*a -= T_TIGER[*c & 255] ^ T_TIGER[256 + (*c >> 16 & 255)] ^ T_TIGER[512 + (*c >> 32 & 255)] ^ T_TIGER[768 + (*c >> 48 & 255)];
		*b += T_TIGER[768 + (*c >> 8 & 255)] ^ T_TIGER[512 + (*c >> 24 & 255)] ^ T_TIGER[256 + (*c >> 40 & 255)] ^ T_TIGER[*c >> 56 & 255];
		*b *= mul;
	}
}
static void tiger_schedule(uint64_t x[8])
{
	x[0] -= x[7] ^ 0xA5A5A5A5A5A5A5A5; x[1] ^= x[0]; x[2] += x[1]; x[3] -= x[2] ^ (~x[1] << 19);
	x[4] ^= x[3]; x[5] += x[4]; x[6] -= x[5] ^ (~x[4] >> 23); x[7] ^= x[6];
	x[0] += x[7]; x[1] -= x[0] ^ (~x[7] << 19); x[2] ^= x[1]; x[3] += x[2];
	x[4] -= x[3] ^ (~x[2] >> 23); x[5] ^= x[4]; x[6] += x[5]; x[7] -= x[6] ^ 0x0123456789ABCDEF;
}
static void ref_tiger(const uint8_t *in, uint64_t n, uint8_t *out)
{
	uint64_t h[3] = {0x0123456789ABCDEF, 0xFEDCBA9876543210, 0xF096A5B4C3B2E187}, v[3], x[8];
	uint8_t m[64];
	for(unsigned j = 0; j < md_blocks(n, 64, 8); j++)
	{
		md_block(m, j, in, n, 64, 8, 0, 0x01);
		for(unsigned i = 0; i < 8; i++) x[i] = rd(m + 8 * i, 8, 0);
		for(unsigned i = 0; i < 3; i++) v[i] = h[i];
		tiger_pass(v, x, 5, 0); /* (a,b,c) */
		tiger_schedule(x);
		tiger_pass(v, x, 7, 2); /* (c,a,b) */
		tiger_schedule(x);
		tiger_pass(v, x, 9, 1); /* (b,c,a) */
		h[0] ^= v[0]; h[1] = v[1] - h[1]; h[2] += v[2];
	}
	for(unsigned i = 0; i < 3; i++) wr(out + 8 * i, 8, 0, h[i]);
}

/* ---------------------------------------------------------------- Whirlpool (ISO/IEC 10118-3) */
static const uint8_t WE[16] = {1, 11, 9, 12, 13, 6, 15, 3, 14, 8, 7, 4, 10, 2, 5, 0}, WR[16] = {7, 12, 11, 13, 14, 4, 9, 15, 6, 3, 8, 10, 2, 5, 1, 0};
static void whirlpool_sbox(uint8_t s[256])
{
	uint8_t inv[16];
	for(unsigned i = 0; i < 16; i++) inv[WE[i]] = i;
	for(unsigned x = 0; x < 256; x++)
	{
		uint8_t u = WE[x >> 4], l = inv[x & 15], r = WR[u ^ l];
		s[x] = WE[u ^ r] << 4 | inv[l ^ r];
	}
}
static uint8_t gmul(uint8_t x, unsigned k, unsigned poly) { uint8_t r = 0; for(; k; k >>= 1) { if(k & 1) r ^= x; x = (uint8_t)(x << 1) ^ (uint8_t)((0 - (x >> 7)) & poly); } return r; }
static void whirlpool_round(const uint8_t s[256], uint8_t st[64], const uint8_t key[64])
{
	static const uint8_t C[8] = {1, 1, 4, 1, 8, 5, 2, 9};
	uint8_t t[64];
	for(unsigned i = 0; i < 8; i++) for(unsigned j = 0; j < 8; j++) t[8 * ((i + j) % 8) + j] = s[st[8 * i + j]];
	for(unsigned i = 0; i < 8; i++) for(unsigned j = 0; j < 8; j++)
	{
		uint8_t x = key[8 * i + j];
		for(unsigned k = 0; k < 8; k++) x ^= gmul(t[8 * i + k], C[(j + 8 - k) % 8], 0x1D);
		st[8 * i + j] = x;
	}
}
static void ref_whirlpool(const uint8_t *in, uint64_t n, uint8_t *out)
{
	uint8_t s[256], h[64], k[64], st[64], m[64], rc[64];
	whirlpool_sbox(s);
	for(unsigned i = 0; i < 64; i++) h[i] = 0;
	for(unsigned j = 0; j < md_blocks(n, 64, 32); j++)
	{
		md_block(m, j, in, n, 64, 32, 1, 0x80);
		for(unsigned i = 0; i < 64; i++) { k[i] = h[i]; st[i] = m[i] ^ h[i]; }
		for(unsigned r = 0; r < ROUNDS(10); r++)
		{
			for(unsigned i = 0; i < 64; i++) rc[i] = i < 8 ? s[8 * r + i] : 0;
			whirlpool_round(s, k, rc);
			whirlpool_round(s, st, k);
		}
		for(unsigned i = 0; i < 64; i++) h[i] ^= st[i] ^ m[i];
	}
	for(unsigned i = 0; i < 64; i++) out[i] = h[i];
}

/* ---------------------------------------------------------------- BLAKE, BLAKE2 */
static const uint8_t SG[10][16] = {
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
/* w: word bytes (4, 8); c: constants exchanged into the message words (BLAKE) or none (BLAKE2) */
static uint64_t rorw(uint64_t x, unsigned n, unsigned w) { return w == 4 ? r32((uint32_t)x, 32 - n) : r64(x, 64 - n); }
static void blake_mix(unsigned w, unsigned rounds, uint64_t v[16], const uint64_t m[16], int blake2)
{
	static const uint8_t D[8][4] = {{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}};
	static const uint8_t R[3][4] = {{16, 12, 8, 7}, {32, 25, 16, 11}, {32, 24, 16, 63}};
	const uint8_t *rot = w == 4 ? R[0] : blake2 ? R[2] : R[1];
	uint64_t mask = w == 4 ? 0xFFFFFFFF : ~(uint64_t)0;
	for(unsigned r = 0; r < rounds; r++)
		for(unsigned g = 0; g < 8; g++)
		{
			uint64_t *a = v + D[g][0], *b = v + D[g][1], *c = v + D[g][2], *d = v + D[g][3];
			unsigned p = SG[r % 10][2 * g], q = SG[r % 10][2 * g + 1];
			uint64_t x = m[p], y = m[q];
			if(!blake2) { x ^= w == 4 ? T_PI32[q] : T_PI64[q]; y ^= w == 4 ? T_PI32[p] : T_PI64[p]; }
			*a = (*a + *b + x) & mask; *d = rorw(*d ^ *a, rot[0], w); *c = (*c + *d) & mask; *b = rorw(*b ^ *c, rot[1], w);
			*a = (*a + *b + y) & mask; *d = rorw(*d ^ *a, rot[2], w); *c = (*c + *d) & mask; *b = rorw(*b ^ *c, rot[3], w);
		}
}
/* BLAKE-224/256/384/512 with a salt of four words */
static void ref_blake(unsigned bits, const uint8_t *salt, const uint8_t *in, uint64_t n, uint8_t *out)
{
	unsigned w = bits <= 256 ? 4 : 8, bs = 16 * w, lb = 2 * w, nb = (n + 1 + lb + bs - 1) / bs;
	uint64_t h[8], v[16], m[16], s[4];
	uint8_t b[128];
	for(unsigned i = 0; i < 4; i++) s[i] = rd(salt + i * w, w, 1);
	for(unsigned i = 0; i < 8; i++) h[i] = bits == 256 ? T_SQRT32[i] : bits == 224 ? (uint32_t)T_SQRT64[8 + i] : bits == 512 ? T_SQRT64[i] : T_SQRT64[8 + i];
	for(unsigned j = 0; j < nb; j++)
	{
		for(unsigned i = 0; i < bs; i++) { uint64_t k = (uint64_t)j * bs + i; b[i] = k < n ? in[k] : k == n ? 0x80 : 0; }
		if(j + 1 == nb) { if(bits == 256 || bits == 512) b[bs - lb - 1] |= 1; uint64_t c[2]; ref_len(n, 1, c); wr(b + bs - 8, 8, 1, c[0]); if(w == 8) wr(b + bs - 16, 8, 1, c[1]); }
		/* message bits hashed so far, 0 if the block has none */
		uint64_t t = n < (uint64_t)(j + 1) * bs ? n : (uint64_t)(j + 1) * bs;
		uint64_t c[2] = {0, 0};
		if(n > (uint64_t)j * bs) ref_len(t, 1, c);
		uint64_t t0 = w == 4 ? c[0] & 0xFFFFFFFF : c[0], t1 = w == 4 ? c[0] >> 32 : c[1];
		for(unsigned i = 0; i < 16; i++) m[i] = rd(b + i * w, w, 1);
		for(unsigned i = 0; i < 8; i++) { v[i] = h[i]; v[8 + i] = w == 4 ? T_PI32[i] : T_PI64[i]; }
		for(unsigned i = 0; i < 4; i++) v[8 + i] ^= s[i];
		v[12] ^= t0; v[13] ^= t0; v[14] ^= t1; v[15] ^= t1;
		blake_mix(w, ROUNDS(w == 4 ? 14 : 16), v, m, 0);
		for(unsigned i = 0; i < 8; i++) h[i] ^= s[i % 4] ^ v[i] ^ v[8 + i];
	}
	for(unsigned i = 0; i < bits / 8 / w; i++) wr(out + w * i, w, 1, h[i]);
}
/* RFC 7693 without a key; salt of two words (parameter block) */
static void ref_blake2(unsigned w, const uint8_t *salt, unsigned ol, const uint8_t *in, uint64_t n, uint8_t *out)
{
	unsigned bs = 16 * w, nb = n ? (n + bs - 1) / bs : 1;
	uint64_t h[8], v[16], m[16];
	uint8_t b[128], p[64];
	for(unsigned i = 0; i < 64; i++) p[i] = 0;
	p[0] = ol; p[2] = 1; p[3] = 1;
	for(unsigned i = 0; i < 2 * w; i++) p[4 * w + i] = salt[i];
	for(unsigned i = 0; i < 8; i++) h[i] = (w == 4 ? T_SQRT32[i] : T_SQRT64[i]) ^ rd(p + i * w, w, 0);
	for(unsigned j = 0; j < nb; j++)
	{
		for(unsigned i = 0; i < bs; i++) { uint64_t k = (uint64_t)j * bs + i; b[i] = k < n ? in[k] : 0; }
		uint64_t t = j + 1 == nb ? n : (uint64_t)(j + 1) * bs;
		for(unsigned i = 0; i < 16; i++) m[i] = rd(b + i * w, w, 0);
		for(unsigned i = 0; i < 8; i++) { v[i] = h[i]; v[8 + i] = w == 4 ? T_SQRT32[i] : T_SQRT64[i]; }
		uint64_t c[2];
		ref_len(t, 0, c);
		v[12] ^= w == 4 ? c[0] & 0xFFFFFFFF : c[0];
		v[13] ^= w == 4 ? c[0] >> 32 : c[1];
		if(j + 1 == nb) v[14] ^= w == 4 ? 0xFFFFFFFF : ~(uint64_t)0;
		blake_mix(w, ROUNDS(w == 4 ? 10 : 12), v, m, 1);
		for(unsigned i = 0; i < 8; i++) h[i] ^= v[i] ^ v[8 + i];
	}
	for(unsigned i = 0; i < ol; i++) out[i] = h[i / w] >> (8 * (i % w));
}

/* ---------------------------------------------------------------- Threefish, Skein 1.3 */
static void ref_threefish(unsigned nw, const uint8_t *key, const uint8_t tweak[16], const uint8_t *in, uint8_t *out)
{
	static const uint8_t R4[8][2] = {{14, 16}, {52, 57}, {23, 40}, {5, 37}, {25, 33}, {46, 12}, {58, 22}, {32, 32}};
	static const uint8_t R8[8][4] = {{46, 36, 19, 37}, {33, 27, 14, 42}, {17, 49, 36, 39}, {44, 9, 54, 56}, {39, 30, 34, 24}, {13, 50, 10, 17}, {25, 29, 39, 43}, {8, 35, 56, 22}};
	static const uint8_t R16[8][8] = {{24, 13, 8, 47, 8, 17, 22, 37}, {38, 19, 10, 55, 49, 18, 23, 52}, {33, 4, 51, 13, 34, 41, 59, 17}, {5, 20, 48, 41, 47, 28, 16, 25},
		{41, 9, 37, 31, 12, 47, 44, 30}, {16, 34, 56, 51, 4, 53, 42, 41}, {31, 44, 47, 46, 19, 42, 44, 25}, {9, 48, 35, 52, 23, 31, 37, 20}};
	static const uint8_t P4[4] = {0, 3, 2, 1}, P8[8] = {2, 1, 4, 7, 6, 5, 0, 3}, P16[16] = {0, 9, 2, 13, 6, 11, 4, 15, 10, 7, 12, 3, 14, 5, 8, 1};
	unsigned rounds = ROUNDS(nw == 16 ? 80 : 72);
	uint64_t k[17], t[3], v[16], f[16];
	k[nw] = 0x1BD11BDAA9FC1A22;
	for(unsigned i = 0; i < nw; i++) { k[i] = rd(key + 8 * i, 8, 0); k[nw] ^= k[i]; v[i] = rd(in + 8 * i, 8, 0); }
	t[0] = rd(tweak, 8, 0); t[1] = rd(tweak + 8, 8, 0); t[2] = t[0] ^ t[1];
	for(unsigned d = 0; d <= rounds; d++)
	{
		if(d % 4 == 0)
		{
			unsigned s = d / 4;
			for(unsigned i = 0; i < nw; i++) v[i] += k[(s + i) % (nw + 1)];
			v[nw - 3] += t[s % 3]; v[nw - 2] += t[(s + 1) % 3]; v[nw - 1] += s;
		}
		if(d == rounds) break;
		for(unsigned j = 0; j < nw / 2; j++)
		{
			unsigned rot = nw == 4 ? R4[d % 8][j] : nw == 8 ? R8[d % 8][j] : R16[d % 8][j];
			f[2 * j] = v[2 * j] + v[2 * j + 1];
			f[2 * j + 1] = r64(v[2 * j + 1], rot) ^ f[2 * j];
		}
		for(unsigned i = 0; i < nw; i++) v[i] = f[nw == 4 ? P4[i] : nw == 8 ? P8[i] : P16[i]];
	}
	for(unsigned i = 0; i < nw; i++) wr(out + 8 * i, 8, 0, v[i]);
}
static void ref_ubi(unsigned nw, uint8_t *g, const uint8_t *m, uint64_t n, unsigned type)
{
	unsigned nb = 8 * nw;
	uint8_t b[128], t[16], o[128];
	for(uint64_t p = 0; p == 0 || p < n; p += nb)
	{
		for(unsigned i = 0; i < nb; i++) b[i] = p + i < n ? m[p + i] : 0;
		for(unsigned i = 0; i < 16; i++) t[i] = 0;
		uint64_t c[2] = {p + nb < n ? p + nb : n, 0};
		if(type == 48) ref_len(c[0], 0, c);
		wr(t, 8, 0, c[0]);
		wr(t + 8, 4, 0, c[1]);
		t[15] = type | (p == 0 ? 0x40 : 0) | (p + nb >= n ? 0x80 : 0);
		ref_threefish(nw, g, t, b, o);
		for(unsigned i = 0; i < nb; i++) g[i] = o[i] ^ b[i];
	}
}
static void ref_skein_cfg(unsigned nw, uint8_t *g, uint64_t ol)
{
	uint8_t c[32] = {'S', 'H', 'A', '3', 1};
	wr(c + 8, 8, 0, ol * 8);
	ref_ubi(nw, g, c, 32, 4);
}
static void ref_skein_out(unsigned nw, const uint8_t *g, uint8_t *out, uint64_t ol)
{
	uint8_t b[8], o[128];
	for(uint64_t p = 0; p < ol; p += 8 * nw)
	{
		wr(b, 8, 0, p / (8 * nw));
		for(unsigned i = 0; i < 8 * nw; i++) o[i] = g[i];
		ref_ubi(nw, o, b, 8, 63);
		for(unsigned i = 0; i < 8 * nw && p + i < ol; i++) out[p + i] = o[i];
	}
}
/* key (MAC), nonce: absent when empty */
static void ref_skein(unsigned nw, const uint8_t *key, unsigned kl, const uint8_t *nonce, unsigned nl, const uint8_t *in, uint64_t n, uint8_t *out, uint64_t ol)
{
	uint8_t g[128];
	for(unsigned i = 0; i < 128; i++) g[i] = 0;
	if(kl) ref_ubi(nw, g, key, kl, 0);
	ref_skein_cfg(nw, g, ol);
	if(nl) ref_ubi(nw, g, nonce, nl, 20);
	ref_ubi(nw, g, in, n, 48);
	ref_skein_out(nw, g, out, ol);
}
#endif
