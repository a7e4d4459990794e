/* Reference block ciphers, written from the published definitions: plain
   S-boxes instead of combined tables, loops instead of unrolled code.  Keys
   shorter than a published size are padded with zero bytes, unless noted.
   ref_block(alg, dec, ...): dec is only implemented where needed (see DEC). */
#ifndef REF_BLOCK_H
#define REF_BLOCK_H
#include "hash.h"
#include "block_tables.h"

#ifdef __clang__
#define v32(x, n) __builtin_rotateleft32(x, n)
#else
#define v32(x, n) r32(x, n)
#endif
static uint16_t r16(uint16_t x, unsigned n) { n &= 15; return n ? (uint16_t)(x << n | x >> (16 - n)) : x; }
static uint8_t r8(uint8_t x, unsigned n) { n &= 7; return n ? (uint8_t)(x << n | x >> (8 - n)) : x; }
static uint8_t gf(uint8_t a, uint8_t b, unsigned poly)
{
	uint8_t r = 0;
	for(unsigned i = 0; i < 8; i++)
	{
		r ^= (uint8_t)-(b >> i & 1) & a;
		a = (uint8_t)(a << 1) ^ ((uint8_t)-(a >> 7) & (uint8_t)poly);
	}
	return r;
}
/* n words of w bytes from a zero-padded key */
static void kw32(uint32_t *k, unsigned n, int big, const uint8_t *key, unsigned kl)
{
	for(unsigned i = 0; i < n; i++)
	{
		uint8_t b[4];
		for(unsigned j = 0; j < 4; j++) b[j] = 4 * i + j < kl ? key[4 * i + j] : 0;
		k[i] = (uint32_t)rd(b, 4, big);
	}
}
static void kw64(uint64_t *k, unsigned n, int big, const uint8_t *key, unsigned kl)
{
	for(unsigned i = 0; i < n; i++)
	{
		uint8_t b[8];
		for(unsigned j = 0; j < 8; j++) b[j] = 8 * i + j < kl ? key[8 * i + j] : 0;
		k[i] = rd(b, 8, big);
	}
}
static void kb8(uint8_t *k, unsigned n, const uint8_t *key, unsigned kl) { for(unsigned i = 0; i < n; i++) k[i] = i < kl ? key[i] : 0; }
static void in32(uint32_t *x, unsigned n, int big, const uint8_t *p) { for(unsigned i = 0; i < n; i++) x[i] = (uint32_t)rd(p + 4 * i, 4, big); }
static void out32(uint8_t *p, unsigned n, int big, const uint32_t *x) { for(unsigned i = 0; i < n; i++) wr(p + 4 * i, 4, big, x[i]); }

/* ------------------------------------------------ TEA, XTEA (big endian) */
static void ref_tea(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint32_t k[4], v[2], sum = 0;
	kw32(k, 4, 1, key, kl);
	in32(v, 2, 1, in);
	for(unsigned i = 0; i < (r ? r : 32); i++)
	{
		sum += 0x9E3779B9;
		for(unsigned h = 0; h < 2; h++)
			v[h] += ((v[1 - h] << 4) + k[2 * h]) ^ (v[1 - h] + sum) ^ ((v[1 - h] >> 5) + k[2 * h + 1]);
	}
	out32(out, 2, 1, v);
}
/* short keys: the key has as many words as given */
static void ref_xtea(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint32_t k[4], v[2], sum = 0;
	unsigned n = (kl + 3) / 4;
	kw32(k, 4, 1, key, kl);
	in32(v, 2, 1, in);
	for(unsigned i = 0; i < (r ? r : 64); i++)
	{
		unsigned h = i & 1, o = 1 - h;
		if(h) sum += 0x9E3779B9;
		v[h] += (((v[o] << 4) ^ (v[o] >> 5)) + v[o]) ^ (sum + k[(h ? sum >> 11 : sum) % n]);
	}
	out32(out, 2, 1, v);
}
/* ---------------------------------------------------------- RC5, RC6, RC2 */
static void rc56_key(uint32_t *s, unsigned n, const uint8_t *key, unsigned kl)
{
	uint32_t l[64], a = 0, b = 0;
	unsigned c = (kl + 3) / 4;
	kw32(l, c, 0, key, kl);
	for(unsigned i = 0; i < n; i++) s[i] = 0xB7E15163 + i * 0x9E3779B9;
	for(unsigned k = 0; k < 3 * (n > c ? n : c); k++)
	{
		a = s[k % n] = r32(s[k % n] + a + b, 3);
		b = l[k % c] = v32(l[k % c] + a + b, a + b);
	}
}
static void ref_rc5(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint32_t s[530], v[2];
	if(!r) r = 12;
	rc56_key(s, 2 * r + 2, key, kl);
	in32(v, 2, 0, in);
	v[0] += s[0];
	v[1] += s[1];
	for(unsigned i = 2; i < 2 * r + 2; i++) v[i & 1] = v32(v[0] ^ v[1], v[~i & 1]) + s[i];
	out32(out, 2, 0, v);
}
static void ref_rc6(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint32_t s[530], v[4];
	if(!r) r = 20;
	rc56_key(s, 2 * r + 4, key, kl);
	in32(v, 4, 0, in);
	v[1] += s[0];
	v[3] += s[1];
	for(unsigned i = 1; i <= r; i++)
	{
		uint32_t t = r32(v[1] * (2 * v[1] + 1), 5), u = r32(v[3] * (2 * v[3] + 1), 5);
		uint32_t a = v32(v[0] ^ t, u) + s[2 * i], c = v32(v[2] ^ u, t) + s[2 * i + 1];
		v[0] = v[1]; v[1] = c; v[2] = v[3]; v[3] = a;
	}
	v[0] += s[2 * r + 2];
	v[2] += s[2 * r + 3];
	out32(out, 4, 0, v);
}
/* effective key bits: 8 times the key length */
static void ref_rc2(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint8_t l[128];
	uint16_t k[64], x[4];
	static const uint8_t rot[4] = {1, 2, 3, 5};
	(void)r;
	for(unsigned i = 0; i < 128; i++) l[i] = i < kl ? key[i] : B_RC2[(l[i - 1] + l[i - kl]) & 255];
	l[128 - kl] = B_RC2[l[128 - kl]];
	for(int i = 127 - (int)kl; i >= 0; i--) l[i] = B_RC2[l[i + 1] ^ l[i + kl]];
	for(unsigned i = 0; i < 64; i++) k[i] = (uint16_t)rd(l + 2 * i, 2, 0);
	for(unsigned i = 0; i < 4; i++) x[i] = (uint16_t)rd(in + 2 * i, 2, 0);
	for(unsigned i = 0, j = 0; i < 16; i++)
	{
		for(unsigned h = 0; h < 4; h++, j++)
			x[h] = r16(x[h] + k[j] + (x[(h + 3) & 3] & x[(h + 2) & 3]) + (~x[(h + 3) & 3] & x[(h + 1) & 3]), rot[h]);
		if(i == 4 || i == 10) for(unsigned h = 0; h < 4; h++) x[h] += k[x[(h + 3) & 3] & 63];
	}
	for(unsigned i = 0; i < 4; i++) wr(out + 2 * i, 2, 0, x[i]);
}
/* ------------------------------------- Speck, Simon; w: word bytes 2, 4, 8 */
static uint64_t rw(unsigned w, uint64_t x, unsigned n) { return w == 2 ? r16((uint16_t)x, n) : w == 4 ? r32((uint32_t)x, n) : r64(x, n); }
static uint64_t mw(unsigned w, uint64_t x) { return w == 2 ? (uint16_t)x : w == 4 ? (uint32_t)x : x; }
static void ref_speck(unsigned w, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint64_t l[4], x, y, k;
	unsigned m = (kl + w - 1) / w, al = w == 2 ? 7 : 8, be = w == 2 ? 2 : 3;
	uint8_t kb[32];
	kb8(kb, 32, key, kl);
	if(!r) r = w == 2 ? 22 : w == 4 ? 23 + m : 30 + m;
	if(m < 2) m = 2;
	k = rd(kb, w, 0);
	for(unsigned i = 0; i + 1 < m; i++) l[i] = rd(kb + w * (i + 1), w, 0);
	y = rd(in, w, 0);
	x = rd(in + w, w, 0);
	for(unsigned i = 0; i < r; i++)
	{
		x = mw(w, rw(w, x, 8 * w - al) + y) ^ k;
		y = rw(w, y, be) ^ x;
		uint64_t *p = &l[i % (m - 1)];
		*p = mw(w, k + rw(w, *p, 8 * w - al)) ^ i;
		k = rw(w, k, be) ^ *p;
	}
	wr(out, w, 0, y);
	wr(out + w, w, 0, x);
}
static void ref_simon(unsigned w, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	static const char z[5][63] = {
		"11111010001001010110000111001101111101000100101011000011100110",
		"10001110111110010011000010110101000111011111001001100001011010",
		"10101111011100000011010010011000101000010001111110010110110011",
		"11011011101011000110010111100000010010001010011100110100001111",
		"11010001111001101011011000100000010111000011001010010011101111"};
	unsigned m = (kl + w - 1) / w, zi;
	uint64_t k[160], x, y;
	uint8_t kb[32];
	kb8(kb, 32, key, kl);
	if(!r) r = w == 2 ? 32 : w == 4 ? 36 + 2 * m : m == 4 ? 72 : m == 3 ? 69 : 68;
	if(w == 2) m = 4;
	if(w == 4 && m < 3) m = 3;
	if(m < 2) m = 2;
	zi = w == 2 ? 0 : w == 4 ? m - 1 : m;
	for(unsigned i = 0; i < m; i++) k[i] = rd(kb + w * i, w, 0);
	for(unsigned i = m; i < r; i++)
	{
		uint64_t t = rw(w, k[i - 1], 8 * w - 3);
		if(m == 4) t ^= k[i - 3];
		t ^= rw(w, t, 8 * w - 1);
		k[i] = mw(w, ~(uint64_t)0) ^ k[i - m] ^ t ^ (unsigned)(z[zi][(i - m) % 62] - '0') ^ 3;
	}
	y = rd(in, w, 0);
	x = rd(in + w, w, 0);
	for(unsigned i = 0; i < r; i++)
	{
		uint64_t t = x;
		x = y ^ (rw(w, x, 1) & rw(w, x, 8)) ^ rw(w, x, 2) ^ k[i];
		y = t;
	}
	wr(out, w, 0, y);
	wr(out + w, w, 0, x);
}
/* -------------------------------------------------------------------- LEA */
static void ref_lea(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	static const uint32_t D[8] = {0xC3EFE9DB, 0x44626B02, 0x79E27C8A, 0x78DF30EC, 0x715EA49E, 0xC785DA0A, 0xE04EF22A, 0xE5C40957};
	static const uint8_t rot[6] = {1, 3, 6, 11, 13, 17};
	unsigned n = kl > 24 ? 8 : kl > 16 ? 6 : 4;
	uint32_t t[8], rk[6], x[4];
	if(!r) r = n == 8 ? 32 : n == 6 ? 28 : 24;
	kw32(t, n, 0, key, kl);
	in32(x, 4, 0, in);
	for(unsigned i = 0; i < r; i++)
	{
		uint32_t d = D[i % n];
		if(n == 4)
		{
			for(unsigned j = 0; j < 4; j++) t[j] = r32(t[j] + r32(d, i + j), rot[j]);
			rk[0] = t[0]; rk[2] = t[2]; rk[4] = t[3];
			rk[1] = rk[3] = rk[5] = t[1];
		}
		else for(unsigned j = 0; j < 6; j++)
		{
			unsigned q = n == 8 ? (6 * i + j) % 8 : j;
			rk[j] = t[q] = r32(t[q] + r32(d, i + j), rot[j]);
		}
		uint32_t a = r32((x[0] ^ rk[0]) + (x[1] ^ rk[1]), 9), b = r32((x[1] ^ rk[2]) + (x[2] ^ rk[3]), 27), c = r32((x[2] ^ rk[4]) + (x[3] ^ rk[5]), 29);
		x[3] = x[0]; x[0] = a; x[1] = b; x[2] = c;
	}
	out32(out, 4, 0, x);
}
/* --------------------------------------------------------------- SHACAL-2 */
static void ref_shacal2(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint32_t w[128], v[8];
	if(!r) r = 64;
	kw32(w, 16, 1, key, kl);
	for(unsigned i = 16; i < r; i++)
		w[i] = w[i - 16] + w[i - 7] + (r32(w[i - 15], 25) ^ r32(w[i - 15], 14) ^ w[i - 15] >> 3) + (r32(w[i - 2], 15) ^ r32(w[i - 2], 13) ^ w[i - 2] >> 10);
	in32(v, 8, 1, in);
	for(unsigned i = 0; i < r; i++)
	{
		uint32_t t1 = v[7] + (r32(v[4], 26) ^ r32(v[4], 21) ^ r32(v[4], 7)) + (v[6] ^ (v[4] & (v[5] ^ v[6]))) + B_CBRT[i] + w[i];
		uint32_t t2 = (r32(v[0], 30) ^ r32(v[0], 19) ^ r32(v[0], 10)) + ((v[0] & v[1]) | (v[2] & (v[0] | v[1])));
		for(unsigned j = 7; j; j--) v[j] = v[j - 1];
		v[4] += t1;
		v[0] = t1 + t2;
	}
	out32(out, 8, 1, v);
}
/* ---------------------------------------------------------- CRAX-S, TRAX */
static const uint32_t SPARKLE[8] = {0xB7E15162, 0xBF715880, 0x38B4DA56, 0x324E7738, 0xBB1185EB, 0x4F7C7B57, 0xCFBFA1C8, 0xC2B3293D};
static void ref_alzette(uint32_t *x, uint32_t *y, uint32_t c)
{
	static const uint8_t s[4][2] = {{31, 24}, {17, 17}, {0, 31}, {24, 16}};
	for(unsigned i = 0; i < 4; i++)
	{
		*x += r32(*y, 32 - s[i][0]);
		*y ^= r32(*x, 32 - s[i][1]);
		*x ^= c;
	}
}
static void ref_crax(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint32_t k[4], v[2];
	if(!r) r = 10;
	kw32(k, 4, 0, key, kl);
	in32(v, 2, 0, in);
	for(unsigned i = 0; i <= r; i++)
	{
		if(i < r) v[0] ^= i;
		v[0] ^= k[2 * (i & 1)];
		v[1] ^= k[2 * (i & 1) + 1];
		if(i < r) ref_alzette(v, v + 1, SPARKLE[i % 5]);
	}
	out32(out, 2, 0, v);
}
static uint32_t ref_ell(uint32_t x) { return r32(x ^ x << 16, 16); }
/* n: number of (x, y) pairs, 2 (M) or 4 (L) */
static void ref_trax(unsigned n, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *tw, unsigned tl, const uint8_t *in, uint8_t *out)
{
	uint32_t k[8], t[4], x[4], y[4];
	if(!r) r = n == 2 ? 14 : 17;
	kw32(k, 2 * n, 0, key, kl);
	kw32(t, n, 0, tw, tl);
	for(unsigned i = 0; i < n; i++)
	{
		x[i] = (uint32_t)rd(in + 8 * i, 4, 0);
		y[i] = (uint32_t)rd(in + 8 * i + 4, 4, 0);
	}
	for(unsigned s = 0; s <= r; s++)
	{
		for(unsigned i = 0; i < n; i++)
		{
			if(s & 1 && s < r && i < n / 2) { x[i] ^= t[2 * i]; y[i] ^= t[2 * i + 1]; }
			x[i] ^= k[2 * i];
			y[i] ^= k[2 * i + 1];
			if(s < r) ref_alzette(x + i, y + i, SPARKLE[(n * s + i) % 8]);
		}
		if(s == r) break;
		uint32_t nk[8];
		/* key schedule */
		if(n == 2)
		{
			nk[0] = k[1]; nk[1] = k[2] ^ k[3] ^ s; nk[2] = k[3]; nk[3] = k[0] + k[1] + SPARKLE[s % 8];
		}
		else
		{
			nk[0] = k[1]; nk[1] = k[2] ^ k[3] ^ s; nk[2] = k[3]; nk[3] = k[4] + k[5] + SPARKLE[(2 * s + 1) % 8];
			nk[4] = k[5]; nk[5] = k[6] ^ k[7] ^ s << 16; nk[6] = k[7]; nk[7] = k[0] + k[1] + SPARKLE[2 * s % 8];
		}
		for(unsigned i = 0; i < 2 * n; i++) k[i] = nk[i];
		/* linear layer */
		if(n == 2)
		{
			uint32_t a = x[0], b = y[0];
			x[0] ^= x[1]; x[1] = a;
			y[0] ^= y[1]; y[1] = b;
		}
		else
		{
			uint32_t lx = ref_ell(x[2] ^ x[3]), ly = ref_ell(y[2] ^ y[3]);
			uint32_t nx[4] = {x[3], x[2], x[0] ^ ly, x[1] ^ ly}, ny[4] = {y[3], y[2], y[0] ^ lx, y[1] ^ lx};
			for(unsigned i = 0; i < 4; i++) { x[i] = nx[i]; y[i] = ny[i]; }
		}
	}
	for(unsigned i = 0; i < n; i++) { wr(out + 8 * i, 4, 0, x[i]); wr(out + 8 * i + 4, 4, 0, y[i]); }
}
/* -------------------------------------------------------------- Threefish */
static void ref_tf(unsigned nw, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *tw, unsigned tl, const uint8_t *in, uint8_t *out)
{
	uint8_t k[128], t[16];
	(void)r;
	kb8(k, 8 * nw, key, kl);
	kb8(t, 16, tw, tl);
	ref_threefish(nw, k, t, in, out);
}
/* ------------------------------------------------------------------- IDEA */
/* multiplication modulo 2^16 + 1, zero stands for 2^16 (low - high algorithm) */
static uint16_t ref_imul(uint16_t a, uint16_t b)
{
	uint32_t p = (uint32_t)a * b, m = 0 - ((p | (0 - p)) >> 31);
	uint32_t d = (p & 0xFFFF) - (p >> 16);
	return (uint16_t)((((d & 0xFFFF) - (d >> 16)) & m) | ((1u - a - b) & ~m));
}
static void ref_idea(int dec, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint16_t e[6 * 64 + 4], d[6 * 64 + 4], x[4];
	uint8_t kb[16];
	if(!r) r = 8;
	kb8(kb, 16, key, kl);
	/* 16 bits of the key at 16 (i % 8), the key rotated left by 25 (i / 8) */
	for(unsigned i = 0; i < 6 * r + 4; i++)
	{
		e[i] = 0;
		for(unsigned j = 0; j < 16; j++)
		{
			unsigned b = (25 * (i / 8) + 16 * (i % 8) + j) % 128;
			e[i] = (uint16_t)(e[i] << 1 | (kb[b / 8] >> (7 - b % 8) & 1));
		}
	}
	for(unsigned i = 0; dec && i <= r; i++)
	{
		for(unsigned j = 0; j < 4; j += 3)
		{
			/* x^(2^16 - 1): the inverse, as 2^16 + 1 is prime */
			uint16_t y = e[6 * (r - i) + j], z = y;
			for(unsigned k = 0; k < 15; k++) z = ref_imul(ref_imul(z, z), y);
			d[6 * i + j] = z;
		}
		int sw = i && i < r;
		d[6 * i + 1] = 0 - e[6 * (r - i) + (sw ? 2 : 1)];
		d[6 * i + 2] = 0 - e[6 * (r - i) + (sw ? 1 : 2)];
		if(i < r) for(unsigned j = 4; j < 6; j++) d[6 * i + j] = e[6 * (r - i - 1) + j];
	}
	for(unsigned i = 0; i < 4; i++) x[i] = (uint16_t)rd(in + 2 * i, 2, 1);
	for(unsigned i = 0; i <= r; i++)
	{
		const uint16_t *k = (dec ? d : e) + 6 * i;
		uint16_t t;
		if(i == r) { t = x[1]; x[1] = x[2]; x[2] = t; }
		x[0] = ref_imul(x[0], k[0]);
		x[1] += k[1];
		x[2] += k[2];
		x[3] = ref_imul(x[3], k[3]);
		if(i == r) break;
		uint16_t u = ref_imul(x[0] ^ x[2], k[4]);
		uint16_t v = ref_imul((uint16_t)((x[1] ^ x[3]) + u), k[5]);
		u += v;
		x[0] ^= v;
		x[3] ^= u;
		t = x[1] ^ u;
		x[1] = x[2] ^ v;
		x[2] = t;
	}
	for(unsigned i = 0; i < 4; i++) wr(out + 2 * i, 2, 1, x[i]);
}
/* ------------------------------------------------------------------- 3-Way */
static uint32_t rev32(uint32_t x)
{
	uint32_t r = 0;
	for(unsigned i = 0; i < 32; i++) r |= (x >> i & 1) << (31 - i);
	return r;
}
static void way_theta(uint32_t *a)
{
	uint32_t b[3];
	for(unsigned i = 0; i < 3; i++)
	{
		uint32_t x = a[i], y = a[(i + 1) % 3], z = a[(i + 2) % 3];
		b[i] = x ^ x >> 16 ^ y << 16 ^ y >> 16 ^ z << 16 ^ y >> 24 ^ z << 8 ^ z >> 8 ^ x << 24 ^ z >> 16 ^ x << 16 ^ z >> 24 ^ x << 8;
	}
	for(unsigned i = 0; i < 3; i++) a[i] = b[i];
}
static void way_mu(uint32_t *a)
{
	uint32_t t = rev32(a[0]);
	a[0] = rev32(a[2]);
	a[1] = rev32(a[1]);
	a[2] = t;
}
static void ref_3way(int dec, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint32_t k[3], a[3], rc = dec ? 0xB1B1 : 0x0B0B;
	if(!r) r = 11;
	kw32(k, 3, 1, key, kl);
	in32(a, 3, 1, in);
	if(dec)
	{
		way_theta(k);
		way_mu(k);
		way_mu(a);
		for(unsigned i = 0; i < 11 - r; i++) { rc <<= 1; if(rc & 0x10000) rc ^= 0x11011; }
	}
	for(unsigned i = 0; i <= r; i++)
	{
		a[0] ^= k[0] ^ rc << 16;
		a[1] ^= k[1];
		a[2] ^= k[2] ^ rc;
		way_theta(a);
		if(i == r) break;
		a[0] = r32(a[0], 22);
		a[2] = r32(a[2], 1);
		uint32_t b[3];
		for(unsigned j = 0; j < 3; j++) b[j] = a[j] ^ (a[(j + 1) % 3] | ~a[(j + 2) % 3]);
		a[0] = r32(b[0], 1);
		a[1] = b[1];
		a[2] = r32(b[2], 22);
		rc <<= 1;
		if(rc & 0x10000) rc ^= 0x11011;
	}
	if(dec) way_mu(a);
	out32(out, 3, 1, a);
}
/* ----------------------------------------------------------------- Noekeon */
static void nk_theta(uint32_t *a, const uint32_t *k)
{
	for(unsigned h = 0; h < 2; h++)
	{
		uint32_t t = a[h] ^ a[h + 2];
		t ^= r32(t, 8) ^ r32(t, 24);
		a[1 - h] ^= t;
		a[3 - h] ^= t;
		for(unsigned i = 0; k && !h && i < 4; i++) a[i] ^= k[i];
	}
}
static void ref_noekeon(int dec, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint32_t k[4], a[4];
	uint8_t rc[64];
	if(!r) r = 16;
	rc[0] = 0x80;
	for(unsigned i = 0; i < r; i++) rc[i + 1] = gf(rc[i], 2, 0x1B);
	kw32(k, 4, 1, key, kl);
	in32(a, 4, 1, in);
	if(dec) nk_theta(k, 0);
	for(unsigned i = 0; i <= r; i++)
	{
		if(!dec) a[0] ^= rc[i];
		nk_theta(a, k);
		if(dec) a[0] ^= rc[r - i];
		if(i == r) break;
		a[1] = r32(a[1], 1); a[2] = r32(a[2], 5); a[3] = r32(a[3], 2);
		a[1] ^= ~a[3] & ~a[2];
		a[0] ^= a[2] & a[1];
		uint32_t t = a[3]; a[3] = a[0]; a[0] = t;
		a[2] ^= a[0] ^ a[1] ^ a[3];
		a[1] ^= ~a[3] & ~a[2];
		a[0] ^= a[2] & a[1];
		a[1] = r32(a[1], 31); a[2] = r32(a[2], 27); a[3] = r32(a[3], 30);
	}
	out32(out, 4, 1, a);
}
/* ------------------------------- 4 bit S-boxes applied to the columns of rows */
static void ref_sbox4(const uint8_t *box, uint32_t *x, uint32_t mask)
{
	/* algebraic normal form of every output bit */
	uint32_t y[4];
	for(unsigned o = 0; o < 4; o++)
	{
		uint8_t f[16];
		for(unsigned i = 0; i < 16; i++) f[i] = box[i] >> o & 1;
		for(unsigned b = 1; b < 16; b <<= 1) for(unsigned i = 0; i < 16; i++) if(i & b) f[i] ^= f[i ^ b];
		y[o] = 0;
		for(unsigned i = 0; i < 16; i++)
		{
			uint32_t m = ~(uint32_t)0;
			if(!f[i]) continue;
			for(unsigned b = 0; b < 4; b++) if(i >> b & 1) m &= x[b];
			y[o] ^= m;
		}
	}
	for(unsigned o = 0; o < 4; o++) x[o] = (y[o] & mask) | (x[o] & ~mask);
}
static void inv16(const uint8_t *box, uint8_t *inv) { for(unsigned i = 0; i < 16; i++) inv[box[i]] = (uint8_t)i; }
/* --------------------------------------------------------------- RECTANGLE */
static void ref_rectangle(int dec, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	static const uint8_t S[16] = {6, 5, 12, 10, 1, 14, 7, 9, 11, 0, 3, 13, 8, 15, 4, 2};
	static const uint8_t rot[4] = {0, 1, 12, 13};
	uint32_t k[5], a[4], rk[26][4];
	uint8_t kb[16], I[16], rc = 1;
	if(!r) r = 25;
	inv16(S, I);
	kb8(kb, 16, key, kl);
	for(unsigned i = 0; i < 5; i++) k[i] = kl > 10 ? (i < 4 ? (uint32_t)rd(kb + 4 * i, 4, 1) : 0) : (uint32_t)rd(kb + 2 * i, 2, 1);
	for(unsigned i = 0; i <= r; i++)
	{
		for(unsigned j = 0; j < 4; j++) rk[i][j] = k[j] & 0xFFFF;
		ref_sbox4(S, k, kl > 10 ? 0xFF : 0xF);
		uint32_t t = k[0];
		if(kl > 10)
		{
			k[0] = r32(k[0], 8) ^ k[1];
			k[1] = k[2];
			k[2] = r32(k[2], 16) ^ k[3];
			k[3] = t;
		}
		else
		{
			k[0] = r16((uint16_t)k[0], 8) ^ k[1];
			k[1] = k[2];
			k[2] = k[3];
			k[3] = r16((uint16_t)k[3], 12) ^ k[4];
			k[4] = t;
		}
		k[0] ^= rc;
		rc = (uint8_t)((rc << 1 & 31) | ((rc >> 4 ^ rc >> 2) & 1));
	}
	for(unsigned i = 0; i < 4; i++) a[i] = (uint32_t)rd(in + 2 * i, 2, 1);
	for(unsigned i = 0; i <= r; i++)
	{
		for(unsigned j = 0; j < 4; j++) a[j] ^= rk[dec ? r - i : i][j];
		if(i == r) break;
		if(!dec) ref_sbox4(S, a, 0xFFFF);
		for(unsigned j = 0; j < 4; j++) a[j] = r16((uint16_t)a[j], dec ? 16 - rot[j] : rot[j]);
		if(dec) ref_sbox4(I, a, 0xFFFF);
	}
	for(unsigned i = 0; i < 4; i++) wr(out + 2 * i, 2, 1, a[i]);
}
/* ----------------------------------------------------------------- Serpent */
static const uint8_t SERPENT[8][16] = {
	{3, 8, 15, 1, 10, 6, 5, 11, 14, 13, 4, 2, 7, 0, 9, 12}, {15, 12, 2, 7, 9, 0, 5, 10, 1, 11, 14, 8, 6, 13, 3, 4},
	{8, 6, 7, 9, 3, 12, 10, 15, 13, 1, 14, 4, 0, 11, 5, 2}, {0, 15, 11, 8, 12, 9, 6, 3, 13, 1, 2, 4, 10, 7, 5, 14},
	{1, 15, 8, 3, 12, 0, 11, 6, 2, 5, 4, 10, 9, 14, 7, 13}, {15, 5, 2, 11, 4, 10, 9, 12, 0, 3, 14, 8, 13, 6, 7, 1},
	{7, 2, 12, 5, 8, 4, 6, 11, 14, 9, 1, 15, 13, 3, 10, 0}, {1, 13, 15, 0, 14, 8, 2, 11, 7, 4, 12, 10, 9, 3, 5, 6}};
static void ref_serpent(int dec, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint32_t w[8 + 4 * 65], rk[65][4], x[4];
	uint8_t kb[32], I[16];
	if(!r) r = 32;
	/* short keys: a one bit, then zeros */
	for(unsigned i = 0; i < 32; i++) kb[i] = i < kl ? key[i] : i == kl;
	in32(w, 8, 0, kb);
	for(unsigned i = 0; i < 4 * (r + 1); i++) w[i + 8] = r32(w[i] ^ w[i + 3] ^ w[i + 5] ^ w[i + 7] ^ 0x9E3779B9 ^ i, 11);
	for(unsigned i = 0; i <= r; i++)
	{
		for(unsigned j = 0; j < 4; j++) rk[i][j] = w[8 + 4 * i + j];
		ref_sbox4(SERPENT[(35 - i % 8) % 8], rk[i], ~(uint32_t)0);
	}
	in32(x, 4, 0, in);
	if(!dec) for(unsigned i = 0; i < r; i++)
	{
		for(unsigned j = 0; j < 4; j++) x[j] ^= rk[i][j];
		ref_sbox4(SERPENT[i % 8], x, ~(uint32_t)0);
		if(i < r - 1)
		{
			x[0] = r32(x[0], 13); x[2] = r32(x[2], 3);
			x[1] ^= x[0] ^ x[2]; x[3] ^= x[2] ^ x[0] << 3;
			x[1] = r32(x[1], 1); x[3] = r32(x[3], 7);
			x[0] ^= x[1] ^ x[3]; x[2] ^= x[3] ^ x[1] << 7;
			x[0] = r32(x[0], 5); x[2] = r32(x[2], 22);
		}
		else for(unsigned j = 0; j < 4; j++) x[j] ^= rk[r][j];
	}
	else for(unsigned i = r; i--;)
	{
		if(i == r - 1) for(unsigned j = 0; j < 4; j++) x[j] ^= rk[r][j];
		else
		{
			x[2] = r32(x[2], 10); x[0] = r32(x[0], 27);
			x[2] ^= x[3] ^ x[1] << 7; x[0] ^= x[1] ^ x[3];
			x[3] = r32(x[3], 25); x[1] = r32(x[1], 31);
			x[3] ^= x[2] ^ x[0] << 3; x[1] ^= x[0] ^ x[2];
			x[2] = r32(x[2], 29); x[0] = r32(x[0], 19);
		}
		inv16(SERPENT[i % 8], I);
		ref_sbox4(I, x, ~(uint32_t)0);
		for(unsigned j = 0; j < 4; j++) x[j] ^= rk[i][j];
	}
	out32(out, 4, 0, x);
}
/* ---------------------------------------------------------------- Blowfish */
struct ref_bf { uint32_t p[40], s[4][256]; };
static void bf_crypt(const struct ref_bf *c, int dec, unsigned r, uint32_t *l, uint32_t *h)
{
	for(unsigned i = 0; i < r; i++)
	{
		uint32_t x = *l ^ c->p[dec ? r + 1 - i : i];
		uint32_t f = ((c->s[0][x >> 24] + c->s[1][x >> 16 & 255]) ^ c->s[2][x >> 8 & 255]) + c->s[3][x & 255];
		*l = *h ^ f;
		*h = x;
	}
	uint32_t t = *l;
	*l = *h ^ c->p[dec ? 0 : r + 1];
	*h = t ^ c->p[dec ? 1 : r];
}
static void ref_blowfish(int dec, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	struct ref_bf c;
	uint32_t v[2];
	if(!r) r = 16;
	for(unsigned i = 0; i < r + 2; i++)
	{
		uint8_t b[4];
		for(unsigned j = 0; j < 4; j++) b[j] = key[(4 * i + j) % kl];
		c.p[i] = B_PI[i] ^ (uint32_t)rd(b, 4, 1);
	}
	for(unsigned i = 0; i < 1024; i++) c.s[i / 256][i % 256] = B_PI[r + 2 + i];
	v[0] = v[1] = 0;
	for(unsigned i = 0; i < r + 2; i += 2)
	{
		bf_crypt(&c, 0, r, v, v + 1);
		c.p[i] = v[0];
		if(i + 1 < r + 2) c.p[i + 1] = v[1];
	}
	for(unsigned i = 0; i < 1024; i += 2)
	{
		bf_crypt(&c, 0, r, v, v + 1);
		c.s[i / 256][i % 256] = v[0];
		c.s[i / 256][i % 256 + 1] = v[1];
	}
	in32(v, 2, 1, in);
	bf_crypt(&c, dec, r, v, v + 1);
	out32(out, 2, 1, v);
}
/* ---------------------------------------------------------- DES, triple DES */
static const uint8_t DES_S[8][64] = {
	{14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8, 4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13},
	{15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5, 0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9},
	{10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1, 13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12},
	{7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9, 10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14},
	{2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6, 4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3},
	{12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8, 9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13},
	{4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6, 1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12},
	{13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2, 7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11}};
static const uint8_t DES_PC1[56] = {57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36, 63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4};
static const uint8_t DES_PC2[48] = {14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2, 41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32};
static const uint8_t DES_P[32] = {16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25};
/* bits are numbered from 1 at the most significant end */
static void des_one(int dec, const uint8_t *key, uint8_t *b)
{
	uint8_t cd[56], x[64], sk[16][48];
	for(unsigned i = 0; i < 56; i++) cd[i] = key[(DES_PC1[i] - 1) / 8] >> (7 - (DES_PC1[i] - 1) % 8) & 1;
	for(unsigned n = 0; n < 16; n++)
	{
		for(unsigned s = 0; s < (n == 0 || n == 1 || n == 8 || n == 15 ? 1u : 2u); s++)
			for(unsigned h = 0; h < 56; h += 28)
			{
				uint8_t t = cd[h];
				for(unsigned i = 0; i < 27; i++) cd[h + i] = cd[h + i + 1];
				cd[h + 27] = t;
			}
		for(unsigned i = 0; i < 48; i++) sk[n][i] = cd[DES_PC2[i] - 1];
	}
	/* initial permutation: output bit 8 r + c is input bit 64 - 8 c - 6 + 2 r ... */
	for(unsigned i = 0; i < 64; i++)
	{
		unsigned row = i / 8, col = i % 8, p = (row < 4 ? 58 + 2 * row : 57 + 2 * (row - 4)) - 8 * col;
		x[i] = b[(p - 1) / 8] >> (7 - (p - 1) % 8) & 1;
	}
	for(unsigned n = 0; n < 16; n++)
	{
		uint8_t f[32];
		const uint8_t *k = sk[dec ? 15 - n : n];
		for(unsigned j = 0; j < 8; j++)
		{
			unsigned e = 0, v;
			for(unsigned i = 0; i < 6; i++) e = e << 1 | (x[32 + (4 * j + i + 31) % 32] ^ k[6 * j + i]);
			v = DES_S[j][(e & 32) | (e & 1) << 4 | (e >> 1 & 15)];
			for(unsigned i = 0; i < 4; i++) f[4 * j + i] = v >> (3 - i) & 1;
		}
		for(unsigned i = 0; i < 32; i++)
		{
			uint8_t t = x[32 + i];
			x[32 + i] = x[i] ^ f[DES_P[i] - 1];
			x[i] = t;
		}
	}
	for(unsigned i = 0; i < 8; i++) b[i] = 0;
	for(unsigned i = 0; i < 64; i++)
	{
		unsigned row = i / 8, col = i % 8, p = (row < 4 ? 58 + 2 * row : 57 + 2 * (row - 4)) - 8 * col;
		b[(p - 1) / 8] |= (uint8_t)(x[(i + 32) % 64] << (7 - (p - 1) % 8));
	}
}
/* one key: DES; two keys: K1 K2 K1; three keys: encrypt, decrypt, encrypt */
static void ref_des(int dec, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint8_t k[24], b[8];
	kb8(k, 24, key, kl);
	if(kl <= 16) for(unsigned i = 0; i < 8; i++) k[16 + i] = k[i];
	for(unsigned i = 0; i < 8; i++) b[i] = in[i];
	if(kl <= 8) des_one(dec, k, b);
	else for(unsigned i = 0; i < 3; i++) des_one(dec ? i != 1 : i == 1, k + 8 * (dec ? 2 - i : i), b);
	for(unsigned i = 0; i < 8; i++) out[i] = b[i];
}
/* ---------------------------------------------------------- SAFER K, SAFER SK */
static int saf_xor(unsigned i) { i &= 3; return i == 0 || i == 3; }
static void ref_safer(int sk, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint8_t k[2][9], kb[16], x[8], y[8], rk[130][8];
	if(!r) r = kl > 8 ? 10 : 6;
	kb8(kb, 16, key, kl);
	k[0][8] = k[1][8] = 0;
	for(unsigned i = 0; i < 8; i++)
	{
		k[0][8] ^= k[0][i] = r8(kb[i], 5);
		k[1][8] ^= k[1][i] = rk[0][i] = kb[kl > 8 ? 8 + i : i];
	}
	/* subkey i + 1 (i from 1): odd ones from the first, even ones from the second half */
	for(unsigned i = 1; i <= 2 * r; i++)
	{
		unsigned h = i & 1 ? 0 : 1;
		if(i & 1) for(unsigned j = 0; j < 9; j++) { k[0][j] = r8(k[0][j], 6); k[1][j] = r8(k[1][j], 6); }
		for(unsigned j = 0; j < 8; j++) rk[i][j] = k[h][sk ? (i + j) % 9 : j] + B_EXP[B_EXP[(9 * (i + 1) + j + 1) & 255]];
	}
	for(unsigned i = 0; i < 8; i++) x[i] = in[i];
	for(unsigned n = 0; n <= r; n++)
	{
		for(unsigned i = 0; i < 8; i++) x[i] = saf_xor(i) ? x[i] ^ rk[2 * n][i] : (uint8_t)(x[i] + rk[2 * n][i]);
		if(n == r) break;
		for(unsigned i = 0; i < 8; i++)
		{
			if(saf_xor(i)) x[i] = B_EXP[x[i]] + rk[2 * n + 1][i];
			else x[i] = B_LOG[x[i]] ^ rk[2 * n + 1][i];
		}
		/* three layers of pseudo Hadamard transforms (2a + b, a + b), with the even / odd shuffle between */
		for(unsigned l = 0; l < 3; l++)
		{
			for(unsigned i = 0; i < 8; i += 2)
			{
				x[i + 1] += x[i];
				x[i] += x[i + 1];
			}
			if(l == 2) break;
			for(unsigned i = 0; i < 4; i++) { y[i] = x[2 * i]; y[i + 4] = x[2 * i + 1]; }
			for(unsigned i = 0; i < 8; i++) x[i] = y[i];
		}
	}
	for(unsigned i = 0; i < 8; i++) out[i] = x[i];
}
/* ----------------------------------------------------------------- SAFER++ */
static void ref_saferpp(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	static const uint8_t sh[16] = {8, 5, 2, 15, 0, 13, 10, 7, 4, 1, 14, 11, 12, 9, 6, 3};
	uint8_t k[2][17], kb[32], x[16], y[16], rk[130][16];
	if(!r) r = kl > 16 ? 10 : 7;
	kb8(kb, 32, key, kl);
	k[0][16] = k[1][16] = 0;
	for(unsigned i = 0; i < 16; i++)
	{
		k[0][16] ^= k[0][i] = r8(kb[kl > 16 ? 16 + i : i], 5);
		k[1][16] ^= k[1][i] = rk[0][i] = kb[i];
	}
	for(unsigned i = 1; i <= 2 * r; i++)
	{
		if(i & 1) for(unsigned j = 0; j < 17; j++) { k[0][j] = r8(k[0][j], 6); k[1][j] = r8(k[1][j], 6); }
		for(unsigned j = 0; j < 16; j++)
		{
			uint8_t b = B_EXP[(17 * (i + 1) + j + 1) & 255];
			if(i < 15) b = B_EXP[b];
			rk[i][j] = k[i & 1 ? 0 : 1][(i + j) % 17] + b;
		}
	}
	for(unsigned i = 0; i < 16; i++) x[i] = in[i];
	for(unsigned n = 0; n <= r; n++)
	{
		for(unsigned i = 0; i < 16; i++) x[i] = saf_xor(i) ? x[i] ^ rk[2 * n][i] : (uint8_t)(x[i] + rk[2 * n][i]);
		if(n == r) break;
		for(unsigned i = 0; i < 16; i++)
		{
			if(saf_xor(i)) x[i] = B_EXP[x[i]] + rk[2 * n + 1][i];
			else x[i] = B_LOG[x[i]] ^ rk[2 * n + 1][i];
		}
		/* twice: shuffle, then a 4-point transform on each group of four */
		for(unsigned l = 0; l < 2; l++)
		{
			for(unsigned i = 0; i < 16; i++) y[i] = x[sh[i]];
			for(unsigned i = 0; i < 16; i += 4)
			{
				uint8_t t = y[i] + y[i + 1] + y[i + 2] + y[i + 3];
				for(unsigned j = 0; j < 3; j++) x[i + j] = y[i + j] + t;
				x[i + 3] = t;
			}
		}
	}
	for(unsigned i = 0; i < 16; i++) out[i] = x[i];
}
/* ---------------------------------------------------------- CAST-128 (CAST5) */
static uint32_t cast_s(unsigned n, uint32_t i) { return B_CAST[256 * (n - 1) + (i & 255)]; }
static uint8_t cast_b(const uint32_t *x, unsigned i) { return (uint8_t)(x[i >> 2] >> (24 - 8 * (i & 3))); }
static uint32_t cast_f(unsigned type, uint32_t km, uint32_t kr, uint32_t d)
{
	uint32_t i = type == 0 ? km + d : type == 1 ? km ^ d : km - d;
	i = v32(i, kr);
	uint32_t a = cast_s(1, i >> 24), b = cast_s(2, i >> 16), c = cast_s(3, i >> 8), e = cast_s(4, i);
	return type == 0 ? ((a ^ b) - c) + e : type == 1 ? ((a - b) + c) ^ e : ((a + b) ^ c) - e;
}
/* RFC 2144: z from x (step 0), x from z (step 1) */
static void cast_mix(uint32_t *x, uint32_t *z, int step)
{
	/* source word, four bytes and the fifth byte of rows 1 to 4 */
	static const uint8_t A[2][4] = {{0, 2, 3, 1}, {2, 0, 1, 3}};
	static const uint8_t I[4][5] = {{13, 15, 12, 14, 8}, {0, 2, 1, 3, 10}, {7, 6, 5, 4, 9}, {10, 9, 11, 8, 11}};
	static const uint8_t J[4][5] = {{5, 7, 4, 6, 0}, {0, 2, 1, 3, 2}, {7, 6, 5, 4, 1}, {10, 9, 11, 8, 3}};
	static const uint8_t fifth[4] = {7, 8, 5, 6};
	uint32_t *s = step ? z : x, *d = step ? x : z;
	for(unsigned w = 0; w < 4; w++)
	{
		const uint8_t *q = step ? J[w] : I[w];
		uint32_t v = s[A[step][w]];
		for(unsigned i = 0; i < 4; i++) v ^= cast_s(5 + i, cast_b(w ? d : s, q[i]));
		d[w] = v ^ cast_s(fifth[w], cast_b(s, q[4]));
	}
}
static void cast_out(const uint32_t *x, unsigned g, uint32_t *k)
{
	static const uint8_t O[4][4][5] = {
		{{8, 9, 7, 6, 2}, {10, 11, 5, 4, 6}, {12, 13, 3, 2, 9}, {14, 15, 1, 0, 12}},
		{{3, 2, 12, 13, 8}, {1, 0, 14, 15, 13}, {7, 6, 8, 9, 3}, {5, 4, 10, 11, 7}},
		{{3, 2, 12, 13, 9}, {1, 0, 14, 15, 12}, {7, 6, 8, 9, 2}, {5, 4, 10, 11, 6}},
		{{8, 9, 7, 6, 3}, {10, 11, 5, 4, 7}, {12, 13, 3, 2, 8}, {14, 15, 1, 0, 13}}};
	for(unsigned w = 0; w < 4; w++)
	{
		k[w] = cast_s(5 + w, cast_b(x, O[g][w][4]));
		for(unsigned i = 0; i < 4; i++) k[w] ^= cast_s(5 + i, cast_b(x, O[g][w][i]));
	}
}
static void ref_cast5(const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint32_t x[4], z[4], k[32], v[2];
	unsigned r = kl <= 10 ? 12 : 16;
	kw32(x, 4, 1, key, kl);
	for(unsigned i = 0; i < 32; i += 4)
	{
		cast_mix(x, z, i / 4 & 1);
		cast_out(i / 4 & 1 ? x : z, i / 4 & 3, k + i);
	}
	in32(v, 2, 1, in);
	for(unsigned i = 0; i < r; i++)
	{
		uint32_t t = v[0] ^ cast_f(i % 3, k[i], k[16 + i], v[1]);
		v[0] = v[1];
		v[1] = t;
	}
	wr(out, 4, 1, v[1]);
	wr(out + 4, 4, 1, v[0]);
}
/* ---------------------------------------------------- Camellia (16, 24, 32 byte keys) */
static uint64_t cam_f(uint64_t x)
{
	uint8_t t[8], y[8];
	for(unsigned i = 0; i < 8; i++)
	{
		uint8_t b = (uint8_t)(x >> (56 - 8 * i));
		static const uint8_t w[8] = {0, 1, 2, 3, 1, 2, 3, 0};
		t[i] = w[i] == 0 ? B_CAM[b] : w[i] == 1 ? r8(B_CAM[b], 1) : w[i] == 2 ? r8(B_CAM[b], 7) : B_CAM[r8(b, 1)];
	}
	y[0] = t[0] ^ t[2] ^ t[3] ^ t[5] ^ t[6] ^ t[7];
	y[1] = t[0] ^ t[1] ^ t[3] ^ t[4] ^ t[6] ^ t[7];
	y[2] = t[0] ^ t[1] ^ t[2] ^ t[4] ^ t[5] ^ t[7];
	y[3] = t[1] ^ t[2] ^ t[3] ^ t[4] ^ t[5] ^ t[6];
	y[4] = t[0] ^ t[1] ^ t[5] ^ t[6] ^ t[7];
	y[5] = t[1] ^ t[2] ^ t[4] ^ t[6] ^ t[7];
	y[6] = t[2] ^ t[3] ^ t[4] ^ t[5] ^ t[7];
	y[7] = t[0] ^ t[3] ^ t[4] ^ t[5] ^ t[6];
	return rd(y, 8, 1);
}
static void ref_camellia(const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	static const uint64_t S[6] = {0xA09E667F3BCC908B, 0xB67AE8584CAA73B2, 0xC6EF372FE94F82BE, 0x54FF53A5F1D36F1C, 0x10E527FADE682D1D, 0xB05688C2B3E6C1FD};
	/* which key (0 L, 1 R, 2 A, 3 B), left rotation: kw1 kw2, round keys and kl in order of use, kw3 kw4 */
	static const uint8_t K128[26][2] = {{0, 0}, {0, 64}, {2, 0}, {2, 64}, {0, 15}, {0, 79}, {2, 15}, {2, 79}, {2, 30}, {2, 94}, {0, 45}, {0, 109}, {2, 45}, {0, 124}, {2, 60}, {2, 124}, {0, 77}, {0, 13}, {0, 94}, {0, 30}, {2, 94}, {2, 30}, {0, 111}, {0, 47}, {2, 111}, {2, 47}};
	static const uint8_t K256[34][2] = {{0, 0}, {0, 64}, {3, 0}, {3, 64}, {1, 15}, {1, 79}, {2, 15}, {2, 79}, {1, 30}, {1, 94}, {3, 30}, {3, 94}, {0, 45}, {0, 109}, {2, 45}, {2, 109}, {0, 60}, {0, 124}, {1, 60}, {1, 124}, {3, 60}, {3, 124}, {0, 77}, {0, 13}, {2, 77}, {2, 13}, {1, 94}, {1, 30}, {2, 94}, {2, 30}, {0, 111}, {0, 47}, {3, 111}, {3, 47}};
	uint8_t kb[32];
	uint64_t q[4][2], d[2], v[2];
	int big = kl > 16;
	kb8(kb, 32, key, kl);
	if(kl == 24) for(unsigned i = 24; i < 32; i++) kb[i] = ~kb[i - 8];
	for(unsigned i = 0; i < 4; i++) q[i / 2][i % 2] = rd(kb + 8 * i, 8, 1);
	for(unsigned i = 0; i < 2; i++) d[i] = q[0][i] ^ q[1][i];
	for(unsigned i = 0; i < 6; i++)
	{
		if(i == 2) for(unsigned j = 0; j < 2; j++) d[j] ^= q[0][j];
		if(i == 4) for(unsigned j = 0; j < 2; j++) { q[2][j] = d[j]; d[j] ^= q[1][j]; }
		d[~i & 1] ^= cam_f(d[i & 1] ^ S[i]);
	}
	for(unsigned j = 0; j < 2; j++) q[3][j] = d[j];
	unsigned n = 0;
#define CK(V) do { unsigned w_ = big ? K256[n][0] : K128[n][0], o_ = (big ? K256[n][1] : K128[n][1]) % 128; n++; \
	uint64_t a_ = q[w_][o_ / 64], b_ = q[w_][1 - o_ / 64]; o_ %= 64; (V) = o_ ? a_ << o_ | b_ >> (64 - o_) : a_; } while(0)
	uint64_t k;
	for(unsigned i = 0; i < 2; i++) { v[i] = rd(in + 8 * i, 8, 1); CK(k); v[i] ^= k; }
	for(unsigned i = 0; i < (big ? 24u : 18u); i++)
	{
		if(i && i % 6 == 0)
		{
			uint32_t h = (uint32_t)(v[0] >> 32), l = (uint32_t)v[0];
			CK(k);
			l ^= r32(h & (uint32_t)(k >> 32), 1);
			h ^= l | (uint32_t)k;
			v[0] = (uint64_t)h << 32 | l;
			h = (uint32_t)(v[1] >> 32); l = (uint32_t)v[1];
			CK(k);
			h ^= l | (uint32_t)k;
			l ^= r32(h & (uint32_t)(k >> 32), 1);
			v[1] = (uint64_t)h << 32 | l;
		}
		CK(k);
		v[~i & 1] ^= cam_f(v[i & 1] ^ k);
	}
	for(unsigned i = 0; i < 2; i++) { CK(k); wr(out + 8 * i, 8, 1, v[1 - i] ^ k); }
#undef CK
}
/* ----------------------------------------------------------------- Twofish */
static uint8_t tf_q(unsigned n, uint8_t x) { return n ? B_Q1[x] : B_Q0[x]; }
/* the byte path of h: position j, k key words, list L */
static uint8_t tf_path(unsigned j, unsigned k, const uint8_t (*L)[4], uint8_t x)
{
	static const uint8_t Q[5][4] = {{1, 0, 1, 0}, {0, 0, 1, 1}, {0, 1, 0, 1}, {1, 1, 0, 0}, {1, 0, 0, 1}};
	for(unsigned i = k; i; i--) x = tf_q(Q[i][j], x) ^ L[i - 1][j];
	return tf_q(Q[0][j], x);
}
static uint32_t tf_mds(unsigned j, uint8_t y)
{
	static const uint8_t M[4][4] = {{0x01, 0xEF, 0x5B, 0x5B}, {0x5B, 0xEF, 0xEF, 0x01}, {0xEF, 0x5B, 0x01, 0xEF}, {0xEF, 0x01, 0xEF, 0x5B}};
	uint32_t r = 0;
	for(unsigned i = 0; i < 4; i++) r |= (uint32_t)gf(y, M[i][j], 0x69) << (8 * i);
	return r;
}
static void ref_twofish(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	static const uint8_t RS[4][8] = {{0x01, 0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E}, {0xA4, 0x56, 0x82, 0xF3, 0x1E, 0xC6, 0x68, 0xE5}, {0x02, 0xA1, 0xFC, 0xC1, 0x47, 0xAE, 0x3D, 0x19}, {0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E, 0x03}};
	unsigned k = (kl + 7) / 8;
	uint8_t kb[32], me[4][4], mo[4][4], s[4][4];
	uint32_t rk[2 * 64 + 8], g[4][256], v[4];
	if(!r) r = 16;
	kb8(kb, 32, key, kl);
	for(unsigned i = 0; i < k; i++)
		for(unsigned j = 0; j < 4; j++)
		{
			me[i][j] = kb[8 * i + j];
			mo[i][j] = kb[8 * i + 4 + j];
			s[k - 1 - i][j] = 0;
			for(unsigned m = 0; m < 8; m++) s[k - 1 - i][j] ^= gf(kb[8 * i + m], RS[j][m], 0x4D);
		}
	for(unsigned i = 0; i < r + 4; i++)
	{
		uint32_t a = 0, b = 0;
		for(unsigned j = 0; j < 4; j++)
		{
			a ^= tf_mds(j, tf_path(j, k, (const uint8_t (*)[4])me, (uint8_t)(2 * i)));
			b ^= tf_mds(j, tf_path(j, k, (const uint8_t (*)[4])mo, (uint8_t)(2 * i + 1)));
		}
		b = r32(b, 8);
		rk[2 * i] = a + b;
		rk[2 * i + 1] = r32(a + (b << 1), 9);
	}
	/* g: four key-dependent tables */
	for(unsigned j = 0; j < 4; j++)
		for(unsigned x = 0; x < 256; x++) g[j][x] = tf_mds(j, tf_path(j, k, (const uint8_t (*)[4])s, (uint8_t)x));
	in32(v, 4, 0, in);
	for(unsigned i = 0; i < 4; i++) v[i] ^= rk[i];
	for(unsigned i = 0; i < r; i++)
	{
		uint32_t t0 = 0, t1 = 0, w = r32(v[1], 8);
		for(unsigned j = 0; j < 4; j++)
		{
			t0 ^= g[j][v[0] >> (8 * j) & 255];
			t1 ^= g[j][w >> (8 * j) & 255];
		}
		uint32_t c = r32(v[2] ^ (t0 + t1 + rk[2 * i + 8]), 31), d = r32(v[3], 1) ^ (t1 + (t0 + t1) + rk[2 * i + 9]);
		v[2] = v[0]; v[3] = v[1]; v[0] = c; v[1] = d;
	}
	for(unsigned i = 0; i < 4; i++) wr(out + 4 * i, 4, 0, v[(i + 2) & 3] ^ rk[4 + i]);
}
/* -------------------------------------------------------------- GOST 28147-89 */
static void ref_gost(const uint8_t box[8][16], unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint32_t k[8], v[2];
	unsigned n = (kl + 3) / 4;
	if(!r) r = 32;
	kw32(k, n, 0, key, kl);
	in32(v, 2, 0, in);
	for(unsigned i = 0; i < r; i++)
	{
		uint32_t t = v[0] + (i < r - n ? k[i % n] : k[r - 1 - i]), s = 0;
		for(unsigned j = 0; j < 8; j++) s |= (uint32_t)box[j][t >> (4 * j) & 15] << (4 * j);
		t = v[0];
		v[0] = v[1] ^ r32(s, 11);
		v[1] = t;
	}
	wr(out, 4, 0, v[1]);
	wr(out + 4, 4, 0, v[0]);
}
/* --------------------------------------------------------------- Skipjack
   bytes in the order of the library (last byte of the standard first) */
static void ref_skipjack(const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint8_t cv[10];
	uint16_t w[4];
	for(unsigned i = 0; i < 10; i++) cv[i] = 0;
	for(unsigned i = 0; i < kl; i++) cv[9 - i] = key[i];
	for(unsigned i = 0; i < 4; i++) w[i] = (uint16_t)rd(in + 6 - 2 * i, 2, 0);
	for(unsigned k = 0; k < 32; k++)
	{
		uint16_t g = k & 8 ? w[0] : w[0];
		uint8_t h = g >> 8, l = (uint8_t)g;
		for(unsigned j = 0; j < 4; j++)
		{
			if(j & 1) l ^= B_SKIP[h ^ cv[(4 * k + j) % 10]];
			else h ^= B_SKIP[l ^ cv[(4 * k + j) % 10]];
		}
		g = (uint16_t)(h << 8 | l);
		uint16_t n0, n1;
		if(k & 8) { n0 = w[3]; n1 = g; uint16_t n2 = w[0] ^ w[1] ^ (k + 1); w[3] = w[2]; w[2] = n2; }
		else { n0 = g ^ w[3] ^ (k + 1); n1 = g; w[3] = w[2]; w[2] = w[1]; }
		w[0] = n0;
		w[1] = n1;
	}
	for(unsigned i = 0; i < 4; i++) wr(out + 6 - 2 * i, 2, 0, w[i]);
}
/* -------------------------------------------------------------------- SM4 */
static uint32_t ref_sm4_t(uint32_t x, int key)
{
	uint32_t s = 0;
	for(unsigned i = 0; i < 32; i += 8) s |= (uint32_t)B_SM4[x >> i & 255] << i;
	return key ? s ^ r32(s, 13) ^ r32(s, 23) : s ^ r32(s, 2) ^ r32(s, 10) ^ r32(s, 18) ^ r32(s, 24);
}
static void ref_sm4(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	static const uint32_t fk[4] = {0xA3B1BAC6, 0x56AA3350, 0x677D9197, 0xB27022DC};
	uint32_t k[4], x[4];
	if(!r) r = 32;
	kw32(k, 4, 1, key, kl);
	for(unsigned i = 0; i < 4; i++) k[i] ^= fk[i];
	in32(x, 4, 1, in);
	for(unsigned i = 0; i < r; i++)
	{
		uint32_t ck = 0;
		for(unsigned j = 0; j < 4; j++) ck = ck << 8 | ((4 * i + j) * 7 & 255);
		uint32_t rk = k[0] ^ ref_sm4_t(k[1] ^ k[2] ^ k[3] ^ ck, 1);
		k[0] = k[1]; k[1] = k[2]; k[2] = k[3]; k[3] = rk;
		uint32_t t = x[0] ^ ref_sm4_t(x[1] ^ x[2] ^ x[3] ^ rk, 0);
		x[0] = x[1]; x[1] = x[2]; x[2] = x[3]; x[3] = t;
	}
	for(unsigned i = 0; i < 4; i++) wr(out + 4 * i, 4, 1, x[3 - i]);
}
/* ------------------------------------------------------------------- SEED */
static uint32_t ref_seed_g(uint32_t x)
{
	static const uint8_t m[4] = {0xFC, 0xF3, 0xCF, 0x3F};
	uint32_t z = 0;
	uint8_t y[4];
	for(unsigned i = 0; i < 4; i++) y[i] = i & 1 ? B_SEED1[x >> (8 * i) & 255] : B_SEED0[x >> (8 * i) & 255];
	for(unsigned o = 0; o < 4; o++)
		for(unsigned i = 0; i < 4; i++) z ^= (uint32_t)(y[i] & m[(i + o) & 3]) << (8 * o);
	return z;
}
static void ref_seed(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint32_t k[4], v[4], kc = 0x9E3779B9;
	if(!r) r = 16;
	kw32(k, 4, 1, key, kl);
	in32(v, 4, 1, in);
	for(unsigned i = 0; i < r; i++)
	{
		uint32_t k0 = ref_seed_g(k[0] + k[2] - kc), k1 = ref_seed_g(k[1] - k[3] + kc);
		kc = r32(kc, 1);
		uint64_t h = i & 1 ? (uint64_t)k[2] << 32 | k[3] : (uint64_t)k[0] << 32 | k[1];
		h = r64(h, i & 1 ? 8 : 56);
		k[i & 1 ? 2 : 0] = (uint32_t)(h >> 32);
		k[i & 1 ? 3 : 1] = (uint32_t)h;
		uint32_t c = v[2] ^ k0, d = v[3] ^ k1 ^ c, a = ref_seed_g(d), b = ref_seed_g(c + a), e = ref_seed_g(a + b);
		uint32_t f0 = b + e, f1 = e;
		uint32_t l0 = v[0], l1 = v[1];
		v[0] = v[2]; v[1] = v[3];
		v[2] = l0 ^ f0; v[3] = l1 ^ f1;
	}
	wr(out, 4, 1, v[2]); wr(out + 4, 4, 1, v[3]); wr(out + 8, 4, 1, v[0]); wr(out + 12, 4, 1, v[1]);
}
/* --------------------------------------------------- Khazad, Anubis (n words) */
static void ref_khazad_rho(uint8_t *s, const uint8_t *k, int last)
{
	static const uint8_t h[8] = {1, 3, 4, 5, 6, 8, 11, 7};
	uint8_t t[8];
	for(unsigned i = 0; i < 8; i++) s[i] = B_MINI[s[i]];
	for(unsigned j = 0; j < 8; j++)
	{
		t[j] = 0;
		if(last) t[j] = s[j];
		else for(unsigned i = 0; i < 8; i++) t[j] ^= gf(s[i], h[i ^ j], 0x1D);
	}
	for(unsigned i = 0; i < 8; i++) s[i] = t[i] ^ k[i];
}
static void ref_khazad(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	uint8_t kb[16], k2[8], k1[8], s[8], t[8], c[8];
	if(!r) r = 8;
	kb8(kb, 16, key, kl);
	for(unsigned i = 0; i < 8; i++) { k2[i] = kb[i]; k1[i] = kb[8 + i]; s[i] = in[i]; }
	for(unsigned i = 0; i <= r; i++)
	{
		for(unsigned j = 0; j < 8; j++) { t[j] = k1[j]; c[j] = B_MINI[8 * i + j] ^ k2[j]; }
		ref_khazad_rho(t, c, 0);
		for(unsigned j = 0; j < 8; j++) { k2[j] = k1[j]; k1[j] = t[j]; }
		if(i) ref_khazad_rho(s, t, i == r);
		else for(unsigned j = 0; j < 8; j++) s[j] ^= t[j];
	}
	for(unsigned j = 0; j < 8; j++) out[j] = s[j];
}
static void ref_anubis(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	static const uint8_t H[4][4] = {{1, 2, 4, 6}, {2, 1, 6, 4}, {4, 6, 1, 2}, {6, 4, 2, 1}};
	unsigned n = (kl + 3) / 4;
	uint8_t k[64][4], t[64][4], s[4][4], rk[4][4], u[4][4];
	if(!r) r = n < 4 ? 12 : 8 + n;
	for(unsigned i = 0; i < 4 * n; i++) k[i / 4][i % 4] = i < kl ? key[i] : 0;
	for(unsigned i = 0; i < 16; i++) s[i / 4][i % 4] = in[i];
	for(unsigned i = 0; i <= r; i++)
	{
		/* round key: Vandermonde extraction of the substituted state, transposed */
		for(unsigned j = 0; j < 4; j++)
		{
			uint8_t v[4];
			for(unsigned o = 0; o < 4; o++) v[o] = 0;
			for(int m = (int)n - 1; m >= 0; m--)
			{
				static const uint8_t pt[4] = {1, 2, 6, 8};
				for(unsigned o = 0; o < 4; o++) v[o] = gf(v[o], pt[o], 0x1D) ^ B_MINI[k[m][j]];
			}
			for(unsigned o = 0; o < 4; o++) rk[j][o] = v[o];
		}
		if(!i) for(unsigned a = 0; a < 16; a++) s[a / 4][a % 4] ^= rk[a / 4][a % 4];
		else
		{
			for(unsigned a = 0; a < 4; a++)
				for(unsigned b = 0; b < 4; b++)
				{
					u[a][b] = 0;
					if(i == r) u[a][b] = B_MINI[s[b][a]];
					else for(unsigned c = 0; c < 4; c++) u[a][b] ^= gf(B_MINI[s[c][a]], H[c][b], 0x1D);
				}
			for(unsigned a = 0; a < 16; a++) s[a / 4][a % 4] = u[a / 4][a % 4] ^ rk[a / 4][a % 4];
		}
		/* key evolution: substitution, cyclic columns, diffusion, constant in the first word */
		for(unsigned a = 0; a < n; a++)
			for(unsigned b = 0; b < 4; b++)
			{
				t[a][b] = 0;
				for(unsigned c = 0; c < 4; c++) t[a][b] ^= gf(B_MINI[k[(a + 4 * n - c) % n][c]], H[c][b], 0x1D);
			}
		for(unsigned b = 0; b < 4; b++) if(i < r) t[0][b] ^= B_MINI[4 * i + b];
		for(unsigned a = 0; a < 4 * n; a++) k[a / 4][a % 4] = t[a / 4][a % 4];
	}
	for(unsigned i = 0; i < 16; i++) out[i] = s[i / 4][i % 4];
}
/* ---------------------------------------------- Rijndael, nb block words (4, 8) */
static void ref_rijndael(unsigned nb, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	unsigned nk = (kl + 3) / 4;
	uint8_t w[4 * 8 * 80], s[32], t[32], rc = 1;
	if(!r) r = 6 + (nk > nb ? nk : nb);
	kb8(w, 4 * nk, key, kl);
	for(unsigned i = nk; i < nb * (r + 1); i++)
	{
		uint8_t q[4];
		for(unsigned j = 0; j < 4; j++) q[j] = w[4 * (i - 1) + j];
		if(i % nk == 0)
		{
			uint8_t x = q[0];
			for(unsigned j = 0; j < 3; j++) q[j] = B_AES[q[j + 1]];
			q[3] = B_AES[x];
			q[0] ^= rc;
			rc = gf(rc, 2, 0x1B);
		}
		else if(nk > 6 && i % nk == 4) for(unsigned j = 0; j < 4; j++) q[j] = B_AES[q[j]];
		for(unsigned j = 0; j < 4; j++) w[4 * i + j] = w[4 * (i - nk) + j] ^ q[j];
	}
	for(unsigned i = 0; i < 4 * nb; i++) s[i] = in[i] ^ w[i];
	for(unsigned k = 1; k <= r; k++)
	{
		for(unsigned c = 0; c < nb; c++)
			for(unsigned y = 0; y < 4; y++) t[4 * c + y] = B_AES[s[4 * ((c + (nb == 8 && y > 1 ? y + 1 : y)) % nb) + y]];
		for(unsigned c = 0; c < nb; c++)
			for(unsigned y = 0; y < 4; y++)
				s[4 * c + y] = w[4 * (nb * k + c) + y] ^ (k == r ? t[4 * c + y] : gf(t[4 * c + y], 2, 0x1B) ^ gf(t[4 * c + (y + 1) % 4], 3, 0x1B) ^ t[4 * c + (y + 2) % 4] ^ t[4 * c + (y + 3) % 4]);
	}
	for(unsigned i = 0; i < 4 * nb; i++) out[i] = s[i];
}
/* ------------------------------------------------------------------- ARIA */
static const uint8_t *aria_box(unsigned k) { return k == 0 ? B_AES : k == 1 ? B_ARIA2 : k == 2 ? B_AESI : B_ARIA2I; }
/* odd: substitution layer 1 in rounds 1, 3, ... ; last: no diffusion */
static void aria_round(uint8_t *s, const uint8_t *k, int odd, int last)
{
	static const uint8_t A[16][7] = {
		{3, 4, 6, 8, 9, 13, 14}, {2, 5, 7, 8, 9, 12, 15}, {1, 4, 6, 10, 11, 12, 15}, {0, 5, 7, 10, 11, 13, 14},
		{0, 2, 5, 8, 11, 14, 15}, {1, 3, 4, 9, 10, 14, 15}, {0, 2, 7, 9, 10, 12, 13}, {1, 3, 6, 8, 11, 12, 13},
		{0, 1, 4, 7, 10, 13, 15}, {0, 1, 5, 6, 11, 12, 14}, {2, 3, 5, 6, 8, 13, 15}, {2, 3, 4, 7, 9, 12, 14},
		{1, 2, 6, 7, 9, 11, 12}, {0, 3, 6, 7, 8, 10, 13}, {0, 3, 4, 5, 9, 11, 14}, {1, 2, 4, 5, 8, 10, 15}};
	uint8_t t[16];
	for(unsigned i = 0; i < 16; i++) t[i] = aria_box((i + (odd ? 0 : 2)) % 4)[s[i] ^ k[i]];
	for(unsigned i = 0; i < 16; i++)
	{
		s[i] = last ? t[i] : 0;
		if(!last) for(unsigned j = 0; j < 7; j++) s[i] ^= t[A[i][j]];
	}
}
static void ref_aria(unsigned r, const uint8_t *key, unsigned kl, const uint8_t *in, uint8_t *out)
{
	static const uint8_t C[3][16] = {
		{0x51, 0x7c, 0xc1, 0xb7, 0x27, 0x22, 0x0a, 0x94, 0xfe, 0x13, 0xab, 0xe8, 0xfa, 0x9a, 0x6e, 0xe0},
		{0x6d, 0xb1, 0x4a, 0xcc, 0x9e, 0x21, 0xc8, 0x20, 0xff, 0x28, 0xb1, 0xd5, 0xef, 0x5d, 0xe2, 0xb0},
		{0xdb, 0x92, 0x37, 0x1d, 0x21, 0x26, 0xe9, 0x70, 0x03, 0x24, 0x97, 0x75, 0x04, 0xe8, 0xc9, 0x0e}};
	unsigned nw = (kl + 3) / 4, q = kl > 24 ? 2 : kl > 16 ? 1 : 0;
	uint8_t kb[32], w[4][16], s[16], k[16];
	if(!r) { r = 8 + nw; r += r & 1; if(r < 12) r = 12; }
	kb8(kb, 32, key, kl);
	for(unsigned i = 0; i < 16; i++) w[0][i] = s[i] = kb[i];
	for(unsigned j = 1; j < 4; j++)
	{
		for(unsigned i = 0; i < 16; i++) s[i] = w[j - 1][i];
		aria_round(s, C[(q + j - 1) % 3], j & 1, 0);
		for(unsigned i = 0; i < 16; i++) w[j][i] = s[i] ^ (j == 1 ? kb[16 + i] : w[j - 2][i]);
	}
	for(unsigned i = 0; i < 16; i++) s[i] = in[i];
	for(unsigned n = 0; n <= r; n++)
	{
		/* right rotations by 19, 31, 67, 97, 109 bits */
		static const uint8_t rot[5] = {19, 31, 67, 97, 109};
		unsigned o = rot[n / 4 % 5];
		for(unsigned i = 0; i < 16; i++)
		{
			const uint8_t *b = w[(n + 1) % 4];
			unsigned p = 128 + 8 * i - o;
			k[i] = w[n % 4][i] ^ (uint8_t)(b[p / 8 % 16] << (p % 8) | b[(p / 8 + 1) % 16] >> (8 - p % 8));
		}
		if(n < r) aria_round(s, k, ~n & 1, n == r - 1);
		else for(unsigned i = 0; i < 16; i++) out[i] = s[i] ^ k[i];
	}
}
/* ------------------------------------------------------------------ dispatch
   1: has a reference (decryption only for the ciphers whose decryption is not
   proved to invert encryption by itself) */
enum { RB_TEA, RB_XTEA, RB_RC5, RB_RC6, RB_RC2, RB_SPECK32, RB_SPECK64, RB_SPECK128, RB_SIMON32, RB_SIMON64, RB_SIMON128,
	RB_LEA, RB_SHACAL2, RB_CRAX, RB_TRAXM, RB_TRAXL, RB_TF256, RB_TF512, RB_TF1024, RB_SKIPJACK, RB_SM4, RB_SEED, RB_KHAZAD,
	RB_ANUBIS, RB_RIJ128, RB_RIJ256, RB_ARIA, RB_IDEA, RB_3WAY, RB_NOEKEON, RB_RECTANGLE, RB_SERPENT, RB_BLOWFISH, RB_DES,
	RB_SAFER, RB_SAFERSK, RB_SAFERPP, RB_CAST5, RB_CAMELLIA, RB_TWOFISH, RB_N };
static int ref_block_dec(unsigned a) { return a == RB_IDEA || a == RB_3WAY || a == RB_NOEKEON || a == RB_RECTANGLE || a == RB_SERPENT || a == RB_BLOWFISH || a == RB_DES; }
static void ref_block(unsigned a, int dec, unsigned r, const uint8_t *key, unsigned kl, const uint8_t *tw, unsigned tl, const uint8_t *in, uint8_t *out)
{
	switch(a)
	{
		case RB_TEA: ref_tea(r, key, kl, in, out); break;
		case RB_XTEA: ref_xtea(r, key, kl, in, out); break;
		case RB_RC5: ref_rc5(r, key, kl, in, out); break;
		case RB_RC6: ref_rc6(r, key, kl, in, out); break;
		case RB_RC2: ref_rc2(r, key, kl, in, out); break;
		case RB_SPECK32: ref_speck(2, r, key, kl, in, out); break;
		case RB_SPECK64: ref_speck(4, r, key, kl, in, out); break;
		case RB_SPECK128: ref_speck(8, r, key, kl, in, out); break;
		case RB_SIMON32: ref_simon(2, r, key, kl, in, out); break;
		case RB_SIMON64: ref_simon(4, r, key, kl, in, out); break;
		case RB_SIMON128: ref_simon(8, r, key, kl, in, out); break;
		case RB_LEA: ref_lea(r, key, kl, in, out); break;
		case RB_SHACAL2: ref_shacal2(r, key, kl, in, out); break;
		case RB_CRAX: ref_crax(r, key, kl, in, out); break;
		case RB_TRAXM: ref_trax(2, r, key, kl, tw, tl, in, out); break;
		case RB_TRAXL: ref_trax(4, r, key, kl, tw, tl, in, out); break;
		case RB_TF256: ref_tf(4, r, key, kl, tw, tl, in, out); break;
		case RB_TF512: ref_tf(8, r, key, kl, tw, tl, in, out); break;
		case RB_TF1024: ref_tf(16, r, key, kl, tw, tl, in, out); break;
		case RB_SKIPJACK: ref_skipjack(key, kl, in, out); break;
		case RB_SM4: ref_sm4(r, key, kl, in, out); break;
		case RB_SEED: ref_seed(r, key, kl, in, out); break;
		case RB_KHAZAD: ref_khazad(r, key, kl, in, out); break;
		case RB_ANUBIS: ref_anubis(r, key, kl, in, out); break;
		case RB_RIJ128: ref_rijndael(4, r, key, kl, in, out); break;
		case RB_RIJ256: ref_rijndael(8, r, key, kl, in, out); break;
		case RB_ARIA: ref_aria(r, key, kl, in, out); break;
		case RB_IDEA: ref_idea(dec, r, key, kl, in, out); break;
		case RB_3WAY: ref_3way(dec, r, key, kl, in, out); break;
		case RB_NOEKEON: ref_noekeon(dec, r, key, kl, in, out); break;
		case RB_RECTANGLE: ref_rectangle(dec, r, key, kl, in, out); break;
		case RB_SERPENT: ref_serpent(dec, r, key, kl, in, out); break;
		case RB_BLOWFISH: ref_blowfish(dec, r, key, kl, in, out); break;
		case RB_DES: ref_des(dec, key, kl, in, out); break;
		case RB_SAFER: ref_safer(0, r, key, kl, in, out); break;
		case RB_SAFERSK: ref_safer(1, r, key, kl, in, out); break;
		case RB_SAFERPP: ref_saferpp(r, key, kl, in, out); break;
		case RB_CAST5: ref_cast5(key, kl, in, out); break;
		case RB_CAMELLIA: ref_camellia(key, kl, in, out); break;
		case RB_TWOFISH: ref_twofish(r, key, kl, in, out); break;
	}
}
#endif
