/* ChaCha (RFC 8439; 64 bit counter with an 8 byte nonce), XChaCha, Salsa20,
   XSalsa20 (Bernstein), RC4, from their definitions. */
static void ref_salsa_rounds(uint32_t x[16], unsigned rounds)
{
	/* the quarter round on (x[i], x[i+4], x[i+8], x[i+12]) of column i, starting at the diagonal */
	for(unsigned k = 0; k < rounds; k++)
		for(unsigned q = 0; q < 4; q++)
		{
			unsigned z[4];
			for(unsigned j = 0; j < 4; j++) z[j] = k % 2 ? 4 * q + (q + j) % 4 : q + 4 * ((q + j) % 4);
			x[z[1]] ^= r32(x[z[0]] + x[z[3]], 7);
			x[z[2]] ^= r32(x[z[1]] + x[z[0]], 9);
			x[z[3]] ^= r32(x[z[2]] + x[z[1]], 13);
			x[z[0]] ^= r32(x[z[3]] + x[z[2]], 18);
		}
}
static void ref_chacha_rounds(uint32_t x[16], unsigned rounds)
{
	static const uint8_t rot[4] = {16, 12, 8, 7};
	for(unsigned k = 0; k < rounds; k++)
		for(unsigned q = 0; q < 4; q++)
		{
			unsigned z[4];
			for(unsigned j = 0; j < 4; j++) z[j] = 4 * j + (k % 2 ? (q + j) % 4 : q);
			for(unsigned h = 0; h < 4; h++)
			{
				unsigned a = h % 2 ? z[2] : z[0], b = h % 2 ? z[3] : z[1], d = h % 2 ? z[1] : z[3];
				x[a] += x[b];
				x[d] = r32(x[d] ^ x[a], rot[h]);
			}
		}
}
/* blocks beyond the first ref_blocks stand ref_skip blocks further on */
static uint64_t ref_blocks, ref_skip;
static void ref_stream(unsigned alg, unsigned rounds, const uint8_t *key, unsigned kl, const uint8_t *iv, unsigned il, uint8_t *out, unsigned n)
{
	if(alg == 2)
	{
		uint8_t p[256];
		for(unsigned i = 0; i < 256; i++) p[i] = i;
		for(unsigned i = 0, j = 0; i < 256; i++)
		{
			j = (j + p[i] + key[i % kl]) & 255;
			uint8_t t = p[i]; p[i] = p[j]; p[j] = t;
		}
		for(unsigned o = 0, i = 0, j = 0; o < rounds + n; o++)
		{
			i = (i + 1) & 255;
			j = (j + p[i]) & 255;
			uint8_t t = p[i]; p[i] = p[j]; p[j] = t;
			if(o >= rounds) out[o - rounds] = p[(p[i] + p[j]) & 255];
		}
		return;
	}
	if(!rounds) rounds = 20;
	uint32_t k[8], c[4], x[16], y[16];
	static const char text[2][17] = {"expand 16-byte k", "expand 32-byte k"};
	for(unsigned i = 0; i < 8; i++) k[i] = (uint32_t)rd(key + (kl == 32 ? 4 * i : 4 * (i % 4)), 4, 0);
	for(unsigned i = 0; i < 4; i++) c[i] = (uint32_t)rd((const uint8_t *)text[kl == 32] + 4 * i, 4, 0);
	unsigned half = 0;
	if(il == 24)
	{
		uint32_t v[4];
		for(unsigned i = 0; i < 4; i++) v[i] = (uint32_t)rd(iv + 4 * i, 4, 0);
		if(alg == 0)
		{
			for(unsigned i = 0; i < 4; i++) { x[i] = c[i]; x[4 + i] = k[i]; x[8 + i] = k[4 + i]; x[12 + i] = v[i]; }
			ref_chacha_rounds(x, rounds);
			for(unsigned i = 0; i < 4; i++) { k[i] = x[i]; k[4 + i] = x[12 + i]; }
		}
		else
		{
			for(unsigned i = 0; i < 4; i++) { x[5 * i] = c[i]; x[1 + i] = k[i]; x[6 + i] = v[i]; x[11 + i] = k[4 + i]; }
			ref_salsa_rounds(x, rounds);
			for(unsigned i = 0; i < 4; i++) { k[i] = x[5 * i]; k[4 + i] = x[6 + i]; }
		}
		half = 16;
	}
	for(unsigned o = 0; o < n; o += 64)
	{
		uint64_t ctr = o / 64 < ref_blocks ? o / 64 : o / 64 + ref_skip;
		uint32_t v[4] = {ctr, il == 12 ? 0 : ctr >> 32, 0, 0};
		if(il == 12) for(unsigned i = 0; i < 3; i++) v[1 + i] = (uint32_t)rd(iv + 4 * i, 4, 0);
		else for(unsigned i = 0; i < 2; i++) v[2 + i] = (uint32_t)rd(iv + half + 4 * i, 4, 0);
		if(alg == 0) for(unsigned i = 0; i < 4; i++) { x[i] = c[i]; x[4 + i] = k[i]; x[8 + i] = k[4 + i]; x[12 + i] = v[i]; }
		else for(unsigned i = 0; i < 4; i++) { x[5 * i] = c[i]; x[1 + i] = k[i]; x[6 + (i + 2) % 4] = v[i]; x[11 + i] = k[4 + i]; }
		for(unsigned i = 0; i < 16; i++) y[i] = x[i];
		if(alg == 0) ref_chacha_rounds(y, rounds);
		else ref_salsa_rounds(y, rounds);
		uint8_t b[64];
		for(unsigned i = 0; i < 16; i++) wr(b + 4 * i, 4, 0, x[i] + y[i]);
		for(unsigned i = 0; i < 64 && o + i < n; i++) out[o + i] = b[i];
	}
}
