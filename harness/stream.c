#include <stdlib.h>
#include <kripto/stream.h>
#include <kripto/block.h>
#include <kripto/stream/ctr.h>
#include <kripto/stream/cbc.h>
#include <kripto/stream/cfb.h>
#include <kripto/stream/ofb.h>
#include <kripto/stream/ecb.h>
#include "drv.h"

/* kind: 0 native, 1 CTR, 2 CBC, 3 CFB, 4 OFB, 5 ECB over a block cipher (CBC and ECB have no prng) */
static const kripto_desc_stream *drv_sdesc(unsigned kind, const void *const *dd)
{
	const kripto_desc_stream *d = 0;
	if(kind == 0) return *dd;
	if(kind == 1) d = kripto_stream_ctr(*dd);
	if(kind == 2) d = kripto_stream_cbc(*dd);
	if(kind == 3) d = kripto_stream_cfb(*dd);
	if(kind == 4) d = kripto_stream_ofb(*dd);
	if(kind == 5) d = kripto_stream_ecb(*dd);
	if(!drv_created(d, "stream descriptor creation failed without an allocation failure", "stream descriptor creation reported success after an allocation failure")) return 0;
	return d;
}
static void drv_sfree(unsigned kind, const kripto_desc_stream *d) { if(kind) free((void *)d); }

/* op: 0 encrypt, 1 decrypt, 2 prng */
static void use(kripto_stream *s, unsigned op, const void *in, void *out, size_t n)
{
	if(op == 0) kripto_stream_encrypt(s, in, out, n);
	if(op == 1) kripto_stream_decrypt(s, in, out, n);
	if(op == 2) kripto_stream_prng(s, out, n);
}

void drv_stream(const void *const *dd, unsigned kind, unsigned r, unsigned kl, unsigned il, unsigned n)
{
	const kripto_desc_stream *d = drv_sdesc(kind, dd);
	if(!d) { kai_leakcheck(); return; }
	kai_ro(d);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *in = drv_in(n, "input", DATA, 0);
	uint8_t *out = kai_buf(n, "output");
	for(unsigned op = 0; op < (kind == 2 || kind == 5 ? 2 : 3); op++)
	{
		kripto_stream *s = kripto_stream_create(d, r, key, kl, iv, il);
		if(!drv_created(s, "stream create failed without an allocation failure", "stream create reported success after an allocation failure")) continue;
		if(n % kripto_stream_multof(s) == 0)
		{
			if(op < 2) kai_inplace(in, out, n);
			use(s, op, in, out, n);
			if(op < 2) kai_inplace_end();
			kai_check_init(out, n, op == 0 ? "stream encrypt" : op == 1 ? "stream decrypt" : "stream prng");
			if(!r)
			{
				kai_check_dep(out, n, KEY, 0, kl, 1, op == 0 ? "stream encrypt" : op == 1 ? "stream decrypt" : "stream prng");
				if(op < 2) kai_check_dep(out, n, DATA, 0, n, 0, op == 0 ? "stream encrypt" : "stream decrypt");
				if(il && kind != 5) kai_check_dep(out, n, IV, 0, il, kind == 2 || kind == 3 ? 0 : 1, op == 0 ? "stream encrypt" : op == 1 ? "stream decrypt" : "stream prng");
			}
		}
		kripto_stream_destroy(s);
	}
	kai_rw(d);
	drv_sfree(kind, d);
	kai_leakcheck();
}

/* byte i of the result of a keystream cipher depends on byte i of the input and no other */
void drv_stream_xor(const void *const *dd, unsigned kind, unsigned r, unsigned kl, unsigned il, unsigned n)
{
	kai_vn(0);
	const kripto_desc_stream *d = drv_sdesc(kind, dd);
	if(!d) return;
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *in = drv_in(n, "input", DATA, 0);
	uint8_t *o = kai_buf(n, "output"), *p = kai_buf(n, "output");
	kripto_stream *s = kripto_stream_create(d, r, key, kl, iv, il);
	kripto_stream_encrypt(s, in, o, n);
	kripto_stream_destroy(s);
	s = kripto_stream_create(d, r, key, kl, iv, il);
	kripto_stream_decrypt(s, in, p, n);
	kripto_stream_destroy(s);
	kai_same(o, p, n, "keystream used for encryption vs decryption");
	for(unsigned i = 0; i < n; i++) kai_check_deponly(o + i, 1, DATA, i, 1, "keystream cipher");
	drv_sfree(kind, d);
	kai_leakcheck();
}

/* data handled in pieces */
void drv_stream_split(const void *const *dd, unsigned kind, unsigned r, unsigned kl, unsigned il, unsigned n, unsigned a, unsigned b)
{
	kai_vn(0);
	const kripto_desc_stream *d = drv_sdesc(kind, dd);
	if(!d) return;
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *in = drv_in(n, "input", DATA, 0);
	uint8_t *o = kai_buf(n, "output"), *p = kai_buf(n, "output");
	for(unsigned op = 0; op < (kind == 2 || kind == 5 ? 2 : 3); op++)
	{
		kripto_stream *s = kripto_stream_create(d, r, key, kl, iv, il);
		unsigned m = kripto_stream_multof(s);
		unsigned x = a - a % m, y = b - b % m, z = n - n % m;
		use(s, op, in, o, z);
		kripto_stream_destroy(s);
		s = kripto_stream_create(d, r, key, kl, iv, il);
		use(s, op, in, p, x);
		use(s, op, in + x, p + x, y);
		use(s, op, in + x + y, p + x + y, 0);
		use(s, op, in + x + y, p + x + y, z - x - y);
		kripto_stream_destroy(s);
		kai_same(o, p, z, op == 0 ? "data encrypted in pieces vs at once" : op == 1 ? "data decrypted in pieces vs at once" : "prng output taken in pieces vs at once");
	}
	drv_sfree(kind, d);
	kai_leakcheck();
}

void drv_stream_re(const void *const *dd, unsigned kind, unsigned r1, unsigned kl1, unsigned il1, unsigned n1, unsigned fin, unsigned r, unsigned kl, unsigned il, unsigned n)
{
	kai_vn(0);
	const kripto_desc_stream *d = drv_sdesc(kind, dd);
	if(!d) { kai_leakcheck(); return; }
	uint8_t *k1 = drv_in(kl1, "key", OLD, 0), *iv1 = drv_in(il1, "iv", OLDPUB, 512), *in1 = drv_in(n1, "input", OLD, 1024);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *in = drv_in(n, "input", DATA, 0);
	uint8_t *o = kai_buf(n1 > n ? n1 : n, "output"), *p = kai_buf(n, "output");
	for(unsigned op = 0; op < (kind == 2 || kind == 5 ? 2 : 3); op++)
	{
		kripto_stream *s = kripto_stream_create(d, r1, k1, kl1, iv1, il1);
		if(!drv_created(s, "stream create failed without an allocation failure", "stream create reported success after an allocation failure")) continue;
		unsigned m = kripto_stream_multof(s);
		if(fin > 1) kai_mark(s);
		use(s, op, in1, o, n1 - n1 % m);
		if(fin > 1) kai_age(s);
		s = kripto_stream_recreate(s, r, key, kl, iv, il);
		if(!drv_created(s, "stream recreate failed without an allocation failure", "stream recreate reported success after an allocation failure")) continue;
		kripto_stream *f = kripto_stream_create(d, r, key, kl, iv, il);
		if(!drv_created(f, "stream create failed without an allocation failure", "stream create reported success after an allocation failure")) { kripto_stream_destroy(s); continue; }
		use(s, op, in, o, n - n % m);
		use(f, op, in, p, n - n % m);
		kai_check_nodep(o, n - n % m, OLD, "stream after recreate");
		kai_same(o, p, n - n % m, "stream after recreate");
		kripto_stream_destroy(s);
		kripto_stream_destroy(f);
	}
	drv_sfree(kind, d);
	kai_leakcheck();
}
