#include <stdlib.h>
#include <kripto/ae.h>
#include <kripto/stream.h>
#include <kripto/mac.h>
#include <kripto/hash.h>
#include <kripto/block.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
#include <kripto/stream/ctr.h>
#include <kripto/mac/hmac.h>
#include <kripto/mac/omac.h>
#include "drv.h"

/* kind 0: EAX over block *dd; 1: EAX2 over stream *dd and native MAC *ee; 2: EAX2 over CTR(block *dd) and OMAC(block *dd);
   3: EAX2 over stream *dd and HMAC(hash *ee) */
static kripto_desc_mac *dm; static kripto_desc_stream *ds;
static kripto_desc_ae *drv_aedesc(unsigned kind, const void *const *dd, const void *const *ee)
{
	kripto_desc_ae *d = 0;
	dm = 0; ds = 0;
	if(kind == 0) d = kripto_ae_eax(*dd);
	if(kind == 1) d = kripto_ae_eax2(*dd, *ee);
	if(kind == 2) { ds = kripto_stream_ctr(*dd); dm = kripto_mac_omac(*dd); if(kai_isnull(ds) || kai_isnull(dm)) { free(ds); free(dm); return 0; } d = kripto_ae_eax2(ds, dm); }
	if(kind == 3) { dm = kripto_mac_hmac(*ee); if(kai_isnull(dm)) return 0; d = kripto_ae_eax2(*dd, dm); }
	if(!drv_created(d, "AE descriptor creation failed without an allocation failure", "AE descriptor creation reported success after an allocation failure")) { free(ds); free(dm); return 0; }
	return d;
}
static void drv_aefree(kripto_desc_ae *d) { free(d); free(dm); free(ds); dm = 0; ds = 0; }

static void use(kripto_ae *s, unsigned op, const void *in, void *out, size_t n)
{
	if(op == 0) kripto_ae_encrypt(s, in, out, n);
	if(op == 1) kripto_ae_decrypt(s, in, out, n);
}

void drv_ae(const void *const *dd, const void *const *ee, unsigned kind, unsigned r, unsigned kl, unsigned il, unsigned hl, unsigned tl, unsigned n)
{
	kripto_desc_ae *d = drv_aedesc(kind, dd, ee);
	if(!d) { kai_leakcheck(); return; }
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *hdr = drv_in(hl, "header", HDR, 0), *in = drv_in(n, "input", DATA, 0);
	uint8_t *out = kai_buf(n, "output"), *tag = kai_buf(tl, "tag");
	for(unsigned op = 0; op < 2; op++)
	{
		kripto_ae *s = kripto_ae_create(d, r, key, kl, iv, il, tl);
		if(!drv_created(s, "AE create failed without an allocation failure", "AE create reported success after an allocation failure")) continue;
		if(n % kripto_ae_multof(s) == 0)
		{
			kripto_ae_header(s, hdr, hl);
			kai_inplace(in, out, n);
			use(s, op, in, out, n);
			kai_inplace_end();
			kripto_ae_tag(s, tag, tl);
			kai_check_init(out, n, op == 0 ? "AE encrypt" : "AE decrypt");
			kai_check_init(tag, tl, "AE tag");
			if(!r)
			{
				/* EAX2 gives the first part of the key to the MAC, the rest to the stream cipher */
				unsigned mk = kind ? kl / 2 : kl, sk = kind ? mk : 0;
				kai_check_dep(out, n, KEY, sk, kl - sk, 1, "AE output");
				if(il) kai_check_dep(out, n, KEY, 0, kl, 1, "AE output");
				kai_check_dep(out, n, IV, 0, il, 1, "AE output");
				kai_check_dep(tag, tl, KEY, 0, mk, 1, "AE tag");
				if(n && op == 0) kai_check_dep(tag, tl, KEY, 0, kl, 1, "AE tag");
				kai_check_dep(tag, tl, IV, 0, il, 1, "AE tag");
				kai_check_dep(tag, tl, HDR, 0, hl, 1, "AE tag");
				kai_check_dep(tag, tl, DATA, 0, n, 1, "AE tag");
			}
			for(unsigned i = 0; i < n; i++) kai_check_deponly(out + i, 1, DATA, i, 1, "AE output");
		}
		kripto_ae_destroy(s);
	}
	drv_aefree(d);
	kai_leakcheck();
}

/* sender and receiver compute the tag from the same ciphertext: feeding the
   ciphertext to decrypt gives the tag that encrypt gave */
void drv_ae_peer(const void *const *dd, const void *const *ee, unsigned kind, unsigned r, unsigned kl, unsigned il, unsigned hl, unsigned tl, unsigned n)
{
	kai_vn(0);
	kripto_desc_ae *d = drv_aedesc(kind, dd, ee);
	if(!d) { kai_leakcheck(); return; }
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *hdr = drv_in(hl, "header", HDR, 0), *in = drv_in(n, "input", DATA, 0);
	uint8_t *ct = kai_buf(n, "ciphertext"), *pt = kai_buf(n, "plaintext"), *t1 = kai_buf(tl, "tag"), *t2 = kai_buf(tl, "tag"), *t = drv_in(tl, "tag", TAG, 0);
	kripto_ae *s = kripto_ae_create(d, r, key, kl, iv, il, tl);
	kripto_ae_header(s, hdr, hl);
	kripto_ae_encrypt(s, in, ct, n);
	kripto_ae_tag(s, t1, tl);
	kripto_ae_destroy(s);
	kai_ro(ct);
	s = kripto_ae_create(d, r, key, kl, iv, il, tl);
	kripto_ae_header(s, hdr, hl);
	kripto_ae_decrypt(s, ct, pt, n);
	kripto_ae_tag(s, t2, tl);
	kripto_ae_destroy(s);
	kai_same(t1, t2, tl, "tag computed by the sender vs by the receiver");
	s = kripto_ae_create(d, r, key, kl, iv, il, tl);
	kripto_ae_header(s, hdr, hl);
	kripto_ae_decrypt(s, ct, pt, n);
	int v = kripto_ae_verify(s, t, tl);
	kai_int_dep(v, TAG, 0, tl, "AE verify");
	if(!r) { kai_int_dep(v, DATA, 0, n, "AE verify"); kai_int_dep(v, KEY, 0, n ? kl : kind ? kl / 2 : kl, "AE verify"); kai_int_dep(v, HDR, 0, hl, "AE verify"); kai_int_dep(v, IV, 0, il, "AE verify"); }
	kripto_ae_destroy(s);
	/* accepted: the tag computed; rejected: the tag with one changed bit */
	for(unsigned b = 0; b < 4; b++)
	{
		unsigned i = b == 1 ? 0 : b == 2 ? tl - 1 : tl / 2, x = b ? 1 << (5 * b + n + tl) % 8 : 0;
		t1[i] ^= x;
		s = kripto_ae_create(d, r, key, kl, iv, il, tl);
		kripto_ae_header(s, hdr, hl);
		kripto_ae_decrypt(s, ct, pt, n);
		if(x) kai_expect(kripto_ae_verify(s, t1, tl) == 0, "a tag with one changed bit is rejected");
		else kai_expect(kripto_ae_verify(s, t1, tl) != 0, "the right tag is accepted");
		kripto_ae_destroy(s);
		t1[i] ^= x;
	}
	drv_aefree(d);
	kai_leakcheck();
}

void drv_ae_split(const void *const *dd, const void *const *ee, unsigned kind, unsigned r, unsigned kl, unsigned il, unsigned hl, unsigned tl, unsigned n, unsigned a, unsigned b)
{
	kai_vn(0);
	kripto_desc_ae *d = drv_aedesc(kind, dd, ee);
	if(!d) { kai_leakcheck(); return; }
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *hdr = drv_in(hl, "header", HDR, 0), *in = drv_in(n, "input", DATA, 0);
	uint8_t *o = kai_buf(n, "output"), *p = kai_buf(n, "output"), *t1 = kai_buf(tl, "tag"), *t2 = kai_buf(tl, "tag");
	for(unsigned op = 0; op < 2; op++)
	{
		kripto_ae *s = kripto_ae_create(d, r, key, kl, iv, il, tl);
		kripto_ae_header(s, hdr, hl);
		use(s, op, in, o, n);
		kripto_ae_tag(s, t1, tl);
		kripto_ae_destroy(s);
		s = kripto_ae_create(d, r, key, kl, iv, il, tl);
		kripto_ae_header(s, hdr, hl / 2);
		use(s, op, in, p, a);
		kripto_ae_header(s, hdr + hl / 2, hl - hl / 2);
		use(s, op, in + a, p + a, b);
		use(s, op, in + a + b, p + a + b, n - a - b);
		kripto_ae_tag(s, t2, tl);
		kripto_ae_destroy(s);
		kai_same(o, p, n, "AE data handled in pieces vs at once");
		kai_same(t1, t2, tl, "AE tag with data handled in pieces vs at once");
	}
	drv_aefree(d);
	kai_leakcheck();
}

void drv_ae_re(const void *const *dd, const void *const *ee, unsigned kind, unsigned r1, unsigned kl1, unsigned il1, unsigned n1, unsigned tl1, unsigned fin, unsigned r, unsigned kl, unsigned il, unsigned hl, unsigned tl, unsigned n)
{
	kai_vn(0);
	kripto_desc_ae *d = drv_aedesc(kind, dd, ee);
	if(!d) { kai_leakcheck(); return; }
	uint8_t *k1 = drv_in(kl1, "key", OLD, 0), *iv1 = drv_in(il1, "iv", OLDPUB, 512), *in1 = drv_in(n1, "input", OLD, 1024), *h1 = drv_in(n1, "header", OLDPUB, 1536);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *iv = drv_in(il, "iv", IV, 0), *hdr = drv_in(hl, "header", HDR, 0), *in = drv_in(n, "input", DATA, 0);
	uint8_t *o0 = kai_buf(n1, "output"), *t0 = kai_buf(tl1, "tag"), *o = kai_buf(n, "output"), *p = kai_buf(n, "output"), *t1 = kai_buf(tl, "tag"), *t2 = kai_buf(tl, "tag");
	kripto_ae *s = kripto_ae_create(d, r1, k1, kl1, iv1, il1, tl1);
	if(drv_created(s, "AE create failed without an allocation failure", "AE create reported success after an allocation failure"))
	{
		if(fin > 1) kai_mark(s);
		kripto_ae_header(s, h1, n1);
		kripto_ae_encrypt(s, in1, o0, n1);
		if(fin) kripto_ae_tag(s, t0, tl1);
		if(fin > 1) kai_age(s);
		s = kripto_ae_recreate(s, r, key, kl, iv, il, tl);
		if(drv_created(s, "AE recreate failed without an allocation failure", "AE recreate reported success after an allocation failure"))
		{
			kripto_ae *f = kripto_ae_create(d, r, key, kl, iv, il, tl);
			if(drv_created(f, "AE create failed without an allocation failure", "AE create reported success after an allocation failure"))
			{
				kripto_ae_header(s, hdr, hl); kripto_ae_header(f, hdr, hl);
				kripto_ae_encrypt(s, in, o, n); kripto_ae_encrypt(f, in, p, n);
				kripto_ae_tag(s, t1, tl); kripto_ae_tag(f, t2, tl);
				kai_check_nodep(o, n, OLD, "AE after recreate");
				kai_check_nodep(t1, tl, OLD, "AE tag after recreate");
				kai_same(o, p, n, "AE after recreate");
				kai_same(t1, t2, tl, "AE tag after recreate");
				kripto_ae_destroy(f);
			}
			kripto_ae_destroy(s);
		}
	}
	drv_aefree(d);
	kai_leakcheck();
}
