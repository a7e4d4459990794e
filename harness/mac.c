#include <stdlib.h>
#include <kripto/mac.h>
#include <kripto/hash.h>
#include <kripto/block.h>
#include <kripto/mac/hmac.h>
#include <kripto/mac/omac.h>
#include <kripto/mac/xcbc.h>
#include "drv.h"

/* kind: 0 native descriptor, 1 HMAC over a hash, 2 OMAC over a block cipher, 3 XCBC over a block cipher */
static const kripto_desc_mac *drv_macdesc(unsigned kind, const void *const *dd)
{
	if(kind == 0) return *dd;
	const kripto_desc_mac *d = 0;
	if(kind == 1) d = kripto_mac_hmac(*dd);
	if(kind == 2) d = kripto_mac_omac(*dd);
	if(kind == 3) d = kripto_mac_xcbc(*dd);
	if(!drv_created(d, "MAC descriptor creation failed without an allocation failure", "MAC descriptor creation reported success after an allocation failure")) return 0;
	return d;
}
static void drv_macfree(unsigned kind, const kripto_desc_mac *d) { if(kind) free((void *)d); }

void drv_mac(const void *const *dd, unsigned kind, unsigned r, unsigned kl, unsigned tl, unsigned n)
{
	const kripto_desc_mac *d = drv_macdesc(kind, dd);
	if(!d) { kai_leakcheck(); return; }
	kai_ro(d);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *in = drv_in(n, "message", DATA, 0), *tag = kai_buf(tl, "tag");
	kripto_mac *s = kripto_mac_create(d, r, key, kl, tl);
	if(drv_created(s, "MAC create failed without an allocation failure", "MAC create reported success after an allocation failure"))
	{
		kripto_mac_input(s, in, n);
		kripto_mac_tag(s, tag, tl);
		kai_check_init(tag, tl, "MAC tag");
		if(!r)
		{
			kai_check_dep(tag, tl, DATA, 0, n, 1, "MAC tag");
			kai_check_dep(tag, tl, KEY, 0, kl, 1, "MAC tag");
		}
		kripto_mac_destroy(s);
	}
	kai_rw(d);
	drv_macfree(kind, d);
	kai_leakcheck();
}

/* pieces, one-shot */
void drv_mac_split(const void *const *dd, unsigned kind, unsigned r, unsigned kl, unsigned tl, unsigned n, unsigned a, unsigned b)
{
	kai_vn(0);
	const kripto_desc_mac *d = drv_macdesc(kind, dd);
	if(!d) { kai_leakcheck(); return; }
	uint8_t *key = drv_in(kl, "key", KEY, 0), *in = drv_in(n, "message", DATA, 0);
	uint8_t *t1 = kai_buf(tl, "tag"), *t2 = kai_buf(tl, "tag"), *t3 = kai_buf(tl, "tag");
	kripto_mac *s = kripto_mac_create(d, r, key, kl, tl);
	kripto_mac_input(s, in, n);
	kripto_mac_tag(s, t1, tl);
	kripto_mac_destroy(s);
	s = kripto_mac_create(d, r, key, kl, tl);
	kripto_mac_input(s, in, a);
	kripto_mac_input(s, in + a, b);
	kripto_mac_input(s, in + a + b, 0);
	kripto_mac_input(s, in + a + b, n - a - b);
	kripto_mac_tag(s, t2, tl);
	kripto_mac_destroy(s);
	kai_same(t1, t2, tl, "MAC message fed in pieces vs at once");
	int e = kripto_mac_all(d, r, key, kl, in, n, t3, tl);
	kai_expect(e == 0, "one-shot MAC failed without an allocation failure");
	kai_check_init(t3, tl, "one-shot MAC");
	kai_same(t1, t3, tl, "one-shot MAC vs incremental MAC");
	drv_macfree(kind, d);
	kai_leakcheck();
}

void drv_mac_all(const void *const *dd, unsigned kind, unsigned r, unsigned kl, unsigned tl, unsigned n)
{
	const kripto_desc_mac *d = drv_macdesc(kind, dd);
	if(!d) { kai_leakcheck(); return; }
	uint8_t *key = drv_in(kl, "key", KEY, 0), *in = drv_in(n, "message", DATA, 0), *tag = kai_buf(tl, "tag"), *t2 = kai_buf(tl, "tag");
	kai_vn(0);
	int e = kripto_mac_all(d, r, key, kl, in, n, tag, tl);
	if(kai_failures()) kai_expect(e != 0, "one-shot MAC reported success after an allocation failure");
	else
	{
		kai_expect(e == 0, "one-shot MAC failed without an allocation failure");
		kai_check_init(tag, tl, "one-shot MAC");
		kripto_mac *s = kripto_mac_create(d, r, key, kl, tl);
		if(s)
		{
			kripto_mac_input(s, in, n);
			kripto_mac_tag(s, t2, tl);
			kripto_mac_destroy(s);
			kai_same(t2, tag, tl, "one-shot MAC vs incremental MAC");
		}
	}
	drv_macfree(kind, d);
	kai_leakcheck();
}

/* verification: the answer depends on every byte of the presented tag, of the
   message and of the key, is taken without a data-dependent branch, and is
   "equal" for the tag the same object would produce */
void drv_mac_verify(const void *const *dd, unsigned kind, unsigned r, unsigned kl, unsigned tl, unsigned n)
{
	kai_vn(0);
	const kripto_desc_mac *d = drv_macdesc(kind, dd);
	if(!d) { kai_leakcheck(); return; }
	uint8_t *key = drv_in(kl, "key", KEY, 0), *in = drv_in(n, "message", DATA, 0), *tag = drv_in(tl, "tag", TAG, 0);
	kripto_mac *s = kripto_mac_create(d, r, key, kl, tl);
	if(drv_created(s, "MAC create failed without an allocation failure", "MAC create reported success after an allocation failure"))
	{
		kripto_mac_input(s, in, n);
		int v = kripto_mac_verify(s, tag, tl);
		kai_int_dep(v, TAG, 0, tl, "MAC verify");
		if(!r) { kai_int_dep(v, DATA, 0, n, "MAC verify"); kai_int_dep(v, KEY, 0, kl, "MAC verify"); }
		kripto_mac_destroy(s);
	}
	if(!kai_injecting())
	{
		/* the tag another object computes is accepted; the same tag with one bit changed is not */
		uint8_t *t = kai_buf(tl, "tag");
		s = kripto_mac_create(d, r, key, kl, tl);
		kripto_mac_input(s, in, n);
		kripto_mac_tag(s, t, tl);
		s = kripto_mac_recreate(s, r, key, kl, tl);
		kripto_mac_input(s, in, n);
		kai_expect(kripto_mac_verify(s, t, tl) != 0, "the right tag is accepted");
		kripto_mac_destroy(s);
		for(unsigned b = 0; b < 3; b++)
		{
			unsigned i = b == 0 ? 0 : b == 1 ? tl - 1 : tl / 2;
			t[i] ^= 1 << (5 * b + n + tl) % 8;
			s = kripto_mac_create(d, r, key, kl, tl);
			kripto_mac_input(s, in, n);
			kai_expect(kripto_mac_verify(s, t, tl) == 0, "a tag with one changed bit is rejected");
			kripto_mac_destroy(s);
			t[i] ^= 1 << (5 * b + n + tl) % 8;
		}
	}
	drv_macfree(kind, d);
	kai_leakcheck();
}

void drv_mac_re(const void *const *dd, unsigned kind, unsigned r1, unsigned kl1, unsigned tl1, unsigned n1, unsigned fin, unsigned r, unsigned kl, unsigned tl, unsigned n)
{
	kai_vn(0);
	const kripto_desc_mac *d = drv_macdesc(kind, dd);
	if(!d) { kai_leakcheck(); return; }
	uint8_t *k1 = drv_in(kl1, "key", OLD, 0), *in1 = drv_in(n1, "message", OLD, 1024), *t0 = kai_buf(tl1, "tag");
	uint8_t *key = drv_in(kl, "key", KEY, 0), *in = drv_in(n, "message", DATA, 0), *t1 = kai_buf(tl, "tag"), *t2 = kai_buf(tl, "tag");
	kripto_mac *s = kripto_mac_create(d, r1, k1, kl1, tl1);
	if(drv_created(s, "MAC create failed without an allocation failure", "MAC create reported success after an allocation failure"))
	{
		if(fin > 1) kai_mark(s);
		kripto_mac_input(s, in1, n1);
		if(fin) kripto_mac_tag(s, t0, tl1);
		if(fin > 1) kai_age(s);
		s = kripto_mac_recreate(s, r, key, kl, tl);
		if(drv_created(s, "MAC recreate failed without an allocation failure", "MAC recreate reported success after an allocation failure"))
		{
			kripto_mac *f = kripto_mac_create(d, r, key, kl, tl);
			if(drv_created(f, "MAC create failed without an allocation failure", "MAC create reported success after an allocation failure"))
			{
				kripto_mac_input(s, in, n);
				kripto_mac_input(f, in, n);
				kripto_mac_tag(s, t1, tl);
				kripto_mac_tag(f, t2, tl);
				kai_check_nodep(t1, tl, OLD, "MAC after recreate");
				kai_same(t1, t2, tl, "MAC after recreate");
				kripto_mac_destroy(f);
			}
			kripto_mac_destroy(s);
		}
	}
	drv_macfree(kind, d);
	kai_leakcheck();
}
