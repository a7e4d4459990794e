#include <kripto/block.h>
#include <kripto/block/gost.h>
#include <stdlib.h>
#include "drv.h"

static kripto_desc_block *gd; /* GOST descriptor, owned by the caller */
static void block_leaks(void) { if(!gd) kai_leakcheck(); }

/* create, use, destroy */
static void block_use(const kripto_desc_block *d, unsigned r, unsigned kl)
{
	unsigned bs = kripto_block_size(d), mt = kripto_block_maxtweak(d);
	if(kl > kripto_block_maxkey(d)) return;
	uint8_t *key = drv_in(kl, "key", KEY, 0);
	uint8_t *in = drv_in(bs, "input block", DATA, 0);
	uint8_t *ct = kai_buf(bs, "output block"), *pt = kai_buf(bs, "output block");

	kripto_block *s = kripto_block_create(d, r, key, kl);
	if(!drv_created(s, "block create failed without an allocation failure", "block create reported success after an allocation failure"))
	{
		block_leaks();
		return;
	}
	if(mt) kripto_block_tweak(s, drv_in(mt, "tweak", TWEAK, 0), mt);

	kai_ro(s);
	kai_inplace(in, ct, bs);
	kripto_block_encrypt(s, in, ct);
	kai_inplace_end();
	kai_check_init(ct, bs, "block encrypt");
	if(!r)
	{
		kai_check_dep(ct, bs, DATA, 0, bs, 1, "block encrypt");
		kai_check_dep(ct, bs, KEY, 0, kl, 1, "block encrypt");
		if(mt) kai_check_dep(ct, bs, TWEAK, 0, mt, 1, "block encrypt");
	}
	kai_inplace(in, pt, bs);
	kripto_block_decrypt(s, in, pt);
	kai_inplace_end();
	kai_check_init(pt, bs, "block decrypt");
	if(!r)
	{
		kai_check_dep(pt, bs, DATA, 0, bs, 1, "block decrypt");
		kai_check_dep(pt, bs, KEY, 0, kl, 1, "block decrypt");
		if(mt) kai_check_dep(pt, bs, TWEAK, 0, mt, 1, "block decrypt");
	}
	kai_rw(s);
	kripto_block_destroy(s);
	block_leaks();
}

/* recreate with other parameters behaves like a fresh object */
static void block_re(const kripto_desc_block *d, unsigned r1, unsigned kl1, unsigned r2, unsigned kl2)
{
	unsigned bs = kripto_block_size(d), mt = kripto_block_maxtweak(d);
	if(kl1 > kripto_block_maxkey(d) || kl2 > kripto_block_maxkey(d)) return;
	uint8_t *k1 = drv_in(kl1, "key", OLD, 0);
	uint8_t *k2 = drv_in(kl2, "key", KEY, 0);
	uint8_t *in = drv_in(bs, "input block", DATA, 0);
	uint8_t *o1 = kai_buf(bs, "output block"), *o2 = kai_buf(bs, "output block");

	kripto_block *s = kripto_block_create(d, r1, k1, kl1);
	if(!drv_created(s, "block create failed without an allocation failure", "block create reported success after an allocation failure")) { block_leaks(); return; }
	if(mt) kripto_block_tweak(s, drv_in(mt, "tweak", OLDPUB, 256), mt);
	kripto_block_encrypt(s, in, o1);
	s = kripto_block_recreate(s, r2, k2, kl2);
	if(!drv_created(s, "block recreate failed without an allocation failure", "block recreate reported success after an allocation failure"))
	{
		block_leaks();
		return;
	}
	kripto_block *f = kripto_block_create(d, r2, k2, kl2);
	if(!drv_created(f, "block create failed without an allocation failure", "block create reported success after an allocation failure")) { kripto_block_destroy(s); block_leaks(); return; }
	if(mt)
	{
		uint8_t *tw = drv_in(mt, "tweak", TWEAK, 0);
		kripto_block_tweak(s, tw, mt);
		kripto_block_tweak(f, tw, mt);
	}
	kai_same_consts(f, s, "recreated cipher object vs fresh one");
	kripto_block_encrypt(s, in, o1);
	kripto_block_encrypt(f, in, o2);
	kai_check_nodep(o1, bs, OLD, "encrypt after recreate");
	kai_same(o1, o2, bs, "encrypt after recreate");
	kripto_block_decrypt(s, in, o1);
	kripto_block_decrypt(f, in, o2);
	kai_check_nodep(o1, bs, OLD, "decrypt after recreate");
	kai_same(o1, o2, bs, "decrypt after recreate");
	kripto_block_destroy(s);
	kripto_block_destroy(f);
	block_leaks();
}

void drv_block(const kripto_desc_block *const *dd, unsigned r, unsigned kl) { block_use(*dd, r, kl); }
void drv_block_re(const kripto_desc_block *const *dd, unsigned r1, unsigned kl1, unsigned r2, unsigned kl2) { block_re(*dd, r1, kl1, r2, kl2); }

/* GOST: descriptors made at run time; kind 0 caller S-boxes, 1 CBR, 2 R34.12-2015 */
static const unsigned char sb[8][16] = {{4,10,9,2,13,8,0,14,6,11,1,12,7,15,5,3},{14,11,4,12,6,13,15,10,2,3,8,1,0,7,5,9},{5,8,1,13,10,3,4,2,14,15,12,7,6,0,9,11},{7,13,10,1,0,8,9,15,14,4,6,12,11,2,5,3},{6,12,7,1,5,15,13,8,4,10,9,14,0,3,11,2},{4,11,10,0,7,2,1,13,3,6,8,5,9,12,15,14},{13,11,4,1,3,15,5,9,0,10,14,7,6,8,2,12},{1,15,13,0,5,7,10,4,9,2,3,14,6,11,8,12}};
static int gdesc(unsigned kind)
{
	gd = kind == 0 ? kripto_block_gost(sb) : kind == 1 ? kripto_block_gost_cbr() : kripto_block_gost_r34_12_2015();
	if(drv_created(gd, "GOST descriptor creation failed without an allocation failure", "GOST descriptor creation reported success after an allocation failure")) return 1;
	kai_leakcheck();
	return 0;
}
void drv_gost(unsigned kind, unsigned r, unsigned kl)
{
	if(!gdesc(kind)) return;
	kai_ro(gd);
	block_use(gd, r, kl);
	kai_rw(gd);
	free(gd);
	kai_leakcheck();
}
void drv_gost_re(unsigned kind, unsigned r1, unsigned kl1, unsigned r2, unsigned kl2)
{
	if(!gdesc(kind)) return;
	kai_ro(gd);
	block_re(gd, r1, kl1, r2, kl2);
	kai_rw(gd);
	free(gd);
	kai_leakcheck();
}

/* decryption inverts encryption and encryption inverts decryption, for every
   key, tweak and block; re: through an object recreated from another key */
static void inverse(const kripto_desc_block *d, unsigned r, unsigned kl, unsigned re)
{
	unsigned bs = kripto_block_size(d), mt = kripto_block_maxtweak(d);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *k1 = drv_in(kl, "key", OLD, 0), *in = drv_in(bs, "input block", DATA, 0);
	uint8_t *x = kai_buf(bs, "output block"), *y = kai_buf(bs, "output block");
	kripto_block *s = kripto_block_create(d, r, re ? k1 : key, kl);
	if(re) s = kripto_block_recreate(s, r, key, kl);
	if(mt) kripto_block_tweak(s, drv_in(mt, "tweak", TWEAK, 0), mt);
	kripto_block_encrypt(s, in, x);
	kripto_block_decrypt(s, x, y);
	kai_value(y, in, bs, "decryption inverts encryption");
	kripto_block_decrypt(s, in, x);
	kripto_block_encrypt(s, x, y);
	kai_value(y, in, bs, "encryption inverts decryption");
	kripto_block_destroy(s);
}
void drv_inverse(const kripto_desc_block *const *dd, unsigned r, unsigned kl, unsigned re, unsigned cap) { kai_vn(cap); inverse(*dd, r, kl, re); }
void drv_gost_inverse(unsigned kind, unsigned r, unsigned kl, unsigned re)
{
	kai_vn(4096);
	if(!gdesc(kind)) return;
	inverse(gd, r, kl, re);
	free(gd);
}
