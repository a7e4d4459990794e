/* Library block ciphers against independent reference definitions (ref/block.h),
   compared as values for every key, tweak and block. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <kripto/block.h>
#include <kripto/block/gost.h>
#include <kripto/desc/block.h>
#include "ref/block.h"
#include "drv.h"

/* re: 1 through an object recreated from another key, 2 from another round count as well */
static kripto_block *made(const kripto_desc_block *d, unsigned r, const uint8_t *key, unsigned kl, unsigned re, unsigned r0)
{
	kripto_block *s = kripto_block_create(d, re == 2 ? r0 : r, re ? drv_in(kl, "key", OLD, 0) : key, kl);
	if(re) s = kripto_block_recreate(s, r, key, kl);
	return s;
}
void drv_block_ref(const kripto_desc_block *const *dd, unsigned alg, unsigned r, unsigned kl, unsigned tl, unsigned dir, unsigned re, unsigned r0)
{
	const kripto_desc_block *d = *dd;
	unsigned bs = kripto_block_size(d);
	kai_vn(4096);
	uint8_t *key = drv_in(kl, "key", KEY, 0), *in = drv_in(bs, "input block", DATA, 0), *tw = drv_in(tl, "tweak", TWEAK, 0);
	uint8_t *x = kai_buf(bs, "output block"), *y = kai_buf(bs, "output block");
	kripto_block *s = made(d, r, key, kl, re, r0);
	if(tl) kripto_block_tweak(s, tw, tl);
	if(dir) kripto_block_decrypt(s, in, x);
	else kripto_block_encrypt(s, in, x);
	kripto_block_destroy(s);
	ref_block(alg, (int)dir, r, key, kl, tw, tl, in, y);
	kai_value(x, y, bs, dir ? "decryption equals the published definition" : "encryption equals the published definition");
}

static const unsigned char BOX[3][8][16] = {
	/* a caller's own boxes: every row another permutation */
	{{1, 0, 3, 2, 5, 4, 7, 6, 9, 8, 11, 10, 13, 12, 15, 14}, {9, 6, 3, 2, 8, 11, 1, 7, 10, 4, 14, 15, 12, 0, 13, 5}, {3, 7, 14, 9, 8, 10, 15, 0, 5, 2, 6, 12, 11, 4, 13, 1}, {14, 4, 6, 2, 11, 3, 13, 8, 12, 15, 5, 10, 0, 7, 1, 9}, {14, 7, 10, 12, 13, 1, 3, 9, 0, 2, 11, 4, 15, 8, 5, 6}, {11, 5, 1, 9, 8, 13, 15, 0, 14, 4, 2, 3, 12, 7, 10, 6}, {3, 10, 13, 12, 1, 2, 0, 11, 7, 5, 9, 4, 8, 15, 14, 6}, {1, 13, 2, 9, 7, 10, 6, 0, 8, 12, 4, 5, 15, 3, 11, 14}},
	/* the boxes of the Central Bank of Russia */
	{{4, 10, 9, 2, 13, 8, 0, 14, 6, 11, 1, 12, 7, 15, 5, 3}, {14, 11, 4, 12, 6, 13, 15, 10, 2, 3, 8, 1, 0, 7, 5, 9}, {5, 8, 1, 13, 10, 3, 4, 2, 14, 15, 12, 7, 6, 0, 9, 11}, {7, 13, 10, 1, 0, 8, 9, 15, 14, 4, 6, 12, 11, 2, 5, 3}, {6, 12, 7, 1, 5, 15, 13, 8, 4, 10, 9, 14, 0, 3, 11, 2}, {4, 11, 10, 0, 7, 2, 1, 13, 3, 6, 8, 5, 9, 12, 15, 14}, {13, 11, 4, 1, 3, 15, 5, 9, 0, 10, 14, 7, 6, 8, 2, 12}, {1, 15, 13, 0, 5, 7, 10, 4, 9, 2, 3, 14, 6, 11, 8, 12}},
	/* GOST R 34.12-2015 */
	{{12, 4, 6, 2, 10, 5, 11, 9, 14, 8, 13, 7, 0, 3, 15, 1}, {6, 8, 2, 3, 9, 10, 5, 12, 1, 14, 4, 7, 11, 13, 0, 15}, {11, 3, 5, 8, 2, 15, 10, 13, 14, 1, 7, 4, 12, 9, 6, 0}, {12, 8, 2, 1, 13, 4, 15, 6, 7, 0, 10, 5, 3, 14, 9, 11}, {7, 15, 5, 10, 8, 1, 6, 13, 0, 9, 3, 14, 11, 4, 2, 12}, {5, 13, 15, 6, 9, 2, 12, 10, 11, 7, 8, 1, 4, 3, 14, 0}, {8, 14, 2, 5, 6, 9, 1, 12, 15, 4, 11, 0, 13, 10, 3, 7}, {1, 7, 14, 13, 0, 5, 8, 3, 4, 15, 10, 6, 9, 12, 11, 2}}};
void drv_gost_ref(unsigned kind, unsigned r, unsigned kl, unsigned re)
{
	kai_vn(4096);
	kripto_desc_block *d = kind == 0 ? kripto_block_gost(BOX[0]) : kind == 1 ? kripto_block_gost_cbr() : kripto_block_gost_r34_12_2015();
	uint8_t *key = drv_in(kl, "key", KEY, 0), *in = drv_in(8, "input block", DATA, 0);
	uint8_t *x = kai_buf(8, "output block"), *y = kai_buf(8, "output block");
	kripto_block *s = made(d, r, key, kl, re, 16);
	kripto_block_encrypt(s, in, x);
	kripto_block_destroy(s);
	free(d);
	ref_gost(BOX[kind], r, key, kl, in, y);
	kai_value(x, y, 8, "encryption equals the published definition");
}
