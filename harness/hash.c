#include <kripto/hash.h>
#include "drv.h"

static kripto_hash *mk(const kripto_desc_hash *d, unsigned r, const void *salt, unsigned sl, unsigned ol)
{
	kripto_hash *s = kripto_hash_create(d, r, salt, sl, ol);
	if(!drv_created(s, "hash create failed without an allocation failure", "hash create reported success after an allocation failure")) return 0;
	return s;
}

/* whole life of a hash object; message of n bytes, digest of ol bytes */
void drv_hash(const kripto_desc_hash *const *dd, unsigned r, unsigned sl, unsigned ol, unsigned n)
{
	const kripto_desc_hash *d = *dd;
	uint8_t *salt = drv_in(sl, "salt", SALT, 0), *in = drv_in(n, "message", DATA, 0), *out = kai_buf(ol, "digest");
	kripto_hash *s = mk(d, r, salt, sl, ol);
	if(!s) { kai_leakcheck(); return; }
	kripto_hash_input(s, in, n);
	kripto_hash_output(s, out, ol);
	kai_check_init(out, ol, "hash output");
	if(!r)
	{
		kai_check_dep(out, ol, DATA, 0, n, 1, "hash output");
		kai_check_dep(out, ol, SALT, 0, sl, 1, "hash output");
	}
	kripto_hash_destroy(s);
	kai_leakcheck();
}

/* one-shot interface == incremental interface, any split */
void drv_hash_split(const kripto_desc_hash *const *dd, unsigned r, unsigned sl, unsigned ol, unsigned n, unsigned a, unsigned b)
{
	kai_vn(0);
	const kripto_desc_hash *d = *dd;
	uint8_t *salt = drv_in(sl, "salt", SALT, 0), *in = drv_in(n, "message", DATA, 0);
	uint8_t *o1 = kai_buf(ol, "digest"), *o2 = kai_buf(ol, "digest"), *o3 = kai_buf(ol, "digest");
	kripto_hash *s = mk(d, r, salt, sl, ol);
	if(!s) { kai_leakcheck(); return; }
	kripto_hash_input(s, in, n);
	kripto_hash_output(s, o1, ol);
	kripto_hash_destroy(s);

	s = kripto_hash_create(d, r, salt, sl, ol);
	kripto_hash_input(s, in, a);
	kripto_hash_input(s, in + a, b);
	kripto_hash_input(s, in + a + b, 0);
	kripto_hash_input(s, in + a + b, n - a - b);
	kripto_hash_output(s, o2, ol);
	kripto_hash_destroy(s);
	kai_same(o1, o2, ol, "message fed in pieces vs at once");

	int e = kripto_hash_all(d, r, salt, sl, in, n, o3, ol);
	kai_expect(e == 0, "one-shot hash failed without an allocation failure");
	kai_check_init(o3, ol, "one-shot hash");
	kai_same(o1, o3, ol, "one-shot hash vs incremental hash");
	kai_leakcheck();
}

/* one-shot hash under allocation failures */
void drv_hash_all(const kripto_desc_hash *const *dd, unsigned r, unsigned sl, unsigned ol, unsigned n)
{
	const kripto_desc_hash *d = *dd;
	uint8_t *salt = drv_in(sl, "salt", SALT, 0), *in = drv_in(n, "message", DATA, 0), *out = kai_buf(ol, "digest"), *o2 = kai_buf(ol, "digest");
	kai_vn(0);
	int e = kripto_hash_all(d, r, salt, sl, in, n, out, ol);
	if(kai_failures()) kai_expect(e != 0, "one-shot hash reported success after an allocation failure");
	else
	{
		kai_expect(e == 0, "one-shot hash failed without an allocation failure");
		kai_check_init(out, ol, "one-shot hash");
		kripto_hash *s = kripto_hash_create(d, r, salt, sl, ol);
		if(s)
		{
			kripto_hash_input(s, in, n);
			kripto_hash_output(s, o2, ol);
			kripto_hash_destroy(s);
			kai_same(o2, out, ol, "one-shot hash vs incremental hash");
		}
	}
	kai_leakcheck();
}

/* recreate behaves like create; fin: was the first digest taken */
void drv_hash_re(const kripto_desc_hash *const *dd, unsigned r1, unsigned sl1, unsigned ol1, unsigned n1, unsigned fin, unsigned r, unsigned sl, unsigned ol, unsigned n)
{
	kai_vn(0);
	const kripto_desc_hash *d = *dd;
	uint8_t *salt1 = drv_in(sl1, "salt", OLDPUB, 0), *in1 = drv_in(n1, "message", OLD, 1024);
	uint8_t *salt = drv_in(sl, "salt", SALT, 0), *in = drv_in(n, "message", DATA, 0);
	uint8_t *o0 = kai_buf(ol1, "digest"), *o1 = kai_buf(ol, "digest"), *o2 = kai_buf(ol, "digest");
	kripto_hash *s = kripto_hash_create(d, r1, salt1, sl1, ol1);
	if(!drv_created(s, "hash create failed without an allocation failure", "hash create reported success after an allocation failure")) { kai_leakcheck(); return; }
	if(fin > 1) kai_mark(s);
	kripto_hash_input(s, in1, n1);
	if(fin) kripto_hash_output(s, o0, ol1);
	if(fin > 1) kai_age(s);
	s = kripto_hash_recreate(s, r, salt, sl, ol);
	if(!drv_created(s, "hash recreate failed without an allocation failure", "hash recreate reported success after an allocation failure")) { kai_leakcheck(); return; }
	kripto_hash *f = kripto_hash_create(d, r, salt, sl, ol);
	if(!drv_created(f, "hash create failed without an allocation failure", "hash create reported success after an allocation failure")) { kripto_hash_destroy(s); kai_leakcheck(); return; }
	kripto_hash_input(s, in, n);
	kripto_hash_input(f, in, n);
	kripto_hash_output(s, o1, ol);
	kripto_hash_output(f, o2, ol);
	kai_check_nodep(o1, ol, OLD, "hash after recreate");
	kai_same(o1, o2, ol, "hash after recreate");
	kripto_hash_destroy(s);
	kripto_hash_destroy(f);
	kai_leakcheck();
}

/* output taken in pieces (extendable output) */
void drv_hash_xof(const kripto_desc_hash *const *dd, unsigned r, unsigned ol, unsigned n, unsigned total, unsigned a, unsigned b)
{
	kai_vn(0);
	const kripto_desc_hash *d = *dd;
	uint8_t *in = drv_in(n, "message", DATA, 0);
	uint8_t *o1 = kai_buf(total, "digest"), *o2 = kai_buf(total, "digest");
	kripto_hash *s = kripto_hash_create(d, r, 0, 0, ol);
	if(!drv_created(s, "hash create failed without an allocation failure", "hash create reported success after an allocation failure")) return;
	kripto_hash_input(s, in, n);
	kripto_hash_output(s, o1, total);
	kripto_hash_destroy(s);
	s = kripto_hash_create(d, r, 0, 0, ol);
	if(!drv_created(s, "hash create failed without an allocation failure", "hash create reported success after an allocation failure")) return;
	kripto_hash_input(s, in, n);
	kripto_hash_output(s, o2, a);
	kripto_hash_output(s, o2 + a, b);
	kripto_hash_output(s, o2 + a + b, total - a - b);
	kripto_hash_destroy(s);
	kai_check_init(o1, total, "long hash output");
	kai_check_init(o2, total, "long hash output taken in pieces");
	kai_same(o1, o2, total, "digest taken in pieces vs at once");
	kai_leakcheck();
}
