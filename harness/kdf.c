#include <stdint.h>
#include <stdlib.h>
#include <kripto/mac.h>
#include <kripto/hash.h>
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
#include <kripto/mac/hmac.h>
#include "drv.h"

/* kind 0: native MAC, 1: HMAC over a hash */
static const kripto_desc_mac *md(unsigned kind, const void *const *dd)
{
	if(!kind) return *dd;
	const kripto_desc_mac *d = kripto_mac_hmac(*dd);
	if(kai_isnull(d)) return 0;
	return d;
}

void drv_pbkdf2(const void *const *dd, unsigned kind, unsigned r, unsigned iter, unsigned pl, unsigned sl, unsigned ol)
{
	const kripto_desc_mac *d = md(kind, dd);
	if(!d) { kai_leakcheck(); return; }
	uint8_t *pass = drv_in(pl, "passphrase", KEY, 0), *salt = drv_in(sl, "salt", SALT, 0), *out = kai_buf(ol, "derived key");
	int e = kripto_pbkdf2(d, r, iter, pass, pl, salt, sl, out, ol);
	if(kai_failures()) kai_expect(e != 0, "pbkdf2 reported success after an allocation failure");
	else
	{
		kai_expect(e == 0, "pbkdf2 failed without an allocation failure");
		kai_check_init(out, ol, "pbkdf2");
		kai_check_dep(out, ol, KEY, 0, pl, 1, "pbkdf2");
		kai_check_dep(out, ol, SALT, 0, sl, 1, "pbkdf2");
	}
	if(kind) free((void *)d);
	kai_leakcheck();
}

void drv_scrypt(const void *const *dd, unsigned kind, unsigned mr, unsigned n, unsigned r, unsigned p, unsigned pl, unsigned sl, unsigned ol)
{
	const kripto_desc_mac *d = md(kind, dd);
	if(!d) { kai_leakcheck(); return; }
	uint8_t *pass = drv_in(pl, "passphrase", KEY, 0), *salt = drv_in(sl, "salt", SALT, 0), *out = kai_buf(ol, "derived key");
	int e = kripto_scrypt(d, mr, n, r, p, pass, pl, salt, sl, out, ol);
	if(kai_failures()) kai_expect(e != 0, "scrypt reported success after an allocation failure");
	else
	{
		kai_expect(e == 0, "scrypt failed without an allocation failure");
		kai_check_init(out, ol, "scrypt");
		kai_check_dep(out, ol, KEY, 0, pl, 1, "scrypt");
		kai_check_dep(out, ol, SALT, 0, sl, 1, "scrypt");
	}
	if(kind) free((void *)d);
	kai_leakcheck();
}
