#include <kripto/pkcs7.h>
#include <kripto/memory.h>
#include <kripto/random.h>
#include "drv.h"

/* padding any message of n bytes in a buffer of max bytes */
void drv_pkcs7_add(unsigned n, unsigned pad, unsigned max)
{
	uint8_t *b = kai_buf(max, "message buffer");
	kai_any(b, n, DATA, 0);
	size_t k = kripto_pkcs7_add(b, n, pad, max);
	size_t want = n + (pad - n % pad);
	if(want > max) { kai_expect(k == 0, "padding must be refused when it does not fit"); return; }
	kai_expect(k == want, "padded length is the next multiple of the block size");
	kai_check_init(b, want, "padded message");
	for(size_t i = n; i < want; i++) kai_expect(b[i] == pad - n % pad, "padding byte value");
	kai_expect(kripto_pkcs7_rem(b, k) == n, "removing the padding gives the original length");
}

/* removing padding from arbitrary bytes never reads outside nor grows */
void drv_pkcs7_rem(unsigned n)
{
	uint8_t *b = kai_buf(n, "padded message");
	kai_any(b, n, DATA, 0);
	size_t k = kripto_pkcs7_rem(b, n);
	kai_expect(k <= n, "length after removing padding is at most the padded length");
}

void drv_memory(unsigned n)
{
	uint8_t *a = drv_in(n, "first", KEY, 0), *b = drv_in(n, "second", TAG, 0);
	int v = kripto_memory_equals(a, b, n);
	kai_int_dep(v, KEY, 0, n, "constant-time comparison");
	kai_int_dep(v, TAG, 0, n, "constant-time comparison");
	kai_expect(kripto_memory_equals(a, a, 0) == 1, "empty ranges are equal");
	uint8_t *w = kai_buf(n, "secret");
	kai_any(w, n, KEY, 0);
	kripto_memory_wipe(w, n);
	for(unsigned i = 0; i < n; i++) kai_expect(w[i] == 0, "wiped byte is zero");
}

/* comparison of any n bytes with a copy that differs by a fixed pattern: equal
   exactly when the pattern is empty, whatever the bytes are */
void drv_memory_eq(unsigned n, unsigned delta)
{
	kai_vn(0);
	uint8_t *a = drv_in(n, "first", KEY, 0), *b = kai_buf(n, "second");
	for(unsigned i = 0; i < n; i++) b[i] = a[i];
	kai_expect(kripto_memory_equals(a, b, n) == 1, "equal bytes compare equal");
	for(unsigned i = 0; i < n; i++)
	{
		b[i] ^= delta;
		kai_expect(kripto_memory_equals(a, b, n) == 0, "bytes that differ in one place compare different");
		kai_expect(kripto_memory_equals(b, a, n) == 0, "bytes that differ in one place compare different");
		unsigned j = (i + 1 + delta % 5) % n;
		if(j != i)
		{
			b[j] ^= delta;
			kai_expect(kripto_memory_equals(a, b, n) == 0, "bytes that differ in two places compare different");
			b[j] ^= delta;
		}
		b[i] ^= delta;
	}
	for(unsigned i = 0; i < n; i++) b[i] ^= delta;
	if(n) kai_expect(kripto_memory_equals(a, b, n) == 0, "bytes that differ everywhere compare different");
}

void drv_random(unsigned n)
{
	kripto_random *s = kripto_random_create();
	if(kai_isnull(s)) { kai_expect(kai_failures() > 0, "random create failed without a failure of the system"); kai_leakcheck(); return; }
	uint8_t *b = kai_buf(n, "random output");
	size_t k = kripto_random_gen(s, b, n);
	if(kai_failures()) kai_expect(k < n, "a short read is reported");
	else { kai_expect(k == n, "full length delivered"); kai_check_init(b, n, "random output"); }
	kripto_random_destroy(s);
	kai_leakcheck();
}
