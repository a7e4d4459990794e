#ifndef DRV_H
#define DRV_H
#include "kai.h"
static inline uint8_t *drv_in(size_t n, const char *name, int cls, int base)
{
	uint8_t *p = kai_buf(n, name);
	kai_any(p, n, cls, base);
	kai_ro(p);
	return p;
}
/* creation either succeeds, or fails cleanly after an injected allocation
   failure; drv_seen: failures already accounted for (state of the analysis, reset per job) */
static int drv_seen;
static inline int drv_created(const void *s, const char *what_fail, const char *what_ok)
{
	int f = kai_failures(), seen = drv_seen;
	drv_seen = f;
	if(kai_isnull(s)) { kai_expect(f > seen, what_fail); return 0; }
	kai_expect(f == seen, what_ok);
	return 1;
}
#endif
