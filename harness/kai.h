/* Intrinsics of the abstract interpreter (never compiled to machine code). */
#ifndef KAI_H
#define KAI_H
#include <stddef.h>
#include <stdint.h>
enum { KEY = 1, DATA = 2, IV = 3, HDR = 4, TAG = 5, OLD = 6, SALT = 7, TWEAK = 8, DATA2 = 9, OLDPUB = 11 };
/* fresh, exactly-sized caller buffer (contents uninitialised, byte alignment) */
extern void *kai_buf(size_t n, const char *name);
/* contents become "any value", byte i carrying label (cls, base+i) */
extern void kai_any(void *p, size_t n, int cls, int base);
extern void kai_ro(const void *p);          /* object must not be written */
extern void kai_rw(const void *p);
extern int kai_isnull(const void *p);
extern int kai_failures(void);              /* injected failures so far */
extern int kai_injecting(void);             /* does this run inject a failure */
extern int kai_const(unsigned v, int dflt);
extern void kai_expect(int c, const char *what);
extern void kai_fail(const char *what);
extern void kai_check_init(const void *p, size_t n, const char *what);
extern void kai_check_dep(const void *p, size_t n, int cls, int base, int cnt, int each, const char *what);
extern void kai_int_dep(int v, int cls, int base, int cnt, const char *what);
extern void kai_check_deponly(const void *p, size_t n, int cls, int base, int cnt, const char *what);
extern void kai_check_nodep(const void *p, size_t n, int cls, const char *what);
extern void kai_same(const void *p, const void *q, size_t n, const char *what);
extern void kai_same_consts(const void *fresh, const void *again, const char *what);
extern int kai_find(const void *obj, const void *bytes, size_t n);
/* where the constant `old' (little-endian, width bytes) stands in object p, if in one
   place only, put `now'; returns the number of places */
extern int kai_poke(void *p, uint64_t old, uint64_t now, unsigned width);
extern void kai_inplace(const void *in, const void *out, size_t n);
extern void kai_inplace_end(void);
extern void kai_leakcheck(void);
extern void kai_ctx();
extern void kai_note();
extern void kai_dump(const void *p);
/* kai_mark: remember the objects reachable from p; kai_age: everything changed
   since then (whole integer members and word arrays) becomes any value of class OLD */
extern void kai_mark(const void *p);
extern int kai_age(const void *p);
/* value numbers on for the rest of this job (before the first kai_any) */
extern void kai_vn(int cap);
/* p and q hold the same value for every input */
extern void kai_value(const void *p, const void *q, size_t n, const char *what);
/* out := name(params, data), an uninterpreted function; bij: for given
   parameters a bijection of the data, inverted by kai_ufinv */
extern void kai_uf(const char *name, int bij, const void *params, size_t np, const void *data, size_t nd, void *out, size_t nout);
extern void kai_ufinv(const char *name, const void *params, size_t np, const void *data, size_t nd, void *out, size_t nout);
#endif
