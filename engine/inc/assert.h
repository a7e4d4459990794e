#undef assert
#ifdef NDEBUG
#define assert(X) ((void)0)
#else
extern void __assert_fail(const char *, const char *, unsigned int, const char *) __attribute__((noreturn));
#define assert(X) ((X) ? (void)0 : __assert_fail(#X, __FILE__, __LINE__, __func__))
#endif
