// Stand-in for <assert.h>: a failed assertion is reported to the harness as an exception, so that a program
// built in assertion mode can be explored past it.  (No include guard, as the standard asks; NDEBUG is respected.)
#undef assert
#ifdef NDEBUG
#define assert(e) ((void)0)
#else
#define assert(e) (static_cast<bool>(e) ? void(0) : mc_assert_failed(#e, __FILE__, __LINE__))
#endif
[[noreturn]] void mc_assert_failed(const char* expr, const char* file, int line);
