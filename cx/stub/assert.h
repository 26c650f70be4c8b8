#pragma once
_Noreturn void __assert_fail(const char *, const char *, unsigned, const char *);
#undef assert
#ifdef NDEBUG
#define assert(e) ((void)0)
#else
#define assert(e) ((e) ? (void)0 : __assert_fail(#e, __FILE__, __LINE__, __func__))
#endif
