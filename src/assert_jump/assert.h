// Stands in for <assert.h>: a failed assertion returns to the explorer instead of ending the process. Like the original it may be
// included several times and obeys NDEBUG at that point.
#undef assert
#ifdef NDEBUG
#define assert(e) ((void)0)
#else
#ifndef VERIF_ASSERT_JUMP
#define VERIF_ASSERT_JUMP
[[noreturn]] void verif_assertion_failed(const char *what);
#endif
#define assert(e) ((e) ? (void)0 : verif_assertion_failed(#e))
#endif
#ifndef static_assert
#ifndef __cplusplus
#define static_assert _Static_assert
#endif
#endif
