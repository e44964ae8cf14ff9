/* analysis overlay: constant-false assertions mark unreachable code, all other
 * assertions are *not* trusted (they vanish). */
#undef assert
#ifndef VERIF_ASSERT_DECL
#define VERIF_ASSERT_DECL
__attribute__((noreturn)) void verif_unreachable(void);
#endif
#define assert(e) \
    __builtin_choose_expr(__builtin_constant_p(e), ((e) ? (void)0 : verif_unreachable()), (void)0)
