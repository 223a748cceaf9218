/* P06, portable variant of src/utf8.c (no vector instructions): the table automaton against the Unicode automaton. */
#include "utf8_spec.h"
const unsigned char *h_src; size_t h_len, g_pos; unsigned char g_st;
#define ABS(s) ((s) == 0 ? U_OK : (s) == 0x10 ? U_BAD : (s) == 0x20 ? U_1 : (s) == 0x30 ? U_2 : (s) == 0x40 ? U_E0 : (s) == 0x50 ? U_ED : (s) == 0x60 ? U_F0 : (s) == 0x70 ? U_3 : U_F4)
#define VALID(s) ((s) <= 0x80 && (s) % 16 == 0)
#define NORM(s) ((s) == U_C0 ? U_BAD : (s))
#ifdef STEP /* enforced on the real step function, for every state and byte */
uint32_t shiftless_updatestate(uint32_t *state, uint32_t byte)
__CPROVER_requires(__CPROVER_rw_ok(state, sizeof(*state)) && VALID(*state) && byte < 256)
__CPROVER_assigns(*state)
__CPROVER_ensures(VALID(*state) && ABS(*state) == NORM(u8_step(ABS(__CPROVER_old(*state)), byte)) && __CPROVER_return_value == *state)
;
#else       /* the same contract, with the ghost automaton advanced along; the extra byte after the string is a NUL */
uint32_t shiftless_updatestate(uint32_t *state, uint32_t byte)
__CPROVER_requires(__CPROVER_rw_ok(state, sizeof(*state)) && VALID(*state) && byte < 256 && ABS(*state) == NORM(g_st))
__CPROVER_requires(g_pos < h_len ? byte == h_src[g_pos] : g_pos == h_len && byte == 0)
__CPROVER_assigns(*state, g_st, g_pos)
__CPROVER_ensures(VALID(*state) && ABS(*state) == NORM(u8_step(ABS(__CPROVER_old(*state)), byte)) && __CPROVER_return_value == *state)
__CPROVER_ensures(g_pos == __CPROVER_old(g_pos) + 1 && g_st == u8_step(__CPROVER_old(g_st), byte))
;
bool utf8_check(const char *src, size_t len)
__CPROVER_requires((const unsigned char *)src == h_src && len == h_len && g_pos == 0 && g_st == U_OK)
__CPROVER_assigns(g_pos, g_st)
/* one step beyond the end with NUL: legal exactly when the string ended between two characters (see lemma) */
__CPROVER_ensures(g_pos == h_len + 1 && __CPROVER_return_value == (g_st == U_OK))
;
#endif
#include "src/utf8.c"
void harness_step(void) { uint32_t s, b; shiftless_updatestate(&s, b); __CPROVER_assert(0, "VP_REACH"); }
void harness(void) {
  h_len = nondet_size_t(); __CPROVER_assume(h_len < (1UL << 32));
  char *s = malloc(h_len); __CPROVER_assume(s != NULL); h_src = (unsigned char *)s; g_pos = 0; g_st = U_OK;
  utf8_check(s, h_len);
  __CPROVER_assert(0, "VP_REACH");
}
void harness_lemma(void) { unsigned char s; __CPROVER_assume(s <= U_C0); __CPROVER_assert((u8_step(s, 0) == U_OK) == (s == U_OK), "a NUL after the string is accepted exactly in the accepting state"); 
  __CPROVER_assert(0, "VP_REACH"); }
