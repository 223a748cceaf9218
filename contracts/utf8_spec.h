/* Well-formed UTF-8, Unicode table 3-7, as an automaton over bytes. U_OK is initial and accepting. */
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
enum { U_OK, U_1, U_2, U_3, U_E0, U_ED, U_F0, U_F4, U_BAD, U_C0 }; /* U_C0: after C0 or C1, which nothing completes (kept apart because the vector code notices one byte later) */
#define IN(b,l,h) ((b) >= (l) && (b) <= (h))
static inline unsigned char u8_step(unsigned char s, unsigned char b) {
  return s == U_OK ? (b < 0x80 ? U_OK : b == 0xC0 || b == 0xC1 ? U_C0 : IN(b,0xC2,0xDF) ? U_1 : b == 0xE0 ? U_E0 : b == 0xED ? U_ED : IN(b,0xE1,0xEF) ? U_2 : b == 0xF0 ? U_F0 : b == 0xF4 ? U_F4 : IN(b,0xF1,0xF3) ? U_3 : U_BAD)
    : s == U_1 ? (IN(b,0x80,0xBF) ? U_OK : U_BAD)
    : s == U_2 ? (IN(b,0x80,0xBF) ? U_1 : U_BAD)
    : s == U_3 ? (IN(b,0x80,0xBF) ? U_2 : U_BAD)
    : s == U_E0 ? (IN(b,0xA0,0xBF) ? U_1 : U_BAD)
    : s == U_ED ? (IN(b,0x80,0x9F) ? U_1 : U_BAD)
    : s == U_F0 ? (IN(b,0x90,0xBF) ? U_2 : U_BAD)
    : s == U_F4 ? (IN(b,0x80,0x8F) ? U_2 : U_BAD) : U_BAD;
}
#ifndef VP_NATIVE
_Bool nondet_bool(void); size_t nondet_size_t(void);
#endif
