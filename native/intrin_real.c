/* the processor's instructions */
#include <immintrin.h>
#include <string.h>
void real_op(int op, const unsigned char *x, const unsigned char *y, unsigned char *r) {
  __m256i a, b, c; __m128i p, q, s; memcpy(&a, x, 32); memcpy(&b, y, 32); memcpy(&p, x, 16); memcpy(&q, y, 16); memset(r, 0, 32);
  switch (op) {
  case 0: c = _mm256_subs_epu8(a, b); memcpy(r, &c, 32); return;
  case 1: s = _mm_subs_epu8(p, q); memcpy(r, &s, 16); return;
  case 2: c = _mm256_add_epi8(a, b); memcpy(r, &c, 32); return;
  case 3: s = _mm_add_epi8(p, q); memcpy(r, &s, 16); return;
  case 4: c = _mm256_cmpgt_epi8(a, b); memcpy(r, &c, 32); return;
  case 5: s = _mm_cmpgt_epi8(p, q); memcpy(r, &s, 16); return;
  case 6: c = _mm256_cmpeq_epi8(a, b); memcpy(r, &c, 32); return;
  case 7: s = _mm_cmpeq_epi8(p, q); memcpy(r, &s, 16); return;
  case 8: c = _mm256_shuffle_epi8(a, b); memcpy(r, &c, 32); return;
  case 9: s = _mm_shuffle_epi8(p, q); memcpy(r, &s, 16); return;
  case 10: c = _mm256_or_si256(a, b); memcpy(r, &c, 32); return;
  case 11: s = _mm_or_si128(p, q); memcpy(r, &s, 16); return;
  case 12: c = _mm256_and_si256(a, b); memcpy(r, &c, 32); return;
  case 13: s = _mm_and_si128(p, q); memcpy(r, &s, 16); return;
  case 14: c = _mm256_xor_si256(a, b); memcpy(r, &c, 32); return;
  case 15: s = _mm_xor_si128(p, q); memcpy(r, &s, 16); return;
  case 16: c = _mm256_alignr_epi8(a, b, 1); memcpy(r, &c, 32); return;
  case 17: s = _mm_alignr_epi8(p, q, 1); memcpy(r, &s, 16); return;
  case 18: c = _mm256_alignr_epi8(a, b, 2); memcpy(r, &c, 32); return;
  case 19: s = _mm_alignr_epi8(p, q, 2); memcpy(r, &s, 16); return;
  case 20: c = _mm256_alignr_epi8(a, b, 14); memcpy(r, &c, 32); return;
  case 21: s = _mm_alignr_epi8(p, q, 14); memcpy(r, &s, 16); return;
  case 22: c = _mm256_alignr_epi8(a, b, 15); memcpy(r, &c, 32); return;
  case 23: s = _mm_alignr_epi8(p, q, 15); memcpy(r, &s, 16); return;
  case 24: c = _mm256_srli_epi16(a, 1); memcpy(r, &c, 32); return;
  case 25: s = _mm_srli_epi16(p, 1); memcpy(r, &s, 16); return;
  case 26: c = _mm256_srli_epi16(a, 4); memcpy(r, &c, 32); return;
  case 27: s = _mm_srli_epi16(p, 4); memcpy(r, &s, 16); return;
  case 28: c = _mm256_srli_epi16(a, 7); memcpy(r, &c, 32); return;
  case 29: s = _mm_srli_epi16(p, 7); memcpy(r, &s, 16); return;
  case 30: c = _mm256_srli_epi16(a, 9); memcpy(r, &c, 32); return;
  case 31: s = _mm_srli_epi16(p, 9); memcpy(r, &s, 16); return;
  case 32: c = _mm256_srli_epi16(a, 15); memcpy(r, &c, 32); return;
  case 33: s = _mm_srli_epi16(p, 15); memcpy(r, &s, 16); return;
  case 34: c = _mm256_permute2x128_si256(a, b, 33); memcpy(r, &c, 32); return;
  case 35: c = _mm256_permute2x128_si256(a, b, 32); memcpy(r, &c, 32); return;
  case 36: c = _mm256_permute2x128_si256(a, b, 3); memcpy(r, &c, 32); return;
  case 37: c = _mm256_permute2x128_si256(a, b, 49); memcpy(r, &c, 32); return;
  case 38: c = _mm256_permute2x128_si256(a, b, 131); memcpy(r, &c, 32); return;
  case 39: c = _mm256_permute2x128_si256(a, b, 24); memcpy(r, &c, 32); return;
  case 40: c = _mm256_set1_epi8((char)x[0]); memcpy(r, &c, 32); return;
  case 41: s = _mm_set1_epi8((char)x[0]); memcpy(r, &s, 16); return;
  case 42: c = _mm256_setzero_si256(); memcpy(r, &c, 32); return;
  case 43: s = _mm_setzero_si128(); memcpy(r, &s, 16); return;
  case 44: c = _mm256_setr_epi8((char)x[0], (char)x[7], (char)x[14], (char)x[21], (char)x[28], (char)x[3], (char)x[10], (char)x[17], (char)x[24], (char)x[31], (char)x[6], (char)x[13], (char)x[20], (char)x[27], (char)x[2], (char)x[9], (char)x[16], (char)x[23], (char)x[30], (char)x[5], (char)x[12], (char)x[19], (char)x[26], (char)x[1], (char)x[8], (char)x[15], (char)x[22], (char)x[29], (char)x[4], (char)x[11], (char)x[18], (char)x[25]); memcpy(r, &c, 32); return;
  case 45: s = _mm_setr_epi8((char)x[0], (char)x[7], (char)x[14], (char)x[21], (char)x[28], (char)x[3], (char)x[10], (char)x[17], (char)x[24], (char)x[31], (char)x[6], (char)x[13], (char)x[20], (char)x[27], (char)x[2], (char)x[9]); memcpy(r, &s, 16); return;
  case 46: c = _mm256_loadu_si256((const __m256i *)x); memcpy(r, &c, 32); return;
  case 47: s = _mm_loadu_si128((const __m128i *)x); memcpy(r, &s, 16); return;
  case 48: r[0] = _mm256_testz_si256(a, b) != 0; return;
  case 49: r[0] = _mm_testz_si128(p, q) != 0; return;
  case 50: _mm256_storeu_si256((__m256i *)r, a); return;
  case 51: _mm_storeu_si128((__m128i *)r, p); return;
  }
}
