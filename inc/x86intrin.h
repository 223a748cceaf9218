/* Trusted contracts of the x86 SIMD intrinsics used by /repo (Intel SDM), in C over CBMC bit-vectors.
 * Shadows the compiler's <x86intrin.h> when the verifier compiles /repo's sources. They are compared with the
 * processor on every run by native/intrin.c.  VP_GHOST_SIMD: loads and stores through the ghost-address model. */
#ifndef VP_X86INTRIN_H
#define VP_X86INTRIN_H
#include <stdint.h>
#include <stddef.h>
#ifdef VP_NATIVE /* the same text compiled by clang, for the comparison with the processor */
typedef unsigned _BitInt(256) __m256i;
typedef unsigned _BitInt(128) __m128i;
#else
typedef unsigned __CPROVER_bitvector[256] __m256i;
typedef unsigned __CPROVER_bitvector[128] __m128i;
typedef unsigned __CPROVER_bitvector[512] vp_m512;
#endif
#define VP_B(x) ((__m256i)(unsigned char)(x))
#define VP_C(x) ((__m128i)(unsigned char)(x))
#ifdef VP_OWN_LOAD
__m256i _mm256_loadu_si256(const __m256i *p);
__m128i _mm_loadu_si128(const __m128i *p);
#elif defined(VP_GHOST_SIMD)
#include "mem.h"
__m256i nondet_m256(void);
__m128i nondet_m128(void);
#define VP_LOAD(T, W, ND) { __CPROVER_assert(__CPROVER_r_ok(p,W), "SIMD load in bounds"); T v = ND(); \
  if (VP_IN(vp_g0,p,W)) __CPROVER_assume((char)(v >> (8*VP_D(vp_g0,p))) == *vp_g0); \
  if (VP_IN(vp_g1,p,W)) __CPROVER_assume((char)(v >> (8*VP_D(vp_g1,p))) == *vp_g1); return v; }
#define VP_STORE(W) { __CPROVER_assert(__CPROVER_w_ok(p,W), "SIMD store in bounds"); \
  char v0 = vp_g0 ? (VP_IN(vp_g0,p,W) ? (char)(v >> (8*VP_D(vp_g0,p))) : *vp_g0) : 0; \
  char v1 = vp_g1 ? (VP_IN(vp_g1,p,W) ? (char)(v >> (8*VP_D(vp_g1,p))) : *vp_g1) : 0; \
  __CPROVER_havoc_object(p); if (vp_g0) __CPROVER_assume(*vp_g0 == v0); if (vp_g1) __CPROVER_assume(*vp_g1 == v1); }
static inline __m256i _mm256_loadu_si256(const __m256i *p) VP_LOAD(__m256i,32,nondet_m256)
static inline void _mm256_storeu_si256(__m256i *p, __m256i v) VP_STORE(32)
static inline __m128i _mm_loadu_si128(const __m128i *p) VP_LOAD(__m128i,16,nondet_m128)
static inline void _mm_storeu_si128(__m128i *p, __m128i v) VP_STORE(16)
#else
static inline __m256i _mm256_loadu_si256(const __m256i *p) { return *p; }
static inline void _mm256_storeu_si256(__m256i *p, __m256i v) { *p = v; }
static inline __m128i _mm_loadu_si128(const __m128i *p) { return *p; }
static inline void _mm_storeu_si128(__m128i *p, __m128i v) { *p = v; }
#endif
static inline __m256i _mm256_setr_epi8(char a0,char a1,char a2,char a3,char a4,char a5,char a6,char a7,char a8,char a9,char a10,char a11,char a12,char a13,char a14,char a15,char a16,char a17,char a18,char a19,char a20,char a21,char a22,char a23,char a24,char a25,char a26,char a27,char a28,char a29,char a30,char a31) {
  return VP_B(a0)|VP_B(a1)<<8|VP_B(a2)<<16|VP_B(a3)<<24|VP_B(a4)<<32|VP_B(a5)<<40|VP_B(a6)<<48|VP_B(a7)<<56
   |VP_B(a8)<<64|VP_B(a9)<<72|VP_B(a10)<<80|VP_B(a11)<<88|VP_B(a12)<<96|VP_B(a13)<<104|VP_B(a14)<<112|VP_B(a15)<<120
   |VP_B(a16)<<128|VP_B(a17)<<136|VP_B(a18)<<144|VP_B(a19)<<152|VP_B(a20)<<160|VP_B(a21)<<168|VP_B(a22)<<176|VP_B(a23)<<184
   |VP_B(a24)<<192|VP_B(a25)<<200|VP_B(a26)<<208|VP_B(a27)<<216|VP_B(a28)<<224|VP_B(a29)<<232|VP_B(a30)<<240|VP_B(a31)<<248; }
static inline __m128i _mm_setr_epi8(char a0,char a1,char a2,char a3,char a4,char a5,char a6,char a7,char a8,char a9,char a10,char a11,char a12,char a13,char a14,char a15) {
  return VP_C(a0)|VP_C(a1)<<8|VP_C(a2)<<16|VP_C(a3)<<24|VP_C(a4)<<32|VP_C(a5)<<40|VP_C(a6)<<48|VP_C(a7)<<56
   |VP_C(a8)<<64|VP_C(a9)<<72|VP_C(a10)<<80|VP_C(a11)<<88|VP_C(a12)<<96|VP_C(a13)<<104|VP_C(a14)<<112|VP_C(a15)<<120; }
static inline __m256i _mm256_xor_si256(__m256i a, __m256i b) { return a ^ b; }
static inline __m128i _mm_xor_si128(__m128i a, __m128i b) { return a ^ b; }
/* lane-wise operations, written without loops */
#define VP_L16(F) F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(14) F(15)
#define VP_L32(F) VP_L16(F) F(16) F(17) F(18) F(19) F(20) F(21) F(22) F(23) F(24) F(25) F(26) F(27) F(28) F(29) F(30) F(31)
#define VP_U(x,j) ((unsigned char)((x) >> (8*(j))))
#define VP_S(x,j) ((signed char)((x) >> (8*(j))))
#define VP_P256(j,e) r |= VP_B(e) << (8*(j));
#define VP_P128(j,e) r |= VP_C(e) << (8*(j));
#define VP_SUBS(j) (VP_U(a,j) > VP_U(b,j) ? VP_U(a,j) - VP_U(b,j) : 0)
#define VP_ADD(j) ((unsigned char)(VP_U(a,j) + VP_U(b,j)))
#define VP_GT(j) (VP_S(a,j) > VP_S(b,j) ? 0xff : 0)
#define VP_EQ(j) (VP_U(a,j) == VP_U(b,j) ? 0xff : 0)
#define VP_SH(j) ((VP_U(b,j) & 0x80) ? 0 : (unsigned char)(a >> (8*(((j) & 16) + (VP_U(b,j) & 15)))))
#define VP__mm256_subs_epu8_256(j) VP_P256(j, VP_SUBS(j))
static inline __m256i _mm256_subs_epu8(__m256i a, __m256i b) { __m256i r = 0; VP_L32(VP__mm256_subs_epu8_256) return r; }
#define VP__mm256_add_epi8_256(j) VP_P256(j, VP_ADD(j))
static inline __m256i _mm256_add_epi8(__m256i a, __m256i b) { __m256i r = 0; VP_L32(VP__mm256_add_epi8_256) return r; }
#define VP__mm256_cmpgt_epi8_256(j) VP_P256(j, VP_GT(j))
static inline __m256i _mm256_cmpgt_epi8(__m256i a, __m256i b) { __m256i r = 0; VP_L32(VP__mm256_cmpgt_epi8_256) return r; }
#define VP__mm256_cmpeq_epi8_256(j) VP_P256(j, VP_EQ(j))
static inline __m256i _mm256_cmpeq_epi8(__m256i a, __m256i b) { __m256i r = 0; VP_L32(VP__mm256_cmpeq_epi8_256) return r; }
#define VP__mm256_shuffle_epi8_256(j) VP_P256(j, VP_SH(j))
static inline __m256i _mm256_shuffle_epi8(__m256i a, __m256i b) { __m256i r = 0; VP_L32(VP__mm256_shuffle_epi8_256) return r; }
#define VP__mm_subs_epu8_128(j) VP_P128(j, VP_SUBS(j))
static inline __m128i _mm_subs_epu8(__m128i a, __m128i b) { __m128i r = 0; VP_L16(VP__mm_subs_epu8_128) return r; }
#define VP__mm_add_epi8_128(j) VP_P128(j, VP_ADD(j))
static inline __m128i _mm_add_epi8(__m128i a, __m128i b) { __m128i r = 0; VP_L16(VP__mm_add_epi8_128) return r; }
#define VP__mm_cmpgt_epi8_128(j) VP_P128(j, VP_GT(j))
static inline __m128i _mm_cmpgt_epi8(__m128i a, __m128i b) { __m128i r = 0; VP_L16(VP__mm_cmpgt_epi8_128) return r; }
#define VP__mm_cmpeq_epi8_128(j) VP_P128(j, VP_EQ(j))
static inline __m128i _mm_cmpeq_epi8(__m128i a, __m128i b) { __m128i r = 0; VP_L16(VP__mm_cmpeq_epi8_128) return r; }
#define VP__mm_shuffle_epi8_128(j) VP_P128(j, VP_SH(j))
static inline __m128i _mm_shuffle_epi8(__m128i a, __m128i b) { __m128i r = 0; VP_L16(VP__mm_shuffle_epi8_128) return r; }
static inline __m256i _mm256_setzero_si256(void) { return 0; }
static inline __m128i _mm_setzero_si128(void) { return 0; }
static inline __m256i _mm256_or_si256(__m256i a, __m256i b) { return a | b; }
static inline __m256i _mm256_and_si256(__m256i a, __m256i b) { return a & b; }
static inline __m128i _mm_or_si128(__m128i a, __m128i b) { return a | b; }
static inline __m128i _mm_and_si128(__m128i a, __m128i b) { return a & b; }
static inline int _mm256_testz_si256(__m256i a, __m256i b) { return (a & b) == 0; }
static inline int _mm_testz_si128(__m128i a, __m128i b) { return (a & b) == 0; }
#define VP_SET256(j) VP_P256(j, x)
#define VP_SET128(j) VP_P128(j, x)
static inline __m256i _mm256_set1_epi8(char x) { __m256i r = 0; VP_L32(VP_SET256) return r; }
static inline __m128i _mm_set1_epi8(char x) { __m128i r = 0; VP_L16(VP_SET128) return r; }
/* 16-bit lanes shifted right by n: byte j of the result from bytes 2*(j/2), 2*(j/2)+1 */
#define VP_SRL(j) ((j) & 1 ? (unsigned char)(VP_U(a,(j)|1) >> n) : (unsigned char)((VP_U(a,(j)) | VP_U(a,(j)|1) << 8) >> n))
#define VP_SRL256(j) VP_P256(j, VP_SRL(j))
#define VP_SRL128(j) VP_P128(j, VP_SRL(j))
static inline __m256i _mm256_srli_epi16(__m256i a, int n) { __m256i r = 0; if (n < 16) { VP_L32(VP_SRL256) } return r; }
static inline __m128i _mm_srli_epi16(__m128i a, int n) { __m128i r = 0; if (n < 16) { VP_L16(VP_SRL128) } return r; }
static inline __m128i _mm_alignr_epi8(__m128i a, __m128i b, int n) { return (__m128i)((((__m256i)a << 128) | (__m256i)b) >> (8*n)); }
static inline __m256i _mm256_alignr_epi8(__m256i a, __m256i b, int n) {
  __m128i lo = _mm_alignr_epi8((__m128i)a, (__m128i)b, n), hi = _mm_alignr_epi8((__m128i)(a >> 128), (__m128i)(b >> 128), n);
  return (__m256i)hi << 128 | (__m256i)lo; }
#define VP_SEL(k) (((k) & 8) ? (__m128i)0 : ((k) & 3) == 0 ? (__m128i)a : ((k) & 3) == 1 ? (__m128i)(a >> 128) : ((k) & 3) == 2 ? (__m128i)b : (__m128i)(b >> 128))
static inline __m256i _mm256_permute2x128_si256(__m256i a, __m256i b, int n) { return (__m256i)VP_SEL(n >> 4) << 128 | (__m256i)VP_SEL(n); }
#endif
