/* P18 replay: the allocation layer on concrete sizes, with refused allocations, garbage in fresh memory and live-block counting. */
#include "vp.h"
#include "alloc.h"
#ifndef RP
#define free(p) vp_free(p) /* WSS_free is a macro in this build */
#endif
#ifdef RP
void *vp_rpcalloc(size_t m, size_t n) { void *p = vp_malloc(m * n); if (p) memset(p, 0, m * n); return p; }
#endif
void vp_free(void *p);
static size_t rd(const uint8_t *p) { return p[0] | p[1] << 8 | (size_t)(p[2] & 3) << 16; }
static int zero(const char *p, size_t a, size_t b, const char *w) { for (size_t i = a; i < b; i++) if (p[i]) return vp_fail("%s: byte %zu of %zu is not zero", w, i, b); return 0; }
static int pat(const char *p, size_t n, uint8_t s, const char *w) { vp_prng r = { s }; for (size_t i = 0; i < n; i++) if (p[i] != (char)vp_byte(&r)) return vp_fail("%s: byte %zu of the kept %zu changed", w, i, n); return 0; }
static void fillp(char *p, size_t n, uint8_t s) { vp_prng r = { s }; for (size_t i = 0; i < n; i++) p[i] = vp_byte(&r); }
/* [op][fault][n:3][m:3][seed][kind] */
static int vp_case(const uint8_t *in, size_t n) {
  if (n < 10) return 0;
  size_t a = rd(in + 2), b = rd(in + 5); uint8_t s = in[8]; int r = 0, ff = in[1] & 1; long live = vp_live; vp_faulted = 0;
  char *p = NULL, *q = NULL;
#define ARM vp_fault_at = ff ? 0 : -1;
#define EXP(c, w) if (!r && !(c)) r = vp_fail(w " (%zu, %zu)%s", a, b, vp_faulted ? " after a refused allocation" : "");
  switch (in[0] % 8) {
    case 0: ARM p = WSS_malloc(a); EXP((p == NULL) == (a == 0 || vp_faulted), "malloc: NULL-ness") if (p) { r = r ? r : zero(p, 0, a, "malloc"); fillp(p, a, s); } WSS_free((void **)&p); EXP(p == NULL, "free does not clear the pointer") WSS_free((void **)&p); break;
    case 1: { size_t m = in[9] % 5 ? a % 1000 : in[9] % 2 ? ((size_t)1 << 33) + a : (size_t)-1 / 4 + a, e = in[9] % 5 ? b % 100 : in[9] % 2 ? ((size_t)1 << 32) : 4 + b % 4;
      ARM p = WSS_calloc(m, e); _Bool ovf = e && m > (size_t)-1 / e;
      EXP(!ovf || !p, "calloc: overflowing size accepted") EXP(p || !m || !e || ovf || vp_faulted || m * e > 1u << 30, "calloc: nothing returned") EXP(!p || m && e, "calloc: block of no bytes")
      if (p && !r) r = zero(p, 0, m * e, "calloc"); WSS_free((void **)&p); break; }
    case 2: q = vp_malloc(a); fillp(q, a, s); { size_t k = a ? b % (a + 1) : 0; ARM p = WSS_copy(in[9] & 1 ? NULL : q, k); EXP((p == NULL) == ((in[9] & 1) || k == 0 || vp_faulted), "copy: NULL-ness") EXP(!p || p != q, "copy returns its source") if (p && !r) r = pat(p, k, s, "copy"); if (!r) r = pat(q, a, s, "source of copy"); } vp_fault_at = -1; WSS_free((void **)&p); vp_free(q); break;
    case 3: p = in[9] % 4 ? WSS_malloc(a) : NULL; { size_t o = p ? a : 0, old = in[9] & 32 ? o / 2 : o; char *p0 = p; if (p) fillp(p, o, s); ARM q = WSS_realloc((void **)&p, old, b);
      EXP((q == NULL) == (b == 0 || vp_faulted), "realloc: NULL-ness") if (q && !r) r = pat(q, old < b ? old : b, s, "realloc"); if (q && !r) r = zero(q, old, b, "grown part"); EXP(q || p == NULL, "realloc: pointer left dangling after a failed or zero-sized resize") (void)p0; if (q) p = q; vp_fault_at = -1; if (p) WSS_free((void **)&p); break; }
    case 4: ARM p = WSS_realloc(NULL, 0, b); EXP((p == NULL) == (b == 0 || vp_faulted), "realloc of nothing: NULL-ness") if (p && !r) r = zero(p, 0, b, "realloc of nothing"); WSS_free((void **)&p); break;
    case 5: p = in[9] % 4 ? WSS_malloc(a) : NULL; { size_t o = p ? a : 0; if (p) fillp(p, o, s); ARM q = WSS_realloc_normal(p, b); EXP((q == NULL) == (b == 0 || vp_faulted), "realloc_normal: NULL-ness") if (q && !r) r = pat(q, o < b ? o : b, s, "realloc_normal"); vp_fault_at = -1; WSS_free_normal(q); break; }
    case 6: p = WSS_malloc(a); WSS_free_normal(p); WSS_free_normal(NULL); break;
    case 7: { /* a block grown step by step keeps everything */ size_t sz = 0; for (int i = 0; i < 6 && !r; i++) { size_t nz = 1 + (in[2 + i] ^ s) * 3; q = WSS_realloc((void **)&p, sz, nz); EXP(q, "growing failed") if (r) break; p = q; if (!r && nz > sz) r = zero(p, sz, nz, "grown part"); for (size_t j = 0; j < (sz < nz ? sz : nz) && !r; j++) if (p[j] != (char)(j * 7 + s)) r = vp_fail("kept part changed at %zu", j); for (size_t j = 0; j < nz; j++) p[j] = (char)(j * 7 + s); sz = nz; } WSS_free((void **)&p); break; }
  }
  vp_fault_at = -1;
  if (!r && vp_live != live) r = vp_fail("%ld blocks leaked or released twice", vp_live - live);
  return r;
}
static size_t vp_gen(uint8_t *o, uint64_t k) {
  for (int i = 0; i < 10; i++) o[i] = vp_rnd();
  o[1] = !vp_below(5); o[4] = vp_below(20) ? 0 : o[4]; o[7] = vp_below(20) ? 0 : o[7]; if (vp_below(2)) o[3] = 0; if (vp_below(2)) o[6] = 0; if (!vp_below(6)) o[2] = o[3] = o[4] = 0; if (!vp_below(6)) o[5] = o[6] = o[7] = 0;
  return 10;
}
