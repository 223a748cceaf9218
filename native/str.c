/* P19 replay: string helpers on concrete values; strload on files in a scratch directory, with failing reads, closes and allocations. */
#undef fopen
#undef fread
#undef fclose
#undef fseek
#undef ftell
#include "vp.h"
#include "str.h"
#include <sys/stat.h>
void vp_free(void *p);
static int io_fault = -1, io_hit, io_open;
static int io(void) { if (io_fault >= 0 && io_fault-- == 0) { io_hit = 1; return 1; } return 0; }
FILE *vp_fopen(const char *p, const char *m) { if (io()) return NULL; FILE *f = fopen(p, m); if (f) io_open++; return f; }
size_t vp_fread(void *d, size_t s, size_t n, FILE *f) { size_t r = fread(d, s, n, f); if (r && io()) r--; return r; }
int vp_fclose(FILE *f) { io_open--; int r = fclose(f); return io() ? EOF : r; }
int vp_fseek(FILE *f, long o, int w) { if (io()) return -1; return fseek(f, o, w); }
long vp_ftell(FILE *f) { if (io()) return -1; return ftell(f); }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static int vp_case(const uint8_t *in, size_t n) {
  if (n < 4) return 0;
  int r = 0; long live = vp_live; vp_faulted = 0; io_hit = 0; const uint8_t *b = in + 3; size_t len = n - 3; int fault = in[1] ? in[1] - 1 : -1;
  if (in[0] % 3 == 0) {
    uint8_t *x = malloc(len); memcpy(x, b, len); size_t l = in[2] & 1 ? 0 : len; vp_fault_at = fault; char *h = bin2hex(x, l); vp_fault_at = -1;
    if (!h) { if (!vp_faulted) r = vp_fail("no hexadecimal text"); }
    else { for (size_t i = 0; i < l && !r; i++) if (hexv(h[2 * i]) != x[i] >> 4 || hexv(h[2 * i + 1]) != (x[i] & 15)) r = vp_fail("byte %02x became %c%c", x[i], h[2 * i], h[2 * i + 1]); if (!r && h[2 * l]) r = vp_fail("hexadecimal text not terminated"); vp_free(h); }
    free(x);
  } else if (in[0] % 3 == 1) { /* strings separated by 0, the first is the needle; 1 alone is a NULL entry */
    char *s[300]; size_t c = 0, st = 0;
    for (size_t i = 0; i <= len && c < 300; i++) if (i == len || !b[i]) { size_t l = i - st; if (l == 1 && b[st] == 1 && c) s[c++] = NULL; else { s[c] = malloc(l + 1); memcpy(s[c], b + st, l); s[c][l] = 0; c++; } st = i + 1; }
    int want = -1; for (size_t i = 1; i < c; i++) if (s[i] && !strcmp(s[i], s[0])) want = 0;
    int nul = in[2] % 8 == 0, got = strinarray(nul ? NULL : s[0], (const char **)s + 1, c - 1); if (nul) want = -1;
    if (got != want) r = vp_fail("'%s' in a list of %zu: answered %d, expected %d", s[0], c - 1, got, want);
    for (size_t i = 0; i < c; i++) free(s[i]);
  } else {
    char *path = "vp_file", *s = (char *)8; size_t l = in[2] % 16 == 1 ? 0 : len; int missing = in[2] % 16 == 2, dir = in[2] % 16 == 3;
    FILE *f = fopen(path, "wb"); if (!f) return 0; fwrite(b, 1, l, f); fclose(f); if (missing) path = "no such file"; if (dir) { mkdir("vp_dir", 0755); path = "vp_dir"; }
    vp_fault_at = fault >= 6 ? fault - 6 : -1; io_fault = fault < 6 ? fault : -1; io_open = 0;
    size_t got = strload(path, &s); vp_fault_at = -1; io_fault = -1;
    if (io_open) r = vp_fail("a file was left open");
    else if (missing || dir || vp_faulted || (io_hit && (got == 0 || s == NULL))) { if (got || s) r = vp_fail("file that cannot be read (%s) gave %zu bytes at %p", missing ? "missing" : dir ? "directory" : "failing", got, (void *)s); }
    else if (io_hit && l) r = vp_fail("a failing operation was not reported");
    else if (!io_hit && (got != l || !s || memcmp(s, b, l) || s[l])) r = vp_fail("file of %zu bytes loaded as %zu bytes%s", l, got, got == l ? " with other contents" : "");
    if (s && s != (char *)8 && !r) vp_free(s);
  }
  if (!r && vp_live != live) r = vp_fail("%ld blocks leaked", vp_live - live);
  return r;
}
static size_t vp_gen(uint8_t *o, uint64_t k) {
  o[0] = vp_rnd(); o[1] = vp_below(3) ? 0 : 1 + vp_below(8); o[2] = vp_rnd(); size_t len = 1 + (vp_below(20) ? vp_below(40) : vp_below(6000));
  if (k < 256) { o[0] = 0; o[1] = 0; o[2] = 2; o[3] = k; return 4; }
  if (o[0] % 3 == 1 && vp_below(2)) { /* long values that are related to each other: prefixes, extensions, one byte changed */
    char base[400]; size_t L = 1 + vp_below(390), m = 3; memset(base, 'a' + vp_below(26), L); for (size_t i = vp_below(2) ? L : 0; i < L; i++) base[i] = 1 + vp_below(254);
    for (int i = 0, c = 2 + vp_below(4); i < c; i++) { size_t l = vp_below(3) ? L : vp_below(L + 1); memcpy(o + m, base, l); if (l && !vp_below(3)) o[m + vp_below(l)] ^= 1 + vp_below(127); for (size_t j = 0; j < l; j++) if (!o[m + j]) o[m + j] = 'z'; m += l; if (!vp_below(4)) o[m++] = base[0]; o[m++] = 0; }
    return m - 1; }
  if (o[0] % 3 == 1) { static const char *w[] = { "echo", "ech", "echo2", "broadcast", "", "e", "\1", "Echo", "ECHO" }; size_t m = 3; for (int i = 0, c = 1 + vp_below(7); i < c; i++) { const char *s = w[vp_below(9)]; size_t l = strlen(s); memcpy(o + m, s, l); m += l; o[m++] = 0; } return m - 1; }
  for (size_t i = 0; i < len; i++) o[3 + i] = vp_rnd(); return 3 + len;
}
