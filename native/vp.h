/* Native replay: runs the real code on concrete inputs and compares with the executable form of the contracts.
 * A case is a byte string. Every case is written to a shared file before it runs, so that a crash keeps its input. */
#ifndef VP_NATIVE_H
#define VP_NATIVE_H
#ifdef VP_FAULTS /* the units under test are compiled with malloc etc. renamed to vp_malloc etc. */
#undef malloc
#undef calloc
#undef realloc
#undef free
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#define VP_MAX (1u << 20)
static uint64_t vp_s[2];
static inline uint64_t vp_rnd(void) { uint64_t a = vp_s[0], b = vp_s[1]; vp_s[0] = b; a ^= a << 23; vp_s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return vp_s[1] + b; }
static inline uint64_t vp_below(uint64_t n) { return n ? vp_rnd() % n : 0; }
static void vp_seed(uint64_t s) { vp_s[0] = s * 0x9E3779B97F4A7C15ull + 1; vp_s[1] = s ^ 0xD1B54A32D192ED03ull; for (int i = 0; i < 16; i++) vp_rnd(); }
#ifdef VP_FAULTS
static long vp_fault_at = -1, vp_live, vp_allocs; static int vp_faulted; /* fail the n-th allocation from now; live blocks */
static int vp_fault(void) { vp_allocs++; if (vp_fault_at >= 0 && vp_fault_at-- == 0) { vp_faulted = 1; return 1; } return 0; }
#include <malloc.h>
/* fresh memory holds garbage, a resize always moves */
void *vp_malloc(size_t n) { if (vp_fault()) return NULL; void *p = malloc(n); if (p) { vp_live++; memset(p, 0xA5, n); } return p; }
void *vp_calloc(size_t m, size_t n) { if (vp_fault()) return NULL; void *p = calloc(m, n); if (p) vp_live++; return p; }
void *vp_realloc(void *o, size_t n) {
  if (vp_fault()) return NULL;
  if (o && !n) { vp_live--; free(o); return NULL; }
  void *p = malloc(n); if (!p) return NULL;
  size_t u = o ? malloc_usable_size(o) : 0; memset(p, 0xA5, n); if (o) { memcpy(p, o, u < n ? u : n); free(o); } else vp_live++;
  return p; }
void vp_free(void *p) { if (p) vp_live--; free(p); }
#endif
typedef struct { uint64_t s; } vp_prng;
static uint8_t vp_byte(vp_prng *r) { r->s = r->s * 6364136223846793005ull + 1442695040888963407ull; return r->s >> 56; }
static char vp_why[2048];
static int vp_fail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(vp_why, sizeof vp_why, fmt, ap); va_end(ap); return 1; }
/* provided by each program */
static int vp_case(const uint8_t *in, size_t n);              /* 0: contract holds */
static size_t vp_gen(uint8_t *out, uint64_t k);                /* k-th case; SIZE_MAX: no more directed cases, skip */
static uint8_t *vp_shared;
static void vp_note(const uint8_t *in, size_t n) { if (vp_shared) { uint64_t l = n; memcpy(vp_shared, &l, 8); memcpy(vp_shared + 8, in, n); } }
static void vp_alarm(int s) { static const char m[] = "HANG\n"; ssize_t r = write(1, m, 5); (void)r; _exit(97); }
static size_t vp_get(const uint8_t *p, size_t n, size_t i) { return i < n ? p[i] : 0; }
int main(int argc, char **argv) {
  if (argc >= 3 && !strcmp(argv[1], "replay")) {
    static uint8_t b[VP_MAX]; FILE *f = fopen(argv[2], "rb"); if (!f) return 98;
    size_t n = fread(b, 1, sizeof b, f); fclose(f);
    signal(SIGALRM, vp_alarm); alarm(20);
    uint8_t *x = malloc(n ? n : 1); memcpy(x, b, n);
    int r = vp_case(x, n); free(x);
    if (r) { printf("FAIL %s\n", vp_why); return 1; }
    printf("HOLDS\n"); return 0;
  }
  if (argc >= 5 && !strcmp(argv[1], "search")) {
    vp_seed(strtoull(argv[2], 0, 10)); double secs = atof(argv[3]);
    int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, VP_MAX + 8)) return 98;
    vp_shared = mmap(0, VP_MAX + 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (vp_shared == MAP_FAILED) return 98;
    uint8_t *buf = malloc(VP_MAX); struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    signal(SIGALRM, vp_alarm);
    uint64_t k, ran = 0;
    for (k = 0;; k++) {
      if ((k & 15) == 0) { clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9 > secs) break; alarm(20); }
      size_t n = vp_gen(buf, k); if (n == SIZE_MAX) break; if (n > VP_MAX) n = VP_MAX;
      uint8_t *x = malloc(n ? n : 1); memcpy(x, buf, n); vp_note(x, n); ran++;
      int r = vp_case(x, n); free(x);
      if (r) { printf("FAIL %s\n", vp_why); printf("CASES %llu\n", (unsigned long long)ran); return 1; }
    }
    printf("CASES %llu\n", (unsigned long long)ran); return 0;
  }
  fprintf(stderr, "usage: search SEED SECONDS FILE | replay FILE\n"); return 98;
}
#endif
