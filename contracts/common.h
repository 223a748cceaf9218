/* Stubs shared by the harnesses: logging has no effect; the allocator wrapper is represented by its contract
 * (established for the real src/alloc.c by the checks of the allocator property). */
#ifndef VP_COMMON_H
#define VP_COMMON_H
#include "mem.h"
#include "alloc.h"
#include <unistd.h>
void log_log(int level, const char *file, int line, const char *fmt, ...) {}
_Bool vp_oom;
#ifndef VP_OWN_ALLOC
void *WSS_malloc(size_t n) {
  if (n == 0) return NULL;
  void *p = calloc(1, n);
  if (p == NULL) vp_oom = 1;
  return p;
}
void WSS_free(void **p) { if (*p != NULL) { free(*p); *p = NULL; } }
#endif
pid_t getpid(void) { return nondet_int(); }
void srand(unsigned s) {}
int rand(void) { int r = nondet_int(); __CPROVER_assume(r >= 0); return r; }
#define REACH __CPROVER_assert(0, "VP_REACH")
#endif
