/* P24 replay: the real echo.c and broadcast.c (with the real hash table) driven by sequences of callbacks; who receives what, against a list of who is connected. */
#include "vp.h"
#include <pthread.h>
#include "subprotocol.h"
void *vp_malloc(size_t); void *vp_realloc(void *, size_t); void vp_free(void *);
#define onInit e_onInit
#define setAllocators e_setAllocators
#define onConnect e_onConnect
#define onMessage e_onMessage
#define onWrite e_onWrite
#define onClose e_onClose
#define onDestroy e_onDestroy
#define allocs e_allocs
#define allocators e_allocators
#define send e_send
#include "subprotocols/echo/echo.c"
#undef onInit
#undef setAllocators
#undef onConnect
#undef onMessage
#undef onWrite
#undef onClose
#undef onDestroy
#undef allocs
#undef allocators
#undef send
#undef wss_subprotocol_echo_h
#define onInit b_onInit
#define setAllocators b_setAllocators
#define onConnect b_onConnect
#define onMessage b_onMessage
#define onWrite b_onWrite
#define onClose b_onClose
#define onDestroy b_onDestroy
#define send b_send
#include "subprotocols/broadcast/broadcast.c"
#undef send
#define NF 40
static int there[NF], got[NF], strange, want_op; static const char *want_m; static size_t want_n;
static int fd_of(int i) { static const int odd[4] = { 0, 2147483647, 1 << 20, -2147483647 }; return i < 36 ? 3 + i : odd[i - 36]; }
static void st_send(int fd, wss_opcode_t op, char *m, uint64_t n) { int i; for (i = 0; i < NF && fd_of(i) != fd; i++); if (i == NF) { strange = 1; return; } got[i]++; if ((int)op != want_op || n != want_n || (n && memcmp(m, want_m, n))) strange = 2; }
static int vp_case(const uint8_t *in, size_t n) {
  static int inited; pthread_rwlock_t zero; memset(&zero, 0, sizeof zero); if (!inited) { inited = 1; e_setAllocators(vp_malloc, vp_realloc, vp_free); b_setAllocators(vp_malloc, vp_realloc, vp_free); e_onInit(NULL, st_send); b_onInit(NULL, st_send); }
  memset(there, 0, sizeof there); int r = 0; long live = vp_live; size_t k = 0;
  while (k + 3 < n && !r) { unsigned op = in[k] % 8, i = in[k + 1] % NF, x = in[k + 2]; k += 3; memset(got, 0, sizeof got); strange = 0; vp_faulted = 0; vp_fault_at = -1;
    if (op < 3) { if (x % 11 == 0) vp_fault_at = 0; e_onConnect(fd_of(i), "10.0.0.1", 80, "/", "c=d"); b_onConnect(fd_of(i), "10.0.0.1", 80, "/", "c=d"); vp_fault_at = -1; if (!vp_faulted) there[i] = 1; for (int j = 0; j < NF; j++) if (got[j] || strange) r = vp_fail("connecting sends a message"); }
    else if (op == 3) { b_onClose(fd_of(i)); e_onClose(fd_of(i)); there[i] = 0; if (x & 1) b_onClose(fd_of(i)); for (int j = 0; j < NF; j++) if (got[j] || strange) r = vp_fail("leaving sends a message"); }
    else { if (op > 5) for (unsigned j = 0; j < NF && !there[i]; j++) i = (i + 1) % NF; size_t len = x % 3 ? x % 24 : 0; if (len > n - k) len = n - k; char *m = malloc(len + 1); memcpy(m, in + k, len); m[len] = 0; k += len / 2; char *c = malloc(len + 1); memcpy(c, m, len + 1); want_op = x % 7 == 0 ? 0x9 : 1 + (x >> 4 & 1); want_m = c; want_n = len;
      b_onMessage(fd_of(i), want_op, m, len); if (strange) r = vp_fail(strange == 1 ? "broadcast to a descriptor nobody has" : "broadcast changes the message"); for (int j = 0; j < NF && !r; j++) { int w = there[j] && j != (int)i; if (got[j] != w) r = vp_fail("broadcast: %s %d received %d messages", j == (int)i ? "the sender" : there[j] ? "a connected session" : "a session that is not connected", fd_of(j), got[j]); }
      if (memcmp(m, c, len + 1) && !r) r = vp_fail("the message of the server is changed"); memcpy(m, c, len + 1); memset(got, 0, sizeof got); strange = 0; if (!r) e_onMessage(fd_of(i), want_op, m, len); if (strange) r = vp_fail(strange == 1 ? "echo to a descriptor nobody has" : "echo changes the message"); for (int j = 0; j < NF && !r; j++) if (got[j] != (j == (int)i)) r = vp_fail("echo: %s receives %d answers", j == (int)i ? "the sender" : "another session", got[j]);
      memset(got, 0, sizeof got); e_onWrite(fd_of(i), m, len); b_onWrite(fd_of(i), m, len); for (int j = 0; j < NF && !r; j++) if (got[j]) r = vp_fail("a message that is written is sent again"); free(m); free(c); } }
  vp_fault_at = -1; if (k & 1) for (int j = 0; j < NF; j++) b_onClose(fd_of(j)); else { b_onDestroy(); lock = zero; }
  if (!r && vp_live != live) r = vp_fail("%ld clients are left when everybody has gone", vp_live - live); if (clients != NULL) { if (!r) r = vp_fail("the table is not empty when everybody has gone"); }
  return r; }
static size_t vp_gen(uint8_t *o, uint64_t k) { size_t n = 12 + vp_below(k % 5 ? 90 : 500); for (size_t i = 0; i < n; i++) o[i] = vp_rnd(); return n; }
