/* P17 replay: sequences of additions, look-ups, deletions and job counts on the real table (uthash), with another thread's addition slipped in before the lock is
 * taken, refused allocations, and sessions that own everything a session can own when they are deleted. */
#define W_HOOKS
#include "alloc.h"
#include "world.h"
#undef pthread_rwlock_wrlock
static int race_fd = -1; static wss_session_t *race_s; static char *race_ip = "192.168.7.9";
int vp_wrlock(pthread_rwlock_t *l) { /* another thread gets there first */
  if (race_fd >= 0) { int f = race_fd; race_fd = -1; long a = vp_fault_at; vp_fault_at = -1; race_s = WSS_session_add(f, race_ip, 7); vp_fault_at = a; }
  return pthread_rwlock_wrlock(l); }
#define N 24
static wss_session_t *model[N]; static int jobs[N], port[N], disc[N], nclosecb; static char ips[N][64];
static void ext_close(int fd) { nclosecb++; }
static wss_extension_t X = { .close = ext_close };
static char *dup_(const char *c, size_t n) { char *p = WSS_malloc(n + 1); memcpy(p, c, n); return p; }
static void furnish(wss_session_t *s, unsigned k, unsigned v) {
  switch (k % 6) {
    case 0: { if (s->frames) return; size_t c = 1 + v % 7; s->frames = WSS_malloc(c * sizeof *s->frames); s->frames_length = c; for (size_t i = 0; i < c; i++) { s->frames[i] = WSS_malloc(sizeof(wss_frame_t)); if ((v >> i & 1) == 0) { s->frames[i]->payload = dup_("payload", 7); s->frames[i]->payloadLength = 7; } } break; }
    case 1: { if (s->messages) return; int c = 1 + v % 9; s->messages = WSS_malloc(c * sizeof *s->messages); s->messages_count = c; for (int i = 0; i < c; i++) if (v >> (i % 5) & 1) { s->messages[i] = WSS_malloc(sizeof(wss_message_t)); if (i % 3) s->messages[i]->msg = dup_("bytes", 5); } break; }
    case 2: if (!s->pong) { s->pong = dup_("pong", 4); s->pong_length = 4; } break;
    case 3: if (!s->payload) { s->payload = dup_("rest", 4); s->payload_length = 4; s->offset = v % 4; } break;
    case 4: if (!s->ringbuf) { size_t z; ringbuf_get_sizes(0, 3, &z, NULL); s->ringbuf = WSS_malloc(z); ringbuf_setup(s->ringbuf, 0, 3, 4); } break;
    case 5: if (!s->header) { s->header = WSS_malloc(sizeof *s->header); s->header->content = dup_("GET / HTTP/1.1", 14); if (v & 1) s->header->ws_protocol = &W_echo;
      if (v & 2) { unsigned c = 1 + v / 4 % 3; s->header->ws_extensions = WSS_malloc(c * sizeof(wss_ext_t *)); s->header->ws_extensions_count = c; for (unsigned i = 0; i < c; i++) { s->header->ws_extensions[i] = WSS_malloc(sizeof(wss_ext_t)); s->header->ws_extensions[i]->ext = &X; s->header->ws_extensions[i]->name = dup_("x", 1); if (v & 32) s->header->ws_extensions[i]->accepted = dup_("y=1", 3); } } } break; } }
/* the descriptors of the table are W_BASE + k; only the first W_NFD exist in the world, so closing is recorded here */
static int closed[N];
static int chk(const char *after) {
  for (int i = 0; i < N; i++) { wss_session_t *s = WSS_session_find(2000 + i);
    if (s != model[i]) return vp_fail("%s: descriptor %d %s", after, 2000 + i, !s ? "is not found although it was added" : !model[i] ? "is found although it was deleted or never added" : "leads to another session");
    if (s && (s->fd != 2000 + i || s->port != port[i] || strcmp(s->ip, ips[i]))) return vp_fail("%s: the session found for descriptor %d is not the one that was added", after, 2000 + i);
    if (s && s->jobs != jobs[i]) return vp_fail("%s: %d jobs counted, %d are at work", after, s->jobs, jobs[i]); }
  return 0; }
static int seen[N], seen_other;
static void cb(wss_session_t *s) { if (s->fd >= 2000 && s->fd < 2000 + N && model[s->fd - 2000] == s) seen[s->fd - 2000]++; else seen_other++; }
int vp_sclose(int fd) { if (fd < 2000 || fd >= 2000 + N) { W_why = "closes a descriptor that is not its own"; longjmp(W_stuck, 2); } closed[fd - 2000]++; return 0; }
static int vp_case(const uint8_t *in, size_t n) {
  w_reset(); race_fd = -1; race_s = NULL; memset(model, 0, sizeof model); memset(jobs, 0, sizeof jobs); memset(disc, 0, sizeof disc); long live = vp_live; volatile int r = 0; volatile size_t k = 0; vp_fault_at = -1;
  if (setjmp(W_stuck)) { r = vp_fail("%s", W_why); return r; }
  while (k + 3 <= n && !r) { unsigned op = in[k], i = in[k + 1] % N, v = in[k + 2]; int fd = 2000 + i; k += 3; memset(closed, 0, sizeof closed); const char *w = "";
    switch (op % 10) {
      case 0: case 1: { char ip[64]; snprintf(ip, sizeof ip, "%u.%u.%u.%.*s", v, v / 2, i, v % 20, "12345678901234567890"); int rc = op / 10 % 3 == 0 && !model[i] ? fd : -1; race_fd = rc; race_s = NULL;
        vp_faulted = 0; if (rc < 0 && op / 10 % 3 == 1) vp_fault_at = v % 2; wss_session_t *old = model[i], *s = WSS_session_add(fd, ip, v); vp_fault_at = -1; race_fd = -1; w = "add";
        if (rc >= 0 && race_s) { if (s) r = vp_fail("descriptor %d was added although another thread had just added it", fd); model[i] = race_s; jobs[i] = 0; port[i] = 7; disc[i] = 0; strcpy(ips[i], race_ip); break; }
        if (old) { if (s) r = vp_fail("descriptor %d is in use and is added again", fd); break; }
        if (!s) { if (!vp_faulted) r = vp_fail("descriptor %d is not in use and is not added", fd); break; }
        model[i] = s; jobs[i] = 0; port[i] = v; disc[i] = 0; strcpy(ips[i], ip); if (s->header || s->frames || s->messages || s->payload || s->pong || s->closing || s->disconnecting || s->handshaked) r = vp_fail("a new session is not empty"); break; }
      case 2: if (!model[i]) break; w = "delete"; while (jobs[i]) { WSS_session_jobs_dec(model[i]); jobs[i]--; } nclosecb = 0; { int want = model[i]->header ? (int)model[i]->header->ws_extensions_count : 0; if (v & 1) pthread_mutex_lock(&model[i]->lock);
        if (WSS_session_delete(model[i]) != WSS_SUCCESS) r = vp_fail("delete fails"); if (nclosecb != want) r = vp_fail("%d of %d extensions are told about the end of the session", nclosecb, want); }
        if (closed[i] != 1) r = vp_fail("the descriptor of a deleted session is closed %d times", closed[i]); model[i] = NULL; break;
      case 3: case 4: if (model[i]) { WSS_session_jobs_inc(model[i]); jobs[i]++; } w = "a job starts"; break;
      case 5: if (model[i] && jobs[i]) { WSS_session_jobs_dec(model[i]); jobs[i]--; if (!jobs[i]) WSS_session_jobs_wait(model[i]); } w = "a job ends"; break;
      case 6: if (model[i]) { bool d = 2; WSS_session_is_disconnecting(model[i], &d); if (d != disc[i]) r = vp_fail("told %d about an earlier disconnect, %d is right", d, disc[i]); disc[i] = 1; } break;
      case 7: case 8: if (model[i]) furnish(model[i], op / 10, v); break;
      case 9: if (v % 8 == 0) { for (int q = 0; q < N; q++) while (jobs[q]) { WSS_session_jobs_dec(model[q]); jobs[q]--; } WSS_session_delete_all(); w = "delete all"; for (int q = 0; q < N; q++) { if (closed[q] != (model[q] != NULL)) r = vp_fail("descriptor %d is closed %d times", 2000 + q, closed[q]); model[q] = NULL; } }
        else { memset(seen, 0, sizeof seen); seen_other = 0; WSS_session_all(cb); for (int q = 0; q < N; q++) if (seen[q] != (model[q] != NULL)) r = vp_fail("descriptor %d is visited %d times", 2000 + q, seen[q]); if (seen_other) r = vp_fail("a session that does not exist is visited"); } break; }
    if (!r) r = chk(w); }
  vp_fault_at = -1; memset(closed, 0, sizeof closed); if (r) return r;
  WSS_session_delete_all(); memset(model, 0, sizeof model); r = chk("after everything was deleted");
  if (!r && vp_live != live) r = vp_fail("%ld blocks are left when all sessions are deleted", vp_live - live);
  return r; }
static size_t vp_gen(uint8_t *o, uint64_t k) { size_t n = 3 * (1 + vp_below(k % 4 ? 12 : 80)); for (size_t i = 0; i < n; i++) { o[i] = vp_rnd(); if (i % 3 == 1 && k % 2) o[i] %= 3; if (i == 0) o[i] = o[i] / 10 * 10 % 250; } return n; }
