/* P17: WSS_session_ssl_free releases the TLS state of a session exactly once and leaves the lock of the table, which its caller holds, alone. */
#include "mem.h"
#include <pthread.h>
#include "session.h"
#include "ssl.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
#define REACH __CPROVER_assert(0, "VP_REACH")
#define A_(c, t) __CPROVER_assert(c, t)
int g_free; SSL *h_ssl; wss_session_t *h_s; pthread_rwlock_t *h_lock;
int pthread_rwlock_unlock(pthread_rwlock_t *l) { A_(0, "the lock of the table stays with the caller"); return 0; }
int SSL_shutdown(SSL *s) { A_(s == h_ssl && !g_free, "shuts the session's TLS down"); return nondet_int(); }
int SSL_get_error(const SSL *s, int e) { A_(s == h_ssl && !g_free, "asks about the session's TLS"); return nondet_int(); }
unsigned long ERR_get_error(void) { return nondet_size_t(); }
void ERR_error_string_n(unsigned long e, char *b, size_t n) { A_(n > 0 && __CPROVER_w_ok(b, n), "the text fits"); }
void SSL_free(SSL *s) { A_(s == h_ssl && !g_free, "released once"); g_free++; }
wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
__CPROVER_requires(session == h_s && h_s->ssl == h_ssl && g_free == 0) __CPROVER_assigns(g_free, h_s->ssl) __CPROVER_ensures(g_free == 1 && h_s->ssl == NULL)
;
#include "log.h"
#define log_log(...) ((void)0)
#include "src/ssl.c"
void h_ssl_free(void) { h_s = malloc(sizeof *h_s); h_ssl = malloc(1); h_lock = malloc(sizeof *h_lock); __CPROVER_assume(h_s && h_ssl && h_lock); h_s->ssl = h_ssl; g_free = 0; WSS_session_ssl_free(h_s, h_lock); REACH; }
