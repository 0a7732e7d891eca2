// common helpers of demonstrations: everything happens inside a scratch directory given as argv[1]
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mdbx.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static void fail(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "FAILED: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  _exit(1);
}
#define CHK(expr)                                                                                                      \
  do {                                                                                                                 \
    int rc_ = (expr);                                                                                                  \
    if (rc_ != MDBX_SUCCESS)                                                                                           \
      fail("%s:%d %s -> %d %s", __FILE__, __LINE__, #expr, rc_, mdbx_strerror(rc_));                                   \
  } while (0)
static MDBX_val V(const void *p, size_t n) {
  MDBX_val v = {(void *)p, n};
  return v;
}
static MDBX_val S(const char *s) { return V(s, strlen(s)); }
static char kbuf_[8][32];
static int kidx_;
static MDBX_val K(unsigned n) { // printable key
  char *b = kbuf_[kidx_++ & 7];
  snprintf(b, 32, "%08u", n);
  return S(b);
}
static char *path_of(const char *dir, const char *name) {
  char *b = malloc(4096);
  snprintf(b, 4096, "%s/%s", dir, name);
  return b;
}
static void msleep(unsigned ms) {
  struct timespec ts = {ms / 1000, (ms % 1000) * 1000000L};
  while (nanosleep(&ts, &ts) && errno == EINTR)
    ;
}
static MDBX_env *env_new(unsigned maxdbs) {
  MDBX_env *e;
  CHK(mdbx_env_create(&e));
  CHK(mdbx_env_set_maxdbs(e, maxdbs));
  return e;
}
static void put(MDBX_txn *t, MDBX_dbi d, unsigned k, const void *p, size_t n) {
  MDBX_val kk = K(k), v = V(p, n);
  CHK(mdbx_put(t, d, &kk, &v, MDBX_UPSERT));
}
// 1 = found and equal, 0 = absent, -1 differs
static int has(MDBX_txn *t, MDBX_dbi d, unsigned k, const void *p, size_t n) {
  MDBX_val kk = K(k), v;
  int rc = mdbx_get(t, d, &kk, &v);
  if (rc == MDBX_NOTFOUND)
    return 0;
  CHK(rc);
  return v.iov_len == n && !memcmp(v.iov_base, p, n) ? 1 : -1;
}

// ---- single-stepping of own code: at the n-th instruction of fn a callback is called (inside of a signal handler)
#if defined(__x86_64__)
static volatile long step_at_, step_count_;
static void (*volatile step_cb_)(void);
static void step_handler_(int s, siginfo_t *si, void *uc_) {
  (void)s, (void)si;
  ucontext_t *uc = uc_;
  long n = ++step_count_;
  if (n == step_at_) {
    int e = errno;
    step_cb_();
    errno = e;
    uc->uc_mcontext.gregs[REG_EFL] &= ~0x100;
  }
}
// returns true if the n-th instruction was reached
static bool step_run(void (*fn)(void *), void *arg, long n, void (*cb)(void)) {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = step_handler_;
  sa.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &sa, NULL);
  step_at_ = n;
  step_count_ = 0;
  step_cb_ = cb;
  __asm__ volatile("sub $128, %%rsp; pushfq; orq $0x100, (%%rsp); popfq; add $128, %%rsp" ::: "memory", "cc");
  fn(arg);
  __asm__ volatile("sub $128, %%rsp; pushfq; andq $~0x100, (%%rsp); popfq; add $128, %%rsp" ::: "memory", "cc");
  return step_count_ >= n;
}
#endif
