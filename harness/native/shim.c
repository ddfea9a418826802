// Native counterpart of the symbolic engine's harness interface: runs one harness entry of the really
// compiled code with the inputs of one recorded path (a counterexample or a sample).
// usage: replay ENTRY INPUTFILE     (runs in the current directory, which the caller makes a scratch one)
// exit: 0 done, 42 assertion failed (SYMX-ASSERT-FAIL <id> on stderr), 3 inputs do not match, 4 assumption
// false; a panic in the code aborts (SIGABRT).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static FILE *in;
static unsigned char *image;
static size_t image_len;
static uint64_t mono_s = 1000, mono_ns, real_s = 1700000000, real_ns;

static uint64_t next(const char *name, size_t len) {
  char n[256];
  unsigned long long v;
  if (fscanf(in, "%255s %llu", n, &v) != 2) {
    fprintf(stderr, "SYMX-INPUT-END %.*s\n", (int)len, name);
    fflush(stdout);
    _exit(3);
  }
  if (strlen(n) != len || memcmp(n, name, len)) {
    fprintf(stderr, "SYMX-INPUT-MISMATCH wanted %.*s got %s\n", (int)len, name, n);
    fflush(stdout);
    _exit(3);
  }
  return v;
}
uint64_t symx_var(const char *n, size_t l, uint32_t b, uint64_t lo, uint64_t hi) { return next(n, l); }
uint64_t symx_choose(const char *n, size_t l, uint64_t k) { return next(n, l); }
uint64_t symx_concrete(uint64_t v) { return v; }
uint32_t symx_is_symbolic(uint64_t v) { return 0; }
void symx_assume(uint32_t c) {
  if (!(c & 1)) {
    fprintf(stderr, "SYMX-ASSUME-FALSE\n");
    fflush(stdout);
    _exit(4);
  }
}
void symx_fail(const char *n, size_t l) {
  fprintf(stderr, "SYMX-ASSERT-FAIL %.*s\n", (int)l, n);
  fflush(stdout);
  _exit(42);
}
void symx_assert(uint32_t c, const char *n, size_t l) {
  if (!(c & 1)) symx_fail(n, l);
}
void symx_reach(const char *n, size_t l) { printf("reach %.*s\n", (int)l, n); }
void symx_out(uint64_t v) { printf("out %llu\n", (unsigned long long)v); }
void symx_clock(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  mono_s = a; mono_ns = b; real_s = c; real_ns = d;
}
void symx_bytes(unsigned char *p, size_t n, const char *name, size_t l) {
  for (size_t i = 0; i < n; i++) p[i] = (unsigned char)next(name, l);
}
uint32_t symx_crash_run(void (*f)(void *), void *a, unsigned char *region, size_t n) {
  f(a);
  if (next("crash", 5)) {
    if (image && image_len == n) memcpy(region, image, n);
    return 1;
  }
  return 0;
}
uint64_t symx_param(const char *n, size_t l, uint64_t d) {
  char b[128];
  snprintf(b, sizeof b, "SYMX_PARAM_%.*s", (int)l, n);
  const char *v = getenv(b);
  return v ? strtoull(v, 0, 10) : d;
}
void symx_done(void) {
  fflush(stdout);
  _exit(0);
}
void symx_unsupported(const char *n, size_t l) { symx_fail(n, l); }

// ---- parallel sections: threads take turns exactly as recorded ("sw" inputs: target << 56 | nth << 28 | site).
// The code is the same IR compiled with a call of symx_sched before every atomic instruction.
#define SITE_BLOCK 0xffffffeu
#define SITE_END 0xffffffdu
#define SITE_YIELD 0xffffffcu
#define SITE_FUTEX 0xffffffbu
#define MAXT 8
#define MAXSITE (1 << 20)
static int par_n, baton;
static __thread int me;
static pthread_mutex_t bm = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t bc = PTHREAD_COND_INITIALIZER;
static struct { int done, blocked, timedout; uint64_t addr; uint32_t *occ; } thr[MAXT];
static int queue[64], nq;

static long rawsys(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
// ---- a disk that fills up or stops working
static int disk_mode;
static uint64_t disk_left;
void symx_disk(uint32_t mode, uint64_t n) { disk_mode = mode; disk_left = n; }
static int disk_change(void) {
  if (disk_mode != 2) return 1;
  if (!disk_left) { errno = EIO; return 0; }
  disk_left--;
  return 1;
}
ssize_t write(int fd, const void *p, size_t n) {
  if (disk_mode && fd > 2 && n) {
    if (!disk_left) { errno = disk_mode == 2 ? EIO : ENOSPC; return -1; }
    if (n > disk_left) n = disk_left;
    disk_left -= n;
  }
  return rawsys(SYS_write, fd, (long)p, n, 0, 0, 0);
}
int open64(const char *path, int fl, ...) {
  va_list va;
  va_start(va, fl);
  int md = (fl & O_CREAT) ? va_arg(va, int) : 0;
  va_end(va);
  if (disk_mode == 2) {
    struct stat st;
    int there = stat(path, &st) == 0;
    if (((fl & O_CREAT) && !there) || ((fl & O_TRUNC) && there && st.st_size > 0))
      if (!disk_change()) return -1;
  }
  return rawsys(SYS_openat, AT_FDCWD, (long)path, fl | O_LARGEFILE, md, 0, 0);
}
int ftruncate64(int fd, long n) { return disk_change() ? rawsys(SYS_ftruncate, fd, n, 0, 0, 0, 0) : -1; }
int unlink(const char *p) {
  if (disk_mode == 2 && access(p, F_OK)) { errno = ENOENT; return -1; }
  return disk_change() ? rawsys(SYS_unlink, (long)p, 0, 0, 0, 0, 0) : -1;
}
int rename(const char *p, const char *q) {
  if (disk_mode == 2 && access(p, F_OK)) { errno = ENOENT; return -1; }
  return disk_change() ? rawsys(SYS_rename, (long)p, (long)q, 0, 0, 0, 0) : -1;
}
int unlinkat(int d, const char *p, int f) {
  return disk_change() ? rawsys(SYS_unlinkat, d, (long)p, f, 0, 0, 0) : -1;
}
int mkdir(const char *p, mode_t m) {
  if (disk_mode == 2 && !access(p, F_OK)) { errno = EEXIST; return -1; }
  return disk_change() ? rawsys(SYS_mkdir, (long)p, m, 0, 0, 0, 0) : -1;
}
// the same stream of random bytes as the engine's
static uint64_t rng;
ssize_t getrandom(void *p, size_t n, unsigned f) {
  for (size_t i = 0; i < n; i++) {
    uint64_t z = ++rng * 0x9e3779b97f4a7c15u;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9u;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebu;
    ((unsigned char *)p)[i] = z ^ (z >> 31);
  }
  return n;
}
static int peek_sw(uint64_t *v) {
  char n[256];
  unsigned long long x;
  long at = ftell(in);
  int ok = fscanf(in, "%255s %llu", n, &x) == 2 && !strcmp(n, "sw");
  fseek(in, at, SEEK_SET);
  if (ok) *v = x;
  return ok;
}
static void handoff(int to) {
  pthread_mutex_lock(&bm);
  if (thr[to].blocked) {  // a timed wait that expires
    thr[to].blocked = 0;
    thr[to].timedout = 1;
    int k = 0;
    for (int i = 0; i < nq; i++) if (queue[i] != to) queue[k++] = queue[i];
    nq = k;
  }
  baton = to;
  pthread_cond_broadcast(&bc);
  while (baton != me) pthread_cond_wait(&bc, &bm);
  pthread_mutex_unlock(&bm);
}
static uint32_t *occ_of(uint32_t site) {
  return &thr[me].occ[site >= 0xffffff0u ? MAXSITE + (site & 15) : site % MAXSITE];
}
static void sched_at(uint32_t site) {
  uint64_t v;
  if (peek_sw(&v) && (uint32_t)(v & 0xfffffff) == site && (uint32_t)((v >> 28) & 0xfffffff) == *occ_of(site)) {
    next("sw", 2);
    handoff(v >> 56);
  }
}
static void leave(uint32_t site) {
  uint64_t v;
  if (!peek_sw(&v) || (uint32_t)(v & 0xfffffff) != site) {
    int all = 1;
    for (int i = 1; i <= par_n; i++) if (!thr[i].done && !thr[i].blocked) all = 0;
    fprintf(stderr, all ? "SYMX-DEADLOCK\n" : "SYMX-INPUT-MISMATCH schedule\n");
    fflush(stdout);
    _exit(all ? 43 : 3);
  }
  next("sw", 2);
  handoff(v >> 56);
}
void symx_sched(uint32_t site) {
  if (!par_n || !me) return;
  sched_at(site);
  ++*occ_of(site);
}
int sched_yield(void) {
  uint64_t v;
  if (par_n && me) {
    if (peek_sw(&v) && (uint32_t)(v & 0xfffffff) == SITE_YIELD) leave(SITE_YIELD);
    return 0;
  }
  return rawsys(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
int nanosleep(const struct timespec *a, struct timespec *b) { return par_n && me ? sched_yield() : 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { return par_n && me ? sched_yield() : 0; }
static long futex(uint32_t *p, int op, uint32_t val) {
  sched_at(SITE_FUTEX);
  op &= 0x7f;
  if (op == 1 || op == 10) {
    long k = 0;
    int m = 0;
    for (int i = 0; i < nq; i++) {
      int t = queue[i];
      if (k < val && thr[t].addr == (uint64_t)p) { thr[t].blocked = 0; k++; }
      else queue[m++] = t;
    }
    nq = m;
    ++*occ_of(SITE_FUTEX);
    return k;
  }
  ++*occ_of(SITE_FUTEX);
  if (*p != val) { errno = EAGAIN; return -1; }
  thr[me].blocked = 1;
  thr[me].addr = (uint64_t)p;
  queue[nq++] = me;
  leave(SITE_BLOCK);
  if (thr[me].timedout) { thr[me].timedout = 0; errno = ETIMEDOUT; return -1; }
  return 0;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && par_n && me) return futex((uint32_t *)a[0], a[1], a[2]);
  if (n == SYS_getrandom) return getrandom((void *)a[0], a[1], a[2]);
  return rawsys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
struct targ { void (*f)(void *, uint64_t); void *a; int i; };
static void *trun(void *x) {
  struct targ *t = x;
  me = t->i;
  pthread_mutex_lock(&bm);
  while (baton != me) pthread_cond_wait(&bc, &bm);
  pthread_mutex_unlock(&bm);
  t->f(t->a, me - 1);
  thr[me].done = 1;
  leave(SITE_END);
  for (;;) pause();
}
void symx_par(void (*f)(void *, uint64_t), void *a, uint64_t n) {
  par_n = n;
  nq = 0;
  thr[0].done = 1;
  for (int i = 1; i <= par_n; i++) {
    struct targ *t = malloc(sizeof *t);
    pthread_t id;
    memset(&thr[i], 0, sizeof thr[i]);
    thr[i].occ = calloc(MAXSITE + 16, 4);
    *t = (struct targ){f, a, i};
    pthread_create(&id, 0, trun, t);
  }
  leave(SITE_END);
  par_n = 0;
}

int clock_gettime(clockid_t c, struct timespec *t) {
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    t->tv_sec = real_s; t->tv_nsec = real_ns;
  } else {
    t->tv_sec = mono_s; t->tv_nsec = mono_ns;
  }
  return 0;
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
  if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  in = fopen(argv[2], "r");
  if (!in) return 2;
  if (argc > 3) {
    FILE *g = fopen(argv[3], "rb");
    if (!g) return 2;
    fseek(g, 0, SEEK_END);
    image_len = ftell(g);
    rewind(g);
    image = malloc(image_len + 1);
    if (fread(image, 1, image_len, g) != image_len) return 2;
    fclose(g);
  }
  f();
  fflush(stdout);
  _exit(0);
}
