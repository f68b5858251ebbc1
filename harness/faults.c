/* Loaded into calc_J (LD_PRELOAD): makes the system around it misbehave in
 * ways a system may, and counts what it did.
 *   WORLD=seed   a different but legal world: reads come in small pieces and
 *                are interrupted, the clock, the process and the user are
 *                others, variables that calc_J itself asks for exist
 *   FAULT=kind:n the n-th event (from 1) of a kind fails, as do all later ones
 *                if n ends with '+': read, open, stat, alloc, write
 *   FAULT_LOG    file that holds the counts of events and failures, as longs
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include "swallow.h"

enum { READ, OPEN, STAT, ALLOC, WRITE, ENVIRON, CLOCK, KINDS };
static const char *names[KINDS] = {"read",  "open",    "stat", "alloc",
                                   "write", "environ", "clock"};
static long here[KINDS + 1], *count = here, at;
static int kind = -1, onwards, ready;
static unsigned world;

static char *real_getenv(const char *n) {
  extern char **environ;
  size_t l = strlen(n);
  for (char **e = environ; e && *e; ++e)
    if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  return NULL;
}

static unsigned rnd(void) { return world = world * 1103515245u + 12345u; }

__attribute__((constructor)) static void start(void) {
  char *s = real_getenv("WORLD");
  if (s) world = (unsigned)atol(s) * 2654435761u + 1;
  if ((s = real_getenv("FAULT_LOG"))) {
    int fd = open(s, O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, sizeof here) == 0) {
      void *p = mmap(NULL, sizeof here, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) count = p;
    }
    if (fd >= 0) close(fd);
  }
  if ((s = real_getenv("FAULT"))) {
    for (int k = 0; k < KINDS; ++k) {
      size_t l = strlen(names[k]);
      if (!strncmp(s, names[k], l) && s[l] == ':') {
        kind = k;
        at = atol(s + l + 1);
        onwards = s[strlen(s) - 1] == '+';
      }
    }
  }
  swallowed(); /* loads what it needs */
  ready = 1;
}

static int fails(int k) {
  if (!ready) return 0;
  long n = ++count[k];
  if (k != kind || !(onwards ? n >= at : n == at)) return 0;
  if (k == ALLOC && swallowed()) return 0;
  ++count[KINDS];
  return 1;
}

/* whether the caller belongs to the program itself rather than to a library */
static int own(void *caller) {
  Dl_info a;
  if (!dladdr(caller, &a) || !a.dli_fname) return 0;
  return strstr(a.dli_fname, ".so") == NULL;
}

#define REAL(f) \
  static __typeof__(&f) real; \
  if (!real) real = (__typeof__(&f))dlsym(RTLD_NEXT, #f)

static int regular(int fd) {
  struct stat s;
  static int (*f)(int, struct stat *);
  if (!f) f = (int (*)(int, struct stat *))dlsym(RTLD_NEXT, "fstat");
  return f(fd, &s) == 0 && S_ISREG(s.st_mode);
}

ssize_t read(int fd, void *b, size_t n) {
  REAL(read);
  if (!ready || !regular(fd)) return real(fd, b, n);
  if (fails(READ)) {
    errno = EIO;
    return -1;
  }
  if (world && n > 1) n = 1 + rnd() / 65536 % (rnd() & 0x10000 ? 7 : 300) % n;
  return real(fd, b, n);
}

FILE *fopen(const char *p, const char *m) {
  REAL(fopen);
  if (fails(OPEN)) {
    errno = EMFILE;
    return NULL;
  }
  return real(p, m);
}
FILE *fopen64(const char *p, const char *m) {
  REAL(fopen64);
  if (fails(OPEN)) {
    errno = EMFILE;
    return NULL;
  }
  return real(p, m);
}

int stat(const char *restrict p, struct stat *restrict s) {
  REAL(stat);
  if (fails(STAT)) {
    errno = EACCES;
    return -1;
  }
  return real(p, s);
}

void *malloc(size_t n) {
  static void *(*real)(size_t);
  if (!real) real = (void *(*)(size_t))dlsym(RTLD_NEXT, "malloc");
  if (ready && fails(ALLOC)) {
    errno = ENOMEM;
    return NULL;
  }
  return real(n);
}

ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (fd <= 2 && fails(WRITE)) {
    errno = ENOSPC;
    return -1;
  }
  return real(fd, b, n);
}

/* the rest of another world */

char *getenv(const char *n) {
  char *v = real_getenv(n);
  if (!world || v || !own(__builtin_return_address(0))) return v;
  ++count[ENVIRON];
  return rnd() & 0x10000 ? (char *)"1" : (char *)"";
}

time_t time(time_t *t) {
  REAL(time);
  time_t x = real(NULL) + (world ? 86400L * (long)(world % 20000) : 0);
  if (world) ++count[CLOCK];
  if (t) *t = x;
  return x;
}

int clock_gettime(clockid_t c, struct timespec *t) {
  REAL(clock_gettime);
  int r = real(c, t);
  if (world && r == 0) {
    ++count[CLOCK];
    t->tv_sec += 86400L * (long)(world % 20000);
  }
  return r;
}

pid_t getpid(void) {
  REAL(getpid);
  return world ? (pid_t)(1 + rnd() / 65536 % 30000) : real();
}
uid_t getuid(void) {
  REAL(getuid);
  return world ? 1 + rnd() / 65536 : real();
}
uid_t geteuid(void) {
  REAL(geteuid);
  return world ? 1 + rnd() / 65536 : real();
}
int isatty(int fd) {
  REAL(isatty);
  return world ? (int)(rnd() >> 16 & 1) : real(fd);
}
int gethostname(char *b, size_t n) {
  REAL(gethostname);
  if (!world) return real(b, n);
  snprintf(b, n, "host%u", rnd() >> 16);
  return 0;
}
int rand(void) {
  REAL(rand);
  return world ? (int)(rnd() >> 8 & 0x7fffff) : real();
}
