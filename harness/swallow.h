/* Whether the call that is being served came through formatted input or output
 * of the standard streams. These catch whatever goes wrong inside them and only
 * set a bit, which is a promise of the language and not of the code under test:
 * failures are not injected there. */
#ifndef SWALLOW_H
#define SWALLOW_H
#include <dlfcn.h>
#include <execinfo.h>
#include <string.h>

static int swallowed(void) {
  static const char *const through[] = {"_ZStrs", "_ZStls", "_ZNSi", "_ZNSo",
                                        "_ZSt7getline", "_ZSt16__ostream_insert",
                                        "_ZSt17__istream_extract"};
  static __thread int inside;
  void *f[24];
  int i, n, found = 0;
  unsigned k;
  if (inside) return 1;
  inside = 1;
  n = backtrace(f, 24);
  for (i = 0; i < n && !found; ++i) {
    Dl_info a;
    if (!dladdr(f[i], &a) || !a.dli_sname) continue;
    for (k = 0; k < sizeof through / sizeof *through; ++k)
      if (!strncmp(a.dli_sname, through[k], strlen(through[k]))) found = 1;
  }
  inside = 0;
  return found;
}
#endif
