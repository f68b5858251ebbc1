// Reads Gaussian files through the public readers and prints everything they
// report. Each file is read in a child process of its own, so that a refusal
// (an exception or an error exit) or a memory error concerns that file only.
//
// stdin: one "<kind> <path>" per line, kind is pun or log
#include <cstdio>
#include <iostream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <map>
#include <set>
#include <exception>

#include "io/file_readers/logreader.hpp"
#include "io/file_readers/punreader.hpp"
#include "matrix.hpp"

using namespace catnip;
#ifdef MON_COV  // tools/coverage.py
extern "C" void __gcov_dump(void);
#endif

using namespace std;

static void dump(const char *name, const Matrix &m) {
  printf("%s %d %d %d", name, m.get_rows(), m.get_cols(), m.get_shel());
  for (int i = 1; i <= m.get_rows(); ++i)
    for (int j = 1; j <= m.get_cols(); ++j) printf(" %.17g", m.get_elem(i, j));
  printf("\n");
}

static void pun(const string &path) {
  PunReader r(path);
  r.read();
  printf("ext %s\n", r.getExt().c_str());
  printf("restricted %d\n", r.restrictedShell() ? 1 : 0);
  for (string s : {"Alpha", "Beta"}) {
    try {
      Matrix *m = r.getCoefsMatrix(s);
      dump(("coef " + s).c_str(), *m);
    } catch (const exception &) {
      printf("coef %s absent\n", s.c_str());
    }
  }
}

static void log(const string &path) {
  LogReader r(path);
  r.read();
  printf("ext %s\n", r.getExt().c_str());
  try {
    dump("overlap", *r.getOverlapMatrix());
  } catch (const exception &) {
    printf("overlap absent\n");
  }
  for (string s : {"Alpha", "Beta"}) {
    try {
      auto e = r.getOE(s);
      printf("oe %s %zu", s.c_str(), e.size());
      for (double v : e) printf(" %.17g", v);
      printf("\n");
    } catch (const exception &) {
      printf("oe %s absent\n", s.c_str());
    }
    try {
      int h = r.getHOMOLevel(s);
      printf("homo %s %d\n", s.c_str(), h);
    } catch (const exception &) {
      printf("homo %s absent\n", s.c_str());
    }
  }
  auto b = r.getBasisFuncCount();
  printf("basis %zu", b.size());
  for (int v : b) printf(" %d", v);
  printf("\n");
  auto c = r.getCoords();
  printf("coords %zu", c.size());
  for (auto &v : c) {
    printf(" | %zu", v.size());
    for (double x : v) printf(" %.17g", x);
  }
  printf("\n");
  auto info = r.getOrbitalInfo();
  for (auto &a : info) {
    printf("atom %d %s %zu", a.first.first, a.first.second.c_str(),
           a.second.size());
    for (auto &o : a.second) {
      printf(" | %s", o.first.c_str());
      for (double x : o.second) printf(" %.17g", x);
    }
    printf("\n");
  }
}

int main() {
  string kind, path;
  int stuck = 0;
  while (cin >> kind && getline(cin, path)) {
    path = path.substr(1);
    printf("FILE %s\n", path.c_str());
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      struct rlimit rc = {20, 20};
      setrlimit(RLIMIT_CPU, &rc);
      int code = 0;
      try {
        if (kind == "pun")
          pun(path);
        else
          log(path);
      } catch (const exception &e) {
        printf("refused\n");
        code = 3;
      }
      fflush(stdout);
#ifdef MON_COV
      __gcov_dump();
#endif
      _exit(code);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st))
      printf("DONE signal %d\n", WTERMSIG(st));
    else
      printf("DONE exit %d\n", WEXITSTATUS(st));
    fflush(stdout);
    // one that does not end is enough
    if (WIFSIGNALED(st) &&
        (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) && ++stuck == 2)
      break;
  }
  return 0;
}
