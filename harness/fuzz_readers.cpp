// Coverage-guided execution of the readers and of the calculation behind them
// (libFuzzer, AddressSanitizer, UndefinedBehaviorSanitizer). The first byte
// chooses the kind of file, the rest is its contents. An exception and an
// error exit are refusals; anything else that is not a return is a finding.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <string>
#include <unistd.h>

#include "io/file_readers/logreader.hpp"
#include "io/file_readers/punreader.hpp"
#include "matrix.hpp"

using namespace catnip;
using namespace std;

struct ErrorExit {};
static bool inside = false;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int c) {
  if (inside) throw ErrorExit();
  __real_exit(c);
}

static string dir;
static double sink;

static void use(Matrix *m) {
  for (int i = 1; i <= m->get_rows(); ++i)
    for (int j = 1; j <= m->get_cols(); ++j) sink += m->get_elem(i, j);
}

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  dir = getenv("FUZZ_DIR") ? getenv("FUZZ_DIR") : ".";
  dir += "/" + to_string(getpid());
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  cerr.setstate(ios::failbit);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  if (n == 0) return 0;
  const bool pun = d[0] & 1;
  const string path = dir + (pun ? ".pun" : ".log");
  int f = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (f < 0 || write(f, d + 1, n - 1) != ssize_t(n - 1)) abort();
  close(f);
  inside = true;
  try {
    if (pun) {
      PunReader r(path);
      r.read();
      r.restrictedShell();
      for (string s : {"Alpha", "Beta"}) {
        try {
          use(r.getCoefsMatrix(s));
        } catch (const exception &) {
        }
      }
    } else {
      LogReader r(path);
      r.read();
      for (string s : {"Alpha", "Beta"}) {
        try {
          for (double v : r.getOE(s)) sink += v;
          sink += r.getHOMOLevel(s);
        } catch (const exception &) {
        }
      }
      for (auto &v : r.getCoords())
        for (double x : v) sink += x;
      for (int v : r.getBasisFuncCount()) sink += v;
      use(r.getOverlapMatrix());
    }
  } catch (const exception &) {
  } catch (const ErrorExit &) {
  }
  inside = false;
  return 0;
}
