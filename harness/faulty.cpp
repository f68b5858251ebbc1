// The library while memory runs out: one allocation, or every one from some
// point on, fails. Whatever the work yields up to the failure has to be what it
// yields without, the failure has to show as an exception or error exit, what
// was not being changed has to be as it was, everything has to be destructible,
// and the same work done again has to yield what it always does.
#include "work.hpp"

#include <new>

#include "swallow.h"

static bool armed = false, onwards = false;
static long counted = 0, failAt = 0, hits = 0;

// Every form of the operators: with one form missing, code that uses it
// (std::stable_sort asks for its buffer with nothrow) would mix this heap with
// the one of the sanitizer.
static bool refuse() {
  if (!armed || mon::quiet) return false;
  ++counted;
  if (failAt && (onwards ? counted >= failAt : counted == failAt) &&
      !swallowed()) {
    ++hits;
    return true;
  }
  return false;
}
void *operator new(size_t n) {
  if (refuse()) throw bad_alloc();
  void *p = malloc(n ? n : 1);
  if (!p) throw bad_alloc();
  return p;
}
void *operator new(size_t n, align_val_t a) {
  if (refuse()) throw bad_alloc();
  void *p = nullptr;
  if (posix_memalign(&p, size_t(a), n ? n : 1)) throw bad_alloc();
  return p;
}
void *operator new(size_t n, const nothrow_t &) noexcept {
  return refuse() ? nullptr : malloc(n ? n : 1);
}
void *operator new(size_t n, align_val_t a, const nothrow_t &) noexcept {
  void *p = nullptr;
  if (refuse() || posix_memalign(&p, size_t(a), n ? n : 1)) return nullptr;
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new[](size_t n, align_val_t a) { return operator new(n, a); }
void *operator new[](size_t n, const nothrow_t &t) noexcept {
  return operator new(n, t);
}
void *operator new[](size_t n, align_val_t a, const nothrow_t &t) noexcept {
  return operator new(n, a, t);
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete(void *p, align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, align_val_t) noexcept { free(p); }
void operator delete(void *p, const nothrow_t &) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, align_val_t) noexcept { free(p); }
void operator delete[](void *p, const nothrow_t &) noexcept { free(p); }

static void arm(long at, bool on) {
  counted = hits = 0;
  failAt = at;
  onwards = on;
  armed = true;
}
static void disarm() { armed = false; }

static vector<string> yields(const Recipe &r, bool faults, bool &stopped) {
  auto w = make(r);
  bool more = true;
  while (more) {
    if (faults) armed = true;
    more = w->step();
    disarm();
  }
  stopped = w->stopped;
  return w->yield;
}

// ------------------------------------------------------------ any work

static void workScenario(int no) {
  static const vector<string> kinds{
      "coefficient file", "log file", "calculation", "parser", "rules",
      "matrices", "reordering", "texts", "shared matrices"};
  shared.a.reset(new Matrix(filled(mon::rng, mon::ri(1, 7), mon::ri(1, 7))));
  shared.b.reset(new Matrix(filled(mon::rng, shared.a->get_cols(), mon::ri(1, 7))));
  shared.c.reset(new Matrix(*shared.a));
  Recipe r{mon::pick(kinds), mon::rng(),
           static_cast<int>(mon::ri(0, systems.size() - 1)),
           mon::pick(vector<string>{"/dimer", "/mon1", "/mon2"})};
  bool stopped;
  yields(r, false, stopped);
  arm(0, false);
  disarm();
  vector<string> want = yields(r, true, stopped);
  long n = counted;
  if (n == 0) return;
  int points = min<long>(n, 25);
  for (int t = 0; t < points; ++t) {
    long at = n <= points ? t + 1 : mon::ri(1, n);
    bool on = mon::coin(.4);
    auto f = mon::forked([&] {
      bool end = false;
      afterRefusal = disarm;
      arm(at, on);
      disarm();
      vector<string> got = yields(r, true, end);
      long hit = hits;
      afterRefusal = nullptr;
      size_t same = got.size();
      if (end && same) --same;
      for (size_t i = 0; i < same; ++i)
        if (i >= want.size() || got[i] != want[i])
          return "yields " + got[i].substr(0, 200) + " instead of " +
                 (i < want.size() ? want[i].substr(0, 200) : "nothing");
      if (!end && got.size() != want.size())
        return string("ends early without saying so");
      bool again;
      if (yields(r, false, again) != want)
        return string("has another yield when done again");
      return string(hit == 0 ? "unharmed" : end ? "refused" : "done anyway");
    });
    string what = mon::str("scenario ", no, ": a ", r.kind, ", allocation ", at,
                           on ? " and later ones" : "", " of ", n, " failed: ");
    if (f.end == mon::MEMORY || f.end == mon::SIGNAL || f.end == mon::STUCK) {
      mon::fail(what, mon::name(f.end));
      return;
    }
    string how = f.end == mon::RETURNED ? f.note : string(mon::name(f.end));
    if (f.end == mon::RETURNED && how != "unharmed" && how != "refused" &&
        how != "done anyway") {
      mon::fail(what, how);
      return;
    }
    if (how == "unharmed") continue;
    mon::seen(r.kind, " ", r.seed, " ", r.sys, r.path, " ", at, on);
    mon::tally(r.kind + ": " + how);
  }
  mon::sample("a ", r.kind, " with ", n, " allocations");
}

// ------------------------------------------------------------ matrices

static void matrixScenario(int no) {
  Rng g(mon::rng());
  int r = ri(g, 1, 7), c = ri(g, 1, 7), s = ri(g, 0, 3) ? 1 : 2;
  int kind = ri(g, 0, 19), n = ri(g, 1, 9), n2 = ri(g, 1, 9);
  Matrix a = s == 1 ? filled(g, r, c) : Matrix(r, c, 2);
  if (s == 2)
    for (int i = 1; i <= r; ++i)
      for (int j = 1; j <= c; ++j)
        for (int k = 1; k <= 2; ++k) a.set_elem(rd(g), i, j, k);
  Matrix b = filled(g, n, n2), d = filled(g, c, n), e = filled(g, n, c),
         f = filled(g, r, n);
  int i = ri(g, 1, r), i2 = ri(g, 1, r), j = ri(g, 1, c), j2 = ri(g, 1, c);
  vector<Matrix> v{a, b};
  vector<double> row(c, 2.5), col(r, 1.5);
  string name;
  bool changes = false, all = true;  // a is changed, and completely or not
  function<void()> op;
  switch (kind) {
    case 0: name = "copy"; op = [&] { Matrix x(a); }; break;
    case 1: name = "assignment"; changes = true; op = [&] { a = b; }; break;
    case 2: name = "set_rows"; changes = true; op = [&] { a.set_rows(n); }; break;
    case 3: name = "set_cols"; changes = true; op = [&] { a.set_cols(n); }; break;
    case 4: name = "set_shel"; changes = true; op = [&] { a.set_shel(3); }; break;
    case 5: name = "resize"; changes = true; op = [&] { a.resize(n, n2); }; break;
    case 6: name = "getRow"; op = [&] { a.getRow(i); }; break;
    case 7: name = "getCol"; op = [&] { a.getCol(j); }; break;
    case 8: name = "get_row"; op = [&] { a.get_row(i); a.get_col(j); }; break;
    case 9: name = "set_row"; changes = true; op = [&] { a.set_row(row, i); }; break;
    case 10: name = "set_col"; changes = true; op = [&] { a.set_col(col, j); }; break;
    case 11: name = "swap_row"; changes = true; all = false; op = [&] { a.swap_row(i, i2); }; break;
    case 12: name = "swap_col"; changes = true; all = false; op = [&] { a.swap_col(j, j2); }; break;
    case 13: name = "move_row"; changes = true; all = false; op = [&] { a.move_row(i, i2); }; break;
    case 14: name = "move_col"; changes = true; all = false; op = [&] { a.move_col(j, j2); }; break;
    case 15: if (s == 2) return; name = "transposition"; op = [&] { a.invert(); }; break;
    case 16: if (s == 2) return; name = "product"; op = [&] { a * d; }; break;
    case 17: if (s == 2) return; name = "concatenation of rows"; op = [&] { Matrix_concatenate_rows(a, e); }; break;
    case 18: if (s == 2) return; name = "concatenation of columns"; op = [&] { Matrix_concatenate_cols(a, f); }; break;
    default: name = "vector"; op = [&] { v.push_back(a); v.insert(v.begin(), a); }; break;
  }
  const string was = text(a), others = text(b) + text(d) + text(e) + text(f);
  string after;
  auto verdict = [&](long at, bool on, bool &hit) {
    string threw;
    arm(at, on);
    try {
      op();
    } catch (const bad_alloc &) {
      threw = "bad_alloc";
    } catch (const exception &x) {
      disarm();
      threw = x.what();
    }
    disarm();
    hit = hits > 0;
    string is = text(a);
    if (text(b) + text(d) + text(e) + text(f) != others)
      return string("an operand was changed");
    if (threw.empty()) {
      if (changes ? is != after : is != was)
        return string("the result is not the one of the operation");
    } else if (!changes || all) {
      if (is != was) return "the matrix is changed although it failed: " + threw;
    }
    if (a.get_rows() < 1 || a.total_elem() !=
        a.get_rows() * a.get_cols() * a.get_shel())
      return string("the matrix has impossible dimensions");
    for (auto &x : v) text(x);
    // all of them remain usable
    Matrix k(a);
    a.set_rows(2);
    a.set_cols(2);
    a.set_elem(3, 2, 2);
    if (a.get_elem(2, 2) != 3) return string("the matrix is unusable");
    k = a;
    v.clear();
    return string("fine");
  };
  if (changes) {
    auto f = mon::forked([&] {
      op();
      return text(a);
    });
    if (f.end != mon::RETURNED) return mon::fail(name, " ", mon::name(f.end));
    after = f.note;
  }
  arm(0, false);
  long total = 0;
  {
    auto f = mon::forked([&] {
      op();
      return to_string(counted);
    });
    disarm();
    total = atol(f.note.c_str());
  }
  for (long at = 1; at <= min(total, 12L); ++at) {
    bool on = mon::coin();
    auto f = mon::forked([&] {
      bool hit;
      string s = verdict(at, on, hit);
      return s;
    });
    if (f.end != mon::RETURNED || f.note != "fine") {
      mon::fail("scenario ", no, ": ", name, " of ", r, "x", c, "x", s,
                " with allocation ", at, on ? " and later ones" : "", " of ",
                total, " failed: ",
                f.end != mon::RETURNED ? mon::name(f.end) : f.note.c_str());
      return;
    }
    mon::seen(name, " ", r, "x", c, "x", s, " ", at, on);
    mon::tally(name);
  }
}

int main(int argc, char **argv) {
  unsigned long long seed = strtoull(argv[2], nullptr, 10);
  int total = atoi(argv[3]);
  for (int i = 4; i + 2 < argc; i += 3)
    systems.push_back({argv[i], argv[i + 1][0] == '1', argv[i + 2][0] == '1'});
  mon::init(seed);
  swallowed();  // loads what it needs
  static Discard nowhere;
  cerr.rdbuf(&nowhere);
  for (int i = 0; i < total; ++i) {
    mon::allowance();
    if (i % 3 == 2)
      workScenario(i);
    else
      for (int k = 0; k < 4; ++k) matrixScenario(i);
  }
  return mon::done();
}
