// One piece of work of a given size, whose instructions are counted from
// outside.
//
// growth log|pun FILE     read a file and ask for what it held
// growth WORK SIZE SEED   a piece of work on texts, arguments or matrices
#include "work.hpp"

static string letters(Rng &g, long n, const string &of) {
  string s;
  for (long i = 0; i < n; ++i) s += of[ri(g, 0, of.size() - 1)];
  return s;
}

static Matrix filled(Rng &g, long r, long c) {
  Matrix m(r, c);
  for (long i = 1; i <= r; ++i)
    for (long j = 1; j <= c; ++j) m.set_elem(rd(g) * 9, i, j);
  return m;
}

static void onText(const string &op, Rng &g, long n) {
  const string s = letters(g, n, "aB1 .-/\t");
  if (op == "split") (void)splitSt(s);
  else if (op == "blanks") (void)splitSt(string(n, ' ') + "x");
  else if (op == "trim") { string t = string(n, ' ') + "x" + string(n, ' '); trim(t); }
  else if (op == "trimmed") { (void)trimmed(s); (void)ltrimmed(s); (void)rtrimmed(s); }
  else if (op == "cut") { (void)cut_end(s, n / 2); (void)cut_beg(s, n / 2); (void)firstN(s, n / 2); (void)lastN(s, n / 2); }
  else if (op == "path") { (void)lastStringInPath(s); (void)getPath(s); }
  else if (op == "grab") {
    for (const char *o : {"-", "a ", "/"}) {
      if (s.find(o) == string::npos) continue;
      (void)grabStrAfterFirstOccurance(s, o);
      (void)grabStrAfterLastOccurance(s, o);
      (void)grabStrBeforeFirstOccurance(s, o);
      (void)grabStrBeforeLastOccurance(s, o);
    }
  } else if (op == "sought") { (void)foundSubStrInStr(s, "xyz"); (void)isAlphabetical(letters(g, n, "abc")); }
  else if (op == "number") (void)toDouble(letters(g, n, "0") + "1.5");
}

static void onMatrix(const string &op, Rng &g, long n) {
  if (op == "matched") {
    Matrix a = filled(g, n, 3L);
    Matrix b = a;
    for (long i = 1; i < n; i += 2) b.swap_row(i, i + 1);
    (void)a.matchRow(b, 4);
    return;
  }
  if (op == "matched columns") {
    Matrix a = filled(g, 3L, n);
    Matrix b = a;
    for (long i = 1; i < n; i += 2) b.swap_col(i, i + 1);
    (void)a.matchCol(b, 4);
    return;
  }
  Matrix a = filled(g, n, n);
  if (op == "product") { Matrix b = a * a; }
  else if (op == "copy") { Matrix b = a; Matrix c; c = b; }
  else if (op == "turned") { Matrix b = a.invert(); }
  
  else if (op == "taken") { for (long i = 1; i <= n; ++i) { (void)a.getRow(i); (void)a.getCol(i); (void)a.get_row(i); (void)a.get_col(i); } }
  else if (op == "moved") { a.move_row(1, n); a.move_col(n, 1); a.swap_row(1, n); a.swap_col(1, n); }
  else if (op == "resized") { a.resize(n + 3, n + 2); a.set_rows(n); a.set_cols(n); }
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  const string op = argv[1];
  if (op == "log" || op == "pun") {
    try {
      if (op == "log") {
        LogReader r(argv[2]);
        r.read();
        (void)r.getCoords();
        (void)r.getBasisFuncCount();
      } else {
        PunReader r(argv[2]);
        r.read();
        (void)r.restrictedShell();
      }
    } catch (const exception &) {
      return 3;
    }
    return 0;
  }
  if (argc < 4) return 2;
  const long n = atol(argv[2]);
  Rng g(strtoull(argv[3], nullptr, 10) * 31 + 7);
  if (op == "arguments") {
    set<vector<string>> defs = {{"--one", "-1", "a"}, {"--two", "-2", "b"}, {"--three", "-3", "c"}, {"--four", "-4", "d"}};
    ArgumentParser p(defs);
    p.addFlagArg("--one", "ARGUMENT_INT");
    p.addFlagArg("--two", "ARGUMENT_STRING");
    p.addFlagArg("--three", "ARGUMENT_SWITCH");
    p.addFlagArg("--four", "ARGUMENT_DOUBLE");
    vector<string> words = {"growth"};
    for (long i = 0; i < n; ++i)
      switch (ri(g, 0, 3)) {
        case 0: words.insert(words.end(), {"--one", to_string(ri(g, -99, 99))}); break;
        case 1: words.insert(words.end(), {"-2", letters(g, 5, "xyz")}); break;
        case 2: words.insert(words.end(), {"--three", "ON"}); break;
        default: words.insert(words.end(), {"-4", num(rd(g))});
      }
    vector<const char *> v;
    for (auto &w : words) v.push_back(w.c_str());
    p.parse(v.data(), v.size());
    return 0;
  }
  static const set<string> onMatrices = {"matched", "matched columns", "product", "copy", "turned", "taken", "moved", "resized"};
  if (onMatrices.count(op)) onMatrix(op, g, n);
  else onText(op, g, n);
  return 0;
}
