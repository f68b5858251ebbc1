// Monitor of the text helpers: each is repeated on a model written with plain
// loops over characters.
//
// usage: strings text <seed> <scenarios>
#include "mon.hpp"

#include "string_support.hpp"

using namespace catnip;
using namespace mon;
using namespace std;

static bool blank(char c) {
  return c == ' ' || (c >= '\t' && c <= '\r');
}

static string text(int maxLen) {
  static const vector<string> alphabets = {
      "ab", "/.", "./ab", " \t\n\v\f\ra", "abcXYZ", "-+.0123456789eED",
      "a\xc3\xa9\xff ", "aab", "/a b.", "ab\n", string("a\0b", 3)};
  const string &al = pick(alphabets);
  int n = coin(0.1) ? 0 : ri(0, maxLen);
  string s;
  // also words of any length
  double odd = maxLen > 1000 && coin() ? 0 : 0.03;
  for (int i = 0; i < n; ++i)
    s += coin(odd) ? static_cast<char>(ri(0, 255)) : al[ri(0, al.size() - 1)];
  return s;
}

// positions at which occ occurs in s
static vector<size_t> places(const string &s, const string &occ) {
  vector<size_t> p;
  for (size_t i = 0; i + occ.size() <= s.size(); ++i) {
    bool eq = true;
    for (size_t j = 0; j < occ.size(); ++j) eq = eq && s[i + j] == occ[j];
    if (eq) p.push_back(i);
  }
  return p;
}

static string cut(const string &s, size_t a, size_t b) {
  string r;
  for (size_t i = a; i < b; ++i) r += s[i];
  return r;
}

static string quoted(const string &s) {
  string r = "\"";
  for (unsigned char c : s)
    if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else
      r += static_cast<char>(c);
  return r + "\"";
}

static void expect(const char *f, const string &in, const string &arg,
                   const string &got, const string &want) {
  if (got != want)
    fail(f, "(", quoted(in), arg.size() ? ", " : "", arg, ") gives ",
         quoted(got), " instead of ", quoted(want));
  seen(f, " ", in.size() < 7 ? quoted(in) : str(in.size()), " ", arg);
}

static void scenario() {
  // the longest ones are no paths
  bool huge = coin(0.0006);
  string s = text(huge ? 300000 : coin(0.001) ? 5000 : coin(0.03) ? 900 : 24);
  op("text ", quoted(s));
  size_t n = s.size();
  // trimming
  size_t a = 0, b = n;
  while (a < n && blank(s[a])) ++a;
  while (b > a && blank(s[b - 1])) --b;
  expect("trimmed", s, "", trimmed(s), cut(s, a, b));
  {
    size_t r = n;
    while (r > 0 && blank(s[r - 1])) --r;
    expect("rtrimmed", s, "", rtrimmed(s), cut(s, 0, r));
    expect("ltrimmed", s, "", ltrimmed(s), cut(s, a, n));
    string t = s;
    trim(t);
    expect("trim", s, "", t, cut(s, a, b));
  }
  // words
  {
    vector<string> want;
    string w;
    for (char c : s) {
      if (!blank(c)) { w += c; continue; }
      if (w.size()) want.push_back(w);
      w.clear();
    }
    if (w.size()) want.push_back(w);
    auto got = splitSt(s);
    if (got != want)
      fail("splitSt(", quoted(s), ") gives ", got.size(), " words instead of ", want.size(), " or other ones");
    seen("splitSt ", want.size(), " ", n);
  }
  // paths
  if (!huge) {
    size_t last = 0;
    for (size_t i = 0; i < n; ++i)
      if (s[i] == '/') last = i + 1;
    expect("lastStringInPath", s, "", lastStringInPath(s), cut(s, last, n));
    expect("getPath", s, "", getPath(s), cut(s, 0, last));
  }
  // parts of a given length
  {
    int k = ri(0, n);
    expect("firstN", s, str(k), firstN(s, k), cut(s, 0, k));
    expect("lastN", s, str(k), lastN(s, k), cut(s, n - k, n));
    expect("cut_beg", s, str(k), cut_beg(s, k), cut(s, k, n));
    expect("cut_end", s, str(k), cut_end(s, k), cut(s, 0, n - k));
    int more = n + ri(1, 5);
    expect("firstN", s, str(more), firstN(s, more), s);
  }
  // occurrences
  {
    string occ;
    if (n && coin(0.7)) {
      size_t from = ri(0, n - 1);
      occ = cut(s, from, min(n, from + ri(1, 3)));
    } else
      occ = text(3);
    if (occ.empty()) occ = ".";
    auto p = places(s, occ);
    string q = quoted(occ);
    bool any = !p.empty();
    expect("grabStrAfterFirstOccurance", s, q, grabStrAfterFirstOccurance(s, occ), any ? cut(s, p.front() + occ.size(), n) : "");
    expect("grabStrAfterLastOccurance", s, q, grabStrAfterLastOccurance(s, occ), any ? cut(s, p.back() + occ.size(), n) : "");
    expect("grabStrAfterLastOccuranceInclusive", s, q, grabStrAfterLastOccuranceInclusive(s, occ), any ? cut(s, p.back(), n) : "");
    expect("grabStrBeforeFirstOccurance", s, q, grabStrBeforeFirstOccurance(s, occ), any ? cut(s, 0, p.front()) : s);
    expect("grabStrBeforeLastOccurance", s, q, grabStrBeforeLastOccurance(s, occ), any ? cut(s, 0, p.back()) : s);
    expect("grabStrBeforeLastOccuranceInclusive", s, q, grabStrBeforeLastOccuranceInclusive(s, occ), any ? cut(s, 0, p.back() + occ.size()) : s);
    if (foundSubStrInStr(s, occ) != any) fail("foundSubStrInStr(", quoted(s), ", ", q, ") is ", !any);
    seen("foundSubStrInStr ", any, " ", n, " ", occ.size());
    tally(any ? "texts that contain the other" : "texts that do not");
  }
  {
    bool all = n > 0;
    for (char c : s) all = all && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'));
    if (isAlphabetical(s) != all) fail("isAlphabetical(", quoted(s), ") is ", !all);
    seen("isAlphabetical ", all, " ", n);
    if (all) tally("alphabetical texts");
  }
}

// A number is made from its parts, the C library reads it in its own notation
static void numbers() {
  string sign = pick(vector<string>{"", "", "-", "+"});
  string digits;
  for (int i = ri(1, 12); i > 0; --i) digits += static_cast<char>('0' + ri(0, 9));
  string point = coin(0.1) ? digits : cut(digits, 0, ri(0, digits.size())) + ".";
  if (point.back() == '.') point += cut(digits, point.size() - 1, digits.size());
  string mantissa = sign + point;
  int e = coin() ? ri(-15, 15) : ri(-280, 270);
  string exponent = (e < 0 ? "-" : coin(0.8) ? "+" : "") + string(coin(0.7) && abs(e) < 10 ? "0" : "") + to_string(abs(e));
  string l(ri(0, 3), ' '), r(ri(0, 3), coin(0.8) ? ' ' : '\r');
  double plain = strtod(mantissa.c_str(), nullptr), whole = strtod((mantissa + "e" + exponent).c_str(), nullptr);
  auto value = [](const char *f, const string &in, double got, double want) {
    if (!(fabs(got - want) <= 1e-14 * fabs(want))) fail(f, "(", quoted(in), ") is ", str(got), " instead of ", str(want));
    seen(f, " ", quoted(in));
  };
  auto refused = [](const char *f, const string &in, double (*read)(const string &)) {
    try {
      double got = read(in);
      fail(f, "(", quoted(in), ") is ", str(got), ", it is no number");
    } catch (const exception &) {
    }
    seen(f, " refuses ", quoted(in));
    tally("texts refused as numbers");
  };
  string t = l + mantissa + r;
  value("toDouble", t, toDouble(t), plain);
  t = l + mantissa + pick(vector<string>{"e", "E"}) + exponent + r;
  value("toDouble", t, toDouble(t), whole);
  string letter = pick(vector<string>{"D", "D", "d", "E", "e", ""});
  string x = letter.empty() && isdigit(exponent[0]) ? "+" + exponent : exponent;
  t = l + mantissa + letter + x + r;
  value("fortranToDouble", t, fortranToDouble(t), whole);
  tally("texts read as numbers", 3);
  // one mistake
  string bad = mantissa;
  switch (ri(0, 5)) {
    case 0: bad = pick(vector<string>{"", " ", "nan", "inf", "-", ".", "x", "-inf", "NaN", "0x1", "--1"}); break;
    case 1: bad += pick(vector<string>{"x", ",5", " 1", "*", "-1", "_", ".1.", ")", "e", "E+"}); break;
    case 2: bad.insert(bad.begin(), pick(vector<char>{'x', '*', ',', '_', '/', '('})); break;
    case 3: bad = mantissa + mantissa + "." + mantissa + "."; break;
    case 4: bad += string(1, static_cast<char>(ri(128, 255))); break;
    default: bad += "D+00";
  }
  refused("toDouble", bad, toDouble);
  bad = mantissa + "D" + exponent;
  switch (ri(0, 4)) {
    case 0: bad = mantissa; break;                      // no exponent
    case 1: bad = mantissa + "D"; break;
    case 2: bad += pick(vector<string>{"x", ",", " 1", "*", "D+00", "_"}); break;
    case 3: bad[ri(0, mantissa.size() - 1)] = pick(vector<char>{'x', 'z', '*', ',', '_'}); bad = "1" + bad; break;
    default: bad = "D" + exponent;
  }
  refused("fortranToDouble", bad, fortranToDouble);
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  init(strtoull(argv[2], nullptr, 10) * 4421 + 5);
  int n = atoi(argv[3]);
  for (int i = 0; i < n; ++i) {
    if (i % 100 == 0) allowance();
    scenario();
    numbers();
  }
  tally("texts", n);
  return done();
}
