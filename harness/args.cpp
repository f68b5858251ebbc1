// Monitors of the rules for arguments (props) and of the parser of command
// lines (parser). Runs in a scratch directory in which it creates files.
//
// usage: args <props|parser|settings|rules> <seed> <scenarios>
#include "mon.hpp"

#include <algorithm>
#include <climits>
#include <fstream>
#include <iostream>
#include <limits>
#include <sys/stat.h>

#include "io/argumentparser.hpp"
#include "io/arguments/properties/propertydouble.hpp"
#include "io/arguments/properties/propertyfileexist.hpp"
#include "io/arguments/properties/propertyfileext.hpp"
#include "io/arguments/properties/propertyint.hpp"
#include "io/arguments/properties/propertysisterfile.hpp"
#include "io/arguments/properties/propertystring.hpp"
#include "io/arguments/properties/propertystringchoice.hpp"
#include "io/arguments/properties/propertyswitch.hpp"
#include "parameters.hpp"

using namespace catnip;
using namespace mon;
using namespace std;

static bool isThere(const string &p) {
  struct ::stat b;
  return ::stat(p.c_str(), &b) == 0;
}
static void touch(const string &p) { ofstream(p) << "x\n"; }

// did the call refuse by an exception?
template <typename F>
static bool threw(F f) {
  try {
    f();
  } catch (const exception &) {
    return true;
  }
  return false;
}

// a value is accepted by returning true, and refused by throwing
template <typename F>
static bool refuses(F f) {
  try {
    return !f();
  } catch (const exception &) {
    return true;
  }
}

static void judge(bool refusedIt, bool valid, const string &what) {
  if (refusedIt == valid)
    fail(what, valid ? " is refused although it is allowed" : " is accepted although it is not allowed");
  seen(what.substr(0, 90));
  tally(valid ? "allowed values" : "values that are not allowed");
}

// ---------------------------------------------------------------- props

static int anyInt() {
  switch (ri(0, 5)) {
    case 0: return INT_MIN;
    case 1: return INT_MAX;
    case 2: return ri(-3, 3);
    case 3: return static_cast<int>(rng());
    default: return ri(-1000, 1000);
  }
}

static double anyDouble() {
  switch (ri(0, 7)) {
    case 0: return numeric_limits<double>::max();
    case 1: return numeric_limits<double>::lowest();
    case 2: return 0.0;
    case 3: return -0.0;
    case 4: return rd(-1, 1) * 1e-310;
    case 5: return ri(-5, 5);
    default: return rd(-1e3, 1e3) * pow(10, ri(-5, 5));
  }
}

static void intProps() {
  PropertyInt p;
  ArgumentInt arg;
  int lo = INT_MIN, hi = INT_MAX;
  for (int t = 0; t < 6; ++t) {
    if (coin(0.7)) {
      int x = anyInt();
      bool low = coin();
      (low ? lo : hi) = x;
      op("int ", low ? "MIN" : "MAX", " ", x);
      p.setPropOption(low ? "MIN" : "MAX", x);
      arg.setArgPropertyOpt("PROPERTY_INT", low ? string("MIN") : string("MAX"), x);
    }
    if (p.getPropOption("MIN") != lo || p.getPropOption("MAX") != hi) fail("the limits of an int are not those that were set");
    if (arg.getPropertyValues("PROPERTY_INT", "MIN") != to_string(lo) || arg.getPropertyValues("PROPERTY_INT", "MAX") != to_string(hi)) fail("the limits of an int argument are not those that were set");
    if (!threw([&] { p.setPropOption("MINIMUM", 1); }) || !threw([&] { p.getPropOption("min"); }) || !threw([&] { arg.setArgPropertyOpt("PROPERTY_INT", string("max"), 3); }) || !threw([&] { arg.setArgPropertyOpt("PROPERTY_DOUBLE", string("MAX"), 3); }))
      fail("an unknown option of an int is accepted");
    vector<int> vals = {lo, hi, anyInt(), anyInt(), 0};
    if (lo > INT_MIN) vals.push_back(lo - 1);
    if (hi < INT_MAX) vals.push_back(hi + 1);
    if (lo < INT_MAX) vals.push_back(lo + 1);
    if (hi > INT_MIN) vals.push_back(hi - 1);
    for (int v : vals) {
      bool valid = v >= lo && v <= hi;
      judge(refuses([&] { return p.propValid(v); }), valid, str("int ", v, " within ", lo, " to ", hi));
      judge(refuses([&] { return arg.argValid(v); }), valid, str("int argument ", v, " within ", lo, " to ", hi));
    }
  }
}

static void doubleProps() {
  PropertyDouble p;
  ArgumentDouble arg;
  double lo = numeric_limits<double>::lowest(), hi = numeric_limits<double>::max(), inf = numeric_limits<double>::infinity();
  for (int t = 0; t < 6; ++t) {
    if (coin(0.7)) {
      double x = anyDouble();
      bool low = coin();
      (low ? lo : hi) = x;
      op("double ", low ? "MIN" : "MAX", " ", x);
      p.setPropOption(low ? "MIN" : "MAX", x);
      arg.setArgPropertyOpt("PROPERTY_DOUBLE", low ? string("MIN") : string("MAX"), x);
    }
    if (p.getPropOption("MIN") != lo || p.getPropOption("MAX") != hi) fail("the limits of a double are not those that were set");
    if (!threw([&] { p.setPropOption("MINIMUM", 1); }) || !threw([&] { p.getPropOption("max"); }) || !threw([&] { arg.setArgPropertyOpt("PROPERTY_DOUBLE", string("max"), 3.0); }))
      fail("an unknown option of a double is accepted");
    vector<double> vals = {lo, hi, anyDouble(), anyDouble(), 0.0, nextafter(lo, -inf), nextafter(hi, inf), nextafter(lo, inf), nextafter(hi, -inf), inf, -inf};
    for (double v : vals) {
      bool valid = v >= lo && v <= hi;
      judge(refuses([&] { return p.propValid(v); }), valid, str("double ", v, " within ", lo, " to ", hi));
      judge(refuses([&] { return arg.argValid(v); }), valid, str("double argument ", v, " within ", lo, " to ", hi));
    }
  }
}

static string word(int n) {
  string s;
  for (int i = 0; i < n; ++i) s += "abcXYZ019_-. "[ri(0, 12)];
  return s;
}

static void stringProps() {
  PropertyString p;
  size_t lo = 0, hi = static_cast<size_t>(-1);
  for (int t = 0; t < 5; ++t) {
    bool low = coin();
    size_t x = coin(0.8) ? ri(0, 12) : pick(vector<size_t>{size_t(1) << 31, (size_t(1) << 31) - 1, size_t(1) << 32, (size_t(1) << 32) + 3, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, 70000});
    (low ? lo : hi) = x;
    op("string ", low ? "MIN_LENGTH " : "MAX_LENGTH ", x);
    p.setPropOption(low ? "MIN_LENGTH" : "MAX_LENGTH", x);
    if (p.getPropOption("MIN_LENGTH") != lo || p.getPropOption("MAX_LENGTH") != hi) fail("the lengths of a string are not those that were set");
    if (!threw([&] { p.setPropOption("LENGTH", 1); })) fail("an unknown option of a string is accepted");
    const size_t big = 100000;
    for (size_t n : {size_t(0), lo < big ? lo : 5, lo && lo < big ? lo - 1 : 0, lo < big ? lo + 1 : 4, hi < big ? hi : 20, hi < big ? hi + 1 : 30, hi && hi < big ? hi - 1 : 3, size_t(ri(0, 20))}) {
      bool valid = n >= lo && n <= hi;
      judge(refuses([&] { return p.propValid(word(n)); }), valid, str("string of ", n, " within ", lo, " to ", hi));
    }
  }
  // choices
  PropertyStringChoice c;
  ArgumentString arg;
  set<string> choices;
  bool enforced = false, known = false;
  vector<string> words;
  for (int i = 0; i < 6; ++i) words.push_back(word(ri(0, 6)));
  words.insert(words.end(), {"Alpha", "Beta", "alpha", "HOMO", "true", "false"});
  for (int t = 0; t < 8; ++t) {
    if (coin(0.4)) {
      enforced = coin(0.75);
      string v = enforced ? "true" : "false";
      op("choice enforced ", v);
      if (coin()) c.setPropOption("STRING_CHOICE_ENFORCED", v);
      else c.setPropOption("STRING_CHOICE_ENFORCED", set<string>{v});
      if (coin()) arg.setArgPropertyOpt("PROPERTY_STRING_CHOICE", string("STRING_CHOICE_ENFORCED"), v);
      else arg.setArgPropertyOpt("PROPERTY_STRING_CHOICE", string("STRING_CHOICE_ENFORCED"), set<string>{v});
    }
    if (coin(0.5)) {
      choices.clear();
      known = true;
      int n = ri(1, 4);
      for (int i = 0; i < n; ++i) choices.insert(pick(words));
      op("choices ", choices.size());
      if (choices.size() == 1 && coin()) c.setPropOption("STRING_CHOICES", *choices.begin());
      else c.setPropOption("STRING_CHOICES", choices);
      arg.setArgPropertyOpt("PROPERTY_STRING_CHOICE", string("STRING_CHOICES"), choices);
    }
    if (known && c.getPropOption("STRING_CHOICES") != choices) fail("the choices are not those that were set");
    if (c.getPropOption("STRING_CHOICE_ENFORCED") != set<string>{enforced ? "true" : "false"}) fail("whether choices are enforced is not what was set");
    if (!threw([&] { c.setPropOption("STRING_CHOICE_ENFORCED", string("maybe")); }) || !threw([&] { c.setPropOption("STRING_CHOICE_ENFORCED", set<string>{"true", "false"}); }) || !threw([&] { c.setPropOption("CHOICES", choices); }) || !threw([&] { c.setPropOption("CHOICES", string("a")); }))
      fail("an unknown option or value for choices is accepted");
    for (auto &w : words) {
      bool valid = !enforced || choices.count(w);
      judge(refuses([&] { return c.propValid(w); }), valid, str("choice ", w, enforced ? " enforced among " : " among ", choices.size()));
      judge(refuses([&] { return arg.argValid(w); }), valid, str("string argument ", w, enforced ? " enforced among " : " among ", choices.size()));
    }
  }
}

static void switchProps() {
  PropertySwitch p;
  ArgumentSwitch arg;
  for (int v : {0, 1, 2, -1, anyInt(), anyInt()}) judge(refuses([&] { return p.propValid(v); }), v == 0 || v == 1, str("switch ", v));
  map<string, int> good = {{"ON", 1}, {"OFF", 0}, {"TRUE", 1}, {"FALSE", 0}, {"1", 1}, {"0", 0}};
  vector<string> words = {"ON", "OFF", "TRUE", "FALSE", "1", "0", "on", "off", "", "2", "-1", "01", "ON ", " OFF", "TRUEFALSE", "yes", "O", "On", "Off", "oN", "OFf", "True", "true", "false", "False", " ON", "ON\n", "\tTRUE", "+1", "-0", "00", "1.0", "1 ", " 0", "OF", "OFFF", "TRU", "FALSEE", string("ON\0", 3), "NO", "no", word(ri(1, 4))};
  for (auto &g : good) {
    // one letter more, less or another one
    string w = g.first;
    size_t at = ri(0, w.size() - 1);
    int kind = ri(0, 3);
    if (kind == 0) w[at] ^= 0x20;
    else if (kind == 1) w.erase(at, 1);
    else if (kind == 2) w.insert(at, 1, "ONFTRUE01 "[ri(0, 9)]);
    else swap(w[at], w[ri(0, w.size() - 1)]);
    words.push_back(w);
  }
  for (auto &w : words) {
    bool valid = good.count(w);
    op("switch ", w);
    judge(refuses([&] { return p.propValid(w); }), valid, "switch " + w);
    judge(refuses([&] { return arg.argValid(w); }), valid, "switch argument " + w);
    if (valid) {
      if (arg.positive(w) != (good[w] == 1)) fail("switch ", w, " is read as ", !good[w]);
    } else if (!threw([&] { arg.positive(w); }))
      fail("the meaning of switch ", w, " is not refused");
  }
  if (!arg.positive(1) || arg.positive(0)) fail("a switch of 1 is not on, or one of 0 not off");
  if (arg.requiresParameter()) fail("a switch needs a value");
  string d = coin() ? "ON" : "OFF";
  p.setPropOption("DEFAULT", d);
  if (p.getPropOption("DEFAULT") != d) fail("the default of a switch is not the one that was set");
  if (!threw([&] { p.setPropOption("default", "ON"); })) fail("an unknown option of a switch is accepted");
}

static string someDir() {
  static const vector<string> d = {"", "./", "d1/", "d.log/", "./d1/../d1/", "d.x/e.y/", "d 1/", "d.log/.h/"};
  static bool made = false;
  if (!made) {
    made = true;
    for (const char *x : {"d1", "d.log", "d.x", "d.x/e.y", "d 1", "d.log/.h"}) mkdir(x, 0700);
  }
  return pick(d);
}

static const vector<string> exts = {".pun", ".log", ".7", ".orb", ".gz", "", ".LOG", ".lo", ".logs", ".l*g", ".*"};

// nearly an extension that is known
static string nearExt() {
  string e = pick(vector<string>{".pun", ".log", ".7", ".orb"});
  switch (ri(0, 5)) {
    case 0: return e + static_cast<char>(pick(vector<int>{'0', '7', 'a', 's', 'g', '~', '-'}));
    case 1: return e.substr(0, e.size() - 1);
    case 2: { char &c = e[ri(1, e.size() - 1)]; c = isalpha(c) ? toupper(c) : '8'; return e; }
    case 3: return e + e;
    case 4: return "." + e;
    default: swap(e[ri(1, e.size() - 1)], e.back()); return e;
  }
}

static string someFile() {
  static const vector<string> stems = {"a", "mol", "a.b", "x.pun", "c.log", "a b", "-x", "0", "a..b", "file.with.dots", ".hidden", " lead", "two  blanks", "\xc3\xa9t\xc3\xa9", string(120, 'n')};
  return someDir() + pick(stems) + (coin(0.15) ? nearExt() : pick(exts));
}

static string extOf(const string &path) {
  size_t s = path.rfind('/');
  string f = s == string::npos ? path : path.substr(s + 1);
  size_t d = f.rfind('.');
  return d == string::npos ? "" : f.substr(d);
}

static void extProps() {
  ArgumentFile arg;
  set<string> allowed = {"*"};
  PropertyFileExt p0;
  for (int t = 0; t < 3; ++t) {
    string f = someFile();
    judge(refuses([&] { return p0.propValid(f); }), true, "any extension " + f);
  }
  for (int t = 0; t < 4; ++t) {
    allowed.clear();
    int n = ri(1, 4);
    for (int i = 0; i < n; ++i) allowed.insert(pick(exts));
    if (coin(0.1)) allowed.insert("*");
    bool any = allowed.count("*");
    op("extensions ", allowed.size(), " any ", any);
    arg.setArgPropertyOpt("PROPERTY_FILE_EXT", string("ALLOWED_FILE_EXT"), allowed);
    PropertyFileExt p(allowed), q, one(*allowed.begin());
    q.setPropOption("ALLOWED_FILE_EXT", allowed);
    if (p.getPropOption("ALLOWED_FILE_EXT") != allowed || q.getPropOption("ALLOWED_FILE_EXT") != allowed) fail("the extensions are not those that were set");
    for (int k = 0; k < 8; ++k) {
      string f = someFile(), e = extOf(f);
      bool valid = any || allowed.count(e);
      string what = str("file ", f, " for ", allowed.size(), " extensions from ", *allowed.begin());
      judge(refuses([&] { return p.propValid(f); }), valid, what);
      judge(refuses([&] { return q.propValid(f); }), valid, "set " + what);
      judge(refuses([&] { return arg.argValid(f); }), valid, "argument " + what);
      judge(refuses([&] { return one.propValid(f); }), *allowed.begin() == "*" || *allowed.begin() == e, "single " + what);
    }
    if (!threw([&] { q.setPropOption("EXT", allowed); }) || !threw([&] { q.setPropOption("EXT", string(".a")); })) fail("an unknown option of extensions is accepted");
  }
  for (string bad : {"log", "a.log", ".tar.gz", "x*"}) {
    judge(threw([&] { PropertyFileExt p(bad); }), false, "malformed extension " + bad);
    judge(threw([&] { PropertyFileExt p(set<string>{".pun", bad}); }), false, "malformed extension among others " + bad);
  }
}

static void existProps() {
  bool must = coin();
  PropertyFileExist p(must ? 1 : 0), dflt;
  ArgumentFile arg;
  arg.setArgPropertyOpt("PROPERTY_FILE_EXIST", string("FILE_MUST_EXIST"), must ? 1 : 0);
  // nothing was given yet
  judge(threw([&] { p.postCheck(); }), !must, str("no file at all, required ", must));
  judge(threw([&] { arg.postArgCheck(); }), !must, str("no file argument at all, required ", must));
  for (int t = 0; t < 6; ++t) {
    if (coin(0.2)) {
      must = !must;
      p.setPropOption("FILE_MUST_EXIST", must ? 1 : 0);
      arg.setArgPropertyOpt("PROPERTY_FILE_EXIST", string("FILE_MUST_EXIST"), must ? 1 : 0);
    }
    string f = someFile();
    if (coin()) touch(f);
    else unlink(f.c_str());
    // a file of nearly the same name is another file
    if (coin(0.3)) {
      string g = f;
      switch (ri(0, 5)) {
        case 0: f += pick(vector<string>{" ", "\t", ".", "~", "\n"}); break;
        case 1: f.insert(f.rfind('/') == string::npos ? 0 : f.rfind('/') + 1, " "); break;
        case 2: f.back() = isupper(f.back()) ? tolower(f.back()) : toupper(f.back()); break;
        case 3: f.pop_back(); break;
        case 4: f = '"' + f + '"'; break;
        default: f += "/";
      }
      if (f.empty()) f = g;
    }
    bool there = isThere(f);
    op("existence of ", f, " ", there, " required ", must);
    judge(refuses([&] { return p.propValid(f); }), !must || there, str("required ", must, " file ", f, " there ", there));
    judge(refuses([&] { return arg.argValid(f); }), !must || there, str("required ", must, " file argument ", f, " there ", there));
    judge(refuses([&] { return dflt.propValid(f); }), true, "file without rules " + f);
    if ((p.getPropOption("FILE_DOES_EXIST") == 1) != there) fail("file ", f, " is reported as ", there ? "missing" : "existing");
    if ((dflt.getPropOption("FILE_DOES_EXIST") == 1) != there) fail("file ", f, " without rules is reported as ", there ? "missing" : "existing");
    judge(threw([&] { p.postCheck(); }), !must || there, str("afterwards, required ", must, " there ", there));
    judge(threw([&] { arg.postArgCheck(); }), !must || there, str("argument afterwards, required ", must, " there ", there));
  }
}

static void sisterProps() {
  PropertySisterFile p;
  ArgumentFile arg;
  vector<string> list;
  for (int t = 0; t < 6; ++t) {
    if (t == 0 || coin(0.4)) {
      list.clear();
      int n = ri(1, 4);
      vector<string> all = {".pun", ".log", ".7", ".orb", ".gz"};
      shuffle(all.begin(), all.end(), rng);
      list.assign(all.begin(), all.begin() + n);
      op("companions ", n);
      if (n == 1 && coin()) p.setPropOption("ALLOWED_SISTER_FILE_EXT", list[0]);
      else p.setPropOption("ALLOWED_SISTER_FILE_EXT", list);
      arg.setArgPropertyOpt("PROPERTY_SISTER_FILE", string("ALLOWED_SISTER_FILE_EXT"), list);
      if (p.getPropOption("ALLOWED_SISTER_FILE_EXT") != list) fail("the extensions of companions are not those that were set");
    }
    string f = someFile();
    size_t s = f.rfind('/');
    string dir = s == string::npos ? "" : f.substr(0, s + 1), base = f.substr(dir.size());
    size_t d = base.rfind('.');
    string stem = d == string::npos ? base : base.substr(0, d);
    vector<string> names, paths, dirs, there;
    for (auto &e : list) {
      string c = dir + stem + e;
      if (coin()) touch(c);
      else unlink(c.c_str());
    }
    for (auto &e : list) {
      names.push_back(stem + e);
      dirs.push_back(dir);
      paths.push_back(dir + stem + e);
      there.push_back(isThere(dir + stem + e) ? "true" : "false");
    }
    op("companions of ", f);
    if (refuses([&] { return p.propValid(f); }) || refuses([&] { return arg.argValid(f); })) fail("looking for the companions of ", f, " is refused");
    auto look = [&](const char *o, const vector<string> &want) {
      auto got = p.getPropOption(o);
      if (got != want) {
        string g, w;
        for (auto &x : got) g += "[" + x + "]";
        for (auto &x : want) w += "[" + x + "]";
        fail(o, " of ", f, " is ", g, " instead of ", w);
      }
      // the same through the argument
      string joined, got2 = arg.getPropertyValues("PROPERTY_SISTER_FILE", o);
      for (auto &x : want) joined += (joined.size() ? " " : "") + x;
      if (dir.find(' ') == string::npos && stem.find(' ') == string::npos && trimmed(joined) != trimmed(got2)) fail(o, " of argument ", f, " is ", got2, " instead of ", joined);
      seen(o, " ", f, " ", want.size());
    };
    look("SISTER_FILE_NAME", names);
    look("SISTER_FILE_PATH_NAME", paths);
    look("SISTER_FILE_EXISTS", there);
    auto got = p.getPropOption("SISTER_FILE_PATH");
    if (got != dirs) fail("directory of the companions of ", f);
    tally("companions looked for", list.size());
    for (const char *o : {"SISTER_FILE_NAME", "SISTER_FILE_PATH", "SISTER_FILE_PATH_NAME", "SISTER_FILE_EXISTS", "OTHER"})
      if (!threw([&] { p.setPropOption(o, string(".x")); }) || !threw([&] { p.setPropOption(o, vector<string>{".x"}); })) fail(o, " can be set from outside");
    if (!threw([&] { p.setPropOption("ALLOWED_SISTER_FILE_EXT", string("log")); }) || !threw([&] { p.setPropOption("ALLOWED_SISTER_FILE_EXT", vector<string>{".a", "b.c"}); })) fail("a malformed extension of companions is accepted");
  }
}

// ---------------------------------------------------------------- parser

struct Flag {
  string full, abbr, desc, type;
  bool limited = false, def = false;
  int lo = INT_MIN, hi = INT_MAX, idef = 0;
  double dlo = 0, dhi = 0, ddef = 0;
  set<string> choices;  // or extensions
  string sdef;
  bool must = false;
  vector<string> sisters;
  // what the command line gave
  bool given = false;
  int i = 0;
  double d = 0;
  string s;
};

static string ident(int n) {
  string s;
  for (int i = 0; i < n; ++i) s += "abcdefgijklmnopqrstuwxyz"[ri(0, 23)];
  return s;
}

// nearly the name of a flag
static string nearFlag(const string &f) {
  string m = f;
  size_t i = ri(0, m.size() - 1);
  switch (ri(0, 10)) {
    case 0: m.erase(i, 1); break;
    case 1: m.insert(i, 1, m[i]); break;
    case 2: m = pick(vector<string>{" ", "\t", "\n", "  ", "\xe2\x80\x8b"}) + m; break;
    case 3: m += pick(vector<string>{" ", "\t", "\n", "  ", "\r", "\xc2\xa0"}); break;
    case 4: m.erase(0, 1); break;
    case 5: m = "-" + m; break;
    case 6: m[i] = toupper(m[i]); break;
    case 7: if (i) swap(m[i], m[i - 1]); break;
    case 8: m += pick(vector<string>{"=", "=1", ":", ",", "."}); break;
    case 9: m = m.substr(0, i); break;
    default: m.insert(i, 1, pick(vector<char>{' ', '-', '_', 'e'}));
  }
  return m;
}

static void parserScenario() {
  bool many = coin(0.008);
  int n = many ? ri(41, 300) : ri(1, 8);
  vector<Flag> fl(n);
  set<string> used = {"help", "version", "citation", "h", "v", "cite"};
  set<vector<string>> defs;
  for (auto &f : fl) {
    string a, b;
    string base = coin(0.1) ? pick(fl).full : "";
    if (base.size()) base.erase(0, 2);
    if (base.size() > 1 && coin()) base.pop_back();
    do a = base + ident(coin(0.85) ? ri(1, 9) : ri(10, 70)) + (coin(0.3) ? "_" + ident(1) : ""); while (!used.insert(a).second);
    f.full = "--" + a;
    if (coin(0.8)) {
      // some differ from another one in nothing but their end
      string stem = coin(0.1) ? pick(fl).abbr : "";
      if (stem.size()) stem.erase(0, 1);
      if (stem.size() > 1 && coin()) stem.pop_back();
      do b = stem + ident(coin(0.85) ? ri(1, 4) : ri(5, 40)); while (!used.insert(b).second);
      f.abbr = "-" + b;
    }
    if (coin(0.8)) {
      int w = coin(0.9) ? ri(1, 25) : ri(26, 200);
      static const vector<string> common = {"the", "a", "of", "I", "0", "HOMO", "By", "-1.", "(and", "to"};
      for (int i = 0; i < w; ++i) f.desc += (i ? " " : "") + (coin(0.3) && i ? pick(common) : ident(coin(0.97) ? ri(1, 10) : ri(11, 90)));
    }
    vector<string> v = {f.full};
    if (f.abbr.size()) v.push_back(f.abbr);
    if (f.desc.size()) v.push_back(f.desc);
    shuffle(v.begin(), v.end(), rng);
    if (coin(0.2)) for (auto &x : v) x = " " + x + "  ";
    defs.insert(v);
    f.type = pick(vector<string>{"INT", "DOUBLE", "STRING", "SWITCH", "FILE"});
  }
  op("parser with ", n, " flags");
  auto setup = [&](ArgumentParser &P) {
    for (auto &f : fl) {
      string arg = "ARGUMENT_" + f.type;
      if (f.type == "INT") {
        if (f.limited) {
          bool first = coin();
          if (first) P.setFlagArgOpt(f.full, arg, "PROPERTY_INT", "MIN", f.lo);
          P.setFlagArgOpt(f.full, arg, "PROPERTY_INT", "MAX", f.hi);
          if (!first) P.setFlagArgOpt(f.full, arg, "PROPERTY_INT", "MIN", f.lo);
        } else
          P.addFlagArg(f.full, arg);
        // the default set last is the default
        if (f.def && coin(0.2)) P.setFlagDefaultValue(f.full, anyInt());
        if (f.def) P.setFlagDefaultValue(f.full, f.idef);
      } else if (f.type == "DOUBLE") {
        if (f.limited) {
          bool first = coin();
          if (first) P.setFlagArgOpt(f.full, arg, "PROPERTY_DOUBLE", "MIN", f.dlo);
          P.setFlagArgOpt(f.full, arg, "PROPERTY_DOUBLE", "MAX", f.dhi);
          if (!first) P.setFlagArgOpt(f.full, arg, "PROPERTY_DOUBLE", "MIN", f.dlo);
        } else
          P.addFlagArg(f.full, arg);
        if (f.def && coin(0.2)) P.setFlagDefaultValue(f.full, rd(-9, 9));
        if (f.def) P.setFlagDefaultValue(f.full, f.ddef);
      } else if (f.type == "STRING") {
        if (f.limited) {
          bool first = coin();
          if (first) P.setFlagArgOpt(f.full, arg, "PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", string("true"));
          P.setFlagArgOpt(f.full, arg, "PROPERTY_STRING_CHOICE", "STRING_CHOICES", f.choices);
          if (!first) P.setFlagArgOpt(f.full, arg, "PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", string("true"));
        } else
          P.addFlagArg(f.full, arg);
        if (f.def && coin(0.2)) P.setFlagDefaultValue(f.full, ident(5));
        if (f.def) P.setFlagDefaultValue(f.full, f.sdef);
      } else if (f.type == "SWITCH") {
        if (f.limited) P.setFlagArgOpt(f.full, arg, "PROPERTY_SWITCH", "DEFAULT", string("OFF"));
        else P.addFlagArg(f.full, arg);
        if (f.def) {
          if (coin(0.2)) {
            if (f.sdef.size()) P.setFlagDefaultValue(f.full, string(coin() ? "ON" : "OFF"));
            else P.setFlagDefaultValue(f.full, int(ri(0, 1)));
          }
          if (f.sdef.size()) P.setFlagDefaultValue(f.full, f.sdef);
          else P.setFlagDefaultValue(f.full, f.idef);
        }
      } else {
        if (f.limited) {
          // the rules hold in whatever order they are set
          vector<function<void()>> rules = {
              [&] {
                if (f.choices.size() == 1) P.setFlagArgOpt(f.full, arg, "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", *f.choices.begin());
                else P.setFlagArgOpt(f.full, arg, "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", f.choices);
              },
              [&] { P.setFlagArgOpt(f.full, arg, "PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", f.must ? 1 : 0); }};
          if (f.sisters.size())
            rules.push_back([&] { P.setFlagArgOpt(f.full, arg, "PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", f.sisters); });
          if (f.sisters.size() == 1 && coin())
            rules.back() = [&] { P.setFlagArgOpt(f.full, arg, "PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", f.sisters[0]); };
          shuffle(rules.begin(), rules.end(), rng);
          for (auto &r : rules) r();
        } else
          P.addFlagArg(f.full, arg);
        if (f.def && coin(0.2)) P.setFlagDefaultValue(f.full, ident(5));
        if (f.def) P.setFlagDefaultValue(f.full, f.sdef);
      }
    }
  };
  for (auto &f : fl) {
    f.limited = coin();
    f.def = coin();
    f.lo = ri(-20, 0);
    f.hi = ri(0, 20);
    f.dlo = rd(-5, 0);
    f.dhi = rd(0, 5);
    f.idef = f.type == "SWITCH" ? ri(0, 1) : anyInt();
    f.ddef = rd(-9, 9);
    if (f.type == "FILE") {
      int k = ri(1, 3);
      for (int i = 0; i < k; ++i) f.choices.insert(pick(vector<string>{".pun", ".log", ".7"}));
      f.must = coin(many ? 0.004 : 0.3);
      int c = ri(0, 3);
      vector<string> all = {".pun", ".log", ".7", ".orb", ".gz"};
      shuffle(all.begin(), all.end(), rng);
      f.sisters.assign(all.begin(), all.begin() + c);
      f.sdef = "default.file";
    } else {
      int k = ri(1, 4);
      for (int i = 0; i < k; ++i) f.choices.insert(ident(ri(1, 5)));
      f.sdef = f.type == "SWITCH" ? (coin() ? string(coin() ? "ON" : "OFF") : string()) : ident(4);
    }
  }
  // malformed definitions of flags
  if (coin(0.15)) {
    auto bad = defs;
    vector<string> v;
    string kind;
    switch (ri(0, 4)) {
      case 0: kind = "four parts"; v = {"--zz", "-zz", "text", "more"}; break;
      case 1: kind = "no name"; v = {"-zz", "text"}; break;
      case 2: kind = "two names"; v = {"--zz", "--zy", "text"}; break;
      case 3: kind = "two abbreviations"; v = {"--zz", "-zz", "-zy"}; break;
      default: kind = "two descriptions"; v = {"--zz", "text", "more"};
    }
    bad.insert(v);
    if (!threw([&] { ArgumentParser P(bad); })) fail("a flag with ", kind, " is accepted");
    seen("flag with ", kind, " among ", n);
  }
  ArgumentParser P(defs);
  setup(P);
  {
    const Flag &f = pick(fl);
    string arg = "ARGUMENT_" + f.type;
    if (!threw([&] { P.addFlagArg(f.full, arg); })) fail("the same kind of argument is added twice to ", f.full);
    if (!threw([&] { P.addFlagArg(f.full, "ARGUMENT_OTHER"); })) fail("an unknown kind of argument is accepted");
    if (!threw([&] { P.setFlagArgOpt(f.full, "ARGUMENT_OTHER", "PROPERTY_INT", "MIN", 3); })) fail("a rule for an unknown kind of argument is accepted");
    if (!threw([&] { P.getFlagArgOptValue(f.full, "ARGUMENT_OTHER", "PROPERTY_INT", "MIN"); })) fail("a rule of an unknown kind of argument is reported");
    if (f.type == "INT" && f.limited && (P.getFlagArgOptValue(f.full, arg, "PROPERTY_INT", "MIN") != to_string(f.lo) || P.getFlagArgOptValue(f.full, arg, "PROPERTY_INT", "MAX") != to_string(f.hi))) fail("limits of ", f.full, " are reported wrong");
    if (f.type == "DOUBLE" && f.limited && fabs(stod(P.getFlagArgOptValue(f.full, arg, "PROPERTY_DOUBLE", "MIN")) - f.dlo) > 1e-5) fail("limits of ", f.full, " are reported wrong");
    if (f.type == "STRING" && f.limited) {
      string w;
      for (auto &c : f.choices) w += (w.size() ? " " : "") + c;
      if (P.getFlagArgOptValue(f.full, arg, "PROPERTY_STRING_CHOICE", "STRING_CHOICES") != w) fail("choices of ", f.full, " are reported wrong");
    }
    seen("definition ", f.type, " ", f.limited);
  }
  // the usage shows every flag
  if (coin(0.3)) {
    ostringstream out;
    auto *old = cout.rdbuf(out.rdbuf());
    P.showUsage();
    cout.rdbuf(old);
    vector<string> words;
    { istringstream in(out.str()); string w; while (in >> w) words.push_back(w); }
    auto help = fl;
    Flag h;
    h.full = "--help"; h.abbr = "-h"; h.desc = "";
    help.push_back(h);
    for (auto &f : help) {
      auto it = find(words.begin(), words.end(), f.full);
      if (it == words.end()) { fail("the usage does not show ", f.full); break; }
      ++it;
      vector<string> want;
      if (f.abbr.size()) want.push_back(f.abbr);
      istringstream in(f.desc);
      string w;
      if (f.abbr.empty() && f.desc.size()) {
        // something may stand for the missing abbreviation
        if (it != words.end()) {
          string first;
          istringstream(f.desc) >> first;
          if (*it != first) ++it;
        }
      }
      while (in >> w) want.push_back(w);
      for (auto &x : want) {
        if (it == words.end() || *it != x) { fail("the usage of ", f.full, " lacks ", x); break; }
        ++it;
      }
    }
    seen("usage ", n);
  }
  // a command line
  vector<string> line = {"prog"};
  string problem;
  int tokens = many || coin(0.01) ? ri(30, 400) : ri(1, 10);
  int wrongAt = coin(0.35) ? ri(0, tokens - 1) : -1;
  auto spell = [&](const Flag &f) { return f.abbr.size() && coin() ? f.abbr : f.full; };
  set<string> flagNames = {"--help", "-h"};
  for (auto &f : fl) { flagNames.insert(f.full); if (f.abbr.size()) flagNames.insert(f.abbr); }
  for (int t = 0; t < tokens && problem.empty(); ++t) {
    Flag &f = fl[ri(0, n - 1)];
    bool wrong = t == wrongAt;
    if (wrong && coin(0.35)) {
      int w = ri(0, 5);
      if (w == 0) { problem = "unknown flag"; line.push_back("--" + ident(12)); if (coin()) line.push_back("5"); }
      else if (w == 1) { problem = "unknown abbreviation"; line.push_back("-" + ident(11)); }
      else if (w == 2) {
        problem = "value without a flag";
        // after a switch it would be the value of that switch
        for (auto &g : fl) if (g.type == "SWITCH" && (line.back() == g.full || line.back() == g.abbr)) line.push_back("OFF");
        line.push_back(ident(6));
      } else {
        problem = "misspelled flag";
        string m;
        do m = nearFlag(spell(f));
        while (flagNames.count(m) || m == "--version" || m == "-v" || m == "-version" || m == "--citation" || m == "-cite");
        problem += " '" + m + "'";
        line.push_back(m);
        if (coin(0.3)) line.push_back(pick(vector<string>{"5", "ON", "1.5", ident(3)}));
      }
      break;
    }
    line.push_back(spell(f));
    if (wrong && f.type != "SWITCH" && coin(0.2)) {
      problem = "missing value";
      break;
    }
    f.given = true;
    if (f.type == "INT") {
      int v = f.limited ? ri(f.lo, f.hi) : anyInt();
      string s = to_string(v);
      // zeros in front do not change a number
      if (coin(0.1)) s.insert(v < 0 ? 1 : 0, string(ri(1, 12), '0'));
      if (wrong) {
        vector<string> bad = {"abc", "3.5", "12x", "99999999999", "-99999999999", "", "--5", "1 2", "0x", "0x10", "0b1", "1e1", "-", "+"};
        s = pick(bad);
        problem = "int " + s;
        if (f.limited && coin()) {
          bool low = coin();
          int o = ri(1, 3);
          s = to_string(low ? f.lo - o : f.hi + o);
          problem = str("int ", s, " beyond ", f.lo, " to ", f.hi);
        }
      }
      f.i = v;
      line.push_back(s);
    } else if (f.type == "DOUBLE") {
      double v = f.limited ? rd(f.dlo, f.dhi) : anyDouble();
      if (v != 0 && fabs(v) < 1e-300) v = 0.5 * (f.limited ? f.dhi : 1);
      if (f.limited && coin(0.1)) v = coin() ? f.dlo : f.dhi;
      char b[64];
      snprintf(b, sizeof b, coin() ? "%.17g" : "%.17e", v);
      string s = b;
      if (wrong) {
        vector<string> bad = {"abc", "1.5q", "", "1e999", "1.2.3", "--1", "e5", "1,5", "1.5d", "2f", "3.L", "1e5e", "0x", "1.5 1", "-"};
        s = pick(bad);
        problem = "double " + s;
        if (f.limited && coin()) {
          bool low = coin();
          snprintf(b, sizeof b, "%.17g", low ? nextafter(f.dlo, -1e9) : nextafter(f.dhi, 1e9));
          s = b;
          problem = str("double ", s, " beyond ", f.dlo, " to ", f.dhi);
        }
      }
      f.d = v;
      line.push_back(s);
    } else if (f.type == "STRING") {
      string s = ident(ri(1, 6)) + (coin(0.2) ? " " + ident(2) : "") + (coin(0.1) ? "-5" : "");
      if (coin(0.05)) s = "";
      if (f.limited) { vector<string> c(f.choices.begin(), f.choices.end()); s = pick(c); }
      if (wrong) {
        if (!f.limited) { f.s = s; line.push_back(s); continue; }
        do s = ident(ri(1, 5)); while (f.choices.count(s));
        if (coin(0.3)) s = *f.choices.begin() + (coin() ? " " : "x");
        if (f.choices.count(s)) s += "yyyyyy";
        problem = "choice " + s;
      }
      f.s = s;
      line.push_back(s);
    } else if (f.type == "SWITCH") {
      if (wrong) {
        string s = pick(vector<string>{"on", "2", "yes", "OFFF", ""});
        problem = "switch " + s;
        line.push_back(s);
        break;
      }
      if (coin()) {
        vector<pair<string, int>> v = {{"ON", 1}, {"OFF", 0}, {"TRUE", 1}, {"FALSE", 0}, {"1", 1}, {"0", 0}};
        auto p = pick(v);
        f.i = p.second;
        f.s = p.first;
        line.push_back(p.first);
      } else {
        f.i = 1;
        f.s = "ON";
      }
    } else {
      string e = f.limited ? pick(vector<string>(f.choices.begin(), f.choices.end())) : pick(exts);
      string s = someDir() + ident(tokens > 20 ? 9 : 2) + (coin(0.2) ? ".x" : "") + e;
      bool there = f.limited && f.must ? true : coin();
      if (wrong) {
        if (!f.limited) wrong = false;
        else if (f.must && coin()) { there = false; problem = "missing file " + s; }
        else if (coin(0.2)) { s = ""; problem = "a name without letters"; }
        else { s += ".bad"; problem = "extension of " + s; }
      }
      if (!f.limited && coin(0.05)) s = "";
      if (there && s.size()) touch(s);
      else unlink(s.c_str());
      f.s = s;
      line.push_back(s);
    }
  }
  // files that must be there but were not mentioned
  if (problem.empty())
    for (auto &f : fl)
      if (f.type == "FILE" && f.limited && f.must && !f.given) problem = "required file not given";
  if (line.size() == 1) problem = "nothing given";
  string shown;
  for (size_t i = 1; i < line.size(); ++i) shown += " [" + line[i] + "]";
  op("command line", shown, problem.size() ? ", problem: " : "", problem);
  vector<const char *> argv;
  for (auto &s : line) argv.push_back(s.c_str());
  if (problem.size()) {
    auto e = forked([&]() -> string { P.parse(argv.data(), argv.size()); return ""; });
    if (!refused(e.end)) fail("a command line with ", problem, " is not refused (", name(e.end), "):", shown);
    seen("refused ", problem.substr(0, 40));
    tally("command lines refused");
    return;
  }
  try {
    P.parse(argv.data(), argv.size());
  } catch (const exception &x) {
    fail("a command line without a problem is refused:", shown, ": ", x.what());
    return;
  }
  tally("command lines accepted");
  for (auto &f : fl) {
    string bad;
    auto get = [&](function<void()> g) { if (threw(g)) bad = "has no value"; };
    if (f.given) {
      if (f.type == "INT") get([&] { if (P.getInt(f.full) != f.i) bad = str("is ", P.getInt(f.full), " instead of ", f.i); });
      if (f.type == "DOUBLE") get([&] { if (P.getDouble(f.full) != f.d) bad = str("is ", P.getDouble(f.full), " instead of ", f.d); });
      if (f.type == "STRING" || f.type == "FILE") get([&] { if (P.getStr(f.full) != f.s) bad = "is " + P.getStr(f.full) + " instead of " + f.s; });
      if (f.type == "SWITCH") {
        get([&] { if (P.getInt(f.full) != f.i) bad = str("is ", P.getInt(f.full), " instead of ", f.i); });
        get([&] { string s = P.getStr(f.full); if (s != f.s && s != (f.i ? "ON" : "OFF")) bad = "is " + s + " instead of " + f.s; });
      }
    } else if (f.def) {
      if (f.type == "INT") get([&] { if (P.getInt(f.full) != f.idef) bad = "is not the default"; });
      if (f.type == "DOUBLE") get([&] { if (P.getDouble(f.full) != f.ddef) bad = "is not the default"; });
      if (f.type == "STRING" || f.type == "FILE") get([&] { if (P.getStr(f.full) != f.sdef) bad = "is not the default"; });
      if (f.type == "SWITCH") {
        int w = f.sdef.size() ? f.sdef == "ON" : f.idef;
        get([&] { if (P.getInt(f.full) != w) bad = "is not the default"; });
        get([&] { if (P.getStr(f.full) != (w ? "ON" : "OFF")) bad = "is not the default"; });
      }
    } else {
      if (!threw([&] { P.getInt(f.full); }) || !threw([&] { P.getDouble(f.full); }) || !threw([&] { P.getStr(f.full); }) || !threw([&] { P.getSize_t(f.full); })) bad = "has a value although none was given and there is no default";
    }
    if (f.type == "FILE" && f.limited && f.given && f.sisters.size() && f.s.find(' ') == string::npos) {
      string want, stem = f.s.substr(0, f.s.size() - extOf(f.s).size());
      for (auto &e : f.sisters) want += (want.size() ? " " : "") + string(isThere(stem + e) ? "true" : "false");
      string got = trimmed(P.getFlagArgOptValue(f.full, "ARGUMENT_FILE", "PROPERTY_SISTER_FILE", "SISTER_FILE_EXISTS"));
      if (got != want) bad = "has companions " + got + " instead of " + want;
      tally("companions looked for", f.sisters.size());
    }
    if (f.type == "INT" || f.type == "SWITCH")
      if (!threw([&] { P.getDouble(f.full); })) bad = "has a double value";
    if (f.type == "STRING" || f.type == "FILE" || f.type == "DOUBLE")
      if (!threw([&] { P.getInt(f.full); })) bad = "has an int value";
    if (bad.size()) fail("flag ", f.full, " of type ", f.type, " ", bad, ":", shown);
    seen(f.type, " limited ", f.limited, " default ", f.def, " given ", f.given ? f.s.size() ? f.s : str(f.i, " ", f.d) : "no");
  }
  if (!threw([&] { P.getInt("--" + ident(12)); }) || !threw([&] { P.getStr("--" + ident(12)); })) fail("an unknown flag has a value");
  size_t big = rng();
  P.setFlagDefaultValue("--size", big);
  if (P.getSize_t("--size") != big) fail("a size_t default is not the one that was set");
}

// ---------------------------------------------------------------- settings

// The settings of a calculation hold what they were last given, each on its
// own, whatever is refused in between.
static void settingsScenario() {
  Parameters p;
  struct Text {
    string name;
    function<void(const string &)> set;
    function<string()> get;
    int kind;  // 0: any text, 1: log file, 2: coefficient file
    string val;
  };
  struct Number {
    string name;
    function<void(int)> set;
    function<int()> get;
    int val = 0;
  };
  vector<Text> texts;
  vector<Number> nums;
#define TEXT(N, K) texts.push_back({#N, [&](const string &v) { p.set##N(v); }, [&] { return p.get##N(); }, K, ""})
#define NUMBER(N) nums.push_back({#N, [&](int v) { p.set##N(v); }, [&] { return int(p.get##N()); }, 0})
  TEXT(Log1, 1); TEXT(Log2, 1); TEXT(LogP, 1);
  TEXT(Pun1, 2); TEXT(Pun2, 2); TEXT(PunP, 2);
  TEXT(Spin1, 0); TEXT(Spin2, 0); TEXT(SpinP, 0);
  TEXT(OrbType1, 0); TEXT(OrbType2, 0); TEXT(OrbTypeP, 0);
  NUMBER(OrbNum1); NUMBER(OrbNum2); NUMBER(OrbNumP);
  NUMBER(CounterPoise); NUMBER(Citation);
  Parameters other;
  int steps = ri(10, 60);
  for (int t = 0; t < steps; ++t) {
    if (coin(0.3)) {
      auto &n = nums[ri(0, nums.size() - 1)];
      bool flag = n.name == "CounterPoise" || n.name == "Citation";
      int v = flag ? ri(0, 1) : anyInt();
      op("set ", n.name, " ", v);
      n.set(v);
      n.val = v;
      seen(n.name, " ", v);
    } else {
      auto &x = texts[ri(0, texts.size() - 1)];
      string v = x.kind == 0 ? word(ri(0, 8)) : coin(0.1) ? string() : coin(0.1) ? word(ri(1, 3)) : someFile();
      // texts may be what another one is
      if (coin(0.15)) v = pick(texts).val;
      // texts have no longest length
      if (coin(0.08)) v = word(ri(200, 5000)) + (x.kind ? "/" : "") + v;
      if (x.kind == 1 && coin(0.5)) v += ".log";
      string e = extOf(v);
      // a file name that is nothing but an extension is nobody's business here
      size_t s = v.rfind('/');
      if (x.kind && (s == string::npos ? v : v.substr(s + 1)) == e) continue;
      bool good = x.kind == 0 || (x.kind == 1 ? e == ".log" : e == ".pun" || e == ".orb" || e == ".7");
      op("set ", x.name, " ", v);
      bool no = threw([&] { x.set(v); });
      judge(no, good, str(x.name, " ", v));
      if (good) x.val = v;
    }
    for (auto &x : texts)
      if (x.get() != x.val) { fail(x.name, " is ", x.get(), " instead of ", x.val); return; }
    for (auto &x : nums)
      if (x.get() != x.val) { fail(x.name, " is ", x.get(), " instead of ", x.val); return; }
    evals += texts.size() + nums.size();
    tally("settings read back", texts.size() + nums.size());
  }
  // a copy is a copy
  Parameters q = p;
  q.setSpin1("copied");
  q.setOrbNum2(12345);
  if (p.getSpin1() != texts[6].get() || p.getSpin1() == "copied" || q.getSpin1() != "copied" || q.getSpin2() != p.getSpin2()) fail("a copy of the settings is not independent");
}

// ---------------------------------------------------------------- rules

// The rules of an argument can be looked at, hold what they were last set to,
// and a refused change leaves all of them as they were.

struct Option {
  string prop, opt;
  char type;  // i int, d double, z size_t, s text, S set, V list
  bool settable;
  string now;        // i, z, s
  double dnow = 0;   // d
  vector<string> list;  // S (sorted), V
  bool known = true; // otherwise whatever it is at first stays
};

static vector<Option> optionsOf(const string &kind) {
  vector<Option> o;
  auto add = [&](const char *p, const char *n, char t, bool set, const string &now, double d = 0, bool known = true) {
    Option x{p, n, t, set, now};
    x.dnow = d;
    x.known = known;
    o.push_back(x);
  };
  if (kind == "INT") {
    add("PROPERTY_INT", "MIN", 'i', true, to_string(INT_MIN));
    add("PROPERTY_INT", "MAX", 'i', true, to_string(INT_MAX));
  } else if (kind == "DOUBLE") {
    add("PROPERTY_DOUBLE", "MIN", 'd', true, "", numeric_limits<double>::lowest());
    add("PROPERTY_DOUBLE", "MAX", 'd', true, "", numeric_limits<double>::max());
  } else if (kind == "STRING") {
    add("PROPERTY_STRING", "MIN_LENGTH", 'z', false, "0");
    add("PROPERTY_STRING", "MAX_LENGTH", 'z', false, to_string(static_cast<size_t>(-1)));
    add("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", 'S', true, "");
    o.back().list = {"false"};
    add("PROPERTY_STRING_CHOICE", "STRING_CHOICES", 'S', true, "", 0, false);
  } else if (kind == "SWITCH") {
    add("PROPERTY_SWITCH", "DEFAULT", 's', true, "OFF");
  } else {
    add("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", 'i', true, "0");
    add("PROPERTY_FILE_EXIST", "FILE_DOES_EXIST", 'i', false, "0");
    add("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", 'S', true, "");
    o.back().list = {"*"};
    add("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", 'V', true, "", 0, false);
    add("PROPERTY_SISTER_FILE", "SISTER_FILE_NAME", 'V', false, "", 0, false);
    add("PROPERTY_SISTER_FILE", "SISTER_FILE_PATH", 'V', false, "", 0, false);
    add("PROPERTY_SISTER_FILE", "SISTER_FILE_PATH_NAME", 'V', false, "", 0, false);
    add("PROPERTY_SISTER_FILE", "SISTER_FILE_EXISTS", 'V', false, "");
    o.back().list = {"false"};
  }
  return o;
}

// An argument, on its own or that of a flag of a parser
struct Handle {
  string kind, label;
  vector<Option> opts;
  function<void(string, string, int)> setI;
  function<void(string, string, double)> setD;
  function<void(string, string, string)> setT;
  function<void(string, string, set<string>)> setS;
  function<void(string, string, vector<string>)> setV;
  function<string(string, string)> get;
  function<map<string, string>()> all;  // not through a parser
  function<void()> shape;
  bool there = true;  // a flag has no kind before its first rule is accepted
};

static vector<string> tokens(const string &s, bool sorted) {
  vector<string> t;
  istringstream in(s);
  string w;
  while (in >> w) t.push_back(w);
  if (sorted) sort(t.begin(), t.end());
  return t;
}

static void agree(Handle &h, Option &o, const string &got, const char *how) {
  string what = h.label + " " + o.prop + " " + o.opt + how;
  if (!o.known) {
    o.list = tokens(got, o.type == 'S');
    o.known = true;
    return;
  }
  bool ok = true;
  string want = o.now;
  if (o.type == 'd') {
    char *end;
    double d = strtod(got.c_str(), &end);
    ok = end != got.c_str() && *end == 0 && (d == o.dnow || fabs(d - o.dnow) <= 5.1e-7 + 1e-12 * fabs(o.dnow));
    want = str(o.dnow);
  } else if (o.type == 'S' || o.type == 'V') {
    ok = tokens(got, o.type == 'S') == o.list;
    want = "";
    for (auto &x : o.list) want += (want.size() ? " " : "") + x;
  } else
    ok = got == o.now;
  ++evals;
  if (!ok) fail(what, " reads ", got, " instead of ", want);
}

static void agreeAll(vector<Handle> &hs) {
  for (auto &h : hs) {
    if (!h.there) {
      if (!threw([&] { h.get(h.opts[0].prop, h.opts[0].opt); })) fail(h.label, " has rules although none was accepted");
      continue;
    }
    map<string, string> all;
    if (h.all) all = h.all();
    for (auto &o : h.opts) {
      try {
        agree(h, o, h.get(o.prop, o.opt), "");
      } catch (const exception &x) {
        fail(h.label, " ", o.prop, " ", o.opt, " cannot be read: ", x.what());
      }
      if (h.all) {
        if (!all.count(o.opt)) fail(h.label, " ", o.opt, " is not among the values");
        else agree(h, o, all[o.opt], " among all values");
      }
    }
    if (h.all && all.size() != h.opts.size()) fail(h.label, " lists ", all.size(), " values of ", h.opts.size());
    tally("rules read back", h.opts.size());
  }
}

template <typename A>
static Handle handleOf(A &a, const string &kind, int i) {
  Handle h;
  h.kind = kind;
  h.label = str("argument ", i, " of kind ", kind);
  h.opts = optionsOf(kind);
  h.setI = [&a](string p, string o, int v) { a.setArgPropertyOpt(p, o, v); };
  h.setD = [&a](string p, string o, double v) { a.setArgPropertyOpt(p, o, v); };
  h.setT = [&a](string p, string o, string v) { a.setArgPropertyOpt(p, o, v); };
  h.setS = [&a](string p, string o, set<string> v) { a.setArgPropertyOpt(p, o, v); };
  h.setV = [&a](string p, string o, vector<string> v) { a.setArgPropertyOpt(p, o, v); };
  h.get = [&a](string p, string o) { return a.getPropertyValues(p, o); };
  h.all = [&a] { return a.getPropertyValues(); };
  h.shape = [&a, h] {
    if (a.getArgumentName() != "ARGUMENT_" + h.kind) fail(h.label, " is named ", a.getArgumentName());
    if (a.requiresParameter() != (h.kind != "SWITCH")) fail(h.label, h.kind == "SWITCH" ? " needs" : " does not need", " a value");
    multiset<string> props, opts, wp, wo;
    for (auto &x : a.getProperties()) props.insert(x);
    for (auto &x : a.getPropertyOptions()) opts.insert(x);
    set<string> once;
    for (auto &o : h.opts) {
      if (once.insert(o.prop).second) wp.insert(o.prop);
      wo.insert(o.opt);
    }
    if (props != wp) fail(h.label, " reports ", props.size(), " kinds of rules of ", wp.size());
    if (opts != wo) fail(h.label, " reports ", opts.size(), " options of ", wo.size());
    evals += 4;
  };
  return h;
}

static string noBlank() { return pick(vector<string>{"a", "Alpha", "beta", "HOMO", "x1", "-q", "--zz", "0", "*", ".pun", "NOT_DEFINED"}); }

static void rulesScenario() {
  static const vector<string> kinds = {"INT", "DOUBLE", "STRING", "SWITCH", "FILE"};
  // arguments of their own
  deque<ArgumentInt> ai;
  deque<ArgumentDouble> ad;
  deque<ArgumentString> as;
  deque<ArgumentSwitch> aw;
  deque<ArgumentFile> af;
  vector<Handle> hs;
  int n = ri(1, 4), m = ri(0, 4);
  for (int i = 0; i < n; ++i) {
    string k = pick(kinds);
    if (k == "INT") { ai.emplace_back(); hs.push_back(handleOf(ai.back(), k, i)); }
    else if (k == "DOUBLE") { ad.emplace_back(); hs.push_back(handleOf(ad.back(), k, i)); }
    else if (k == "STRING") { as.emplace_back(); hs.push_back(handleOf(as.back(), k, i)); }
    else if (k == "SWITCH") { aw.emplace_back(); hs.push_back(handleOf(aw.back(), k, i)); }
    else { af.emplace_back(); hs.push_back(handleOf(af.back(), k, i)); }
    hs.back().shape();
  }
  // and those of the flags of a parser
  set<vector<string>> defs;
  vector<string> flags;
  for (int i = 0; i < m; ++i) {
    flags.push_back(str("--", ident(3), i));
    defs.insert({flags.back(), str("-", char('a' + i)), "text"});
  }
  ArgumentParser P(defs);
  for (int i = 0; i < m; ++i) {
    string k = pick(kinds), f = flags[i], a = "ARGUMENT_" + k;
    Handle h;
    h.kind = k;
    h.label = str("flag ", i, " of kind ", k);
    h.there = coin();
    if (h.there) P.addFlagArg(f, a);
    h.opts = optionsOf(k);
    h.setI = [&P, f, a](string p, string o, int v) { P.setFlagArgOpt(f, a, p, o, v); };
    h.setD = [&P, f, a](string p, string o, double v) { P.setFlagArgOpt(f, a, p, o, v); };
    h.setT = [&P, f, a](string p, string o, string v) { P.setFlagArgOpt(f, a, p, o, v); };
    h.setS = [&P, f, a](string p, string o, set<string> v) { P.setFlagArgOpt(f, a, p, o, v); };
    h.setV = [&P, f, a](string p, string o, vector<string> v) { P.setFlagArgOpt(f, a, p, o, v); };
    h.get = [&P, f, a](string p, string o) { return P.getFlagArgOptValue(f, a, p, o); };
    hs.push_back(h);
  }
  agreeAll(hs);
  int steps = ri(5, 40);
  for (int t = 0; t < steps && !fails; ++t) {
    Handle &h = hs[ri(0, hs.size() - 1)];
    Option &o = h.opts[ri(0, h.opts.size() - 1)];
    bool viaParser = !h.all;
    string what;
    auto refuse = [&](const string &w, function<void()> f) {
      op("refused: ", h.label, " ", w);
      if (!threw(f)) fail(h.label, ": ", w, " is not refused");
      seen("refused ", h.kind, viaParser, " ", w);
      tally("changes refused");
    };
    auto change = [&](const string &w, function<void()> f) {
      op(h.label, " ", w);
      try {
        f();
      } catch (const exception &x) {
        fail(h.label, ": ", w, " is refused: ", x.what());
      }
      seen(h.kind, viaParser, " ", w);
      if (!h.there) tally("first rules of a flag");
      h.there = true;
      tally("changes made");
    };
    int c = ri(0, 9);
    if (c == 0) {
      string bad = pick(vector<string>{"MINI", "min", "", "OTHER", o.opt + "X", o.opt.substr(1)});
      switch (o.type) {
        case 'i': refuse("option " + bad, [&] { h.setI(o.prop, bad, 3); }); break;
        case 'd': refuse("option " + bad, [&] { h.setD(o.prop, bad, 3.5); }); break;
        case 's': refuse("option " + bad, [&] { h.setT(o.prop, bad, "ON"); }); break;
        case 'S': refuse("option " + bad, [&] { h.setS(o.prop, bad, {".a"}); }); break;
        case 'V': refuse("option " + bad, [&] { h.setV(o.prop, bad, {".a"}); }); break;
      }
      refuse("reading option " + bad, [&] { h.get(o.prop, bad); });
    } else if (c == 1) {
      string bad = pick(vector<string>{"PROPERTY", "", o.prop + "S", "PROPERTY_OTHER", o.prop.substr(0, o.prop.size() - 1)});
      refuse("rule " + bad, [&] {
        switch (o.type) {
          case 'i': h.setI(bad, o.opt, 3); break;
          case 'd': h.setD(bad, o.opt, 3.5); break;
          case 's': h.setT(bad, o.opt, "ON"); break;
          case 'S': h.setS(bad, o.opt, {"true"}); break;
          default: h.setV(bad, o.opt, {".a"});
        }
      });
      refuse("reading rule " + bad, [&] { h.get(bad, o.opt); });
    } else if (c == 2) {
      // values of another type
      if (o.type == 'i') refuse("list for " + o.opt, [&] { h.setV(o.prop, o.opt, {"1"}); });
      else if (o.type == 'd') refuse("text for " + o.opt, [&] { h.setT(o.prop, o.opt, "1"); });
      else if (o.type == 's') refuse("set for " + o.opt, [&] { h.setS(o.prop, o.opt, {"ON"}); });
      else if (o.type == 'S') refuse("list for " + o.opt, [&] { h.setV(o.prop, o.opt, {"true"}); });
      else if (o.type == 'V') refuse("set for " + o.opt, [&] { h.setS(o.prop, o.opt, {".a"}); });
    } else if (c == 3 && o.opt == "STRING_CHOICE_ENFORCED") {
      set<string> bad = pick(vector<set<string>>{{"maybe"}, {"TRUE"}, {""}, {"true", "false"}, {}, {"false "}, {"1"}});
      if (bad.size() == 1 && coin()) refuse("enforced " + *bad.begin(), [&] { h.setT(o.prop, o.opt, *bad.begin()); });
      else refuse(str("enforced ", bad.size(), " values ", bad.size() ? *bad.begin() : ""), [&] { h.setS(o.prop, o.opt, bad); });
    } else if (c == 3 && o.opt == "ALLOWED_SISTER_FILE_EXT") {
      string bad = pick(vector<string>{"log", "a.log", ".tar.gz", "x.y.z"});
      if (coin()) refuse("companion " + bad, [&] { h.setT(o.prop, o.opt, bad); });
      else refuse("companions with " + bad, [&] { h.setV(o.prop, o.opt, {".log", bad}); });
    } else if (o.prop == "PROPERTY_SISTER_FILE" && !o.settable) {
      if (coin()) refuse("text for " + o.opt, [&] { h.setT(o.prop, o.opt, ".a"); });
      else refuse("list for " + o.opt, [&] { h.setV(o.prop, o.opt, {".a", ".b"}); });
    } else if (c == 3 && h.kind == "SWITCH" && viaParser) {
      string bad = pick(vector<string>{"", "on", "TRUE", "2", "ONOFF"});
      if (coin()) refuse("default " + bad, [&] { h.setT(o.prop, o.opt, bad); });
      else refuse("default 2", [&] { h.setI(o.prop, o.opt, coin() ? 2 : -1); });
    } else if (!o.settable) {
      continue;
    } else if (o.type == 'i') {
      int v = o.opt == "FILE_MUST_EXIST" ? ri(0, 1) : anyInt();
      change(str(o.opt, " ", v), [&] { h.setI(o.prop, o.opt, v); });
      o.now = to_string(v);
    } else if (o.type == 'd') {
      double v = anyDouble();
      change(str(o.opt, " ", v), [&] { h.setD(o.prop, o.opt, v); });
      o.dnow = v;
    } else if (o.type == 's') {
      string v = coin() ? "ON" : "OFF";
      if (viaParser && coin()) change("DEFAULT as a number " + v, [&] { h.setI(o.prop, o.opt, v == "ON"); });
      else change("DEFAULT " + v, [&] { h.setT(o.prop, o.opt, v); });
      o.now = v;
    } else {
      vector<string> v;
      if (o.opt == "STRING_CHOICE_ENFORCED") v = {coin() ? "true" : "false"};
      else {
        int k = ri(1, 4);
        vector<string> all = {".pun", ".log", ".7", ".orb", ".gz", "."};
        for (int i = 0; i < k; ++i) v.push_back(o.opt == "STRING_CHOICES" ? noBlank() : all[ri(0, 4)]);
      }
      set<string> s(v.begin(), v.end());
      if (o.type == 'S') v.assign(s.begin(), s.end());
      string w = str(o.opt, " ", v.size(), " values from ", v[0]);
      if (v.size() == 1 && coin()) change(w + " as text", [&] { h.setT(o.prop, o.opt, v[0]); });
      else if (o.type == 'S') change(w, [&] { h.setS(o.prop, o.opt, s); });
      else change(w, [&] { h.setV(o.prop, o.opt, v); });
      o.list = v;
      if (o.type == 'S') sort(o.list.begin(), o.list.end());
    }
    agreeAll(hs);
  }
  if (m) {
    string f = flags[0];
    for (int i = 0; i < m; ++i)
      if (!hs[n + i].there) {
        // what was refused left nothing behind
        op("added late: ", hs[n + i].label);
        if (threw([&] { P.addFlagArg(flags[i], "ARGUMENT_" + hs[n + i].kind); })) fail(hs[n + i].label, " cannot be added after refused rules");
        hs[n + i].there = true;
      }
    agreeAll(hs);
    if (!threw([&] { P.getFlagArgOptValue(f + "x", "ARGUMENT_" + hs[n].kind, hs[n].opts[0].prop, hs[n].opts[0].opt); })) fail("a rule of an unknown flag can be read");
    for (auto &k : kinds)
      if (k != hs[n].kind && !threw([&] { P.getFlagArgOptValue(f, "ARGUMENT_" + k, optionsOf(k)[0].prop, optionsOf(k)[0].opt); })) fail("a flag of kind ", hs[n].kind, " has rules of kind ", k);
    for (auto &k : kinds)
      if (k != hs[n].kind && !threw([&] { P.getFlagArgOptValue(f, "ARGUMENT_" + k, hs[n].opts[0].prop, hs[n].opts[0].opt); })) fail("the rules of a flag of kind ", hs[n].kind, " are given as those of kind ", k);
  }
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  string mode = argv[1];
  init(strtoull(argv[2], nullptr, 10) * 3571 + mode[1]);
  int n = atoi(argv[3]);
  for (int i = 0; i < n; ++i) {
    op("--- scenario ", i);
    allowance();
    if (mode == "parser")
      parserScenario();
    else if (mode == "settings")
      settingsScenario();
    else if (mode == "rules")
      rulesScenario();
    else
      switch (i % 7) {
        case 0: intProps(); break;
        case 1: doubleProps(); break;
        case 2: stringProps(); break;
        case 3: switchProps(); break;
        case 4: extProps(); break;
        case 5: existProps(); break;
        default: sisterProps();
      }
    tally("scenarios");
  }
  return done();
}
