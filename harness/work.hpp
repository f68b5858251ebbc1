// Pieces of work with the library that say step by step what they yield; used
// by the monitors that disturb them (side.cpp, faulty.cpp).
#pragma once
#include "mon.hpp"

#include <iostream>
#include <map>
#include <memory>
#include <set>

#include "io/argumentparser.hpp"
#include "io/arguments/argumentdouble.hpp"
#include "io/arguments/argumentfile.hpp"
#include "io/arguments/argumentint.hpp"
#include "io/arguments/argumentstring.hpp"
#include "io/arguments/argumentswitch.hpp"
#include "io/file_readers/logreader.hpp"
#include "io/file_readers/punreader.hpp"
#include "io/io.hpp"
#include "matrix.hpp"
#include "parameters.hpp"
#include "qc_functions.hpp"
#include "string_support.hpp"

using namespace catnip;
using namespace std;

typedef mt19937_64 Rng;
static long ri(Rng &g, long a, long b) {
  return a + static_cast<long>(g() % static_cast<unsigned long long>(b - a + 1));
}
static double rd(Rng &g) { return (g() >> 11) * (2.0 / 9007199254740992.0) - 1; }

static string num(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}

static string text(const Matrix &m) {
  mon::Quiet q;
  string s = mon::str(m.get_rows(), "x", m.get_cols(), "x", m.get_shel());
  for (int k = 1; k <= m.get_shel(); ++k)
    for (int i = 1; i <= m.get_rows(); ++i)
      for (int j = 1; j <= m.get_cols(); ++j)
        s += " " + num(m.get_elem(i, j, k));
  return s;
}

template <typename T>
static string text(const vector<T> &v) {
  mon::Quiet q;
  string s = mon::str("[", v.size(), "]");
  for (auto &x : v) s += mon::str(" ", x);
  return s;
}

// ------------------------------------------------------------ pieces of work

static void (*afterRefusal)() = nullptr;

struct Work {
  vector<string> yield;
  bool stopped = false;  // the last stage ended in an exception
  int at = 0;
  virtual ~Work() {}
  virtual bool stage(int n) = 0;  // false when there is nothing left to do
  void say(const string &s) {
    mon::Quiet q;
    yield.push_back(s);
  }
  bool step() {
    bool more = true;
    try {
      more = stage(at);
    } catch (const exception &e) {
      if (afterRefusal) afterRefusal();
      stopped = true;
      say(mon::str("stage ", at, " refused: ", e.what()));
      // what follows needs what was refused
      more = false;
    }
    ++at;
    return more;
  }
};

struct ReadPun : Work {
  string path;
  unique_ptr<PunReader> r;
  ReadPun(const string &p) : path(p) {}
  bool stage(int n) override {
    if (n == 0) r.reset(new PunReader(path));
    if (n == 1) r->read();
    if (n == 2) say(mon::str(r->getExt(), " ", r->restrictedShell()));
    if (n == 3) say(text(*r->getCoefsMatrix("Alpha")));
    if (n == 4) {
      bool two = !r->restrictedShell();
      say(two ? text(*r->getCoefsMatrix("Beta")) : string("one spin"));
    }
    if (n == 5) say(text(*r->getCoefsMatrix("Gamma")));
    return n < 5;
  }
};

struct ReadLog : Work {
  string path;
  unique_ptr<LogReader> r;
  ReadLog(const string &p) : path(p) {}
  bool stage(int n) override {
    if (n == 0) r.reset(new LogReader(path));
    if (n == 1) r->read();
    if (n == 2)
      say(mon::str(r->getExt(), " ", text(r->getOE("Alpha")), " ",
                   r->getHOMOLevel("Alpha")));
    if (n == 3) say(text(r->getBasisFuncCount()));
    if (n == 4)
      for (auto &v : r->getCoords()) say(text(v));
    if (n == 5)
      for (auto &a : r->getOrbitalInfo())
        for (auto &o : a.second)
          say(mon::str(a.first.first, a.first.second, " ", o.first, " ",
                       text(o.second)));
    if (n == 6) say(text(*r->getOverlapMatrix()));
    return n < 6;
  }
};

struct System {
  string dir;
  bool cp, unrestricted;
};

static vector<string> commandLine(Rng &g, const System &s) {
  vector<string> a{"calc_J"};
  for (string k : {"P", "1", "2"}) {
    string base = s.dir + "/" + (k == "P" ? "dimer" : "mon" + k);
    int way = ri(g, 0, 2);
    if (way != 1) a.insert(a.end(), {ri(g, 0, 1) ? "--log_" + k : "-l_" + k, base + ".log"});
    if (way != 2) a.insert(a.end(), {ri(g, 0, 1) ? "--pun_" + k : "-p_" + k, base + ".pun"});
    if (ri(g, 0, 1))
      a.insert(a.end(), {ri(g, 0, 1) ? "--spin_" + k : "-s_" + k,
                         s.unrestricted && ri(g, 0, 1) ? "Beta" : "Alpha"});
    if (k != "P" && ri(g, 0, 1)) {
      bool homo = ri(g, 0, 1);
      a.insert(a.end(), {"--orbital_type_" + k, homo ? "HOMO" : "LUMO"});
      a.insert(a.end(), {"--orbital_num_" + k,
                         to_string(homo ? -ri(g, 0, 1) : ri(g, 0, 1))});
    }
  }
  if (s.cp) a.push_back("-cp");
  return a;
}

static void parseInto(ArgumentParser &p, const vector<string> &a) {
  vector<const char *> v;
  for (auto &s : a) v.push_back(s.c_str());
  p.parse(v.data(), v.size());
}

// A whole calculation, as the program does it
struct Calculate : Work {
  vector<string> args;
  unique_ptr<ArgumentParser> parser;
  unique_ptr<Parameters> par;
  unique_ptr<PunReader> pP, p1, p2;
  unique_ptr<LogReader> lP, l1, l2;
  unique_ptr<Matrix> oe, cP, c1, c2;
  unique_ptr<TransferComplex> tc;
  bool reorder;
  Calculate(Rng &g, const System &s)
      : args(commandLine(g, s)), reorder(ri(g, 0, 5) != 0) {}
  bool stage(int n) override {
    switch (n) {
      case 0: parser = prepareParser(); break;
      case 1: parseInto(*parser, args); break;
      case 2: par = prepareParameters(parser); break;
      case 3:
        say(mon::str(par->getLogP(), " ", par->getLog1(), " ", par->getLog2(),
                     " ", par->getPunP(), " ", par->getPun1(), " ",
                     par->getPun2(), " ", par->getSpinP(), par->getSpin1(),
                     par->getSpin2(), par->getOrbType1(), par->getOrbNum1(),
                     par->getOrbType2(), par->getOrbNum2(),
                     par->getCounterPoise()));
        break;
      case 4: pP.reset(new PunReader(par->getPunP())); pP->read(); break;
      case 5: p1.reset(new PunReader(par->getPun1())); p1->read(); break;
      case 6: p2.reset(new PunReader(par->getPun2())); p2->read(); break;
      case 7: lP.reset(new LogReader(par->getLogP())); lP->read(); break;
      case 8: l1.reset(new LogReader(par->getLog1())); l1->read(); break;
      case 9: l2.reset(new LogReader(par->getLog2())); l2->read(); break;
      case 10: {
        oe.reset(new Matrix(lP->getOE(par->getSpinP())));
        int n1 = l1->getOE(par->getSpin1()).size();
        int n2 = l2->getOE(par->getSpin2()).size();
        tc.reset(new TransferComplex(
            p1->getCoefsMatrix(par->getSpin1()),
            p2->getCoefsMatrix(par->getSpin2()),
            pP->getCoefsMatrix(par->getSpinP()),
            {n1, l1->getHOMOLevel(par->getSpin1())},
            {n2, l2->getHOMOLevel(par->getSpin2())}, lP->getOverlapMatrix(),
            oe.get(), par->getCounterPoise()));
        break;
      }
      case 11:
        cP.reset(new Matrix(lP->getCoords()));
        c1.reset(new Matrix(l1->getCoords()));
        c2.reset(new Matrix(l2->getCoords()));
        break;
      case 12:
        if (reorder)
          tc->unscramble(*c1, *c2, *cP, lP->getBasisFuncCount(),
                         l2->getBasisFuncCount());
        break;
      default: {
        map<string, string> ty{{"mon1", par->getOrbType1()},
                               {"mon2", par->getOrbType2()}};
        map<string, int> nr{{"mon1", par->getOrbNum1()},
                            {"mon2", par->getOrbNum2()}};
        if (n > 13) swap(ty["mon1"], ty["mon2"]), swap(nr["mon1"], nr["mon2"]);
        say("J_eff " + num(tc->calcJ(ty, nr)));
      }
    }
    return n < 14;
  }
};

// A parser with flags, rules and defaults of its own
struct Parse : Work {
  unique_ptr<ArgumentParser> p;
  vector<string> args;
  int lo, hi, dflt, value;
  string word, choice;
  Parse(Rng &g) {
    lo = ri(g, -50, 0), hi = ri(g, 1, 60), dflt = ri(g, -9, 9);
    value = ri(g, -60, 60);
    word = string(ri(g, 1, 5), static_cast<char>('a' + ri(g, 0, 25)));
    choice = ri(g, 0, 1) ? word : "other";
    args = {"p"};
    if (ri(g, 0, 3)) args.insert(args.end(), {"--number", to_string(value)});
    if (ri(g, 0, 1)) args.insert(args.end(), {"-w", choice});
    if (ri(g, 0, 1)) args.insert(args.end(), {"-x", "-2.5"});
    if (ri(g, 0, 1)) args.push_back("--switch");
    if (args.size() == 1) args.push_back("-sw");
  }
  bool stage(int n) override {
    if (n == 0)
      p.reset(new ArgumentParser({{"--number", "-n", "a number"},
                                  {"--word", "-w", "a word"},
                                  {"--real", "-x"},
                                  {"--switch", "-sw"}}));
    if (n == 1) {
      p->setFlagArgOpt("--number", "ARGUMENT_INT", "PROPERTY_INT", "MIN", lo);
      p->setFlagArgOpt("--number", "ARGUMENT_INT", "PROPERTY_INT", "MAX", hi);
      p->setFlagDefaultValue("--number", dflt);
      p->addFlagArg("--real", "ARGUMENT_DOUBLE");
      p->setFlagDefaultValue("--real", lo / 8.0);
    }
    if (n == 2) {
      p->setFlagArgOpt("--word", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE",
                       "STRING_CHOICE_ENFORCED", string("true"));
      p->setFlagArgOpt("--word", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE",
                       "STRING_CHOICES", set<string>{word, "w2"});
      p->setFlagDefaultValue("--word", word);
      p->setFlagArgOpt("--switch", "ARGUMENT_SWITCH", "PROPERTY_SWITCH",
                       "DEFAULT", string("OFF"));
      p->setFlagDefaultValue("--switch", string("OFF"));
    }
    if (n == 3) parseInto(*p, args);
    if (n == 4)
      say(mon::str(p->getInt("--number"), " ", p->getStr("--word"), " ",
                   p->getDouble("--real"), " ", p->getInt("--switch")));
    if (n == 5)
      say(p->getFlagArgOptValue("--number", "ARGUMENT_INT", "PROPERTY_INT",
                                "MIN") +
          p->getFlagArgOptValue("--word", "ARGUMENT_STRING",
                                "PROPERTY_STRING_CHOICE", "STRING_CHOICES"));
    return n < 5;
  }
};

struct Rules : Work {
  Rng g;
  ArgumentInt i;
  ArgumentDouble d;
  ArgumentString s;
  ArgumentSwitch w;
  ArgumentFile f;
  string dir;
  Rules(Rng &r, const System &sys) : g(r()), dir(sys.dir) {}
  bool stage(int n) override {
    int k = ri(g, 0, 7), v = ri(g, -99, 99);
    string file = dir + (ri(g, 0, 1) ? "/dimer" : "/mon1") +
                  (ri(g, 0, 1) ? ".log" : ".pun");
    string err = "taken";
    try {
      if (k == 0) i.setArgPropertyOpt("PROPERTY_INT", ri(g, 0, 1) ? "MIN" : "MAX", v);
      if (k == 1) d.setArgPropertyOpt("PROPERTY_DOUBLE", ri(g, 0, 1) ? "MIN" : "MAX", v / 4.0);
      if (k == 2) i.argValid(v);
      if (k == 3) d.argValid(v / 4.0);
      if (k == 4)
        s.setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICES",
                            set<string>{to_string(v), "x"});
      if (k == 5)
        f.setArgPropertyOpt("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT",
                            vector<string>{".log", v > 0 ? ".pun" : ".orb"});
      if (k == 6) f.argValid(file);
      if (k == 7) w.argValid(string(v > 0 ? "ON" : "on"));
    } catch (const bad_alloc &) {
      throw;
    } catch (const exception &e) {
      err = e.what();
    }
    string all = mon::str(k, " ", err, ":");
    for (auto &p : i.getPropertyValues()) all += " " + p.first + "=" + p.second;
    for (auto &p : d.getPropertyValues()) all += " " + p.first + "=" + p.second;
    for (auto &p : s.getPropertyValues()) all += " " + p.first + "=" + p.second;
    for (auto &p : f.getPropertyValues()) all += " " + p.first + "=" + p.second;
    say(all);
    return n < 8;
  }
};

static Matrix filled(Rng &g, int r, int c) {
  Matrix m(r, c);
  for (int i = 1; i <= r; ++i)
    for (int j = 1; j <= c; ++j) m.set_elem(rd(g), i, j);
  return m;
}

struct Algebra : Work {
  Rng g;
  vector<Matrix> m;
  Algebra(Rng &r) : g(r()) {}
  bool stage(int n) override {
    if (n == 0)
      for (int k = 0; k < 3; ++k) m.push_back(filled(g, ri(g, 1, 9), ri(g, 1, 9)));
    Matrix &a = m[ri(g, 0, m.size() - 1)];
    Matrix &b = m[ri(g, 0, m.size() - 1)];
    switch (ri(g, 0, 9)) {
      case 0: m.push_back(a.invert()); break;
      case 1: {
        Matrix t = b.invert();
        if (a.get_cols() == b.get_cols()) m.push_back(a * t);
        break;
      }
      case 2: b.set_rows(ri(g, 1, 9)); break;
      case 3: b.set_cols(ri(g, 1, 9)); break;
      case 4: a.swap_row(1, a.get_rows()); break;
      case 5: a.move_col(a.get_cols(), 1); break;
      case 6: m.push_back(Matrix_copy(b)); break;
      case 7:
        if (a.get_cols() == b.get_cols())
          m.push_back(Matrix_concatenate_rows(a, b));
        break;
      case 8: {
        Matrix c = a;
        if (c.get_rows() > 1) c.swap_row(1, 2);
        say(text(a.matchRow(c, 5)));
        break;
      }
      default: m.push_back(a.getCol(a.get_cols())); break;
    }
    if (m.size() > 6) m.erase(m.begin());
    for (auto &x : m) say(text(x));
    return n < 10;
  }
};

struct Reorder : Work {
  Rng g;
  Reorder(Rng &r) : g(r()) {}
  bool stage(int n) override {
    int na = ri(g, 1, 4), nb = ri(g, 1, 4);
    vector<int> p;
    for (int i = 0; i < na + nb; ++i) p.insert(p.begin() + ri(g, 0, p.size()), i + 1);
    vector<int> a(p.begin(), p.begin() + na), b(p.begin() + na, p.end()), f;
    int sum = 0;
    for (size_t i = 0; i < p.size(); ++i) f.push_back(ri(g, 1, 4)), sum += f.back();
    Matrix c = filled(g, ri(g, 1, 4), sum), s = filled(g, sum, sum);
    unique_ptr<Matrix> x(ri(g, 0, 1) ? unscramble_Coef(a, b, f, &c)
                                     : unscramble_Coef(p, f, &c));
    unique_ptr<Matrix> y(ri(g, 0, 1) ? unscramble_S(a, b, f, &s)
                                     : unscramble_S(p, f, &s));
    say(text(*x));
    say(text(*y));
    Matrix ea = filled(g, ri(g, 1, 6), 1), eb = filled(g, ri(g, 1, 6), 1);
    auto rk = findRank(ea, eb);
    for (size_t k = 1; k <= rk.size(); ++k)
      say(mon::str(k, rk.at(k).second, num(rk.at(k).first)));
    return n < 3;
  }
};

struct Texts : Work {
  Rng g;
  Texts(Rng &r) : g(r()) {}
  bool stage(int n) override {
    string s, alphabet = "ab./ -=\t";
    for (int i = ri(g, 0, 30); i > 0; --i) s += alphabet[ri(g, 0, alphabet.size() - 1)];
    string o(1, alphabet[ri(g, 0, alphabet.size() - 1)]);
    say(text(splitSt(s)));
    say(lastStringInPath(s) + "|" + getPath(s) + "|" + trimmed(s));
    say(grabStrAfterFirstOccurance(s, o) + "|" + grabStrBeforeLastOccurance(s, o) +
        "|" + grabStrAfterLastOccuranceInclusive(s, o));
    say(mon::str(foundSubStrInStr(s, "a" + o), isAlphabetical(s)));
    return n < 6;
  }
};

// What is only read may be shared
struct Shared {
  unique_ptr<Matrix> a, b, c;
};
struct ReadShared : Work {
  const Shared *sh;
  Rng g;
  ReadShared(Rng &r, const Shared *s) : sh(s), g(r()) {}
  bool stage(int n) override {
    const Matrix &a = *sh->a, &b = *sh->b, &c = *sh->c;
    switch (ri(g, 0, 7)) {
      case 0: say(text(a * b)); break;
      case 1: say(text(a.invert())); break;
      case 2: say(text(b.getCol(ri(g, 1, b.get_cols())))); break;
      case 3: say(text(a.getRow(ri(g, 1, a.get_rows())))); break;
      case 4: say(text(a.matchCol(c, 4))); break;
      case 5: { Matrix k(b); k.set_elem(1, 1, 1); say(text(k)); break; }
      case 6: say(text(Matrix_concatenate_cols(a, c))); break;
      default: say(text(a)); say(text(a.get_col(1))); break;
    }
    return n < 6;
  }
};

// ------------------------------------------------------------ scenarios

struct Recipe {
  string kind;
  unsigned long long seed;
  int sys;
  string path;
};

static vector<System> systems;
static Shared shared;

static unique_ptr<Work> make(const Recipe &r) {
  Rng g(r.seed);
  Work *w;
  const System &s = systems[r.sys];
  if (r.kind == "coefficient file") w = new ReadPun(s.dir + r.path + ".pun");
  else if (r.kind == "log file") w = new ReadLog(s.dir + r.path + ".log");
  else if (r.kind == "calculation") w = new Calculate(g, s);
  else if (r.kind == "parser") w = new Parse(g);
  else if (r.kind == "rules") w = new Rules(g, s);
  else if (r.kind == "matrices") w = new Algebra(g);
  else if (r.kind == "reordering") w = new Reorder(g);
  else if (r.kind == "texts") w = new Texts(g);
  else w = new ReadShared(g, &shared);
  return unique_ptr<Work>(w);
}

// warnings of calculations that are not reordered go nowhere
struct Discard : streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  streamsize xsputn(const char *, streamsize n) override { return n; }
};
