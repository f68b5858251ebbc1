// Monitor of readers that are used more than once: files appear, change, are
// cut and vanish between the readings of several readers, readings are refused
// and repeated. A model knows for each reader what it should report: what a
// new reader in a process of its own reports of the same content.
//
// reread history SEED N FILE...   files are .log, .pun, .orb or .7
#include "work.hpp"

#include <fcntl.h>
#include <fstream>

using mon::coin;
using mon::fail;
using mon::op;
using mon::pick;
using mon::ri;
using mon::str;

static string slurp(const string &path) {
  ifstream f(path, ios::binary);
  stringstream s;
  s << f.rdbuf();
  return s.str();
}

static void put(const string &path, const string &s) {
  ofstream f(path, ios::binary | ios::trunc);
  f << s;
}

struct Reader {
  string path;
  unique_ptr<PunReader> p;
  unique_ptr<LogReader> l;
  string report;        // what it should report, if it is known
  bool known = true;
  Reader(const string &f) : path(f) {
    if (f.substr(f.size() - 4) == ".log")
      l.reset(new LogReader(f));
    else
      p.reset(new PunReader(f));
  }
  void read() { l ? l->read() : p->read(); }
  template <typename F>
  static string or_absent(F f) {
    try {
      return f();
    } catch (const exception &) {
      return "absent";
    }
  }
  string dump() {
    string s;
    if (p) {
      s = str(p->getExt(), " ", p->restrictedShell());
      for (string k : {"Alpha", "Beta", "Gamma"})
        s += " | " + or_absent([&] { return text(*p->getCoefsMatrix(k)); });
      return s;
    }
    s = l->getExt();
    for (string k : {"Alpha", "Beta"})
      s += " | " + or_absent([&] { return text(l->getOE(k)); }) + " " +
           or_absent([&] { return to_string(l->getHOMOLevel(k)); });
    s += " | " + text(l->getBasisFuncCount());
    for (auto &v : l->getCoords()) s += " | " + text(v);
    for (auto &a : l->getOrbitalInfo())
      for (auto &o : a.second)
        s += str(" | ", a.first.first, a.first.second, " ", o.first, " ", text(o.second));
    s += " | " + or_absent([&] { return text(*l->getOverlapMatrix()); });
    return s;
  }
};

// how many of the files are open; the sanitizers open others at times
static int openFiles(const vector<string> &names) {
  int n = 0;
  for (int i = 0; i < 64; ++i) {
    char b[4000];
    ssize_t l = readlink(str("/proc/self/fd/", i).c_str(), b, sizeof b);
    if (l <= 0) continue;
    string path(b, l);
    for (auto &x : names) n += path.find("/" + x) != string::npos;
  }
  return n;
}

struct Content {
  string what, bytes;
};
static vector<pair<string, string>> logs, puns;  // name and bytes

struct Fresh {
  mon::End end;
  string report;
};

// what a new reader in a process of its own makes of the content
static Fresh fresh(const Content &c, const string &ext) {
  static map<string, Fresh> known;
  string key = ext + " " + c.what;
  auto it = known.find(key);
  if (it != known.end()) return it->second;
  string path = "fresh" + ext;
  put(path, c.bytes);
  mon::Forked f = mon::forked([&] {
    Reader r(path);
    r.read();
    return r.dump();
  });
  unlink(path.c_str());
  return known[key] = {f.end, f.note};
}

static string shortened(const string &s) { return s.size() > 200 ? s.substr(0, 200) + "..." : s; }

static void difference(const string &what, const string &got, const string &want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  i = i > 20 ? i - 20 : 0;
  fail(what, ": reports ...", shortened(got.substr(i)), " instead of ...", shortened(want.substr(i)));
}

static void history() {
  map<string, Content> world;  // the files that exist
  vector<string> names;
  const int n = ri(1, 3);
  for (int i = 0; i < n; ++i) {
    static const vector<string> exts = {".log", ".log", ".pun", ".orb", ".7"};
    names.push_back(str("f", i, pick(exts)));
    unlink(names.back().c_str());
  }
  vector<unique_ptr<Reader>> rs;
  int refusals = 0;
  // some readers work all day long
  const int steps = coin(.02) ? ri(500, 900) : ri(6, 24);
  for (int k = 0; k < steps; ++k) {
    mon::allowance();
    const string &name = pick(names);
    const string ext = name.substr(name.rfind('.'));
    switch (rs.empty() ? ri(0, 1) : ri(0, 9)) {
      case 0: {  // another content
        auto &src = pick(ext == ".log" ? logs : puns);
        Content c{src.first, src.second};
        if (coin(.3)) {  // the files of several jobs may be joined
          auto &more = pick(ext == ".log" ? logs : puns);
          c.what += " and " + more.first;
          c.bytes += more.second;
        }
        if (coin(.35)) {
          size_t at = coin(.5) ? ri(0, c.bytes.size()) : c.bytes.size() * 2 / 3 + ri(0, c.bytes.size() / 3);
          c.bytes.resize(min(at, c.bytes.size()));
          c.what += str(" cut to ", c.bytes.size());
        } else if (coin(.1)) {
          c = {"nothing", ""};
        }
        op(name, " becomes ", c.what);
        put(name, c.bytes);
        world[name] = c;
        break;
      }
      case 1:
        op("reader ", rs.size(), " of ", name);
        rs.emplace_back(new Reader(name));
        rs.back()->report = rs.back()->dump();
        break;
      case 2:
        if (coin(.5)) break;
        op(name, " vanishes");
        unlink(name.c_str());
        world.erase(name);
        break;
      case 3:
        if (coin(.7)) break;
        op("reader ", rs.size() - 1, " ends");
        rs.pop_back();
        break;
      default: {
        const size_t i = ri(0, rs.size() - 1);
        Reader &r = *rs[i];
        const bool there = world.count(r.path);
        const bool unopened = there && coin(.06);
        Fresh want{mon::THREW, ""};
        if (there && !unopened) want = fresh(world[r.path], r.path.substr(r.path.rfind('.')));
        if (want.end != mon::RETURNED && want.end != mon::THREW) break;
        op("reader ", i, " reads ", r.path, unopened ? ", no file can be opened" : "");
        struct rlimit was, none;
        if (unopened) {
          getrlimit(RLIMIT_NOFILE, &was);
          none = was;
          none.rlim_cur = 0;
          setrlimit(RLIMIT_NOFILE, &none);
        }
        bool refused = false;
        try {
          r.read();
        } catch (const exception &) {
          refused = true;
        }
        if (unopened) setrlimit(RLIMIT_NOFILE, &was);
        if (refused != (want.end == mon::THREW)) {
          fail("reader ", i, " of ", !there ? "no file" : unopened ? "a file that cannot be opened" : world[r.path].what,
               refused ? " refuses what a new reader reads" : " does not refuse it", ", after ", refusals, " refusals");
          return;
        }
        r.known = !refused;
        r.report = want.report;
        refusals += refused;
        mon::tally(refused ? "readings refused" : "readings");
        break;
      }
    }
    // all readers, not only the one that was used
    for (size_t i = 0; i < rs.size(); ++i) {
      string got = rs[i]->dump();
      if (!rs[i]->known) continue;
      if (got != rs[i]->report) {
        difference(str("reader ", i, " of ", rs[i]->path), got, rs[i]->report);
        return;
      }
      mon::tally("reports compared");
    }
    // only a reading that was refused may leave its file open, to its reader
    int held = 0;
    for (auto &r : rs) held += !r->known;
    const int now = openFiles(names);
    if (now > held) {
      fail(now, " files are open with ", held, " refused readings");
      return;
    }
    if (rs.size()) {
      string key = mon::ring.back();
      for (auto &r : rs) key += str(" ", r->path, r->known);
      mon::seen(hash<string>()(key));
    }
  }
  mon::sample(n, " files, ", rs.size(), " readers, ", refusals, " readings refused");
  for (auto &x : names) unlink(x.c_str());
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  for (int i = 4; i < argc; ++i) {
    string p = argv[i];
    (p.substr(p.size() - 4) == ".log" ? logs : puns).push_back({p.substr(p.rfind('/') + 1), slurp(p)});
  }
  mon::init(strtoull(argv[2], nullptr, 10) * 31 + 7);
  for (int i = atoi(argv[3]); i > 0; --i) history();
  return mon::done();
}
