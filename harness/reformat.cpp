// Monitor of readers that are derived from FileReader for formats of their own:
// a model splits the file into sections.
//
// reformat format SEED N
#include "mon.hpp"

#include <fstream>
#include <iostream>
#include <map>
#include <set>

#include "io/file_readers/filereader.hpp"

using namespace catnip;
using namespace std;
using mon::coin;
using mon::fail;
using mon::op;
using mon::pick;
using mon::ri;
using mon::str;

typedef vector<string> Lines;

static void put(const string &path, const string &s) {
  ofstream f(path, ios::binary | ios::trunc);
  f << s;
}

// A reader of a format with four kinds of sections, each of which takes some
// of the lines that follow its header
struct Format : FileReader {
  vector<string> got;
  int take[4] = {0, 0, 0, 0};
  int refuse = -1;  // the section that cannot be read, counted from the end
  Format(const string &path) : FileReader(path) {}
  template <int K>
  static void section(void *p) {
    Format *f = static_cast<Format *>(p);
    if (f->refuse >= 0 && f->refuse-- == 0) throw runtime_error("not a section");
    string s = str("section ", K, ":");
    string line;
    for (int i = 0; i < f->take[K] && getline(f->fid_, line); ++i) s += " [" + line + "]";
    f->got.push_back(s);
  }
  void headers(const map<string, set<string>> &h) {
    for (auto &x : h) sectionHeaders_[x.first] = x.second;
  }
  void readers(const map<string, int> &r) {
    static const FRfunc all[] = {section<0>, section<1>, section<2>, section<3>};
    for (auto &x : r) sectionReaders_[x.first] = all[x.second];
  }
  void complete() { registerSections_(); }
};

static string word(int least, int most) {
  static const string al = "abcXYZ 019.*#";
  string s;
  for (int n = ri(least, most); n > 0; --n) s += al[ri(0, al.size() - 1)];
  return s;
}

static void format() {
  mon::allowance();
  const int kinds = ri(0, 4);
  map<string, set<string>> headers;
  map<string, int> readers;
  vector<string> heads;
  vector<int> kindOf;
  for (int k = 0; k < kinds; ++k) {
    string tag = coin(.2) ? "" : word(1, 5);
    while (headers.count(tag) || tag.empty()) tag += 'q';
    readers[tag] = k;
    for (int n = ri(1, 3); n > 0; --n) {
      string h = str(word(0, 3), "<", k, ".", n, ">", word(0, 3));
      headers[tag].insert(h);
      heads.push_back(h);
      kindOf.push_back(k);
    }
  }
  static const vector<string> exts = {".x", ".log", ".out", ".fchk", ".a b", "."};
  const string ext = pick(exts), name = str("form", ri(0, 9), coin(.3) ? ".v1" : "", ext);
  Format f(coin(.3) ? "./" + name : name);
  // a section without one of its halves
  const bool lacks = kinds && coin(.15);
  auto h = headers;
  auto r = readers;
  if (lacks) {
    auto it = readers.begin();
    advance(it, ri(0, kinds - 1));
    if (coin()) h.erase(it->first); else r.erase(it->first);
  }
  f.headers(h);
  f.readers(r);
  op("format of ", kinds, " sections, ", heads.size(), " headers", lacks ? ", one lacks a half" : "");
  bool refused = false;
  try {
    f.complete();
  } catch (const exception &) {
    refused = true;
  }
  if (refused != lacks) {
    fail("a format of ", kinds, " sections, ", lacks ? "one without header or reader," : "all complete,", refused ? " is refused" : " is accepted");
    return;
  }
  mon::seen("registered ", kinds, lacks);
  if (f.getExt() != ext) fail("the extension of ", name, " is ", f.getExt());
  if (lacks) return;
  for (int k = 0; k < 4; ++k) f.take[k] = ri(0, 3);
  for (int round = 0; round < ri(1, 4); ++round) {
    // the file, and what is found in it
    Lines lines;
    const int n = ri(0, 25);
    for (int i = 0; i < n; ++i) {
      if (heads.size() && coin(.4))
        lines.push_back((coin() ? word(0, 4) : "") + pick(heads) + (coin() ? word(0, 4) : ""));
      else
        lines.push_back(word(0, 12));
    }
    string bytes;
    for (int i = 0; i < n; ++i) bytes += lines[i] + (i + 1 < n || coin(.8) ? "\n" : "");
    // the lines as they stand in the file
    size_t at = 0;
    lines.clear();
    while (at < bytes.size()) {
      size_t e = bytes.find('\n', at);
      if (e == string::npos) e = bytes.size();
      lines.push_back(bytes.substr(at, e - at));
      at = e + 1;
    }
    vector<string> want;
    for (size_t i = 0; i < lines.size();) {
      const string &l = lines[i++];
      int kind = -1;
      for (size_t q = 0; q < heads.size(); ++q)
        if (l.find(heads[q]) != string::npos) kind = kindOf[q];
      if (kind < 0) continue;
      string s = str("section ", kind, ":");
      for (int q = 0; q < f.take[kind] && i < lines.size(); ++q) s += " [" + lines[i++] + "]";
      want.push_back(s);
    }
    put(name, bytes);
    f.got.clear();
    const int bad = want.size() && coin(.2) ? ri(0, want.size() - 1) : -1;
    f.refuse = bad;
    op("a file of ", lines.size(), " lines with ", want.size(), " sections", bad < 0 ? "" : str(", refused at ", bad));
    refused = false;
    try {
      f.read();
    } catch (const exception &) {
      refused = true;
    }
    if (bad >= 0) want.resize(bad);
    if (refused != (bad >= 0)) {
      fail("reading ", bad < 0 ? "is refused" : "is not refused where a section is");
      return;
    }
    if (f.got != want) {
      fail("round ", round, ": ", f.got.size(), " sections instead of ", want.size(), ", the first: ",
           f.got.empty() ? "none" : f.got[0], " instead of ", want.empty() ? "none" : want[0]);
      return;
    }
    f.refuse = -1;
    mon::tally("sections compared", want.size());
    mon::seen("read ", kinds, " ", lines.size(), " ", want.size(), " ", bad, " ", round);
  }
  unlink(name.c_str());
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  mon::init(strtoull(argv[2], nullptr, 10) * 31 + 7);
  for (int i = atoi(argv[3]); i > 0; --i) format();
  return mon::done();
}
