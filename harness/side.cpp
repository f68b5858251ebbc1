// Independent work with the library, side by side: every piece of work is done
// alone in a process of its own first, then together with others, all alive at
// the same time and advanced in random order, then in several threads at once
// (built with ThreadSanitizer). What each piece of work yields has to be the
// same every time.
#include "work.hpp"

#include <atomic>
#include <thread>

static string joined(const vector<string> &v) {
  string s;
  for (auto &x : v) s += x + "\n";
  return s;
}

static string firstDifference(const string &a, const string &b) {
  istringstream x(a), y(b);
  string p, q;
  for (int n = 1;; ++n) {
    bool r = static_cast<bool>(getline(x, p)), s = static_cast<bool>(getline(y, q));
    if (!r && !s) return "nothing";
    if (!r) p = "(nothing more)";
    if (!s) q = "(nothing more)";
    if (p != q) {
      size_t k = 0;
      while (k < p.size() && k < q.size() && p[k] == q[k]) ++k;
      k = k > 30 ? k - 30 : 0;
      return mon::str("line ", n, " alone \"", p.substr(k, 110),
                      "\", together \"", q.substr(k, 110), "\"");
    }
    if (!r || !s) return "nothing";
  }
}

static void scenario(int no) {
  mon::allowance();
  static const vector<string> kinds{
      "coefficient file", "log file", "calculation", "calculation", "parser",
      "rules", "matrices", "reordering", "texts", "shared matrices"};
  shared.a.reset(new Matrix(filled(mon::rng, mon::ri(1, 7), mon::ri(1, 7))));
  shared.b.reset(new Matrix(filled(mon::rng, shared.a->get_cols(), mon::ri(1, 7))));
  shared.c.reset(new Matrix(*shared.a));
  vector<Recipe> rs;
  int n = mon::ri(2, 6);
  string only = mon::coin(.3) ? mon::pick(kinds) : "";
  for (int i = 0; i < n; ++i) {
    Recipe r{only.size() ? only : mon::pick(kinds), mon::rng(),
             static_cast<int>(mon::ri(0, systems.size() - 1)),
             mon::pick(vector<string>{"/dimer", "/mon1", "/mon2"})};
    if (i && mon::coin(.25)) r = rs[mon::ri(0, i - 1)];  // the same once more
    rs.push_back(r);
  }
  // alone, each in a process of its own
  vector<string> alone;
  for (auto &r : rs) {
    auto f = mon::forked([&] {
      auto w = make(r);
      while (w->step()) {
      }
      return joined(w->yield);
    });
    if (f.end != mon::RETURNED) {
      mon::fail("scenario ", no, ": a ", r.kind, " alone ", mon::name(f.end));
      return;
    }
    alone.push_back(f.note);
  }
  auto judge = [&](const char *how, size_t i, const string &got) {
    if (got != alone[i]) {
      mon::fail("scenario ", no, ": a ", rs[i].kind, " yields something else ",
                how, ": ", firstDifference(alone[i], got));
      return false;
    }
    mon::seen(how, " ", rs[i].kind, " ", hash<string>()(alone[i]));
    mon::tally(mon::str("same ", how, ": ", rs[i].kind));
    return true;
  };
  // one after the other in this process
  for (size_t i : {size_t(0), rs.size() - 1, size_t(0)}) {
    mon::op("one after the other: ", rs[i].kind);
    auto w = make(rs[i]);
    while (w->step()) {
    }
    if (!judge("after others", i, joined(w->yield))) return;
  }
  // all alive at the same time
  {
    vector<unique_ptr<Work>> w;
    vector<size_t> open;
    for (size_t i = 0; i < rs.size(); ++i) w.push_back(make(rs[i])), open.push_back(i);
    while (open.size()) {
      size_t k = mon::ri(0, open.size() - 1);
      mon::op("interleaved: ", rs[open[k]].kind, " step ", w[open[k]]->at);
      if (!w[open[k]]->step()) open.erase(open.begin() + k);
      mon::tally("interleaved steps");
    }
    for (size_t i = 0; i < rs.size(); ++i)
      if (!judge("interleaved", i, joined(w[i]->yield))) return;
  }
  // in threads
  {
    int copies = mon::coin(.4) ? 2 : 1;  // the same work in two threads
    vector<vector<string>> got(rs.size() * copies);
    vector<thread> ts;
    atomic<int> ready(0);
    int total = got.size();
    mon::op("in ", total, " threads");
    for (int t = 0; t < total; ++t) {
      unsigned long long sd = mon::rng();
      ts.emplace_back([&, t, sd] {
        Rng g(sd);
        ++ready;
        while (ready < total) this_thread::yield();
        auto w = make(rs[t % rs.size()]);
        bool more = true;
        while (more) {
          more = w->step();
          if (ri(g, 0, 3) == 0) this_thread::yield();
          if (ri(g, 0, 15) == 0) usleep(ri(g, 0, 400));
        }
        got[t] = w->yield;
      });
    }
    for (auto &t : ts) t.join();
    mon::tally("threads", total);
    for (int t = 0; t < total; ++t)
      if (!judge("in threads", t % rs.size(), joined(got[t]))) return;
  }
  mon::sample(n, " pieces of work, the first: ", rs[0].kind);
}

int main(int argc, char **argv) {
  unsigned long long seed = strtoull(argv[2], nullptr, 10);
  int total = atoi(argv[3]);
  for (int i = 4; i + 2 < argc; i += 3)
    systems.push_back({argv[i], argv[i + 1][0] == '1', argv[i + 2][0] == '1'});
  mon::init(seed);
  static Discard nowhere;  // warnings of calculations that are not reordered
  cerr.rdbuf(&nowhere);
  for (int i = 0; i < total; ++i) scenario(i);
  return mon::done();
}
