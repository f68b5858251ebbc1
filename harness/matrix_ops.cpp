// Monitors of the Matrix class: every operation is repeated on a model that
// stores its elements in a plain vector, and every matrix that is alive is
// compared with its model after each operation.
//
// usage: matrix_ops <mode> <seed> <scenarios>
#include "mon.hpp"

#include <algorithm>
#include <list>
#include <memory>
#include <stdexcept>
#include <utility>

#include "matrix.hpp"

using namespace catnip;
using namespace mon;
using namespace std;

struct Model {
  int r = 0, c = 0, s = 0;
  vector<double> v;
  Model() {}
  Model(int r_, int c_, int s_ = 1)
      : r(r_), c(c_), s(s_), v(static_cast<size_t>(r_) * c_ * s_, 0.0) {}
  double &at(int i, int j, int k = 1) {
    return v.at((static_cast<size_t>(i - 1) * c + (j - 1)) * s + (k - 1));
  }
  double get(int i, int j, int k = 1) const {
    return v.at((static_cast<size_t>(i - 1) * c + (j - 1)) * s + (k - 1));
  }
  Model shaped(int r2, int c2, int s2) const {
    Model m(r2, c2, s2);
    for (int i = 1; i <= min(r, r2); ++i)
      for (int j = 1; j <= min(c, c2); ++j)
        for (int k = 1; k <= min(s, s2); ++k) m.at(i, j, k) = get(i, j, k);
    return m;
  }
  string dims() const { return str(r, "x", c, "x", s); }
};

static bool same(double a, double b) {
  return memcmp(&a, &b, sizeof a) == 0 || a == b;
}

static string diff(Matrix &m, const Model &o, bool full = true) {
  if (m.get_rows() != o.r || m.get_cols() != o.c || m.get_shel() != o.s)
    return str("dimensions ", m.get_rows(), "x", m.get_cols(), "x",
               m.get_shel(), " instead of ", o.dims());
  if (m.total_elem() != o.r * o.c * o.s)
    return str("total_elem ", m.total_elem(), " for ", o.dims());
  if (!full) return "";
  for (int i = 1; i <= o.r; ++i)
    for (int j = 1; j <= o.c; ++j)
      for (int k = 1; k <= o.s; ++k) {
        double a = m.get_elem(i, j, k), b = o.get(i, j, k);
        if (!same(a, b))
          return str("element (", i, ",", j, ",", k, ") of ", o.dims(), " is ",
                     a, " instead of ", b);
      }
  return "";
}

static double value() {
  switch (ri(0, 9)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return ri(-9, 9);
    case 3: return rd(-1, 1) * 1e-300;
    case 4: return rd(-1, 1) * 1e300;
    default: return rd(-100, 100);
  }
}

static void fill(Matrix &m, Model &o) {
  for (int i = 1; i <= o.r; ++i)
    for (int j = 1; j <= o.c; ++j)
      for (int k = 1; k <= o.s; ++k) {
        double x = value();
        m.set_elem(x, i, j, k);
        o.at(i, j, k) = x;
      }
}

// how often a matrix is larger than any table that is worth writing by hand
static double bigShare = 0;

static int small() {
  return coin(0.2) ? 1 : coin(0.1) ? ri(8, 20) : ri(1, 6);
}

// A matrix and its model
static pair<Matrix, Model> fresh(bool flat = false, bool empty = true) {
  if (empty && coin(0.05)) return {Matrix(0), Model(0, 0, 0)};
  if (empty && coin(0.05)) {
    Matrix m;
    Model o(1, 1);
    return {m, o};
  }
  int r = small(), c = small(), s = flat || coin(0.6) ? 1 : ri(2, 4);
  if (bigShare > 0 && coin(bigShare)) {
    r = ri(150, 400);
    c = ri(150, 400);
    s = 1;
  } else if (coin(0.15)) {
    Matrix m(r);
    Model o(r, 1);
    fill(m, o);
    return {m, o};
  }
  Matrix m = s == 1 && coin() ? Matrix(r, c) : Matrix(r, c, s);
  Model o(r, c, s);
  fill(m, o);
  return {m, o};
}

// ---------------------------------------------------------------- value

static void byValue(Matrix m, const Model &o, string &err) {
  err = diff(m, o);
  if (o.v.size()) m.set_elem(-12345.5);
  if (o.r > 1) m.set_rows(o.r - 1);
  m.set_cols(o.c + 1);
}

static Matrix handOut(const Matrix &m) { return m; }

struct Holder {  // generated copy operations of a member
  string name;
  Matrix m;
  vector<Matrix> more;
};

// Products belong to whoever asked for them: each keeps its value while many
// others, of equal and of other dimensions, are made and changed.
static vector<function<bool()>> kept;

static void productScenario() {
  kept.clear();
  int n = ri(1, 4), count = ri(4, 60);
  function<void(int)> make = [&](int left) {
    if (left == 0) {
      for (auto &f : kept)
        if (!f()) {
          fail("a product has changed while ", count - 1, " others were made");
          break;
        }
      return;
    }
    int r = coin() ? n : ri(1, 5), k = ri(1, 4), c = coin() ? n : ri(1, 5);
    Matrix a(r, k), b(k, c);
    for (int i = 1; i <= r; ++i)
      for (int t = 1; t <= k; ++t) a.set_elem(ri(-9, 9), i, t);
    for (int t = 1; t <= k; ++t)
      for (int j = 1; j <= c; ++j) b.set_elem(ri(-9, 9), t, j);
    auto &&p = a * b;
    Model want(r, c);
    for (int i = 1; i <= r; ++i)
      for (int j = 1; j <= c; ++j)
        for (int t = 1; t <= k; ++t)
          want.at(i, j) += a.get_elem(i, t) * b.get_elem(t, j);
    Matrix *q = &p;
    kept.push_back([q, want] { return diff(*q, want).empty(); });
    if (coin(0.1)) {  // a product that is changed is nobody else's
      size_t last = kept.size() - 1;
      q->set_elem(77, 1, 1);
      want.at(1, 1) = 77;
      kept[last] = [q, want] { return diff(*q, want).empty(); };
    }
    make(left - 1);
  };
  op("products ", count);
  make(count);
  kept.clear();
  seen("products kept ", count, " ", n);
  tally("products kept", count);
}

static void valueScenario() {
  vector<pair<unique_ptr<Matrix>, Model>> pool;
  vector<Matrix> vec;
  vector<Model> vecModel;
  auto check = [&](const string &what) {
    for (size_t i = 0; i < pool.size(); ++i) {
      string d = diff(*pool[i].first, pool[i].second);
      if (d.size()) {
        fail("after ", what, ": matrix ", i, " has ", d);
        return;
      }
    }
    for (size_t i = 0; i < vec.size(); ++i) {
      string d = diff(vec[i], vecModel[i]);
      if (d.size()) {
        fail("after ", what, ": element ", i, " of the vector has ", d);
        return;
      }
    }
    tally("matrices compared", pool.size() + vec.size());
    evals += pool.size() + vec.size();
  };
  for (int i = 0; i < 4; ++i) {
    auto p = fresh();
    pool.emplace_back(make_unique<Matrix>(p.first), p.second);
  }
  int steps = ri(20, 50);
  for (int t = 0; t < steps; ++t) {
    size_t a = ri(0, pool.size() - 1), b = ri(0, pool.size() - 1);
    Model ma = pool[a].second, mb = pool[b].second;
    Matrix &A = *pool[a].first, &B = *pool[b].first;
    string what;
    switch (ri(0, 15)) {
      case 0:
        what = "copy construction";
        op(what, " of ", a, " ", ma.dims());
        pool.emplace_back(make_unique<Matrix>(A), ma);
        break;
      case 1:
      case 2:
        what = a == b ? "assignment to itself" : "assignment";
        op(what, " ", a, " ", ma.dims(), " = ", b, " ", mb.dims());
        {
          Matrix &res = (A = B);
          if (&res != &A) fail("assignment does not give the assigned matrix");
        }
        pool[a].second = mb;
        break;
      case 3:
        what = "chained assignment";
        op(what, " ", a, " = ", b, " = new");
        {
          auto p = fresh();
          A = B = p.first;
          pool[a].second = pool[b].second = p.second;
        }
        break;
      case 4:
        what = "Matrix_copy";
        if (ma.v.empty()) break;  // has no dimensions to copy
        op(what, " of ", a, " ", ma.dims());
        pool.emplace_back(make_unique<Matrix>(Matrix_copy(A)), ma);
        break;
      case 5: {
        what = "passing by value";
        op(what, " ", a, " ", ma.dims());
        string err;
        byValue(A, ma, err);
        if (err.size()) fail("the matrix passed by value has ", err);
        break;
      }
      case 6: {
        what = "returning by value";
        op(what, " ", a, " to ", b);
        *pool[b].first = handOut(A);
        pool[b].second = ma;
        break;
      }
      case 7: {
        what = "std::swap";
        op(what, " ", a, " ", b);
        swap(A, B);
        swap(pool[a].second, pool[b].second);
        break;
      }
      case 8: {
        what = "push_back";
        op(what, " ", a, " ", ma.dims());
        vec.push_back(A);
        vecModel.push_back(ma);
        break;
      }
      case 9: {
        what = "insert into a vector";
        op(what, " ", a, " ", ma.dims());
        int n = ri(1, 3), pos = ri(0, vec.size());
        vec.insert(vec.begin() + pos, n, A);
        vecModel.insert(vecModel.begin() + pos, n, ma);
        break;
      }
      case 10: {
        what = "erase from a vector";
        if (vec.empty()) break;
        int pos = ri(0, vec.size() - 1);
        op(what, " ", pos);
        vec.erase(vec.begin() + pos);
        vecModel.erase(vecModel.begin() + pos);
        break;
      }
      case 11: {
        what = "copying of a containing object";
        op(what, " ", a);
        Holder h{"h", A, {A, B}};
        Holder g = h;
        h.m.set_cols(ma.c + 2);
        h.more.clear();
        Holder k{"k", Matrix(2, 2), {}};
        k = g;
        g.more[0] = g.more[1];
        string d = diff(k.m, ma);
        if (d.empty()) d = diff(k.more[0], ma);
        if (d.empty()) d = diff(k.more[1], mb);
        if (d.size()) fail("the copied member has ", d);
        break;
      }
      case 12:
      case 13: {
        what = "changing an element";
        if (ma.v.empty()) break;
        int i = ri(1, ma.r), j = ri(1, ma.c), k = ri(1, ma.s);
        double x = value();
        op(what, " of ", a);
        A.set_elem(x, i, j, k);
        pool[a].second.at(i, j, k) = x;
        break;
      }
      case 14: {
        what = "changing the dimensions";
        if (ma.v.empty()) break;
        int n = ri(1, 8);
        op(what, " of ", a, " ", ma.dims(), " ", n);
        switch (ri(0, 3)) {
          case 0: A.set_rows(n); pool[a].second = ma.shaped(n, ma.c, ma.s); break;
          case 1: A.set_cols(n); pool[a].second = ma.shaped(ma.r, n, ma.s); break;
          case 2: A.set_shel(n); pool[a].second = ma.shaped(ma.r, ma.c, n); break;
          default: A.resize(n, n + 1); pool[a].second = ma.shaped(n, n + 1, 1);
        }
        break;
      }
      default: {
        what = "destruction";
        if (pool.size() < 4) break;
        op(what, " of ", a);
        pool.erase(pool.begin() + a);
      }
    }
    check(what);
    seen(what, " ", ma.dims(), " ", a == b ? "same" : mb.dims());
    if (pool.size() > 14) pool.erase(pool.begin() + ri(0, pool.size() - 1));
    if (vec.size() > 8) {
      vec.pop_back();
      vecModel.pop_back();
    }
  }
  productScenario();
  // sorting moves every element several times
  for (size_t i = vec.size(); i > 1; --i) {
    size_t j = ri(0, i - 1);
    swap(vec[i - 1], vec[j]);
    swap(vecModel[i - 1], vecModel[j]);
  }
  check("shuffling a vector");
}

#ifdef MON_ASAN
static void leakScenario() {
  // the storage of every matrix is given back: after all of them are gone
  // the heap is as large as it was before
  auto work = [] {
    auto p = fresh();
    Matrix a(p.first), b;
    b = a;
    b = b;
    vector<Matrix> v(3, a);
    v.resize(7, b);
    v.erase(v.begin());
    if (p.second.v.size()) {
      a.set_rows(p.second.r + 3);
      a.set_cols(p.second.c + 3);
      a.set_shel(p.second.s + 2);
      a.set_rows(1);
      a.set_cols(1);
      a.set_shel(1);
      a.resize(5, 6);
      Matrix t = a.invert();
      t = Matrix_concatenate_rows(t, t);
      t = Matrix_concatenate_cols(t, t);
      t = Matrix_diag(t.getRow(1));
      t.swap_row(1, 2);
      t.move_col(2, 4);
      t = t.getCol(2);
      t.matchCol(t, 3);
    }
    b = Matrix(0);
  };
  auto state = rng;
  work();  // allocations that happen once
  rng = state;
  fflush(stdout);
  size_t before = __sanitizer_get_current_allocated_bytes();
  for (int i = 0; i < 5; ++i) {
    rng = state;
    work();
  }
  fflush(stdout);
  size_t after = __sanitizer_get_current_allocated_bytes();
  // everything is repeated exactly, so nothing may accumulate
  if (after > before)
    fail("copies and shape changes leave ", after - before,
         " bytes allocated after all matrices are gone");
  seen("storage returned");
  tally("storage balances compared");
}
#endif

// ---------------------------------------------------------------- shape

// The numbers of elements of calculations of thousands of functions
static void bigScenario() {
  int r = ri(150, 900), c = ri(150, 900), s = coin(0.7) ? 1 : ri(2, 3);
  if (coin(0.12)) {  // millions of elements
    r = ri(2060, 2600);
    c = ri(2060, 2600);
    s = 1;
    if (coin(0.3)) { c = ri(2, 40); r = ri(70000, 120000); }
  }
  op("big matrix ", r, "x", c, "x", s);
  Matrix m = s == 1 ? Matrix(r, c) : Matrix(r, c, s);
  Model o(r, c, s);
  for (int t = 0; t < 400; ++t) {
    int i = t < 8 ? (t & 1 ? r : 1) : ri(1, r);
    int j = t < 8 ? (t & 2 ? c : 1) : ri(1, c);
    int k = t < 8 ? (t & 4 ? s : 1) : ri(1, s);
    double x = value();
    m.set_elem(x, i, j, k);
    o.at(i, j, k) = x;
  }
  string d = diff(m, o);
  for (int t = 0; t < 3 && d.empty(); ++t) {
    int n = ri(100, 900);
    switch (ri(0, 3)) {
      case 0: m.set_rows(n); o = o.shaped(n, o.c, o.s); break;
      case 1: m.set_cols(n); o = o.shaped(o.r, n, o.s); break;
      case 2: m.set_shel(2); o = o.shaped(o.r, o.c, 2); break;
      default: m.resize(n, c); o = o.shaped(n, c, 1);
    }
    d = diff(m, o);
  }
  if (d.empty()) {
    Matrix copied(m);
    d = diff(copied, o);
  }
  if (d.size()) fail("big matrix: ", d);
  seen("big matrix ", r / 100, "x", c / 100, "x", s);
  tally("big matrices");
}

static void shapeScenario() {
  if (coin(0.004)) bigScenario();
  // constructors
  {
    int n = ri(1, 9), k = ri(1, 9);
    vector<double> d(n);
    vector<int> iv(n);
    vector<vector<double>> vv(n, vector<double>(k));
    Model od(n, 1), oi(n, 1), ov(n, k);
    for (int i = 0; i < n; ++i) {
      od.at(i + 1, 1) = d[i] = value();
      oi.at(i + 1, 1) = iv[i] = coin(0.3) ? ri(-2147483647, 2147483647) : ri(-100000, 100000);
      for (int j = 0; j < k; ++j) ov.at(i + 1, j + 1) = vv[i][j] = value();
    }
    Matrix a(d), b(iv), c(vv), z(n), y(n, k), x(n, k, 3), e;
    op("constructors ", n, " ", k);
    pair<Matrix *, Model> all[] = {{&a, od},           {&b, oi},
                                   {&c, ov},           {&z, Model(n, 1)},
                                   {&y, Model(n, k)},  {&x, Model(n, k, 3)},
                                   {&e, Model(1, 1)}};
    int which = 0;
    for (auto &p : all) {
      string m = diff(*p.first, p.second);
      if (m.size()) fail("constructor ", which, ": ", m);
      seen("constructor ", which++, " ", p.second.dims());
    }
    if (n > 1) {
      auto bad = vv;
      bad[ri(1, n - 1)].push_back(1);
      bool threw = false;
      try {
        Matrix w(bad);
      } catch (const exception &) {
        threw = true;
      }
      if (!threw) fail("rows of different lengths are accepted");
      seen("ragged rows refused");
    }
  }
  auto p = fresh(false, false);
  Matrix &m = p.first;
  Model &o = p.second;
  int steps = ri(10, 30);
  for (int t = 0; t < steps; ++t) {
    string what;
    Model was = o;
    int n = coin(0.1) ? 0 : coin(0.1) ? ri(10, 40) : coin(0.004) ? ri(130, 300) : ri(1, 7);
    switch (ri(0, 13)) {
      case 11:
      case 12: {
        bool isRow = coin();
        what = isRow ? "set_row" : "set_col";
        if (o.v.empty()) break;
        int at = ri(1, isRow ? o.r : o.c);
        if (coin(0.3)) at = isRow ? o.r : o.c;
        vector<double> xs(isRow ? o.c : o.r);
        for (auto &x : xs) x = value();
        op(what, " ", at, " on ", o.dims());
        if (isRow)
          m.set_row(xs, at);
        else
          m.set_col(xs, at);
        for (size_t x = 0; x < xs.size(); ++x)
          o.at(isRow ? at : x + 1, isRow ? x + 1 : at, 1) = xs[x];
        auto back = isRow ? m.get_row(at) : m.get_col(at);
        if (back.size() != xs.size() ||
            !equal(xs.begin(), xs.end(), back.begin(), same))
          fail(what, " ", at, " does not read back");
        break;
      }
      case 0:
        what = "set_rows";
        op(what, " ", n, " on ", o.dims());
        m.set_rows(n);
        o = o.shaped(n, o.c, o.s);
        break;
      case 1:
        what = "set_cols";
        op(what, " ", n, " on ", o.dims());
        m.set_cols(n);
        o = o.shaped(o.r, n, o.s);
        break;
      case 2:
        what = "set_shel";
        n = min(n, 6);
        op(what, " ", n, " on ", o.dims());
        m.set_shel(n);
        o = o.shaped(o.r, o.c, n);
        break;
      case 3: {
        what = "resize";
        int c2 = ri(1, 9);
        if (n < 1 || o.v.empty()) break;
        op(what, " ", n, ",", c2, " on ", o.dims());
        m.resize(n, c2);
        o = o.shaped(n, c2, 1);
        break;
      }
      case 4: {
        what = "first element";
        if (o.v.empty()) break;
        double x = value();
        op(what);
        m.set_elem(x);
        o.at(1, 1, 1) = x;
        if (!same(m.get_elem(), x)) fail("get_elem() is not the set element");
        break;
      }
      case 5: {
        what = "element of a column vector";
        if (o.v.empty()) break;
        int i = ri(1, o.r);
        double x = value();
        op(what, " ", i);
        m.set_elem(x, i);
        o.at(i, 1, 1) = x;
        if (!same(m.get_elem(i), x)) fail("get_elem(r) is not the set element");
        break;
      }
      case 6: {
        what = "element of two dimensions";
        if (o.v.empty()) break;
        int i = ri(1, o.r), j = ri(1, o.c);
        double x = value();
        op(what, " ", i, " ", j);
        m.set_elem(x, i, j);
        o.at(i, j, 1) = x;
        if (!same(m.get_elem(i, j), x))
          fail("get_elem(r,c) is not the set element");
        break;
      }
      case 7: {
        what = "element of three dimensions";
        if (o.v.empty()) break;
        int i = ri(1, o.r), j = ri(1, o.c), k = ri(1, o.s);
        double x = value();
        op(what);
        m.set_elem(x, i, j, k);
        o.at(i, j, k) = x;
        break;
      }
      case 8: {
        what = "element through its pointer";
        if (o.v.empty()) break;
        int i = ri(1, o.r), j = ri(1, o.c);
        op(what);
        double *q = m.get_elem_ptr(i, j);
        if (!same(*q, o.get(i, j, 1)))
          fail("get_elem_ptr does not point to the element");
        *q = value();
        o.at(i, j, 1) = *q;
        break;
      }
      case 9: {
        what = "refill";
        if (o.r == 0) { m.set_rows(2); o = o.shaped(2, o.c, o.s); }
        if (o.c == 0) { m.set_cols(3); o = o.shaped(o.r, 3, o.s); }
        if (o.s == 0) { m.set_shel(1); o = o.shaped(o.r, o.c, 1); }
        op(what);
        fill(m, o);
        break;
      }
      case 10: {
        what = "printing";
        op(what);
        for (auto &x : o.v) x = ri(-99999, 99999) * pow(10.0, coin(.1) ? ri(-250, 250) : ri(-4, 0));
        for (int i = 1; i <= o.r; ++i)
          for (int j = 1; j <= o.c; ++j)
            for (int k = 1; k <= o.s; ++k)
              m.set_elem(o.get(i, j, k), i, j, k);
        ostringstream out;
        out << m;
        // every number that follows a "Row i" label, in order
        istringstream in(out.str());
        string ln;
        vector<pair<int, vector<double>>> rows;
        map<string, int> attr;
        while (getline(in, ln)) {
          istringstream w(ln);
          string first;
          int num;
          if (!(w >> first >> num)) continue;
          if (first == "Row") {
            vector<double> xs;
            double x;
            while (w >> x) xs.push_back(x);
            rows.emplace_back(num, xs);
          } else if (first != "Col") {
            attr[first] = num;
          }
        }
        string bad;
        if (attr["rows"] != o.r || attr["cols"] != o.c || attr["shel"] != o.s)
          bad = "dimensions are printed wrong";
        else if (rows.size() != static_cast<size_t>(o.r) * o.s)
          bad = str(rows.size(), " rows are printed for ", o.dims());
        else
          for (int k = 1; k <= o.s && bad.empty(); ++k)
            for (int i = 1; i <= o.r && bad.empty(); ++i) {
              auto &row = rows[static_cast<size_t>(k - 1) * o.r + i - 1];
              if (row.first != i || static_cast<int>(row.second.size()) != o.c)
                bad = str("row ", i, " of shelf ", k, " is printed wrong");
              else
                for (int j = 1; j <= o.c; ++j)
                  if (fabs(row.second[j - 1] - o.get(i, j, k)) >
                      1e-5 * fabs(o.get(i, j, k)))
                    bad = str("element (", i, ",", j, ",", k, ") ",
                              o.get(i, j, k), " is printed as ",
                              row.second[j - 1]);
            }
        if (bad.size()) fail(bad, ": ", out.str());
        break;
      }
      default: {
        what = "row and column access";
        if (o.v.empty()) break;
        int i = ri(1, o.r), j = ri(1, o.c);
        op(what, " ", i, " ", j, " ", o.dims());
        auto row = m.get_row(i), col = m.get_col(j);
        Matrix R = m.getRow(i), C = m.getCol(j);
        Model mr(1, o.c, o.s), mc(o.r, 1, o.s);
        for (int a = 1; a <= o.c; ++a)
          for (int k = 1; k <= o.s; ++k) mr.at(1, a, k) = o.get(i, a, k);
        for (int a = 1; a <= o.r; ++a)
          for (int k = 1; k <= o.s; ++k) mc.at(a, 1, k) = o.get(a, j, k);
        string d = diff(R, mr);
        if (d.empty()) d = diff(C, mc);
        if (d.empty() && (static_cast<int>(row.size()) != o.c ||
                          static_cast<int>(col.size()) != o.r))
          d = "the wrong number of values";
        if (d.empty()) {
          for (int a = 1; a <= o.c; ++a)
            if (!same(row[a - 1], o.get(i, a))) d = "a wrong value in the row";
          for (int a = 1; a <= o.r; ++a)
            if (!same(col[a - 1], o.get(a, j))) d = "a wrong value in the column";
        }
        if (d.size()) fail("row ", i, " and column ", j, ": ", d);
      }
    }
    string d = diff(m, o);
    if (d.size()) {
      fail("after ", what, " on ", was.dims(), ": ", d);
      return;
    }
    seen(what, " ", was.dims(), " -> ", o.dims());
  }
}

// ---------------------------------------------------------------- range

// an index outside of 1..n
static int outside(int n) {
  switch (ri(0, 6)) {
    case 0: return 0;
    case 1: return -1;
    case 2: return n + 1;
    case 3: return n + static_cast<int>(ri(2, 50));
    case 4: return -static_cast<int>(ri(2, 1000));
    case 5: return 2147483647 - static_cast<int>(ri(0, 3));
    default: return -2147483647;
  }
}

static void rangeScenario() {
  auto p = fresh();
  Matrix &m = p.first;
  Model &o = p.second;
  if (o.v.empty() && coin(0.7)) {
    m.set_rows(3);
    o = o.shaped(3, o.c, o.s);
  }
  int R = o.r, C = o.c, S = o.s;
  int i = R ? ri(1, R) : 1, j = C ? ri(1, C) : 1, k = S ? ri(1, S) : 1;
  string what;
  function<void()> f;
  switch (ri(0, 34)) {
    case 32: {
      // more elements than can be counted
      auto vastly = [] { return coin() ? 1 << 30 : 1073741824 + static_cast<int>(ri(-99, 999999999)); };
      int a = vastly(), b = vastly(), w = ri(0, 4);
      if (w == 2) b = ri(2, 9);
      what = str(vector<string>{"Matrix(", "Matrix(n,n,", "Matrix(n,", "resize(", "Matrix(4,n,"}[w], a, ",", b, ")");
      f = [&, a, b, w] {
        if (w == 0) Matrix x(a, b);
        if (w == 1) Matrix x(a, b, a);
        if (w == 2) Matrix x(a, b, a);
        if (w == 3) m.resize(a, b);
        if (w == 4) Matrix x(4, a, b);
      };
      break;
    }
    case 33: {
      int w = ri(0, 2), n = coin() ? 2147483647 : 1 << 30;
      if (!R || !C || !S) return;
      long each = w == 0 ? C * S : w == 1 ? R * S : R * C;
      if (each * n < (1L << 32)) return;
      what = str(vector<string>{"set_rows(", "set_cols(", "set_shel("}[w], n, ")");
      f = [&, w, n] {
        if (w == 0) m.set_rows(n);
        if (w == 1) m.set_cols(n);
        if (w == 2) m.set_shel(n);
      };
      break;
    }
    case 31: {
      int n = ri(2, 5), w = ri(1, 5), at = ri(0, n - 1);
      int by = w > 1 && coin() ? -1 : ri(1, 4);
      what = str("Matrix of ", n, " rows of ", w, " with one of ", w + by);
      f = [n, w, at, by] {
        vector<vector<double>> vv(n, vector<double>(w, 1.5));
        vv[at].resize(w + by, 2.5);
        Matrix x(vv);
      };
      break;
    }
    case 0: { int a = outside(R); what = str("get_elem(", a, ")"); f = [&, a] { m.get_elem(a); }; break; }
    case 1: { int a = outside(R); what = str("get_elem(", a, ",", j, ")"); f = [&, a, j] { m.get_elem(a, j); }; break; }
    case 2: { int a = outside(C); what = str("get_elem(", i, ",", a, ")"); f = [&, a, i] { m.get_elem(i, a); }; break; }
    case 3: { int a = outside(R); what = str("get_elem(", a, ",", j, ",", k, ")"); f = [&, a, j, k] { m.get_elem(a, j, k); }; break; }
    case 4: { int a = outside(C); what = str("get_elem(", i, ",", a, ",", k, ")"); f = [&, a, i, k] { m.get_elem(i, a, k); }; break; }
    case 5: { int a = outside(S); what = str("get_elem(", i, ",", j, ",", a, ")"); f = [&, a, i, j] { m.get_elem(i, j, a); }; break; }
    case 6: { int a = outside(R); what = str("set_elem(x,", a, ")"); f = [&, a] { m.set_elem(1.5, a); }; break; }
    case 7: { int a = outside(R); what = str("set_elem(x,", a, ",", j, ")"); f = [&, a, j] { m.set_elem(1.5, a, j); }; break; }
    case 8: { int a = outside(C); what = str("set_elem(x,", i, ",", a, ")"); f = [&, a, i] { m.set_elem(1.5, i, a); }; break; }
    case 9: { int a = outside(R); what = str("set_elem(x,", a, ",", j, ",", k, ")"); f = [&, a, j, k] { m.set_elem(1.5, a, j, k); }; break; }
    case 10: { int a = outside(C); what = str("set_elem(x,", i, ",", a, ",", k, ")"); f = [&, a, i, k] { m.set_elem(1.5, i, a, k); }; break; }
    case 11: { int a = outside(S); what = str("set_elem(x,", i, ",", j, ",", a, ")"); f = [&, a, i, j] { m.set_elem(1.5, i, j, a); }; break; }
    case 12: { int a = outside(R); what = str("get_row(", a, ")"); f = [&, a] { m.get_row(a); }; break; }
    case 13: { int a = outside(C); what = str("get_col(", a, ")"); f = [&, a] { m.get_col(a); }; break; }
    case 14: { int a = outside(R); what = str("getRow(", a, ")"); f = [&, a] { m.getRow(a); }; break; }
    case 15: { int a = outside(C); what = str("getCol(", a, ")"); f = [&, a] { m.getCol(a); }; break; }
    case 16: { int a = outside(R); what = str("set_row(v,", a, ")"); f = [&, a, C] { m.set_row(vector<double>(C, 2.5), a); }; break; }
    case 17: { int a = outside(C); what = str("set_col(v,", a, ")"); f = [&, a, R] { m.set_col(vector<double>(R, 2.5), a); }; break; }
    case 18: { int n = C + (coin() || C == 0 ? ri(1, 5) : -1); what = str("set_row with ", n, " values"); f = [&, n, i] { m.set_row(vector<double>(n, 2.5), i); }; break; }
    case 19: { int n = R + (coin() || R == 0 ? ri(1, 5) : -1); what = str("set_col with ", n, " values"); f = [&, n, j] { m.set_col(vector<double>(n, 2.5), j); }; break; }
    case 20: { int a = outside(R); bool w = coin(); what = str("swap_row of ", i, " and ", a); f = [&, a, w, i] { if (w) m.swap_row(a, i); else m.swap_row(i, a); }; if (a == i) return; break; }
    case 21: { int a = outside(C); bool w = coin(); what = str("swap_col of ", j, " and ", a); f = [&, a, w, j] { if (w) m.swap_col(a, j); else m.swap_col(j, a); }; if (a == j) return; break; }
    case 22: { int a = outside(R); bool w = coin(); what = str("move_row of ", i, " and ", a); f = [&, a, w, i] { if (w) m.move_row(a, i); else m.move_row(i, a); }; if (a == i) return; break; }
    case 23: { int a = outside(C); bool w = coin(); what = str("move_col of ", j, " and ", a); f = [&, a, w, j] { if (w) m.move_col(a, j); else m.move_col(j, a); }; if (a == j) return; break; }
    case 24: {
      int d[3] = {small(), small(), small()}, n = ri(1, 3);
      d[ri(0, n - 1)] = n == 1 ? -static_cast<int>(ri(1, 99)) : -static_cast<int>(ri(0, 99));
      what = n == 1 ? str("Matrix(", d[0], ")") : n == 2 ? str("Matrix(", d[0], ",", d[1], ")") : str("Matrix(", d[0], ",", d[1], ",", d[2], ")");
      f = [n, a = d[0], b = d[1], c = d[2]] {
        if (n == 1) Matrix x(a);
        if (n == 2) Matrix x(a, b);
        if (n == 3) Matrix x(a, b, c);
      };
      break;
    }
    case 25: {
      int n = -static_cast<int>(ri(1, 99)), w = ri(0, 4);
      what = str(vector<string>{"set_rows(", "set_cols(", "set_shel(", "resize(n,", "resize("}[w], n, ")");
      f = [&, n, w] {
        if (w == 0) m.set_rows(n);
        if (w == 1) m.set_cols(n);
        if (w == 2) m.set_shel(n);
        if (w == 3) m.resize(2, n);
        if (w == 4) m.resize(n, 2);
      };
      break;
    }
    case 26: {
      bool w = coin();
      what = "resize to nothing";
      f = [&, w] { w ? m.resize(0, 2) : m.resize(2, 0); };
      break;
    }
    case 27: {
      int w = ri(0, 2), n = C + (C > 1 && coin() ? -1 : 1);
      if (!R || !C || !S) return;
      what = str("product of ", o.dims(), " with a matrix of ", w == 0 ? "other rows" : "shelves");
      f = [&, w, n, C] {
        Matrix x = w == 0 ? Matrix(n, 3) : Matrix(C, 3, 2);
        if (w == 2) { Matrix y(2, C, 2); y * x; }
        else m * x;
      };
      break;
    }
    case 28: {
      if (S < 1 || R < 1 || C < 1 || (S == 1 && (R == 1 || C == 1))) return;
      what = str("Matrix_diag of ", o.dims());
      f = [&] { Matrix_diag(m); };
      break;
    }
    case 29: {
      if (S < 2) return;
      what = str("invert of ", o.dims());
      f = [&] { m.invert(); };
      break;
    }
    case 30: {
      if (!R || !C || !S) return;
      bool w = coin(), shelves = coin(0.3);
      what = str(w ? "matchRow" : "matchCol", " of ", o.dims(), shelves ? " with shelves" : " with other dimensions");
      f = [&, w, shelves, R, C] {
        Matrix x = shelves ? Matrix(R, C, 2) : w ? Matrix(R, C + 1) : Matrix(R + 1, C);
        if (w) m.matchRow(x, 4); else m.matchCol(x, 4);
      };
      break;
    }
    default: {
      if (o.v.size()) {
        bool rows = coin();
        int a = outside(rows ? R : C);
        what = rows ? str("get_elem_ptr(", a, ",", j, ")") : str("get_elem_ptr(", i, ",", a, ")");
        f = [&, a, rows, i, j] {
          double *q = rows ? m.get_elem_ptr(a, j) : m.get_elem_ptr(i, a);
          *q = *q + 1;
        };
      } else {
        bool w = coin();
        what = w ? "get_elem() of an empty matrix" : "set_elem(x) of an empty matrix";
        f = [&, w] { if (w) m.get_elem(); else m.set_elem(3.5); };
      }
    }
  }
  op(what, " on ", o.dims());
  auto e = forked([&] {
    string note;
    try {
      f();
    } catch (const exception &) {
      note = diff(m, o);
      if (note.size()) return note;
      throw;
    }
    return note;
  });
  if (e.note.size())
    fail(what, " on ", o.dims(), " is refused but leaves ", e.note);
  else if (!refused(e.end))
    fail(what, " on ", o.dims(), " is not refused: ", name(e.end));
  string key = what.substr(0, what.find('('));
  seen(key, " ", o.dims());
  tally(str("refused by ", name(e.end)));
}

// ---------------------------------------------------------------- algebra

static void algebraScenario() {
  int n = small(), k = small(), l = small();
  if (coin(0.03)) n = k = l = ri(25, 45);
  if (coin(0.01)) (coin() ? n : coin() ? k : l) = ri(120, 400);
  bool ints = coin(0.4), wide = coin(0.3);
  auto mk = [&](int r, int c) {
    Matrix m(r, c);
    Model o(r, c);
    // operands as a whole may be tiny or huge; products stay within range
    double scale = wide && !ints ? pow(10.0, ri(-95, 95)) : 1;
    if (wide && coin(0.2)) scale = 1;
    for (int i = 1; i <= r; ++i)
      for (int j = 1; j <= c; ++j) {
        double x = ints ? ri(-50, 50) : rd(-3, 3) * (coin(0.1) ? 1e6 : 1) * scale;
        if (wide && !ints && coin(0.15)) x *= pow(10.0, ri(-12, 2));
        m.set_elem(x, i, j);
        o.at(i, j) = x;
      }
    return make_pair(m, o);
  };
  auto expect = [&](Matrix m, const Model &o, const string &what) {
    string d = diff(m, o);
    if (d.size()) fail(what, ": ", d);
    seen(what, " ", o.dims());
  };
  auto A = mk(n, k), B = mk(k, l), V = mk(n, k), W = mk(n, l), Z = mk(l, k);
  op("product ", n, " ", k, " ", l);
  auto &&P = A.first * B.first;
  if (P.get_rows() != n || P.get_cols() != l || P.get_shel() != 1)
    fail("product of ", n, "x", k, " and ", k, "x", l, " is ", P.get_rows(),
         "x", P.get_cols());
  else
    for (int i = 1; i <= n; ++i)
      for (int j = 1; j <= l; ++j) {
        double sum = 0, mag = 0;
        for (int t = 1; t <= k; ++t) {
          sum += A.second.get(i, t) * B.second.get(t, j);
          mag += fabs(A.second.get(i, t) * B.second.get(t, j));
        }
        double tol = ints ? 0 : 1e-13 * mag * k;
        if (!(fabs(P.get_elem(i, j) - sum) <= tol)) {
          fail("element (", i, ",", j, ") of the product ", n, "x", k, "x", l,
               " is ", P.get_elem(i, j), " instead of ", sum);
          i = n;
          break;
        }
      }
  seen("product ", n, "x", k, "x", l, ints ? " exact" : "");
  // a product of products
  {
    auto D = mk(l, ri(1, 4));
    op("triple product");
    Matrix X = A.first * (B.first * D.first), Y = (A.first * B.first) * D.first;
    string d;
    if (X.get_rows() != n || Y.get_rows() != n ||
        X.get_cols() != Y.get_cols())
      d = "dimensions";
    for (int i = 1; i <= n && d.empty(); ++i)
      for (int j = 1; j <= X.get_cols(); ++j) {
        double mag = 0;
        for (int t = 1; t <= k; ++t)
          for (int u = 1; u <= l; ++u)
            mag += fabs(A.second.get(i, t) * B.second.get(t, u) *
                        D.second.get(u, j));
        if (!(fabs(X.get_elem(i, j) - Y.get_elem(i, j)) <=
              1e-12 * mag * (k + l)))
          d = "values";
      }
    if (d.size()) fail("products are not associative: ", d);
    seen("triple product ", n, k, l);
  }
  op("invert");
  Model T(k, n);
  for (int i = 1; i <= n; ++i)
    for (int j = 1; j <= k; ++j) T.at(j, i) = A.second.get(i, j);
  expect(A.first.invert(), T, "transpose");
  expect(A.first.invert().invert(), A.second, "transpose of the transpose");
  op("diag");
  {
    bool row = coin();
    const int z = k;
    const int k = coin(0.004) ? ri(300, 1300) : z;
    auto X = row ? mk(1, k) : mk(k, 1);
    Model D(k, k);
    for (int i = 1; i <= k; ++i)
      D.at(i, i) = row ? X.second.get(1, i) : X.second.get(i, 1);
    expect(Matrix_diag(X.first), D, row ? "diagonal of a row" : "diagonal of a column");
    expect(X.first, X.second, "vector after making a diagonal matrix");
  }
  op("concatenation");
  {
    int s = coin(0.7) ? 1 : ri(2, 3);
    Matrix a(n, k, s), b(l, k, s), c(n, l, s);
    Model oa(n, k, s), ob(l, k, s), oc(n, l, s);
    fill(a, oa);
    fill(b, ob);
    fill(c, oc);
    Model rows(n + l, k, s), cols(n, k + l, s);
    for (int z = 1; z <= s; ++z) {
      for (int i = 1; i <= n; ++i)
        for (int j = 1; j <= k; ++j) rows.at(i, j, z) = cols.at(i, j, z) = oa.get(i, j, z);
      for (int i = 1; i <= l; ++i)
        for (int j = 1; j <= k; ++j) rows.at(n + i, j, z) = ob.get(i, j, z);
      for (int i = 1; i <= n; ++i)
        for (int j = 1; j <= l; ++j) cols.at(i, k + j, z) = oc.get(i, j, z);
    }
    expect(Matrix_concatenate_rows(a, b), rows, "rows below each other");
    expect(Matrix_concatenate_cols(a, c), cols, "columns beside each other");
    expect(a, oa, "first operand of a concatenation");
    expect(b, ob, "second operand of a concatenation");
    expect(c, oc, "second operand of a concatenation");
    // what does not fit gives nothing: a refusal or the empty matrix
    if (coin(0.1)) {
      bool below = coin(), shelves = coin(0.4);
      int d = ri(1, 3);
      Matrix x(below ? l : n + (shelves ? 0 : d), below ? k + (shelves ? 0 : d) : l, s + (shelves ? d : 0));
      Model ox(x.get_rows(), x.get_cols(), x.get_shel());
      fill(x, ox);
      auto e = forked([&]() -> string {
        Matrix r = below ? Matrix_concatenate_rows(a, x) : Matrix_concatenate_cols(a, x);
        if (r.get_rows() != 1 || r.get_cols() != 1 || r.get_shel() != 1) return str(r.get_rows(), "x", r.get_cols(), "x", r.get_shel());
        return r.get_elem(1, 1) == 0 ? "" : "an element";
      });
      string what = str(below ? "rows" : "columns", " of ", n, "x", k, "x", s, " with ", ox.r, "x", ox.c, "x", ox.s);
      if (!refused(e.end) && (e.end != RETURNED || e.note.size())) fail("concatenating ", what, " gives ", e.note.size() ? e.note : name(e.end));
      seen("misfit ", what);
      tally("concatenations that do not fit");
    }
  }
  op("rows and columns");
  {
    Matrix m = V.first;
    Model o = V.second;
    for (int t = 0; t < 8; ++t) {
      int i = ri(1, n), j = ri(1, n), a = ri(1, k), b = ri(1, k);
      Model was = o;
      string what;
      switch (ri(0, 5)) {
        case 0:
          what = str("swap_row ", i, " ", j);
          m.swap_row(i, j);
          for (int x = 1; x <= k; ++x) swap(o.at(i, x), o.at(j, x));
          break;
        case 1:
          what = str("swap_col ", a, " ", b);
          m.swap_col(a, b);
          for (int x = 1; x <= n; ++x) swap(o.at(x, a), o.at(x, b));
          break;
        case 2: {
          what = str("move_row ", i, " ", j);
          m.move_row(i, j);
          vector<int> order;
          for (int x = 1; x <= n; ++x)
            if (x != i) order.push_back(x);
          order.insert(order.begin() + (j - 1), i);
          for (int x = 1; x <= n; ++x)
            for (int y = 1; y <= k; ++y) o.at(x, y) = was.get(order[x - 1], y);
          break;
        }
        case 3: {
          what = str("move_col ", a, " ", b);
          m.move_col(a, b);
          vector<int> order;
          for (int x = 1; x <= k; ++x)
            if (x != a) order.push_back(x);
          order.insert(order.begin() + (b - 1), a);
          for (int x = 1; x <= n; ++x)
            for (int y = 1; y <= k; ++y) o.at(x, y) = was.get(x, order[y - 1]);
          break;
        }
        case 4: {
          what = str("set_row ", i);
          vector<double> v(k);
          for (int y = 1; y <= k; ++y) o.at(i, y) = v[y - 1] = value();
          m.set_row(v, i);
          break;
        }
        default: {
          what = str("set_col ", a);
          vector<double> v(n);
          for (int x = 1; x <= n; ++x) o.at(x, a) = v[x - 1] = value();
          m.set_col(v, a);
        }
      }
      op(what, " on ", o.dims());
      string d = diff(m, o);
      if (d.size()) {
        fail(what, " on ", o.dims(), ": ", d);
        return;
      }
      seen(what.substr(0, 8), " ", o.dims());
      auto row = m.get_row(i);
      auto col = m.get_col(a);
      for (int y = 1; y <= k; ++y)
        if (!same(row[y - 1], o.get(i, y))) fail("get_row ", i, " of ", o.dims());
      for (int x = 1; x <= n; ++x)
        if (!same(col[x - 1], o.get(x, a))) fail("get_col ", a, " of ", o.dims());
    }
  }
  op("operands");
  expect(A.first, A.second, "first operand");
  expect(B.first, B.second, "second operand");
}

// ---------------------------------------------------------------- match

static void matchScenario() {
  int d = coin(0.1) ? ri(11, 14) : ri(0, 10);
  double unit = pow(10.0, -d);
  int n = small(), a = small(), b = small();
  if (coin(0.01)) a = ri(100, 400);
  if (coin(0.01)) b = ri(100, 400);
  if (coin(0.01)) n = ri(100, 300);
  bool perm = coin(0.4);
  if (perm) b = a;
  // magnitudes that keep the decimals representable
  double top = d >= 8 ? 1e3 : d >= 5 ? 1e5 : 1e6;
  if (d > 10 || coin(0.2)) top = 1e14 * unit;
  auto grid = [&]() -> long {
    long lim = static_cast<long>(top / unit);
    switch (ri(0, 4)) {
      case 0: return ri(-2, 2);
      case 1: return ri(-3, 3) * 10 + ri(-1, 1);
      case 2: return ri(-lim, lim);
      default: return ri(-200000, 200000);
    }
  };
  vector<vector<long>> X(a, vector<long>(n)), Y(b, vector<long>(n));
  for (auto &v : X)
    for (auto &x : v) x = grid();
  vector<int> order(a);
  for (int i = 0; i < a; ++i) order[i] = i;
  shuffle(order.begin(), order.end(), rng);
  for (int i = 0; i < b; ++i) {
    if (perm) {
      Y[i] = X[order[i]];
    } else if (coin(0.5)) {
      Y[i] = X[ri(0, a - 1)];
      if (coin(0.4)) {  // differs in one place by one unit or by its sign
        int t = ri(0, n - 1);
        Y[i][t] = coin(0.3) ? -Y[i][t] : Y[i][t] + (coin() ? 1 : -1);
      }
    } else {
      for (auto &y : Y[i]) y = grid();
    }
  }
  // values so large that they have no decimals, up to the largest there are
  const bool vast = coin(0.1);
  const int least = coin() ? ri(12, 300) : ri(296, 304), most = std::min(307, least + static_cast<int>(ri(0, 3)));
  if (vast) {
    auto key = [&](long &g) { g = (g % 9) * 1000 + least + labs(g) % (most - least + 1); };
    for (auto &v : X)
      for (auto &x : v) key(x);
    for (auto &v : Y)
      for (auto &y : v) key(y);
  }
  auto val = [&](long g) {
    if (vast) {
      // the sign of the digit is that of g, unless the digit is zero
      long digit = g >= 0 ? g / 1000 : -((-g + 999) / 1000);
      long power = g - digit * 1000;
      if (digit == 0) return 0.0;
      return static_cast<double>(digit) * pow(10.0, static_cast<double>(power));
    }
    double off = coin(0.4) ? 0 : rd(-0.42, 0.42);
    return (static_cast<double>(g) + off) * unit;
  };
  if (vast) {
    // zero is the same whatever its power
    for (auto *M : {&X, &Y})
      for (auto &v : *M)
        for (auto &g : v)
          if (val(g) == 0) g = 0;
    tally("matches of values without decimals");
  }
  bool rows = coin();
  Matrix A = rows ? Matrix(a, n) : Matrix(n, a), B = rows ? Matrix(b, n) : Matrix(n, b);
  for (int i = 0; i < a; ++i)
    for (int t = 0; t < n; ++t) {
      double v = val(X[i][t]);
      rows ? A.set_elem(v, i + 1, t + 1) : A.set_elem(v, t + 1, i + 1);
    }
  for (int i = 0; i < b; ++i)
    for (int t = 0; t < n; ++t) {
      double v = val(Y[i][t]);
      rows ? B.set_elem(v, i + 1, t + 1) : B.set_elem(v, t + 1, i + 1);
    }
  op(rows ? "matchRow " : "matchCol ", d, " decimals ", a, " ", b, " of ", n);
  vector<int> m = rows ? A.matchRow(B, d) : A.matchCol(B, d);
  if (static_cast<int>(m.size()) != a) {
    fail("match of ", a, " gives ", m.size(), " entries");
    return;
  }
  int hit = 0, miss = 0;
  for (int i = 0; i < a; ++i) {
    bool any = false;
    for (int t = 0; t < b; ++t) any = any || X[i] == Y[t];
    bool good = any ? (m[i] >= 1 && m[i] <= b && X[i] == Y[m[i] - 1])
                    : m[i] == -1;
    (any ? hit : miss)++;
    if (!good) {
      string s;
      for (int t = 0; t < n; ++t)
        s += str(" ", rows ? A.get_elem(i + 1, t + 1) : A.get_elem(t + 1, i + 1));
      string o;
      if (m[i] >= 1 && m[i] <= b)
        for (int t = 0; t < n; ++t)
          o += str(" ", rows ? B.get_elem(m[i], t + 1) : B.get_elem(t + 1, m[i]));
      fail(rows ? "row " : "column ", i + 1, " [", s, " ] at ", d,
           " decimals is said to match ", m[i], " [", o, " ]",
           any ? "" : " although none matches");
      return;
    }
  }
  tally("matching entries", hit);
  tally("entries without a match", miss);
  seen(rows ? "row " : "col ", d, " ", a, " ", b, " ", n, " ", hit, " ", miss);
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  string mode = argv[1];
  init(strtoull(argv[2], nullptr, 10) * 7919 + mode[0]);
  int n = atoi(argv[3]);
  for (int i = 0; i < n; ++i) {
    op("--- scenario ", i);
    allowance();
    bigShare = mode == "value" || mode == "shape" ? 0.004 : 0;
    if (mode == "value") {
      valueScenario();
#ifdef MON_ASAN
      leakScenario();
#endif
    } else if (mode == "shape")
      shapeScenario();
    else if (mode == "range")
      rangeScenario();
    else if (mode == "algebra")
      algebraScenario();
    else if (mode == "match")
      matchScenario();
    tally("scenarios");
  }
  return done();
}
