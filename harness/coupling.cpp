// Monitors of the functions behind the coupling: reordering by atoms, ranking
// of orbitals and the transfer integral itself.
//
// usage: coupling <order|rank|transfer> <seed> <scenarios>
#include "mon.hpp"

#include <algorithm>
#include <memory>
#include <new>
#include <numeric>
#include <unordered_map>

#include "matrix.hpp"
#include "qc_functions.hpp"

using namespace catnip;
using namespace mon;
using namespace std;

typedef vector<vector<double>> VV;

static VV table(const Matrix &m) {
  VV v(m.get_rows(), vector<double>(m.get_cols()));
  for (int i = 1; i <= m.get_rows(); ++i)
    for (int j = 1; j <= m.get_cols(); ++j) v[i - 1][j - 1] = m.get_elem(i, j);
  return v;
}

static Matrix matrix(const VV &v) {
  Matrix m(static_cast<int>(v.size()), static_cast<int>(v[0].size()));
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = 0; j < v[0].size(); ++j) m.set_elem(v[i][j], i + 1, j + 1);
  return m;
}

static VV randomTable(int r, int c, double s = 1) {
  VV v(r, vector<double>(c));
  for (auto &row : v)
    for (auto &x : row) x = rd(-s, s);
  return v;
}

static string join(const vector<int> &v) {
  string s = "(";
  for (size_t i = 0; i < v.size(); ++i) s += str(i ? "," : "", v[i]);
  return s + ")";
}

// ---------------------------------------------------------------- order

static void orderScenario() {
  int atoms = coin(0.1) ? ri(9, 24) : ri(2, 8);
  vector<int> basis(atoms), perm(atoms), start(atoms);
  bool equal = coin(0.25);
  int b0 = coin(0.03) ? ri(5, 30) : ri(1, 4), total = 0;
  // more atoms, or more functions of one atom, than a byte can count
  bool crowd = coin(0.004), heavy = coin(0.002);
  if (crowd) atoms = coin() ? ri(60, 420) : ri(300, 700);
  basis.resize(atoms);
  perm.resize(atoms);
  start.resize(atoms);
  int fat = heavy ? ri(0, atoms - 1) : -1;
  for (int i = 0; i < atoms; ++i) {
    start[i] = total;
    basis[i] = i == fat ? ri(100, 300) : crowd ? ri(1, 2) : equal ? b0 : coin(0.1) ? ri(8, coin(0.3) ? 40 : 15) : ri(1, 5);
    total += basis[i];
  }
  iota(perm.begin(), perm.end(), 1);
  string kind;
  switch (ri(0, 6)) {
    case 0: kind = "identity"; break;
    case 1: kind = "reversal"; reverse(perm.begin(), perm.end()); break;
    case 2: kind = "rotation"; rotate(perm.begin(), perm.begin() + ri(1, atoms - 1), perm.end()); break;
    case 3: kind = "one swap"; swap(perm[ri(0, atoms - 1)], perm[ri(0, atoms - 1)]); break;
    default: kind = "shuffle"; shuffle(perm.begin(), perm.end(), rng);
  }
  int nA = ri(1, atoms - 1);
  if (atoms > 260 && coin()) nA = coin() ? ri(256, atoms - 1) : ri(1, atoms - 256);
  bool one = coin(0.4);
  vector<int> A(perm.begin(), perm.begin() + nA), B(perm.begin() + nA, perm.end());
  vector<int> order;
  for (int p : perm)
    for (int t = 0; t < basis[p - 1]; ++t) order.push_back(start[p - 1] + t);
  int rows = coin(0.3) ? total : ri(1, 6);
  VV cv = randomTable(rows, total), sv = randomTable(total, total);
  Matrix C = matrix(cv), S = matrix(sv);
  op(one ? "one list " : "two lists ", kind, " ", join(perm), " split at ", nA,
     " basis ", join(basis));
  const vector<int> A0 = A, B0 = B, P0 = perm, basis0 = basis;

  if (coin(0.25)) {  // lists that do not fit are refused
    vector<int> a = A, b = B, p = perm, bf = basis;
    string bad;
    int w = ri(0, 8);
    int x = ri(0, atoms - 1);
    auto put = [&](int at, int val) {
      p[at] = val;
      if (at < nA) a[at] = val; else b[at - nA] = val;
    };
    switch (w) {
      case 0: bad = "unmatched atom"; put(x, -1); break;
      case 1: bad = "atom 0"; put(x, 0); break;
      case 2: bad = "atom beyond the last"; put(x, atoms + ri(1, 3)); break;
      case 3: {
        bad = "atom matched twice";
        int y = (x + ri(1, atoms - 1)) % atoms;
        put(x, perm[y]);
        break;
      }
      case 4:
        bad = "functions beyond the matrix";
        bf[x] += ri(1, 3);
        break;
      case 5:
        bad = "functions that do not fill the matrix";
        x = max_element(bf.begin(), bf.end()) - bf.begin();
        if (bf[x] == 1) return;
        bf[x] -= 1;
        break;
      case 6:
        bad = "functions that cannot be counted";
        bf[x] = 2147483647 - static_cast<int>(ri(0, 2));
        bf[(x + 1) % atoms] = 2147483647;
        break;
      case 7:
        bad = "less than no functions";
        bf[(x + 1) % atoms] += bf[x] + 3;
        bf[x] = -3;
        break;
      default:
        bad = "atom left out";
        p.pop_back();
        b.pop_back();
    }
    auto e = forked([&]() -> string {
      if (coin())
        one ? unscramble_Coef(p, bf, &C) : unscramble_Coef(a, b, bf, &C);
      else
        one ? unscramble_S(p, bf, &S) : unscramble_S(a, b, bf, &S);
      return "";
    });
    if (!refused(e.end))
      fail(bad, " is not refused: ", name(e.end), " for ", join(p), " and ",
           join(bf));
    seen("refused ", bad, " ", one, " ", atoms);
    return;
  }

  Matrix *Cn = one ? unscramble_Coef(perm, basis, &C) : unscramble_Coef(A, B, basis, &C);
  Matrix *Sn = one ? unscramble_S(perm, basis, &S) : unscramble_S(A, B, basis, &S);
  VV c2 = table(*Cn), s2 = table(*Sn);
  string bad;
  if (static_cast<int>(c2.size()) != rows || static_cast<int>(c2[0].size()) != total)
    bad = "coefficients have other dimensions";
  else if (static_cast<int>(s2.size()) != total || static_cast<int>(s2[0].size()) != total)
    bad = "overlap has other dimensions";
  for (int i = 0; i < rows && bad.empty(); ++i)
    for (int j = 0; j < total && bad.empty(); ++j)
      if (c2[i][j] != cv[i][order[j]])
        bad = str("coefficient (", i + 1, ",", j + 1, ") is not that of function ", order[j] + 1);
  for (int i = 0; i < total && bad.empty(); ++i)
    for (int j = 0; j < total && bad.empty(); ++j)
      if (s2[i][j] != sv[order[i]][order[j]])
        bad = str("overlap (", i + 1, ",", j + 1, ") is not that of functions ", order[i] + 1, " and ", order[j] + 1);
  if (bad.empty() && (table(C) != cv || table(S) != sv)) bad = "the matrix that was passed is changed";
  if (bad.empty() && (A != A0 || B != B0 || perm != P0 || basis != basis0)) bad = "the lists are changed";
  if (bad.size())
    fail(bad, " for ", one ? "one list " : "two lists ", join(perm), " split at ",
         nA, " basis ", join(basis));
  if (Cn != &C) delete Cn;
  if (Sn != &S) delete Sn;
  seen(one ? "one" : "two", " ", join(perm), " ", nA, " ", join(basis));
  tally("reordered elements compared", static_cast<long>(rows) * total + static_cast<long>(total) * total);
}

// ---------------------------------------------------------------- rank

static void rankScenario() {
  int most = coin(0.03) ? 700 : 30;
  int na = ri(1, most), nb = coin(0.4) ? 0 : coin() ? na : ri(1, most);
  double grid = coin(0.3) ? 0.5 : coin(0.8) ? 1e-5 : pick(vector<double>{1e-8, 1e-10, 1e-13, 1e12});
  double around = grid > 1e-6 && grid < 1 ? 0 : pick(vector<double>{0, 0, -0.25, 0.5});
  double width = coin() ? 20 : 4 * grid;
  auto energies = [&](int n) {
    vector<double> v(n);
    for (auto &x : v) x = around + (floor(rd(-1, 1) * max(width, 4 * grid) / grid)) * grid;
    if (coin(0.6)) sort(v.begin(), v.end());
    return v;
  };
  vector<double> a = energies(na), b = energies(max(nb, 1));
  if (nb == na && coin(0.3)) b = a;
  Matrix ma(a), mb = nb ? Matrix(b) : Matrix(0);
  if (!nb) b.clear();
  VV ta = table(ma), tb = table(mb);
  op("rank of ", na, " and ", nb);
  auto r = findRank(ma, mb);
  string bad;
  if (static_cast<int>(r.size()) != na + nb) bad = str(r.size(), " ranks for ", na + nb, " orbitals");
  vector<double> ga, gb;
  double last = -1e300;
  for (int i = 1; i <= na + nb && bad.empty(); ++i) {
    if (!r.count(i)) { bad = str("no rank ", i); break; }
    auto p = r.at(i);
    if (p.first < last) bad = str("rank ", i, " lies below rank ", i - 1);
    last = p.first;
    if (p.second == "Alpha") ga.push_back(p.first);
    else if (p.second == "Beta") gb.push_back(p.first);
    else bad = "unknown spin " + p.second;
  }
  sort(a.begin(), a.end());
  sort(b.begin(), b.end());
  if (bad.empty() && (ga != a || gb != b)) bad = "orbitals of a spin are lost, doubled or given the other spin";
  if (bad.empty() && (table(ma) != ta || table(mb) != tb)) bad = "the energies that were passed are changed";
  if (bad.size()) fail(bad, " for ", na, " alpha and ", nb, " beta orbitals");
  seen(na, " ", nb, " ", grid);
  tally("ranked orbitals", na + nb);
}

// ---------------------------------------------------------------- transfer

struct Ref { double J, e1, e2, S, Jeff, tol; };

// c1, c2: coefficients over the functions of the dimer (zeros elsewhere)
static Ref reference(const vector<double> &c1, const vector<double> &c2,
                     const VV &P, const VV &S, const vector<double> &E) {
  size_t n = c1.size(), m = P.size();
  vector<long double> g1(m), g2(m);
  vector<long double> m1(m), m2(m);
  for (size_t k = 0; k < m; ++k)
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) {
        long double t = static_cast<long double>(S[i][j]) * P[k][j];
        g1[k] += c1[i] * t;
        g2[k] += c2[i] * t;
        m1[k] += fabsl(c1[i] * t);
        m2[k] += fabsl(c2[i] * t);
      }
  long double J = 0, e1 = 0, e2 = 0, s = 0, mag = 0, mags = 0;
  for (size_t k = 0; k < m; ++k) {
    J += g1[k] * g2[k] * E[k];
    e1 += g1[k] * g1[k] * E[k];
    e2 += g2[k] * g2[k] * E[k];
    s += g1[k] * g2[k];
    mag += fabsl(E[k]) * (m1[k] + m2[k]) * (m1[k] + m2[k]);
    mags += (m1[k] + m2[k]) * (m1[k] + m2[k]);
  }
  long double den = 1 - s * s;
  Ref r;
  r.J = J; r.e1 = e1; r.e2 = e2; r.S = s;
  r.Jeff = (J - 0.5L * (e1 + e2) * s) / den;
  // what rounding of each sum can amount to, times eight
  r.tol = 8 * 2.3e-16 * (2 * n + m + 4) *
          static_cast<double>((mag * (1 + fabsl(s)) + fabsl(e1 + e2) * mags) / fabsl(den) +
                              2 * fabsl(r.Jeff * s) * mags / fabsl(den));
  if (fabsl(den) < 0.05) r.tol = -1;
  return r;
}

static void transferScenario() {
  bool cp = coin(0.35);
  bool large = coin(0.012);
  int a1 = large ? ri(1, 40) : ri(1, 5), a2 = large ? ri(1, 40) : ri(1, 5);
  if (cp && coin()) a2 = a1;
  int atoms = a1 + a2;
  vector<int> basis(atoms);  // of monomer 1's atoms, then monomer 2's
  for (auto &x : basis) x = large && coin(0.3) ? ri(1, 18) : ri(1, 4);
  int b1 = accumulate(basis.begin(), basis.begin() + a1, 0);
  int b2 = accumulate(basis.begin() + a1, basis.end(), 0);
  int n = b1 + b2;
  // the order of the dimer (and, with counterpoise, of monomer 2)
  vector<int> permP(atoms), perm2(atoms);
  iota(permP.begin(), permP.end(), 0);
  iota(perm2.begin(), perm2.end(), 0);
  bool reorder = coin(0.75);
  if (reorder) {
    shuffle(permP.begin(), permP.end(), rng);
    if (cp) shuffle(perm2.begin(), perm2.end(), rng);
  }
  auto functions = [&](const vector<int> &perm) {
    vector<int> start(atoms), f;
    int t = 0;
    for (int i = 0; i < atoms; ++i) { start[i] = t; t += basis[i]; }
    for (int p : perm)
      for (int k = 0; k < basis[p]; ++k) f.push_back(start[p] + k);
    return f;
  };
  // coordinates, unique on a grid of four decimals
  set<vector<long>> used;
  vector<vector<long>> pos;
  while (static_cast<int>(pos.size()) < atoms) {
    vector<long> p = {ri(-90000, 90000), ri(-3, 3), coin() ? 0 : ri(-90000, 90000)};
    if (pos.size() && coin(0.4)) {
      p = pos[ri(0, pos.size() - 1)];
      p[ri(0, 2)] += coin() ? 1 : -1;
    }
    if (used.insert(p).second) pos.push_back(p);
  }
  auto coords = [&](const vector<int> &which) {
    Matrix m(3, which.size());
    for (size_t i = 0; i < which.size(); ++i)
      for (int k = 0; k < 3; ++k)
        m.set_elem((pos[which[i]][k] + rd(-0.4, 0.4)) * 1e-4, k + 1, i + 1);
    return m;
  };
  int w1 = cp ? n : b1, w2 = cp ? n : b2;
  int mo1 = ri(1, w1), mo2 = ri(1, w2), moP = ri(1, n);
  double s = 1.0 / sqrt(static_cast<double>(n));
  VV c1 = randomTable(mo1, w1, s), c2 = randomTable(mo2, w2, s), P = randomTable(moP, n, s), S = randomTable(n, n, 0.3);
  for (int i = 0; i < n; ++i) {
    S[i][i] = 1;
    for (int j = 0; j < i; ++j) S[i][j] = S[j][i];
  }
  if (coin(0.2))  // also without symmetry, so that its orientation counts
    for (auto &r : S) for (auto &x : r) x += rd(-0.2, 0.2);
  vector<double> E(moP);
  for (auto &x : E) x = rd(-12, 2);
  int h1 = ri(0, mo1), h2 = ri(0, mo2);

  // as they appear in the files
  vector<int> fP = functions(permP), f2 = functions(perm2);
  VV Pf(moP, vector<double>(n)), Sf(n, vector<double>(n)), c2f = c2;
  for (int j = 0; j < n; ++j) {
    for (int k = 0; k < moP; ++k) Pf[k][j] = P[k][fP[j]];
    for (int i = 0; i < n; ++i) Sf[i][j] = S[fP[i]][fP[j]];
    if (cp) for (int k = 0; k < mo2; ++k) c2f[k][j] = c2[k][f2[j]];
  }
  vector<int> basisP, basis2, all(atoms), first, second;
  iota(all.begin(), all.end(), 0);
  for (int i = 0; i < atoms; ++i) (i < a1 ? first : second).push_back(i);
  for (int p : permP) basisP.push_back(basis[p]);
  if (cp) for (int p : perm2) basis2.push_back(basis[p]);
  else basis2.assign(basis.begin() + a1, basis.end());
  Matrix m1 = matrix(c1), m2 = matrix(c2f), mP = matrix(Pf), mS = matrix(Sf), mE(E);
  if (coin(0.3)) mE = mE.invert();
  VV tE = table(mE);
  Matrix x1 = coords(cp ? all : first), x2 = coords(cp ? perm2 : second), xP = coords(permP);
  op(cp ? "counterpoise" : "monomers", " atoms ", a1, "+", a2, " basis ", join(basis), " dimer order ", join(permP));

  // wherever the object is placed, whatever was there before
  struct Place {
    alignas(TransferComplex) unsigned char raw[sizeof(TransferComplex)];
  };
  unique_ptr<Place> place(new Place);
  memset(place->raw, pick(vector<int>{0, 1, 0xAA, 0xFF}), sizeof place->raw);
  struct End {
    TransferComplex *t;
    ~End() { t->~TransferComplex(); }
  };
  TransferComplex &t = *new (place->raw) TransferComplex(&m1, &m2, &mP, {mo1, h1}, {mo2, h2}, &mS, &mE, cp);
  End end{&t};
  if (reorder || coin()) t.unscramble(x1, x2, xP, basisP, basis2);
  auto full = [&](const vector<double> &c, int off) {
    if (cp) return c;
    vector<double> v(n, 0.0);
    for (size_t i = 0; i < c.size(); ++i) v[off + i] = c[i];
    return v;
  };
  int pairs = ri(1, 4);
  for (int q = 0; q < pairs; ++q) {
    int o1 = ri(1, mo1), o2 = ri(1, mo2);  // orbitals, counted from the lowest
    map<string, string> type;
    map<string, int> num;
    auto nameIt = [&](const string &who, int o, int h) {
      if (o <= h) { type[who] = "HOMO"; num[who] = o - h; }
      else { type[who] = "LUMO"; num[who] = o - h - 1; }
    };
    nameIt("mon1", o1, h1);
    nameIt("mon2", o2, h2);
    Ref r = reference(full(c1[o1 - 1], 0), full(c2[o2 - 1], b1), P, S, E);
    if (r.tol < 0) { tally("nearly singular, not judged"); continue; }
    double J = t.calcJ(type, num);
    if (!(fabs(J - r.Jeff) <= r.tol))
      fail("effective coupling ", J, " instead of ", r.Jeff, " (+-", r.tol, ") for ", type["mon1"], num["mon1"], " ", type["mon2"], num["mon2"], cp ? " with" : " without", " counterpoise, dimer order ", join(permP), " basis ", join(basis));
    double J2 = t.calcJ(type, num);
    if (memcmp(&J, &J2, sizeof J)) fail("repeating the calculation gives ", J2, " after ", J);
    // the calculation alone, everything in order
    Matrix r1 = matrix({c1[o1 - 1]}), r2 = matrix({c2[o2 - 1]});
    Matrix oP = matrix(P), oS = matrix(S);
    double K = calculate_transfer_integral(r1, r2, oP, oS, mE, cp);
    if (!(fabs(K - r.Jeff) <= r.tol)) fail("coupling of given orbitals ", K, " instead of ", r.Jeff);
    seen(cp, " ", join(basis), " ", join(permP), " ", o1 - h1, " ", o2 - h2);
    tally("couplings compared", 3);
    sample("J_eff ", J, " against ", r.Jeff, " of ", n, " functions, dimer order ", join(permP));
    tally(r.tol < 1e-6 * fabs(r.Jeff) ? "to six digits or more" : "to less than six digits");
  }
  if (table(m1) != c1 || table(m2) != c2f || table(mP) != Pf || table(mS) != Sf || table(mE) != tE)
    fail("the calculation changes the matrices it is given");

  if (!coin(0.4)) return;
  // requests that have no answer are refused
  map<string, string> type = {{"mon1", h1 ? "HOMO" : "LUMO"}, {"mon2", h2 ? "HOMO" : "LUMO"}};
  map<string, int> num = {{"mon1", 0}, {"mon2", 0}};
  string bad;
  function<string()> f = [&]() -> string { t.calcJ(type, num); return ""; };
  bool who = coin();
  string m = who ? "mon1" : "mon2";
  int h = who ? h1 : h2, mo = who ? mo1 : mo2;
  int w = ri(0, 9);
  Matrix wrongS(n + (coin() && n > 1 ? -1 : 1), n + (coin() ? 1 : 2)), wide(mo1, w1 + ri(1, 4)), wide2(mo2, w2 + ri(1, 4));
  switch (w) {
    case 0: bad = "occupied orbital below the lowest"; type[m] = "HOMO"; num[m] = coin(0.2) ? -2147483647 - static_cast<int>(ri(0, 1)) : -h - (coin() ? 0 : ri(1, 50)); break;
    case 1: bad = "virtual orbital above the highest"; type[m] = "LUMO"; num[m] = coin(0.2) ? 2147483647 - static_cast<int>(ri(0, 1)) : mo - h + (coin() ? 0 : ri(1, 50)); break;
    case 2: bad = "occupied orbital with a positive offset"; type[m] = "HOMO"; num[m] = coin(0.2) ? 2147483647 : ri(1, 9); break;
    case 3: bad = "virtual orbital with a negative offset"; type[m] = "LUMO"; num[m] = coin(0.2) ? -2147483647 - 1 : -ri(1, 9); break;
    case 4: bad = "unknown kind of orbital"; type[m] = pick(vector<string>{"homo", "", "SOMO", "HOMO ", "LUMO+1"}); break;
    case 5: bad = "missing monomer"; type.erase(m); break;
    case 6: bad = "overlap of another size"; f = [&]() -> string { TransferComplex u(&m1, &m2, &mP, {mo1, h1}, {mo2, h2}, &wrongS, &mE, cp); return ""; }; break;
    case 7: bad = "coefficients and energies of different numbers"; f = [&]() -> string { TransferComplex u(&m1, &m2, &mP, {mo1 + (who ? 1 : 0), h1}, {mo2 + (who ? 0 : 1), h2}, &mS, &mE, cp); return ""; }; break;
    case 8: bad = "monomers with more functions than the dimer"; f = [&]() -> string { TransferComplex u(who ? &wide : &m1, who ? &m2 : &wide2, &mP, {mo1, h1}, {mo2, h2}, &mS, &mE, cp); return ""; }; break;
    default: {
      bad = "atoms that do not match";
      f = [&]() -> string {
        Matrix y = xP;
        // an atom moved away from every other one
        y.set_elem(123.0, ri(1, 3), ri(1, atoms));
        TransferComplex u(&m1, &m2, &mP, {mo1, h1}, {mo2, h2}, &mS, &mE, cp);
        u.unscramble(x1, x2, y, basisP, basis2);
        return "";
      };
    }
  }
  op(bad);
  auto e = forked(f);
  if (!refused(e.end)) fail(bad, " is not refused: ", name(e.end), " (", m, " offset ", num[m], " of ", mo, " with ", h, " occupied)");
  seen("refused ", bad, " ", cp, " ", who);
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  string mode = argv[1];
  init(strtoull(argv[2], nullptr, 10) * 6151 + mode[0]);
  int n = atoi(argv[3]);
  // warnings about the order of basis functions are of no interest here
  std::cerr.rdbuf(nullptr);
  for (int i = 0; i < n; ++i) {
    op("--- scenario ", i);
    allowance();
    if (mode == "order") orderScenario();
    else if (mode == "rank") rankScenario();
    else transferScenario();
    tally("scenarios");
  }
  return done();
}
