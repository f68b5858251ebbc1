// Monitor of the log facility: messages of known content and level are logged
// into a file, which is then read and compared to what was asked for.
//
// usage: logmsg text <seed> <scenarios> <level compiled in>
#include "mon.hpp"

#include <iomanip>
#include <iostream>

#include "log.hpp"

using namespace catnip;
using namespace mon;
using namespace std;

struct Thing {
  int a;
};
ostream &operator<<(ostream &o, const Thing &t) { return o << "<" << t.a << ">"; }

struct OnlyMoved {
  string s;
  explicit OnlyMoved(const string &t) : s(t) {}
  OnlyMoved(OnlyMoved &&) = default;
  OnlyMoved(const OnlyMoved &) = delete;
};
ostream &operator<<(ostream &o, const OnlyMoved &t) { return o << t.s; }

static int evaluated = 0;
template <typename T>
static const T &once(const T &t) {
  ++evaluated;
  return t;
}

static string text(int most) {
  static const string al = "abcXYZ 019.:%s\\/-+\t~\xc3\xa9";
  string s;
  for (int n = ri(0, most); n > 0; --n) s += al[ri(0, al.size() - 1)];
  return s;
}

struct Message {
  int line, level, items, times;
  string text;
};

// one message: what is logged and what a stream is given are the same items
#define SAY(n, ...)                                     \
  do {                                                  \
    evaluated = 0;                                      \
    const int level_ = level;                           \
    LOG(__VA_ARGS__, level); line_ = __LINE__;          \
    const int times_ = evaluated;                       \
    ostringstream o_;                                   \
    o_ << __VA_ARGS__;                                  \
    all.push_back({line_, level_, n, times_, o_.str()}); \
  } while (0)

static vector<Message> all;
static int level, line_;

static void farDown(const string &s);

static void message() {
  level = coin(0.1) ? ri(-1000, 1000) : ri(-2, 9);
  const string s = text(coin(0.1) ? 5000 : 30), t = text(12);
  const int i = coin(0.2) ? pick(vector<int>{INT32_MAX, INT32_MIN, 0})
                          : ri(-100000, 100000);
  const double d = coin(0.2) ? pick(vector<double>{1e300, -1e-300, 0.5, -0.0})
                             : rd(-1000, 1000);
  const Thing thing{i};
  const char *const p = t.c_str();
  switch (ri(0, 14)) {
    case 0: SAY(1, "only a text"); break;
    case 1: SAY(1, once(s)); break;
    case 2: SAY(2, "text " << once(s)); break;
    case 3: SAY(2, once(i) << ""); break;
    case 4: SAY(3, once(d) << " and " << i); break;
    case 5: SAY(4, s << t << once(s) << t); break;
    case 6: SAY(3, once(thing) << ' ' << p); break;
    case 7: SAY(4, "a" << "b" << once(s.size()) << true); break;
    case 8: SAY(2, "Reading file: " + once(s) << t + "!"); break;
    case 9: SAY(3, setw(12) << once(i) << flush); break;
    case 10: SAY(8, "1" << once(i) << "2" << d << "3" << s << "4" << t); break;
    case 11: SAY(2, OnlyMoved(once(s)) << 'x'); break;
    default: farDown(s);
  }
}

// the lines of long files
#line 9999 "a/b/logmsg.cpp"
static void farDown(const string &s) {
  switch (ri(0, 2)) {
    case 0: SAY(1, once(s)); break;
#line 65536 "logmsg.cpp"
    case 1: SAY(1, once(s)); break;
#line 2000000000 "../logmsg.cpp"
    default: SAY(2, 'x' << once(s));
  }
}

// a message is a statement of its own
static int branch(bool b) {
  int r = 0;
  if (b)
    LOG("taken", 1000000);
  else
    r = 1;
  for (int k = 0; k < 3; ++k) LOG(k, 1000000), ++r;
  return r;
}

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  init(strtoull(argv[2], nullptr, 10) * 7919 + 3);
  const int n = atoi(argv[3]), most = atoi(argv[4]);
  char name[] = "logged.XXXXXX";
  const int file = mkstemp(name);
  if (file < 0) return 2;
  unlink(name);
  dup2(file, 1);
  for (int k = 0; k < n; ++k) {
    allowance();
    all.clear();
    if (ftruncate(file, 0) || lseek(file, 0, SEEK_SET)) return 2;
    const int count = ri(1, 12);
    for (int m = 0; m < count; ++m) {
      message();
      // what the program prints itself keeps its place between the messages
      if (coin(0.3)) {
        // in the form of a stream nobody has touched
        ostringstream o;
        const int digit = ri(0, 9);
        const double value = rd(-1, 1);
        const string own = "own " + text(10);
        switch (ri(0, 2)) {
          case 0: cout << digit << "\n"; o << digit; break;
          case 1: cout << value << "\n"; o << value; break;
          default: cout << own << "\n"; o << own;
        }
        all.push_back({0, 0, 0, 0, o.str()});
      }
    }
    if (branch(coin()) > 4) fail("a message swallows the statement after it");
    cout.flush();
    fflush(stdout);
    string got(lseek(file, 0, SEEK_END), 0);
    if (pread(file, &got[0], got.size(), 0) != (ssize_t)got.size()) return 2;
    size_t at = 0;
    for (const Message &m : all) {
      const bool due = m.line == 0 || m.level <= most;
      if (m.line) seen(due, " ", m.line, " ", m.level, " ", m.text.size() / 8);
      if (m.line && (m.times > 1 || (due && m.times != 1 && m.items > 1)))
        fail("an item of a message was evaluated ", m.times, " times");
      tally(!m.line ? "lines of the program" : due ? "messages shown"
                                                   : "messages withheld");
      if (!due) continue;
      if (m.line) {  // the place it comes from
        const size_t colon = got.find(": ", at);
        const string want = "logmsg.cpp:" + to_string(m.line);
        const string place =
            colon == string::npos ? "" : got.substr(at, colon - at);
        if (place.size() < want.size() ||
            place.substr(place.size() - want.size()) != want) {
          fail("message of line ", m.line, " level ", m.level, " of ", most,
               ": found ", got.substr(at, 80));
          break;
        }
        at = colon + 2;
      }
      if (got.compare(at, m.text.size() + 1, m.text + "\n") != 0) {
        fail("message of line ", m.line, " level ", m.level, " of ", most,
             " is ", got.substr(at, m.text.size() + 1), " instead of ", m.text);
        break;
      }
      at += m.text.size() + 1;
    }
    if (at < got.size() && !fails)
      fail("with level ", most, " more than asked for: ", got.substr(at, 200));
  }
  return done();
}
