// Common parts of the monitors that call the library directly: observations
// are written to the process' original standard output as lines
//   FAIL <what>      a violation of the property, with what was observed
//   K <key>          what made an observation distinct (each key once)
//   S <name> <n>     how often something was observed
//   E <n>            number of verdicts of the oracle
//   X <text>         a sample of what was observed
//   DONE             the monitor ran to its end
// Whatever the library prints goes to /dev/null. If the process ends in any
// other way, the trace of the last operations is written as "TRACE" lines.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define MON_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif
#ifdef MON_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#endif

#ifdef MON_COV  // tools/coverage.py
extern "C" void __gcov_dump(void);
#define MON_QUIT(c) (__gcov_dump(), _exit(c))
#else
#define MON_QUIT(c) _exit(c)
#endif

namespace mon {

static int fd = 1;
static long evals = 0;
static int fails = 0;
static bool finished = false;
static bool child = false;
static std::set<std::string> keys;
static std::map<std::string, long> stats;
static std::deque<std::string> ring;
static std::mt19937_64 rng;

inline void line(const std::string &s) {
  std::string t;
  for (char c : s) t += (c == '\n' || c == '\r') ? ' ' : c;
  t += "\n";
  size_t off = 0;
  while (off < t.size()) {
    ssize_t w = ::write(fd, t.data() + off, t.size() - off);
    if (w <= 0) break;
    off += w;
  }
}

inline void trace() {
  if (finished || child) return;
  finished = true;
  for (auto &s : ring) line("TRACE " + s);
}

// While a monitor itself works, faulty.cpp lets no allocation fail
static thread_local int quiet = 0;
struct Quiet {
  Quiet() { ++quiet; }
  ~Quiet() { --quiet; }
};

template <typename... T>
std::string str(const T &... a) {
  Quiet q;
  std::ostringstream o;
  o.precision(17);
  (o << ... << a);
  return o.str();
}

template <typename... T>
void op(const T &... a) {
  ring.push_back(str(a...));
  if (ring.size() > 60) ring.pop_front();
}

template <typename... T>
void fail(const T &... a) {
  line("FAIL " + str(a...));
  for (auto &s : ring) line("TRACE " + s);
  if (++fails >= 5) {
    finished = true;
    line("DONE");
    _exit(0);
  }
}

template <typename... T>
void seen(const T &... a) {
  ++evals;
  if (keys.size() < 200000) {
    std::string k = str(a...);
    if (keys.insert(k).second) line("K " + k);
  }
}

inline void tally(const std::string &n, long k = 1) { stats[n] += k; }

template <typename... T>
void sample(const T &... a) {
  static int n = 0;
  if (n++ < 3) line("X " + str(a...));
}

// A scenario that uses more processor time than any scenario needs is stuck:
// the trace says in which operation.
static const int scenarioSeconds = 30;
inline void allowance() {
  struct itimerval t = {{0, 0}, {scenarioSeconds, 0}};
  setitimer(ITIMER_PROF, &t, nullptr);
}

inline void stuck(int) {
  if (child) _exit(95);
  finished = true;
  line(str("FAIL an operation does not end within ", scenarioSeconds,
           " seconds of processor time: ", ring.size() ? ring.back() : ""));
  for (auto &s : ring) line("TRACE " + s);
  _exit(94);
}

inline void init(unsigned long long seed) {
  rng.seed(seed);
  fd = dup(1);
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  close(nul);
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
#ifdef MON_ASAN
  __sanitizer_set_death_callback(trace);
#endif
  signal(SIGPROF, stuck);
  allowance();
  std::set_terminate([] {
    if (!child) {
      line("FAIL the library ended in an exception nobody could catch here");
      trace();
    }
    _exit(child ? 3 : 98);
  });
  atexit([] {
    if (!finished && !child) {
      line("FAIL the library ended the process where no refusal is due");
      trace();
      _exit(97);
    }
  });
}

inline int done() {
  for (auto &s : stats) line(str("S ", s.first, " ", s.second));
  line(str("E ", evals));
  line("DONE");
  finished = true;
  fflush(stdout);
  MON_QUIT(0);
}

// Random choices
inline long ri(long a, long b) {
  return a + static_cast<long>(rng() % static_cast<unsigned long long>(b - a + 1));
}
inline bool coin(double p = 0.5) {
  return (rng() >> 11) * (1.0 / 9007199254740992.0) < p;
}
inline double rd(double a, double b) {
  return a + (b - a) * ((rng() >> 11) * (1.0 / 9007199254740992.0));
}
template <typename T>
const T &pick(const std::vector<T> &v) {
  return v[ri(0, v.size() - 1)];
}

// How a call that may refuse ended
enum End { RETURNED, THREW, EXITED, MEMORY, SIGNAL, STUCK };
inline const char *name(End e) {
  static const char *n[] = {"returned", "threw an exception", "error exit",
                            "memory error", "killed by a signal",
                            "did not end"};
  return n[e];
}
inline bool refused(End e) { return e == THREW || e == EXITED; }

// Runs f in a process of its own. What f returns must be true, otherwise the
// call counts as having left something behind that it should not have.
struct Forked {
  End end;
  std::string note;  // what the child reported
};

inline Forked forked(const std::function<std::string()> &f) {
  int p[2];
  if (pipe(p)) _exit(96);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    child = true;
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    struct rlimit rc = {20, 20};
    setrlimit(RLIMIT_CPU, &rc);
    close(p[0]);
    std::string r;
    int code = 0;
    try {
      r = f();
    } catch (const std::exception &) {
      code = 3;
    } catch (...) {
      code = 3;
    }
    if (r.size() && write(p[1], r.data(), r.size()) < 0) code = 96;
    MON_QUIT(code);
  }
  close(p[1]);
  std::string note;
  char buf[4096];
  ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0) note.append(buf, n);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  End e;
  if (WIFSIGNALED(st))
    e = (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) ? STUCK
        : WTERMSIG(st) == SIGABRT                            ? EXITED
                                                             : SIGNAL;
  else if (WEXITSTATUS(st) == 0)
    e = RETURNED;
  else if (WEXITSTATUS(st) == 3)
    e = THREW;
  else if (WEXITSTATUS(st) == 99)
    e = MEMORY;
  else
    e = EXITED;
  return {e, note};
}

}  // namespace mon
