// Common support for the trace-recording drivers: JSON lines, deterministic random numbers, crash/hang events.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#include <map>
#include <set>
#include <array>

namespace vt {

struct J { // minimal JSON object builder
  std::string s = "{";
  bool first = true;
  void key(const char* k) {
    if (!first) s += ",";
    first = false;
    s += "\"";
    s += k;
    s += "\":";
  }
  static void put(std::string& o, long long v) { o += std::to_string(v); }
  static void put(std::string& o, long v) { o += std::to_string(v); }
  static void put(std::string& o, int v) { o += std::to_string(v); }
  static void put(std::string& o, unsigned v) { o += std::to_string(v); }
  static void put(std::string& o, size_t v) { o += std::to_string((long long)v); }
  static void put(std::string& o, bool v) { o += v ? "true" : "false"; }
  static void put(std::string& o, const char* v) {
    o += "\"";
    for (const char* c = v; *c; c++) {
      unsigned char u = (unsigned char)*c;
      if (u == '"' || u == '\\') {
        o += '\\';
        o += *c;
      } else if (u < 32 || u > 126) {
        char b[8];
        snprintf(b, 8, "\\u%04x", u);
        o += b;
      } else
        o += *c;
    }
    o += "\"";
  }
  static void put(std::string& o, const std::string& v) { put(o, v.c_str()); }
  static void put(std::string& o, const J& j) { o += j.str(); }
  template <class A, class B>
  static void put(std::string& o, const std::pair<A, B>& v) {
    o += "[";
    put(o, v.first);
    o += ",";
    put(o, v.second);
    o += "]";
  }
  template <class T>
  static void put(std::string& o, const std::vector<T>& v) {
    o += "[";
    bool f = true;
    for (size_t i = 0; i < v.size(); i++) {
      if (!f) o += ",";
      f = false;
      T x = v[i];
      put(o, x);
    }
    o += "]";
  }
  template <class T, size_t N>
  static void put(std::string& o, const std::array<T, N>& v) {
    put(o, std::vector<T>(v.begin(), v.end()));
  }
  template <class T>
  J& operator()(const char* k, const T& v) {
    key(k);
    put(s, v);
    return *this;
  }
  std::string str() const { return s + "}"; }
};

inline int& traceFd() {
  static int fd = 1;
  return fd;
}
inline char* curBuf() {
  static char b[4096];
  return b;
}
inline long& nLines() {
  static long n = 0;
  return n;
}
inline std::string& pend() {
  static std::string p;
  return p;
}
inline void flushOut() {
  std::string& p = pend();
  size_t o = 0;
  while (o < p.size()) {
    ssize_t w = ::write(traceFd(), p.data() + o, p.size() - o);
    if (w <= 0) _exit(9);
    o += (size_t)w;
  }
  p.clear();
}
// writes one event, returns its 1-based line number
inline long emit(const J& j) {
  pend() += j.str();
  pend() += "\n";
  if (pend().size() > (1 << 16)) flushOut();
  return ++nLines();
}
// Describe what is about to run: if it crashes or hangs, this becomes the body of a "crash" event.
inline void about(const std::string& desc) {
  strncpy(curBuf(), desc.c_str(), 4000);
  curBuf()[4000] = 0;
}
inline void crashEvent(const char* why) {
  // async-signal context: best effort only
  std::string& p = pend();
  size_t o = 0;
  while (o < p.size()) {
    ssize_t w = ::write(traceFd(), p.data() + o, p.size() - o);
    if (w <= 0) break;
    o += (size_t)w;
  }
  char out[4600];
  int n = snprintf(out, sizeof out, "{\"op\":\"crash\",\"why\":\"%s\"%s%s}\n", why, curBuf()[0] ? "," : "", curBuf());
  ssize_t r = ::write(traceFd(), out, (size_t)n);
  (void)r;
  _exit(0);
}
inline void onSig(int sig) {
  const char* w = sig == SIGABRT  ? "abort"
                  : sig == SIGSEGV ? "segv"
                  : sig == SIGFPE  ? "fpe"
                  : sig == SIGBUS  ? "bus"
                  : sig == SIGILL  ? "ill"
                  : sig == SIGVTALRM ? "hang"
                                     : "signal";
  crashEvent(w);
}
inline void cpuLimit(int seconds) { // per-operation CPU time limit
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = seconds;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
inline void init(const char* path) {
  traceFd() = ::open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (traceFd() < 0) {
    perror(path);
    _exit(9);
  }
  curBuf()[0] = 0;
#if !defined(__SANITIZE_ADDRESS__)
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = (rlim_t)3 << 30;
  setrlimit(RLIMIT_AS, &rl);
#endif
  static char alt[1 << 16];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onSig;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
}
inline void done() { flushOut(); }

struct Rng {
  uint64_t s;
  // the seed is mixed so that neighbouring seeds do not give the same stream shifted
  explicit Rng(uint64_t seed) : s(seed) { s = next() ^ 0xD1B54A32D192ED03ull; s = next(), next(); }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  size_t below(size_t n) { return n ? (size_t)(next() % n) : 0; }
  bool chance(int pct) { return (int)below(100) < pct; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  int range(int a, int b) { return a + (int)below((size_t)(b - a + 1)); }
  template <class T>
  T& pick(std::vector<T>& v) { return v[below(v.size())]; }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Args { // key=value command line
  std::map<std::string, std::string> m;
  Args(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      size_t e = a.find('=');
      if (e != std::string::npos) m[a.substr(0, e)] = a.substr(e + 1);
    }
  }
  long num(const char* k, long d) const {
    auto it = m.find(k);
    return it == m.end() ? d : atol(it->second.c_str());
  }
  std::string str(const char* k, const char* d) const {
    auto it = m.find(k);
    return it == m.end() ? d : it->second;
  }
};
} // namespace vt
