// Shared by the GUI harnesses: randomness, verdicts and counters.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>

#include <QString>

namespace gh {

struct Rng {
  std::mt19937_64 g;
  explicit Rng(unsigned long s) : g(s) {}
  int below(int n) { return n <= 0 ? 0 : static_cast<int>(g() % static_cast<unsigned long>(n)); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(double p) { return (g() >> 11) * 0x1.0p-53 < p; }
  double unit() { return (g() >> 11) * 0x1.0p-53; }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v.at(below(v.size())); }
};

inline std::map<std::string, long>& counters() {
  static std::map<std::string, long> c;
  return c;
}
inline void count(const std::string& k, long n = 1) { counters()[k] += n; }
inline void flushCounters() {
  for (auto& p : counters())
    std::printf("COUNT %s %ld\n", p.first.c_str(), p.second);
  counters().clear();
  std::fflush(stdout);
}
// The trace of the steps taken so far: printed with a violation.
inline std::vector<std::string>& trace() {
  static std::vector<std::string> t;
  return t;
}
[[noreturn]] inline void fail(const std::string& key, std::string msg) {
  for (char& c : msg)
    if (c == '\n') c = '|';
  std::printf("VIOLATION %s: %s\n", key.c_str(), msg.c_str());
  auto& t = trace();
  for (std::size_t i = t.size() > 40 ? t.size() - 40 : 0; i < t.size(); ++i)
    std::printf("STEP %s\n", t[i].c_str());
  flushCounters();
  std::fflush(stdout);
  std::_Exit(3);
}
inline void step(const std::string& s) {
  trace().push_back(s);
  if (std::getenv("GUI_TRACE")) { std::fprintf(stderr, "STEP %s\n", s.c_str()); }
}
template <class... A>
std::string cat(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  (o << ... << a);
  return o.str();
}
inline std::string s(const QString& q) { return q.toStdString(); }

int validate(int argc, char** argv);
int history(int argc, char** argv);
int results(int argc, char** argv);
int window(int argc, char** argv);
int program(int argc, char** argv);

}  // namespace gh
