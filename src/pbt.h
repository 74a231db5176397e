// Small property-based testing engine used by all checks.
//
// A property is a function  void prop(pbt::Case&)  which draws everything it
// needs from the Case (a recorded sequence of bounded integers), exercises
// the library and calls CHECK/fail() when the oracle disagrees.  A failing
// choice sequence is shrunk by deleting and lowering choices and written to a
// replay file.  Cases run in forked workers so that crashes, aborts,
// sanitizer reports and endless loops are ordinary, shrinkable failures.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };

class Case {
public:
  // ---- choices -------------------------------------------------------
  uint64_t draw(uint64_t n);                 // uniform in [0,n)
  int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo) + 1); }
  bool chance(int num, int den) { return (int)draw(den) >= den - num; } // shrinks to false
  bool flip() { return draw(2) != 0; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  template <class T, size_t N> const T& pick(const T (&v)[N]) { return v[draw(N)]; }
  double unit();                             // [0,1), shrinks to simple fractions
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double logreal(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }

  // ---- reporting -----------------------------------------------------
  void label(const std::string& l) { labels[l]++; }
  void metric(const std::string& m, double v) {
    auto it = metrics.find(m);
    if (it == metrics.end()) metrics[m] = v; else if (v > it->second) it->second = v;
  }
  void nontrivial(bool b = true) { if (b) isNontrivial = true; }
  std::ostringstream note;                   // human readable description
  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }

  bool thorough = false;
  uint64_t index = 0;
  // ---- internal ------------------------------------------------------
  std::vector<uint64_t> rec;
  const std::vector<uint64_t>* replay = nullptr;
  uint64_t rng[2] = {1, 2};
  uint64_t next64();
  bool isNontrivial = false;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, double> metrics;
  volatile uint64_t* shm = nullptr;          // mirrors rec while shrinking
  uint64_t shmCap = 0;
};

struct Prop {
  const char* check;   // property id, e.g. "C01"
  const char* name;    // sub-property
  uint64_t quick, thorough;
  void (*fn)(Case&);
};
std::vector<Prop>& props();
struct Reg { Reg(const char* c, const char* n, uint64_t q, uint64_t t, void (*f)(Case&)) { props().push_back({c, n, q, t, f}); } };

// A listed known finding: returns true while the defect is still there.
struct Known { const char* check; const char* id; bool (*present)(); };
std::vector<Known>& knowns();
struct KReg { KReg(const char* c, const char* i, bool (*f)()) { knowns().push_back({c, i, f}); } };

// Rule text for the evidence file.
struct Rule { const char* check; const char* text; };
std::vector<Rule>& rules();
struct RReg { RReg(const char* c, const char* t) { rules().push_back({c, t}); } };

int main_(int argc, char** argv);

inline std::string fmt(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
inline std::string fmtl(long double v) { char b[64]; snprintf(b, sizeof b, "%.20Lg", v); return b; }
inline bool same(double a, double b) { // bit identical, except for the sign of zero
  if (a == 0 && b == 0) return true;
  return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b);
}
}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(check, name, q, t)                                               \
  static void PBT_CAT(prop_, name)(pbt::Case & c);                                \
  static pbt::Reg PBT_CAT(reg_, name)(check, #name, q, t, PBT_CAT(prop_, name));  \
  static void PBT_CAT(prop_, name)(pbt::Case & c)
#define KNOWN_FINDING(check, id)                                      \
  static bool PBT_CAT(known_, id)();                                  \
  static pbt::KReg PBT_CAT(kreg_, id)(check, #id, PBT_CAT(known_, id)); \
  static bool PBT_CAT(known_, id)()
#define RULE(check, text) static pbt::RReg PBT_CAT(rule_, __LINE__)(check, text)

#define CHECK(cond, msg)                                   \
  do { if (!(cond)) { std::ostringstream o_; o_ << msg; c.fail(o_.str()); } } while (0)
