// Property-based testing engine: choice-sequence generation, forked workers,
// crash/hang containment, shrinking by editing the recorded choices, replay.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

// ---- choice source ---------------------------------------------------------
struct Exhausted {};

class Src {
public:
  uint32_t* rec = nullptr;      // where choices are recorded
  uint32_t cap = 0;
  volatile uint32_t* nrec = nullptr;
  const uint32_t* play = nullptr;  // replayed choices (nullptr: random)
  uint32_t nplay = 0;
  uint32_t pos = 0;
  uint64_t s = 0;
  uint64_t next64() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0,n); 0 is the simplest choice
  uint32_t below(uint32_t n) {
    uint32_t v;
    if (n <= 1) return 0;
    if (play) v = pos < nplay ? (play[pos] < n ? play[pos] : n - 1) : 0;
    else v = (uint32_t)(next64() % n);
    if (pos >= cap) throw Exhausted();
    rec[pos++] = v;
    *nrec = pos;
    return v;
  }
  int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
  // true with probability num/den; shrinks to false
  bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
  template <class V> const typename V::value_type& pick(const V& v) {
    return v[below((uint32_t)v.size())];
  }
  // index drawn according to integer weights; shrinks to 0
  int weighted(const std::vector<int>& w) {
    uint32_t t = 0; for (int x : w) t += x;
    uint32_t v = below(t);
    for (size_t i = 0; i < w.size(); ++i) { if (v < (uint32_t)w[i]) return (int)i; v -= w[i]; }
    return 0;
  }
};

// ---- one case --------------------------------------------------------------
struct Violation { std::string msg; };
struct Discard { std::string why; };

struct Case {
  std::ostringstream show;
  bool nontrivial = false;
  std::vector<std::string> labels;
  void label(const std::string& l) { labels.push_back(l); }
  // shared text used to describe what was running if the process dies
  char* stage = nullptr; size_t stagecap = 0;
  char* textbuf = nullptr; size_t textcap = 0;
  void at(const std::string& s);
};

[[noreturn]] inline void fail(const std::string& m) { throw Violation{m}; }
[[noreturn]] inline void discard(const std::string& m) { throw Discard{m}; }

// ---- laws ------------------------------------------------------------------
typedef void (*LawFn)(Src&, Case&);
struct Law {
  std::string name;
  int quick;      // number of cases in the quick tier
  int mult;       // thorough = quick * mult
  LawFn fn;
  bool known;     // a known-finding law: never run in the search
};
std::vector<Law>& laws();
struct Reg {
  Reg(const char* n, int quick, int mult, LawFn f, bool known = false) { laws().push_back({n, quick, mult, f, known}); }
};
#define LAW(NAME, QUICK, MULT)                                              \
  static void law_##NAME(pbt::Src&, pbt::Case&);                            \
  static pbt::Reg reg_##NAME(#NAME, QUICK, MULT, law_##NAME);               \
  static void law_##NAME([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Case& c)
#define KNOWN_LAW(NAME)                                                     \
  static void law_##NAME(pbt::Src&, pbt::Case&);                            \
  static pbt::Reg reg_##NAME(#NAME, 1, 1, law_##NAME, true);                \
  static void law_##NAME([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Case& c)

// set by a property file: turn an in-flight exception into a description, or
// return "" if unknown
std::string describe_exception();  // uses std::current_exception, weak hook
extern std::function<std::string()> exception_hook;
extern std::string scratch_dir;    // per process scratch directory
extern const char* property_rule;  // non-triviality rule, stated for evidence
int engine_main(int argc, char** argv);
void set_property(const char* id, const char* rule);
}
