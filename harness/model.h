// Reference model of finite-state transducers: deliberately naive textbook
// constructions over a finite universe of concrete symbols.
#pragma once
#include "engine.h"
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace M {
typedef std::string S;
extern const S EPS, UNK, ID;
const double INF = std::numeric_limits<double>::infinity();

// symbolic transducer: what a test case generates and what a library result is
// read back into. State 0 is initial.
struct Arc { int to; S in, out; double w; };
struct Spec {
  std::vector<std::vector<Arc>> st;
  std::map<int, double> fin;
  std::set<S> sigma;                 // extra known symbols
  int add() { st.push_back({}); return (int)st.size() - 1; }
  void arc(int f, const S& i, const S& o, int t, double w = 0) { st[f].push_back({t, i, o, w}); }
  std::set<S> alphabet() const;      // concrete symbols: in arcs or in sigma
  bool has_special() const;          // unknown or identity arcs
  bool acceptor() const;
  bool cyclic() const;
  std::string str() const;           // readable, one line per arc
  size_t narcs() const { size_t n = 0; for (auto& s : st) n += s.size(); return n; }
};
inline bool special(const S& s) { return s == EPS || s == UNK || s == ID; }
bool is_flag(const S& s);

// concrete transducer over interned symbols (0 = epsilon)
struct CArc { int to; int i, o; double w; };
struct Fst {
  std::vector<std::vector<CArc>> st;
  std::vector<double> fin;
  int add(double f = INF) { st.push_back({}); fin.push_back(f); return (int)st.size() - 1; }
  void arc(int f, int i, int o, int t, double w = 0) { st[f].push_back({t, i, o, w}); }
};

// per-case symbol table and universe
struct Univ {
  std::vector<S> name;               // name[0] = epsilon
  std::map<S, int> id;
  Univ();
  int sym(const S& s);               // interned concrete symbol, adds it
  void addAll(const std::set<S>& a) { for (auto& s : a) sym(s); }
  void fresh(int n = 2);             // symbols no transducer mentions
  int size() const { return (int)name.size() - 1; }
  Fst expand(const Spec& s);         // symbols must all be in the universe already
  std::string text(const std::string& w) const;   // byte string of ids -> readable
};

typedef std::map<std::pair<std::string, std::string>, double> Rel;
struct TooBig {};

Fst trim(const Fst& f);
// tropical relation restricted to |in|<=Li, |out|<=Lo
Rel rel(const Fst& f, int Li, int Lo, size_t budget = 150000);
// same, weights summed over paths in the log semiring; needs finitely many paths
Rel rellog(const Fst& f, int Li, int Lo, size_t budget = 150000);
// set of aligned pair strings of at most L pairs (epsilon:epsilon skipped)
std::map<std::string, double> pairs(const Fst& f, int L, size_t budget = 150000);

Fst empty(); Fst epsilon(double w = 0);
Fst unite(const Fst& a, const Fst& b);
Fst concat(const Fst& a, const Fst& b);
Fst star(const Fst& a); Fst plus(const Fst& a); Fst opt(const Fst& a);
Fst power(const Fst& a, int n);
Fst reverse(const Fst& a); Fst invert(const Fst& a);
Fst projIn(const Fst& a); Fst projOut(const Fst& a);
Fst compose(const Fst& a, const Fst& b);
Fst cross(const Fst& a, const Fst& b);
Fst unweighted(const Fst& a);
Fst pairIntersect(const Fst& a, const Fst& b);   // aligned pairs are letters
Fst pairSubtract(const Fst& a, const Fst& b);    // weights of a kept
Fst complement(const Fst& acc, const Univ& u);   // acceptor complement over universe
Fst shuffle(const Fst& a, const Fst& b);         // acceptors
Fst sigmaStar(const Univ& u);
Fst word(const std::vector<int>& in, const std::vector<int>& out, double w = 0);
bool epsCycle(const Fst& f);                     // eps:eps cycle on a useful path
bool sideCycle(const Fst& f, bool input);        // cycle with no symbol on the given side

// difference between two bounded relations, "" if none
std::string diff(const Rel& expect, const Rel& got, const Univ& u, bool weighted, double tol = 1e-3);
std::string diffp(const std::map<std::string, double>& e, const std::map<std::string, double>& g, const Univ& u, bool weighted, double tol = 1e-3);

// ---- generators -------------------------------------------------------------
struct GenOpt {
  int maxStates = 4, maxArcs = 6;
  std::vector<S> letters = {"a", "b", "c"};
  int eps = 15;        // per cent of arc sides that are epsilon
  int special = 10;    // per cent of arcs that are unknown/identity
  bool acceptor = false, acyclic = false, weights = true;
  bool cyclicWeights = true;   // weights allowed inside cycles
  bool epsArcs = true;         // eps:eps arcs allowed
  bool negative = false;
  int extraSigma = 20;         // per cent chance of an extra alphabet symbol
};
Spec gen(pbt::Src& s, const GenOpt& o);
Spec mutate(pbt::Src& s, const Spec& a, const GenOpt& o);  // a few random edits
std::vector<S> genLetters(pbt::Src& s, bool flags = false);   // a small symbol set (multicharacter, non-ASCII, flags)
// a trie-shaped word-pair list: many words, up to nsyms different symbols
Spec genLexicon(pbt::Src& s, int maxWords, int nsyms, int maxLen, bool weights);
double genWeight(pbt::Src& s, bool neg = false);
void zeroCycleWeights(Spec& s);
}  // namespace M
