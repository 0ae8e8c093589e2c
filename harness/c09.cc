// C09: looking up a string gives exactly the outputs the transducer relates it to
#include "hx.h"
#include "flags.h"
using namespace hx;
static Spec genLook(Src& s) {
  static const std::vector<std::vector<S>> sets = {{"a", "b", "c"}, {"a", "ab", "abc", "b"}, {"a", "\xc3\xa4", "\xe2\x82\xac", "b"}, {"cat", "+N", "c", "a"}, {"a", "aa", "aab", "\xc3\xa4\xc3\xa4", "\xc3\xa4"}};
  M::GenOpt o; o.letters = sets[s.below(5)]; o.maxStates = 5; o.maxArcs = 9; o.special = 12; o.negative = false; o.eps = 12; o.extraSigma = 40;
  Spec A = M::gen(s, o);
  if (s.chance(1, 3)) A.sigma.insert(s.pick(std::vector<S>{"d", "q", "zz", "\xc3\xb6", "bc"}));
  if (s.chance(1, 2)) F::sprinkle(s, A, s.pick(std::vector<int>{10, 30, 60}));
  for (auto& v : A.st) for (auto& x : v) if (x.out == M::UNK) x.out = x.in == M::UNK ? S("a") : M::is_flag(x.in) ? x.in : S("b");
  return A;
}
static S genInput(Src& s, const Spec& A) {
  std::vector<S> bits; for (auto& x : A.alphabet()) if (!M::is_flag(x)) bits.push_back(x);
  bits.push_back("z"); bits.push_back("\xc3\xb6"); bits.push_back("d"); bits.push_back("\xf0\x9f\x98\x80"); bits.push_back(" ");
  S r;
  if (s.chance(2, 3)) { // walk
    int q = 0; for (int k = 0; k < 8; ++k) { if (A.st[q].empty() || (A.fin.count(q) && s.chance(1, 3))) break; auto& x = s.pick(A.st[q]); if (x.in == M::ID || x.in == M::UNK) r += s.pick(bits); else if (!F::epsLike(x.in)) r += x.in; q = x.to; }
    if (s.chance(1, 6)) r += s.pick(bits);
  } else { int n = s.below(6); for (int i = 0; i < n; ++i) r += s.pick(bits); }
  return r;
}
static S strip(const StringVector& v) { S r; for (auto& x : v) if (!x.empty() && x != M::EPS && !M::is_flag(x)) r += x + "|"; return r; }
static std::string cmp(const F::Outs& e, const F::Outs& g, bool w) {
  for (auto& x : e) { auto it = g.find(x.first); if (it == g.end()) return "output '" + x.first + "' is missing"; if (w && std::abs(it->second - x.second) > 1e-3) return "output '" + x.first + "' has weight " + std::to_string(it->second) + " instead of " + std::to_string(x.second); }
  for (auto& x : g) if (!e.count(x.first)) return "output '" + x.first + "' should not be there";
  return "";
}
static F::Outs outs(HfstOneLevelPaths* p) { F::Outs r; for (auto& x : *p) { S o = strip(x.second); auto it = r.find(o); if (it == r.end() || x.first < it->second) r[o] = x.first; } delete p; return r; }
static StringVector sv(const std::vector<S>& t) { return StringVector(t.begin(), t.end()); }

static void history(Src& s, Case& c, Spec A, int nq) {
  ImplementationType t = s.chance(1, 2) ? HFST_OLW_TYPE : HFST_OL_TYPE; bool w = t == HFST_OLW_TYPE;
  c.show << tname(t) << " " << (A.st.size() > 12 ? std::to_string(A.st.size()) + " states" : A.str()); c.at("conversion");
  HfstTransducer h = toHfst(A, s.chance(1, 4) ? (w ? TROPICAL_OPENFST_TYPE : genType(s, false)) : TROPICAL_OPENFST_TYPE); Spec L = fromHfst(h); h.convert(t);   // (some back ends drop trivial loops)
  if (s.chance(1, 4)) { HfstTransducer k(h); h = k; c.show << " (copied)"; }
  std::set<S> known = A.alphabet();
  Spec B = A; if (!w) { for (auto& v : B.st) for (auto& x : v) x.w = 0; for (auto& f : B.fin) f.second = 0; }
  for (int i = 0; i < nq; ++i) {
    if (i && s.chance(1, 6)) { // lookups leave no trace in what is stored, copied or converted
      int k = s.below(4); c.at("storing"); c.show << (k == 0 ? " (stored and read)" : k == 1 ? " (copied)" : k == 2 ? " (converted to tropical and back)" : " (symbol inserted)");
      if (k == 0) { S f = pbt::scratch_dir + "/l.ol"; { HfstOutputStream o(f, t); o << h; o.close(); } HfstInputStream is(f); HfstTransducer r(is); h = r; }
      else if (k == 1) { HfstTransducer r(h); h = r; }
      else if (k == 3) { S x = s.pick(std::vector<S>{"z", "d", "\xc3\xb6", "xyz"}); h.insert_to_alphabet(x); A.sigma.insert(x); B.sigma.insert(x); L.sigma.insert(x); known.insert(x); c.show << " " << x; }
      else { h.convert(TROPICAL_OPENFST_TYPE); h.convert(t); }
    }
    S in = genInput(s, A); std::vector<S> toks = F::tokenize(known, in);
    c.show << " lookup '" << in << "'"; c.at("lookup of '" + in + "'");
    int inf = F::infinite(L, toks, true);
    bool ia = s.chance(1, 2) ? h.is_lookup_infinitely_ambiguous(in) : h.is_lookup_infinitely_ambiguous(sv(toks));
    if (inf == 1 && !ia) fail("'" + in + "' has infinitely many analyses but this is not reported");
    if (inf == -1 && ia) fail("'" + in + "' is reported infinitely ambiguous but no cycle is passed");
    int infA = F::infinite(A, toks, true);
    if ((inf >= 0 || infA >= 0) && F::loop(A, true)) { c.label("infinite"); continue; }
    if (inf >= 0 || infA >= 0) { // cycles of bare flags: the number of paths grows fast
      if (F::manyWays(A, toks, true, 5000) || F::manyWays(L, toks, true, 5000)) { c.label("flag cycles, many paths"); continue; }
      c.label("flag cycles");
    }
    F::Outs e = F::lookup(B, toks, true); if (e.size() > 0) c.nontrivial = true;
    F::Outs g; int how = s.below(4);
    if (how == 0) g = outs(h.lookup_fd(in)); else if (how == 1) g = outs(h.lookup_fd(sv(toks))); else if (how == 2) g = outs(h.lookup(in));
    else {
      HfstTwoLevelPaths* p = h.lookup_pairs(in);
      for (auto& x : *p) {
        StringVector l, u; for (auto& y : x.second) { l.push_back(y.first); u.push_back(y.second); }
        S o = strip(u), want; auto it = g.find(o); if (it == g.end() || x.first < it->second) g[o] = x.first;
        for (auto& k : toks) want += k + "|";
        S got; { size_t q = 0; for (auto& y : x.second) { if (y.first.empty() || y.first == M::EPS || M::is_flag(y.first)) continue; S z = y.first; if ((z == M::ID || z == M::UNK) && q < toks.size()) z = toks[q]; got += z + "|"; ++q; } }
        if (got != want) fail("lookup_pairs of '" + in + "' returned a path that reads '" + got + "'");
      }
      delete p;
    }
    std::string d = cmp(e, g, w); if (!d.empty()) fail("lookup of '" + in + "': " + d);
    if (s.chance(1, 3)) {
      int lim = s.below(4); HfstOneLevelPaths* p = h.lookup_fd(in, lim); size_t n = p->size(); F::Outs q = outs(p);
      if (n > (size_t)lim) fail("lookup with limit " + std::to_string(lim) + " returned " + std::to_string(n) + " results");
      for (auto& x : q) if (!e.count(x.first)) fail("limited lookup returned '" + x.first + "', which is not a result");
      if (lim > 0 && q.empty() && !e.empty()) fail("limited lookup found nothing though there are results");
      for (auto& x : q) if (w && x.second < e[x.first] - 1e-3) fail("limited lookup: weight below the best one");
    }
  }
}
LAW(small, 150000, 20) { Spec A = genLook(s); history(s, c, A, 1 + s.below(4)); }
LAW(lexicons, 15000, 20) {
  Spec A = M::genLexicon(s, s.pick(std::vector<int>{10, 80, 300}), s.pick(std::vector<int>{3, 20, 120, 200}), 7, true);
  if (s.chance(1, 2)) F::sprinkle(s, A, 8);
  if (s.chance(1, 3)) { int q = s.below((uint32_t)A.st.size()); A.arc(q, M::ID, M::ID, s.below((uint32_t)A.st.size()), 1); }
  history(s, c, A, 5);
}
// the mutable graph's own lookup
LAW(basic, 60000, 20) {
  Spec A = genLook(s); HfstBasicTransducer b = toBasic(A); std::set<S> known = A.alphabet(); c.show << "graph " << A.str();
  for (int i = 1 + s.below(3); i > 0; --i) {
    S in = genInput(s, A); std::vector<S> toks = F::tokenize(known, in); bool flags = s.chance(2, 3); c.show << " lookup '" << in << "'" << (flags ? "" : " flags as epsilons"); c.at("lookup");
    int infF = F::infinite(A, toks, flags), inf = F::infinite(A, toks, false); bool ia = b.is_lookup_infinitely_ambiguous(sv(toks), flags);
    if (infF == 1 && !ia) fail("infinitely many analyses but this is not reported");
    if (inf == -1 && ia) fail("reported infinitely ambiguous but no cycle is passed");
    if (inf >= 0) { c.label("infinite");
      if (flags) continue;
      size_t k = s.below(3); c.show << " at most " << k << " cycles"; F::Outs e; if (!F::cyclesLookup(A, toks, k, e)) { c.label("many paths"); continue; }
      if (!e.empty()) c.nontrivial = true; HfstTwoLevelPaths r; b.lookup(sv(toks), r, &k, nullptr, -1, false);
      F::Outs g; for (auto& x : r) { StringVector o; for (auto& y : x.second) o.push_back(y.second); S z = strip(o); auto it = g.find(z); if (it == g.end() || x.first < it->second) g[z] = x.first; }
      std::string d = cmp(e, g, true); if (!d.empty()) fail("lookup of '" + in + "' with at most " + std::to_string(k) + " cycles: " + d);
      continue; }
    F::Outs e = F::lookup(A, toks, flags); if (!e.empty()) c.nontrivial = true;
    HfstTwoLevelPaths r; float* mw = nullptr; float lim = 0; int mn = -1; if (s.chance(1, 4)) { lim = (float)s.below(4); mw = &lim; } if (s.chance(1, 5)) mn = s.below(3);
    b.lookup(sv(toks), r, nullptr, mw, mn, flags);
    F::Outs g; for (auto& x : r) { StringVector u; for (auto& y : x.second) u.push_back(y.second); S o = strip(u); auto it = g.find(o); if (it == g.end() || x.first < it->second) g[o] = x.first; if (mw && x.first > lim + 1e-4) fail("result over the weight limit"); }
    if (mn >= 0) { if ((int)r.size() > mn) fail("more results than asked for"); for (auto& x : g) if (!e.count(x.first)) fail("limited lookup returned a wrong result"); if (mn > 0 && g.empty() && !e.empty() && !mw) fail("limited lookup found nothing"); continue; }
    if (mw) { F::Outs e2; for (auto& x : e) if (x.second <= lim + 1e-4) { if (std::abs(x.second - lim) < 1e-4 && !g.count(x.first)) continue; e2.insert(x); } e = e2; }
    std::string d = cmp(e, g, true); if (!d.empty()) fail("lookup of '" + in + "': " + d);
  }
}
int main(int argc, char** argv) { return hx::main(argc, argv, "C09", "at least one looked-up string has a result"); }
