// C06: converting between formats preserves the relation, weights and alphabet
#include "hx.h"
#include <algorithm>
#include <tuple>
using namespace hx;
static const std::vector<ImplementationType> ALL = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE, HFST_OLW_TYPE, HFST_OL_TYPE};
static void chain(Src& s, Case& c, const Spec& A, int maxSteps, int L) {
  ImplementationType t = ALL[s.below(6)]; bool w = weightedType(t), foma = t == FOMA_TYPE;
  c.show << "convert " << tname(t);
  HfstTransducer h = toHfst(A, t);
  for (int n = s.below(maxSteps + 1); n > 0; --n) {
    int k = s.below(8);
    if (k == 6) { c.show << " -> graph -> "; HfstBasicTransducer b(h); h = HfstTransducer(b, t); }
    else if (k == 7) { c.show << " -> copy"; HfstTransducer x(h); h = HfstTransducer(x); }
    else {
      ImplementationType q = ALL[k]; c.show << " -> " << tname(q); c.at(std::string("convert ") + tname(t) + " to " + tname(q));
      h.convert(q); w &= weightedType(q); foma |= q == FOMA_TYPE; t = q;
    }
    if (h.get_type() != t) fail("the transducer is not of the type it was converted to");
  }
  c.show << " of A=" << A.str();
  Univ u; addSyms(u, A); u.fresh(2); c.at("reading the result"); Spec g = fromHfst(h); addSyms(u, g);
  Fst e = u.expand(A); Fst tr = M::trim(e); bool empty = true; for (double f : tr.fin) empty &= f == M::INF;
  // libfoma forgets the alphabet of the empty language
  if (!(foma && empty)) for (auto& x : A.alphabet()) if (!g.alphabet().count(x)) fail("symbol " + x + " is lost from the alphabet");
  for (auto& x : g.alphabet()) if (!A.alphabet().count(x)) fail("symbol " + x + " appears in the alphabet from nowhere");
  if (!w) e = M::unweighted(e);
  c.nontrivial = M::trim(e).st.size() > 1; c.label(tname(t));
  sameRel(u, e, u.expand(g), w ? TROPICAL_OPENFST_TYPE : SFST_TYPE, L, "conversion");
}
LAW(small, 20000, 20) {
  M::GenOpt o; o.letters = M::genLetters(s, true); o.maxStates = 5; o.maxArcs = 9; o.negative = s.chance(1, 5); chain(s, c, M::gen(s, o), 4, 4);
}
LAW(lexicons, 2500, 20) { Spec A = M::genLexicon(s, s.pick(std::vector<int>{5, 40, 120}), s.pick(std::vector<int>{3, 30, 200}), 6, true); chain(s, c, A, 3, 6); }
// states and transitions survive one to one where the target is a plain graph format
LAW(structure, 6000, 20) {
  M::GenOpt o; o.letters = M::genLetters(s); o.maxStates = 6; o.maxArcs = 10; Spec A = M::gen(s, o); ImplementationType t = TROPICAL_OPENFST_TYPE;
  c.show << "graph -> " << tname(t) << " -> graph A=" << A.str();
  HfstTransducer h = toHfst(A, t); Spec g = fromHfst(h); c.nontrivial = A.narcs() > 1;
  auto norm = [](Spec x) { for (auto& v : x.st) { std::sort(v.begin(), v.end(), [](const M::Arc& a, const M::Arc& b) { return std::tie(a.to, a.in, a.out, a.w) < std::tie(b.to, b.in, b.out, b.w); }); for (auto& a : x.alphabet()) x.sigma.insert(a); } return x.str(); };
  if (t == TROPICAL_OPENFST_TYPE && h.number_of_states() != A.st.size()) fail("number of states changed: " + std::to_string(h.number_of_states()));
  if (t == TROPICAL_OPENFST_TYPE && h.number_of_arcs() != A.narcs()) fail("number of transitions changed: " + std::to_string(h.number_of_arcs()));
  if (norm(A) != norm(g)) fail("the graph changed: " + norm(g));
}
int main(int argc, char** argv) { return hx::main(argc, argv, "C06", "the trimmed model of the converted transducer has more than one state (structure: more than one transition)"); }
