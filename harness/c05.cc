// C05: compare() answers exactly whether two transducers are the same
#include "hx.h"
using namespace hx;
static bool none(const Fst& f) { Fst t = M::trim(f); for (double x : t.fin) if (x < M::INF) return false; return true; }
static void scramble(Src& s, Case& c, HfstTransducer& h) {   // keeps the (weighted, aligned) relation
  for (int n = s.below(4); n > 0; --n) {
    int k = s.below(9); static const char* nm[] = {"minimize", "determinize", "remove_epsilons", "reverse twice", "disjunct with self", "invert twice", "epsilon concatenated", "disjunct with empty", "copy through graph"};
    c.show << " | " << nm[k]; ImplementationType t = h.get_type();
    switch (k) {
      case 0: h.minimize(); break; case 1: h.determinize(); break; case 2: h.remove_epsilons(); break; case 3: h.reverse(); h.reverse(); break;
      case 4: { HfstTransducer x(h); h.disjunct(x); break; } case 5: h.invert(); h.invert(); break;
      case 6: { HfstTransducer e(M::EPS, t); if (s.chance(1, 2)) { e.concatenate(h); h = e; } else h.concatenate(e); break; }
      case 7: { HfstTransducer e(t); h.disjunct(e); break; }
      default: { HfstBasicTransducer b(h); h = HfstTransducer(b, t); }
    }
  }
}
static void cmp(Src& s, Case& c, ImplementationType t) {
  M::GenOpt o; o.letters = M::genLetters(s, s.chance(1, 5) && t != FOMA_TYPE); o.weights = t == TROPICAL_OPENFST_TYPE && s.chance(2, 3); o.cyclicWeights = false; o.acyclic = s.chance(1, 2); o.maxStates = 5; o.maxArcs = 8; o.acceptor = s.chance(1, 3); o.special = s.pick(std::vector<int>{0, 10, 30});
  Spec A = M::gen(s, o), B = A; int kind = s.below(4);
  if (kind == 1) B = M::mutate(s, A, o); else if (kind == 2) B = M::gen(s, o);
  else if (kind == 3 && !A.fin.empty() && o.weights) { auto it = A.fin.begin(); B.fin[it->first] = it->second + M::genWeight(s); }
  M::zeroCycleWeights(B);
  c.show << tname(t) << " A=" << A.str() << " B=" << B.str();
  HfstTransducer a = toHfst(A, t), b = toHfst(B, t);
  scramble(s, c, b);
  Spec a0 = fromHfst(a), b0 = fromHfst(b);
  c.at("compare");
  bool r = a.compare(b), r2 = b.compare(a);
  if (a0.str() != fromHfst(a).str() || b0.str() != fromHfst(b).str()) fail("compare changed one of its operands");
  if (r != r2) fail("compare is not symmetric");
  if (!a.compare(a)) fail("a transducer does not equal itself");
  Univ u; addSyms(u, A); addSyms(u, B); u.fresh(2);
  Fst ea = u.expand(A), eb = u.expand(B);
  if (!weightedType(t)) { ea = M::unweighted(ea); eb = M::unweighted(eb); }
  bool same = none(M::pairSubtract(ea, M::unweighted(eb))) && none(M::pairSubtract(eb, M::unweighted(ea)));
  c.nontrivial = !none(ea) && !none(eb) && A.narcs() && B.narcs();
  if (!same) { c.label("different relations"); if (r) fail("compare says equal, but the relations differ"); return; }
  c.label("same relation");
  if (!o.weights) { if (!r) fail("compare says different, but the relations are the same"); return; }
  // weights: equal by construction, or exactly comparable because acyclic
  try {
    int L = A.cyclic() || B.cyclic() ? 5 : 12;
    bool weq = M::diffp(M::pairs(ea, L), M::pairs(eb, L), u, true, 1e-3).empty();
    if (r && !weq) fail("compare says equal, but weights differ: " + M::diffp(M::pairs(ea, L), M::pairs(eb, L), u, true, 1e-3));
    if (!r && weq && (kind == 0 || L == 12)) fail("compare says different, but relations and weights are the same");
    c.label(weq ? "same weights" : "different weights");
  } catch (M::TooBig&) { discard("relation too big"); }
}
LAW(tropical, 20000, 20) { cmp(s, c, TROPICAL_OPENFST_TYPE); }
LAW(sfst, 12000, 20) { cmp(s, c, SFST_TYPE); }
LAW(foma, 12000, 20) { cmp(s, c, FOMA_TYPE); }
int main(int argc, char** argv) { return hx::main(argc, argv, "C05", "both transducers have transitions and accept something"); }
