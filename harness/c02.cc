// C02: intersection, subtraction and complement are exact
#include "hx.h"
using namespace hx;

static void reduce(Src& s, HfstTransducer& t, Case& c) {
  switch (s.below(5)) { case 1: t.minimize(); c.show << " (minimized)"; break; case 2: t.determinize(); c.show << " (determinized)"; break; case 3: t.remove_epsilons(); c.show << " (eps removed)"; break; default: break; }
}
static void boolop(Src& s, Case& c, ImplementationType t) {
  int op = s.below(3);
  static const char* names[] = {"intersect", "subtract", "negate"};
  M::GenOpt o; o.letters = M::genLetters(s, false); o.acceptor = op == 2 || s.chance(1, 3); o.cyclicWeights = false;
  o.maxArcs = 7;
  Spec A = M::gen(s, o), B;
  if (op != 2) { if (s.chance(1, 2)) B = M::mutate(s, A, o); else B = M::gen(s, o); }
  c.show << tname(t) << " " << names[op] << ": A=" << A.str(); if (op != 2) c.show << " B=" << B.str();
  c.at(names[op]);
  HfstTransducer a = toHfst(A, t); reduce(s, a, c);
  Univ u; addSyms(u, A); addSyms(u, B); u.fresh(2);
  Spec got; Fst exp;
  if (op == 2) { a.negate(); }
  else {
    HfstTransducer b = toHfst(B, t); reduce(s, b, c);
    Spec b0 = fromHfst(b);
    if (op == 0) a.intersect(b); else a.subtract(b);
    Spec b1 = fromHfst(b);
    if (b0.str() != b1.str()) fail("the right operand of a binary operation was changed");
  }
  got = fromHfst(a); addSyms(u, got);
  Fst ma = u.expand(A);
  if (op == 0) exp = M::pairIntersect(ma, u.expand(B));
  else if (op == 1) exp = M::pairSubtract(ma, u.expand(B));
  else exp = M::complement(ma, u);
  if (t == SFST_TYPE || t == FOMA_TYPE) exp = M::unweighted(exp);
  c.label(names[op]);
  auto pl = M::trim(exp); auto pa = M::trim(ma);
  c.nontrivial = pl.st.size() > 1 && pa.st.size() > 1 && (op == 2 || M::trim(u.expand(B)).st.size() > 1);
  if (!A.acceptor()) c.label("transducer");
  if (A.has_special() || B.has_special()) c.label("unknown/identity");
  samePairs(u, exp, u.expand(got), t, 4, names[op]);
}
LAW(tropical, 12000, 20) { boolop(s, c, TROPICAL_OPENFST_TYPE); }
LAW(sfst, 12000, 20) { boolop(s, c, SFST_TYPE); }
LAW(foma, 12000, 20) { boolop(s, c, FOMA_TYPE); }
// complementing an automaton twice gives the automaton back; De Morgan on real code
LAW(laws, 6000, 20) {
  ImplementationType t = TYPES[s.below(3)];
  M::GenOpt o; o.letters = M::genLetters(s); o.acceptor = true; o.weights = false;
  Spec A = M::gen(s, o), B = M::gen(s, o); c.at("complements");
  c.show << tname(t) << " A=" << A.str() << " B=" << B.str();
  c.at("complements");
  HfstTransducer a = toHfst(A, t), b = toHfst(B, t);
  Univ u; addSyms(u, A); addSyms(u, B); u.fresh(2);
  HfstTransducer l(a); l.negate(); HfstTransducer r(b); r.negate();
  HfstTransducer x(l); x.disjunct(r); x.negate();           // ~(~A | ~B) = A & B
  Spec g = fromHfst(x); addSyms(u, g);
  c.nontrivial = A.narcs() && B.narcs();
  samePairs(u, M::unweighted(M::pairIntersect(u.expand(A), u.expand(B))), u.expand(g), SFST_TYPE, 4, "complement of union of complements");
  l.negate(); Spec g2 = fromHfst(l); addSyms(u, g2);
  samePairs(u, M::unweighted(u.expand(A)), u.expand(g2), SFST_TYPE, 4, "double complement");
}
// complement of a transducer is refused
LAW(refuses, 1500, 10) {
  ImplementationType t = TYPES[s.below(3)];
  M::GenOpt o; Spec A = M::gen(s, o);
  c.show << tname(t) << " A=" << A.str();
  if (A.has_special()) discard("unknown symbols");
  if (A.acceptor()) discard("acceptor");
  // only arcs on useful paths have to be refused: some back ends trim
  Univ u; addSyms(u, A); u.fresh(2); Fst tr = M::trim(u.expand(A)); bool pair = false;
  for (auto& v : tr.st) for (auto& a : v) pair |= a.i != a.o;
  if (!pair) discard("no useful two-level arc");
  c.nontrivial = true;
  HfstTransducer a = toHfst(A, t);
  try { a.negate(); fail("negate accepted a transducer that is not an automaton"); } catch (TransducerIsNotAutomatonException&) {}
}
int main(int argc, char** argv) {
  return hx::main(argc, argv, "C02", "every operand and the expected result accept something beyond the bare initial state (trimmed models with more than one state); for refusals, a useful transition with different sides exists");
}
