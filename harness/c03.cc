// C03: composition and the operations built on it
#include "hx.h"
using namespace hx;

static bool inUnk(const Spec& a) { for (auto& v : a.st) for (auto& x : v) if (x.in == M::UNK) return true; return false; }
static bool outUnk(const Spec& a) { for (auto& v : a.st) for (auto& x : v) if (x.out == M::UNK) return true; return false; }

static void compose_law(Src& s, Case& c, ImplementationType t) {
  M::GenOpt o; o.letters = M::genLetters(s, false); o.special = 12;
  Spec A = M::gen(s, o), B = M::gen(s, o);
  c.show << tname(t) << " compose A=" << A.str() << " B=" << B.str();
  // known finding: ?:x composed with y:? loses the identical pairs
  if (inUnk(A) && outUnk(B)) discard("known finding: unknown input composed with unknown output");
  HfstTransducer a = toHfst(A, t), b = toHfst(B, t);
  Univ u; addSyms(u, A); addSyms(u, B); u.fresh(3);
  Spec b0 = fromHfst(b);
  c.at("compose"); a.compose(b);
  if (fromHfst(b).str() != b0.str()) fail("the right operand of compose was changed");
  Spec g = fromHfst(a); addSyms(u, g);
  Fst exp;
  try { exp = M::compose(u.expand(A), u.expand(B)); } catch (M::TooBig&) { discard("model too big"); }
  if (!weightedType(t)) exp = M::unweighted(exp);
  c.nontrivial = M::trim(exp).st.size() > 1;
  if (A.has_special() || B.has_special()) c.label("unknown/identity");
  sameRel(u, exp, u.expand(g), t, 3, "compose");
}
LAW(compose_tropical, 8000, 20) { compose_law(s, c, TROPICAL_OPENFST_TYPE); }
LAW(compose_sfst, 8000, 20) { compose_law(s, c, SFST_TYPE); }
LAW(compose_foma, 8000, 20) { compose_law(s, c, FOMA_TYPE); }

LAW(compose_intersect, 8000, 20) {
  ImplementationType t = TYPES[s.below(3)];
  M::GenOpt o; o.letters = {"a", "b", "c"}; o.special = 0; o.extraSigma = 0; o.cyclicWeights = false; o.eps = 20;
  Spec L = M::gen(s, o);
  int n = 1 + s.below(3); std::vector<Spec> R; HfstTransducerVector rules;
  M::GenOpt r = o; r.weights = s.chance(1, 2); r.maxArcs = 9; r.epsArcs = false; r.maxStates = 3;
  bool inv = s.chance(1, 4);
  c.show << tname(t) << " compose_intersect" << (inv ? " inverted" : "") << " lexicon=" << L.str();
  for (int i = 0; i < n; ++i) {
    Spec x = i && s.chance(1, 2) ? M::mutate(s, R[0], r) : M::gen(s, r);
    // a useful rule lets most pairs through: give it loops
    if (s.chance(2, 3)) for (auto& l : o.letters) x.arc(0, l, l, 0);
    for (auto& l : o.letters) x.sigma.insert(l);
    R.push_back(x); c.show << " rule=" << x.str();
    HfstTransducer h = toHfst(x, t);
    // rules have to be epsilon-free and deterministic as two-level rules are
    // (minimizing may put an epsilon transition with a weight at the start)
    if (r.weights) h.determinize(); else h.minimize();
    rules.push_back(h);
  }
  for (auto& l : o.letters) L.sigma.insert(l);
  Univ u; addSyms(u, L); for (auto& x : R) addSyms(u, x);
  Fst ri = u.expand(R[0]); for (int i = 1; i < n; ++i) ri = M::pairIntersect(ri, u.expand(R[i]));
  if (inv) ri = M::invert(ri);
  Fst l = u.expand(L); if (inv) l = M::invert(l);
  Fst exp = M::compose(l, ri);
  if (inv) exp = M::invert(exp);
  if (t != TROPICAL_OPENFST_TYPE) exp = M::unweighted(exp);
  HfstTransducer lex = toHfst(L, t);
  c.at("compose_intersect");
  lex.compose_intersect(rules, inv);
  Spec g = fromHfst(lex); addSyms(u, g);
  c.nontrivial = M::trim(exp).st.size() > 1; c.label("rules" + std::to_string(n)); if (inv) c.label("inverted");
  sameRel(u, exp, u.expand(g), t, 4, "compose_intersect");
}

static Fst priority(const Fst& q, const Fst& r, const Univ& u) {
  Fst dom = M::projIn(q);
  return M::unite(q, M::compose(M::complement(M::unweighted(dom), u), r));
}
LAW(priority_union, 6000, 20) {
  ImplementationType t = TYPES[s.below(3)];
  M::GenOpt o; o.letters = M::genLetters(s); o.cyclicWeights = false; o.special = 8;
  Spec A = M::gen(s, o), B = s.chance(1, 2) ? M::mutate(s, A, o) : M::gen(s, o);
  c.show << tname(t) << " priority_union A=" << A.str() << " B=" << B.str();
  HfstTransducer a = toHfst(A, t), b = toHfst(B, t);
  c.at("priority_union"); a.priority_union(b);
  Univ u; addSyms(u, A); addSyms(u, B); u.fresh(2); Spec g = fromHfst(a); addSyms(u, g);
  Fst exp = priority(u.expand(A), u.expand(B), u); if (t != TROPICAL_OPENFST_TYPE) exp = M::unweighted(exp);
  c.nontrivial = A.narcs() && B.narcs() && M::trim(exp).st.size() > 1;
  sameRel(u, exp, u.expand(g), t, 3, "priority_union");
}
LAW(lenient_composition, 4000, 20) {
  ImplementationType t = TYPES[s.below(3)];
  M::GenOpt o; o.letters = M::genLetters(s); o.cyclicWeights = false; o.special = 8;
  Spec A = M::gen(s, o), B = M::gen(s, o);
  if (inUnk(A) && outUnk(B)) discard("known finding: unknown input composed with unknown output");
  c.show << tname(t) << " lenient A=" << A.str() << " B=" << B.str();
  HfstTransducer a = toHfst(A, t), b = toHfst(B, t);
  c.at("lenient_composition"); a.lenient_composition(b);
  Univ u; addSyms(u, A); addSyms(u, B); u.fresh(2); Spec g = fromHfst(a); addSyms(u, g);
  Fst exp;
  try { exp = priority(M::compose(u.expand(A), u.expand(B)), u.expand(A), u); } catch (M::TooBig&) { discard("model too big"); }
  if (t != TROPICAL_OPENFST_TYPE) exp = M::unweighted(exp);
  c.nontrivial = A.narcs() && B.narcs() && M::trim(exp).st.size() > 1;
  sameRel(u, exp, u.expand(g), t, 3, "lenient_composition");
}
LAW(cross_product, 4000, 20) {
  ImplementationType t = TYPES[s.below(3)];
  M::GenOpt o; o.letters = M::genLetters(s); o.cyclicWeights = false; o.acceptor = true; o.maxStates = 3; o.maxArcs = 3;
  Spec A = M::gen(s, o), B = M::gen(s, o);
  c.show << tname(t) << " cross_product A=" << A.str() << " B=" << B.str();
  HfstTransducer a = toHfst(A, t), b = toHfst(B, t);
  c.at("cross_product"); a.cross_product(b);
  Univ u; addSyms(u, A); addSyms(u, B); u.fresh(2); Spec g = fromHfst(a); addSyms(u, g);
  Fst exp = M::cross(u.expand(A), u.expand(B)); if (t != TROPICAL_OPENFST_TYPE) exp = M::unweighted(exp);
  c.nontrivial = A.narcs() && B.narcs() && M::trim(exp).st.size() > 1;
  sameRel(u, exp, u.expand(g), t, 3, "cross_product");
}
LAW(shuffle, 4000, 20) {
  ImplementationType t = TYPES[s.below(3)];
  M::GenOpt o; o.letters = M::genLetters(s); o.cyclicWeights = false; o.acceptor = true; o.maxStates = 3; o.maxArcs = 3;
  Spec A = M::gen(s, o), B = M::gen(s, o);
  c.show << tname(t) << " shuffle A=" << A.str() << " B=" << B.str();
  HfstTransducer a = toHfst(A, t), b = toHfst(B, t);
  c.at("shuffle"); a.shuffle(b);
  Univ u; addSyms(u, A); addSyms(u, B); u.fresh(2); Spec g = fromHfst(a); addSyms(u, g);
  Fst exp = M::shuffle(u.expand(A), u.expand(B)); if (t != TROPICAL_OPENFST_TYPE) exp = M::unweighted(exp);
  c.nontrivial = A.narcs() && B.narcs() && M::trim(exp).st.size() > 1;
  samePairs(u, exp, u.expand(g), t, 4, "shuffle");
}
LAW(shuffle_refuses, 1500, 10) {
  ImplementationType t = TYPES[s.below(3)];
  M::GenOpt o; o.special = 0; Spec A = M::gen(s, o), B = M::gen(s, o);
  c.show << tname(t) << " shuffle A=" << A.str() << " B=" << B.str();
  auto useful = [](const Spec& a) { Univ u; addSyms(u, a); Fst f = M::trim(u.expand(a)); for (auto& v : f.st) for (auto& x : v) if (x.i != x.o) return true; return false; };
  if (!useful(A) && !useful(B)) discard("both are automata");
  c.nontrivial = true; c.at("shuffle");
  HfstTransducer a = toHfst(A, t), b = toHfst(B, t);
  try { a.shuffle(b); fail("shuffle accepted a transducer that is not an automaton"); } catch (TransducersAreNotAutomataException&) {}
  // and a refusal leaves nothing behind
  HfstTransducer x("a", t), y("b", t); x.shuffle(y); HfstTransducer e("a", t); HfstTransducer e2("b", t); HfstTransducer l(e); l.concatenate(e2); e2.concatenate(e); l.disjunct(e2);
  if (!x.compare(l)) fail("shuffle is wrong after a refused shuffle");
}
LAW(compose_intersect_no_rules, 300, 5) {
  ImplementationType t = TYPES[s.below(3)]; M::GenOpt o; Spec A = M::gen(s, o); c.show << tname(t) << " compose_intersect with no rules " << A.str();
  HfstTransducer a = toHfst(A, t); HfstTransducerVector v; c.at("compose_intersect"); a.compose_intersect(v);
  c.nontrivial = A.narcs() > 0; if (a.get_type() != t) fail("type changed");
  Univ u; addSyms(u, A); u.fresh(2); Spec g = fromHfst(a); addSyms(u, g); sameRel(u, M::empty(), u.expand(g), t, 4, "compose_intersect with no rules");
}
KNOWN_LAW(unknown_both_ways) {
  Spec A; A.add(); A.add(); A.arc(0, M::UNK, "x", 1); A.fin[1] = 0; Spec B; B.add(); B.add(); B.arc(0, "x", M::UNK, 1); B.fin[1] = 0;
  c.show << "tropical compose A=" << A.str() << " B=" << B.str();
  HfstTransducer a = toHfst(A, TROPICAL_OPENFST_TYPE), b = toHfst(B, TROPICAL_OPENFST_TYPE); a.compose(b);
  Univ u; addSyms(u, A); u.fresh(2); Spec g = fromHfst(a); addSyms(u, g);
  sameRel(u, M::compose(u.expand(A), u.expand(B)), u.expand(g), TROPICAL_OPENFST_TYPE, 2, "compose");
}
int main(int argc, char** argv) {
  return hx::main(argc, argv, "C03", "both operands have transitions and the expected result is more than the bare initial state");
}
