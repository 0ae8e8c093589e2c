// C13: substitution and free insertion change exactly the transitions they name
#include "hx.h"
#include "xre.h"
using namespace hx;
typedef std::pair<S, S> SP;
// the transducer with "any symbol" labels turned into plain letters: substitution works on labels
static S lab(const S& x) { return x == M::ID ? "(id)" : x == M::UNK ? "(unk)" : x; }
static Spec labels(const Spec& a) { Spec r = a; r.sigma.clear(); for (auto& v : r.st) for (auto& x : v) { x.in = lab(x.in); x.out = lab(x.out); } return r; }
static S eps(const S& x) { return x.empty() ? M::EPS : x; }
static M::GenOpt opt(Src& s, ImplementationType t, bool special) { M::GenOpt o; o.weights = t == TROPICAL_OPENFST_TYPE || t == LOG_OPENFST_TYPE; o.cyclicWeights = false; o.special = special ? 15 : 0; o.letters = s.pick(std::vector<std::vector<S>>{{"a", "b", "c"}, {"a", "foo", "\xc3\xa4"}, {"a", "b", "@P.F.A@"}}); return o; }
static void cmpLabels(Case& c, const Spec& want, const Spec& got, ImplementationType t, const S& what) {
  Univ u; Spec w = labels(want), g = labels(got); addSyms(u, w); addSyms(u, g); c.nontrivial = c.nontrivial || w.narcs() > 2;
  samePairs(u, u.expand(w), u.expand(g), t, 5, what);
}
static std::map<SP, std::set<SP>>* FN; static bool fn(const StringPair& p, StringPairSet& r) { auto it = FN->find(p); if (it == FN->end()) return false; for (auto& q : it->second) r.insert(q); return true; }
static Spec mapArcs(const Spec& a, const std::function<bool(const SP&, std::set<SP>&)>& f) {
  Spec r = a; for (auto& v : r.st) v.clear();
  for (size_t i = 0; i < a.st.size(); ++i) for (auto& x : a.st[i]) { std::set<SP> to; if (!f({x.in, x.out}, to)) to = {{x.in, x.out}}; for (auto& p : to) r.arc((int)i, p.first, p.second, x.to, x.w); }
  return r;
}
// every label-level substitution function, on a transducer of each kind and on the mutable graph
LAW(label_substitution, 9000, 20) {
  bool basic = s.chance(1, 4); ImplementationType t = basic ? TROPICAL_OPENFST_TYPE : genType(s, true); auto o = opt(s, t, true); Spec A = M::gen(s, o);
  if (t == LOG_OPENFST_TYPE) { /* equal paths are summed in this semiring: compare the supports */ }
  std::vector<S> syms = o.letters; syms.push_back(M::EPS); syms.push_back("new"); bool sp = t != FOMA_TYPE && s.chance(1, 4); if (sp) { syms.push_back(M::ID); }
  std::vector<S> from = syms, to = syms; if (sp) to.push_back(M::UNK);
  auto pr = [&](const std::vector<S>& l0) { auto l = l0; if (t == FOMA_TYPE && &l0 == &from) l = o.letters; SP p{s.pick(l), s.pick(l)}; if ((p.first == M::ID) != (p.second == M::ID)) { p.first = p.second = M::ID; } return p; };
  auto arcPair = [&]() -> SP { std::vector<SP> all; for (auto& v : A.st) for (auto& x : v) all.push_back({x.in, x.out}); if (all.empty() || s.chance(1, 4)) return pr(from); SP p = s.pick(all); if (t == FOMA_TYPE && p.first == M::EPS && p.second == M::EPS) return pr(from); return p; };   // libfoma drops transitions that do nothing
  int k = s.below(6); c.show << (basic ? "graph" : tname(t)) << "\n" << A.str();
  std::unique_ptr<HfstTransducer> h; HfstBasicTransducer b; if (basic) b = toBasic(A); else h.reset(new HfstTransducer(toHfst(A, t)));
  Spec want; auto sh = [](const SP& p) { return p.first + ":" + p.second; };
  if (k == 0) {
    S x = s.pick(o.letters), y = s.pick(syms); if (y == M::ID) y = "new"; bool in = true, out = true; if (s.chance(1, 3)) { in = s.chance(1, 2); out = !in; }
    if (t != FOMA_TYPE && s.chance(1, 6)) { x = M::EPS; } c.show << "substitute " << x << " -> " << y << (in ? " in" : "") << (out ? " out" : "") << "\n"; c.at("symbol");
    want = mapArcs(A, [&](const SP& p, std::set<SP>& r) { SP q = p; if (in && q.first == x) q.first = y; if (out && q.second == x) q.second = y; r = {q}; return true; });
    if (basic) b.substitute(x, y, in, out); else h->substitute(x, y, in, out);
    if (in && out && x != y && x != M::EPS) { auto al = basic ? b.get_alphabet() : h->get_alphabet(); if (al.count(x)) fail("the substituted symbol stays in the alphabet"); }
  } else if (k == 1) {
    SP x = arcPair(), y = pr(to); c.show << "substitute " << sh(x) << " -> " << sh(y) << "\n"; c.at("pair");
    want = mapArcs(A, [&](const SP& p, std::set<SP>& r) { if (p != x) return false; r = {y}; return true; });
    if (basic) b.substitute(x, y); else h->substitute(StringPair(x), StringPair(y));
  } else if (k == 2) {
    SP x = arcPair(); StringPairSet y; for (int n = s.below(4); n > 0; --n) y.insert(pr(to)); c.show << "substitute " << sh(x) << " ->"; for (auto& q : y) c.show << " " << sh(q); c.show << "\n"; c.at("pair set");
    want = mapArcs(A, [&](const SP& p, std::set<SP>& r) { if (p != x) return false; r = std::set<SP>(y.begin(), y.end()); return true; });
    if (basic) b.substitute(x, y); else h->substitute(StringPair(x), y);
  } else if (k == 3) {
    HfstSymbolSubstitutions m; for (int n = 1 + s.below(3); n > 0; --n) { S x = s.pick(o.letters), y = s.pick(syms); if (y == M::ID) y = "new"; m[x] = y; } c.show << "substitute"; for (auto& q : m) c.show << " " << sh(q); c.show << "\n"; c.at("symbols");
    want = mapArcs(A, [&](const SP& p, std::set<SP>& r) { SP q = p; if (m.count(q.first)) q.first = m[p.first]; if (m.count(q.second)) q.second = m[p.second]; r = {q}; return true; });
    if (basic) b.substitute(m); else h->substitute(m);
  } else if (k == 4) {
    HfstSymbolPairSubstitutions m; for (int n = 1 + s.below(3); n > 0; --n) m[arcPair()] = pr(to); c.show << "substitute"; for (auto& q : m) c.show << " " << sh(q.first) << " -> " << sh(q.second); c.show << "\n"; c.at("pairs");
    want = mapArcs(A, [&](const SP& p, std::set<SP>& r) { auto it = m.find(p); if (it == m.end()) return false; r = {it->second}; return true; });
    if (basic) b.substitute(m); else h->substitute(m);
  } else {
    std::map<SP, std::set<SP>> m; for (int n = 1 + s.below(3); n > 0; --n) { SP x = arcPair(); for (int j = 1 + s.below(2); j > 0; --j) m[x].insert(pr(to)); } c.show << "function"; for (auto& q : m) { c.show << " " << sh(q.first) << " ->"; for (auto& z : q.second) c.show << " " << sh(z); } c.show << "\n"; c.at("function");
    want = mapArcs(A, [&](const SP& p, std::set<SP>& r) { auto it = m.find(p); if (it == m.end()) return false; r = it->second; return true; });
    FN = &m; if (basic) b.substitute(&fn); else h->substitute(&fn);
  }
  if (!basic && h->get_type() != t) fail("type changed");
  Spec got = basic ? fromBasic(b) : fromHfst(*h); cmpLabels(c, want, got, t == LOG_OPENFST_TYPE ? SFST_TYPE : t, "result");
}
// ---- copies of a transducer ----------------------------------------------------
static Fst replaceArcs(const Fst& a, int i, int o, const Fst& t) {
  Fst r; for (size_t k = 0; k < a.st.size(); ++k) r.add(a.fin[k]);
  for (size_t k = 0; k < a.st.size(); ++k) for (auto& x : a.st[k]) {
    if (x.i != i || x.o != o) { r.arc((int)k, x.i, x.o, x.to, x.w); continue; }
    int off = (int)r.st.size(); for (size_t j = 0; j < t.st.size(); ++j) r.add(); if (t.st.empty()) continue; r.arc((int)k, 0, 0, off, x.w);
    for (size_t j = 0; j < t.st.size(); ++j) { for (auto& y : t.st[j]) r.arc(off + (int)j, y.i, y.o, off + y.to, y.w); if (t.fin[j] < M::INF) r.arc(off + (int)j, 0, 0, x.to, t.fin[j]); }
  }
  if (r.st.size() > 400) throw M::TooBig();
  return r;
}
LAW(transducer_substitution, 6000, 20) {
  ImplementationType t = genType(s, true); auto o = opt(s, t, true); if (o.letters[2][0] == '@') o.letters[2] = "c"; Spec A = M::gen(s, o); auto o2 = o; o2.maxStates = 3; o2.maxArcs = 4; if (s.chance(1, 3)) o2.letters = {"x", "y", "a"}; Spec T = M::gen(s, o2);
  std::vector<S> L = o.letters; L.push_back("z"); SP p{s.pick(L), s.pick(L)}; if (s.chance(1, 2)) p.second = p.first; if (s.chance(1, 4)) (s.chance(1, 2) ? p.first : p.second) = M::EPS; if (p.first == M::EPS && p.second == M::EPS) p.first = "a";
  std::vector<SP> all; for (auto& v : A.st) for (auto& x : v) if (x.in != M::ID && x.in != M::UNK && x.out != M::UNK && !(x.in == M::EPS && x.out == M::EPS)) all.push_back({x.in, x.out}); if (!all.empty() && s.chance(3, 4)) p = s.pick(all);
  c.show << tname(t) << " replace " << p.first << ":" << p.second << " in\n" << A.str() << "by\n" << T.str(); c.at("substitute");
  HfstTransducer a = toHfst(A, t), b = toHfst(T, t), b0(b);
  Univ u; addSyms(u, A); addSyms(u, T); if (p.first != M::EPS) u.sym(p.first); if (p.second != M::EPS) u.sym(p.second); u.fresh(2);
  int pi = p.first == M::EPS ? 0 : u.sym(p.first), po = p.second == M::EPS ? 0 : u.sym(p.second);
  Fst want = replaceArcs(u.expand(A), pi, po, u.expand(T)); c.nontrivial = want.st.size() > A.st.size() && T.narcs() > 0;
  a.substitute(StringPair(p), b); if (a.get_type() != t) fail("type changed");
  samePairs(u, t == LOG_OPENFST_TYPE ? M::unweighted(want) : want, t == LOG_OPENFST_TYPE ? M::unweighted(u.expand(fromHfst(a))) : u.expand(fromHfst(a)), t == LOG_OPENFST_TYPE ? SFST_TYPE : t, 5, "result");
  samePairs(u, u.expand(T), u.expand(fromHfst(b)), t == LOG_OPENFST_TYPE ? SFST_TYPE : t, 4, "the substituted transducer itself");
}
LAW(free_insertion, 6000, 20) {
  int kind = s.below(4); ImplementationType t = kind == 3 ? TROPICAL_OPENFST_TYPE : genType(s, true); auto o = opt(s, t, kind < 3); Spec A = M::gen(s, o); auto o2 = o; o2.maxStates = 3; o2.maxArcs = 4; o2.weights = false; if (s.chance(1, 3)) o2.letters = {"x", "y", "a"};
  Spec T; std::vector<S> L = o.letters; L.push_back("z"); float w = 0;
  if (kind == 0) T = M::gen(s, o2);
  else { T.add(); T.add(); T.fin[1] = 0; for (int n = kind == 3 ? 1 + s.below(3) : 1; n > 0; --n) { S x = s.pick(L), y = s.chance(1, 2) ? x : s.pick(L); if (s.chance(1, 6)) y = M::EPS; w = kind == 3 ? (float)M::genWeight(s) : 0; T.arc(0, x, y, 1, 0); } if (kind == 3) for (auto& x : T.st[0]) x.w = w; }
  c.show << (kind == 3 ? "graph" : tname(t)) << " insert\n" << T.str() << "into\n" << A.str(); c.at("insert");
  Univ u; addSyms(u, A); addSyms(u, T); if (kind != 3) u.fresh(2);
  Fst want = X::ignore(u.expand(A), u.expand(T)); Spec got; c.nontrivial = M::trim(want).st.size() > A.st.size();
  if (kind == 0) { HfstTransducer a = toHfst(A, t), b = toHfst(T, t); a.insert_freely(b); got = fromHfst(a); if (a.get_type() != t) fail("type changed"); }
  else if (kind <= 2) { HfstTransducer a = toHfst(A, t); a.insert_freely(StringPair(T.st[0][0].in, T.st[0][0].out)); got = fromHfst(a); }
  else { HfstBasicTransducer b = toBasic(A); if (T.st[0].size() == 1 && s.chance(1, 2)) b.insert_freely(StringPair(T.st[0][0].in, T.st[0][0].out), w); else { StringPairSet q; for (auto& x : T.st[0]) q.insert({x.in, x.out}); b.insert_freely(q, w); } got = fromBasic(b); }
  for (auto& x : got.alphabet()) if (!A.alphabet().count(x) && !T.alphabet().count(x)) fail("symbol '" + x + "' came from nowhere");
  if (t == LOG_OPENFST_TYPE) { samePairs(u, M::unweighted(want), M::unweighted(u.expand(got)), SFST_TYPE, 4, "result"); return; }
  samePairs(u, want, u.expand(got), t, 4, "result");
}
// several symbols replaced by graphs at once, and transitions removed
LAW(graph_substitutions, 4000, 20) {
  auto o = opt(s, TROPICAL_OPENFST_TYPE, true); o.acceptor = true; if (o.letters[2][0] == '@') o.letters[2] = "c"; Spec A = M::gen(s, o); int n = 1 + s.below(3); std::vector<S> keys = {"#1", "#2", "#3"};
  for (auto& v : A.st) for (auto& x : v) if (x.in != M::ID && s.chance(1, 3)) x.in = x.out = keys[s.below((uint32_t)n)];
  std::vector<Spec> Ts; HfstBasicTransducer::SubstMap m; c.show << A.str();
  for (int i = 0; i < n; ++i) { auto o2 = o; o2.acceptor = s.chance(1, 2); o2.maxStates = 3; o2.maxArcs = 4; o2.letters = s.pick(std::vector<std::vector<S>>{o.letters, {"x", "y"}, {"a", "z"}}); Ts.push_back(M::gen(s, o2)); m[keys[i]] = toBasic(Ts.back()); c.show << keys[i] << " =\n" << Ts.back().str(); }
  Univ u; addSyms(u, A); for (auto& T : Ts) addSyms(u, T); for (auto& k : keys) u.sym(k); u.fresh(2);
  // the keys are not symbols of the result: "any symbol" does not match them
  std::set<int> kid; for (auto& k : keys) kid.insert(u.sym(k)); auto noKeys = [&](Fst f, const Spec& sp) { auto al = sp.alphabet(); (void)al; for (auto& v : f.st) { std::vector<M::CArc> k; for (auto& x : v) if (!(kid.count(x.i) || kid.count(x.o))) k.push_back(x); v = k; } return f; };
  Spec marked = A; Fst want; { for (auto& k : keys) marked.sigma.insert(k); want = u.expand(marked); for (int i = 0; i < n; ++i) { Spec T2 = Ts[i]; for (auto& k : keys) T2.sigma.insert(k); want = replaceArcs(want, u.sym(keys[i]), u.sym(keys[i]), noKeys(u.expand(T2), T2)); } }
  c.at("substitute"); HfstBasicTransducer b = toBasic(A); b.substitute(m, true); Spec got = fromBasic(b); c.nontrivial = got.st.size() > A.st.size() + 2;
  bool any = false; for (auto& v : A.st) for (auto& x : v) for (int i = 0; i < n; ++i) any |= x.in == keys[i];
  for (int i = 0; i < n; ++i) for (auto& v : got.st) for (auto& x : v) if (x.in == keys[i] || x.out == keys[i]) fail("a replaced symbol is left");
  Spec g2 = got; for (auto& k : keys) g2.sigma.insert(k);
  if (any) samePairs(u, want, noKeys(u.expand(g2), g2), TROPICAL_OPENFST_TYPE, 5, "result");
  // removal
  SP p{"a", "a"}; HfstBasicTransducer r = toBasic(A); r.remove_transitions(p); cmpLabels(c, mapArcs(A, [&](const SP& q, std::set<SP>&) { return q == p; }), fromBasic(r), TROPICAL_OPENFST_TYPE, "after removing a");
}
int main(int argc, char** argv) { return hx::main(argc, argv, "C13", "the transducer has more than two transitions, or the result has states the original lacks"); }
