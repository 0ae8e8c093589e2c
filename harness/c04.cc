// C04: determinize, minimize, epsilon removal, pruning and pushing preserve the relation
#include "hx.h"
#include <algorithm>
using namespace hx;

// number of states of the smallest deterministic automaton over symbol pairs,
// epsilon:epsilon being the empty move
static int minimalStates(const Spec& a) {
  std::map<std::pair<S, S>, int> lab;
  auto lid = [&](const M::Arc& x) { return lab.emplace(std::make_pair(x.in, x.out), (int)lab.size()).first->second; };
  auto clo = [&](std::set<int> q) { std::vector<int> st(q.begin(), q.end()); while (!st.empty()) { int v = st.back(); st.pop_back(); for (auto& x : a.st[v]) if (x.in == M::EPS && x.out == M::EPS && q.insert(x.to).second) st.push_back(x.to); } return q; };
  std::map<std::set<int>, int> id; std::vector<std::set<int>> sets; std::vector<std::map<int, int>> tr; std::vector<bool> fin;
  auto get = [&](const std::set<int>& q) { auto r = id.emplace(q, (int)sets.size()); if (r.second) { sets.push_back(q); tr.push_back({}); bool f = false; for (int v : q) f |= a.fin.count(v) > 0; fin.push_back(f); } return r.first->second; };
  get(clo({0}));
  for (size_t k = 0; k < sets.size(); ++k) {
    std::map<int, std::set<int>> m; std::set<int> cur = sets[k];
    for (int v : cur) for (auto& x : a.st[v]) if (!(x.in == M::EPS && x.out == M::EPS)) m[lid(x)].insert(x.to);
    for (auto& p : m) { int t = get(clo(p.second)); tr[k][p.first] = t; }
    if (sets.size() > 4000) throw M::TooBig();
  }
  size_t n = sets.size();
  std::vector<bool> co(fin.begin(), fin.end());
  for (bool ch = true; ch;) { ch = false; for (size_t k = 0; k < n; ++k) if (!co[k]) for (auto& p : tr[k]) if (co[p.second]) { co[k] = true; ch = true; break; } }
  if (!co[0]) return 1;
  std::vector<int> cls(n, 0); for (size_t k = 0; k < n; ++k) cls[k] = co[k] ? (fin[k] ? 1 : 2) : 0;
  for (int cnt = -1;;) {
    std::map<std::pair<int, std::map<int, int>>, int> m; std::vector<int> nc(n, 0);
    for (size_t k = 0; k < n; ++k) { if (!co[k]) continue; std::map<int, int> sig; for (auto& p : tr[k]) if (co[p.second]) sig[p.first] = cls[p.second]; nc[k] = m.emplace(std::make_pair(cls[k], sig), (int)m.size() + 1).first->second; }
    cls = nc; if ((int)m.size() == cnt) return cnt; cnt = (int)m.size();
  }
}
static std::string nondet(const Spec& g) {
  for (size_t i = 0; i < g.st.size(); ++i) {
    std::set<std::pair<S, S>> seen;
    for (auto& x : g.st[i]) if (!seen.insert({x.in, x.out}).second) return "state " + std::to_string(i) + " has two transitions " + x.in + ":" + x.out;
  }
  return "";
}
static const char* names[] = {"determinize", "minimize", "remove_epsilons", "optimize", "prune", "push_weights to start", "push_weights to end", "push_labels to start", "push_labels to end", "optimize without minimization"};
static void apply(HfstTransducer& h, int op) {
  switch (op) {
    case 0: h.determinize(); break; case 1: h.minimize(); break; case 2: h.remove_epsilons(); break; case 3: h.optimize(); break;
    case 4: h.prune(); break; case 5: h.push_weights(TO_INITIAL_STATE); break; case 6: h.push_weights(TO_FINAL_STATE); break;
    case 7: h.push_labels(TO_INITIAL_STATE); break; case 8: h.push_labels(TO_FINAL_STATE); break;
    default: set_minimization(false); h.optimize(); set_minimization(true);
  }
}
static void transform(Src& s, Case& c, ImplementationType t) {
  M::GenOpt o; o.letters = M::genLetters(s, s.chance(1, 4)); o.weights = s.chance(2, 3); o.cyclicWeights = false; o.maxStates = 5; o.maxArcs = 9; o.eps = s.pick(std::vector<int>{0, 15, 40}); o.acceptor = s.chance(1, 4); o.special = 6; o.acyclic = s.chance(1, 3);
  if (s.chance(1, 12)) { o.maxStates = 14; o.maxArcs = 40; }
  o.negative = o.weights && s.chance(1, 3);
  Spec A = M::gen(s, o);
  int n = 1 + s.below(3); std::vector<int> ops;
  for (int i = 0; i < n; ++i) {
    int k = s.below(10);
    if ((t != TROPICAL_OPENFST_TYPE) && k >= 5 && k <= 8 && s.chance(3, 4)) k -= 5;
    ops.push_back(k);
  }
  bool enc = s.chance(1, 8);
  c.show << tname(t) << (enc ? " (encode weights)" : ""); for (int k : ops) c.show << " " << names[k] << ";"; c.show << " of A=" << A.str();
  if (o.negative || o.maxStates > 5) for (int k : ops) if (k == 7 || k == 8) discard("label pushing: long labels");
  if (t == TROPICAL_OPENFST_TYPE && A.has_special()) for (int k : ops) if (k == 7 || k == 8) discard("known finding: push_labels of unknown or identity symbols");
  HfstTransducer h = toHfst(A, t);
  set_encode_weights(enc);
  ImplementationType cur = t; bool labelsPushed = false;
  for (int k : ops) { c.at(names[k]); apply(h, k); if (cur == TROPICAL_OPENFST_TYPE && (k == 7 || k == 8)) labelsPushed = true; }
  set_encode_weights(false);
  if (h.get_type() != cur) fail("the implementation type changed");
  Univ u; addSyms(u, A); u.fresh(2); Spec g = fromHfst(h); addSyms(u, g);
  Fst e = u.expand(A); if (!weightedType(t)) e = M::unweighted(e);
  c.nontrivial = M::trim(e).st.size() > 1; c.label(names[ops.back()]);
  sameRel(u, e, u.expand(g), weightedType(t) ? TROPICAL_OPENFST_TYPE : t, 4, names[ops.back()]);
  int last = ops.back();
  if (last == 2) for (auto& v : g.st) for (auto& x : v) if (x.in == M::EPS && x.out == M::EPS) fail("remove_epsilons left an epsilon transition");
  if ((last == 0 && !enc) || (last == 9 && !enc) || (last == 1 && t != TROPICAL_OPENFST_TYPE)) { auto d = nondet(g); if (!d.empty()) fail(std::string(names[last]) + ": " + d); }
  if ((last == 1 || last == 3) && !labelsPushed && (t != TROPICAL_OPENFST_TYPE || !o.weights)) {
    int m = minimalStates(A); c.label("minimality checked");
    bool none = M::trim(e).st.empty() || (M::trim(e).st.size() == 1 && M::trim(e).st[0].empty() && M::trim(e).fin[0] == M::INF);
    if ((int)h.number_of_states() != m && !(none && h.number_of_states() == 0)) fail("minimized transducer has " + std::to_string(h.number_of_states()) + " states, the smallest deterministic one has " + std::to_string(m));
  }
  if (last == 4) { // everything that remains is co-accessible
    std::vector<bool> co(g.st.size()); for (auto& f : g.fin) co[f.first] = true;
    for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < g.st.size(); ++i) if (!co[i]) for (auto& x : g.st[i]) if (co[x.to]) { co[i] = true; ch = true; } }
    for (size_t i = 1; i < g.st.size(); ++i) if (!co[i]) fail("prune left a dead state");
  }
}
LAW(tropical, 15000, 20) { transform(s, c, TROPICAL_OPENFST_TYPE); }
LAW(sfst, 12000, 20) { transform(s, c, SFST_TYPE); }
LAW(foma, 12000, 20) { transform(s, c, FOMA_TYPE); }

// pushed weights really are at the requested end
LAW(pushed, 6000, 20) {
  M::GenOpt o; o.letters = {"a", "b"}; o.cyclicWeights = false; o.special = 0; o.maxStates = 5; o.maxArcs = 7;
  Spec A = M::gen(s, o); bool start = s.chance(1, 2);
  c.show << "push_weights to " << (start ? "start" : "end") << " A=" << A.str();
  HfstTransducer h = toHfst(A, TROPICAL_OPENFST_TYPE);
  c.at("push_weights"); h.push_weights(start ? TO_INITIAL_STATE : TO_FINAL_STATE);
  Univ u; addSyms(u, A); Spec g = fromHfst(h); addSyms(u, g);
  Fst e = u.expand(A), r = M::trim(u.expand(g));
  sameRel(u, e, u.expand(g), TROPICAL_OPENFST_TYPE, 4, "push_weights");
  c.nontrivial = M::trim(e).st.size() > 2;
  if (M::trim(e).st.empty()) return;
  // shortest distance from every state other than the initial one to acceptance
  // (or from the start to every state) is zero
  size_t n = r.st.size(); std::vector<double> d(n, M::INF);
  if (start) { for (size_t i = 0; i < n; ++i) d[i] = r.fin[i]; } else d[0] = 0;
  for (size_t k = 0; k <= n; ++k) for (size_t i = 0; i < n; ++i) for (auto& x : r.st[i]) { if (start) d[i] = std::min(d[i], x.w + d[x.to]); else d[x.to] = std::min(d[x.to], d[i] + x.w); }
  bool init_has_in = false; for (auto& v : r.st) for (auto& x : v) if (x.to == 0) init_has_in = true;
  for (size_t i = 1; i < n; ++i) if (d[i] < M::INF && std::fabs(d[i]) > 1e-2) {
    if (init_has_in) { c.label("initial state re-entered"); break; }
    fail(std::string("weight ") + std::to_string(d[i]) + " is still between a state and the " + (start ? "end" : "start"));
  }
}

KNOWN_LAW(push_labels_identity) {
  Spec A; A.add(); A.add(); A.add(); A.arc(0, "a", "a", 0); A.arc(0, M::ID, M::ID, 1); A.arc(1, "a", "a", 2); A.fin[2] = 0;
  c.show << "tropical push_labels to end of " << A.str();
  HfstTransducer h = toHfst(A, TROPICAL_OPENFST_TYPE); h.push_labels(TO_FINAL_STATE);
  Univ u; addSyms(u, A); u.fresh(2); Spec g = fromHfst(h);
  sameRel(u, u.expand(A), u.expand(g), TROPICAL_OPENFST_TYPE, 4, "push_labels");
}
int main(int argc, char** argv) {
  return hx::main(argc, argv, "C04", "the trimmed model of the transformed transducer has more than one state (two for weight pushing)");
}
