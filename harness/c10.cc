// C10: extracting paths gives exactly the paths of the transducer
#include "hx.h"
#include "flags.h"
#include <algorithm>
#include <queue>
using namespace hx;
static const std::vector<ImplementationType> ALL = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE, HFST_OLW_TYPE, HFST_OL_TYPE};
// path as "in:out " pairs with epsilon pairs left out -> weights
typedef std::map<S, std::vector<double>> Paths;
struct Opt { bool flags = false, filter = false; int maxVisits = 0; /* 0: any */ size_t budget = 20000; };
static S norm(const S& x) { return x == M::EPS ? S() : x; }
static void walk(const Spec& a, int q, double w, const S& p, F::State f, std::vector<int>& vis, const Opt& o, Paths& r, size_t& n, size_t len, std::map<size_t, int>* lens) {
  if (++n > o.budget) throw M::TooBig();
  auto it = a.fin.find(q); if (it != a.fin.end()) { r[p].push_back(w + it->second); if (lens) (*lens)[len]++; }
  for (auto& x : a.st[q]) {
    if (o.maxVisits && vis[x.to] >= o.maxVisits) continue;
    F::State g = f; if (o.flags && M::is_flag(x.in) && !F::apply(x.in, g)) continue;
    S i = norm(x.in), u = norm(x.out); if (o.filter) { if (M::is_flag(i)) i = ""; if (M::is_flag(u)) u = ""; }
    S np = p; if (!i.empty() || !u.empty()) np += i + ":" + u + " ";
    vis[x.to]++; walk(a, x.to, w + x.w, np, g, vis, o, r, n, len + 1, lens); vis[x.to]--;
  }
}
static Paths paths(const Spec& a, const Opt& o, std::map<size_t, int>* lens = nullptr) {
  Paths r; size_t n = 0; std::vector<int> v(a.st.size(), 0); v[0] = 1; walk(a, 0, 0, "", {}, v, o, r, n, 0, lens); return r;
}
static S key(const StringPairVector& v) { S p; for (auto& x : v) { S i = norm(x.first), u = norm(x.second); if (!i.empty() || !u.empty()) p += i + ":" + u + " "; } return p; }
static Paths got(const HfstTwoLevelPaths& r) { Paths p; for (auto& x : r) p[key(x.second)].push_back(x.first); return p; }
static bool has(const std::vector<double>& v, double w) { for (double x : v) if (std::abs(x - w) < 2e-3) return true; return false; }
static void within(const Paths& all, const Paths& g, bool w, const std::string& what) {
  for (auto& x : g) { auto it = all.find(x.first); if (it == all.end()) fail(what + ": path '" + x.first + "' is not in the transducer");
    for (double y : x.second) if (w ? !has(it->second, y) : std::abs(y) > 1e-6) fail(what + ": path '" + x.first + "' does not have weight " + std::to_string(y)); }
}
static void contains(const Paths& need, const Paths& g, bool w, const std::string& what) {
  for (auto& x : need) { auto it = g.find(x.first); if (it == g.end()) fail(what + ": path '" + x.first + "' is missing");
    if (w) for (double y : x.second) if (!has(it->second, y)) fail(what + ": path '" + x.first + "' with weight " + std::to_string(y) + " is missing"); }
}
static Spec genP(Src& s, bool acyclic, bool flags, bool neg = false) {
  M::GenOpt o; o.letters = M::genLetters(s); o.acyclic = acyclic; o.maxStates = acyclic ? 6 : 4; o.maxArcs = acyclic ? 9 : 5; o.eps = 15; o.negative = neg && acyclic && s.chance(1, 3);
  if (acyclic && s.chance(1, 6)) { Spec A = M::genLexicon(s, 30, 10, 6, true); if (flags) F::sprinkle(s, A, 15); return A; }
  Spec A = M::gen(s, o); if (flags) F::sprinkle(s, A, s.pick(std::vector<int>{10, 40, 70})); return A;
}
static Spec noweights(Spec a) { for (auto& v : a.st) for (auto& x : v) x.w = 0; for (auto& f : a.fin) f.second = 0; return a; }
LAW(acyclic, 200000, 20) {
  ImplementationType t = ALL[s.below(6)]; bool fd = s.chance(1, 2); Opt o; o.flags = fd; o.filter = fd && s.chance(1, 2);
  Spec A = genP(s, true, fd || s.chance(1, 4)); c.show << tname(t) << (fd ? " extract_paths_fd" : " extract_paths") << (o.filter ? " filtered" : "") << " " << A.str();
  HfstTransducer h = toHfst(A, t); c.at("extraction"); HfstTwoLevelPaths r; if (fd) h.extract_paths_fd(r, -1, -1, o.filter); else h.extract_paths(r);
  Paths e = paths(A, o), g = got(r); c.nontrivial = e.size() > 1; bool w = weightedType(t);
  within(e, g, w, "extract_paths"); contains(e, g, w, "extract_paths");
  int n = 1 + s.below(5); HfstTwoLevelPaths q; if (fd) h.extract_paths_fd(q, n, s.chance(1, 2) ? -1 : 1, o.filter); else h.extract_paths(q, n, s.chance(1, 2) ? -1 : 1);
  if (q.size() != std::min((size_t)n, r.size())) fail("at most " + std::to_string(n) + " paths asked for, " + std::to_string(r.size()) + " exist, " + std::to_string(q.size()) + " given");
  within(e, got(q), w, "limited extract_paths");
}
LAW(cyclic, 120000, 20) {
  ImplementationType t = ALL[s.below(6)]; bool fd = s.chance(1, 3); Opt o; o.flags = fd;
  Spec A = genP(s, false, fd); int cyc = s.below(3); c.show << tname(t) << (fd ? " extract_paths_fd" : " extract_paths") << " cycles=" << cyc << " " << A.str();
  HfstTransducer h = toHfst(A, t); Spec B = fromHfst(h); c.at("extraction");
  HfstTwoLevelPaths r; const bool filter = false; if (fd) h.extract_paths_fd(r, 3000, cyc, filter); else h.extract_paths(r, 3000, cyc);
  Opt lo = o, hi = o; lo.maxVisits = 1; Paths need = paths(B, lo), g = got(r); bool w = weightedType(t); c.nontrivial = need.size() > 0 && B.cyclic();
  if (r.size() >= 3000) discard("more than 3000 paths");
  contains(need, g, w, "paths without repetition");
  size_t maxp = 0; for (auto& x : r) maxp = std::max(maxp, x.second.size());
  // every path found is a path of the transducer
  Univ u; addSyms(u, A); u.fresh(1); (void)hi;
  for (auto& x : r) { // run the path through the model
    std::map<int, std::set<double>> cur; std::map<int, std::vector<double>> now; now[0] = {0}; F::State f; bool ok = true;
    if (fd) for (auto& p : x.second) if (M::is_flag(p.first) && !F::apply(p.first, f)) ok = false;
    if (!ok) fail("path '" + key(x.second) + "' breaks the flag diacritics");
    std::set<std::pair<int, long>> st{{0, 0}};
    for (auto& p : x.second) { std::set<std::pair<int, long>> nx; for (auto& q : st) for (auto& a : B.st[q.first]) if (norm(a.in) == norm(p.first) && norm(a.out) == norm(p.second)) nx.insert({a.to, q.second + std::lround(a.w * 1000)}); st = nx; }
    bool acc = false; for (auto& q : st) { auto it = B.fin.find(q.first); if (it != B.fin.end() && (!w || std::abs(q.second / 1000.0 + it->second - x.first) < 0.02)) acc = true; }
    if (!acc) fail("path '" + key(x.second) + "' with weight " + std::to_string(x.first) + " is not in the transducer");
  }
  if (!fd && F::loop(A, false) == false && cyc == 0) { // not following cycles at all: no state is entered twice
    within(paths(B, lo), g, w, "extract_paths following no cycles");
  }
}
LAW(unlimited_cyclic, 40000, 10) {
  ImplementationType t = ALL[s.below(6)]; Spec A = genP(s, false, false); c.show << tname(t) << " " << A.str(); HfstTransducer h = toHfst(A, t); Spec B = fromHfst(h);
  bool cyc = B.cyclic(); Univ u; addSyms(u, B); u.fresh(1);
  // a cycle on an accepting path
  Fst f = M::trim(u.expand(B)); Spec T; for (size_t i = 0; i < f.st.size(); ++i) T.add(); for (size_t i = 0; i < f.st.size(); ++i) for (auto& a : f.st[i]) T.arc((int)i, "x", "x", a.to);
  bool useful = T.cyclic(); bool thrown = false; c.nontrivial = useful; HfstTwoLevelPaths r;
  try { if (!useful && cyc) return; h.extract_paths(r); } catch (TransducerIsCyclicException&) { thrown = true; }
  if (useful && !thrown) fail("all paths of a cyclic transducer were asked for and no exception came");
  if (!cyc && thrown) fail("an acyclic transducer was called cyclic");
}
// n best paths, shortest paths, longest paths, random paths
struct Best { double w; S p; };
static std::vector<Best> best(const Spec& a, size_t n) {
  // n lowest path weights (non-negative weights), paths counted separately
  bool neg = false; for (auto& v : a.st) for (auto& x : v) neg |= x.w < 0; for (auto& f : a.fin) neg |= f.second < 0;
  if (neg) { Opt o; Paths p = paths(a, o); std::vector<Best> r; for (auto& x : p) for (double w : x.second) r.push_back({w, x.first}); std::stable_sort(r.begin(), r.end(), [](const Best& x, const Best& y) { return x.w < y.w; }); if (r.size() > n) r.resize(n); return r; }
  struct N { double w; int q; bool fin; S p; bool operator<(const N& b) const { return w > b.w; } };
  std::priority_queue<N> pq; pq.push({0, 0, false, ""}); std::vector<Best> r; std::vector<size_t> pops(a.st.size(), 0); size_t steps = 0;
  while (!pq.empty() && r.size() < n) {
    if (++steps > 200000) throw M::TooBig();
    N k = pq.top(); pq.pop(); if (k.fin) { r.push_back({k.w, k.p}); continue; }
    if (++pops[k.q] > n) continue;
    auto it = a.fin.find(k.q); if (it != a.fin.end()) pq.push({k.w + it->second, k.q, true, k.p});
    for (auto& x : a.st[k.q]) { S i = norm(x.in), u = norm(x.out); pq.push({k.w + x.w, x.to, false, i.empty() && u.empty() ? k.p : k.p + i + ":" + u + " "}); }
  }
  return r;
}
LAW(n_best, 150000, 20) {
  ImplementationType t = s.pick(std::vector<ImplementationType>{TROPICAL_OPENFST_TYPE, TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE});
  Spec A = genP(s, s.chance(1, 2), false, true); unsigned n = s.pick(std::vector<int>{1, 2, 3, 5, 10, 40}); bool w = weightedType(t);
  c.show << tname(t) << " n_best(" << n << ") " << A.str(); HfstTransducer h = toHfst(A, t); Spec B = fromHfst(h); if (!w) B = noweights(B); c.at("n_best");
  h.n_best(n); if (h.get_type() != t) fail("n_best changed the type"); Spec g = fromHfst(h);
  std::vector<Best> e = best(B, n); c.nontrivial = e.size() > 1;
  if (g.cyclic()) fail("n_best result is cyclic");
  if (w) {
    Opt o; Paths p = paths(g, o); std::vector<double> ws; for (auto& x : p) for (double y : x.second) ws.push_back(y); std::sort(ws.begin(), ws.end());
    std::set<S> strs; for (auto& x : e) strs.insert(x.p);
    if (strs.size() == e.size()) { // no string among the best is there twice
      if (ws.size() != e.size()) fail("n_best gives " + std::to_string(ws.size()) + " paths instead of " + std::to_string(e.size()));
      for (size_t i = 0; i < ws.size(); ++i) if (std::abs(ws[i] - e[i].w) > 2e-3) fail("path number " + std::to_string(i) + " weighs " + std::to_string(ws[i]) + " instead of " + std::to_string(e[i].w));
    } else c.label("ambiguous");
    for (auto& x : e) if (!ws.empty() && x.w < ws.back() - 2e-3 && !p.count(x.p)) fail("a path that is better than some given one is left out");
    if (!e.empty() && (ws.empty() || std::abs(ws[0] - e[0].w) > 2e-3)) fail("the best path is not given");
  }
  Opt o; Paths p = paths(g, o); if (p.size() > n) fail("more than n paths"); if (p.empty() != e.empty()) fail(e.empty() ? "a path came from nowhere" : "no path given");
  for (auto& x : p) { // accepted by the original with that weight
    long mx = 50000000; bool neg = false; for (auto& v : B.st) for (auto& y : v) neg |= y.w < 0; for (auto& f : B.fin) neg |= f.second < 0; if (w && !neg) mx = std::lround(*std::max_element(x.second.begin(), x.second.end()) * 1000) + 20;
    std::vector<std::pair<S, S>> toks; { S k = x.first; size_t i = 0; while (i < k.size()) { size_t j = k.find(' ', i); S q = k.substr(i, j - i); size_t d = q.find(':'); if (d == 0 && q.size() > 1 && q[1] == ':') d = 1; toks.push_back({q.substr(0, d), q.substr(d + 1)}); i = j + 1; } }
    std::set<std::pair<std::pair<int, size_t>, long>> seen; std::vector<std::pair<std::pair<int, size_t>, long>> st{{{0, 0}, 0}}; seen.insert(st[0]); bool ok = false;
    for (size_t i = 0; i < st.size() && !ok; ++i) { if (i > 200000) { c.label("too many ways"); ok = true; } auto k = st[i]; auto it = B.fin.find(k.first.first); if (k.first.second == toks.size() && it != B.fin.end()) { double wt = k.second / 1000.0 + it->second; for (double y : x.second) if (!w || std::abs(wt - y) < 0.02) ok = true; }
      for (auto& a : B.st[k.first.first]) { S i2 = norm(a.in), o2 = norm(a.out); bool eps = i2.empty() && o2.empty(); if (!eps && (k.first.second >= toks.size() || toks[k.first.second].first != i2 || toks[k.first.second].second != o2)) continue; auto nk = k; nk.first.first = a.to; if (!eps) nk.first.second++; nk.second += std::lround(a.w * 1000); if (nk.second <= mx && seen.insert(nk).second) st.push_back(nk); } }
    if (!ok) fail("path '" + x.first + "' with weight " + std::to_string(x.second[0]) + " is not in the original");
  }
}
LAW(extremes, 120000, 20) {
  ImplementationType t = genType(s, false); bool w = weightedType(t); int what = s.below(3);
  if (what == 0) {
    Spec A = genP(s, s.chance(1, 2), false); c.show << tname(t) << " extract_shortest_paths " << A.str(); HfstTransducer h = toHfst(A, t); HfstTwoLevelPaths r; c.at("extract"); h.extract_shortest_paths(r);
    Spec B = w ? A : noweights(A); std::vector<Best> e = best(B, 1); c.nontrivial = !e.empty(); if (r.size() != e.size()) fail("expected one path"); if (!e.empty() && std::abs(r.begin()->first - e[0].w) > 2e-3) fail("best path weighs " + std::to_string(e[0].w) + ", not " + std::to_string(r.begin()->first));
    return;
  }
  if (what == 1) {
    Spec A = genP(s, true, false); for (auto& v : A.st) for (auto& x : v) { if (x.in == M::EPS || x.in == M::UNK || x.in == M::ID) { x.in = x.out = "a"; } if (x.out == M::UNK || x.out == M::EPS) x.out = "a"; }
    c.show << tname(t) << " longest paths " << A.str(); HfstTransducer h = toHfst(A, t); std::map<size_t, int> lens; Opt o; Paths e = paths(A, o, &lens);
    c.nontrivial = lens.size() > 1; c.at("longest"); int L = lens.empty() ? -1 : (int)lens.rbegin()->first; int g = h.longest_path_size(false); if (g != L) fail("longest path has " + std::to_string(L) + " symbols, not " + std::to_string(g));
    HfstTwoLevelPaths r; bool any = h.extract_longest_paths(r, false); if (any != (L >= 0)) fail("extract_longest_paths reports wrongly whether there are paths");
    Paths want, gp = got(r); for (auto& x : e) { size_t n = 0; for (char ch : x.first) n += ch == ' '; if ((int)n == L) want[x.first] = {*std::min_element(x.second.begin(), x.second.end())}; }
    within(e, gp, w, "longest paths"); contains(want, gp, w, "longest paths"); for (auto& x : gp) if (!want.count(x.first)) fail("'" + x.first + "' is not one of the longest paths");
    return;
  }
  Spec A = genP(s, s.chance(1, 2), s.chance(1, 2)); int n = 1 + s.below(6); bool fd = s.chance(1, 2), filter = s.chance(1, 2); c.show << tname(t) << " random paths" << (fd ? " (fd)" : "") << " " << n << " " << A.str();
  HfstTransducer h = toHfst(A, t); HfstTwoLevelPaths r; c.at("random"); if (fd) h.extract_random_paths_fd(r, n, filter); else h.extract_random_paths(r, n); c.nontrivial = r.size() > 0;
  if ((int)r.size() > n) fail("more paths than asked for"); Spec B = w ? A : noweights(A);
  for (auto& x : r) {
    std::set<std::pair<int, std::pair<size_t, std::pair<long, F::State>>>> seen; typedef std::pair<int, std::pair<size_t, std::pair<long, F::State>>> K; std::vector<K> st{{0, {0, {0, {}}}}}; bool ok = false; auto& v = x.second;
    for (size_t i = 0; i < st.size() && !ok; ++i) { if (i > 200000) { c.label("too many ways"); ok = true; } K k = st[i]; auto it = B.fin.find(k.first); if (k.second.first == v.size() && it != B.fin.end() && std::abs(k.second.second.first / 1000.0 + it->second - x.first) < 0.02) ok = true;
      for (auto& a : B.st[k.first]) { K nk = k; nk.first = a.to; if (fd && !F::apply(a.in, nk.second.second.second)) continue; nk.second.second.first += std::lround(a.w * 1000); S i2 = norm(a.in), o2 = norm(a.out); if (fd && filter && M::is_flag(i2)) { i2 = ""; o2 = ""; }
        if (k.second.first < v.size() && norm(v[k.second.first].first) == i2 && norm(v[k.second.first].second) == o2) { K m = nk; m.second.first++; if (seen.insert(m).second) st.push_back(m); }
        if (i2.empty() && o2.empty() && seen.insert(nk).second) st.push_back(nk); } }
    if (!ok) fail("random path '" + key(v) + "' with weight " + std::to_string(x.first) + " is not in the transducer");
  }
}
int main(int argc, char** argv) { return hx::main(argc, argv, "C10", "the transducer has several paths (cyclic laws: a path and a cycle; extremes: a path)"); }
