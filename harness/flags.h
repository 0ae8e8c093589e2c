// Reference semantics of flag diacritics and of looking a string up.
#pragma once
#include "model.h"
namespace F {
using M::S; using M::Spec;
typedef std::map<S, std::pair<bool, S>> State;   // feature -> (negated, value)
struct Op { char op; S feature, value; };
inline bool parse(const S& s, Op& o) {
  if (!M::is_flag(s)) return false;
  o.op = s[1]; S rest = s.substr(3, s.size() - 4); size_t d = rest.find('.');
  o.feature = rest.substr(0, d); o.value = d == S::npos ? "" : rest.substr(d + 1); return true;
}
inline bool apply(const S& sym, State& st) {
  Op o; if (!parse(sym, o)) return true;
  auto it = st.find(o.feature); bool set = it != st.end();
  switch (o.op) {
    case 'P': st[o.feature] = {false, o.value}; return true;
    case 'N': st[o.feature] = {true, o.value}; return true;
    case 'C': st.erase(o.feature); return true;
    case 'R': return o.value.empty() ? set : set && !it->second.first && it->second.second == o.value;
    case 'D': return o.value.empty() ? !set : !(set && !it->second.first && it->second.second == o.value);
    case 'U': if (!set || (!it->second.first && it->second.second == o.value) || (it->second.first && it->second.second != o.value)) { st[o.feature] = {false, o.value}; return true; } return false;
  }
  return false;
}
inline const std::vector<S>& pool() {
  static const std::vector<S> p = {"@P.F.A@", "@R.F.A@", "@U.F.A@", "@D.F.A@", "@C.F@", "@P.F.B@", "@R.F.B@", "@U.F.B@", "@N.F.A@", "@R.F@", "@D.F@", "@N.F.B@", "@D.F.B@", "@P.G.A@", "@R.G.A@", "@U.G.X@", "@D.G@", "@C.G@"};
  return p;
}
// turn some arcs into flag diacritics
inline void sprinkle(pbt::Src& s, Spec& a, int percent) {
  for (auto& v : a.st) for (auto& x : v) if ((int)s.below(100) >= 100 - percent) x.in = x.out = s.pick(pool());
}
inline bool epsLike(const S& x) { return x == M::EPS || M::is_flag(x); }
// cycle of arcs that read nothing, reachable from the initial state
inline bool loop(const Spec& a, bool harmfulOnly) {
  // harmfulOnly: cycles containing an arc that is not a bare flag
  int n = (int)a.st.size();
  std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
  for (int i = 0; i < n; ++i) for (auto& x : a.st[i]) if (epsLike(x.in)) r[i][x.to] = 1;
  for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (r[i][k]) for (int j = 0; j < n; ++j) if (r[k][j]) r[i][j] = 1;
  for (int i = 0; i < n; ++i) for (auto& x : a.st[i]) if (epsLike(x.in) && (x.to == i || r[x.to][i])) if (!harmfulOnly || !M::is_flag(x.in) || x.out != x.in || x.w < 0) return true;
  return false;
}
// all outputs (epsilons and flags removed, symbols joined with '|') of the token list
typedef std::map<S, double> Outs;
inline Outs lookup(const Spec& a, const std::vector<S>& in, bool flags, size_t budget = 20000) {
  std::set<S> known = a.alphabet(); Outs res;
  struct K { int q; size_t p; State f; S o; bool operator<(const K& b) const { return std::tie(q, p, f, o) < std::tie(b.q, b.p, b.f, b.o); } };
  std::map<K, double> best; std::vector<K> work; K k0{0, 0, {}, ""}; best[k0] = 0; work.push_back(k0);
  size_t steps = 0;
  for (size_t i = 0; i < work.size(); ++i) {
    K k = work[i]; double w = best[k];
    if (++steps > budget) throw M::TooBig();
    for (auto& x : a.st[k.q]) {
      K n = k; n.q = x.to; S out = x.out;
      if (M::is_flag(x.in)) { if (flags && !apply(x.in, n.f)) continue; }
      else if (x.in == M::EPS) {}
      else {
        if (k.p >= in.size()) continue;
        const S& c = in[k.p];
        if (x.in == M::ID || x.in == M::UNK) { if (known.count(c)) continue; if (x.in == M::ID) out = c; }
        else if (x.in != c) continue;
        n.p++;
      }
      if (out != M::EPS && !M::is_flag(out)) n.o += out + "|";
      double nw = w + x.w; auto it = best.find(n);
      if (it == best.end() || nw < it->second - 1e-9) { best[n] = nw; work.push_back(n); }
    }
  }
  for (auto& e : best) if (e.first.p == in.size() && a.fin.count(e.first.q)) {
    double w = e.second + a.fin.at(e.first.q); auto it = res.find(e.first.o);
    if (it == res.end() || w < it->second) res[e.first.o] = w;
  }
  return res;
}
// greedy longest-match tokenization over the known symbols, else UTF-8 characters
inline std::vector<S> tokenize(const std::set<S>& known, const S& t) {
  std::vector<S> r; size_t i = 0;
  while (i < t.size()) {
    size_t best = 0; for (auto& k : known) if (k.size() > best && !M::special(k) && !M::is_flag(k) && t.compare(i, k.size(), k) == 0) best = k.size();
    if (!best) { unsigned char c = t[i]; best = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; }
    r.push_back(t.substr(i, best)); i += best;
  }
  return r;
}
// could lookup of these tokens go round a cycle that reads nothing?
//  -1: no, 1: yes and such a cycle is on an accepting path, 0: in between
inline int infinite(const Spec& a, const std::vector<S>& in, bool flags) {
  std::set<S> known = a.alphabet();
  struct K { int q; size_t p; State f; bool operator<(const K& b) const { return std::tie(q, p, f) < std::tie(b.q, b.p, b.f); } };
  std::map<K, int> id; std::vector<K> ks; std::vector<std::vector<std::pair<int, bool>>> g;
  auto get = [&](const K& k) { auto it = id.find(k); if (it != id.end()) return it->second; int n = (int)ks.size(); id[k] = n; ks.push_back(k); g.push_back({}); return n; };
  get(K{0, 0, {}});
  for (size_t i = 0; i < ks.size(); ++i) {
    if (i > 3000) throw M::TooBig();
    K k = ks[i];
    for (auto& x : a.st[k.q]) {
      K n = k; n.q = x.to; bool eps = false;
      if (M::is_flag(x.in)) { if (flags && !apply(x.in, n.f)) continue; eps = true; }
      else if (x.in == M::EPS) eps = true;
      else { if (k.p >= in.size()) continue; const S& c = in[k.p]; if (x.in == M::ID || x.in == M::UNK) { if (known.count(c)) continue; } else if (x.in != c) continue; n.p++; }
      int t = get(n); g[i].push_back({t, eps});
    }
  }
  int n = (int)ks.size(); bool any = false, useful = false;
  std::vector<char> co(n, 0); for (int i = 0; i < n; ++i) if (ks[i].p == in.size() && a.fin.count(ks[i].q)) co[i] = 1;
  for (bool ch = true; ch;) { ch = false; for (int i = 0; i < n; ++i) if (!co[i]) for (auto& e : g[i]) if (co[e.first]) { co[i] = 1; ch = true; } }
  for (int i = 0; i < n; ++i) { // on an epsilon cycle?
    std::vector<char> seen(n, 0); std::vector<int> st{i}; bool cyc = false;
    while (!st.empty() && !cyc) { int v = st.back(); st.pop_back(); for (auto& e : g[v]) if (e.second) { if (e.first == i) { cyc = true; break; } if (!seen[e.first]) { seen[e.first] = 1; st.push_back(e.first); } } }
    if (cyc) { any = true; if (co[i]) useful = true; }
  }
  return useful ? 1 : any ? 0 : -1;
}
// are there more ways than the limit to read the tokens without repeating a state and flag setting between symbols?
inline bool manyWays(const Spec& a, const std::vector<S>& in, bool flags, size_t limit) {
  std::set<S> known = a.alphabet(); size_t n = 0;
  typedef std::set<std::pair<int, State>> Seen;
  auto rec = [&](auto& self, int q, size_t p, const State& f, const Seen& seen) -> bool {
    for (auto& x : a.st[q]) {
      if (++n > limit) return true;
      if (epsLike(x.in)) {
        State g = f; if (M::is_flag(x.in) && flags && !apply(x.in, g)) continue;
        std::pair<int, State> k(x.to, g); if (seen.count(k)) continue;
        Seen s2 = seen; s2.insert(k); if (self(self, x.to, p, g, s2)) return true;
      } else {
        if (p >= in.size()) continue; const S& c = in[p];
        if (x.in == M::ID || x.in == M::UNK) { if (known.count(c)) continue; } else if (x.in != c) continue;
        Seen s2; if (self(self, x.to, p + 1, f, s2)) return true;
      }
    }
    return false;
  };
  Seen s0; return rec(rec, 0, 0, State(), s0);
}
// all outputs of paths that go round at most k cycles between two symbols read (false: too many paths)
inline bool cyclesLookup(const Spec& a, const std::vector<S>& in, size_t k, Outs& res) {
  std::set<S> known = a.alphabet(); size_t n = 0;
  auto rec = [&](auto& self, int q, size_t p, std::vector<int> path, size_t cyc, const S& o, double w) -> bool {
    if (++n > 20000) return false;
    for (size_t i = 0; i < path.size(); ++i) if (path[i] == q) { path.resize(i + 1); if (++cyc > k) return true; break; }
    if (p == in.size() && a.fin.count(q)) { double v = w + a.fin.at(q); auto it = res.find(o); if (it == res.end() || v < it->second) res[o] = v; }
    for (auto& x : a.st[q]) {
      S o2 = o; S out = x.out; bool eps = epsLike(x.in);
      if (!eps) { if (p >= in.size()) continue; if (x.in == M::ID || x.in == M::UNK) { if (known.count(in[p])) continue; if (x.in == M::ID) out = in[p]; } else if (x.in != in[p]) continue; }
      if (out != M::EPS && !M::is_flag(out)) o2 += out + "|";
      if (eps) { std::vector<int> np = path; if (np.empty() || np.back() != q) np.push_back(q); if (!self(self, x.to, p, np, cyc, o2, w + x.w)) return false; }
      else if (!self(self, x.to, p + 1, std::vector<int>(), 0, o2, w + x.w)) return false;
    }
    return true;
  };
  return rec(rec, 0, 0, {}, 0, "", 0);
}
}
