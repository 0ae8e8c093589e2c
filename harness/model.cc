#include "model.h"
#include <algorithm>
#include <cstdio>
#include <deque>
#include <functional>
#include <queue>
#include <unordered_map>

namespace M {
const S EPS = "@_EPSILON_SYMBOL_@", UNK = "@_UNKNOWN_SYMBOL_@", ID = "@_IDENTITY_SYMBOL_@";

bool is_flag(const S& s) {
  if (s.size() < 5 || s[0] != '@' || s.back() != '@' || s[2] != '.') return false;
  return std::string("PNRDCU").find(s[1]) != std::string::npos;
}
std::set<S> Spec::alphabet() const {
  std::set<S> a;
  for (auto& x : sigma) if (!special(x)) a.insert(x);
  for (auto& v : st) for (auto& r : v) { if (!special(r.in)) a.insert(r.in); if (!special(r.out)) a.insert(r.out); }
  return a;
}
bool Spec::has_special() const { for (auto& v : st) for (auto& r : v) if (r.in == UNK || r.in == ID || r.out == UNK || r.out == ID) return true; return false; }
bool Spec::acceptor() const { for (auto& v : st) for (auto& r : v) if (r.in != r.out || r.in == UNK) return false; return true; }
static std::vector<int> scc(const std::vector<std::vector<int>>& g) {
  int n = (int)g.size(), t = 0, c = 0; std::vector<int> low(n), num(n, -1), comp(n, -1), stk;
  std::function<void(int)> dfs = [&](int v) {
    low[v] = num[v] = t++; stk.push_back(v);
    for (int w : g[v]) { if (num[w] < 0) { dfs(w); low[v] = std::min(low[v], low[w]); } else if (comp[w] < 0) low[v] = std::min(low[v], num[w]); }
    if (low[v] == num[v]) { while (true) { int w = stk.back(); stk.pop_back(); comp[w] = c; if (w == v) break; } ++c; }
  };
  for (int i = 0; i < n; ++i) if (num[i] < 0) dfs(i);
  return comp;
}
bool Spec::cyclic() const {
  std::vector<std::vector<int>> g(st.size());
  for (size_t i = 0; i < st.size(); ++i) for (auto& a : st[i]) { if (a.to == (int)i) return true; g[i].push_back(a.to); }
  auto c = scc(g); std::map<int, int> k; for (int x : c) if (++k[x] > 1) return true;
  return false;
}
void zeroCycleWeights(Spec& s) {
  std::vector<std::vector<int>> g(s.st.size());
  for (size_t i = 0; i < s.st.size(); ++i) for (auto& a : s.st[i]) g[i].push_back(a.to);
  auto c = scc(g);
  for (size_t i = 0; i < s.st.size(); ++i) for (auto& a : s.st[i]) if (c[i] == c[a.to]) a.w = 0;
}
std::string Spec::str() const {
  std::string o; char b[64];
  auto nm = [](const S& s) { return s == EPS ? S("0") : s == UNK ? S("?") : s == ID ? S("@ID") : s; };
  for (size_t i = 0; i < st.size(); ++i) {
    for (auto& a : st[i]) { snprintf(b, 64, " %g", a.w); o += std::to_string(i) + "->" + std::to_string(a.to) + " " + nm(a.in) + ":" + nm(a.out) + (a.w ? b : "") + "; "; }
    if (fin.count((int)i)) { snprintf(b, 64, "%g", fin.at((int)i)); o += std::to_string(i) + " final" + (fin.at((int)i) ? std::string(" ") + b : "") + "; "; }
  }
  if (!sigma.empty()) { o += "sigma+{"; for (auto& x : sigma) o += x + " "; o += "}"; }
  return "[" + std::to_string(st.size()) + " states: " + o + "]";
}

Univ::Univ() { name.push_back(EPS); id[EPS] = 0; }
int Univ::sym(const S& s) {
  auto it = id.find(s); if (it != id.end()) return it->second;
  if (name.size() > 250) throw TooBig();
  int k = (int)name.size(); name.push_back(s); id[s] = k; return k;
}
void Univ::fresh(int n) { for (int i = 1; i <= n; ++i) sym("<fresh" + std::to_string(i) + ">"); }
Fst Univ::expand(const Spec& s) {
  Fst f; for (size_t i = 0; i < s.st.size(); ++i) f.add();
  if (s.st.empty()) f.add();
  auto sig = s.alphabet();
  std::vector<int> un;
  for (auto& x : sig) sym(x);
  for (int k = 1; k < (int)name.size(); ++k) if (!sig.count(name[k]) && !is_flag(name[k])) un.push_back(k);
  for (size_t i = 0; i < s.st.size(); ++i) for (auto& a : s.st[i]) {
    bool ui = a.in == UNK || a.in == ID, uo = a.out == UNK || a.out == ID;
    if (!ui && !uo) { f.arc((int)i, sym(a.in), sym(a.out), a.to, a.w); continue; }
    if (a.in == ID && a.out == ID) { for (int k : un) f.arc((int)i, k, k, a.to, a.w); continue; }
    if (ui && uo) { for (int k : un) for (int l : un) if (k != l) f.arc((int)i, k, l, a.to, a.w); continue; }
    if (ui) { int o = sym(a.out); for (int k : un) f.arc((int)i, k, o, a.to, a.w); continue; }
    int x = sym(a.in); for (int k : un) f.arc((int)i, x, k, a.to, a.w);
  }
  for (auto& x : s.fin) f.fin[x.first] = x.second;
  return f;
}
std::string Univ::text(const std::string& w) const {
  std::string o; for (unsigned char c : w) { if (!o.empty()) o += " "; o += c == 0 ? S("0") : c < name.size() ? name[c] : S("#"); }
  return o.empty() ? "(empty)" : o;
}

Fst trim(const Fst& f) {
  size_t n = f.st.size(); std::vector<char> acc(n, 0), co(n, 0); std::vector<int> q{0}; acc[0] = 1;
  while (!q.empty()) { int v = q.back(); q.pop_back(); for (auto& a : f.st[v]) if (!acc[a.to]) { acc[a.to] = 1; q.push_back(a.to); } }
  std::vector<std::vector<int>> rv(n);
  for (size_t i = 0; i < n; ++i) for (auto& a : f.st[i]) rv[a.to].push_back((int)i);
  for (size_t i = 0; i < n; ++i) if (f.fin[i] < INF) { co[i] = 1; q.push_back((int)i); }
  while (!q.empty()) { int v = q.back(); q.pop_back(); for (int w : rv[v]) if (!co[w]) { co[w] = 1; q.push_back(w); } }
  std::vector<int> m(n, -1); Fst g; m[0] = g.add(f.fin[0]);
  for (size_t i = 1; i < n; ++i) if (acc[i] && co[i]) m[i] = g.add(f.fin[i]);
  for (size_t i = 0; i < n; ++i) if (m[i] >= 0) for (auto& a : f.st[i]) if (co[a.to] && m[a.to] >= 0) g.arc(m[i], a.i, a.o, m[a.to], a.w);
  return g;
}

struct Key { int s; std::string i, o; bool operator==(const Key& k) const { return s == k.s && i == k.i && o == k.o; } };
struct KeyH { size_t operator()(const Key& k) const { return std::hash<std::string>()(k.i) * 31 + std::hash<std::string>()(k.o) * 17 + k.s; } };

Rel rel(const Fst& f0, int Li, int Lo, size_t budget) {
  Fst f = trim(f0);
  std::unordered_map<Key, double, KeyH> d; std::deque<Key> q;
  Key k0{0, "", ""}; d[k0] = 0; q.push_back(k0);
  Rel r; size_t steps = 0;
  std::unordered_map<Key, int, KeyH> inq; inq[k0] = 1;
  while (!q.empty()) {
    Key k = q.front(); q.pop_front(); inq[k] = 0; double w = d[k];
    if (++steps > budget * 4) throw TooBig();
    for (auto& a : f.st[k.s]) {
      if (a.i && (int)k.i.size() >= Li) continue;
      if (a.o && (int)k.o.size() >= Lo) continue;
      Key n{a.to, k.i, k.o}; if (a.i) n.i.push_back((char)a.i); if (a.o) n.o.push_back((char)a.o);
      double nw = w + a.w; auto it = d.find(n);
      if (it == d.end()) { if (d.size() >= budget) throw TooBig(); d.emplace(n, nw); inq[n] = 1; q.push_back(n); }
      else if (nw < it->second - 1e-9) { it->second = nw; int& z = inq[n]; if (!z) { z = 1; q.push_back(n); } }
    }
  }
  for (auto& x : d) if (f.fin[x.first.s] < INF) {
    double w = x.second + f.fin[x.first.s]; auto key = std::make_pair(x.first.i, x.first.o);
    auto it = r.find(key); if (it == r.end()) r[key] = w; else it->second = std::min(it->second, w);
  }
  return r;
}
Rel rellog(const Fst& f0, int Li, int Lo, size_t budget) {
  Fst f = trim(f0); if (epsCycle(f)) throw TooBig();
  Rel p; size_t steps = 0;
  std::string in, out;
  std::function<void(int, double)> go = [&](int s, double w) {
    if (++steps > budget * 4) throw TooBig();
    if (f.fin[s] < INF) p[{in, out}] += std::exp(-(w + f.fin[s]));
    for (auto& a : f.st[s]) {
      if (a.i && (int)in.size() >= Li) continue; if (a.o && (int)out.size() >= Lo) continue;
      if (a.i) in.push_back((char)a.i); if (a.o) out.push_back((char)a.o);
      go(a.to, w + a.w);
      if (a.i) in.pop_back(); if (a.o) out.pop_back();
    }
  };
  go(0, 0);
  for (auto& x : p) x.second = -std::log(x.second);
  return p;
}
std::map<std::string, double> pairs(const Fst& f0, int L, size_t budget) {
  // reuse rel: a letter is a pair; encode as an acceptor over two bytes
  Fst f = trim(f0);
  struct K { int s; std::string w; bool operator<(const K& k) const { return s != k.s ? s < k.s : w < k.w; } };
  std::map<K, double> d; std::deque<K> q; d[{0, ""}] = 0; q.push_back({0, ""}); size_t steps = 0;
  while (!q.empty()) {
    K k = q.front(); q.pop_front(); double w = d[k];
    if (++steps > budget * 4) throw TooBig();
    for (auto& a : f.st[k.s]) {
      bool e = !a.i && !a.o; if (!e && (int)k.w.size() / 2 >= L) continue;
      K n{a.to, k.w}; if (!e) { n.w.push_back((char)a.i); n.w.push_back((char)a.o); }
      auto it = d.find(n); double nw = w + a.w;
      if (it == d.end()) { if (d.size() >= budget) throw TooBig(); d.emplace(n, nw); q.push_back(n); }
      else if (nw < it->second - 1e-9) { it->second = nw; q.push_back(n); }
    }
  }
  std::map<std::string, double> r;
  for (auto& x : d) if (f.fin[x.first.s] < INF) { double w = x.second + f.fin[x.first.s]; auto it = r.find(x.first.w); if (it == r.end()) r[x.first.w] = w; else it->second = std::min(it->second, w); }
  return r;
}

Fst empty() { Fst f; f.add(); return f; }
Fst epsilon(double w) { Fst f; f.add(w); return f; }
static int append(Fst& r, const Fst& a) {
  int off = (int)r.st.size();
  for (size_t i = 0; i < a.st.size(); ++i) r.add(a.fin[i]);
  for (size_t i = 0; i < a.st.size(); ++i) for (auto& x : a.st[i]) r.arc(off + (int)i, x.i, x.o, off + x.to, x.w);
  return off;
}
Fst unite(const Fst& a, const Fst& b) { Fst r; r.add(); int x = append(r, a), y = append(r, b); r.arc(0, 0, 0, x); r.arc(0, 0, 0, y); return r; }
Fst concat(const Fst& a, const Fst& b) {
  Fst r; append(r, a); int n = (int)r.st.size(); int y = append(r, b);
  for (int i = 0; i < n; ++i) if (r.fin[i] < INF) { r.arc(i, 0, 0, y, r.fin[i]); r.fin[i] = INF; }
  return r;
}
Fst plus(const Fst& a) {
  Fst r; append(r, a); int n = (int)r.st.size();
  for (int i = 0; i < n; ++i) if (r.fin[i] < INF) r.arc(i, 0, 0, 0, r.fin[i]);
  return r;
}
Fst star(const Fst& a) { return unite(epsilon(), plus(a)); }
Fst opt(const Fst& a) { return unite(epsilon(), a); }
Fst power(const Fst& a, int n) { Fst r = epsilon(); for (int i = 0; i < n; ++i) r = concat(r, a); return r; }
Fst reverse(const Fst& a) {
  Fst r; r.add(); for (size_t i = 0; i < a.st.size(); ++i) r.add();
  for (size_t i = 0; i < a.st.size(); ++i) { for (auto& x : a.st[i]) r.arc(1 + x.to, x.i, x.o, 1 + (int)i, x.w); if (a.fin[i] < INF) r.arc(0, 0, 0, 1 + (int)i, a.fin[i]); }
  r.fin[1] = 0; return r;
}
Fst invert(const Fst& a) { Fst r = a; for (auto& v : r.st) for (auto& x : v) std::swap(x.i, x.o); return r; }
Fst projIn(const Fst& a) { Fst r = a; for (auto& v : r.st) for (auto& x : v) x.o = x.i; return r; }
Fst projOut(const Fst& a) { Fst r = a; for (auto& v : r.st) for (auto& x : v) x.i = x.o; return r; }
Fst unweighted(const Fst& a) { Fst r = a; for (auto& v : r.st) for (auto& x : v) x.w = 0; for (auto& x : r.fin) if (x < INF) x = 0; return r; }

Fst compose(const Fst& a, const Fst& b) {
  // epsilon filter: 0 any, 1 a moved alone, 2 b moved alone
  Fst r; std::map<std::tuple<int, int, int>, int> m; std::vector<std::tuple<int, int, int>> q;
  auto get = [&](int x, int y, int z) { auto k = std::make_tuple(x, y, z); auto it = m.find(k); if (it != m.end()) return it->second; int n = r.add(a.fin[x] < INF && b.fin[y] < INF ? a.fin[x] + b.fin[y] : INF); if (n > 60000) throw TooBig(); m[k] = n; q.push_back(k); return n; };
  get(0, 0, 0); size_t arcs = 0;
  while (!q.empty()) {
    auto [x, y, z] = q.back(); q.pop_back(); int n = m[{x, y, z}];
    for (auto& p : a.st[x]) {
      if (p.o == 0) { if (z != 2) { int t = get(p.to, y, 1); r.arc(n, p.i, 0, t, p.w); } if (0) {} }
      else for (auto& s : b.st[y]) if (s.i == p.o) { int t = get(p.to, s.to, 0); r.arc(n, p.i, s.o, t, p.w + s.w); if (++arcs > 400000) throw TooBig(); }
    }
    // b alone: allowed after anything; then a alone is not allowed until a joint move
    for (auto& s : b.st[y]) if (s.i == 0) { int t = get(x, s.to, 2); r.arc(n, 0, s.o, t, s.w); }
  }
  return r;
}
Fst cross(const Fst& a, const Fst& b) { // a's input language x b's output language
  Fst x = a, y = b;
  for (auto& v : x.st) for (auto& k : v) k.o = 0;
  for (auto& v : y.st) for (auto& k : v) k.i = 0;
  return concat(x, y);
}
static Fst rmEpsPairs(const Fst& f) {  // remove eps:eps arcs, keep min weights
  size_t n = f.st.size(); Fst r; for (size_t i = 0; i < n; ++i) r.add();
  for (size_t s = 0; s < n; ++s) {
    std::vector<double> d(n, INF); d[s] = 0; std::deque<int> q{(int)s}; size_t guard = 0;
    while (!q.empty()) { int v = q.front(); q.pop_front(); if (++guard > 100000) throw TooBig(); for (auto& a : f.st[v]) if (!a.i && !a.o && d[v] + a.w < d[a.to] - 1e-12) { d[a.to] = d[v] + a.w; q.push_back(a.to); } }
    for (size_t v = 0; v < n; ++v) if (d[v] < INF) {
      if (f.fin[v] < INF) r.fin[s] = std::min(r.fin[s], d[v] + f.fin[v]);
      for (auto& a : f.st[v]) if (a.i || a.o) r.arc((int)s, a.i, a.o, a.to, d[v] + a.w);
    }
  }
  return trim(r);
}
Fst pairIntersect(const Fst& a0, const Fst& b0) {
  Fst a = rmEpsPairs(a0), b = rmEpsPairs(b0), r; std::map<std::pair<int, int>, int> m; std::vector<std::pair<int, int>> q;
  auto get = [&](int x, int y) { auto k = std::make_pair(x, y); auto it = m.find(k); if (it != m.end()) return it->second; int n = r.add(a.fin[x] < INF && b.fin[y] < INF ? a.fin[x] + b.fin[y] : INF); m[k] = n; q.push_back(k); return n; };
  get(0, 0);
  while (!q.empty()) { auto [x, y] = q.back(); q.pop_back(); int n = m[{x, y}]; for (auto& p : a.st[x]) for (auto& s : b.st[y]) if (p.i == s.i && p.o == s.o) { int t = get(p.to, s.to); r.arc(n, p.i, p.o, t, p.w + s.w); } if (r.st.size() > 20000) throw TooBig(); }
  return r;
}
// determinised (unweighted) view of b walked along a
Fst pairSubtract(const Fst& a0, const Fst& b0) {
  Fst a = rmEpsPairs(a0), b = rmEpsPairs(b0), r;
  typedef std::pair<int, std::set<int>> K; std::map<K, int> m; std::vector<K> q;
  auto get = [&](int x, const std::set<int>& y) { K k{x, y}; auto it = m.find(k); if (it != m.end()) return it->second; bool inb = false; for (int z : y) inb |= b.fin[z] < INF; int n = r.add(inb ? INF : a.fin[x]); if (n > 20000) throw TooBig(); m[k] = n; q.push_back(k); return n; };
  get(0, {0});
  while (!q.empty()) { K k = q.back(); q.pop_back(); int n = m[k]; for (auto& p : a.st[k.first]) { std::set<int> y; for (int z : k.second) for (auto& s : b.st[z]) if (s.i == p.i && s.o == p.o) y.insert(s.to); int t = get(p.to, y); r.arc(n, p.i, p.o, t, p.w); } }
  return r;
}
Fst sigmaStar(const Univ& u) { Fst f; f.add(0); for (int k = 1; k <= u.size(); ++k) f.arc(0, k, k, 0); return f; }
Fst complement(const Fst& a, const Univ& u) { return pairSubtract(sigmaStar(u), a); }
Fst shuffle(const Fst& a, const Fst& b) {
  Fst r; std::map<std::pair<int, int>, int> m; int nb = (int)b.st.size();
  for (size_t x = 0; x < a.st.size(); ++x) for (int y = 0; y < nb; ++y) r.add(a.fin[x] < INF && b.fin[y] < INF ? a.fin[x] + b.fin[y] : INF);
  for (size_t x = 0; x < a.st.size(); ++x) for (int y = 0; y < nb; ++y) {
    for (auto& p : a.st[x]) r.arc((int)x * nb + y, p.i, p.o, p.to * nb + y, p.w);
    for (auto& p : b.st[y]) r.arc((int)x * nb + y, p.i, p.o, (int)x * nb + p.to, p.w);
  }
  return r;
}
Fst word(const std::vector<int>& in, const std::vector<int>& out, double w) {
  Fst f; int c = f.add(); size_t n = std::max(in.size(), out.size());
  for (size_t i = 0; i < n; ++i) { int t = f.add(); f.arc(c, i < in.size() ? in[i] : 0, i < out.size() ? out[i] : 0, t); c = t; }
  f.fin[c] = w; return f;
}
static bool cyc(const Fst& f0, std::function<bool(const CArc&)> keep) {
  Fst f = trim(f0); std::vector<std::vector<int>> g(f.st.size());
  for (size_t i = 0; i < f.st.size(); ++i) for (auto& a : f.st[i]) if (keep(a)) { if (a.to == (int)i) return true; g[i].push_back(a.to); }
  auto c = scc(g); std::map<int, int> k; for (int x : c) if (++k[x] > 1) return true;
  return false;
}
bool epsCycle(const Fst& f) { return cyc(f, [](const CArc& a) { return !a.i && !a.o; }); }
bool sideCycle(const Fst& f, bool input) { return cyc(f, [input](const CArc& a) { return input ? !a.i : !a.o; }); }

static bool near(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol; }
std::string diff(const Rel& e, const Rel& g, const Univ& u, bool weighted, double tol) {
  char b[160];
  for (auto& x : e) { auto it = g.find(x.first); if (it == g.end()) return "missing pair " + u.text(x.first.first) + " : " + u.text(x.first.second);
    if (weighted && !near(x.second, it->second, tol)) { snprintf(b, 160, " expected weight %g, got %g", x.second, it->second); return "wrong weight for " + u.text(x.first.first) + " : " + u.text(x.first.second) + b; } }
  for (auto& x : g) if (!e.count(x.first)) return "extra pair " + u.text(x.first.first) + " : " + u.text(x.first.second);
  return "";
}
std::string diffp(const std::map<std::string, double>& e, const std::map<std::string, double>& g, const Univ& u, bool weighted, double tol) {
  char b[160];
  for (auto& x : e) { auto it = g.find(x.first); if (it == g.end()) return "missing pair string " + u.text(x.first);
    if (weighted && !near(x.second, it->second, tol)) { snprintf(b, 160, " expected weight %g, got %g", x.second, it->second); return "wrong weight for pair string " + u.text(x.first) + b; } }
  for (auto& x : g) if (!e.count(x.first)) return "extra pair string " + u.text(x.first);
  return "";
}

double genWeight(pbt::Src& s, bool neg) {
  static const double w[] = {0, 1, 0.5, 2, 0.25, 3.75, 10};
  double v = w[s.below(7)];
  if (neg && s.chance(1, 4)) v = -v;
  return v;
}
std::vector<S> genLetters(pbt::Src& s, bool flags) {
  static const std::vector<std::vector<S>> sets = {{"a", "b", "c"}, {"a", "b"}, {"a", "\xc3\xa4", "ab"}, {"a", "+Pl", "b", "\xe2\x82\xac"}, {"a", "b", "@P.F.X@"}, {"a", "@U.F.Y@", "@D.F@", "b"}};
  return sets[s.below(flags ? 6 : 4)];
}
Spec mutate(pbt::Src& s, const Spec& a, const GenOpt& o) {
  Spec r = a; int n = (int)r.st.size(); int k = 1 + s.below(3);
  for (int i = 0; i < k; ++i) {
    int v = s.below(n);
    switch (s.below(5)) {
      case 0: if (!r.st[v].empty()) r.st[v].erase(r.st[v].begin() + s.below((uint32_t)r.st[v].size())); break;
      case 1: { int t = s.below(n); if (o.acyclic && t <= v) break; S x = s.pick(o.letters); S y = o.acceptor ? x : s.pick(o.letters); r.arc(v, x, y, t, o.weights ? genWeight(s, o.negative) : 0); break; }
      case 2: if (r.fin.count(v)) r.fin.erase(v); else r.fin[v] = 0; break;
      case 3: if (!r.st[v].empty()) { auto& x = r.st[v][s.below((uint32_t)r.st[v].size())]; S q = s.pick(o.letters); if (o.acceptor || x.in == x.out) x.in = x.out = q; else if (s.chance(1, 2)) { if (x.out != ID) x.in = q; } else if (x.in != ID) x.out = q; } break;
      case 4: { int t = r.add(); S x = s.pick(o.letters); S y = o.acceptor ? x : s.pick(o.letters); r.arc(v, x, y, t); r.fin[t] = 0; break; }
    }
  }
  if (!o.cyclicWeights) zeroCycleWeights(r);
  return r;
}
Spec gen(pbt::Src& s, const GenOpt& o) {
  Spec f; int n = 1 + s.below(o.maxStates); for (int i = 0; i < n; ++i) f.add();
  bool weighted = o.weights && s.chance(2, 3);
  bool spec = o.special && s.chance(1, 2);
  bool acc = o.acceptor || s.chance(1, 4);
  auto sideSym = [&]() -> S { if ((int)s.below(100) >= 100 - o.eps) return EPS; return s.pick(o.letters); };
  auto label = [&](S& i, S& u) {
    if (spec && (int)s.below(100) >= 100 - o.special * 2) {
      if (acc) { i = u = ID; return; }
      switch (s.below(5)) { case 0: i = u = ID; return; case 1: i = u = UNK; return; case 2: i = UNK; u = sideSym(); return; case 3: i = sideSym(); u = UNK; return; default: i = u = ID; return; }
    }
    i = sideSym(); u = (acc || s.chance(1, 3)) ? i : sideSym();
    if (i == EPS && u == EPS && !o.epsArcs) i = u = o.letters[0];
  };
  auto W = [&]() { return weighted ? genWeight(s, o.negative) : 0.0; };
  for (int i = 0; i + 1 < n; ++i) if (!s.chance(1, 8)) { S a, b; label(a, b); f.arc(i, a, b, i + 1, W()); }
  int extra = s.below(o.maxArcs + 1);
  for (int k = 0; k < extra; ++k) {
    int a = s.below(n), b = s.below(n); S x, y; label(x, y); double w = W();
    if (o.acyclic) { if (a == b) continue; if (a > b) std::swap(a, b); }
    f.arc(a, x, y, b, w);
  }
  for (int i = 0; i < n; ++i) { bool last = i == n - 1; if (last ? !s.chance(1, 10) : s.chance(1, 4)) f.fin[i] = W(); }
  if ((int)s.below(100) >= 100 - o.extraSigma) f.sigma.insert(s.pick(o.letters));
  if (!o.cyclicWeights) zeroCycleWeights(f);
  return f;
}
}  // namespace M
namespace M {
Spec genLexicon(pbt::Src& s, int maxWords, int nsyms, int maxLen, bool weights) {
  Spec r; r.add(); std::vector<S> sym;
  for (int i = 0; i < nsyms; ++i) sym.push_back(i < 26 ? S(1, (char)('a' + i)) : i % 3 == 0 ? "<sym" + std::to_string(i) + ">" : i % 3 == 1 ? "s" + std::to_string(i) : S("\xC3") + (char)(0x80 + i % 64) + std::to_string(i));
  int n = 1 + s.below(maxWords);
  std::map<std::pair<int, std::pair<S, S>>, int> tr;
  for (int i = 0; i < n; ++i) {
    int q = 0, l = 1 + s.below(maxLen);
    for (int k = 0; k < l; ++k) {
      S a = sym[s.below(nsyms)], b = s.chance(3, 4) ? a : s.chance(1, 6) ? EPS : sym[s.below(nsyms)];
      auto key = std::make_pair(q, std::make_pair(a, b)); auto it = tr.find(key);
      if (it == tr.end()) { int t = r.add(); r.arc(q, a, b, t, weights && s.chance(1, 4) ? genWeight(s) : 0); tr[key] = t; q = t; } else q = it->second;
    }
    r.fin[q] = weights ? genWeight(s) : 0;
  }
  return r;
}
}
