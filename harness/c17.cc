// C17: a two-level rule accepts exactly the pair strings its arrow allows
#include "hx.h"
#include "parsers/TwolcCompiler.h"
#include <fcntl.h>
#include <unistd.h>
using namespace hx;
namespace {
typedef std::pair<S, S> PR;
enum K { PAIR, BND, EPSR, CAT, ALT, AND, MINUS, STAR, PLUS, OPT, NEG, TNEG, POW, RANGE, HAS, ONCE, DEF, INS };
struct R; typedef std::shared_ptr<R> P;
struct R { K k; S a, b; int n = 0, m = 0; std::vector<P> ch; };
static P mk(K k, std::vector<P> c = {}) { P r = std::make_shared<R>(); r->k = k; r->ch = c; return r; }
static P mkp(const S& a, const S& b) { P r = mk(PAIR); r->a = a; r->b = b; return r; }
struct Ctx { P l, r; };
enum OP { RIGHT, LEFT, BOTH, NOT };
struct TRule { S name; std::vector<PR> center; P re; OP op; std::vector<Ctx> pos, neg; S vars; int multi = 0; };
struct G { std::vector<PR> alpha; std::vector<std::pair<S, std::vector<S>>> sets; std::vector<std::pair<S, P>> defs; std::vector<TRule> rules; std::vector<S> diac; bool rulevars = false; std::map<S, std::vector<S>> set() const { std::map<S, std::vector<S>> m; for (auto& x : sets) m[x.first] = x.second; return m; } };
// ---- text
static S q(const S& x) { if (x == "0lit") return "%0"; S r; for (char c : x) { if (S("+*%|&-[](){}:;_!\"~$/\\^=<").find(c) != S::npos) r += "%"; r += c; } return r; }
static S ptext(const R& r, int style) { if (r.a == "?" && r.b == "?") return style % 2 ? "?" : ":"; if (r.b == "?") return q(r.a) + (style % 2 ? ":" : ":?"); if (r.a == "?") return (style % 2 ? ":" : "?:") + q(r.b); if (r.a == r.b && style % 4) return q(r.a); return q(r.a) + ":" + q(r.b); }
static S text(const P& e, Src& s, bool top = false) {
  auto br = [&](const P& x) { S t = text(x, s); return x->k == PAIR || x->k == BND || x->k == DEF ? t : x->k == OPT ? t : "[ " + t + " ]"; };
  switch (e->k) {
    case PAIR: return ptext(*e, s.below(4)); case BND: return e->n ? "#" : ".#."; case EPSR: return s.chance(1, 2) ? "0" : "[ ]"; case DEF: return e->a;
    case CAT: { S t; for (auto& x : e->ch) t += (t.empty() ? "" : " ") + br(x); return t; }
    case ALT: case AND: case MINUS: { const char* o = e->k == ALT ? " | " : e->k == AND ? " & " : " - "; return br(e->ch[0]) + o + br(e->ch[1]); }
    case STAR: return br(e->ch[0]) + "*"; case PLUS: return br(e->ch[0]) + "+"; case OPT: return "( " + text(e->ch[0], s) + " )"; case NEG: return "~" + br(e->ch[0]); case TNEG: return "\\" + br(e->ch[0]); case HAS: return "$" + br(e->ch[0]); case ONCE: return "$." + br(e->ch[0]);
    case POW: return br(e->ch[0]) + "^" + std::to_string(e->n); case RANGE: return br(e->ch[0]) + "^" + std::to_string(e->n) + "," + std::to_string(e->m); case INS: return br(e->ch[0]) + " / " + br(e->ch[1]);
  }
  return "";
}
// ---- meaning: spans of a string of letters
struct Let { std::vector<PR> pair; int bnd, other; };
typedef std::vector<std::vector<char>> Mx;
struct Ev {
  const Let& L; std::map<S, std::vector<S>> sets; std::map<S, P> defs;
  std::vector<S> mem(const S& x) const { auto it = sets.find(x); return it == sets.end() ? std::vector<S>{x} : it->second; }
  bool in(const R& r, int l) const {
    if (r.k == BND) return l == L.bnd || (r.n && l < L.bnd && L.pair[l] == PR("#", "#"));
    if (r.a == "?" && r.b == "?") return true;
    if (l == L.bnd || l == L.other) return false;
    bool x = r.a == "?", y = r.b == "?"; if (!x) for (auto& m : mem(r.a)) x |= m == L.pair[l].first; if (!y) for (auto& m : mem(r.b)) y |= m == L.pair[l].second; return x && y;
  }
  static Mx mul(const Mx& a, const Mx& b) { int n = (int)a.size(); Mx c(n, std::vector<char>(n, 0)); for (int i = 0; i < n; ++i) for (int k = i; k < n; ++k) if (a[i][k]) for (int j = k; j < n; ++j) c[i][j] |= b[k][j]; return c; }
  static Mx star(const Mx& a) { int n = (int)a.size(); Mx c(n, std::vector<char>(n, 0)); for (int i = 0; i < n; ++i) c[i][i] = 1; for (int t = 0; t < n; ++t) { Mx d = mul(c, a); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) c[i][j] |= d[i][j]; } return c; }
  Mx ev(const P& e, const std::vector<int>& w) const {
    int n = (int)w.size() + 1; Mx c(n, std::vector<char>(n, 0)); auto id = [&]() { Mx d(n, std::vector<char>(n, 0)); for (int i = 0; i < n; ++i) d[i][i] = 1; return d; };
    auto all = [&]() { Mx d(n, std::vector<char>(n, 0)); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) d[i][j] = 1; return d; };
    switch (e->k) {
      case PAIR: case BND: for (int i = 0; i + 1 < n; ++i) c[i][i + 1] = in(*e, w[i]); return c;
      case EPSR: return id();
      case DEF: return ev(defs.at(e->a), w);
      case CAT: c = id(); for (auto& x : e->ch) c = mul(c, ev(x, w)); return c;
      case ALT: case AND: case MINUS: { Mx a = ev(e->ch[0], w), b = ev(e->ch[1], w); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) c[i][j] = e->k == ALT ? a[i][j] || b[i][j] : e->k == AND ? a[i][j] && b[i][j] : a[i][j] && !b[i][j]; return c; }
      case STAR: return star(ev(e->ch[0], w)); case PLUS: { Mx a = ev(e->ch[0], w); return mul(a, star(a)); }
      case OPT: c = ev(e->ch[0], w); for (int i = 0; i < n; ++i) c[i][i] = 1; return c;
      case NEG: c = ev(e->ch[0], w); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) c[i][j] = !c[i][j]; return c;
      case TNEG: c = ev(e->ch[0], w); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) c[i][j] = j == i + 1 && !c[i][j]; return c;
      case POW: case RANGE: { Mx a = ev(e->ch[0], w), p = id(); int hi = e->k == POW ? e->n : e->m; for (int t = 0; t <= hi; ++t) { if (t >= e->n) for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) c[i][j] |= p[i][j]; p = mul(p, a); } return c; }
      case HAS: return mul(mul(all(), ev(e->ch[0], w)), all());
      case ONCE: { Mx a = ev(e->ch[0], w), u = all(); Mx h = mul(mul(u, a), u), t = mul(mul(h, a), u); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) c[i][j] = h[i][j] && !t[i][j]; return c; }
      case INS: { Mx b = ev(e->ch[1], w); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) c[i][j] = ins(e->ch[0], b, w, i, j, {}); return c; }
    }
    return c;
  }
  // some way of cutting factors matched by b out of w[i,j) leaves a string in a
  bool ins(const P& a, const Mx& b, const std::vector<int>& w, int i, int j, std::vector<int> kept) const {
    if (i == j) { Mx m = ev(a, kept); return m[0][kept.size()]; }
    for (int k = i + 1; k <= j; ++k) if (b[i][k] && ins(a, b, w, k, j, kept)) return true;
    kept.push_back(w[i]); return ins(a, b, w, i + 1, j, kept);
  }
};
struct Spot { Mx l, r; };   // per context
static bool inCtx(const std::vector<Spot>& v, int i, int j, int n) { for (auto& x : v) { bool a = false, b = false; for (int k = 0; k <= i; ++k) a |= x.l[k][i]; for (int k = j; k <= n; ++k) b |= x.r[j][k]; if (a && b) return true; } return false; }
static std::vector<Spot> spots(const Ev& E, const std::vector<Ctx>& v, const std::vector<int>& w) { std::vector<Spot> r; for (auto& x : v) r.push_back({E.ev(x.l, w), E.ev(x.r, w)}); return r; }
// the pair with any partner: what the input side of a centre could be realised as
static std::vector<PR> expandCenter(const PR& c, const Ev& E) { std::vector<PR> r; R x; x.k = PAIR; x.a = c.first; x.b = c.second; for (int l = 0; l < (int)E.L.pair.size(); ++l) if (E.in(x, l)) r.push_back(E.L.pair[l]); return r; }
static P loosen(const P& e, const Ev& E) {
  if (e->k == PAIR) { P r; bool zero = false; for (auto& c : expandCenter({e->a, e->b}, E)) { zero |= c.first == "0"; P x = mkp(c.first, "?"); r = r ? mk(ALT, {r, x}) : x; } return zero ? mk(OPT, {r}) : r; }
  P r = mk(e->k); r->a = e->a; r->b = e->b; r->n = e->n; r->m = e->m; for (auto& x : e->ch) r->ch.push_back(loosen(x, E)); return r;
}
static bool allowed(const Ev& E, const TRule& r, const std::vector<int>& w) {
  int n = (int)w.size(); auto pos = spots(E, r.pos, w), neg = spots(E, r.neg, w);
  auto ctx = [&](int i, int j) { return inCtx(pos, i, j, n) && !inCtx(neg, i, j, n); };
  std::vector<std::pair<P, P>> cs;   // centre, loosened
  if (r.re) cs.push_back({r.re, r.op == RIGHT || r.op == NOT ? r.re : loosen(r.re, E)});
  else for (auto& c0 : r.center) for (auto& c : expandCenter(c0, E)) { P p = mkp(c.first, c.second); cs.push_back({p, loosen(p, E)}); }
  for (auto& c : cs) {
    Mx m = E.ev(c.first, w), a = r.op == RIGHT || r.op == NOT ? m : E.ev(c.second, w);
    for (int i = 0; i <= n; ++i) for (int j = i; j <= n; ++j) {
      if ((r.op == RIGHT || r.op == BOTH) && m[i][j] && !ctx(i, j)) return false;
      if ((r.op == LEFT || r.op == BOTH) && a[i][j] && !m[i][j] && ctx(i, j)) return false;
      if (r.op == NOT && m[i][j] && ctx(i, j)) return false;
    }
  }
  return true;
}
// ---- acceptance by a stored transducer
struct Acc {
  Fst f; std::vector<PR> let;  // letter -> symbols
  Univ& u; std::vector<std::pair<int, int>> io;
  Acc(Univ& U, const Fst& F, const std::vector<std::pair<int, int>>& i) : f(F), u(U), io(i) {}
  void close(std::set<int>& q) const { std::vector<int> st(q.begin(), q.end()); while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto& a : f.st[x]) if (!a.i && !a.o && q.insert(a.to).second) st.push_back(a.to); } }
  bool run(const std::vector<int>& w) const { std::set<int> q = {0}; close(q); for (int l : w) { std::set<int> n; for (int x : q) for (auto& a : f.st[x]) if (a.i == io[l].first && a.o == io[l].second) n.insert(a.to); close(n); q = n; } for (int x : q) if (f.fin[x] < M::INF) return true; return false; }
};
// ---- generators
struct Opt { bool sets = true, defs = true, neg = true, re = false, vars = false, simple = false; };
static const std::vector<S> SY = {"a", "b", "c", "\xc3\xa4", "e+", "0lit", "ab", "d"};
struct Gen {
  Src& s; G& g; std::vector<S> up, lo; bool wb = true; int budget = 8;
  PR anyPair() { if (s.chance(1, 6)) { S x = s.pick(up), y = s.pick(lo); if (x == "0" && y == "0") y = "a"; return {x, y}; } return s.pick(g.alpha); }
  P pair(bool q = true) {
    switch (s.below(8)) {
      case 0: case 1: case 2: { PR p = anyPair(); return mkp(p.first, p.second); }
      case 3: { PR p = s.pick(g.alpha); return q ? mkp(p.first, "?") : mkp(p.first, p.second); }
      case 4: { PR p = s.pick(g.alpha); return q ? mkp("?", p.second) : mkp(p.first, p.second); }
      case 5: { PR p = s.pick(g.alpha); S x = p.first != "0" && s.chance(1, 2) ? p.first : p.second; if (x == "0") x = p.first; return mkp(x, x); }
      case 6: if (!g.sets.empty()) { S n = s.pick(g.sets).first; int k = s.below(4); PR p = s.pick(g.alpha); return k == 0 ? mkp(n, n) : k == 1 && q ? mkp(n, "?") : k == 2 && q ? mkp("?", n) : s.chance(1, 2) ? mkp(n, p.second) : mkp(p.first, n); } [[fallthrough]];
      default: if (q && s.chance(1, 2)) return mkp("?", "?"); PR p = anyPair(); return mkp(p.first, p.second);
    }
  }
  P expr(int d) {
    if (d <= 0 || --budget <= 0) return pair();
    int c = s.below(24);
    if (c <= 6) return pair();
    if (c <= 10) { P r = mk(CAT, {expr(d - 1), expr(d - 1)}); return r; }
    if (c <= 12) return mk(ALT, {expr(d - 1), expr(d - 1)});
    switch (c) { case 13: return mk(AND, {expr(d - 1), expr(d - 1)}); case 14: return mk(MINUS, {expr(d - 1), expr(d - 1)}); case 15: return mk(STAR, {expr(d - 1)}); case 16: return mk(PLUS, {expr(d - 1)}); case 17: return mk(OPT, {expr(d - 1)}); case 18: return mk(NEG, {expr(d - 1)}); case 19: return mk(TNEG, {pair()});
      case 20: { P r = mk(s.chance(1, 2) ? POW : RANGE, {expr(d - 1)}); r->n = s.below(3); if (r->k == POW && !r->n) r->n = 1; r->m = r->n + 1 + s.below(2); return r; }
      case 21: return mk(s.chance(1, 2) ? HAS : ONCE, {expr(d - 1)}); case 22: return mk(INS, {expr(d - 1), pair()});
      default: if (!g.defs.empty()) { P r = mk(DEF); r->a = s.pick(g.defs).first; return r; } return s.chance(1, 3) ? mk(EPSR) : pair(); }
  }
  P side(bool left) { if (s.chance(1, 3)) return mk(CAT); budget = 6; P e = expr(2); if (wb && s.chance(1, 6)) { P b = mk(BND); b->n = s.below(2); return left ? mk(CAT, {b, e}) : mk(CAT, {e, b}); } return e; }
  P small(bool left) { std::vector<P> v; int n = s.below(3); for (int i = 0; i < n; ++i) v.push_back(pair()); if (s.chance(1, 6)) { P b = mk(BND); b->n = s.below(2); if (left) v.insert(v.begin(), b); else v.push_back(b); } return mk(CAT, v); }
};
static G genG(Src& s, const Opt& o) {
  G g; int n = 3 + s.below(3); std::vector<S> sy(SY.begin(), SY.begin() + (s.chance(1, 2) ? 4 : (int)SY.size()));
  for (int i = 0; i < n; ++i) { S x = s.pick(sy), y = s.chance(1, 2) ? x : s.pick(sy); if (s.chance(1, 6)) { if (s.chance(1, 2)) x = "0"; else y = "0"; } if (x == "0" && y == "0") x = "a"; g.alpha.push_back({x, y}); }
  if (o.sets && s.chance(1, 2)) for (int k = 1 + s.below(2); k > 0; --k) { std::vector<S> m; for (int j = 1 + s.below(3); j > 0; --j) { PR p = s.pick(g.alpha); S x = s.chance(1, 2) ? p.first : p.second; if (x != "0") m.push_back(x); } if (m.empty()) m.push_back("a"); g.sets.push_back({k == 1 ? "Vow" : "K", m}); }
  Gen h{s, g, {}, {}}; for (auto& p : g.alpha) { h.up.push_back(p.first); h.lo.push_back(p.second); }
  if (o.defs && s.chance(1, 3)) { h.budget = 5; g.defs.push_back({"Def", h.expr(2)}); if (s.chance(1, 2)) { h.budget = 5; g.defs.push_back({"Def2", h.expr(2)}); } }
  int nr = 1 + s.below(o.simple ? 3 : 2);
  for (int i = 0; i < nr; ++i) {
    TRule r; r.name = s.pick(std::vector<S>{"rule", "a rule", "r:x", "\xc3\xa4 => b"}) + std::to_string(i); r.op = (OP)s.below(4);
    if (o.re && s.chance(2, 3)) { std::function<P(int)> pe = [&](int d) -> P { if (d <= 0) return h.pair(false); switch (s.below(6)) { case 0: case 1: return mk(CAT, {pe(d - 1), pe(d - 1)}); case 2: return mk(ALT, {pe(d - 1), pe(d - 1)}); case 3: return mk(OPT, {pe(d - 1)}); case 4: return mk(STAR, {pe(d - 1)}); default: return h.pair(false); } }; r.re = pe(2); }
    else { int c = s.below(6); r.multi = c == 0 ? 1 : c == 1 ? 2 : 0; int k = r.multi ? 2 : 1; for (int j = 0; j < k; ++j) { PR p = h.anyPair(); if (!r.multi && s.chance(1, 6)) p.second = "?"; else if (!r.multi && !g.sets.empty() && s.chance(1, 5)) p.first = g.sets[0].first; r.center.push_back(p); } }
    int np = s.chance(1, 8) ? 0 : 1 + s.below(2); for (int j = 0; j < np; ++j) r.pos.push_back(o.simple ? Ctx{h.small(true), h.small(false)} : Ctx{h.side(true), h.side(false)});
    if (o.neg && s.chance(1, 5)) r.neg.push_back({h.side(true), h.side(false)});
    g.rules.push_back(r);
  }
  return g;
}
static S ctext(const PR& c, Src& s) { return q(c.first) + ":" + (c.second == "?" ? (s.chance(1, 2) ? "" : "?") : q(c.second)); }
static S gtext(const G& g, Src& s) {
  S t = s.chance(1, 5) ? "! comment ; here\n" : ""; auto nl = [&]() { return s.chance(1, 8) ? S(" ! x\n") : s.chance(1, 6) ? S("\r\n") : S("\n"); };
  t += "Alphabet" + nl(); for (auto& p : g.alpha) t += " " + (p.first == p.second ? q(p.first) : q(p.first) + ":" + q(p.second)) + (s.chance(1, 6) ? nl() : ""); t += " ;" + nl();
  if (!g.diac.empty()) { t += "Diacritics" + nl(); for (auto& d : g.diac) t += " " + q(d); t += " ;" + nl(); }
  if (g.rulevars) t += "Rule-variables" + nl() + " Cx Cy ;" + nl();
  if (!g.sets.empty()) { t += "Sets" + nl(); for (auto& x : g.sets) { t += x.first + " ="; for (auto& m : x.second) t += " " + q(m); t += " ;" + nl(); } }
  if (!g.defs.empty()) { t += "Definitions" + nl(); for (auto& d : g.defs) t += d.first + " = " + text(d.second, s) + " ;" + nl(); }
  t += "Rules" + nl();
  for (auto& r : g.rules) {
    t += "\"" + r.name + "\"" + nl();
    if (r.re) t += "<[ " + text(r.re, s) + " ]>"; else if (!r.multi) t += ctext(r.center[0], s); else { bool b = r.multi == 1; t += b ? "[ " : ""; for (size_t i = 0; i < r.center.size(); ++i) t += (i ? " | " : "") + ctext(r.center[i], s); t += b ? " ]" : ""; }
    static const char* o1[] = {" => ", " <= ", " <=> ", " /<= "}; static const char* o2[] = {" ==> ", " <== ", " <==> ", " /<== "}; t += r.re ? o2[r.op] : o1[r.op];
    for (auto& c : r.pos) t += text(c.l, s) + " _ " + text(c.r, s) + " ;" + nl();
    if (!r.neg.empty()) { t += "except "; for (auto& c : r.neg) t += text(c.l, s) + " _ " + text(c.r, s) + " ;" + nl(); }
    if (!r.vars.empty()) t += r.vars + nl();
  }
  return t;
}
static void collect(const P& e, std::set<PR>& f, const std::map<S, std::vector<S>>& sets, bool& wb) {
  if (!e) return; if (e->k == BND && e->n) f.insert({"#", "#"});
  if (e->k == PAIR && e->a != "?" && e->b != "?" && !sets.count(e->a) && !sets.count(e->b)) f.insert({e->a, e->b});
  for (auto& c : e->ch) collect(c, f, sets, wb);
}
static void pairsOf(const P& e, std::vector<PR>& v) { if (!e) return; if (e->k == PAIR) v.push_back({e->a, e->b}); for (auto& c : e->ch) pairsOf(c, v); }
static S lit(const S& x) { return x == "0lit" ? "0" : x; }
static int mute(const std::function<int()>& f) { fflush(stderr); int old = dup(2), z = open("/dev/null", O_WRONLY); dup2(z, 2); close(z); int r; try { r = f(); } catch (...) { dup2(old, 2); close(old); throw; } dup2(old, 2); close(old); return r; }
typedef std::function<bool(const Ev&, const std::vector<int>&)> Together;
static void check(Src& s, Case& c, const G& g, const G& meaning, ImplementationType t, bool rl, bool rr, bool joint, const Together& judge = nullptr, const std::vector<S>& lexicon = {}) {
  S txt = gtext(g, s); c.show << tname(t) << (rl ? " resolve-left" : "") << (rr ? " resolve-right" : "") << "\n" << txt;
  auto sets = meaning.set(); std::set<PR> feas(meaning.alpha.begin(), meaning.alpha.end()); bool wb = false;
  for (auto& d : meaning.defs) collect(d.second, feas, sets, wb);
  for (auto& r : meaning.rules) { for (auto& p : r.center) if (p.second != "?" && !sets.count(p.first) && !sets.count(p.second)) feas.insert(p); collect(r.re, feas, sets, wb); for (auto& x : r.pos) { collect(x.l, feas, sets, wb); collect(x.r, feas, sets, wb); } for (auto& x : r.neg) { collect(x.l, feas, sets, wb); collect(x.r, feas, sets, wb); } }
  Let L; L.pair.assign(feas.begin(), feas.end()); L.bnd = (int)L.pair.size(); L.other = L.bnd + 1; if (L.other > 11) discard("too many letters");
  Ev E{L, sets, {}}; for (auto& d : meaning.defs) E.defs[d.first] = d.second;
  bool empty = false; { std::vector<PR> v; for (auto& d : meaning.defs) pairsOf(d.second, v); for (auto& r : meaning.rules) { pairsOf(r.re, v); for (auto& x : r.pos) { pairsOf(x.l, v); pairsOf(x.r, v); } for (auto& x : r.neg) { pairsOf(x.l, v); pairsOf(x.r, v); } for (auto& p : r.center) v.push_back(p); } for (auto& p : v) if (!(p.first == "?" && p.second == "?") && expandCenter(p, E).empty()) empty = true; }
  S in = pbt::scratch_dir + "/g.twolc", out = pbt::scratch_dir + "/g.fst"; writeFile(in, txt); writeFile(out, "");
  c.at("compile"); int rc = mute([&] { return hfst::twolc::TwolcCompiler::compile(in, out, true, false, rl, rr, t); });
  if (empty) { if (rc == 0) discard("a pair expression matches no pair"); c.label("refused"); return; }
  if (rc != 0) fail("a well-formed grammar was refused");
  c.at("read back"); std::map<S, Spec> got; { HfstInputStream is(out); while (is.is_good()) { HfstTransducer x(is); if (x.get_type() != t) fail("type"); S nm = x.get_name(); if (got.count(nm)) fail("two transducers named " + nm); got[nm] = fromHfst(x); } }
  Univ u; for (auto& p : L.pair) { if (p.first != "0") u.sym(lit(p.first)); if (p.second != "0") u.sym(lit(p.second)); } u.sym("@#@"); for (auto& x : got) for (auto& y : x.second.alphabet()) { if (y == "__HFST_TWOLC_FREELY_INSERT" || y.find("__HFST") == S::npos) u.sym(y); else fail("symbol " + y + " in a stored rule"); } for (auto& d : g.diac) u.sym(d); u.fresh(1); int fr = u.size();
  std::vector<std::pair<int, int>> io; for (auto& p : L.pair) io.push_back({p.first == "0" ? 0 : u.sym(lit(p.first)), p.second == "0" ? 0 : u.sym(lit(p.second))}); io.push_back({u.sym("@#@"), 0}); io.push_back({fr, fr}); for (auto& d : g.diac) io.push_back({u.sym(d), 0}); const int K = (int)io.size();
  auto strip = [&](const std::vector<int>& w) { std::vector<int> r; for (int l : w) if (l <= L.other) r.push_back(l); return r; };
  auto word = [&](const std::vector<int>& w) { S x; for (int l : w) x += (l == L.bnd ? S("#") : l == L.other ? S("?") : l > L.other ? g.diac[l - L.other - 1] : L.pair[l].first + ":" + L.pair[l].second) + " "; return x; };
  c.at("compare");
  if (!lexicon.empty()) {   // the rules applied to a lexicon
    HfstTransducerVector rules; HfstInputStream is(out); while (is.is_good()) rules.push_back(HfstTransducer(is)); if (rules.empty()) discard("no rules");
    Spec lx; int q0 = lx.add(); Univ v; M::Rel want; std::vector<std::vector<S>> words; size_t ml = 0;
    for (auto& w : lexicon) { std::vector<S> sy; std::istringstream is2(w); S x; while (is2 >> x) sy.push_back(x); ml = std::max(ml, sy.size()); words.push_back(sy); int cur = q0; for (auto& y : sy) { int n = lx.add(); lx.arc(cur, lit(y), lit(y), n); cur = n; } lx.fin[cur] = 0; }
    HfstTransducer lt = toHfst(lx, t); lt.compose_intersect(rules); Spec g2 = fromHfst(lt); addSyms(v, lx); addSyms(v, g2); for (auto& p : L.pair) for (auto& y : {p.first, p.second}) if (y != "0") v.sym(lit(y));
    auto enc = [&](const std::vector<S>& y) { S r; for (auto& x : y) if (x != "0") r += (char)v.sym(lit(x)); return r; };
    for (auto& sy : words) { std::vector<int> w = {L.bnd}; std::function<void(size_t, std::vector<S>)> rec = [&](size_t i, std::vector<S> o) {
        if (i == sy.size()) { auto z = w; z.push_back(L.bnd); bool ok = true; for (auto& r : meaning.rules) ok = ok && allowed(E, r, z); if (ok) want[{enc(sy), enc(o)}] = 0; return; }
        bool known = false; for (auto& p : L.pair) known |= p.first == sy[i] || p.second == sy[i];
        if (!known) { auto o2 = o; o2.push_back(sy[i]); w.push_back(L.other); rec(i + 1, o2); w.pop_back(); return; }
        for (int l = 0; l < L.bnd; ++l) if (L.pair[l].first == sy[i]) { auto o2 = o; o2.push_back(L.pair[l].second); w.push_back(l); rec(i + 1, o2); w.pop_back(); } };
      rec(0, {}); }
    M::Rel have = M::rel(v.expand(g2), (int)ml + 1, (int)ml + 2); S d = M::diff(want, have, v, false); if (!d.empty()) fail("rules applied to the lexicon: " + d); c.nontrivial = want.size() >= 2; return;
  }
  std::vector<std::pair<Acc, std::vector<const TRule*>>> todo;
  if (joint) { std::vector<const TRule*> all; for (auto& r : meaning.rules) all.push_back(&r); std::vector<Acc> as; for (auto& x : got) as.push_back(Acc(u, u.expand(x.second), io)); 
    auto cmp = [&](const std::vector<int>& w) { bool want = true, have = true; auto z = strip(w); if (judge) want = judge(E, z); else for (auto r : all) want = want && allowed(E, *r, z); for (auto& a : as) have = have && a.run(w); if (want != have) fail("the rules together " + S(have ? "accept" : "reject") + " '" + word(w) + "'"); if (want) c.label("some accepted"); else c.nontrivial = true; };
    int len = K <= 6 ? 4 : 3; std::vector<int> w; std::function<void()> rec = [&] { cmp(w); if ((int)w.size() == len) return; for (int l = 0; l < K; ++l) { w.push_back(l); rec(); w.pop_back(); } }; rec(); for (int k = 0; k < 100; ++k) { std::vector<int> x; for (int n = 4 + s.below(3); n > 0; --n) x.push_back(s.below(K)); cmp(x); } return; }
  for (auto& r : meaning.rules) {
    std::vector<Acc> as; for (auto& x : got) if (x.first.compare(0, r.name.size() + 1, "\"" + r.name) == 0) as.push_back(Acc(u, u.expand(x.second), io)); if (as.empty()) { S l; for (auto& x : got) l += " '" + x.first + "'"; fail("no rule named " + r.name + "; there are" + l); }
    std::vector<const TRule*> same; for (auto& q : meaning.rules) if (q.name == r.name) same.push_back(&q);
    auto cmp = [&](const std::vector<int>& w) { bool want = true; auto z = strip(w); for (auto q : same) want = want && allowed(E, *q, z); bool have = true; for (auto& a : as) have = have && a.run(w); if (want != have) fail("rule " + r.name + " " + S(have ? "accepts" : "rejects") + " '" + word(w) + "'"); if (!want) c.nontrivial = true; };
    int len = K <= 6 ? 4 : 3; std::vector<int> w; std::function<void()> rec = [&] { cmp(w); if ((int)w.size() == len) return; for (int l = 0; l < K; ++l) { w.push_back(l); rec(); w.pop_back(); } }; rec(); for (int k = 0; k < 60; ++k) { std::vector<int> x; for (int n = 4 + s.below(3); n > 0; --n) x.push_back(s.below(K)); cmp(x); }
  }
}
static ImplementationType type(Src& s) { return s.pick(std::vector<ImplementationType>{TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE}); }
LAW(rules, 4000, 20) { Opt o; G g = genG(s, o); check(s, c, g, g, type(s), false, false, false); }
LAW(expression_centres, 2500, 20) { Opt o; o.re = true; G g = genG(s, o); check(s, c, g, g, type(s), false, false, false); }
// => rules with one centre are joined
LAW(joined_right, 1500, 20) {
  Opt o; o.simple = true; G g = genG(s, o); PR p = g.rules[0].center[0]; for (auto& r : g.rules) { r.op = RIGHT; r.multi = 0; r.center.resize(1); if (s.chance(2, 3)) r.center[0] = p; }
  G m = g; auto sets = m.set();
  std::set<PR> feas(m.alpha.begin(), m.alpha.end()); 
  (void)feas; for (auto& r : g.rules) if (r.center[0].second == "?" || sets.count(r.center[0].first)) { r.center[0] = g.alpha[0]; } m = g;
  std::vector<TRule> rs; for (auto& r : m.rules) { bool done = false; for (auto& x : rs) if (x.center == r.center) { // positive minus negative, one rule at a time
        if (!x.neg.empty() || !r.neg.empty()) { r.neg.clear(); x.neg.clear(); } x.pos.insert(x.pos.end(), r.pos.begin(), r.pos.end()); done = true; } if (!done) rs.push_back(r); }
  for (auto& r : g.rules) r.neg.clear(); for (auto& r : rs) r.neg.clear(); m.rules = rs;
  check(s, c, g, m, type(s), false, true, true);
}

// variables stand for each of their values: matched in step, mixed at different places, freely in every way
static P subst(const P& e, const std::map<S, S>& m) { P r = std::make_shared<R>(*e); if (m.count(r->a)) r->a = m.at(r->a); if (m.count(r->b)) r->b = m.at(r->b); for (auto& c : r->ch) c = subst(c, m); return r; }
LAW(variables, 1200, 20) {
  Opt o; G g = genG(s, o); g.rules.resize(1); TRule& r = g.rules[0]; r.re = nullptr; r.multi = 0; auto sets = g.set();
  Gen h{s, g, {}, {}}; for (auto& p : g.alpha) { h.up.push_back(p.first); h.lo.push_back(p.second); }
  struct Blk { std::vector<S> v; std::vector<std::vector<S>> val; int mode; }; std::vector<Blk> bl(1); int nv = 1 + s.below(3); static const std::vector<S> names = {"Cx", "Cy", "Cz"};
  for (int i = 0; i < nv; ++i) { if (i && s.chance(1, 4)) bl.push_back({}); bl.back().v.push_back(names[i]); }
  S txt = "where"; int total = 1;
  for (size_t b = 0; b < bl.size(); ++b) {
    Blk& B = bl[b]; B.mode = s.below(4); int len = 1 + s.below(3); if (b) txt += " and";
    for (size_t i = 0; i < B.v.size(); ++i) { std::vector<S> val; S vt; if (!g.sets.empty() && s.chance(1, 5)) { auto& st = s.pick(g.sets); val = st.second; vt = s.chance(1, 2) ? st.first : "( " + st.first + " )"; } else { int n = B.mode == 1 ? (i ? (int)B.val[0].size() : len) : 1 + s.below(3); vt = "("; for (int k = 0; k < n; ++k) { S x = s.pick(s.chance(1, 2) ? h.up : h.lo); if (x == "0") x = "b"; val.push_back(x); vt += " " + q(x); } vt += " )"; } B.val.push_back(val); txt += " " + B.v[i] + " in " + vt; }
    if (B.mode == 1) for (auto& v : B.val) if (v.size() != B.val[0].size()) discard("matched lists differ in length");
    static const char* md[] = {"", " matched", " mixed", " freely"}; txt += md[B.mode];
  }
  r.vars = txt + " ;"; g.rulevars = s.chance(1, 3);
  auto var = [&]() { return names[s.below(nv)]; };
  r.center = {{s.chance(2, 3) ? S("Cx") : s.pick(g.alpha).first, s.chance(1, 2) ? var() : s.pick(g.alpha).second}}; if (r.center[0].first == "0") r.center[0].first = "Cx"; if (r.center[0].second == "?") r.center[0].second = "Cx";
  std::function<P(const P&)> put = [&](const P& e) -> P { P x = std::make_shared<R>(*e); if (x->k == PAIR) { if (s.chance(1, 4)) x->a = var(); if (s.chance(1, 4)) x->b = var(); if (x->a == "0" && x->b == "0") x->a = "Cx"; } for (auto& q : x->ch) q = put(q); return x; };
  for (auto& x : r.pos) { x.l = put(x.l); x.r = put(x.r); } for (auto& x : r.neg) { x.l = put(x.l); x.r = put(x.r); }
  G m = g; m.rules.clear(); std::vector<std::map<S, S>> maps = {{}};
  for (auto& B : bl) { std::vector<std::map<S, S>> next; std::vector<size_t> ix(B.v.size(), 0); std::vector<std::vector<size_t>> combos; std::function<void(size_t)> rec = [&](size_t i) { if (i == B.v.size()) { combos.push_back(ix); return; } for (size_t k = 0; k < B.val[i].size(); ++k) { ix[i] = k; rec(i + 1); } }; rec(0);
    for (auto& cb : combos) { bool ok = true; for (size_t i = 0; i < cb.size(); ++i) for (size_t j = 0; j < i; ++j) { if (B.mode == 1 && cb[i] != cb[j]) ok = false; if (B.mode == 2 && cb[i] == cb[j]) ok = false; } if (!ok) continue; for (auto& x : maps) { auto y = x; for (size_t i = 0; i < cb.size(); ++i) y[B.v[i]] = B.val[i][cb[i]]; next.push_back(y); } } maps = next; total = (int)maps.size(); }
  if (total == 0) discard("no way to choose the values"); if (total > 12) discard("many cases");
  for (auto& x : maps) { TRule t = r; t.center[0] = {x.count(t.center[0].first) ? x[t.center[0].first] : t.center[0].first, x.count(t.center[0].second) ? x[t.center[0].second] : t.center[0].second}; for (auto& y : t.pos) { y.l = subst(y.l, x); y.r = subst(y.r, x); } for (auto& y : t.neg) { y.l = subst(y.l, x); y.r = subst(y.r, x); } m.rules.push_back(t); }
  check(s, c, g, m, type(s), false, false, false);
}
// a <= rule gives way where a rule with a more specific context applies
LAW(specific_left, 250, 20) {
  Opt o; o.simple = true; o.neg = false; G g = genG(s, o); auto sets = g.set(); while (g.rules.size() < 2) g.rules.push_back(g.rules[0]);
  PR p = g.rules[0].center[0]; int id = 0; for (auto& r : g.rules) { r.name = "r" + std::to_string(id++); r.op = LEFT; r.multi = 0; r.center.resize(1); if (s.chance(3, 4)) r.center[0].first = p.first; if (r.center[0].first == "0" || sets.count(r.center[0].first)) r.center[0].first = "a"; if (r.center[0].second == "?" || sets.count(r.center[0].second)) r.center[0].second = "b"; }
  if (s.chance(1, 2) && !g.rules[0].pos.empty()) { Ctx x = g.rules[0].pos[0]; if (s.chance(1, 2)) x.l = mk(CAT); else x.r = mk(CAT); g.rules[1].pos = {x}; }
  struct Item { PR c; std::vector<Ctx> pos; std::vector<std::shared_ptr<Item>> minus; };
  auto items = std::make_shared<std::vector<Item>>(); auto done = std::make_shared<bool>(false);
  auto judge = [items, done, &g](const Ev& E, const std::vector<int>& w) {
    std::function<bool(const Item&, const std::vector<int>&, int, int)> in = [&](const Item& it, const std::vector<int>& x, int i, int j) -> bool { if (!inCtx(spots(E, it.pos, x), i, j, (int)x.size())) return false; for (auto& m : it.minus) if (in(*m, x, i, j)) return false; return true; };
    if (!*done) {   // who gives way to whom, over every context two symbols deep
      *done = true; int B = E.L.bnd; std::vector<std::pair<std::vector<int>, int>> sp; std::vector<std::vector<int>> sides = {{}}; for (int l = 0; l <= E.L.other; ++l) if (l != B) { sides.push_back({l}); for (int k = 0; k <= E.L.other; ++k) if (k != B) { sides.push_back({l, k}); sides.push_back({l, k, E.L.other}); sides.push_back({E.L.other, l, k}); } }
      for (auto& u : sides) for (auto& v : sides) { std::vector<int> x = {B}; x.insert(x.end(), u.begin(), u.end()); int i = (int)x.size(); x.insert(x.end(), v.begin(), v.end()); x.push_back(B); sp.push_back({x, i}); }
      for (auto& r : g.rules) { items->push_back({r.center[0], r.pos, {}}); int n = (int)items->size() - 1;
        for (int k = 0; k < n; ++k) if ((*items)[k].c.first == r.center[0].first) { bool ab = true, ba = true, meet = false; for (auto& x : sp) { bool a = in((*items)[k], x.first, x.second, x.second), b = in((*items)[n], x.first, x.second, x.second); meet |= a && b; if (b && !a) ab = false; if (a && !b) ba = false; } if (!meet) continue; if (ab) (*items)[k].minus.push_back(std::make_shared<Item>((*items)[n])); else if (ba) (*items)[n].minus.push_back(std::make_shared<Item>((*items)[k])); } }
    }
    int n = (int)w.size();
    for (int k = 0; k < (int)items->size(); ++k) { auto& it = (*items)[k]; P cp = mkp(it.c.first, it.c.second); Mx m = E.ev(cp, w), a = E.ev(loosen(cp, E), w); for (int i = 0; i <= n; ++i) for (int j = i; j <= n; ++j) if (a[i][j] && !m[i][j] && in(it, w, i, j)) return false; }
    return true;
  };
  check(s, c, g, g, type(s), true, false, true, judge);
}
// symbols declared as diacritics are skipped by rules that do not mention them
LAW(diacritics, 1200, 20) { Opt o; G g = genG(s, o); g.diac = {"%^1"}; g.diac[0] = "X"; if (s.chance(1, 2)) g.diac.push_back("{y}"); check(s, c, g, g, type(s), false, false, false); }
// lexicon and rules together
LAW(applied_to_lexicon, 2000, 20) {
  Opt o; G g = genG(s, o); for (auto& p : g.alpha) if (p.first == "0") p.first = "a"; for (auto& r : g.rules) for (auto& x : r.center) if (x.first == "0") x.first = "a";
  std::function<void(P&)> fix = [&](P& e) { if (!e) return; if (e->k == PAIR && e->a == "0") e->a = "a"; for (auto& x : e->ch) fix(x); }; for (auto& d : g.defs) fix(d.second); for (auto& r : g.rules) { for (auto& x : r.pos) { fix(x.l); fix(x.r); } for (auto& x : r.neg) { fix(x.l); fix(x.r); } }
  std::vector<S> up; for (auto& p : g.alpha) up.push_back(p.first); up.push_back("z");
  std::vector<S> lx; for (int n = 1 + s.below(4); n > 0; --n) { S w; for (int k = s.below(5); k > 0; --k) w += s.pick(up) + " "; lx.push_back(w); } for (auto& w : lx) c.show << "word: " << w << "\n";
  check(s, c, g, g, type(s), false, false, true, nullptr, lx);
}
}
int main(int argc, char** argv) { return hx::main(argc, argv, "C17", "some pair string is rejected by a rule"); }
