// Xerox regular expressions: syntax trees, their text, and their meaning in the reference model.
#pragma once
#include "hx.h"
#include <memory>
namespace X {
using M::S; using M::Fst; using M::Univ; using pbt::Src;
enum K { SYM, ANY, EPS0, CURLY, PAIR, UNION, CONCAT, STAR, PLUS, OPT, POW, POWGT, POWLT, POWNK, INTER, MINUS, COMPL, TCOMPL, CONT, CONT1, CONTOPT, BEFORE, AFTER, IGNORE, RESTR, REV, INV, UP, LO, COMP, CROSS, UPRI, LPRI, LENIENT, WEIGHT, BPAIR, NAMED };
struct Node; typedef std::shared_ptr<Node> P;
struct Node {
  K k; std::vector<P> ch; S a, b; int n = 0, m = 0; double w = 0; int style = 0;
};
inline P mk(K k, std::vector<P> ch = {}) { auto p = std::make_shared<Node>(); p->k = k; p->ch = std::move(ch); return p; }
inline P leaf(K k, const S& a, const S& b = "") { auto p = mk(k); p->a = a; p->b = b; return p; }

// ---- text -------------------------------------------------------------------
inline S quoted(const S& x) { S r = "\""; for (char c : x) { if (c == '\n') { r += "\\n"; continue; } if (c == '\t') { r += "\\t"; continue; } if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
inline S percent(const S& x) {
  static const S sp = "- |<>%!,^:\";@0~\\&?$+*/_(){}][.#="; S r;
  for (char c : x) { if (sp.find(c) != S::npos) r += '%'; r += c; }
  return r;
}
// a symbol in one of its spellings
inline S symText(const S& x, int style) {
  if (x == "?" || x.empty()) return x.empty() ? (style % 3 == 1 ? "\"\"" : style % 3 == 2 ? "[]" : "0") : "?";
  S y = x == "\x01?" ? S("?") : x;
  bool can = x.find('"') == S::npos;
  if (style % 3 == 1 && can) return quoted(y);
  if (style % 3 == 2 && y.size() == 1 && isalpha((unsigned char)y[0])) return "%" + y;
  if (y.find('\n') != S::npos || y.find('\t') != S::npos) return quoted(y);
  return percent(y);
}
// binding level of each construct: higher binds tighter
inline int level(const Node& n) {
  switch (n.k) {
    case COMP: case CROSS: case LENIENT: return 1;
    case BEFORE: case AFTER: return 3;
    case RESTR: return 4;
    case UNION: case INTER: case MINUS: case UPRI: case LPRI: return 5;
    case CONCAT: return 6;
    case IGNORE: return 7;
    case COMPL: case CONT: case CONT1: case CONTOPT: return 8;
    case STAR: case PLUS: case POW: case POWGT: case POWLT: case POWNK: case REV: case INV: case UP: case LO: return 9;
    case TCOMPL: return 10;
    default: return 11;
  }
}
struct Render {
  Src* s = nullptr; int extra = 0;      // per cent of redundant brackets
  std::vector<S> ws = {" "};
  S sp() { return s ? ws[s->below((uint32_t)ws.size())] : S(" "); }
  S out(const P& p, int lvl) {
    S t = raw(p);
    bool br = level(*p) < lvl || (extra && s && (int)s->below(100) >= 100 - extra);
    return br ? "[" + sp() + t + sp() + "]" : t;
  }
  S bin(const P& p, const char* op, int l) { return out(p->ch[0], l) + sp() + op + sp() + out(p->ch[1], l + 1); }
  S raw(const P& p) {
    auto& n = *p;
    switch (n.k) {
      case SYM: return symText(n.a, n.style);
      case ANY: return "?";
      case EPS0: return symText("", n.style);
      case CURLY: return "{" + n.a + "}";
      case PAIR: return symText(n.a, n.style % 3) + (n.style % 4 == 3 ? " : " : ":") + symText(n.b, n.style / 3 % 3);
      case BPAIR: { auto half = [&](const P& q, int) { if (q->k == SYM || q->k == CURLY) return raw(q); return "[" + sp() + out(q, 0) + sp() + "]"; }; return half(n.ch[0], 0) + ":" + half(n.ch[1], 0); }
      case UNION: return bin(p, "|", 5);
      case INTER: return bin(p, "&", 5);
      case MINUS: return bin(p, "-", 5);
      case UPRI: return bin(p, ".P.", 5);
      case LPRI: return bin(p, ".p.", 5);
      case CONCAT: return out(n.ch[0], 6) + sp() + out(n.ch[1], 7);
      case IGNORE: return bin(p, "/", 7);
      case COMPL: return "~" + sp() + out(n.ch[0], 8);
      case CONT: return "$" + sp() + out(n.ch[0], 8);
      case CONT1: return "$." + sp() + out(n.ch[0], 8);
      case CONTOPT: return "$?" + sp() + out(n.ch[0], 8);
      case TCOMPL: return "\\" + sp() + out(n.ch[0], 10);
      case STAR: return out(n.ch[0], 9) + (n.style & 1 ? " *" : "*");
      case PLUS: return out(n.ch[0], 9) + (n.style & 1 ? " +" : "+");
      case POW: return out(n.ch[0], 9) + "^" + std::to_string(n.n);
      case POWGT: return out(n.ch[0], 9) + "^>" + std::to_string(n.n);
      case POWLT: return out(n.ch[0], 9) + "^<" + std::to_string(n.n);
      case POWNK: return out(n.ch[0], 9) + (n.style & 1 ? "^" + std::to_string(n.n) + "," + std::to_string(n.m) : "^{" + std::to_string(n.n) + "," + std::to_string(n.m) + "}");
      case REV: return out(n.ch[0], 9) + ".r";
      case INV: return out(n.ch[0], 9) + ".i";
      case UP: return out(n.ch[0], 9) + ".u";
      case LO: return out(n.ch[0], 9) + ".l";
      case OPT: return "(" + sp() + out(n.ch[0], 0) + sp() + ")";
      case COMP: return bin(p, ".o.", 1);
      case CROSS: return bin(p, ".x.", 1);
      case LENIENT: return bin(p, ".O.", 1);
      case BEFORE: return bin(p, "<", 3);
      case AFTER: return bin(p, ">", 3);
      case RESTR: {
        S t = out(n.ch[0], 5) + sp() + "=>" + sp();
        for (size_t i = 1; i + 1 < n.ch.size(); i += 2) { if (i > 1) t += sp() + "," + sp(); if (n.ch[i]) t += out(n.ch[i], 5) + sp(); t += "_"; if (n.ch[i + 1]) t += sp() + out(n.ch[i + 1], 5); }
        return t;
      }
      case WEIGHT: { char b[32]; snprintf(b, sizeof b, "::%g", n.w); if (n.ch[0]->k == SYM || n.ch[0]->k == PAIR) return raw(n.ch[0]) + b; return "[" + sp() + out(n.ch[0], 0) + sp() + "]" + b; }
      case NAMED: return n.a;
    }
    return "";
  }
};

// ---- meaning ----------------------------------------------------------------
inline std::vector<S> chars(const S& x) { std::vector<S> r; for (size_t i = 0; i < x.size();) { unsigned char c = x[i]; size_t l = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; r.push_back(x.substr(i, l)); i += l; } return r; }
inline S realSym(const S& x) { return x == "\x01?" ? S("?") : x; }
inline void symbols(const P& p, std::set<S>& r) {
  auto add = [&](const S& x) { if (!x.empty() && x != "?") r.insert(realSym(x)); };
  if (p->k == SYM) add(p->a);
  if (p->k == PAIR) { add(p->a); add(p->b); }
  if (p->k == CURLY) for (auto& x : chars(p->a)) r.insert(x);
  if (p->k != NAMED) for (auto& q : p->ch) if (q) symbols(q, r);
  if (p->k == NAMED) for (auto& q : p->ch) if (q) symbols(q, r);
}
inline Fst cap(Fst f) { if (f.st.size() > 400) throw M::TooBig(); return f; }
inline Fst tr(const Fst& f) { return cap(M::trim(f)); }
inline Fst any1(const Univ& u) { Fst f; f.add(); f.add(0); for (int i = 1; i <= u.size(); ++i) f.arc(0, i, i, 1); return f; }
inline Fst compl_(const Fst& a, const Univ& u) { return tr(M::complement(tr(M::unweighted(a)), u)); }
inline Fst inter(const Fst& a, const Fst& b) { return tr(M::pairIntersect(a, b)); }
inline Fst cat(std::initializer_list<Fst> l) { Fst r = M::epsilon(); for (auto& x : l) r = M::concat(r, x); return tr(r); }
// deterministic acceptor of the same (unweighted) language
inline Fst contains(const Fst& a, const Univ& u) { Fst S_ = M::sigmaStar(u); return cat({S_, a, S_}); }
inline Fst once(const Fst& a, const Univ& u) {
  Fst S_ = M::sigmaStar(u), P_ = M::plus(any1(u));
  Fst t1 = inter(cat({P_, a, S_}), cat({a, S_})), t3 = inter(cat({a, P_}), a);
  return inter(contains(a, u), compl_(contains(M::unite(t1, t3), u), u));
}
inline Fst ignore(const Fst& a, const Fst& b) {   // a with any number of b anywhere
  Fst r = a; Fst sb = b; size_t n = a.st.size();
  for (size_t q = 0; q < n; ++q) { int off = (int)r.st.size(); for (size_t i = 0; i < sb.st.size(); ++i) r.add();
    r.arc((int)q, 0, 0, off); for (size_t i = 0; i < sb.st.size(); ++i) { for (auto& x : sb.st[i]) r.arc(off + (int)i, x.i, x.o, off + x.to, x.w); if (sb.fin[i] < M::INF) r.arc(off + (int)i, 0, 0, (int)q, sb.fin[i]); } }
  return cap(r);
}
inline Fst priority(const Fst& q, const Fst& r, const Univ& u) { return tr(M::unite(q, M::compose(compl_(M::projIn(q), u), r))); }
// every part in a stands between a left and a right context of one pair
inline Fst restrictTo(const Fst& a, const std::vector<std::pair<Fst, Fst>>& cx, const Univ& u) {
  Fst S_ = M::sigmaStar(u), bad = M::empty(); size_t n = cx.size();
  std::vector<Fst> nl, nr; for (auto& x : cx) { nl.push_back(compl_(cat({S_, x.first}), u)); nr.push_back(compl_(cat({x.second, S_}), u)); }
  for (size_t m = 0; m < (1u << n); ++m) {
    Fst l = S_, r = S_; for (size_t i = 0; i < n; ++i) if (m >> i & 1) l = inter(l, nl[i]); else r = inter(r, nr[i]);
    bad = M::unite(bad, cat({l, a, r}));
  }
  return compl_(bad, u);
}
inline Fst eval(const P& p, Univ& u) {
  auto& n = *p; auto E = [&](int i) { return eval(n.ch[i], u); };
  auto side = [&](const S& x) { std::vector<int> r; if (x == "?") for (int i = 1; i <= u.size(); ++i) r.push_back(i); else r.push_back(x.empty() ? 0 : u.sym(realSym(x))); return r; };
  switch (n.k) {
    case SYM: { Fst f; f.add(); f.add(0); int i = u.sym(realSym(n.a)); f.arc(0, i, i, 1); return f; }
    case ANY: return any1(u);
    case EPS0: return M::epsilon();
    case CURLY: { std::vector<int> w; for (auto& x : chars(n.a)) w.push_back(u.sym(x)); return M::word(w, w); }
    case PAIR: { Fst f; f.add(); f.add(0); for (int i : side(n.a)) for (int o : side(n.b)) f.arc(0, i, o, 1); return f; }
    case BPAIR: case CROSS: return tr(M::cross(E(0), E(1)));
    case UNION: return tr(M::unite(E(0), E(1)));
    case CONCAT: return tr(M::concat(E(0), E(1)));
    case STAR: return cap(M::star(E(0)));
    case PLUS: return cap(M::plus(E(0)));
    case OPT: return cap(M::opt(E(0)));
    case POW: return tr(M::power(E(0), n.n));
    case POWGT: return tr(M::concat(M::power(E(0), n.n + 1), M::star(E(0))));
    case POWLT: { Fst e = E(0), r = M::empty(); for (int i = 0; i < n.n; ++i) r = M::unite(r, M::power(e, i)); return tr(r); }
    case POWNK: { Fst e = E(0), r = M::empty(); for (int i = n.n; i <= n.m; ++i) r = M::unite(r, M::power(e, i)); return tr(r); }
    case INTER: return inter(E(0), E(1));
    case MINUS: return tr(M::pairSubtract(E(0), E(1)));
    case COMPL: return compl_(E(0), u);
    case TCOMPL: return tr(M::pairSubtract(any1(u), E(0)));
    case CONT: return contains(E(0), u);
    case CONT1: return once(E(0), u);
    case CONTOPT: { Fst e = E(0); return tr(M::unite(once(e, u), compl_(contains(e, u), u))); }
    case BEFORE: { Fst a = E(0), b = E(1); return compl_(contains(cat({b, M::sigmaStar(u), a}), u), u); }
    case AFTER: { Fst a = E(0), b = E(1); return compl_(contains(cat({a, M::sigmaStar(u), b}), u), u); }
    case IGNORE: return ignore(E(0), E(1));
    case RESTR: { Fst ce = E(0); if (!M::trim(M::pairIntersect(ce, M::epsilon())).st.empty() && M::rel(M::pairIntersect(ce, M::epsilon()), 0, 0).size()) pbt::discard("restriction of the empty string"); std::vector<std::pair<Fst, Fst>> cx; for (size_t i = 1; i + 1 < n.ch.size(); i += 2) cx.push_back({n.ch[i] ? E((int)i) : M::epsilon(), n.ch[i + 1] ? E((int)i + 1) : M::epsilon()}); return restrictTo(ce, cx, u); }
    case REV: return cap(M::reverse(E(0)));
    case INV: return M::invert(E(0));
    case UP: return M::projIn(E(0));
    case LO: return M::projOut(E(0));
    case COMP: return tr(M::compose(E(0), E(1)));
    case UPRI: return priority(E(0), E(1), u);
    case LPRI: return M::invert(priority(M::invert(E(0)), M::invert(E(1)), u));
    case LENIENT: { Fst a = E(0); return priority(tr(M::compose(a, E(1))), a, u); }
    case WEIGHT: return M::concat(E(0), M::epsilon(n.w));
    case NAMED: return E(0);
  }
  return M::empty();
}

// ---- generator --------------------------------------------------------------
struct Gen {
  Src& s; std::vector<S> letters; bool inWild = false, outWild = false, weights = false; std::vector<P> named;   // named: definitions usable as acceptors
  int budget = 12; bool closed = false;   // closed: no constructs that speak of symbols not mentioned
  P sym() { auto p = leaf(SYM, s.pick(letters)); p->style = s.below(9); return p; }
  S curly() { S r; int n = 1 + s.below(3); static const std::vector<S> l = {"a", "b", "c", "\xc3\xa4"}; for (int i = 0; i < n; ++i) r += s.pick(l); return r; }
  P wt(P p, bool w) { if (w && weights && s.chance(1, 3)) { auto q = mk(WEIGHT, {p}); q->w = s.pick(std::vector<double>{1, 2, 0.5, 3.25, 0}); return q; } return p; }
  P acc(int d, bool w) {
    --budget;
    if (d <= 0 || budget <= 0) {
      switch (s.weighted({10, closed ? 0 : 3, 1, 2, closed ? 0 : (int)named.size() * 3})) { case 0: return wt(sym(), w); case 1: return mk(ANY); case 2: { auto p = mk(EPS0); p->style = s.below(3); return p; } case 3: return leaf(CURLY, curly()); default: return s.pick(named); }
    }
    auto p = [&](K k, bool cw, int n = 1) { std::vector<P> c; for (int i = 0; i < n; ++i) c.push_back(acc(d - 1, cw)); auto q = mk(k, c); q->style = s.below(4); return q; };
    int o = closed ? 0 : 1;
    switch (s.weighted({12, 12, 5, 4, 5, 4, 5, 5, 5 * o, 4 * o, 3 * o, 3 * o, 2 * o, 2 * o, 2 * o, 3 * o, 4 * o, 2, 3 * o, 4})) {
      case 0: return wt(p(UNION, w, 2), w);
      case 1: return p(CONCAT, w, 2);
      case 2: return p(STAR, false);
      case 3: return p(PLUS, false);
      case 4: return p(OPT, w);
      case 5: { int k = s.below(4); auto q = p(k == 0 ? POW : k == 1 ? POWGT : k == 2 ? POWLT : POWNK, k == 0 && w); q->n = s.below(4); if (k == 2) q->n++; q->m = q->n + s.below(3); return q; }
      case 6: return p(INTER, false, 2);
      case 7: return p(MINUS, false, 2);
      case 8: return p(COMPL, false);
      case 9: { auto q = mk(TCOMPL, {s.chance(2, 3) ? sym() : acc(1, false)}); return q; }
      case 10: return p(CONT, false);
      case 11: return p(CONT1, false);
      case 12: return p(CONTOPT, false);
      case 13: return p(BEFORE, false, 2);
      case 14: return p(AFTER, false, 2);
      case 15: return p(IGNORE, false, 2);
      case 16: { std::vector<P> c{acc(d - 1, false)}; int n = 1 + s.below(2); closed = true; for (int i = 0; i < n; ++i) { c.push_back(s.chance(1, 4) ? P() : acc(d - 2, false)); c.push_back(!c.back() || s.chance(3, 4) ? acc(d - 2, false) : P()); } closed = false; return mk(RESTR, c); }
      case 17: return p(REV, w);
      case 18: return mk(s.chance(1, 2) ? UP : LO, {tra(d - 1, w)});
      default: return closed || s.chance(1, 2) ? sym() : mk(ANY);
    }
  }
  P pairLeaf() {
    std::vector<S> l = letters; l.push_back("");
    S a = s.pick(l), b = s.pick(l); if (inWild && s.chance(1, 4)) a = "?"; if (outWild && s.chance(1, 4)) b = "?";
    auto p = leaf(PAIR, a, b); p->style = s.below(36); return p;
  }
  P side(int d, bool wild) { bool o = closed; closed = closed || !wild; P p = acc(d, false); closed = o; return p; }
  P tra(int d, bool w) {
    --budget;
    if (d <= 0 || budget <= 0) return s.chance(2, 3) ? wt(pairLeaf(), w) : acc(0, w);
    auto p = [&](K k, bool cw, int n = 1) { std::vector<P> c; for (int i = 0; i < n; ++i) c.push_back(tra(d - 1, cw)); auto q = mk(k, c); q->style = s.below(4); return q; };
    bool comp = !(inWild && outWild);
    switch (s.weighted({6, 10, 8, 3, 3, 4, 3, comp ? 9 : 0, 4, 4, 3, 2, comp ? 3 : 0, comp ? 2 : 0, 2, 5, 3})) {
      case 0: return wt(pairLeaf(), w);
      case 1: return wt(p(UNION, w, 2), w);
      case 2: return p(CONCAT, w, 2);
      case 3: return p(STAR, false);
      case 4: return p(PLUS, false);
      case 5: return p(OPT, w);
      case 6: { int k = s.below(4); auto q = p(k == 0 ? POW : k == 1 ? POWGT : k == 2 ? POWLT : POWNK, k == 0 && w); q->n = s.below(3); if (k == 2) q->n++; q->m = q->n + s.below(2); return q; }
      case 7: return p(COMP, w, 2);
      case 8: { P a = side(d - 1, inWild), b = side(d - 1, outWild); return mk(CROSS, {a, b}); }
      case 9: { auto half = [&](bool w) -> P { int k = s.below(4); return k == 0 ? sym() : k == 1 ? leaf(CURLY, curly()) : side(d - 1, w); }; P x = half(inWild), y = half(outWild); auto q = mk(BPAIR, {x, y}); if (q->ch[0]->k == SYM && q->ch[1]->k == SYM) q->ch[0] = leaf(CURLY, curly()); if (q->ch[0]->k == ANY) q->ch[0] = sym(); return q; }
      case 10: { std::swap(inWild, outWild); auto q = p(INV, w); std::swap(inWild, outWild); return q; }
      case 11: return p(REV, w);
      case 12: return p(s.chance(1, 2) ? UPRI : LPRI, w, 2);
      case 13: return p(LENIENT, false, 2);
      case 14: return mk(IGNORE, {acc(d - 1, false), acc(d - 2, false)});
      case 15: return acc(d, w);
      default: return mk(CONT, {tra(d - 1, false)});
    }
  }
};
}
