// C15: the regular expression compiler gives each expression its Xerox meaning
#include "hx.h"
#include "xre.h"
#include "parsers/XreCompiler.h"
using namespace hx;
using hfst::xre::XreCompiler;
static std::ostringstream* sink() { static std::ostringstream o; o.str(""); return &o; }
struct XC : XreCompiler { XC(ImplementationType t) : XreCompiler(t) { set_expand_definitions(true); set_error_stream(sink()); set_verbosity(false); } };
static std::vector<S> letters(Src& s) {
  static const std::vector<std::vector<S>> sets = {{"a", "b", "c"}, {"a", "b", "foo"}, {"a", "\xc3\xa4", "b"}, {"a", "+", "b"}, {"a", "x y", "0"}, {"a", "\x01?", "%"}, {"a", "ab", "b"}, {"a", "<N>", "\n"}, {"a", "10", ";"}, {"0a", "a", "b0"}};
  return sets[s.below(10)];
}
static void check(Univ& u, const X::P& e, HfstTransducer* r, ImplementationType t, bool weights, int L, Case& c, const S& what) {
  if (!r) fail(what + ": not compiled");
  std::unique_ptr<HfstTransducer> h(r); if (h->get_type() != t) fail(what + ": type changed");
  Spec g = fromHfst(*h);
  std::set<S> mentioned; X::symbols(e, mentioned); for (auto& x : g.alphabet()) if (!mentioned.count(x)) fail(what + ": symbol '" + x + "' came from nowhere");
  Fst want = X::eval(e, u), got = u.expand(g); Fst w = M::trim(want); c.nontrivial = w.st.size() > 2;
  if (!weights || t != TROPICAL_OPENFST_TYPE) { want = M::unweighted(want); got = M::unweighted(got); }
  ImplementationType ct = t == LOG_OPENFST_TYPE ? SFST_TYPE : t;
  sameRel(u, want, got, ct, L, what);
}
static void one(Src& s, Case& c, bool transd) {
  ImplementationType t = s.chance(1, 2) ? TROPICAL_OPENFST_TYPE : genType(s, false);
  X::Gen g{s, letters(s)}; g.weights = s.chance(1, 3); if (transd) { int k = s.below(4); g.inWild = k == 1 || k == 3; g.outWild = k == 2 || k == 3; }
  if (t == FOMA_TYPE) g.inWild = g.outWild = false;   // libfoma's projection writes out of bounds when it meets unknown symbols
  int d = 1 + s.below(3); X::P e = transd ? g.tra(d, true) : g.acc(d, true);
  X::Render r; r.s = &s; r.extra = s.pick(std::vector<int>{0, 15}); if (s.chance(1, 4)) r.ws = {" ", "  ", "\n", "\t", " ! comment\n"};
  S text = r.out(e, 0); if (s.chance(1, 2)) text += " ;";
  c.show << tname(t) << " " << text; c.at("compile");
  Univ u; std::set<S> y; X::symbols(e, y); u.addAll(y); u.fresh(2);
  Fst pre = X::eval(e, u);   // too big for the model: not worth compiling
  XC xc(t);
  if (s.chance(1, 6)) { S bad = s.pick(std::vector<S>{"[ a", "a ]", "a .o.", "~", "\"abc", "a ^", "a -> b ||", "foo(a)", "a:b:c"}); c.show << " (after '" << bad << "')"; HfstTransducer* z = nullptr; try { z = xc.compile(bad); } catch (const HfstException&) {} if (z) fail("malformed '" + bad + "' was compiled"); }
  check(u, e, xc.compile(text), t, g.weights, 4, c, "compile");
}
LAW(languages, 30000, 20) { one(s, c, false); }
LAW(relations, 30000, 20) { one(s, c, true); }

// ---- definitions, functions, files ------------------------------------------
static X::P clone(const X::P& p, const std::map<S, X::P>& sub) {
  if (!p) return p;
  if (p->k == X::NAMED && sub.count(p->a)) return sub.at(p->a);
  auto q = std::make_shared<X::Node>(*p); for (auto& x : q->ch) x = clone(x, sub); return q;
}
static X::P named(const S& text, X::P body) { auto p = X::leaf(X::NAMED, text); p->ch = {body}; return p; }
struct Env { std::vector<std::pair<S, X::P>> defs; };
LAW(definitions, 6000, 20) {
  ImplementationType t = s.chance(1, 2) ? TROPICAL_OPENFST_TYPE : genType(s, false);
  auto L = letters(s); XC xc(t); S log; X::Render r; r.s = &s;
  static const std::vector<S> names = {"Foo", "B", "Vowel", "x1", "F"};
  struct Fn { S name; int n; X::P body; }; std::vector<Fn> fns; std::map<S, X::P> defs;
  auto gen = [&](int d, bool transd, std::vector<X::P> extra = {}) {
    X::Gen g{s, L}; g.budget = 7; for (auto& x : defs) g.named.push_back(named(x.first, x.second)); for (auto& x : extra) g.named.push_back(x), g.named.push_back(x);
    for (auto& f : fns) {
      std::vector<X::P> as; S tx = f.name + "("; std::map<S, X::P> sub;
      for (int i = 0; i < f.n; ++i) { X::P a = s.chance(1, 2) && !g.named.empty() ? s.pick(g.named) : s.chance(1, 2) ? g.sym() : g.acc(1, false); tx += (i ? ", " : "") + r.out(a, 5); sub["\"@" + f.name + "(" + std::to_string(i + 1) + "@\""] = a; }
      g.named.push_back(named(tx + ")", clone(f.body, sub)));
    }
    g.budget = 7;
    return transd ? g.tra(d, false) : g.acc(d, false);
  };
  Univ u; std::vector<std::pair<X::P, S>> results; int ops = 2 + s.below(5);
  struct Step { int kind; S name, text; X::P e; int n; }; std::vector<Step> steps;
  // generated first, so that the universe is known
  for (int i = 0; i < ops; ++i) {
    int k = i + 1 == ops ? 4 : s.below(5);
    Step st; st.kind = k; st.n = 0;
    if (k <= 1) { st.name = s.pick(names); st.e = gen(2, false); st.text = r.out(st.e, 0); defs[st.name] = st.e; }
    else if (k == 2) {
      st.name = s.pick(std::vector<S>{"Fn", "G", "Twice"}); st.n = 1 + s.below(2); bool dup = false; for (auto& f : fns) dup |= f.name == st.name; if (dup) continue;
      std::vector<X::P> ph; for (int j = 1; j <= st.n; ++j) ph.push_back(X::leaf(X::NAMED, "\"@" + st.name + "(" + std::to_string(j) + "@\""));
      st.e = gen(2, false, ph); st.text = r.out(st.e, 0);
      // definitions inside a body are looked up at the call: keep them out
      std::function<bool(const X::P&)> has = [&](const X::P& p) { if (!p) return false; if (p->k == X::NAMED && !p->ch.empty()) return true; for (auto& q : p->ch) if (has(q)) return true; return false; };
      if (has(st.e)) continue;
      fns.push_back({st.name, st.n, st.e});
    }
    else if (k == 3) { if (defs.empty()) continue; st.name = defs.begin()->first; defs.erase(st.name); }
    else { st.e = gen(1 + s.below(2), s.chance(1, 3)); st.text = r.out(st.e, 0); }
    steps.push_back(st);
  }
  { std::set<S> y; for (auto& st : steps) if (st.e && st.kind != 2) X::symbols(st.e, y); for (auto& f : fns) X::symbols(f.body, y); u.addAll(y); u.fresh(2); }
  c.show << tname(t);
  for (auto& st : steps) {
    c.show << "\n" << (st.kind <= 1 ? "define " : st.kind == 2 ? "function " : st.kind == 3 ? "undefine " : "compile ") << st.name << (st.n ? "/" + std::to_string(st.n) : S()) << " " << st.text;
    if (st.kind == 4 || st.kind <= 1) X::eval(st.e, u);
  }
  for (auto& st : steps) {
    c.at(st.text);
    if (st.kind == 0) { if (!xc.define(st.name, st.text)) fail("definition of " + st.name + " refused"); if (!xc.is_definition(st.name)) fail("not a definition"); }
    else if (st.kind == 1) { HfstTransducer* h = xc.compile(st.text); if (!h) fail("definition body not compiled"); xc.define(st.name, *h); delete h; }
    else if (st.kind == 2) { S q = st.text; if (!xc.define_function(st.name + "(", (unsigned)st.n, st.text)) fail("function refused"); }
    else if (st.kind == 3) { xc.undefine(st.name); if (xc.is_definition(st.name)) fail("still defined"); }
    else check(u, st.e, xc.compile(st.text), t, false, 4, c, "compile " + st.text);
  }
}
// several expressions in one text, read one by one
LAW(sequences, 3000, 20) {
  ImplementationType t = s.chance(1, 2) ? TROPICAL_OPENFST_TYPE : genType(s, false); XC xc(t);
  auto L = letters(s); X::Render r; r.s = &s; r.ws = {" ", "\n", "\t", " ! a ; comment\n", " # b\n"}; int n = 2 + s.below(3); std::vector<X::P> es; std::vector<S> tx; S all; Univ u; std::set<S> y;
  for (int i = 0; i < n; ++i) { X::Gen g{s, L}; g.budget = 6; es.push_back(g.acc(2, false)); tx.push_back(r.out(es.back(), 0) + r.sp() + ";"); all += tx.back() + (s.chance(1, 2) ? r.sp() : S()); X::symbols(es.back(), y); }
  u.addAll(y); u.fresh(2); for (auto& e : es) X::eval(e, u);
  c.show << tname(t) << " " << all; size_t off = 0;
  for (int i = 0; i < n; ++i) { unsigned nr = 0; c.at("expression " + std::to_string(i)); HfstTransducer* h = xc.compile_first(all.substr(off), nr); if (nr == 0 || nr > all.size() - off) fail("characters read: " + std::to_string(nr)); check(u, es[i], h, t, false, 4, c, "expression " + std::to_string(i)); off += nr; }
}
// @bin"", @txt"", @stxt"", @pl"", @re""
LAW(files, 2500, 20) {
  ImplementationType t = s.chance(1, 2) ? TROPICAL_OPENFST_TYPE : genType(s, false); XC xc(t);
  auto L = letters(s); for (auto& x : L) if (x == "\n") x = "\xc3\xb6"; Univ u; int kind = s.below(5); S f = pbt::scratch_dir + "/x.in"; Fst want; X::Render r; r.s = &s; S show; std::set<S> y(L.begin(), L.end());
  static const char* op[] = {"@bin", "@txt", "@stxt", "@pl", "@re"};
  X::Gen g{s, L}; g.budget = 6; X::P e = g.acc(2, false); X::symbols(e, y); X::Gen g2{s, L}; g2.budget = 4; X::P e2 = g2.acc(1, false); X::symbols(e2, y);
  int nw = s.below(5); std::vector<std::vector<S>> words; std::vector<S> wl = {"a", "b", "c", "\xc3\xa4", "d"}; if (kind == 2) wl = {"a", "foo", "\xc3\xa4", "b+", "xyz"};
  for (int i = 0; i < nw; ++i) { std::vector<S> w; int l = s.chance(1, 8) ? 300 + s.below(1500) : 1 + s.below(4); for (int j = 0; j < l; ++j) w.push_back(wl[l > 10 ? (j * 7 + i) % 5 : s.below(5)]); words.push_back(w); }
  for (auto& x : wl) y.insert(x);
  u.addAll(y); u.fresh(2);
  c.show << tname(t) << " " << op[kind] << " "; 
  if (kind == 0 || kind == 3 || kind == 4) {
    want = X::eval(e, u); S tx = r.out(e, 0); c.show << tx;
    if (kind == 4) writeFile(f, tx + (s.chance(1, 2) ? " ;\n" : "\n"));
    else { HfstTransducer* h = xc.compile(tx); if (!h) fail("not compiled"); std::unique_ptr<HfstTransducer> hh(h);
      if (kind == 0) { HfstOutputStream o(f, t); o << *h; o.close(); }
      else { std::ostringstream o; HfstBasicTransducer b(*h); b.write_in_prolog_format(o, "x", false); S z = o.str(); if (z.find("\"%0\"") != S::npos || z.find("\"%?\"") != S::npos) discard("prolog quoting"); writeFile(f, z); } }
  } else {
    S d; want = M::empty(); for (auto& w : words) { std::vector<int> v; for (size_t i = 0; i < w.size(); ++i) { d += (kind == 2 && i ? " " : "") + w[i]; v.push_back(u.sym(w[i])); } d += "\n"; want = M::unite(want, M::word(v, v)); c.show << (w.size() > 10 ? "long(" + std::to_string(w.size()) + ")" : [&] { S z; for (auto& q : w) z += q + "."; return z; }()) << " "; }
    writeFile(f, d);
  }
  bool more = s.chance(1, 2); S text = S(op[kind]) + "\"" + f + "\""; c.at("compile");
  if (more) { text = "[" + text + "] | " + r.out(e2, 6); want = M::unite(want, X::eval(e2, u)); c.show << " | " << r.out(e2, 6); }
  HfstTransducer* h = xc.compile(text); if (!h) fail("not compiled"); std::unique_ptr<HfstTransducer> hh(h);
  c.nontrivial = M::trim(want).st.size() > 2;
  size_t longest = 0; for (auto& w : words) longest = std::max(longest, w.size());
  if ((kind == 1 || kind == 2) && longest > 10) { HfstTransducer q(*h); q.convert(TROPICAL_OPENFST_TYPE); Fst got = u.expand(fromHfst(q)); if (M::trim(M::pairSubtract(M::unweighted(got), M::unweighted(want))).st.size() > 1 || M::trim(M::pairSubtract(M::unweighted(want), M::unweighted(got))).st.size() > 1) fail("a long line was read as something else"); return; }
  sameRel(u, M::unweighted(want), M::unweighted(u.expand(fromHfst(*h))), t, 4, text);
}
// `[A, x, y z]
LAW(substitution, 3000, 20) {
  ImplementationType t = s.chance(1, 2) ? TROPICAL_OPENFST_TYPE : genType(s, false); XC xc(t);
  std::vector<S> L = {"a", "b", "c"}; X::Gen g{s, L}; g.closed = true; g.budget = 7; X::P e = g.acc(2, false);
  for (int k = s.below(4); k > 0; --k) { X::P q = g.pairLeaf(); if (s.chance(1, 4)) q = X::mk(X::STAR, {q}); e = X::mk(s.chance(1, 2) ? X::UNION : X::CONCAT, {e, q}); }
  S x = s.pick(L); std::vector<S> to; int n = s.below(3); static const std::vector<S> T = {"d", "b", "foo", "a"}; for (int i = 0; i < n; ++i) { S z = s.pick(T); if (z != x) to.push_back(z); }
  X::Render r; r.s = &s; S text = "`[" + r.out(e, 5) + ", " + x + ","; for (auto& z : to) text += " " + z; text += "]";
  c.show << tname(t) << " " << text; c.at("compile");
  Univ u; u.addAll({"a", "b", "c", "d", "foo"}); u.fresh(1); Fst f = X::eval(e, u), w; c.nontrivial = f.st.size() > 2;
  for (size_t i = 0; i < f.st.size(); ++i) w.add(f.fin[i]);
  int xi = u.sym(x); std::vector<int> ti; for (auto& z : to) ti.push_back(u.sym(z));
  for (size_t i = 0; i < f.st.size(); ++i) for (auto& a : f.st[i]) { auto im = [&](int y) { return y == xi ? ti : std::vector<int>{y}; };
    if (a.i == xi && a.o == xi) for (int z : ti) w.arc((int)i, z, z, a.to, a.w); else for (int p : im(a.i)) for (int q : im(a.o)) w.arc((int)i, p, q, a.to, a.w); }
  HfstTransducer* h = xc.compile(text); if (!h) fail("not compiled"); std::unique_ptr<HfstTransducer> hh(h);
  sameRel(u, M::unweighted(w), M::unweighted(u.expand(fromHfst(*h))), t, 4, text);
}
int main(int argc, char** argv) { return hx::main(argc, argv, "C15", "the expression's minimal useful part has more than two states in the model"); }
