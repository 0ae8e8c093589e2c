// C16: replace rules rewrite exactly the parts they describe (checked by brute force over words)
#include "hx.h"
#include "xre.h"
#include "parsers/XreCompiler.h"
#include <cstring>
using namespace hx;
using hfst::xre::XreCompiler;
static std::ostringstream* sink() { static std::ostringstream o; o.str(""); return &o; }
struct XC : XreCompiler { XC(ImplementationType t) : XreCompiler(t) { set_expand_definitions(true); set_error_stream(sink()); set_verbosity(false); } };
typedef std::string W;   // word: bytes are symbol ids; BOS/EOS marks for contexts
enum { MARK = 120 };

// membership of words in a language, by running the automaton
struct Lang {
  Fst f; std::map<W, bool> memo;
  static void close(const Fst& f, std::set<int>& q) { std::vector<int> st(q.begin(), q.end()); while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto& a : f.st[x]) if (!a.i && !a.o && q.insert(a.to).second) st.push_back(a.to); } }
  bool has(const W& w) {
    auto it = memo.find(w); if (it != memo.end()) return it->second;
    bool r = false; if (!f.st.empty()) { std::set<int> q{0}; close(f, q); for (unsigned char ch : w) { std::set<int> n; for (int x : q) for (auto& a : f.st[x]) if (a.i == ch) n.insert(a.to); close(f, n); q = n; } for (int x : q) r |= f.fin[x] < M::INF; }
    return memo[w] = r;
  }
};
struct Ctx { Lang l, r; };     // languages over symbols and MARK
struct Map { Lang a; std::vector<std::pair<W, double>> b; bool markup = false, dotted = false; std::vector<std::pair<W, double>> ml, mr; };
struct RuleM { std::vector<Map> maps; std::vector<Ctx> cx; int ctype = 0; };   // 0 up-up, 1 // , 2 \\ , 3 \/
struct Seg { int rule, map, from, to; int ofrom, oto; };

struct Oracle {
  std::vector<RuleM>& R; size_t maxOut; long steps = 0;
  Oracle(std::vector<RuleM>& r, size_t m) : R(r), maxOut(m) {}
  bool ctxOk(RuleM& r, const W& x, int i, int j, const W& y, int p, int q) {
    if (r.cx.empty()) return true;
    // left side seen up to i on the upper word or p on the lower word
    W xm = W(1, (char)MARK) + x + W(1, (char)MARK), ym = W(1, (char)MARK) + y + W(1, (char)MARK);
    bool ll = r.ctype == 1 || r.ctype == 3, rl = r.ctype == 2 || r.ctype == 3;
    W left = ll ? ym.substr(0, p + 1) : xm.substr(0, i + 1), right = rl ? ym.substr(q + 1) : xm.substr(j + 1);
    for (auto& c : r.cx) {
      bool a = false, b = false;
      for (size_t k = 0; k <= left.size() && !a; ++k) a = c.l.has(left.substr(k));
      if (!a) continue;
      for (size_t k = 0; k <= right.size() && !b; ++k) b = c.r.has(right.substr(0, k));
      if (b) return true;
    }
    return false;
  }
  // all markings of x with outputs
  struct Out { W y; double w; std::vector<Seg> seg; };
  std::vector<Out> outs; std::vector<Seg> cur;
  void go(const W& x, size_t i, W& y, double w, int lastIns) {
    if (++steps > 400000) throw M::TooBig();
    if (y.size() > maxOut) return;
    if (i == x.size()) outs.push_back({y, w, cur});
    else { y += x[i]; go(x, i + 1, y, w, -1); y.pop_back(); }
    for (size_t r = 0; r < R.size(); ++r) for (size_t m = 0; m < R[r].maps.size(); ++m) {
      Map& mp = R[r].maps[m];
      for (size_t j = i; j <= x.size(); ++j) {
        if (j == i && (!mp.dotted || lastIns == (int)i)) continue;
        W a = x.substr(i, j - i); if (!mp.a.has(a)) continue;
        auto emit = [&](const W& b, double bw) { size_t o = y.size(); y += b; cur.push_back({(int)r, (int)m, (int)i, (int)j, (int)o, (int)y.size()}); go(x, j, y, w + bw, j == i ? (int)i : -1); cur.pop_back(); y.resize(o); };
        if (mp.markup) { for (auto& l : mp.ml) for (auto& rr : mp.mr) emit(l.first + a + rr.first, l.second + rr.second); }
        else for (auto& b : mp.b) emit(b.first, b.second);
      }
    }
  }
  // upper positions of the segments; map a gap position to its lower position
  static int low(const Out& o, int pos, bool afterIns) {
    int d = 0; for (auto& g : o.seg) if (g.to < pos || (g.to == pos && (g.from < g.to || afterIns))) d += (g.oto - g.ofrom) - (g.to - g.from);
    return pos + d;
  }
};
typedef std::map<W, double> Outs;
static void put(Outs& o, const W& y, double w) { auto it = o.find(y); if (it == o.end() || it->second > w) o[y] = w; }

enum Arrow { RIGHT, OPT, LTRL, LTRS, RTLL, RTLS };
static bool emptyB(Map& m) { return m.markup ? (m.ml.empty() || m.mr.empty()) : m.b.empty(); }
static Outs images(std::vector<RuleM>& R, Arrow ar, const W& x, size_t maxOut) {
  Outs res; Oracle O(R, maxOut); W y; O.go(x, 0, y, 0, -1);
  // keep the markings whose every part is in its context
  std::vector<Oracle::Out> ok;
  for (auto& o : O.outs) { bool good = true; for (auto& g : o.seg) if (!O.ctxOk(R[g.rule], x, g.from, g.to, o.y, g.ofrom, g.oto)) { good = false; break; } if (good) ok.push_back(o); }
  if (ar == OPT) { for (auto& o : ok) put(res, o.y, o.w); return res; }
  if (ar == RIGHT) {
    for (auto& o : ok) {
      bool good = true;
      // an unreplaced part inside a gap
      std::vector<bool> rep(x.size(), false); for (auto& g : o.seg) for (int k = g.from; k < g.to; ++k) rep[k] = true;
      auto cut = [&](size_t i, size_t j) { for (auto& g : o.seg) { if (g.from == g.to) { if ((size_t)g.from > i && (size_t)g.from < j) return true; } else { if ((size_t)g.from < j && (size_t)g.to > i) return true; } } return false; };
      for (size_t r = 0; r < R.size() && good; ++r) for (auto& mp : R[r].maps) { if (emptyB(mp)) continue; for (size_t i = 0; i <= x.size() && good; ++i) for (size_t j = i; j <= x.size() && good; ++j) {
        if (j == i) { if (!mp.dotted || !mp.a.has("")) continue; bool ins = false, inside = false; for (auto& g : o.seg) { if (g.from == g.to && g.from == (int)i) ins = true; if (g.from < (int)i && g.to > (int)i) inside = true; } if (ins || inside) continue; }
        else if (cut(i, j) || !mp.a.has(x.substr(i, j - i))) continue;
        if (O.ctxOk(R[r], x, (int)i, (int)j, o.y, Oracle::low(o, (int)i, true), Oracle::low(o, (int)j, false))) good = false; } if (!good) break; }
      if (good) put(res, o.y, o.w);
    }
    return res;
  }
  // directed: scan, taking at each place the longest or shortest part in its context (upper contexts only)
  bool ltr = ar == LTRL || ar == LTRS, lng = ar == LTRL || ar == RTLL; int n = (int)x.size();
  std::vector<std::pair<int, int>> spans; 
  auto cand = [&](int i, int j) { for (size_t r = 0; r < R.size(); ++r) for (auto& mp : R[r].maps) if (mp.a.has(x.substr(i, j - i)) && O.ctxOk(R[r], x, i, j, x, i, j)) return true; return false; };
  for (int p = ltr ? 0 : n; ltr ? p < n : p > 0;) {
    int best = -1; for (int l = 1; l <= (ltr ? n - p : p); ++l) { if (!(ltr ? cand(p, p + l) : cand(p - l, p))) continue; if (best < 0 || lng) best = l; }
    if (best < 0) { p += ltr ? 1 : -1; continue; }
    spans.push_back(ltr ? std::make_pair(p, p + best) : std::make_pair(p - best, p)); p += ltr ? best : -best;
  }
  std::sort(spans.begin(), spans.end());
  for (auto& o : ok) { if (o.seg.size() != spans.size()) continue; bool same = true; for (size_t k = 0; k < spans.size(); ++k) same &= o.seg[k].from == spans[k].first && o.seg[k].to == spans[k].second; if (same) put(res, o.y, o.w); }
  return res;
}

static Outs maximal(std::vector<RuleM>& R, const W& x, size_t maxOut) {
  Outs res; Oracle O(R, maxOut); W y; O.go(x, 0, y, 0, -1); std::vector<Oracle::Out> ok; std::set<std::set<std::pair<int, int>>> marks; std::vector<std::set<std::pair<int, int>>> ms;
  for (auto& o : O.outs) { bool good = true; for (auto& g : o.seg) if (!O.ctxOk(R[g.rule], x, g.from, g.to, o.y, g.ofrom, g.oto)) { good = false; break; } if (good) { ok.push_back(o); std::set<std::pair<int, int>> m; for (auto& g : o.seg) m.insert({g.from, g.to}); ms.push_back(m); marks.insert(m); } }
  for (size_t i = 0; i < ok.size(); ++i) { bool dom = false; for (auto& m : marks) if (m.size() > ms[i].size() && std::includes(m.begin(), m.end(), ms[i].begin(), ms[i].end())) { dom = true; break; } if (!dom) put(res, ok[i].y, ok[i].w); }
  return res;
}
struct G {
  Src& s; Univ& u; X::Render r; std::vector<S> letters{"a", "b", "c"}; S text;
  bool wild = true;   // a weighted x for any symbol, x too: the intermediate results have no deterministic equivalent
  Fst centre(int budget, S& out) {
    if (!wild || !s.chance(1, 8)) return small(budget, out);
    Fst any = X::any1(u), a = M::word({u.sym("a")}, {u.sym("a")});
    switch (s.below(4)) { case 0: out = "?"; return any; case 1: out = "\\a"; return M::trim(M::pairSubtract(any, a)); case 2: out = "[? a]"; return M::concat(any, a); default: out = "[? - a]+"; return M::plus(M::trim(M::pairSubtract(any, a))); }
  }
  Fst small(int budget, S& out, bool weights = false) { int d = s.chance(1, 2) ? 0 : s.chance(1, 2) ? 1 : 2; X::Gen g{s, letters}; g.closed = true; g.budget = budget; g.weights = weights; X::P e = g.acc(d, weights); out = r.out(e, 5); return X::eval(e, u); }
};
static std::vector<std::pair<W, double>> words(const Fst& f, int L) { std::vector<std::pair<W, double>> v; for (auto& x : M::rel(f, L, L)) v.push_back({x.first.first, x.second}); return v; }

static void rule(Src& s, Case& c, std::vector<Arrow> arrows, bool contexts, int ctypes, bool parallel, bool left) {
  ImplementationType t = s.chance(2, 3) ? TROPICAL_OPENFST_TYPE : s.chance(1, 3) ? SFST_TYPE : TROPICAL_OPENFST_TYPE;
  Univ u; u.addAll({"a", "b", "c", "x", "y", "<", ">"}); if (true) { u.sym("\xc3\xa4"); } u.fresh(1);
  G g{s, u, {}, {"a", "b", "c"}, "", true}; g.r.s = &s;
  Arrow ar = s.pick(arrows); bool weights = s.chance(1, 6) && t == TROPICAL_OPENFST_TYPE && !left; g.wild = !weights;
  static const char* an[] = {"->", "(->)", "@->", "@>", "->@", ">@"}; S arrow = left ? (ar == RIGHT ? "<-" : "(<-)") : an[ar];
  std::vector<RuleM> R; S text; int nr = parallel ? 2 : 1; int ct = ctypes ? s.below(ctypes) : 0;
  size_t LI = 4, LO = 10; bool lowerB = true;
  for (int k = 0; k < nr; ++k) {
    RuleM rm; int nm = 1 + (s.chance(1, 4) ? 1 : 0); if (k) text += " ,, ";
    for (int m = 0; m < nm; ++m) {
      if (m) text += " , ";
      Map mp; int kind = left ? 0 : s.weighted({10, 3, 2, 2}); S A, B;
      auto fixed = [&](S& o) { // finite replacement
        static const std::vector<std::pair<S, std::vector<std::vector<S>>>> T = {{"x", {{"x"}}}, {"y", {{"y"}}}, {"a", {{"a"}}}, {"b", {{"b"}}}, {"0", {{}}}, {"x y", {{"x", "y"}}}, {"[x|y]", {{"x"}, {"y"}}}, {"(x)", {{}, {"x"}}}, {"{ab}", {{"a", "b"}}}, {"[a|b x]", {{"a"}, {"b", "x"}}}};
        size_t pk = s.below((uint32_t)T.size()); if (contexts && ct && T[pk].second.size() > 1) pk = 5; if (weights) pk = std::vector<size_t>{0, 1, 5, 6}[pk % 4]; auto& e = T[pk]; o = e.first; std::vector<std::pair<W, double>> v; for (auto& w : e.second) { W z; for (auto& q : w) z += (char)u.sym(q); v.push_back({z, 0}); }
        if (weights && s.chance(1, 2)) { o = "[" + o + "]::2"; for (auto& q : v) q.second = 2; }
        return v; };
      if (kind == 3 && ar <= OPT && !left) {   // insertion
        mp.dotted = true; Fst a; if (s.chance(2, 3)) { text += "[..] " + arrow + " "; a = M::epsilon(); } else { a = g.small(3, A); text += "[. " + A + " .] " + arrow + " "; }
        mp.a.f = a; mp.b = fixed(B); text += B;
      } else if (kind == 2) {
        mp.markup = true; mp.a.f = g.centre(4, A); text += A + " " + arrow + " "; S l, rr; static const std::vector<S> mk = {"%<", "%>", "x", "y"}; auto one = [&](S& o) { o = s.pick(mk); return W(1, (char)u.sym(o[0] == '%' ? o.substr(1) : o)); };
        int side = s.below(3); W lw, rw; if (side != 1) { lw = one(l); text += l + " "; } text += "..."; if (side != 2) { rw = one(rr); text += " " + rr; }
        mp.ml = {{lw, 0}}; mp.mr = {{rw, 0}};
      } else { mp.a.f = g.centre(4, A); mp.b = fixed(B); if (left) text += B + " " + arrow + " " + A; else text += A + " " + arrow + " " + (kind == 1 && mp.b.size() == 1 && mp.b[0].first.empty() && mp.b[0].second == 0 ? "[..]" : B); }
      rm.maps.push_back(mp);
    }
    if (contexts) {
      rm.ctype = ct; static const char* cm[] = {"||", "//", "\\\\", "\\/"}; text += S(" ") + cm[ct] + " "; int nc = 1 + (s.chance(1, 4) ? 1 : 0);
      g.letters = lowerB && ct ? std::vector<S>{"a", "b", "x"} : std::vector<S>{"a", "b", "c"};
      for (int q = 0; q < nc; ++q) {
        if (q) text += " , "; Ctx cx; S l, rr; int side = s.below(4);
        auto ctx = [&](bool isl, S& o) { Fst f; if (s.chance(1, 6)) { o = ".#."; return M::word({MARK}, {MARK}); } f = s.chance(1, 8) ? (o = "?", X::any1(u)) : s.chance(1, 12) ? (o = "? a", M::concat(X::any1(u), M::word({u.sym("a")}, {u.sym("a")}))) : g.small(3, o); if (s.chance(1, 8)) { Fst mk = M::word({MARK}, {MARK}); if (isl) { o = ".#. " + S("[") + o + "]"; f = M::concat(mk, f); } else { o = "[" + o + "] .#."; f = M::concat(f, mk); } } return f; };
        if (side != 1) cx.l.f = ctx(true, l); else cx.l.f = M::epsilon();
        if (side != 2) cx.r.f = ctx(false, rr); else cx.r.f = M::epsilon();
        text += l + (l.empty() ? "_" : " _") + (rr.empty() ? "" : " " + rr); rm.cx.push_back(cx);
      }
      g.letters = {"a", "b", "c"};
    }
    R.push_back(rm);
  }
  c.show << tname(t) << " " << text;
  // empty-string centres only in the dotted form; nothing to say for an empty mapping
  for (auto& rm : R) for (auto& mp : rm.maps) { if (!mp.dotted && mp.a.has("")) discard("empty string in a centre"); if (M::trim(mp.a.f).st.empty() || !M::rel(mp.a.f, 4, 4).size()) discard("empty centre"); }
  for (auto& rm : R) for (auto& cx : rm.cx) if (!M::rel(cx.l.f, 5, 5).size() || !M::rel(cx.r.f, 5, 5).size()) discard("empty context");
  c.at("compile"); XC xc(t); HfstTransducer* h = xc.compile(text + (s.chance(1, 2) ? " ;" : "")); if (!h) fail("not compiled"); std::unique_ptr<HfstTransducer> hh(h);
  Spec sp = fromHfst(*h); std::set<S> known(u.name.begin(), u.name.end()); for (auto& x : sp.alphabet()) if (!known.count(x)) fail("symbol '" + x + "' came from nowhere");
  Fst got = M::trim(u.expand(sp)); if (left) got = M::invert(got);
  // inputs: all words up to LI over the letters, one marker, one unknown
  std::vector<int> sig = {u.sym("a"), u.sym("b"), u.sym("c"), u.sym("x"), u.size()};
  Fst in; in.add(0); for (int i : sig) in.arc(0, i, i, 0);
  int nontriv = 0;
  for (;; --LI) { if (LI < 2) discard("relation too big");
    LO = LI * 3 + 2;
    try {
      M::Rel g2 = M::rel(M::trim(M::compose(in, got)), (int)LI, (int)LO, 400000), want; bool w = t == TROPICAL_OPENFST_TYPE;
      std::vector<W> todo{""};
      for (size_t k = 0; k < todo.size(); ++k) {
        W x = todo[k]; if (x.size() < LI) for (int i : sig) todo.push_back(x + (char)i);
        for (auto& o : images(R, ar, x, LO)) { want[{x, o.first}] = o.second; if (o.first != x) ++nontriv; }
      }
      if (ct && ar == RIGHT) {
        // contexts on the lower side: where the reading "nothing replaceable is left" and the reading "no larger
        // set of replacements" agree the result is determined; otherwise each result is still a valid replacement
        M::Rel det, sub; std::set<W> dx;
        for (auto& x : todo) {
          Outs a = images(R, RIGHT, x, LO), b = maximal(R, x, LO), v = images(R, OPT, x, LO);
          auto lo = g2.lower_bound({x, ""}); for (auto it = lo; it != g2.end() && it->first.first == x; ++it) { if (!v.count(it->first.second)) fail("not a replacement: " + u.text(x) + " : " + u.text(it->first.second)); }
          if (a == b) { for (auto& o : a) det[{x, o.first}] = o.second; dx.insert(x); }
        }
        for (auto& e : g2) if (dx.count(e.first.first)) sub.insert(e);
        auto d = M::diff(det, sub, u, w && weights); if (!d.empty()) fail(d);
      } else {
      auto d = M::diff(want, g2, u, w && weights); if (!d.empty()) fail(d); }
      break;
    } catch (M::TooBig&) {}
  }
  c.nontrivial = nontriv > 0;
}
static const std::vector<Arrow> PLAIN{RIGHT, OPT}, DIR{LTRL, LTRS, RTLL, RTLS};
LAW(plain, 3000, 20) { rule(s, c, PLAIN, false, 0, false, false); }
LAW(plain_context, 4000, 20) { rule(s, c, PLAIN, true, 1, false, false); }
LAW(lower_context, 3000, 20) { rule(s, c, PLAIN, true, 4, false, false); }
LAW(directed, 3000, 20) { rule(s, c, DIR, false, 0, false, false); }
LAW(directed_context, 3000, 20) { rule(s, c, DIR, true, 1, false, false); }
LAW(parallel, 2000, 20) { rule(s, c, PLAIN, true, 1, true, false); }
LAW(parallel_directed, 2000, 20) { rule(s, c, DIR, true, 1, true, false); }
LAW(left_arrow, 2000, 20) { rule(s, c, PLAIN, s.chance(1, 2), 1, false, true); }
int main(int argc, char** argv) { return hx::main(argc, argv, "C16", "some word of the compared length is changed by the rule"); }
