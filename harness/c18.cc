// C18: a lexicon file compiles to exactly the entry sequences its continuation classes allow
#include "flags.h"
#include "hx.h"
#include "xre.h"
#include "parsers/LexcCompiler.h"
using namespace hx;
using hfst::lexc::LexcCompiler;
static std::ostringstream* sink() { static std::ostringstream o; o.str(""); return &o; }
static const S LZ = "\x02";                       // a literal zero inside a string
struct Entry { int kind; std::vector<S> up, lo; S cont; double w = 0; X::P re; int style = 0; };   // kind 0 string, 1 pair, 2 expression
struct Lex { S name; std::vector<Entry> es; };
struct Doc { std::vector<S> multi; std::vector<std::pair<S, X::P>> defs; std::vector<Lex> lx; S start; bool cyclic = false; };
static S plain(const S& x) { S r; for (char c : x) if (c == LZ[0]) r += '0'; else r += c; return r; }
// greedy longest match over the declared symbols; "0" alone is nothing
static std::vector<S> tok(const std::vector<S>& multi, const std::vector<S>& u) {
  std::vector<S> r;
  for (size_t i = 0; i < u.size();) {
    size_t best = 0; S sym;
    for (auto& m : multi) { auto mc = M::is_flag(m) ? std::vector<S>{m} : X::chars(m); if (mc.size() <= best || i + mc.size() > u.size()) continue; bool ok = true; for (size_t k = 0; k < mc.size() && ok; ++k) ok = plain(u[i + k]) == mc[k]; if (ok) { best = mc.size(); sym = m; } }
    if (best) { r.push_back(sym); i += best; continue; }
    if (u[i] != "0") r.push_back(plain(u[i]));
    ++i;
  }
  return r;
}
static S esc(const std::vector<S>& u, Src& s) {
  S r; for (auto& x : u) { if (x == LZ) r += "%0"; else if (M::is_flag(x)) r += x; else if (x.size() == 1 && S(" <%!;:\"").find(x[0]) != S::npos) r += "%" + x; else if (x == ">" || x == "#") r += s.chance(1, 2) ? "%" + x : x; else r += x; } return r;
}
static std::vector<S> genStr(Src& s, const Doc& d, int maxLen) {
  static const std::vector<S> ch = {"a", "b", "c", "\xc3\xa4", "0", LZ, "+", " ", ":", "<", "x", "%", "-", "#", "\""};
  std::vector<S> r; int n = 1 + s.below(maxLen);
  for (int i = 0; i < n; ++i) if (!d.multi.empty() && s.chance(1, 4)) { S m = s.pick(d.multi); if (M::is_flag(m)) r.push_back(m); else for (auto& x : X::chars(m)) r.push_back(x == "0" && s.chance(1, 2) ? LZ : x); } else r.push_back(ch[s.chance(1, 3) ? s.below((uint32_t)ch.size()) : s.below(3)]);
  return r;
}
struct Opt { bool regex = false, weights = false, root = true; int type = 0; };
static S wtext(double w) { char b[40]; snprintf(b, sizeof b, "%.4f", w); return b; }
static bool reText(const X::P& e, S& t) { X::Render r; r.s = nullptr; t = r.out(e, 0); return t.find_first_of("<>;!\n=") == S::npos; }
static Doc genDoc(Src& s, const Opt& o) {
  Doc d; static const std::vector<S> ms = {"ab", "+N", "<x>", "b0", "@P.F.A@", "[sg]", "abc", "a b", "@U.F.B@", "\xc3\xa4" "b", "0x"};
  for (int k = s.below(4); k > 0; --k) { S m = s.pick(ms); bool dup = false; for (auto& x : d.multi) dup |= x == m; if (!dup) d.multi.push_back(m); }
  if (o.regex) { std::vector<S> k; for (auto& m : d.multi) if (!M::is_flag(m)) k.push_back(m); d.multi = k; }   // "any symbol" does not speak of flags
  std::vector<S> names = {"Root", "A", "B", "A_B", "B_A", "\xc3\x84", "n-1", "A_B_A"}; int n = 1 + s.below(5); if (n > (int)names.size()) n = (int)names.size();
  std::vector<S> reL = {"a", "b", "c"}; for (auto& m : d.multi) if (!M::is_flag(m) && m.find_first_of("<>0") == S::npos) reL.push_back(m);
  if (o.regex && s.chance(1, 2)) for (int k = 1 + s.below(2); k > 0; --k) { X::Gen g{s, reL}; g.budget = 4; X::P e = g.acc(1, false); S x; if (!reText(e, x)) e = g.sym(); d.defs.push_back({k == 2 ? "Def" : "Vowel", e}); }
  for (int i = 0; i < n; ++i) { Lex l; l.name = names[i]; d.lx.push_back(l); }
  bool acyc = o.weights || s.chance(1, 3);
  for (int i = 0; i < n; ++i) {
    int m = 1 + s.below(4);
    for (int k = 0; k < m; ++k) {
      Entry e; int c = s.below(8);
      if (c <= 2) e.cont = "#"; else if (c == 7 && s.chance(1, 3)) e.cont = "Missing";
      else { int lo = acyc ? i + 1 : 0; e.cont = lo >= n ? S("#") : d.lx[lo + s.below((uint32_t)(n - lo))].name; }
      e.kind = s.below(o.regex ? 5 : 3); if (e.kind >= 3) e.kind = 2; else if (e.kind == 2) e.kind = 1;
      if (e.kind == 0) { if (!s.chance(1, 6)) e.up = genStr(s, d, 4); e.lo = e.up; }
      else if (e.kind == 1) { if (!s.chance(1, 6)) e.up = genStr(s, d, 4); if (!s.chance(1, 6)) e.lo = genStr(s, d, 4); if (e.up.empty() && e.lo.empty()) e.up = genStr(s, d, 2); }
      else { X::Gen g{s, reL}; g.budget = 5; g.weights = false; for (auto& q : d.defs) { auto nn = X::leaf(X::NAMED, q.first); nn->ch = {q.second}; g.named.push_back(nn); } S x; for (int tr = 0; tr < 3; ++tr) { g.budget = 5; e.re = s.chance(1, 3) ? g.tra(1 + s.below(2), false) : g.acc(1 + s.below(2), false); if (reText(e.re, x)) break; e.re = g.sym(); } }
      if (o.weights && s.chance(1, 2)) e.w = s.pick(std::vector<double>{1, 0.5, 2.25, 3, 10});
      e.style = s.below(12);
      if (s.chance(1, 6) && !d.lx[i].es.empty()) { Entry f = s.pick(d.lx[i].es); f.w = e.w; if (s.chance(1, 3)) f.cont = e.cont; e = f; }
      d.lx[i].es.push_back(e);
    }
  }
  // repeated lexicons and another order
  if (n > 1 && s.chance(1, 4)) { int k = s.below((uint32_t)n); if (d.lx[k].es.size() > 1) { Lex l2; l2.name = d.lx[k].name; l2.es.push_back(d.lx[k].es.back()); d.lx[k].es.pop_back(); d.lx.push_back(l2); } }
  if (!o.root) { if (d.lx.size() > 1 && s.chance(1, 2)) { std::swap(d.lx[0], d.lx[1 + s.below((uint32_t)d.lx.size() - 1)]); } if (s.chance(1, 2)) { S nn = "Start"; for (auto& l : d.lx) { if (l.name == "Root") l.name = nn; for (auto& e : l.es) if (e.cont == "Root") e.cont = nn; } } }
  d.start = d.lx[0].name; for (auto& l : d.lx) if (l.name == "Root") d.start = "Root";
  return d;
}
static S entryText(Src& s, const Entry& e) {
  S t; const S sp = e.style % 3 == 2 ? "\t" : e.style % 3 == 1 ? "  " : " ";
  if (e.kind == 2) { S x; reText(e.re, x); t = "< " + x + " >" + sp; }
  else if (e.kind == 0) t = e.up.empty() ? (e.style % 4 == 3 ? S("0 ") : e.style % 4 == 2 ? S(": ") : S()) : esc(e.up, s) + sp;
  else t = (e.up.empty() && e.style & 1 ? S("0") : esc(e.up, s)) + ":" + (e.lo.empty() && e.style & 2 ? S("0") : esc(e.lo, s)) + sp;
  t += e.cont + sp;
  if (e.w != 0) t += (e.style & 1 ? "\"weight: " : "\"gloss weight: ") + wtext(e.w) + (e.style & 2 ? "\" " : ", more\" "); else if (e.style % 5 == 4) t += "\"a gloss; 3.5\" ";
  return t + ";";
}
static S lexText(Src& s, const Lex& l) {
  S t = (s.chance(1, 8) ? "LEXICON\t" : "LEXICON ") + l.name + (s.chance(1, 6) ? " ! note ; here" : "") + "\n";
  for (auto& e : l.es) { t += entryText(s, e); int k = s.below(8); t += k == 7 ? " ! a # ;\n" : k == 6 ? " " : k == 5 ? "\n\n" : k == 4 ? "\r\n" : "\n"; }
  if (t.back() != '\n') t += "\n";
  return t;
}
static std::vector<S> docText(Src& s, const Doc& d) {
  std::vector<S> files(1);
  if (s.chance(1, 6)) files[0] += "! a comment\n";
  if (!d.multi.empty()) { files[0] += "Multichar_Symbols\n"; for (auto& m : d.multi) { std::vector<S> u; if (M::is_flag(m)) u = {m}; else for (auto& x : X::chars(m)) u.push_back(x == "0" ? LZ : x); files[0] += esc(u, s) + (s.chance(1, 3) ? " ! c\n" : " "); } files[0] += "\n"; }
  if (!d.defs.empty()) { files[0] += "Definitions\n"; for (auto& q : d.defs) { S x; reText(q.second, x); files[0] += q.first + " = " + x + " ;\n"; } }
  for (size_t i = 0; i < d.lx.size(); ++i) { if (i && s.chance(1, 6)) files.push_back(""); files.back() += lexText(s, d.lx[i]); }
  if (s.chance(1, 5)) files.back() += "END\nleftovers : ; < Foo \"\n";
  return files;
}
static bool usable(const Doc& d, Src& s) { S t; for (auto& q : d.defs) if (!reText(q.second, t)) return false; for (auto& l : d.lx) for (auto& e : l.es) if (e.kind == 2 && !reText(e.re, t)) return false; return true; }
static Fst meaning(const Doc& d, Univ& u) {
  Fst f; std::map<S, int> st; auto get = [&](const S& n) { auto it = st.find(n); if (it != st.end()) return it->second; int q = f.add(); st[n] = q; return q; };
  get(d.start); std::set<S> def; for (auto& l : d.lx) def.insert(l.name);
  int fin = get("#"); f.fin[fin] = 0;
  for (auto& l : d.lx) for (auto& e : l.es) {
    int q = get(l.name), to = get(e.cont);
    if (e.kind == 2) { Fst r = X::tr(M::unweighted(X::eval(e.re, u))); if (r.st.empty()) continue; int off = (int)f.st.size(); for (size_t i = 0; i < r.st.size(); ++i) f.add(); f.arc(q, 0, 0, off, e.w); for (size_t i = 0; i < r.st.size(); ++i) { for (auto& a : r.st[i]) f.arc(off + (int)i, a.i, a.o, off + a.to, a.w); if (r.fin[i] < M::INF) f.arc(off + (int)i, 0, 0, to, r.fin[i]); } continue; }
    auto U = tok(d.multi, e.up), L = tok(d.multi, e.lo); size_t n = std::max(U.size(), L.size()); int cur = q; f.arc(cur, 0, 0, f.add(), e.w); cur = (int)f.st.size() - 1;
    for (size_t i = 0; i < n; ++i) { int nx = f.add(); f.arc(cur, i < U.size() ? u.sym(U[i]) : 0, i < L.size() ? u.sym(L[i]) : 0, nx); cur = nx; }
    f.arc(cur, 0, 0, to);
  }
  return M::trim(f);
}
// obey the bookkeeping flags and drop them
static Spec obey(const Spec& a) {
  Spec r; r.sigma = a.sigma; for (auto it = r.sigma.begin(); it != r.sigma.end();) if (it->find("LEXNAME") != S::npos) it = r.sigma.erase(it); else ++it;
  typedef std::pair<int, F::State> K; std::map<K, int> id; std::vector<K> ks; auto get = [&](const K& k) { auto it = id.find(k); if (it != id.end()) return it->second; int q = r.add(); id[k] = q; ks.push_back(k); return q; };
  get({0, {}});
  for (size_t i = 0; i < ks.size(); ++i) { if (i > 5000) throw M::TooBig(); K k = ks[i]; if (a.fin.count(k.first)) r.fin[(int)i] = a.fin.at(k.first);
    for (auto& x : a.st[k.first]) { K n{x.to, k.second}; S in = x.in, out = x.out; bool fi = in.find("LEXNAME") != S::npos, fo = out.find("LEXNAME") != S::npos;
      if (fi) { if (!F::apply(in, n.second)) continue; in = M::EPS; } if (fo) out = M::EPS;
      int t = get(n); r.arc((int)i, in, out, t, x.w); } }
  return r;
}
static void compileAndCheck(Src& s, Case& c, LexcCompiler& lx, const Doc& d, const std::vector<S>& files, ImplementationType t, bool weights, bool flags, const S& what) {
  Univ u; std::set<S> y; for (auto& m : d.multi) y.insert(m); for (auto& l : d.lx) for (auto& e : l.es) { if (e.kind == 2) X::symbols(e.re, y); for (auto& x : tok(d.multi, e.up)) y.insert(x); for (auto& x : tok(d.multi, e.lo)) y.insert(x); }
  u.addAll(y); u.fresh(2); Fst want = meaning(d, u); c.nontrivial = c.nontrivial || want.st.size() > 4;
  lx.setVerbosity(0); lx.set_error_stream(sink());
  for (size_t i = 0; i < files.size(); ++i) { S f = pbt::scratch_dir + "/l" + std::to_string(i) + ".lexc"; writeFile(f, files[i]); lx.parse(f.c_str()); }
  c.at(what + ": compile");
  std::unique_ptr<HfstTransducer> r(lx.compileLexical()); if (!r) fail(what + ": refused: " + sink()->str());
  if (r->get_type() != t) fail("type"); Spec g = fromHfst(*r);
  if (flags) g = obey(g);
  for (auto& x : g.alphabet()) if (!y.count(x)) fail(what + ": symbol '" + x + "' came from nowhere");
  Fst got = u.expand(g); if (!weights || t != TROPICAL_OPENFST_TYPE) { want = M::unweighted(want); got = M::unweighted(got); }
  sameRel(u, want, got, t, 5, what);
  // longer words: check exactly the shortest paths of each side against the other when both are finite
  (void)s;
}
static ImplementationType type(Src& s) { return s.chance(1, 2) ? TROPICAL_OPENFST_TYPE : genType(s, false); }
static void one(Src& s, Case& c, const Opt& o, bool flags) {
  ImplementationType t = type(s); if (flags && t == FOMA_TYPE) t = SFST_TYPE; Doc d = genDoc(s, o); if (!usable(d, s)) discard("expression not expressible inside <>");
  bool align = s.chance(1, 4); auto files = docText(s, d); c.show << tname(t) << (align ? " aligned" : "") << (flags ? " with flags" : "") << "\n"; for (auto& f : files) c.show << "--- file\n" << f;
  LexcCompiler lx(t, flags, align);
  compileAndCheck(s, c, lx, d, files, t, o.weights, flags, "lexc");
}
LAW(strings, 6000, 20) { Opt o; o.root = !s.chance(1, 4); one(s, c, o, false); }
LAW(weights, 4000, 20) { Opt o; o.weights = true; one(s, c, o, false); }
LAW(expressions, 4000, 20) { Opt o; o.regex = true; one(s, c, o, false); }
LAW(weighted_expressions, 3000, 20) { Opt o; o.regex = o.weights = true; one(s, c, o, false); }
LAW(with_flags, 1500, 20) { Opt o; o.regex = s.chance(1, 4); o.weights = s.chance(1, 3); one(s, c, o, true); }
// compilers used one after another, and one compiler reset and used again, do not influence each other
LAW(sessions, 1500, 20) {
  int n = 2 + s.below(2); bool reuse = s.chance(1, 2); ImplementationType t = type(s); Opt o; LexcCompiler shared(t);
  std::vector<Doc> ds; std::vector<std::vector<S>> fs; c.show << tname(t) << (reuse ? " one compiler, reset" : " new compilers") << "\n";
  for (int i = 0; i < n; ++i) { o.root = !s.chance(1, 3); o.weights = s.chance(1, 3); o.regex = s.chance(1, 3); Doc d = genDoc(s, o); if (!usable(d, s)) discard("expression not expressible inside <>"); ds.push_back(d); fs.push_back(docText(s, d)); c.show << "=== document\n"; for (auto& f : fs.back()) c.show << "--- file\n" << f; }
  for (int i = 0; i < n; ++i) {
    S what = "document " + std::to_string(i);
    if (s.chance(1, 3)) {   // a broken file read by another compiler in between
      S bad = s.pick(std::vector<S>{"LEXICON Root\na\n", "LEXICON Root\na:b:c # ;\n", "Multichar_Symbols\n", "LEXICON Root\n< a # ;\n", "foo\n", "LEXICON Root\n< [ a > # ;\n", "Definitions\nX = [ a ;\nLEXICON Root\n< X > # ;\n", "LEXICON Other\na # ;\n\xff\n", ""});
      LexcCompiler b(t); b.setVerbosity(0); b.set_error_stream(sink()); S f = pbt::scratch_dir + "/bad.lexc"; writeFile(f, bad); b.parse(f.c_str()); std::unique_ptr<HfstTransducer> r(b.compileLexical()); if (r && bad.find("LEXICON") != S::npos && bad.find("Definitions") == S::npos) fail("a malformed file was compiled: " + bad);
    }
    if (reuse) { if (i) shared.reset(); compileAndCheck(s, c, shared, ds[i], fs[i], t, false, false, what); }
    else { LexcCompiler lx(t); compileAndCheck(s, c, lx, ds[i], fs[i], t, false, false, what); }
  }
}
int main(int argc, char** argv) { return hx::main(argc, argv, "C18", "the lexicon has accepting paths through more than four model states"); }
