// C14: strings are split into symbols by longest match and become exactly the word they spell
#include "hx.h"
#include "HfstTokenizer.h"
#include "HfstStrings2FstTokenizer.h"
using namespace hx;
typedef std::pair<S, S> SP;
static const std::vector<S> CH = {"a", "b", "c", "+", "N", "\xc3\xa4", "\xcc\x81", "\xe3\x81\x82", "\xf0\x90\x90\xb7", " ", "@", "0"};
static bool comb(const S& x) { return x == "\xcc\x81"; }
static std::vector<S> points(const S& s) { std::vector<S> r; for (size_t i = 0; i < s.size();) { unsigned char c = (unsigned char)s[i]; size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; r.push_back(s.substr(i, n)); i += n; } return r; }
static S genText(Src& s, int maxLen, const std::vector<S>& parts = {}) { S r; for (int n = s.below((uint32_t)maxLen + 1); n > 0; --n) r += !parts.empty() && s.chance(1, 3) ? s.pick(parts) : s.pick(CH); return r; }
struct TM { std::set<S> multi, skip; };
// longest match over declared symbols, else one code point (with its combining marks unless split)
static std::vector<S> tokenize(const TM& m, const S& t, bool split) {
  std::vector<S> r; auto p = points(t); std::vector<size_t> off{0}; for (auto& x : p) off.push_back(off.back() + x.size());
  for (size_t i = 0; i < t.size();) {
    size_t best = 0; for (auto* set : {&m.multi, &m.skip}) for (auto& x : *set) if (x.size() > best && t.compare(i, x.size(), x) == 0) best = x.size();
    if (!best) { size_t k = 0; while (off[k] != i) ++k; best = p[k].size(); if (!split) while (k + 1 < p.size() && comb(p[k + 1])) best += p[++k].size(); }
    S sym = t.substr(i, best); i += best; if (!m.skip.count(sym)) r.push_back(sym);
  }
  return r;
}
static std::vector<SP> zip(const std::vector<S>& a, const std::vector<S>& b) { std::vector<SP> r; for (size_t i = 0; i < a.size() || i < b.size(); ++i) r.push_back({i < a.size() ? a[i] : M::EPS, i < b.size() ? b[i] : M::EPS}); return r; }
static S show(const std::vector<SP>& v) { S r; for (auto& p : v) r += "[" + p.first + ":" + p.second + "]"; return r; }
static TM genTM(Src& s) { TM m; for (int n = s.below(5); n > 0; --n) { S x = genText(s, 4, {m.multi.begin(), m.multi.end()}); if (!x.empty()) m.multi.insert(x); } for (int n = s.below(3); n > 0; --n) { S x = genText(s, 3, {m.multi.begin(), m.multi.end()}); if (!x.empty()) m.skip.insert(x); } return m; }
static HfstTokenizer mk(const TM& m) { HfstTokenizer t; for (auto& x : m.multi) t.add_multichar_symbol(x); for (auto& x : m.skip) t.add_skip_symbol(x); return t; }
static void showTM(Case& c, const TM& m) { for (auto& x : m.multi) c.show << "symbol [" << x << "]\n"; for (auto& x : m.skip) c.show << "skip [" << x << "]\n"; }
static std::vector<S> parts(const TM& m) { std::vector<S> v(m.multi.begin(), m.multi.end()); v.insert(v.end(), m.skip.begin(), m.skip.end()); return v; }
static void cmp(const std::vector<SP>& want, const StringPairVector& got, const S& what) { if (std::vector<SP>(got.begin(), got.end()) != want) fail(what + ": expected " + show(want) + " got " + show({got.begin(), got.end()})); }
static void noWarn(const std::pair<S, S>&) {}
LAW(longest_match, 12000, 20) {
  TM m = genTM(s); S a = genText(s, 7, parts(m)), b = genText(s, 7, parts(m)); bool split = s.chance(1, 2); showTM(c, m); c.show << (split ? "split " : "") << "[" << a << "] [" << b << "]\n"; c.at("tokenize");
  HfstTokenizer t; for (auto& x : m.multi) t.add_multichar_symbol(x); for (auto& x : m.skip) t.add_skip_symbol(x);
  auto wa = tokenize(m, a, split), wb = tokenize(m, b, split); c.nontrivial = wa.size() >= 2 && wa.size() != points(a).size();
  cmp(zip(wa, wa), t.tokenize(a, split), "tokens"); auto one = t.tokenize_one_level(a, split); if (std::vector<S>(one.begin(), one.end()) != wa) fail("one level tokens differ");
  cmp(zip(wa, wb), t.tokenize(a, b, split), "pairs"); cmp(zip(wa, wb), t.tokenize(a, b, split, &noWarn), "pairs with warnings");
  // words separated by space
  std::vector<SP> w; S cur; for (char ch : a + " ") if (ch == ' ') { if (!cur.empty()) w.push_back({cur, cur}); cur.clear(); } else cur += ch;
  cmp(w, HfstTokenizer::tokenize_space_separated(a), "space separated");
}
// a copy of a tokenizer is independent of the original and outlives it
LAW(tokenizer_copies, 3000, 20) {
  TM m = genTM(s), m2 = m; S a = genText(s, 7, parts(m)); S x = genText(s, 3); showTM(c, m); c.show << "[" << a << "] then symbol [" << x << "]\n"; c.at("copies"); c.nontrivial = !m.multi.empty() && !x.empty();
  std::unique_ptr<HfstTokenizer> t(new HfstTokenizer()); for (auto& y : m.multi) t->add_multichar_symbol(y); for (auto& y : m.skip) t->add_skip_symbol(y);
  HfstTokenizer k(*t), k2; k2.add_multichar_symbol("ab"); k2 = *t; if (s.chance(1, 2)) { t->add_multichar_symbol(x); if (!x.empty()) m2.multi.insert(x); cmp(zip(tokenize(m2, a, true), tokenize(m2, a, true)), t->tokenize(a, true), "original"); } else t.reset();
  auto w = tokenize(m, a, true); cmp(zip(w, w), k.tokenize(a, true), "copy"); cmp(zip(w, w), k2.tokenize(a, true), "assigned copy"); k2 = k2; cmp(zip(w, w), k2.tokenize(a, true), "assigned to itself");
}
static bool validUtf8(const S& s) {
  for (size_t i = 0; i < s.size();) { unsigned char c = (unsigned char)s[i]; size_t n; uint32_t v; if (c < 0x80) { ++i; continue; } if (c < 0xc2) return false; if (c < 0xe0) { n = 1; v = c & 31; } else if (c < 0xf0) { n = 2; v = c & 15; } else if (c < 0xf5) { n = 3; v = c & 7; } else return false;
    if (i + n >= s.size()) return false; for (size_t k = 1; k <= n; ++k) { unsigned char d = (unsigned char)s[i + k]; if ((d & 0xc0) != 0x80) return false; v = v << 6 | (d & 63); } if ((n == 2 && v < 0x800) || (n == 3 && v < 0x10000) || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return false; i += n + 1; }
  return true;
}
LAW(invalid_text_refused, 6000, 20) {
  static const std::vector<S> bits = {"a", "\x80", "\xc3", "\xe3\x81", "\xc0\xaf", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\xf0\x90\x90", "\xc3\xa4", "\xf4\x90\x80\x80", "\xfe", "\xe0\x80\x80", "\xbf"};
  S a = genText(s, 2); for (int n = 1 + s.below(3); n > 0; --n) a += s.pick(bits); if (s.chance(1, 2)) a += genText(s, 2); bool ok = validUtf8(a); c.nontrivial = !ok;
  TM m = genTM(s); HfstTokenizer t; for (auto& x : m.multi) t.add_multichar_symbol(x); c.show << "bytes"; for (unsigned char ch : a) c.show << " " << (int)ch; c.show << "\n"; int k = s.below(5); c.at("tokenize"); bool threw = false;
  if (!freopen("/dev/null", "w", stderr)) {}
  try { if (k == 0) t.tokenize(a, false); else if (k == 1) t.tokenize_one_level(a, true); else if (k == 2) t.tokenize(a, S("b"), false); else if (k == 3) t.tokenize(S("b"), a, true); else HfstTokenizer::tokenize_space_separated(a); } catch (const IncorrectUtf8CodingException&) { threw = true; }
  if (threw == ok) fail(ok ? "valid UTF-8 refused" : "invalid UTF-8 accepted");
}
static Spec word(const std::vector<SP>& v, double w = 0) { Spec r; r.add(); for (auto& p : v) { r.add(); r.arc((int)r.st.size() - 2, p.first, p.second, (int)r.st.size() - 1); } r.fin[(int)r.st.size() - 1] = w; return r; }
LAW(word_transducers, 6000, 20) {
  TM m = genTM(s); m.multi.insert(M::EPS); auto pt = parts(m); S a = genText(s, 6, pt), b = genText(s, 6, pt); ImplementationType t = genType(s, true); int k = s.below(3); if (k < 2 && a.empty()) a = "a"; if (k == 1 && b.empty()) b = "b";   // empty strings are refused showTM(c, m); c.show << tname(t) << " [" << a << "] [" << b << "] kind " << k << "\n"; c.at("construct");
  HfstTokenizer tk; for (auto& x : m.multi) tk.add_multichar_symbol(x); for (auto& x : m.skip) tk.add_skip_symbol(x);
  auto wa = tokenize(m, a, false), wb = tokenize(m, b, false); std::vector<SP> want = k == 1 ? zip(wa, wb) : zip(wa, wa); c.nontrivial = want.size() > 1;
  std::unique_ptr<HfstTransducer> h; if (k == 0) h.reset(new HfstTransducer(a, tk, t)); else if (k == 1) h.reset(new HfstTransducer(a, b, tk, t)); else h.reset(new HfstTransducer(tk.tokenize(a, false), t));
  if (h->get_type() != t) fail("wrong type"); Spec g = fromHfst(*h), w = word(want); Univ u; addSyms(u, w); addSyms(u, g);
  samePairs(u, u.expand(w), u.expand(g), t, 8, "result");
  auto al = h->get_alphabet(); for (auto& p : want) for (auto& x : {p.first, p.second}) if (!M::special(x) && !al.count(x)) fail("symbol " + x + " missing from the alphabet");
}
// ---- string lists -----------------------------------------------------------------
struct Fmt { bool pairs, spaces; S eps; std::vector<S> multi; };
static S bs(const S& x) { return "\\" + x; }
// write one symbol so that no longest match can join it to its neighbours
static S put(Src& s, const Fmt& f, const S& x, bool& up) {
  if (x == M::EPS) return f.eps;
  if (std::find(f.multi.begin(), f.multi.end(), x) != f.multi.end()) return x;   // a declared symbol is written as it is
  S r; for (auto& p : points(x)) { bool head = p == f.eps.substr(0, points(f.eps)[0].size()) || p == "@"; for (auto& m : f.multi) head |= p == points(m)[0];
    if (p == ":" || p == "\\" || head || (f.spaces && p == " ") || (p == " " && s.chance(1, 3))) r += bs(p); else r += p; }
  (void)up; return r;
}
struct Line { std::vector<S> in, out; double w = 0; bool weighted = false; };
static Fmt genFmt(Src& s) {
  Fmt f; f.pairs = s.chance(1, 2); f.spaces = s.chance(1, 3); f.eps = s.pick(std::vector<S>{"@0@", "@_EPSILON_SYMBOL_@", "EPS", "0"});
  static const std::vector<S> ms = {"+N", "foo", "+Nom", "\xc3\xa4\xc3\xa4", "<sg>", "##", "@P.F.A@"}; for (int n = s.below(4); n > 0; --n) { S x = s.pick(ms); if (std::find(f.multi.begin(), f.multi.end(), x) == f.multi.end()) f.multi.push_back(x); }
  return f;
}
static Line genLine(Src& s, const Fmt& f) {
  static const std::vector<S> ch = {"a", "b", "f", "o", "+", "N", "\xc3\xa4", ":", "\\", " ", "@", "#", "0", "x"}; Line l;
  auto sym = [&](bool eps) -> S { if (eps && s.chance(1, 8)) return M::EPS; if (!f.multi.empty() && s.chance(1, 3)) return s.pick(f.multi); S x = s.pick(ch); if (f.spaces && s.chance(1, 4)) { x += s.pick(ch); if (std::find(f.multi.begin(), f.multi.end(), x) != f.multi.end() || x == f.eps) x = "ab"; } return x; };
  if (f.pairs) { for (int n = s.below(6); n > 0; --n) { l.in.push_back(sym(true)); l.out.push_back(s.chance(1, 2) ? l.in.back() : sym(true)); } }
  else { for (int n = s.below(6); n > 0; --n) l.in.push_back(sym(true)); if (s.chance(1, 2)) l.out = l.in; else for (int n = s.below(6); n > 0; --n) l.out.push_back(sym(true)); }
  if (l.in.empty() && l.out.empty()) { l.in = l.out = {"a"}; }
  return l;
}
static S text(Src& s, const Fmt& f, const Line& l) {
  S r; bool up = true;
  auto sp = [&]() { return f.spaces ? S(s.chance(1, 5) ? 2 : 1, ' ') : S(); };
  if (f.pairs) for (size_t i = 0; i < l.in.size(); ++i) { if (!r.empty()) r += sp(); r += put(s, f, l.in[i], up); if (l.in[i] != l.out[i] || s.chance(1, 6)) r += ":" + put(s, f, l.out[i], up); }
  else {
    for (size_t i = 0; i < l.in.size(); ++i) { if (i) r += sp(); r += put(s, f, l.in[i], up); }
    if (l.in != l.out || s.chance(1, 6)) { r += ":"; for (size_t i = 0; i < l.out.size(); ++i) { if (i) r += sp(); r += put(s, f, l.out[i], up); } }
  }
  return r;
}
static Spec lineSpec(const Line& l) { return word(zip(l.in, l.out), l.w); }
static void sameLine(const Line& l, const Spec& got, ImplementationType t, bool pairs) {
  Spec w = lineSpec(l); Univ u; addSyms(u, w); addSyms(u, got); if (pairs) samePairs(u, u.expand(w), u.expand(got), t, 7, "pair string"); else sameRel(u, u.expand(w), u.expand(got), t, 7, "strings");
}
LAW(string_notation, 8000, 20) {
  Fmt f = genFmt(s); Line l = genLine(s, f); S t = text(s, f, l); c.show << "epsilon " << f.eps << (f.pairs ? " pairs" : "") << (f.spaces ? " spaces" : ""); for (auto& m : f.multi) c.show << " symbol " << m; c.show << "\n" << t << "\n"; c.at("tokenize"); c.nontrivial = l.in.size() > 1 && t.size() > l.in.size();
  StringVector mv(f.multi.begin(), f.multi.end()); HfstStrings2FstTokenizer k(mv, f.eps); StringPairVector v; try { v = f.pairs ? k.tokenize_pair_string(t, f.spaces) : k.tokenize_string_pair(t, f.spaces); } catch (const UnescapedColsFound&) { fail("colons found that are not there"); }
  std::vector<SP> g(v.begin(), v.end()); sameLine(l, fromBasic([&] { HfstBasicTransducer b; b.disjunct(v, 0); return b; }()), TROPICAL_OPENFST_TYPE, f.pairs);
}
LAW(string_lists, 500, 20) {
  Fmt f = genFmt(s); ImplementationType t = s.pick(std::vector<ImplementationType>{TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE}); bool join = s.chance(1, 2), norm = join && s.chance(1, 3); int lg = s.chance(1, 3) ? 1 + s.below(2) : 0; bool wt = t == TROPICAL_OPENFST_TYPE;
  std::vector<Line> ls; S doc; double sum = 0; bool distinct = norm || lg || t == LOG_OPENFST_TYPE; std::set<std::pair<S, S>> seen;
  for (int n = 1 + s.below(4); n > 0; --n) {
    Line l = genLine(s, f); auto key = [&] { std::pair<S, S> k; for (auto& x : l.in) if (x != M::EPS) k.first += x; for (auto& x : l.out) if (x != M::EPS) k.second += x; return k; }(); if (!seen.insert(key).second && distinct) continue;
    S tx = text(s, f, l); if (wt && s.chance(2, 3)) { l.weighted = true; l.w = s.pick(std::vector<double>{0.5, 1, 2.25, 3, 10}); std::ostringstream o; o << l.w; tx += "\t" + o.str(); } sum += l.w; ls.push_back(l); doc += tx + (s.chance(1, 8) ? "\r\n" : "\n");
  }
  std::vector<S> av = {hx::tool("hfst-strings2fst"), "-f", t == TROPICAL_OPENFST_TYPE ? "openfst-tropical" : t == SFST_TYPE ? "sfst" : t == FOMA_TYPE ? "foma" : "openfst-log", "-e", f.eps, "-o", pbt::scratch_dir + "/o.hfst"}; if (f.pairs) av.push_back("-p"); if (f.spaces) av.push_back("-S"); if (join) av.push_back("-j"); if (norm) av.push_back("--norm"); if (lg == 1) av.push_back("--log"); if (lg == 2) av.push_back("--log10");
  if (!f.multi.empty()) { S mf; for (auto& m : f.multi) mf += m + "\n"; writeFile(pbt::scratch_dir + "/multi", mf); av.push_back("-m"); av.push_back(pbt::scratch_dir + "/multi"); }
  for (size_t i = 1; i < av.size(); ++i) c.show << av[i] << " "; for (auto& m : f.multi) c.show << "[" << m << "]"; c.show << "\n" << doc; c.at("hfst-strings2fst"); c.nontrivial = ls.size() > 1;
  for (auto& l : ls) { if (norm) l.w = sum == 0 ? 0 : l.w / sum; if (lg) l.w = l.w == 0 ? 0 : lg == 1 ? -std::log(l.w) : -std::log10(l.w); }
  S err; int rc = hx::run(av, doc, nullptr, &err); if (rc) fail("hfst-strings2fst ended with " + std::to_string(rc) + ": " + err);
  std::vector<Spec> got; HfstInputStream in(pbt::scratch_dir + "/o.hfst"); while (!in.is_eof()) { HfstTransducer h(in); if (h.get_type() != t) fail("wrong type"); got.push_back(fromHfst(h)); }
  ImplementationType ct = t == LOG_OPENFST_TYPE ? SFST_TYPE : t;
  if (!join) { if (got.size() != ls.size()) fail("number of transducers"); for (size_t i = 0; i < ls.size(); ++i) sameLine(ls[i], got[i], ct, f.pairs); return; }
  if (got.size() != 1) fail("number of transducers"); Univ u; Spec all; all.add(); Fst e = M::empty(); for (auto& l : ls) addSyms(u, lineSpec(l)); addSyms(u, got[0]); for (auto& l : ls) e = M::unite(e, u.expand(lineSpec(l)));
  sameRel(u, e, u.expand(got[0]), ct, 6, "disjunction");
}
int main(int argc, char** argv) { return hx::main(argc, argv, "C14", "the text has at least two symbols and a multicharacter symbol, escape or pair (see each law)"); }
