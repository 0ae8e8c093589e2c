// C20: the lookup tools print exactly the analyses of each input line
#include "hx.h"
#include "flags.h"
#include <functional>
#include <unistd.h>
using namespace hx;
static S P(const S& n) { return pbt::scratch_dir + "/" + n; }
static void writeStream(const S& path, std::vector<HfstTransducer>& v) { HfstOutputStream o(path, v[0].get_type()); for (auto& h : v) o << h; o.flush(); o.close(); }
struct Setup { std::vector<S> letters; int special; };
static Spec genT(Src& s, const std::vector<S>& letters, int special, bool flags) {
  M::GenOpt o; o.letters = letters; o.maxStates = 5; o.maxArcs = 9; o.special = special; o.eps = 12; o.extraSigma = 20;
  Spec A = M::gen(s, o); if (flags) F::sprinkle(s, A, s.pick(std::vector<int>{10, 30}));
  for (auto& v : A.st) for (auto& x : v) if (x.out == M::UNK) x.out = x.in == M::UNK ? letters[0] : M::is_flag(x.in) ? x.in : letters.back();
  return A;
}
static S genInput(Src& s, const Spec& A, const std::vector<S>& other) {
  std::vector<S> bits; for (auto& x : A.alphabet()) if (!M::is_flag(x)) bits.push_back(x); for (auto& x : other) bits.push_back(x); S r;
  if (s.chance(2, 3)) { int q = 0; for (int k = 0; k < 7; ++k) { if (A.st[q].empty() || (A.fin.count(q) && s.chance(1, 3))) break; auto& x = s.pick(A.st[q]); if (x.in == M::ID || x.in == M::UNK) r += s.pick(bits); else if (!F::epsLike(x.in)) r += x.in; q = x.to; } if (s.chance(1, 6)) r += s.pick(bits); }
  else { int n = s.below(6); for (int i = 0; i < n; ++i) r += s.pick(bits); }
  return r;
}
static std::vector<S> lines(const S& t) { std::vector<S> r; std::istringstream is(t); for (S l; std::getline(is, l);) r.push_back(l); return r; }
static std::vector<S> split(const S& l, char d) { std::vector<S> r{""}; for (char ch : l) if (ch == d) r.push_back(""); else r.back() += ch; return r; }
static S plain(const S& o) { S r; for (char ch : o) if (ch != '|') r += ch; return r; }   // drop the symbol separators of F::lookup
static F::Outs plain(const F::Outs& e) { F::Outs r; for (auto& x : e) { S o = plain(x.first); auto it = r.find(o); if (it == r.end() || x.second < it->second) r[o] = x.second; } return r; }
static S noFlags(const S& t) { S r; for (size_t i = 0; i < t.size();) { if (t[i] == '@' && i + 2 < t.size() && t[i + 2] == '.') { size_t e = t.find('@', i + 1); i = e + 1; continue; } r += t[i++]; } return r; }
static S cmp(const F::Outs& e, const F::Outs& g, bool w) {
  for (auto& x : e) { auto it = g.find(x.first); if (it == g.end()) return "'" + x.first + "' is missing"; if (w && std::abs(it->second - x.second) > 2e-3) return "'" + x.first + "' has weight " + std::to_string(it->second) + " instead of " + std::to_string(x.second); }
  for (auto& x : g) if (!e.count(x.first)) return "'" + x.first + "' should not be there";
  return "";
}
static Spec unweighted(Spec a) { for (auto& v : a.st) for (auto& x : v) x.w = 0; for (auto& f : a.fin) f.second = 0; return a; }
static Spec inverted(Spec a) { for (auto& v : a.st) for (auto& x : v) std::swap(x.in, x.out); return a; }
static void add(F::Outs& r, const S& o, double w) { auto it = r.find(o); if (it == r.end() || w < it->second) r[o] = w; }
// outputs of one transducer; false if they should not be judged
static int analyses(const Spec& a, const std::vector<S>& toks, bool flags, F::Outs& e) {
  int inf = F::infinite(a, toks, flags); if (inf >= 0 || F::infinite(a, toks, false) >= 0 || F::manyWays(a, toks, flags, 3000)) return 1;
  e = F::lookup(a, toks, flags); return 0;
}
static void lookupTool(Src& s, Case& c, bool flook) {
  static const std::vector<std::vector<S>> sets = {{"a", "b", "c"}, {"a", "\xc3\xa4", "\xe2\x82\xac"}, {"a", "+N", "[x]"}, {"a", "ab", "b"}, {"a", "foo", "f", "o"}, {"a", ":", " ", "b"}, {"a", "\\", ":"}};
  bool apert = s.chance(1, 8); std::vector<S> L = sets[apert ? s.below(2) : s.below(7)]; int n = 1 + (s.chance(1, 3) ? 1 + (int)s.below(2) : 0); bool flags = s.chance(1, 3), ol = s.chance(2, 5), obey = true, spaced = false, inv = false; int casc = 0;
  ImplementationType t = ol ? s.pick(std::vector<ImplementationType>{HFST_OLW_TYPE, HFST_OL_TYPE}) : s.pick(std::vector<ImplementationType>{TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, TROPICAL_OPENFST_TYPE}); bool w = weightedType(t);
  if (apert) n = 1;
  std::vector<S> op; if (flook) { inv = s.chance(1, 3); if (inv) op.push_back("-R"); else if (ol) op.push_back("-f"); n = 1; }
  if (n > 1) { casc = s.below(3); static const std::vector<S> cn = {"union", "priority-union", "composition"}; if (casc || s.chance(1, 2)) { op.push_back("-C"); op.push_back(cn[casc]); } if (casc == 2) L = sets[s.below(2)]; }
  std::vector<Spec> sp, use; std::vector<HfstTransducer> hs; c.show << (flook ? "hfst-flookup " : "hfst-lookup ") << tname(t) << "\n";
  for (int i = 0; i < n; ++i) { Spec a = genT(s, L, 10, flags); if (flook && !inv) { for (auto& v : a.st) for (auto& x : v) if (x.in == M::UNK) x.in = x.out == M::UNK ? L[0] : L.back(); } ImplementationType bt = ol ? TROPICAL_OPENFST_TYPE : t; HfstTransducer h = toHfst(a, bt); a = fromHfst(h); if (!w) a = unweighted(a); sp.push_back(a); use.push_back(flook && !inv ? inverted(a) : a); if (ol) h.convert(t); hs.push_back(h); c.show << a.str() << "--\n"; }
  // options
  if (!ol && flags && s.chance(1, 4)) { obey = false; op.push_back("-X"); op.push_back("obey-flags"); }
  bool showf = flags && !ol && s.chance(1, 4); if (showf) { op.push_back("-X"); op.push_back("show-flags"); }
  if (!ol && !apert && s.chance(1, 8)) spaced = true; if (spaced) { op.push_back("-F"); op.push_back("spaced"); }
  bool stats = s.chance(1, 4); if (stats) op.push_back("-x"); double beam = -1; if (s.chance(1, 5)) { beam = s.pick(std::vector<double>{0, 0.5, 1, 3}); op.push_back("-b"); std::ostringstream x; x << beam; op.push_back(x.str()); }
  int lim = -1; if (ol && !flook && (n == 1 || casc != 2) && s.chance(1, 5)) { lim = 1 + s.below(3); op.push_back("-n"); op.push_back(std::to_string(lim)); }
  int fmt = apert ? 2 : s.chance(1, 5) ? 1 : 0; if (fmt == 1) { op.push_back("-O"); op.push_back("cg"); } if (fmt == 2) { op.push_back("-O"); op.push_back("apertium"); }
  bool pairs = fmt == 0 && !flook && !spaced && !ol && n == 1 && s.chance(1, 4); if (pairs) { op.push_back("-X"); op.push_back("print-pairs"); op.push_back("-X"); op.push_back("print-space"); op.push_back("-e"); op.push_back("@0@"); }
  bool sep = L[1] == ":" || L[1] == "\\"; if (sep && (pairs || spaced || fmt)) discard("separators in the letters");
  // inputs
  int m = 1 + s.below(6); std::vector<S> ins, shown, marks; S data; std::vector<std::vector<S>> toks; std::vector<F::Outs> want; std::set<S> knownAll; for (auto& a : use) for (auto& x : a.alphabet()) knownAll.insert(x);
  std::vector<S> other = {"z", "\xc3\xb6", "d", "\xf0\x9f\x98\x80"}; if (!spaced && !fmt && !pairs) { other.push_back(" "); other.push_back(":"); other.push_back("\\"); }
  for (int i = 0; i < m; ++i) {
    S in = genInput(s, use[s.below((uint32_t)use.size())], other); if (in.find_first_of("\t") != S::npos) continue; auto tk = F::tokenize(knownAll, in);
    if (ol && n > 1) for (auto& a : use) if (F::tokenize(a.alphabet(), in) != tk) discard("tokenized differently in the transducers");
    F::Outs e; int sk = 0;
    if (casc == 2 && n > 1) { F::Outs cur; S joined; for (auto& x : tk) joined += x + "|"; cur[joined] = 0; for (auto& a : use) { F::Outs nx; for (auto& y : cur) { auto v = split(y.first, '|'); v.pop_back(); F::Outs r; if (analyses(a, v, obey, r)) sk = 1; for (auto& z : r) add(nx, z.first, y.second + z.second); } cur = nx; } e = cur; }
    else for (auto& a : use) { F::Outs r; int k = analyses(a, tk, obey, r); if (k) sk = 1; for (auto& y : r) add(e, y.first, y.second); if (casc == 1 && (!r.empty() || k)) break; }
    if (casc != 2 || n == 1) for (auto& a : use) if (F::infinite(a, tk, false) >= 0 || F::manyWays(a, tk, false, 3000)) sk = 1;
    if (sk) { c.label("infinitely many analyses"); continue; }
    bool nl = i + 1 < m || s.chance(3, 4); if (!nl && in.empty()) nl = true;
    want.push_back(plain(e)); if (e.size() > 1) c.nontrivial = true;
    S l; if (spaced) { for (auto& x : tk) l += (l.empty() ? "" : " ") + x; } else if (apert) { S mk = s.pick(std::vector<S>{"", "[<b>]", "[ x ]"}); marks.push_back(mk); l = in + mk; } else l = in;
    ins.push_back(in); toks.push_back(tk); data += l + (nl ? "\n" : ""); }
  if (ins.empty()) return; if (data.empty()) return;
  std::vector<S> av = {hx::tool(flook ? "hfst-flookup" : "hfst-lookup"), "-s"}; writeStream(P("t"), hs); if (s.chance(1, 3)) { av.push_back("-i"); av.push_back(P("t")); } bool pos = av.size() == 2; for (auto& x : op) av.push_back(x); bool I = s.chance(1, 3); if (I) { writeFile(P("words"), data); av.push_back("-I"); av.push_back(P("words")); } bool of = s.chance(1, 4); if (of) { unlink(P("res").c_str()); av.push_back("-o"); av.push_back(P("res")); } if (pos) av.push_back(P("t"));
  for (size_t i = 1; i < av.size(); ++i) c.show << av[i] << " "; c.show << "\n" << data << "\n"; c.at("tool");
  S out, err; int rc = hx::run(av, I ? S("") : data, &out, &err); if (rc) fail("exit status " + std::to_string(rc) + ": " + err.substr(0, 300)); if (of) { if (!out.empty()) fail("printed to standard output in spite of -o"); out = readFile(P("res")); }
  c.show << "printed:\n" << out; auto ls = lines(out); size_t p = 0; unsigned long nin = ins.size(), found = 0, nres = 0; auto need = [&](const S& what) -> S { if (p >= ls.size()) fail("output ends before " + what); return ls[p++]; };
  for (size_t i = 0; i < ins.size(); ++i) {
    F::Outs e = want[i]; if (beam >= 0) { double b = M::INF; for (auto& x : e) b = std::min(b, x.second); for (auto it = e.begin(); it != e.end();) if (it->second > b + beam + 1e-4) it = e.erase(it); else ++it; } if (!e.empty()) found++;
    S what = "'" + ins[i] + "': "; F::Outs g; size_t cnt = 0; S in = ins[i]; if (pairs) { in = ""; for (auto& x : toks[i]) in += x; }
    auto take = [&](S o, double wt) { ++cnt; if (o.find('@') != S::npos) { if (!showf) fail(what + "a special symbol is printed: " + o); o = noFlags(o); } add(g, o, wt); };
    if (fmt == 0) {
      for (;;) {
        S l = need("the end of " + what); if (l.empty()) break; auto f = split(l, '\t'); if (f.size() != 3) fail(what + "line '" + l + "'"); if (f[0] != in) fail(what + "input printed as '" + f[0] + "'");
        if (f[2] == "inf") { if (f[1] != in + "+?") fail(what + "line '" + l + "'"); if (!e.empty()) fail(what + "nothing found, but there are " + std::to_string(e.size()) + " analyses"); continue; }
        S o = f[1]; if (pairs) { S up, lo; if (!o.empty()) for (auto& pr : split(o, ' ')) { auto q = split(pr, ':'); if (q.size() != 2) fail(what + "pair '" + pr + "'"); for (int k = 0; k < 2; ++k) if (q[k] != "@0@" && !(q[k][0] == '@' && q[k].size() > 2 && q[k][2] == '.')) (k ? lo : up) += q[k]; } if (up != in) fail(what + "a path that reads '" + up + "'"); o = lo; }
        take(o, atof(f[2].c_str())); }
    } else if (fmt == 1) {
      S h = need(what); if (h != "\"<" + in + ">\"") fail(what + "heading '" + h + "'");
      for (;;) { S l = need("the end of " + what); if (l.empty()) break; if (l == "\t\"" + in + "\" ?\tInf") { if (!e.empty()) fail(what + "nothing found, but there are analyses"); continue; }
        auto f = split(l, '\t'); if (f.size() != 3 || f[0] != "" || f[1].size() < 2 || f[1][0] != '"') fail(what + "line '" + l + "'"); size_t q = f[1].find('"', 1); if (q == S::npos) fail(what + "line '" + l + "'"); S b = f[1].substr(1, q - 1), a = f[1].substr(q + 1); if (!a.empty() && S("+ <[").find(a[0]) == S::npos) fail(what + "base form '" + b + "' before '" + a + "'"); S all = b + a; size_t cut = all.find('+'); for (char ch : S(" <[")) if (cut == S::npos) cut = all.find(ch); if (cut == S::npos) cut = all.size(); if (cut != b.size()) fail(what + "base form '" + b + "' of '" + all + "'"); take(b + a, atof(f[2].c_str())); }
    } else {
      S l = need(what), head = "^" + in; if (l.compare(0, head.size(), head)) fail(what + "line '" + l + "'"); S tail = "$" + marks[i]; if (l.size() < head.size() + tail.size() || l.substr(l.size() - tail.size()) != tail) fail(what + "line '" + l + "' does not end in '" + tail + "'"); S mid = l.substr(head.size(), l.size() - head.size() - tail.size()); if (mid == "/*" + in && e.empty()) mid = ""; if (!mid.empty()) { auto f = split(mid, '/'); for (size_t k = 1; k < f.size(); ++k) take(f[k], 0); }
    }
    nres += cnt; if (lim >= 0) { if ((int)cnt > lim * n) fail(what + "more results than asked for"); for (auto& x : g) if (!e.count(x.first) && (beam < 0 || !want[i].count(x.first))) fail(what + "'" + x.first + "' should not be there"); if (g.empty() && !e.empty()) fail(what + "nothing printed"); continue; }
    S d = cmp(e, g, w && fmt != 2); if (!d.empty()) fail(what + d);
  }
  if (stats && !pairs) { if (need("statistics") != "Strings\tFound\tMissing\tResults") fail("statistics"); std::ostringstream x; x << nin << "\t" << found << "\t" << nin - found << "\t" << nres; S l = need("statistics"); if (l != x.str()) fail("statistics '" + l + "' instead of '" + x.str() + "'"); p += 2; }
  else if (stats) p += 4;
  if (p != ls.size()) fail("more output after the last input");
}
LAW(lookup, 2500, 20) { lookupTool(s, c, false); }
LAW(flookup, 1000, 20) { lookupTool(s, c, true); }
LAW(optimized_lookup, 1500, 20) {
  static const std::vector<std::vector<S>> sets = {{"a", "b", "c"}, {"a", "ab", "abc", "b"}, {"a", "\xc3\xa4", "\xe2\x82\xac", "b"}, {"cat", "+N", "c", "a"}, {"a", "aa", "aab", "\xc3\xa4\xc3\xa4", "\xc3\xa4"}};
  bool flags = s.chance(1, 2), w = s.chance(3, 4); auto L = s.pick(sets); Spec a = s.chance(1, 6) ? M::genLexicon(s, s.pick(std::vector<int>{10, 80}), s.pick(std::vector<int>{3, 20, 100}), 7, true) : genT(s, L, 0, flags); if (!w) a = unweighted(a); HfstTransducer h = toHfst(a, TROPICAL_OPENFST_TYPE); a = fromHfst(h); h.convert(w ? HFST_OLW_TYPE : HFST_OL_TYPE); std::vector<HfstTransducer> hv{h}; writeStream(P("t"), hv);
  std::vector<S> op; bool sw = w && s.chance(3, 4), uniq = s.chance(1, 2), echo = s.chance(1, 6); int lim = -1; double beam = -1; if (sw) op.push_back("-w"); if (uniq) op.push_back("-u"); if (echo) op.push_back("-e"); if (s.chance(1, 3)) { lim = 1 + s.below(4); op.push_back("-n"); op.push_back(std::to_string(lim)); } if (w && s.chance(1, 3)) { beam = s.pick(std::vector<double>{0, 0.5, 1, 3}); op.push_back("-b"); std::ostringstream x; x << beam; op.push_back(x.str()); }
  int m = 1 + s.below(6); std::vector<S> ins; S data; std::set<S> known = a.alphabet(), readable; for (auto& v : a.st) for (auto& x : v) readable.insert(x.in); std::vector<F::Outs> want;
  for (int i = 0; i < m; ++i) { S in = genInput(s, a, {"z", "\xc3\xb6", " "}); auto tk = F::tokenize(known, in); F::Outs e; if (analyses(a, tk, true, e) || F::infinite(a, tk, true) >= 0 || (echo && in.empty()) || tk != F::tokenize(readable, in)) continue; ins.push_back(in); data += in + "\n"; want.push_back(plain(e)); if (e.size() > 1) c.nontrivial = true; }
  c.show << (w ? "weighted " : "unweighted ") << a.str() << "hfst-optimized-lookup"; for (auto& x : op) c.show << " " << x; c.show << "\n" << data; c.at("tool");
  std::vector<S> av = {hx::tool("hfst-optimized-lookup")}; for (auto& x : op) av.push_back(x); av.push_back(P("t")); S out, err; int rc = hx::run(av, data, &out, &err); if (rc) fail("exit status " + std::to_string(rc) + ": " + err.substr(0, 300)); { size_t q = out.find("!! Warning"); if (q != S::npos) discard("warning"); }
  c.show << "printed:\n" << out; auto ls = lines(out); size_t p = 0;
  for (size_t i = 0; i < ins.size(); ++i) {
    F::Outs e = want[i], g; S what = "'" + ins[i] + "': "; double best = M::INF; for (auto& x : e) best = std::min(best, x.second);
    while (p < ls.size() && ls[p].empty()) ++p; if (echo) { if (ins[i].empty()) continue; if (p >= ls.size() || ls[p] != ins[i]) fail(what + "not echoed"); ++p; while (p < ls.size() && ls[p].empty()) ++p; }
    std::vector<std::pair<S, double>> got; bool none = false; double last = -1e9;
    for (; p < ls.size() && !ls[p].empty(); ++p) { auto f = split(ls[p], '\t'); if (f[0] != ins[i]) { fail(what + "input printed as '" + f[0] + "'"); } if (f.size() == 3 && f[2] == "+?") { none = true; continue; } if (f.size() != (sw ? 3u : 2u)) fail(what + "line '" + ls[p] + "'"); got.push_back({f[1], sw ? atof(f[2].c_str()) : 0}); if (sw) { if (got.back().second < last - 1e-3) fail(what + "not in order of weight"); last = got.back().second; } }
    if (none != e.empty()) fail(what + (none ? "nothing found, but there are analyses" : "analyses found, though there are none")); for (auto& x : got) { if (uniq && g.count(x.first)) fail(what + "'" + x.first + "' twice in spite of -u"); add(g, x.first, x.second); }
    if (lim >= 0 && (int)got.size() > lim) fail(what + "more analyses than asked for");
    for (auto& x : g) { auto it = e.find(x.first); if (it == e.end()) fail(what + "'" + x.first + "' should not be there"); if (sw && x.second < it->second - 2e-3) fail(what + "weight of '" + x.first + "'"); if (sw && uniq && std::abs(x.second - it->second) > 2e-3) fail(what + "weight of '" + x.first + "'"); if (beam >= 0 && sw && x.second > best + beam + 2e-3) fail(what + "'" + x.first + "' is outside the beam"); }
    bool full = lim >= 0 && (int)got.size() == lim; double worst = -1e9; for (auto& x : got) worst = std::max(worst, x.second);
    for (auto& x : e) { if (beam >= 0 && x.second > best + beam - 1e-4 && !(std::abs(x.second - best) < 1e-9)) continue; if (full) { if (sw && uniq && x.second < worst - 2e-3 && !g.count(x.first)) fail(what + "'" + x.first + "' is better than what is printed"); continue; } auto it = g.find(x.first); if (it == g.end()) fail(what + "'" + x.first + "' is missing"); if (sw && std::abs(it->second - x.second) > 2e-3) fail(what + "weight of '" + x.first + "' is " + std::to_string(it->second) + ", not " + std::to_string(x.second)); }
  }
  while (p < ls.size() && ls[p].empty()) ++p; if (p != ls.size()) fail("more output after the last input");
}
// input with infinitely many analyses: each cycle is followed at most as often as asked for, and this is told
LAW(cycles, 1000, 20) {
  Spec a = genT(s, {"a", "b", "c"}, 10, false); if (s.chance(1, 2)) { int q = s.below((uint32_t)a.st.size()); a.arc(q, M::EPS, s.pick(std::vector<S>{"x", M::EPS, "b"}), s.chance(1, 2) ? q : s.below((uint32_t)a.st.size()), s.below(2)); } HfstTransducer h = toHfst(a, TROPICAL_OPENFST_TYPE); a = fromHfst(h); std::vector<HfstTransducer> hv{h}; writeStream(P("t"), hv);
  size_t k = s.below(4); std::vector<S> ins; S data; std::vector<F::Outs> want; std::vector<int> infs;
  for (int i = 1 + s.below(4); i > 0; --i) { S in = genInput(s, a, {"z"}); auto tk = F::tokenize(a.alphabet(), in); int inf = F::infinite(a, tk, true); F::Outs e; if (inf < 0) e = F::lookup(a, tk, true); else if (inf == 0 || !F::cyclesLookup(a, tk, k, e)) continue; if (F::manyWays(a, tk, true, 3000)) continue; if (inf == 1 && e.size() > 1) c.nontrivial = true; ins.push_back(in); data += in + "\n"; want.push_back(plain(e)); infs.push_back(inf); }
  c.show << a.str() << "hfst-lookup -c " << k << "\n" << data; c.at("hfst-lookup"); S out, err; int rc = hx::run({hx::tool("hfst-lookup"), "-s", "-c", std::to_string(k), P("t")}, data, &out, &err); if (rc) fail("exit status " + std::to_string(rc) + ": " + err.substr(0, 300)); c.show << "printed:\n" << out; auto ls = lines(out); size_t p = 0;
  for (size_t i = 0; i < ins.size(); ++i) {
    S what = "'" + ins[i] + "': "; F::Outs g; bool cyc = false; for (;; ++p) { if (p >= ls.size()) fail("output ends too early"); if (ls[p].empty()) { ++p; break; } auto f = split(ls[p], '\t'); if (f[0] != ins[i]) fail(what + "line '" + ls[p] + "'"); if (f.size() == 2 && f[1] == "[...cyclic...]") { cyc = true; continue; } if (f.size() != 3 || cyc) fail(what + "line '" + ls[p] + "'"); if (f[2] == "inf") continue; add(g, f[1], atof(f[2].c_str())); }
    if (cyc != (infs[i] == 1)) { if (infs[i] == 1 && want[i].empty()) continue; fail(what + (cyc ? "is said to be cyclic" : "is not said to be cyclic")); } S d = cmp(want[i], g, true); if (!d.empty()) fail(what + d);
  }
  if (p != ls.size()) fail("more output after the last input");
}
int main(int argc, char** argv) { return hx::main(argc, argv, "C20", "some input line has more than one analysis"); }
