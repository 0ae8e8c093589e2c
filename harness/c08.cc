// C08: text formats (AT&T, prolog) round-trip
#include "hx.h"
#include <sstream>
#include <algorithm>
using namespace hx;
static std::vector<S> letters(Src& s, bool prolog) {
  static const std::vector<S> pool = {"a", "b", "ab", " ", "\t", "\xc3\xa4", "@P.F.X@", "+Sg", ":", "0", "?", "\"", "\\", "\\\"", "a b", "--", "-", "#", ",", ")", "(", "%", "1", "@", "<tag>", "\xe2\x82\xac\xe2\x82\xac", "\xc2\xa0", "').", "\").", "x,y", "\\\\"};
  std::vector<S> r; int n = 2 + s.below(3);
  for (int i = 0; i < n; ++i) r.push_back(s.pick(pool));
  if (s.chance(1, 8)) r.push_back(std::string(s.pick(std::vector<int>{50, 98, 99, 100, 101, 110, 130, 250, 254, 255, 256, 600}), 'q') + (s.chance(1, 2) ? " z" : ""));
  (void)prolog; return r;
}
static Spec genText(Src& s, bool prolog) {
  M::GenOpt o; o.letters = letters(s, prolog); o.maxStates = 5; o.maxArcs = 8; o.extraSigma = prolog ? 40 : 0; o.negative = s.chance(1, 5); o.special = 8;
  if (s.chance(1, 10)) { Spec A = M::genLexicon(s, 30, 40, 6, true); return A; }
  return M::gen(s, o);
}
static bool emptyLang(const Spec& a) { Univ u; addSyms(u, a); u.fresh(1); Fst t = M::trim(u.expand(a)); for (double f : t.fin) if (f < M::INF) return false; return true; }
static void check(const Spec& A, const HfstBasicTransducer& b, bool weights, bool alpha, const std::string& what) {
  Univ u; addSyms(u, A); u.fresh(2); Spec g = fromBasic(b); addSyms(u, g);
  if (alpha && g.alphabet() != A.alphabet()) fail(what + ": alphabet changed");
  Fst e = u.expand(A); if (!weights) e = M::unweighted(e);
  sameRel(u, e, u.expand(g), TROPICAL_OPENFST_TYPE, A.st.size() > 8 ? 6 : 4, what);
  if (g.narcs() != A.narcs()) fail(what + ": number of transitions changed");
}
LAW(att_file, 9000, 20) {
  int n = 1 + s.below(3); bool w = s.chance(4, 5); std::vector<Spec> v; std::string f = pbt::scratch_dir + "/t.att"; S eps = s.pick(std::vector<S>{"@0@", "<>", "@_EPSILON_SYMBOL_@"});
  c.show << n << " in AT&T format" << (w ? "" : " without weights"); c.at("write");
  FILE* o = fopen(f.c_str(), "wb");
  for (int i = 0; i < n; ++i) {
    Spec A = genText(s, false); if (n > 1 && A.narcs() == 0 && A.fin.empty()) A.fin[0] = 0; // an empty transducer has no lines of its own
    if (emptyLang(A) && A.fin.empty() && A.narcs() == 0) A.fin[0] = 0;
    v.push_back(A); c.show << " " << A.str(); if (i) fprintf(o, "--\n");
    toBasic(A).write_in_att_format(o, w);
  }
  fclose(o); c.nontrivial = v[0].narcs() > 1; c.at("read");
  FILE* in = fopen(f.c_str(), "rb"); unsigned lc = 0;
  bool basic = s.chance(1, 2); ImplementationType t = TYPES[s.below(2)];
  for (int i = 0; i < n; ++i) {
    if (basic) check(v[i], HfstBasicTransducer::read_in_att_format(in, eps, lc, false), w, false, "AT&T transducer " + std::to_string(i));
    else { HfstTransducer h(in, t, eps, false); Univ u; addSyms(u, v[i]); u.fresh(2); Spec g = fromHfst(h); addSyms(u, g); Fst e = u.expand(v[i]); if (!w || !weightedType(t)) e = M::unweighted(e); sameRel(u, e, u.expand(g), t, v[i].st.size() > 8 ? 6 : 4, std::string("AT&T as ") + tname(t)); }
  }
  fclose(in);
}
LAW(att_stream, 4000, 20) {
  int n = 1 + s.below(2); bool w = s.chance(4, 5); std::vector<Spec> v; std::ostringstream o; c.show << n << " in AT&T format via std streams" << (w ? "" : " without weights"); c.at("write");
  for (int i = 0; i < n; ++i) { Spec A = genText(s, false); if (A.narcs() == 0 && A.fin.empty()) A.fin[0] = 0; v.push_back(A); c.show << " " << A.str(); if (i) o << "--\n"; toBasic(A).write_in_att_format(o, w); }
  std::istringstream in(o.str()); unsigned lc = 0; c.nontrivial = v[0].narcs() > 1; c.at("read");
  for (int i = 0; i < n; ++i) check(v[i], HfstBasicTransducer::read_in_att_format(in, "@0@", lc, false), w, false, "AT&T transducer " + std::to_string(i));
}
LAW(att_buffer, 3000, 20) {   // the buffer writer says the same as the file writer
  Spec A = genText(s, false); bool w = s.chance(1, 2); c.show << "AT&T to buffer" << (w ? "" : " without weights") << A.str(); c.nontrivial = A.narcs() > 1;
  HfstBasicTransducer b = toBasic(A); std::string f = pbt::scratch_dir + "/b.att"; FILE* o = fopen(f.c_str(), "wb"); b.write_in_att_format(o, w); fclose(o);
  std::vector<char> buf(readFile(f).size() + 4096, 0); c.at("write to buffer"); b.write_in_att_format(buf.data(), w);
  if (std::string(buf.data()) != readFile(f)) fail("buffer and file differ:\n" + std::string(buf.data()) + "versus\n" + readFile(f));
}
// the formats by symbol number and the xfst listing say what the symbolic format says
LAW(att_number, 4000, 20) {
  Spec A = genText(s, false); bool w = s.chance(4, 5); c.show << "AT&T by numbers" << (w ? "" : " without weights") << A.str(); c.nontrivial = A.narcs() > 1;
  HfstBasicTransducer b = toBasic(A); std::string f = pbt::scratch_dir + "/n.att", txt; c.at("write");
  { FILE* o = fopen(f.c_str(), "wb"); b.write_in_att_format_number(o, w); fclose(o); txt = readFile(f); }
  std::map<unsigned, S> num; for (auto& v : b) for (auto& x : v) { num[x.get_input_number()] = x.get_input_symbol(); num[x.get_output_number()] = x.get_output_symbol(); }
  std::istringstream in(txt); std::string l; Spec g; g.add(); c.at("read");
  auto grow = [&](int q) { if (q < 0 || q > 100000) fail("bad state number"); while ((int)g.st.size() <= q) g.add(); };
  while (std::getline(in, l)) {
    std::vector<std::string> p; size_t i = 0; for (;;) { size_t j = l.find('\t', i); p.push_back(l.substr(i, j - i)); if (j == S::npos) break; i = j + 1; }
    if (p.size() == (w ? 5u : 4u)) { int q = atoi(p[0].c_str()), r = atoi(p[1].c_str()); grow(q); grow(r); g.arc(q, num[atoi(p[2].c_str())], num[atoi(p[3].c_str())], r, w ? atof(p[4].c_str()) : 0); }
    else if (p.size() == (w ? 2u : 1u)) { int q = atoi(p[0].c_str()); grow(q); g.fin[q] = w ? atof(p[1].c_str()) : 0; }
    else fail("line with " + std::to_string(p.size()) + " fields: " + l);
  }
  Univ u; addSyms(u, A); u.fresh(2); addSyms(u, g); Fst e = u.expand(A); if (!w) e = M::unweighted(e);
  sameRel(u, e, u.expand(g), TROPICAL_OPENFST_TYPE, A.st.size() > 8 ? 6 : 4, "AT&T by numbers"); if (g.narcs() != A.narcs()) fail("number of transitions changed");
}
static S xf(const S& x) { S r; for (char ch : x) { if (ch == '%') r += "\"%\""; else if (ch == '"') r += "%\""; else if (ch == '?') r += "\"?\""; else r += ch; } if (x == M::EPS) return "0"; if (x == M::UNK || x == M::ID) return "?"; S t; for (char ch : r) if (ch == '\t') t += "@_TAB_@"; else t += ch; return t; }
LAW(xfst_listing, 3000, 20) {
  Spec A = genText(s, false); c.show << "xfst listing" << A.str(); c.nontrivial = A.narcs() > 1; HfstBasicTransducer b = toBasic(A); Spec B = fromBasic(b); std::string txt, want; c.at("write");
  bool file = s.chance(1, 2);
  if (file) { std::string f = pbt::scratch_dir + "/x.txt"; FILE* o = fopen(f.c_str(), "wb"); b.write_in_xfst_format(o, true); fclose(o); txt = readFile(f); } else { std::ostringstream o; b.write_in_xfst_format(o, true); txt = o.str(); }
  auto st = [&](int q) { return S(q == 0 ? "S" : "") + (B.fin.count(q) ? "f" : "") + "s" + std::to_string(q); };
  for (size_t q = 0; q < B.st.size(); ++q) {
    want += st((int)q) + ":\t"; if (B.st[q].empty()) want += "(no arcs)"; bool first = true;
    for (auto& x : B.st[q]) { if (!first) want += ", "; first = false; if (x.in != x.out) want += "<" + xf(x.in) + ":" + xf(x.out) + ">"; else want += xf(x.in) + (x.out == M::UNK ? ":?" : ""); want += " -> " + st(x.to); }
    want += ".\n";
  }
  auto sorted = [](const std::string& t) { std::vector<S> ls; std::istringstream i(t); S l; while (std::getline(i, l)) { size_t k = l.find('\t'); std::multiset<S> parts; size_t p = k + 1; S body = l.substr(k + 1); (void)p; std::sort(body.begin(), body.end()); ls.push_back(l.substr(0, k) + body); } return ls; };
  if (sorted(txt) != sorted(want)) fail("listing is\n" + txt + "expected (in some order of arcs)\n" + want);
}
LAW(prolog, 9000, 20) {
  int n = 1 + s.below(3); bool w = s.chance(4, 5), std_ = s.chance(1, 3); std::vector<Spec> v; std::vector<S> names; std::string f = pbt::scratch_dir + "/t.pl"; std::ostringstream os;
  c.show << n << " in prolog format" << (w ? "" : " without weights") << (std_ ? " (std stream)" : ""); c.at("write");
  FILE* o = fopen(f.c_str(), "wb");
  for (int i = 0; i < n; ++i) {
    Spec A = genText(s, true); v.push_back(A); S nm = s.pick(std::vector<S>{"n1", "foo", "net-2", "x_y"}); if (s.chance(1, 10)) nm += std::string(s.pick(std::vector<int>{95, 99, 120, 250}), 'n'); names.push_back(nm);
    c.show << " " << nm << " " << A.str();
    if (std_) { if (i) os << "\n"; toBasic(A).write_in_prolog_format(os, nm, w); } else { if (i) fprintf(o, "\n"); toBasic(A).write_in_prolog_format(o, nm, w); }
  }
  fclose(o); c.nontrivial = v[0].narcs() > 1; c.at("read");
  FILE* in = fopen(f.c_str(), "rb"); std::istringstream is(os.str()); unsigned lc = 0;
  for (int i = 0; i < n; ++i) {
    HfstBasicTransducer b = std_ ? HfstBasicTransducer::read_in_prolog_format(is, lc) : HfstBasicTransducer::read_in_prolog_format(in, lc);
    if (b.name != names[i]) fail("name changed to " + b.name);
    check(v[i], b, w, true, "prolog transducer " + std::to_string(i));
  }
  fclose(in);
}
int main(int argc, char** argv) { return hx::main(argc, argv, "C08", "the (first) transducer has more than one transition"); }
