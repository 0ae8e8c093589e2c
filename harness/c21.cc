// C21: command line tools apply their operation to every transducer of their input
#include "hx.h"
#include <functional>
#include <unistd.h>
using namespace hx;
typedef std::pair<S, S> SP;
static M::GenOpt opt(Src& s, ImplementationType t) { M::GenOpt o; o.weights = t == TROPICAL_OPENFST_TYPE; o.cyclicWeights = false; o.special = 10; o.maxArcs = 5; o.letters = s.pick(std::vector<std::vector<S>>{{"a", "b", "c"}, {"a", "foo", "\xc3\xa4"}}); return o; }
static S P(const S& n) { return pbt::scratch_dir + "/" + n; }
static void writeStream(const S& path, std::vector<HfstTransducer>& v) { HfstOutputStream o(path, v[0].get_type()); for (auto& h : v) o << h; o.flush(); o.close(); }
static std::vector<HfstTransducer> readStream(const S& path) { std::vector<HfstTransducer> r; HfstInputStream in(path); while (in.is_good()) r.emplace_back(in); in.close(); return r; }
static std::vector<Spec> genStream(Src& s, const M::GenOpt& o, int max = 3) { std::vector<Spec> v; for (int n = 1 + s.below((uint32_t)max); n > 0; --n) v.push_back(M::gen(s, o)); return v; }
static std::vector<HfstTransducer> make(const std::vector<Spec>& v, ImplementationType t, bool named) { std::vector<HfstTransducer> r; int k = 0; for (auto& a : v) { r.push_back(toHfst(a, t)); if (named) r.back().set_name("name" + std::to_string(++k)); } return r; }
// run a tool with its input given as a file, an option or standard input
static int tool1(Src& s, Case& c, const S& name, const std::vector<S>& opts, std::vector<HfstTransducer>& in, S* err = nullptr) {
  writeStream(P("in"), in); unlink(P("out").c_str()); std::vector<S> av = {hx::tool(name)}; int ik = s.below(3), ok = s.below(2); S data, out, e;
  for (auto& x : opts) av.push_back(x); if (ik == 0) av.push_back(P("in")); else if (ik == 1) { av.push_back("-i"); av.push_back(P("in")); } else data = readFile(P("in")); if (!ok) { av.push_back("-o"); av.push_back(P("out")); }
  c.show << name; for (auto& x : opts) c.show << " '" << x << "'"; c.show << (ik == 2 ? " < in" : " in") << (ok ? " > out" : " -o out") << "\n"; c.at(name);
  int rc = hx::run(av, data, &out, &e); if (ok) writeFile(P("out"), out); if (err) *err = e; return rc;
}
static void same1(const Spec& want, const Spec& got, ImplementationType t, const S& what) { Univ u; addSyms(u, want); addSyms(u, got); u.fresh(2); sameRel(u, u.expand(want), u.expand(got), t, 4, what); }
static std::vector<HfstTransducer> result(int rc, const S& err, size_t n, ImplementationType t) { if (rc) fail("exit status " + std::to_string(rc) + ": " + err.substr(0, 300)); auto r = readStream(P("out")); if (r.size() != n) fail(std::to_string(n) + " transducers expected, " + std::to_string(r.size()) + " written"); for (auto& h : r) if (h.get_type() != t) fail("wrong type"); return r; }
LAW(one_input_tools, 1600, 20) {
  ImplementationType t = s.pick(std::vector<ImplementationType>{TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, TROPICAL_OPENFST_TYPE}); auto o = opt(s, t); int k = s.below(13); auto specs = genStream(s, o); c.nontrivial = specs.size() > 1; auto in = make(specs, t, s.chance(1, 2));
  c.show << tname(t) << "\n"; for (auto& a : specs) c.show << a.str() << "--\n"; S name; std::vector<S> opts; std::function<void(HfstTransducer&)> f; bool alpha = false, labels = false; ImplementationType ot = t;
  if (k == 0) { name = "hfst-invert"; f = [](HfstTransducer& h) { h.invert(); }; }
  else if (k == 1) { name = "hfst-reverse"; f = [](HfstTransducer& h) { h.reverse(); }; }
  else if (k == 2) { name = s.pick(std::vector<S>{"hfst-minimize", "hfst-determinize", "hfst-remove-epsilons"}); f = [](HfstTransducer&) {}; }
  else if (k == 3) { bool in1 = s.chance(1, 2); name = "hfst-project"; opts = {"-p", in1 ? s.pick(std::vector<S>{"upper", "input", "first", "analysis"}) : s.pick(std::vector<S>{"lower", "output", "second", "generation"})}; f = [in1](HfstTransducer& h) { if (in1) h.input_project(); else h.output_project(); }; }
  else if (k == 4) { name = "hfst-repeat"; int a = s.below(3), b = a + (int)s.below(3); if (b == 0) b = 1; bool ha = s.chance(3, 4), hb = s.chance(1, 2); if (!ha && hb) ha = true; if (ha) { opts.push_back("-f"); opts.push_back(std::to_string(a)); } if (hb) { opts.push_back("-t"); opts.push_back(std::to_string(b)); } f = [=](HfstTransducer& h) { if (!ha) h.repeat_star(); else if (hb) h.repeat_n_to_k((unsigned)a, (unsigned)b); else h.repeat_n_plus((unsigned)a); }; }
  else if (k == 5) { name = "hfst-push-weights"; opts = {"-p", s.pick(std::vector<S>{"start", "initial", "begin", "end", "final"})}; f = [](HfstTransducer&) {}; }
  else if (k == 6) { name = "hfst-prune-alphabet"; bool force = s.chance(1, 2); if (force) opts = {"-f"}; alpha = true; f = [force](HfstTransducer& h) { h.prune_alphabet(force); }; }
  else if (k == 7) { name = "hfst-fst2fst"; static const std::vector<std::pair<S, ImplementationType>> fm = {{"-f sfst", SFST_TYPE}, {"-S", SFST_TYPE}, {"-F", FOMA_TYPE}, {"-t", TROPICAL_OPENFST_TYPE}, {"-f openfst-tropical", TROPICAL_OPENFST_TYPE}, {"-f foma", FOMA_TYPE}, {"-l", LOG_OPENFST_TYPE}, {"-O", HFST_OL_TYPE}, {"-w", HFST_OLW_TYPE}, {"-f optimized-lookup-weighted", HFST_OLW_TYPE}};
    auto p = s.pick(fm); ot = p.second; std::istringstream is(p.first); for (S x; is >> x;) opts.push_back(x); if ((ot == HFST_OL_TYPE || ot == HFST_OLW_TYPE) && s.chance(1, 3)) opts.push_back("-Q"); f = [](HfstTransducer&) {}; }
  else if (k == 8) { name = "hfst-insert-freely"; SP p{s.pick(o.letters), s.pick(o.letters)}; if (s.chance(1, 2)) p.second = p.first; bool H = s.chance(1, 2); opts = {"-a", p.first == p.second && s.chance(1, 2) ? p.first : p.first + ":" + p.second}; if (H) opts.push_back("-H"); labels = !H; f = [=](HfstTransducer& h) { h.insert_freely(StringPair(p.first, p.second), H); }; }
  else if (k == 9) { name = "hfst-substitute"; SP a{s.pick(o.letters), s.pick(o.letters)}, b{s.pick(std::vector<S>{"x", "a", "b"}), s.pick(std::vector<S>{"y", "a"})}; labels = true;
    if (s.chance(1, 2)) { S y = s.chance(1, 4) ? M::EPS : b.first; opts = {"-f", a.first, "-t", y == M::EPS ? S("@0@") : y}; f = [=](HfstTransducer& h) { h.substitute(a.first, y); }; } else { opts = {"-f", a.first + ":" + a.second, "-t", b.first + ":" + b.second}; f = [=](HfstTransducer& h) { h.substitute(StringPair(a), StringPair(b)); }; } }
  else if (k == 10) { name = "hfst-substitute"; labels = true; std::vector<std::pair<SP, SP>> subs; bool prs = s.chance(1, 2), ord = s.chance(1, 2); std::set<SP> used; S file; for (int n = 1 + s.below(3); n > 0; --n) { SP a{s.pick(o.letters), s.pick(o.letters)}, b{s.pick(std::vector<S>{"x", "a", "b", "@0@"}), s.pick(std::vector<S>{"y", "a", "@0@"})}; if (!prs) { a.second = a.first; b.second = b.first; } if (!used.insert(a).second) continue; { SP e = b; for (auto* q : {&e.first, &e.second}) if (*q == "@0@") *q = M::EPS; subs.push_back({a, e}); } file += prs ? a.first + ":" + a.second + "\t" + b.first + ":" + b.second + "\n" : a.first + "\t" + b.first + "\n"; if (s.chance(1, 6)) file += s.chance(1, 2) ? "\n" : "# note\n"; }
    writeFile(P("subs"), file); c.show << "subs:\n" << file; opts = {"-F", P("subs")}; if (ord) opts.push_back("-R");
    f = [=](HfstTransducer& h) { if (ord) { for (auto& q : subs) { if (prs) h.substitute(StringPair(q.first), StringPair(q.second)); else h.substitute(q.first.first, q.second.first); } } else if (prs) { HfstSymbolPairSubstitutions m; for (auto& q : subs) m[q.first] = q.second; h.substitute(m); } else { HfstSymbolSubstitutions m; for (auto& q : subs) m[q.first.first] = q.second.first; h.substitute(m); } }; }
  else if (k == 11) { name = "hfst-substitute"; auto o2 = o; o2.maxStates = 3; o2.maxArcs = 3; Spec T = M::gen(s, o2); SP a{s.pick(o.letters), s.pick(o.letters)}; if (s.chance(1, 2)) a.second = a.first; std::vector<HfstTransducer> tv{toHfst(T, t)}; writeStream(P("repl"), tv); c.show << "by\n" << T.str(); opts = {"-f", a.first == a.second && s.chance(1, 2) ? a.first : a.first + ":" + a.second, "-T", P("repl")}; f = [=](HfstTransducer& h) { HfstTransducer r(toHfst(T, t)); h.substitute(StringPair(a), r); }; }
  else { name = "hfst-reverse"; f = [](HfstTransducer& h) { h.reverse(); }; }
  if (specs.size() > 1 && s.chance(1, 3)) opts.push_back(s.pick(std::vector<S>{"-v", "-s", "-q"}));
  S err; int rc = tool1(s, c, name, opts, in, &err); auto got = result(rc, err, in.size(), ot); c.label(name);
  for (size_t i = 0; i < in.size(); ++i) {
    f(in[i]); Spec w = fromHfst(in[i]); if (ot == HFST_OL_TYPE || ot == HFST_OLW_TYPE) got[i].convert(TROPICAL_OPENFST_TYPE); Spec g = fromHfst(got[i]); S what = "transducer " + std::to_string(i + 1);
    if (t == FOMA_TYPE && ot != t && false) continue;
    Univ u; addSyms(u, w); addSyms(u, g); u.fresh(2); sameRel(u, u.expand(w), u.expand(g), weightedType(t) && weightedType(ot) && ot != LOG_OPENFST_TYPE ? TROPICAL_OPENFST_TYPE : SFST_TYPE, 4, what);
    if (alpha && in[i].get_alphabet() != got[i].get_alphabet()) fail(what + ": alphabet");
  }
  (void)labels;
}
// weights changed, paths removed: arc by arc
LAW(weight_tools, 800, 20) {
  ImplementationType t = TROPICAL_OPENFST_TYPE; auto o = opt(s, t); o.cyclicWeights = true; auto specs = genStream(s, o); c.nontrivial = specs.size() > 1; auto in = make(specs, t, false); for (auto& a : specs) c.show << a.str() << "--\n"; S name; std::vector<S> opts; std::vector<Spec> want = specs; std::vector<S> ls = o.letters; ls.push_back(M::ID);
  auto num = [](double d) { std::ostringstream x; x << d; return x.str(); };
  if (s.chance(1, 3)) {
    name = "hfst-kill-paths"; std::set<S> dead; if (s.chance(1, 2)) { S x = s.pick(o.letters); dead = {x}; opts = {"-S", x}; } else { S file; for (int n = 1 + s.below(3); n > 0; --n) { S x = s.pick(o.letters); dead.insert(x); file += x + "\n"; if (s.chance(1, 5)) file += s.chance(1, 2) ? "\n" : "# x\n"; } writeFile(P("tsv"), file); c.show << file; opts = {"-T", P("tsv")}; }
    for (auto& a : want) { a.sigma = a.alphabet(); for (auto& v : a.st) { std::vector<M::Arc> k; for (auto& x : v) if (!dead.count(x.in) && !dead.count(x.out)) k.push_back(x); v = k; } }
  } else {
    name = "hfst-reweight"; struct R { double add, mul, lo, hi; S i, o, sy; bool ends, arcs; int fn; }; std::vector<R> rules;
    auto rnd = [&]() { return s.pick(std::vector<double>{0, 1, 0.5, 2, 3}); };
    R base{0, 1, -1e9, 1e9, "", "", "", false, false, 0};
    if (s.chance(1, 4)) { base.fn = 1 + s.below(2); opts = {"-F", base.fn == 1 ? "floor" : "ceil"}; }
    if (s.chance(1, 4)) { base.lo = rnd(); opts.insert(opts.end(), {"-l", num(base.lo)}); } if (s.chance(1, 4)) { base.hi = rnd() + 1; opts.insert(opts.end(), {"-u", num(base.hi)}); }
    if (s.chance(1, 3)) (s.chance(1, 2) ? base.ends : base.arcs) = true; if (base.ends) opts.push_back("-e"); if (base.arcs) opts.push_back("-A");
    if (s.chance(1, 3)) { S file; for (int n = 1 + s.below(3); n > 0; --n) { R r = base; r.sy = s.pick(o.letters); double v = rnd(); if (s.chance(1, 2)) { r.add = v; file += r.sy + "\t+" + num(v) + "\n"; } else { r.mul = v; file += r.sy + "\t" + num(v) + "\n"; } rules.push_back(r); if (s.chance(1, 5)) file += "# c\n"; } writeFile(P("tsv"), file); c.show << file; opts.insert(opts.end(), {"-T", P("tsv")}); }
    else { if (s.chance(1, 2)) { base.add = rnd(); opts.insert(opts.end(), {"-a", num(base.add)}); } if (s.chance(1, 2)) { base.mul = rnd(); opts.insert(opts.end(), {"-b", num(base.mul)}); } if (s.chance(1, 4)) { base.i = s.pick(o.letters); opts.insert(opts.end(), {"-I", base.i}); } if (s.chance(1, 4)) { base.o = s.pick(o.letters); opts.insert(opts.end(), {"-O", base.o}); } if (s.chance(1, 4)) { base.sy = s.pick(ls); opts.insert(opts.end(), {"-S", base.sy}); } rules.push_back(base); }
    auto app = [](const R& r, double w) { if (w < r.lo || w > r.hi) return w; double f = r.fn == 1 ? std::floor(w) : r.fn == 2 ? std::ceil(w) : w; return r.mul * f + r.add; };
    for (auto& a : want) for (auto& r : rules) { if (!r.arcs) for (auto& f : a.fin) f.second = app(r, f.second); if (!r.ends) for (auto& v : a.st) for (auto& x : v) if ((r.i.empty() || x.in == r.i) && (r.o.empty() || x.out == r.o) && (r.sy.empty() || x.in == r.sy || x.out == r.sy)) x.w = app(r, x.w); }
  }
  S err; int rc = tool1(s, c, name, opts, in, &err); auto got = result(rc, err, in.size(), t); c.label(name);
  for (size_t i = 0; i < in.size(); ++i) { Univ u; addSyms(u, want[i]); Spec g = fromHfst(got[i]); addSyms(u, g); u.fresh(2); sameRel(u, u.expand(want[i]), u.expand(g), t, 4, "transducer " + std::to_string(i + 1)); }
}
LAW(two_input_tools, 1500, 20) {
  static const std::vector<ImplementationType> ts = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE}; ImplementationType t1 = s.pick(ts), t2 = s.chance(1, 5) ? s.pick(ts) : t1; auto o = opt(s, t1); o.maxArcs = 4; o.weights = t1 == TROPICAL_OPENFST_TYPE && t1 == t2; int k = s.below(7); if (k == 5) o.acceptor = true; auto v1 = genStream(s, o), v2 = genStream(s, o); if (s.chance(2, 3)) { if (s.chance(1, 2)) v2.resize(1); else if (v2.size() > v1.size()) v2.resize(v1.size()); else while (v2.size() < v1.size()) v2.push_back(M::gen(s, o)); } if (k == 5) for (auto* v : {&v1, &v2}) for (auto& a : *v) for (auto& q : a.st) for (auto& x : q) if (x.in != x.out || M::special(x.in)) x.in = x.out = "a";
  static const std::vector<S> names = {"hfst-conjunct", "hfst-disjunct", "hfst-subtract", "hfst-concatenate", "hfst-compose", "hfst-shuffle", "hfst-priority-disjunct"}; S name = names[k]; bool noConv = s.chance(1, 6);
  c.show << name << " " << tname(t1) << " " << tname(t2) << "\n"; for (auto& a : v1) c.show << a.str() << "--\n"; c.show << "with\n"; for (auto& a : v2) c.show << a.str() << "--\n"; c.nontrivial = v1.size() > 1;
  if (t1 != t2 && (t1 == FOMA_TYPE || t2 == FOMA_TYPE) && k == 4) discard("composition of converted foma transducers");
  auto h1 = make(v1, t1, false), h2 = make(v2, t2, false); writeStream(P("in1"), h1); writeStream(P("in2"), h2); unlink(P("out").c_str());
  std::vector<S> av = {hx::tool(name)}; if (noConv) av.push_back("-C"); int ik = s.below(3); S data; if (ik == 0) { av.push_back(P("in1")); av.push_back(P("in2")); } else if (ik == 1) { av.push_back("-1"); av.push_back(P("in1")); av.push_back("-2"); av.push_back(P("in2")); } else { data = readFile(P("in1")); av.push_back("-2"); av.push_back(P("in2")); } av.push_back("-o"); av.push_back(P("out")); c.show << (noConv ? "no conversion, " : "") << "inputs " << ik << "\n"; c.at(name);
  S err; int rc = hx::run(av, data, nullptr, &err); bool ok = v1.size() == v2.size() || v2.size() == 1; c.label(name);
  if (noConv && t1 != t2) { if (!rc) fail("types differ and conversion is off, but the tool succeeds"); return; }
  if (k == 4 && v1.size() == 1 && v2.size() > 1) return;   // a composition may go on with one first transducer
  if (!ok) { if (!rc) fail("the inputs do not correspond, but the tool succeeds"); return; }
  if (rc) fail("exit status " + std::to_string(rc) + ": " + err.substr(0, 300));
  auto got = readStream(P("out")); if (got.size() != v1.size()) fail("number of transducers: " + std::to_string(got.size()));
  for (size_t i = 0; i < v1.size(); ++i) {
    ImplementationType rt = got[i].get_type(); if (t1 == t2 ? rt != t1 : rt != t1 && rt != t2) fail("type of the result"); HfstTransducer a = toHfst(v1[i], rt), b = toHfst(v2.size() == 1 ? v2[0] : v2[i], rt);
    if (k == 0) a.intersect(b); else if (k == 1) a.disjunct(b); else if (k == 2) a.subtract(b); else if (k == 3) a.concatenate(b); else if (k == 4) a.compose(b); else if (k == 5) a.shuffle(b); else a.priority_union(b);
    Spec w = fromHfst(a), g = fromHfst(got[i]); Univ u; addSyms(u, w); addSyms(u, g); u.fresh(2); sameRel(u, u.expand(w), u.expand(g), rt, 4, "transducer " + std::to_string(i + 1));
  }
}
LAW(comparison, 500, 20) {
  ImplementationType t = s.pick(std::vector<ImplementationType>{TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE}); auto o = opt(s, t); auto v1 = genStream(s, o), v2 = v1; for (auto& a : v2) if (s.chance(1, 3)) a = M::mutate(s, a, o); bool one = s.chance(1, 4); if (one) v2.resize(1); bool extra = s.chance(1, 8); if (extra) v2.push_back(M::gen(s, o)); bool q = s.chance(1, 3);
  c.show << tname(t) << "\n"; for (auto& a : v1) c.show << a.str() << "--\n"; c.show << "with\n"; for (auto& a : v2) c.show << a.str() << "--\n"; c.nontrivial = v1.size() > 1; auto h1 = make(v1, t, false), h2 = make(v2, t, false); writeStream(P("in1"), h1); writeStream(P("in2"), h2);
  std::vector<S> av = {hx::tool("hfst-compare"), P("in1"), P("in2")}; if (q) av.push_back("-s"); c.at("hfst-compare"); S out; int rc = hx::run(av, "", &out);
  if (v1.size() != v2.size() && v2.size() != 1) { if (!rc) fail("the inputs do not correspond, but the tool succeeds"); return; }
  std::vector<bool> eq; bool all = true; for (size_t i = 0; i < v1.size(); ++i) { bool e = h1[i].compare(v2.size() == 1 ? h2[0] : h2[i]); eq.push_back(e); all &= e; }
  if ((rc == 0) != all) fail(all ? "equal inputs: exit status not zero" : "different inputs: exit status zero");
  std::istringstream is(out); std::vector<bool> said; for (S l; std::getline(is, l);) { if (l.find(" == ") != S::npos) said.push_back(true); else if (l.find(" != ") != S::npos) said.push_back(false); else fail("unexpected output: " + l); }
  if (q) { if (!out.empty()) fail("silent comparison prints"); } else if (said != eq) fail("printed verdicts: " + out);
}
LAW(archive_tools, 600, 20) {
  ImplementationType t = s.pick(std::vector<ImplementationType>{TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE}); auto o = opt(s, t); o.maxArcs = 3; auto specs = genStream(s, o, 5); auto in = make(specs, t, true); int n = (int)in.size(); c.nontrivial = n > 2; c.show << tname(t) << " " << n << " transducers\n"; int k = s.below(4); S err; std::vector<int> want; for (int i = 0; i < n; ++i) want.push_back(i); std::vector<HfstTransducer> got; S newName;
  if (k == 0) { bool m = s.chance(1, 2), none = s.chance(1, 6); int q = 1 + s.below(6); std::vector<S> op = {"-n", (m ? "-" : "") + std::to_string(q)}; if (none) { op.clear(); m = false; q = 1; } int keep = m ? std::max(0, n - q) : std::min(q, n); want.resize(keep); int rc = tool1(s, c, "hfst-head", op, in, &err); if (rc) fail("exit status: " + err); if (keep == 0) { if (!readFile(P("out")).empty()) fail("something is written"); return; } got = readStream(P("out")); }
  else if (k == 1) { bool p = s.chance(1, 2), none = s.chance(1, 6); int q = 1 + s.below(6); std::vector<S> op = {"-n", (p ? "+" : "") + std::to_string(q)}; if (none) op.clear(); int from = none ? std::min(1, n) : p ? std::min(q - 1, n) : std::max(0, n - q); if (none) from = -1; if (from >= 0) want.erase(want.begin(), want.begin() + from); int rc = tool1(s, c, "hfst-tail", op, in, &err); if (rc) fail("exit status: " + err); if (none) return; if (want.empty()) { if (!readFile(P("out")).empty()) fail("something is written"); return; } got = readStream(P("out")); }
  else if (k == 2) { writeStream(P("in"), in); S d = P("split"); if (system(("mkdir -p '" + d + "' && find '" + d + "' -type f -delete").c_str())) {} c.at("hfst-split"); int rc = hx::run({hx::tool("hfst-split"), "-p", d + "/pre", "-e", ".x", P("in")}, "", nullptr, &err); if (rc) fail("exit status: " + err); for (int i = 1; i <= n; ++i) { auto r = readStream(d + "/pre" + std::to_string(i) + ".x"); if (r.size() != 1) fail("part " + std::to_string(i)); got.push_back(r[0]); } if (access((d + "/pre" + std::to_string(n + 1) + ".x").c_str(), F_OK) == 0) fail("too many parts"); }
  else { S nm = s.pick(std::vector<S>{"x", "my name", "n\xc3\xa4me", "a;b"}); int tr = s.chance(1, 4) ? 1 : 0; std::vector<S> op = {"-n", nm}; if (tr) { op.push_back("-t"); op.push_back("1"); } newName = tr ? nm.substr(0, 1) : nm; int rc = tool1(s, c, "hfst-name", op, in, &err); if (rc) fail("exit status: " + err); got = readStream(P("out")); }
  if (got.size() != want.size()) fail(std::to_string(want.size()) + " transducers expected, " + std::to_string(got.size()) + " found");
  for (size_t i = 0; i < got.size(); ++i) { if (got[i].get_name() != (k == 3 ? newName : "name" + std::to_string(want[i] + 1))) fail("name of transducer " + std::to_string(i + 1) + ": " + got[i].get_name()); same1(specs[want[i]], fromHfst(got[i]), t, "transducer " + std::to_string(i + 1)); }
}
// printed strings
LAW(printed_strings, 1500, 20) {
  ImplementationType t = s.pick(std::vector<ImplementationType>{TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE}); auto o = opt(s, t); o.special = 0; o.acyclic = true; o.maxStates = 5; o.maxArcs = 7; auto specs = genStream(s, o, 2); auto in = make(specs, t, false); bool w = s.chance(1, 2), sep = in.size() > 1, pairs = s.chance(1, 3), sp = s.chance(1, 4); std::vector<S> op; S ef; if (w) op.push_back("-w"); if (sep) op.push_back("-S"); if (pairs) op.insert(op.end(), {"-X", "print-pairs"}); if (sp) op.insert(op.end(), {"-X", "print-space"}); if (s.chance(1, 4)) { ef = "@0@"; op.insert(op.end(), {"-e", ef}); }
  int il = 0, ol = 0, mx = 0, nb = 0; S ip, opx, iu, ou; double beam = -1; if (s.chance(1, 5)) { il = 1 + s.below(4); op.insert(op.end(), {"-l", std::to_string(il)}); } if (s.chance(1, 5)) { ol = 1 + s.below(4); op.insert(op.end(), {"-L", std::to_string(ol)}); } if (s.chance(1, 5)) { ip = s.pick(o.letters); op.insert(op.end(), {"-p", ip}); } if (s.chance(1, 5)) { opx = s.pick(o.letters); op.insert(op.end(), {"-P", opx}); } if (s.chance(1, 6)) { iu = s.pick(o.letters); op.insert(op.end(), {"-u", iu}); } if (s.chance(1, 6)) { ou = s.pick(o.letters); op.insert(op.end(), {"-U", ou}); }
  if (s.chance(1, 6)) { mx = 1 + s.below(4); op.insert(op.end(), {"-n", std::to_string(mx)}); } else if (t == TROPICAL_OPENFST_TYPE && s.chance(1, 6)) { nb = 1; op.insert(op.end(), {"-N", "1"}); } (void)nb;
  if (t == TROPICAL_OPENFST_TYPE && s.chance(1, 5)) { beam = s.pick(std::vector<double>{0, 0.5, 1, 2}); std::ostringstream x; x << beam; op.insert(op.end(), {"-b", x.str()}); }
  c.show << tname(t) << "\n"; for (auto& a : specs) c.show << a.str() << "--\n"; S err;
  std::vector<std::vector<S>> want; std::vector<std::vector<double>> wts; bool empty = false;
  for (auto& h : in) {
    Spec g = fromHfst(h); struct Q { std::vector<SP> v; double w; }; std::vector<Q> all; std::function<void(int, Q)> go = [&](int st, Q q) { if (all.size() > 400) discard("too many paths"); auto f = g.fin.find(st); if (f != g.fin.end()) { Q r = q; r.w += f->second; all.push_back(r); } for (auto& a : g.st[st]) { Q r = q; r.v.push_back({a.in, a.out}); r.w += a.w; go(a.to, r); } }; if (!g.st.empty()) go(0, {{}, 0});
    double best = M::INF; for (auto& q : all) best = std::min(best, q.w); if (all.empty()) empty = true;
    std::vector<S> ls; std::vector<double> ws;
    for (auto& q : all) {
      S a, b; for (auto& p : q.v) { if (p.first != M::EPS) a += p.first; if (p.second != M::EPS) b += p.second; }
      if ((il && (int)a.size() > il) || (ol && (int)b.size() > ol) || a.compare(0, ip.size(), ip) || b.compare(0, opx.size(), opx) || (!iu.empty() && a.find(iu) != S::npos) || (!ou.empty() && b.find(ou) != S::npos) || (beam >= 0 && q.w > best + beam + 1e-6)) continue;
      auto pf = [&](const S& x) { return x == M::EPS ? ef : x; }; S l; bool aut = true; for (auto& p : q.v) aut &= p.first == p.second;
      if (pairs) { bool f = true; for (auto& p : q.v) { if (sp && !f) l += " "; f = false; l += pf(p.first); if (p.first != p.second) l += ":" + pf(p.second); } }
      else { bool f = true; for (auto& p : q.v) { if (sp && !f) l += " "; f = false; l += pf(p.first); } if (sp) l += " "; if (!aut) { l += ":"; for (auto& p : q.v) { if (sp) l += " "; l += pf(p.second); } } }
      if (w) { std::ostringstream x; x << (float)q.w; l += "\t" + x.str(); } ls.push_back(l); ws.push_back(q.w);
    }
    want.push_back(ls); wts.push_back(ws);
  }
  if (empty && beam >= 0) discard("beam of an empty transducer"); if (nb && (beam >= 0 || il || ol || !ip.empty() || !opx.empty() || !iu.empty() || !ou.empty() || !ef.empty() || sp || pairs)) discard("best strings with filters");
  int rc; { writeStream(P("in"), in); std::vector<S> av = {hx::tool("hfst-fst2strings")}; av.insert(av.end(), op.begin(), op.end()); av.push_back(P("in")); c.show << "hfst-fst2strings"; for (auto& x : op) c.show << " '" << x << "'"; c.show << "\n"; c.at("hfst-fst2strings"); S out; rc = hx::run(av, "", &out, &err); writeFile(P("out"), out); } if (rc) fail("exit status " + std::to_string(rc) + ": " + err.substr(0, 200));
  std::vector<std::vector<S>> got{{}}; std::istringstream is(readFile(P("out"))); for (S l; std::getline(is, l);) { if (l == "--") got.push_back({}); else got.back().push_back(l); }
  if (got.size() != in.size()) fail("number of transducers printed: " + std::to_string(got.size()));
  for (size_t i = 0; i < in.size(); ++i) {
    std::set<S> a(want[i].begin(), want[i].end()), b(got[i].begin(), got[i].end()); c.nontrivial = c.nontrivial || a.size() > 2;
    for (auto& x : b) if (!a.count(x)) fail("printed but not a path: [" + x + "]");
    if (mx) { if ((int)got[i].size() != std::min<int>(mx, (int)want[i].size()) && (int)b.size() < std::min<int>(mx, (int)a.size())) fail(std::to_string(got[i].size()) + " strings printed"); continue; }
    if (nb) { if (b.size() != (a.empty() ? 0u : 1u)) fail("best string: " + std::to_string(b.size()) + " printed"); if (!a.empty()) { double m = *std::min_element(wts[i].begin(), wts[i].end()); bool ok = false; for (size_t k = 0; k < want[i].size(); ++k) ok |= want[i][k] == *b.begin() && wts[i][k] < m + 1e-4; if (!ok) fail("the string printed is not the best: [" + *b.begin() + "]"); } continue; }
    for (auto& x : a) if (!b.count(x)) fail("missing: [" + x + "]");
  }
}
int main(int argc, char** argv) { return hx::main(argc, argv, "C21", "the input has several transducers; printed strings: more than two strings"); }
