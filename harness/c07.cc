// C07: transducers written to a binary stream are read back unchanged, all of
// them, in order, with names and properties
#include "hx.h"
#include <fstream>
using namespace hx;
static const std::vector<ImplementationType> ALL = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE, HFST_OLW_TYPE, HFST_OL_TYPE};
static std::string genText(Src& s, bool longer) {
  static const std::vector<std::string> bits = {"a", "", " ", "name", "\xc3\xa4", "\n", "\t", "x:y", "HFST", "version", "=", "\"", "\x01"};
  std::string r; int n = s.below(4); for (int i = 0; i < n; ++i) r += s.pick(bits);
  if (longer && s.chance(1, 40)) r += std::string(s.pick(std::vector<int>{31800, 32500, 32700, 32740, 33000, 40000, 50000}) + s.below(40), 'z');
  if (longer && s.chance(1, 6)) r += std::string(s.pick(std::vector<int>{200, 255, 256, 400, 513, 70, 5000}) + s.below(3), 'y');
  return r;
}
static void streams(Src& s, Case& c, bool big) {
  ImplementationType t = ALL[s.below(6)]; int n = s.weighted({1, 6, 4, 2, 2}); if (big) n = 1 + s.below(4);
  std::string f = pbt::scratch_dir + "/s.hfst"; std::vector<Spec> specs; std::vector<std::map<std::string, std::string>> props; std::vector<Spec> before;
  c.show << tname(t) << " stream of " << n << ":"; c.at("writing");
  {
    HfstOutputStream out(f, t);
    for (int i = 0; i < n; ++i) {
      M::GenOpt o; o.letters = M::genLetters(s, true); o.maxStates = 5; o.maxArcs = 8; o.negative = s.chance(1, 5);
      Spec A = big ? M::genLexicon(s, s.pick(std::vector<int>{20, 100, 300}), s.pick(std::vector<int>{4, 40, 200}), 7, true) : M::gen(s, o);
      HfstTransducer h = toHfst(A, t);
      for (int k = s.below(3); k > 0; --k) { std::string key = s.pick(std::vector<std::string>{"language", "formulaic-definition", "p1", "\xc3\xa4", "long property name with spaces"}); h.set_property(key, genText(s, true)); }
      if (s.chance(2, 3)) h.set_name(genText(s, true));
      specs.push_back(A); props.push_back(h.get_properties()); before.push_back(fromHfst(h));
      c.show << " [" << i << "] "; for (auto& p : h.get_properties()) c.show << "{" << p.first << "=" << (p.second.size() > 60 ? std::to_string(p.second.size()) + " bytes" : p.second) << "}"; c.show << (big ? std::to_string(A.st.size()) + " states" : A.str());
      size_t bytes = 0; for (auto& p : props.back()) bytes += p.first.size() + p.second.size() + 2;
      try { out << h; } catch (HfstFatalException&) { // the length of a header is stored in 16 bits
        if (bytes < 65000) fail("a header of about " + std::to_string(bytes) + " bytes was refused"); discard("header over 65535 bytes"); }
      if (bytes > 65536) fail("a header of " + std::to_string(bytes) + " bytes was written, longer than can be stored");
      if (h.get_properties() != props.back()) fail("writing changed the properties in memory");
    }
    out.close();
  }
  c.nontrivial = n > 0; c.label(tname(t)); if (n > 1) c.label("several");
  if (n == 0) return;
  c.at("reading");
  std::ifstream ifs; HfstInputStream* in;
  bool viaStd = s.chance(1, 4) && t != SFST_TYPE && t != FOMA_TYPE; if (viaStd) { ifs.open(f, std::ios::binary); in = new HfstInputStream(ifs); c.show << " (std::istream)"; } else in = new HfstInputStream(f);
  if (in->get_type() != t) fail("the stream does not report the type it was written with");
  if (!in->is_hfst_header_included()) fail("the stream does not report its header");
  for (int i = 0; i < n; ++i) {
    if (in->is_eof()) fail("end of stream after " + std::to_string(i) + " of " + std::to_string(n) + " transducers");
    HfstTransducer h(*in); std::string at = "transducer " + std::to_string(i);
    if (h.get_type() != t) fail(at + ": wrong type");
    auto p = h.get_properties(); auto q = props[i];
    for (auto& x : q) { auto it = p.find(x.first); if (it == p.end() ? !x.second.empty() : it->second != x.second) fail(at + ": property " + x.first + " changed to '" + (it == p.end() ? "nothing" : it->second) + "'"); }
    for (auto& x : p) if (x.first != "type" && x.first != "version" && x.first != "name" && x.first != "minimal" && !q.count(x.first)) fail(at + ": property " + x.first + " appeared");
    if (h.get_name() != (q.count("name") ? q["name"] : "")) fail(at + ": name changed");
    Univ u; addSyms(u, specs[i]); addSyms(u, before[i]); u.fresh(2); Spec g = fromHfst(h); addSyms(u, g);
    if (g.alphabet() != before[i].alphabet()) fail(at + ": alphabet changed");
    Fst e = u.expand(specs[i]); if (!weightedType(t)) e = M::unweighted(e);
    sameRel(u, e, u.expand(g), weightedType(t) ? TROPICAL_OPENFST_TYPE : SFST_TYPE, big ? 7 : 4, at);
  }
  if (!in->is_eof()) fail("the stream is not at its end after the last transducer");
  try { HfstTransducer h(*in); fail("a transducer was read past the end of the stream"); } catch (HfstException&) {}
  in->close(); delete in;
}
LAW(streams, 12000, 20) { streams(s, c, false); }
LAW(lexicon_streams, 800, 20) { streams(s, c, true); }
// native formats of the back ends, without the HFST header
LAW(native, 4000, 20) {
  ImplementationType t = TYPES[s.below(2)];
  M::GenOpt o; o.letters = M::genLetters(s); o.maxStates = 5; o.maxArcs = 8; Spec A = M::gen(s, o); std::string f = pbt::scratch_dir + "/n.fst";
  c.show << tname(t) << " native format " << A.str(); HfstTransducer h = toHfst(A, t); Spec b = fromHfst(h);
  c.at("writing"); { HfstOutputStream out(f, t, false); out << h; out.close(); }
  c.at("reading"); HfstInputStream in(f); if (in.get_type() != t) fail("type of native format not recognized"); if (in.is_hfst_header_included()) fail("reports a header that is not there");
  HfstTransducer r(in); Univ u; addSyms(u, A); u.fresh(2); Spec g = fromHfst(r); addSyms(u, g);
  Fst e = u.expand(A); if (!weightedType(t)) e = M::unweighted(e); c.nontrivial = M::trim(e).st.size() > 1;
  sameRel(u, e, u.expand(g), t, 4, "native format");
}
// a stream only takes transducers of its own type
LAW(type_mismatch, 400, 5) {
  ImplementationType t = ALL[s.below(6)], q = ALL[s.below(6)]; if (t == q) discard("same type");
  M::GenOpt o; Spec A = M::gen(s, o); c.show << tname(q) << " into " << tname(t) << " stream"; c.nontrivial = true;
  HfstTransducer h = toHfst(A, q), g = toHfst(A, t); std::string f = pbt::scratch_dir + "/m.hfst";
  { HfstOutputStream out(f, t); out << g; try { out << h; fail("a transducer of another type was accepted"); } catch (HfstException&) {} out << g; out.close(); }
  HfstInputStream in(f); int n = 0; while (!in.is_eof()) { HfstTransducer x(in); ++n; if (x.get_type() != t) fail("wrong type"); } if (n != 2) fail("stream has " + std::to_string(n) + " transducers instead of 2");
}
int main(int argc, char** argv) { return hx::main(argc, argv, "C07", "at least one transducer went through the stream (native: with more than one useful state)"); }
