#include "hx.h"
#include "HfstExceptionDefs.h"
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>

namespace hx {
const std::vector<ImplementationType> TYPES = {TROPICAL_OPENFST_TYPE, SFST_TYPE, FOMA_TYPE, LOG_OPENFST_TYPE};
const char* tname(ImplementationType t) {
  switch (t) { case SFST_TYPE: return "sfst"; case TROPICAL_OPENFST_TYPE: return "tropical"; case LOG_OPENFST_TYPE: return "log"; case FOMA_TYPE: return "foma"; case HFST_OL_TYPE: return "ol"; case HFST_OLW_TYPE: return "olw"; default: return "?"; }
}
ImplementationType genType(Src& s, bool log) { return TYPES[s.below(log ? 4 : 3)]; }

HfstBasicTransducer toBasic(const Spec& s) {
  HfstBasicTransducer b;
  for (size_t i = 1; i < s.st.size(); ++i) b.add_state((unsigned)i);
  for (size_t i = 0; i < s.st.size(); ++i) for (auto& a : s.st[i]) b.add_transition((unsigned)i, HfstBasicTransition((unsigned)a.to, a.in, a.out, (float)a.w));
  for (auto& f : s.fin) b.set_final_weight((unsigned)f.first, (float)f.second);
  for (auto& x : s.sigma) b.add_symbol_to_alphabet(x);
  return b;
}
HfstTransducer toHfst(const Spec& s, ImplementationType t) { return HfstTransducer(toBasic(s), t); }
Spec fromBasic(const HfstBasicTransducer& b) {
  Spec s; s.add();
  for (unsigned i = 1; i <= b.get_max_state(); ++i) s.add();
  unsigned i = 0;
  for (auto it = b.begin(); it != b.end(); ++it, ++i)
    for (auto& t : *it) {
      while (t.get_target_state() >= s.st.size()) s.add();
      s.arc((int)i, t.get_input_symbol(), t.get_output_symbol(), (int)t.get_target_state(), t.get_weight());
    }
  for (unsigned k = 0; k <= b.get_max_state(); ++k) if (b.is_final_state(k)) s.fin[(int)k] = b.get_final_weight(k);
  for (auto& x : b.get_alphabet()) if (!M::special(x)) s.sigma.insert(x);
  return s;
}
Spec fromHfst(const HfstTransducer& t) { return fromBasic(HfstBasicTransducer(t)); }
void addSyms(Univ& u, const Spec& s) { u.addAll(s.alphabet()); }

void sameRel(Univ& u, const Fst& e, const Fst& g, ImplementationType t, int L, const std::string& what) {
  bool w = weightedType(t);
  for (int l = L; l >= 1; --l) {
    try {
      if (t == LOG_OPENFST_TYPE) {
        // no finite sum to compare when a result has epsilon cycles: compare supports
        if (M::epsCycle(e) || M::epsCycle(g)) {
          auto d = M::diff(M::rel(e, l, l), M::rel(g, l, l), u, false);
          if (!d.empty()) fail(what + ": " + d);
          return;
        }
        auto d = M::diff(M::rellog(e, l, l), M::rellog(g, l, l), u, true, 2e-3);
        if (!d.empty()) fail(what + ": " + d);
        return;
      }
      auto d = M::diff(M::rel(e, l, l), M::rel(g, l, l), u, w);
      if (!d.empty()) fail(what + ": " + d);
      return;
    } catch (M::TooBig&) { if (l == 1) discard("relation too big"); }
  }
}
void samePairs(Univ& u, const Fst& e, const Fst& g, ImplementationType t, int L, const std::string& what) {
  for (int l = L; l >= 1; --l) {
    try {
      auto d = M::diffp(M::pairs(e, l), M::pairs(g, l), u, t == TROPICAL_OPENFST_TYPE);
      if (!d.empty()) fail(what + ": " + d);
      return;
    } catch (M::TooBig&) { if (l == 1) discard("relation too big"); }
  }
}
std::string exc() {
  try { throw; }
  catch (HfstException& e) { return e.what(); }
  catch (std::exception& e) { return std::string("std::exception ") + e.what(); }
  catch (M::TooBig&) { return "model too big"; }
  catch (const char* s) { return s; }
  catch (std::string& s) { return s; }
  catch (...) { auto* t = abi::__cxa_current_exception_type(); return t ? t->name() : "unknown"; }
}
int main(int argc, char** argv, const char* id, const char* rule) {
  pbt::exception_hook = exc;
  pbt::set_property(id, rule);
  return pbt::engine_main(argc, argv);
}
std::string readFile(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
void writeFile(const std::string& p, const std::string& d) { std::ofstream f(p, std::ios::binary); f.write(d.data(), (std::streamsize)d.size()); }
std::string tool(const std::string& name) { const char* d = getenv("VERIF_TOOLS"); return std::string(d ? d : "/verif/build/plain/bin") + "/" + name; }
int run(const std::vector<std::string>& av, const std::string& in, std::string* out, std::string* err) {
  // files rather than pipes: no deadlocks whatever the tool does
  std::string b = pbt::scratch_dir + "/run"; writeFile(b + ".in", in);
  pid_t p = fork();
  if (p == 0) {
    int a = open((b + ".in").c_str(), O_RDONLY), o = open((b + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open((b + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(a, 0); dup2(o, 1); dup2(e, 2); close(a); close(o); close(e);
    std::vector<char*> v; for (auto& x : av) v.push_back(const_cast<char*>(x.c_str())); v.push_back(nullptr);
    signal(SIGPIPE, SIG_DFL);
    execv(v[0], v.data()); _exit(127);
  }
  int st = 0;
  // bounded wait: 60 s of wall clock, far beyond any tool's normal milliseconds
  for (long us = 0;;) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; usleep(us < 20000 ? 200 : 5000); us += us < 20000 ? 200 : 5000; if (us > 120000000L) { kill(p, SIGKILL); waitpid(p, &st, 0); break; } }
  if (out) *out = readFile(b + ".out"); if (err) *err = readFile(b + ".err");
  if (WIFSIGNALED(st)) return 1000 + WTERMSIG(st);
  return WEXITSTATUS(st);
}
}
