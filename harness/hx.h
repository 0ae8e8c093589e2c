// Glue between the reference model and libhfst.
#pragma once
#include "model.h"
#include "HfstTransducer.h"
#include "HfstInputStream.h"
#include "HfstOutputStream.h"
#include "implementations/HfstBasicTransducer.h"

namespace hx {
using namespace hfst;
using hfst::implementations::HfstBasicTransducer;
using hfst::implementations::HfstBasicTransition;
using M::Spec; using M::Fst; using M::Univ; using M::S;
using pbt::Src; using pbt::Case; using pbt::fail; using pbt::discard;

HfstBasicTransducer toBasic(const Spec& s);
HfstTransducer toHfst(const Spec& s, ImplementationType t);
Spec fromBasic(const HfstBasicTransducer& b);
Spec fromHfst(const HfstTransducer& t);
extern const std::vector<ImplementationType> TYPES;     // the four algebra back ends
const char* tname(ImplementationType t);
inline bool weightedType(ImplementationType t) { return t == TROPICAL_OPENFST_TYPE || t == LOG_OPENFST_TYPE || t == HFST_OLW_TYPE; }
ImplementationType genType(Src& s, bool log = true);

// expected and actual weighted relation agree on every pair of words up to the
// largest length bound (at most L) the budget allows
void sameRel(Univ& u, const Fst& expect, const Fst& got, ImplementationType t, int L, const std::string& what);
void samePairs(Univ& u, const Fst& expect, const Fst& got, ImplementationType t, int L, const std::string& what);
// universe for a set of specs plus whatever symbols a result mentions
void addSyms(Univ& u, const Spec& s);
std::string exc();
int main(int argc, char** argv, const char* id, const char* rule);

// run a shell-free command; returns exit code (or 1000+signal); captures stdout
int run(const std::vector<std::string>& argv, const std::string& in, std::string* out, std::string* err = nullptr);
std::string tool(const std::string& name);   // path of a command line tool built from /repo
std::string readFile(const std::string& p);
void writeFile(const std::string& p, const std::string& data);
}
