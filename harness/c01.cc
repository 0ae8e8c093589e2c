// C01: rational operations compute the textbook weighted relation
#include "hx.h"
#include <memory>
using namespace hx;

namespace {
enum Op { LEAF, UNION, CONCAT, STAR, PLUS, OPT, POW, POWP, POWM, POWNK, REV, INV, PIN, POUT, NOPS };
const char* names[] = {"leaf", "disjunct", "concatenate", "repeat_star", "repeat_plus", "optionalize", "repeat_n", "repeat_n_plus", "repeat_n_minus", "repeat_n_to_k", "reverse", "invert", "input_project", "output_project"};
struct E { Op op = LEAF; std::shared_ptr<E> l, r; int n = 0, k = 0; Spec leaf; };
typedef std::shared_ptr<E> EP;
EP gen(Src& s, int depth, const M::GenOpt& o) {
  auto e = std::make_shared<E>();
  if (depth > 0 && s.chance(3, 4)) e->op = (Op)(1 + s.below(NOPS - 1));
  if (e->op == LEAF) { e->leaf = M::gen(s, o); return e; }
  e->l = gen(s, depth - 1, o);
  if (e->op == UNION || e->op == CONCAT) e->r = gen(s, depth - 1, o);
  if (e->op == POW || e->op == POWP || e->op == POWM || e->op == POWNK) { e->n = s.below(4); e->k = e->n + s.below(3); }
  return e;
}
void syms(const EP& e, Univ& u) { if (!e) return; if (e->op == LEAF) addSyms(u, e->leaf); syms(e->l, u); syms(e->r, u); }
void print(const EP& e, std::ostream& o) {
  if (e->op == LEAF) { o << e->leaf.str(); return; }
  o << names[e->op]; if (e->op >= POW && e->op <= POWNK) o << "<" << e->n << (e->op == POWNK ? "," + std::to_string(e->k) : "") << ">";
  o << "("; print(e->l, o); if (e->r) { o << ", "; print(e->r, o); } o << ")";
}
HfstTransducer ev(const EP& e, ImplementationType t) {
  if (e->op == LEAF) return toHfst(e->leaf, t);
  HfstTransducer a = ev(e->l, t);
  switch (e->op) {
    case UNION: { HfstTransducer b = ev(e->r, t); a.disjunct(b); break; }
    case CONCAT: { HfstTransducer b = ev(e->r, t); a.concatenate(b); break; }
    case STAR: a.repeat_star(); break;
    case PLUS: a.repeat_plus(); break;
    case OPT: a.optionalize(); break;
    case POW: a.repeat_n(e->n); break;
    case POWP: a.repeat_n_plus(e->n); break;
    case POWM: a.repeat_n_minus(e->n); break;
    case POWNK: a.repeat_n_to_k(e->n, e->k); break;
    case REV: a.reverse(); break;
    case INV: a.invert(); break;
    case PIN: a.input_project(); break;
    case POUT: a.output_project(); break;
    default: break;
  }
  return a;
}
Fst mv(const EP& e, Univ& u) {
  if (e->op == LEAF) return u.expand(e->leaf);
  Fst a = mv(e->l, u);
  switch (e->op) {
    case UNION: return M::unite(a, mv(e->r, u));
    case CONCAT: return M::concat(a, mv(e->r, u));
    case STAR: return M::star(a);
    case PLUS: return M::plus(a);
    case OPT: return M::opt(a);
    case POW: return M::power(a, e->n);
    case POWP: return M::concat(M::power(a, e->n), M::star(a));
    case POWM: { Fst r = M::epsilon(); for (int i = 0; i < e->n; ++i) r = M::unite(M::epsilon(), M::concat(a, r)); return r; }
    case POWNK: { Fst r = M::power(a, e->n), q = M::empty(); for (int i = e->n; i <= e->k; ++i) q = M::unite(q, M::power(a, i)); return q; }
    case REV: return M::reverse(a);
    case INV: return M::invert(a);
    case PIN: return M::projIn(a);
    case POUT: return M::projOut(a);
    default: return a;
  }
}
// in the log semiring a bounded repetition, or a projection of an unknown symbol,
// has no canonical path count
bool ambiguousRepeat(const EP& e) { return e && ((e->op == LEAF && e->leaf.has_special()) || e->op == POWM || e->op == POWNK || ambiguousRepeat(e->l) || ambiguousRepeat(e->r)); }
}

static void run_expr(Src& s, Case& c, ImplementationType t, int depth, const M::GenOpt& o) {
  EP e = gen(s, depth, o);
  c.show << tname(t) << ": "; print(e, c.show);
  Univ u; syms(e, u); u.fresh(2);
  c.at(std::string("evaluating on ") + tname(t));
  HfstTransducer h = ev(e, t);
  Spec got = fromHfst(h);
  addSyms(u, got);
  Fst exp = mv(e, u), g = u.expand(got);
  c.nontrivial = e->op != LEAF && M::trim(exp).st.size() > 1;
  c.label(tname(t)); if (e->op != LEAF) c.label(names[e->op]);
  sameRel(u, exp, g, t == LOG_OPENFST_TYPE && ambiguousRepeat(e) ? SFST_TYPE : t, 4, names[e->op]);
}
LAW(tropical_ops, 4000, 20) { M::GenOpt o; run_expr(s, c, TROPICAL_OPENFST_TYPE, 1 + s.below(3), o); }
LAW(sfst_ops, 4000, 20) { M::GenOpt o; run_expr(s, c, SFST_TYPE, 1 + s.below(3), o); }
LAW(foma_ops, 4000, 20) { M::GenOpt o; run_expr(s, c, FOMA_TYPE, 1 + s.below(3), o); }
LAW(log_ops, 4000, 20) { M::GenOpt o; o.acyclic = s.chance(1, 2); run_expr(s, c, LOG_OPENFST_TYPE, 1 + s.below(2), o); }

int main(int argc, char** argv) {
  return hx::main(argc, argv, "C01", "an operation (not a bare operand) was applied and the expected relation is not empty or trivial (trimmed model has more than one state)");
}
