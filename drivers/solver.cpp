// Conflict analysis of the real solver, stopped at every conflict: the conflict limit makes propagate() return before the repair.
#include "SAT-types.hpp"
#include "src/solver/NapSAT.hpp"
#include "common.hpp"
#include <vector>
#include <algorithm>
using namespace napsat;
typedef std::vector<int> C;
typedef std::set<unsigned> K;
static int sgn(unsigned x) { return x & 1 ? (int)(x >> 1) : -(int)(x >> 1); }
static std::string str(const std::vector<unsigned>& c) { std::string s = "("; for (unsigned x : c) s += (s.size() > 1 ? " " : "") + std::to_string(sgn(x)); return s + ")"; }
static bool holds(unsigned a, unsigned x) { return ((a >> ((x >> 1) - 1)) & 1) == (x & 1); }

struct World {
  Rng& r; std::string prop; unsigned n; int mode; NapSAT* s = nullptr;
  std::vector<std::vector<unsigned>> F; std::vector<unsigned> models; unsigned conflicts = 0;
  World(Rng& r, std::string p) : r(r), prop(p), n(2 + r.below(8)), mode(r.below(3)) {}
  ~World() { delete s; }
  void make()
  {
    options o; o.save_state_on_interrupt = false; o.conflict_limit = 0;
    if (mode >= 1) o.chronological_backtracking = true;
    if (mode == 2) o.lazy_strong_chronological_backtracking = true;
    o.restarts = r.chance(20); o.delete_clauses = false;
    hist("solver with %u variables, %s\n", n, mode == 0 ? "non-chronological" : mode == 1 ? "chronological" : "lazy strong chronological");
    s = new NapSAT(r.chance(50) ? 0 : n, 0, o);
    unsigned m = n * (2 + r.below(4)) + r.below(5), wide = 2 + r.below(r.chance(20) ? n + 1 : 3);
    for (unsigned i = 0; i < m; i++) {
      std::vector<unsigned> c; unsigned w = r.chance(3) ? 1 : 2 + r.below(wide - 1);
      for (unsigned j = 0; j < w; j++) { unsigned x = 2 * (1 + r.below(n)) + r.below(2); c.push_back(x); if (r.chance(5)) c.push_back(x); }
      F.push_back(c);
    }
    for (unsigned a = 0; a < (1u << n); a++) {
      bool ok = true;
      for (auto& c : F) if (std::none_of(c.begin(), c.end(), [&](unsigned x) { return holds(a, x); })) { ok = false; break; }
      if (ok) models.push_back(a);
    }
    for (auto& c : F) { hist("add_clause %s\n", str(c).c_str()); std::vector<Tlit> l; for (unsigned x : c) l.push_back(Tlit(x)); s->add_clause(l.data(), l.size()); }
  }
  bool entailed(const std::vector<unsigned>& c) { for (unsigned a : models) if (std::none_of(c.begin(), c.end(), [&](unsigned x) { return holds(a, x); })) return false; return true; }
  void database()
  {
    for (unsigned i = 0; i < s->_clauses.size().value; i++) {
      auto& k = s->_clauses[Tclause(i)]; if (k.deleted) continue;
      std::vector<unsigned> c; for (unsigned j = 0; j < k.size; j++) c.push_back(k.lits[j].value);
      if (!entailed(c)) fail("the solver holds the clause " + str(c) + ", which does not follow from the clauses added");
    }
  }
  void marks() { for (unsigned v = 1; v < s->_vars.size().value; v++) if (s->_vars[Tvar(v)].marked) fail("variable " + std::to_string(v) + " stays marked after the analysis"); }
  void analyse(Tclause cl)
  {
    Tlevel l = 0; std::vector<unsigned> in; unsigned z = s->_clauses[cl].size;
    for (unsigned j = 0; j < z; j++) { unsigned x = s->_clauses[cl].lits[j].value; in.push_back(x); if (s->_vars[Tvar(x >> 1)].state == Tval::UNDEF || (unsigned)s->_vars[Tvar(x >> 1)].state != !(x & 1)) return; l = std::max(l, s->_vars[Tvar(x >> 1)].level); }
    if (l == 0 || !s->_conflicts.size()) return;
    for (unsigned j = 0; j < z; j++) s->_lit_buffer[j] = s->_clauses[cl].lits[j];
    s->_lit_buffer_size = z; hist("analyze_conflict of %s at level %u\n", str(in).c_str(), l.value);
    s->analyze_conflict(l);
    std::vector<unsigned> c; for (unsigned j = 0; j < s->_lit_buffer_size; j++) c.push_back(s->_lit_buffer[j].value);
    s->_lit_buffer_size = 0; hist("  gives %s\n", str(c).c_str());
    if (prop == "N01") { if (!entailed(c)) fail("the learned clause " + str(c) + " does not follow from the clauses"); return; }
    marks();
    if (c.empty()) fail("nothing is learned from a conflict above the root level");
    for (size_t j = 0; j < c.size(); j++) {
      auto& v = s->_vars[Tvar(c[j] >> 1)];
      if (v.state == Tval::UNDEF || (unsigned)v.state == (c[j] & 1)) fail("literal " + std::to_string(sgn(c[j])) + " of the learned clause " + str(c) + " is not false");
      if (v.level == 0) fail("literal " + std::to_string(sgn(c[j])) + " of the learned clause " + str(c) + " is at the root level");
      if (j > 0 && v.level == l) fail("literal " + std::to_string(sgn(c[j])) + " of the learned clause " + str(c) + " is at the conflict level too");
      if (j == 0 && !(v.level == l)) fail("the first literal of the learned clause " + str(c) + " is not at the conflict level");
    }
    conflicts++;
  }
  // the preconditions the contracts assume (built with -DPRE only)
  void pre()
  {
    unsigned tn = s->_trail.size(); std::vector<int> pos(s->_vars.size().value, -1);
    for (unsigned k = 0; k < tn; k++) { unsigned x = s->_trail[k].value; if (pos[x >> 1] >= 0) fail("pre: twice on the trail"); pos[x >> 1] = k; if ((unsigned)s->_vars[Tvar(x >> 1)].state != (x & 1)) fail("pre: not assigned"); }
    std::set<unsigned> dec;
    for (unsigned k = 0; k < tn; k++) {
      unsigned x = s->_trail[k].value; auto& v = s->_vars[Tvar(x >> 1)];
      auto isfalse = [&](unsigned y) { return pos[y >> 1] >= 0 && s->_trail[pos[y >> 1]].value == (y ^ 1); };
      if (v.reason == CLAUSE_UNDEF && v.missed_lower_implication == CLAUSE_UNDEF && v.level.value != 0) { if (!dec.insert(v.level.value).second) fail("pre: two decisions"); }
      if (v.level.value == 0 && !entailed({x})) fail("pre: root literal does not hold");
      for (int z = 0; z < 2; z++) {
        Tclause cl = z ? v.missed_lower_implication : v.reason; if (cl == CLAUSE_UNDEF) continue;
        auto& c = s->_clauses[cl]; if (c.deleted) fail("pre: deleted reason"); if (c.lits[0].value != x) fail("pre: first literal");
        for (unsigned j = 1; j < c.size; j++) { unsigned y = c.lits[j].value; if (!isfalse(y)) fail("pre: not false"); if ((y >> 1) == (x >> 1)) fail("pre: own var"); if (!z && pos[y >> 1] >= (int)k) fail("pre: reason order"); if (!z && s->_vars[Tvar(y >> 1)].level.value > v.level.value) fail("pre: reason level"); if (z && s->_vars[Tvar(y >> 1)].level.value >= v.level.value) fail("pre: lazy level"); }
      }
    }
  }
  // a trail built by hand: decisions, implied literals with their reasons, missed lower implications, and a conflict over them
  unsigned clause(const std::vector<unsigned>& c)
  {
    Tclause id = s->next_clause_id(c.size()); auto& k = s->_clauses[id];
    for (size_t j = 0; j < c.size(); j++) k.lits[j] = Tlit(c[j]);
    k.size = c.size(); k.deleted = false; F.push_back(c); return id.value;
  }
  void by_hand()
  {
    options o; o.save_state_on_interrupt = false; o.chronological_backtracking = o.lazy_strong_chronological_backtracking = true;
    n = 3 + r.below(8); s = new NapSAT(r.chance(50) ? 0 : n, 0, o); s->var_allocate(Tvar(n));
    std::vector<unsigned> vs; for (unsigned v = 1; v <= n; v++) vs.push_back(v);
    for (size_t i = n; i > 1; i--) std::swap(vs[i - 1], vs[r.below(i)]);
    unsigned m = 2 + r.below(n - 1), top = 0; std::vector<unsigned> T, lev(n + 1, 0);
    hist("trail by hand over %u variables\n", n);
    for (unsigned k = 0; k < m; k++) {
      unsigned x = 2 * vs[k] + r.below(2), l = 0; auto& v = s->_vars[Tvar(x >> 1)];
      std::vector<unsigned> c = {x};
      if (k > 0 && (top == 0 ? r.chance(30) : r.chance(70))) { unsigned w = 1 + r.below(3); for (unsigned j = 0; j < w; j++) { unsigned y = T[r.chance(60) ? k - 1 - r.below(std::min(k, 3u)) : r.below(k)]; if (std::find(c.begin(), c.end(), y ^ 1) == c.end()) { c.push_back(y ^ 1); l = std::max(l, lev[y >> 1]); } } }
      bool decision = c.size() == 1 && !(top == 0 && r.chance(50));
      v.state = Tval(x & 1); v.reason = CLAUSE_UNDEF;
      if (decision) l = ++top; else v.reason = Tclause(clause(c));
      v.level = Tlevel(l); lev[x >> 1] = l; T.push_back(x); s->_trail.push_back(Tlit(x));
      hist("  %d at level %u%s%s\n", sgn(x), l, decision ? ", decision" : " by ", decision ? "" : str(c).c_str());
    }
    std::vector<unsigned> at; for (unsigned x : T) if (lev[x >> 1] == top) at.push_back(x);
    if (top == 0) return;
    for (unsigned x : T) if (lev[x >> 1] > 0 && r.chance(30)) {
      std::vector<unsigned> c = {x}; unsigned w = 1 + r.below(3);
      for (unsigned j = 0; j < w; j++) { unsigned y = T[r.below(m)]; if (lev[y >> 1] < lev[x >> 1] && std::find(c.begin(), c.end(), y ^ 1) == c.end()) c.push_back(y ^ 1); }
      if (c.size() == 1) continue;
      s->_vars[Tvar(x >> 1)].missed_lower_implication = Tclause(clause(c)); hist("  missed lower implication of %d: %s\n", sgn(x), str(c).c_str());
    }
    unsigned l = 1 + r.below(top); if (r.chance(60)) l = top;
    std::vector<unsigned> c; for (unsigned x : T) if (lev[x >> 1] <= l && r.chance(35)) c.push_back(x ^ 1);
    bool has = false; for (unsigned x : c) has |= lev[x >> 1] == l;
    if (!has) for (unsigned x : T) if (lev[x >> 1] == l) { c.push_back(x ^ 1); break; }
    for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[r.below(i)]);
    Tclause cl(clause(c));
    for (unsigned a = 0; a < (1u << n); a++) { bool ok = true; for (auto& c : F) ok = ok && std::any_of(c.begin(), c.end(), [&](unsigned x) { return holds(a, x); }); if (ok) models.push_back(a); }
    s->_conflicts.push_back(cl);
    analyse(cl);
    s->_conflicts.clear(); s->_status = status::UNSAT;
  }
  void run()
  {
    if (r.chance(75)) { by_hand(); return; }
    make();
    if (prop == "N01") database();
    bool wild = r.chance(40);
    for (unsigned steps = 0; steps < 400 && s->_status == status::UNKNOWN; steps++) {
      s->_conflict_count = 1;
      // the conflict found before is repaired first
      if (!s->propagate()) {
        if (s->_status != status::UNKNOWN) break;
#ifdef PRE
        pre();
#endif
        if (prop == "N01") database();
        for (Tclause cl : std::vector<Tclause>(s->_conflicts.begin(), s->_conflicts.end())) analyse(cl);
        continue;
      }
      if (prop == "N02") marks();
      if (!wild || s->_trail.size() + 1 >= s->_vars.size().value) s->decide();
      else { std::vector<unsigned> u; for (unsigned v = 1; v < s->_vars.size().value; v++) if (s->_vars[Tvar(v)].state == Tval::UNDEF) u.push_back(v); s->decide(Tlit(2 * u[r.below(u.size())] + r.below(2))); }
    }
    if (prop == "N01") {
      database();
      if (s->_status == status::UNSAT && !models.empty()) fail("conflict analysis ends with UNSAT, but the clauses have a model");
    }
  }
};

int main(int argc, char** argv)
{
  std::string prop = argv[1]; Rng r(strtoull(argv[2], 0, 10)); Budget b(atof(argv[3])); capture(); alarm((unsigned)atof(argv[3]) + 40);
  env::set_suppress_warning(true); env::set_suppress_info(true);
  for (unsigned long it = 0; b.left(); it++) {
    hist_reset(); World w(r, prop); w.run();
    if (it == 5) keep_sample();
    case_done();
  }
  return done();
}
