// The trail of the real solver: trails built by implying, deciding, propagating by hand, and runs of the solver, propagating literal by literal.
#include "SAT-types.hpp"
#include "src/solver/NapSAT.hpp"
#include "common.hpp"
#include <vector>
#include <algorithm>
using namespace napsat;
static int sgn(unsigned x) { return x & 1 ? (int)(x >> 1) : -(int)(x >> 1); }
static std::string str(const std::vector<unsigned>& c) { std::string s = "("; for (unsigned x : c) s += (s.size() > 1 ? " " : "") + std::to_string(sgn(x)); return s + ")"; }
static std::string L(unsigned x) { return "literal " + std::to_string(sgn(x)); }
const unsigned NONE = UINT32_MAX;

// what a solver's trail looks like
struct State {
  struct V { unsigned state, level, reason, lazy, synced; bool propagated, constrained, waiting; };
  std::vector<V> v; std::vector<unsigned> t, d; std::vector<int> pos; unsigned np; status st; NapSAT* s;
  explicit State(NapSAT* s) : np(s->_n_propagated_lits), st(s->_status), s(s)
  {
    unsigned n = s->_vars.size().value;
    for (unsigned k = 0; k < n; k++) {
      auto& x = s->_vars[Tvar(k)];
      v.push_back({(unsigned)x.state, x.level.value, x.reason.value, x.missed_lower_implication.value, (unsigned)x.synced, (bool)x.propagated, (bool)x.constrained, k > 0 && s->_variable_heap.contains(k)});
    }
    for (unsigned k = 0; k < s->_trail.size(); k++) t.push_back(s->_trail[k].value);
    for (Tlevel k = 0; k < s->_decision_index.size(); k++) d.push_back(s->_decision_index[k]);
    pos.assign(n, -1);
    for (unsigned k = 0; k < t.size(); k++) if ((t[k] >> 1) < n) pos[t[k] >> 1] = k;
  }
  bool is(unsigned x) const { return v[x >> 1].state == (x & 1); }
  bool no(unsigned x) const { return v[x >> 1].state == !(x & 1); }
  bool undef(unsigned k) const { return v[k].state > 1; }
  unsigned lev(unsigned x) const { return v[x >> 1].level; }
  const NapSAT::TSclause& cl(unsigned c) const { return s->_clauses[Tclause(c)]; }
  unsigned lit(unsigned c, unsigned j) const { return cl(c).lits[j].value; }
  unsigned top(unsigned c) const { return cl(c).size == 1 ? 0 : lev(lit(c, 1)); }
  bool same(const State& o, unsigned k, bool flag = true) const { auto &a = v[k], &b = o.v[k]; return a.state == b.state && a.level == b.level && a.reason == b.reason && a.lazy == b.lazy && (!flag || a.propagated == b.propagated); }
  // the invariant of the trail; what is wrong with it
  std::string wrong() const
  {
    unsigned tn = t.size(), dn = d.size();
    if (np > tn) return "more literals count as propagated than are on the trail";
    for (unsigned k = 0; k < tn; k++) {
      if ((t[k] >> 1) == 0 || (t[k] >> 1) >= v.size()) return "the trail holds no variable at position " + std::to_string(k);
      if (pos[t[k] >> 1] != (int)k) return L(t[k]) + " is on the trail twice";
      if (!is(t[k])) return L(t[k]) + " is on the trail but not true";
    }
    for (unsigned k = 1; k < v.size(); k++) {
      if (!undef(k)) { if (pos[k] < 0) return "variable " + std::to_string(k) + " is assigned but not on the trail"; continue; }
      if (v[k].level != LEVEL_UNDEF.value || v[k].reason != NONE || v[k].lazy != NONE || v[k].propagated) return "unassigned variable " + std::to_string(k) + " carries a level, a reason or a flag";
      if (v[k].constrained && !v[k].waiting) return "unassigned constrained variable " + std::to_string(k) + " is not in the heap";
    }
    for (unsigned l = 0; l < dn; l++) {
      if (d[l] >= tn || d[l] > np) return "decision " + std::to_string(l + 1) + " is not where it should be on the trail";
      if (l && d[l - 1] >= d[l]) return "the decisions are not in order";
      if (lev(t[d[l]]) != l + 1 || v[t[d[l]] >> 1].reason != NONE) return "the decision of level " + std::to_string(l + 1) + " is not one";
      for (unsigned k = 0; k < d[l]; k++) if (lev(t[k]) > l) return L(t[k]) + " comes before the decision of its level";
    }
    for (unsigned k = 1; k < tn; k++) if (!s->_options.chronological_backtracking && lev(t[k - 1]) > lev(t[k])) return "the level falls at " + L(t[k]) + " on the trail";
    for (unsigned k = 0; k < tn; k++) {
      unsigned x = t[k]; auto& w = v[x >> 1];
      if (w.level > dn) return L(x) + " has a level that does not exist";
      if (w.propagated != (k < np)) return L(x) + (w.propagated ? " counts as propagated after the head" : " is before the head but does not count as propagated");
      if (w.reason == NONE && (w.level == 0 || d[w.level - 1] != k)) return L(x) + " has no reason but is no decision";
      if (w.reason != NONE) {
        auto& c = cl(w.reason);
        if (c.deleted || c.lits[0].value != x) return "the reason of " + L(x) + " does not imply it";
        for (unsigned j = 1; j < c.size; j++) { unsigned y = c.lits[j].value; if (!no(y) || pos[y >> 1] >= (int)k || lev(y) > w.level) return "the reason of " + L(x) + " does not propagate it: " + L(y); }
        if (w.level != top(w.reason)) return "the level of " + L(x) + " is not the one of its reason";
      }
      if (w.lazy != NONE) {
        auto& c = cl(w.lazy);
        if (!s->_options.lazy_strong_chronological_backtracking) return L(x) + " has a missed lower implication";
        if (c.deleted || c.lits[0].value != x || top(w.lazy) >= w.level) return "the missed lower implication of " + L(x) + " is none";
        for (unsigned j = 1; j < c.size; j++) { unsigned y = c.lits[j].value; if (!no(y) || lev(y) > top(w.lazy)) return "the missed lower implication of " + L(x) + " does not propagate it"; }
      }
    }
    return "";
  }
};

// the clauses and watch lists of a solver
struct Watches {
  NapSAT* s; unsigned n; std::vector<std::vector<unsigned>> lits;
  explicit Watches(NapSAT* s) : s(s), n(s->_clauses.size().value)
  {
    for (unsigned i = 0; i < n; i++) { auto& c = s->_clauses[Tclause(i)]; lits.emplace_back(); if (!c.deleted) for (unsigned j = 0; j < c.size; j++) lits[i].push_back(c.lits[j].value); }
  }
  bool live(unsigned i) const { return i < n && !s->_clauses[Tclause(i)].deleted; }
  std::string wrong(const State& e) const
  {
    std::vector<std::vector<unsigned>> in(n);
    for (unsigned i = 0; i < n; i++) {
      auto& c = lits[i];
      for (unsigned j = 0; j < c.size(); j++) {
        if (c[j] < 2 || (c[j] >> 1) >= e.v.size()) return "clause " + str(c) + " has no literal at position " + std::to_string(j);
        for (unsigned k = 0; k < j; k++) if (c[j] == c[k]) return "clause " + str(c) + " has a literal twice";
      }
      auto& k = s->_clauses[Tclause(i)];
      if (live(i) && c.size() > 2) {
        if (k.last_looked < 1) return "the search position of clause " + str(c) + " is zero";
        for (unsigned j = k.size; j < k.last_looked; j++) if (!e.no(k.lits[j].value)) return "a literal dropped from clause " + str(c) + " is not false";
      }
    }
    for (unsigned p = 2; p < 2 * e.v.size(); p++) {
      for (auto& w : s->_watches[Tlit(p)]) {
        unsigned i = w.cl.value, b = w.block.value;
        if (!live(i) || lits[i].size() < 3) return "the watch list of " + L(p) + " holds no clause";
        auto& c = lits[i]; in[i].push_back(p);
        if (c[0] != p && c[1] != p) return L(p) + " watches clause " + str(c);
        if (std::find(c.begin(), c.end(), b) == c.end()) return "the blocking literal " + std::to_string(sgn(b)) + " is not in clause " + str(c);
      }
      for (auto& w : s->_binary_watches[Tlit(p)]) {
        unsigned i = w.cl.value, b = w.block.value;
        if (!live(i) || lits[i].size() != 2) return "the binary watch list of " + L(p) + " holds no clause";
        auto& c = lits[i]; in[i].push_back(p);
        if (!((c[0] == p && c[1] == b) || (c[1] == p && c[0] == b))) return L(p) + " watches the binary clause " + str(c);
      }
    }
    for (unsigned i = 0; i < n; i++) if (live(i) && lits[i].size() >= 2) {
      std::vector<unsigned> a = {lits[i][0], lits[i][1]}, b = in[i]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      if (a != b) return "clause " + str(lits[i]) + " is not watched by its first two literals";
    }
    return "";
  }
  // is something missed for the literals propagated, and for x
  std::string missed(const State& e, unsigned x = 0) const
  {
    bool lazy = s->_options.lazy_strong_chronological_backtracking;
    auto done = [&](unsigned p) { return e.no(p) && (e.v[p >> 1].propagated || (x >> 1) == (p >> 1)); };
    for (unsigned i = 0; i < n; i++) if (live(i) && lits[i].size() >= 2) {
      bool all = true; unsigned t = 0, left = 0;
      for (unsigned p : lits[i]) { if (e.no(p)) all &= done(p); else { left++; t += e.is(p); } }
      if (all && !t && left < 2) return "clause " + str(lits[i]) + (left ? " is unit" : " is false") + " under the literals propagated";
    }
    for (unsigned p = 2; p < 2 * e.v.size(); p++) if (done(p)) {
      auto low = [&](unsigned q) { return !lazy || e.lev(q) <= e.lev(p) || (e.v[q >> 1].lazy != NONE && e.top(e.v[q >> 1].lazy) <= e.lev(p)); };
      for (auto& w : s->_watches[Tlit(p)]) {
        auto& c = lits[w.cl.value]; unsigned q = c[0] == p ? c[1] : c[0], b = w.block.value;
        if (!((e.is(q) && low(q)) || (e.is(b) && (!lazy || e.lev(b) <= e.lev(p))))) return L(p) + " is false and propagated, but clause " + str(c) + " was missed";
      }
      for (auto& w : s->_binary_watches[Tlit(p)]) if (!e.is(w.block.value) || !low(w.block.value)) return L(p) + " is false and propagated, but clause " + str(lits[w.cl.value]) + " was missed";
    }
    return "";
  }
};

struct World {
  Rng& r; std::string prop; unsigned n; int mode; NapSAT* s = nullptr; bool stop = false;
  World(Rng& r, std::string p) : r(r), prop(p), n(2 + r.below(p > "N04" ? 14 : 9)), mode(r.below(3)) {}
  ~World() { if (s) { s->_conflicts.clear(); delete s; } }
  options opts() { options o; o.save_state_on_interrupt = false; if (mode >= 1) o.chronological_backtracking = true; if (mode == 2) o.lazy_strong_chronological_backtracking = true; o.restarts = r.chance(20); o.delete_clauses = r.chance(20); return o; }
  const char* name() { return mode == 0 ? "non-chronological" : mode == 1 ? "chronological" : "lazy strong chronological"; }
  bool sound(const std::string& after, const char* whose)
  {
    std::string w = State(s).wrong();
    if (w.empty()) return true;
    if (prop == whose) fail("after " + after + ": " + w);
    stop = true; return false;
  }
  void check(bool ok, const std::string& what) { if (!ok) fail(what); }

  void backtrack(unsigned l)
  {
    State o(s); hist("backtrack to level %u\n", l);
    s->backtrack(Tlevel(l));
    if (!sound("backtracking to level " + std::to_string(l), "N03") || prop != "N03") return;
    State e(s); unsigned dn = o.d.size();
    check(e.d.size() == l, "backtracking to level " + std::to_string(l) + " leaves the solver at level " + std::to_string(e.d.size()));
    check(e.st == (o.st == status::SAT ? status::UNKNOWN : o.st), "backtracking sets the wrong status");
    check(s->_backtracked_variables.empty() && s->_reimplication_backtrack_buffer.empty(), "backtracking leaves its buffers filled");
    if (l == dn) {
      check(e.t == o.t && e.np == o.np, "backtracking to the current level changes the trail");
      for (unsigned k = 1; k < o.v.size(); k++) check(e.same(o, k), "backtracking to the current level changes variable " + std::to_string(k));
      return;
    }
    for (unsigned k = 1; k < o.v.size(); k++) {
      auto& w = o.v[k]; std::string V = "variable " + std::to_string(k);
      if (o.undef(k)) { check(e.undef(k), "backtracking assigns " + V); continue; }
      if (w.level <= l) { check(e.same(o, k, false), "backtracking to level " + std::to_string(l) + " changes " + V + " of level " + std::to_string(w.level)); continue; }
      if (w.lazy != NONE && o.top(w.lazy) <= l) check(e.v[k].state == w.state && e.v[k].reason == w.lazy && e.v[k].level == o.top(w.lazy), "backtracking forgets to imply " + V + " again at the lower level it was missed at");
      else check(e.undef(k), "backtracking to level " + std::to_string(l) + " keeps " + V + " of level " + std::to_string(w.level));
    }
    check(e.np <= o.d[l], "backtracking to level " + std::to_string(l) + " does not propagate again from where the trail changed");
    for (unsigned k = 0; k < o.d[l]; k++) check(e.t[k] == o.t[k], "backtracking changes the trail before the decision it undoes");
    int last = -1;
    for (unsigned x : o.t) if (o.lev(x) <= l) { check(e.pos[x >> 1] > last, "backtracking changes the order of the literals it keeps"); last = e.pos[x >> 1]; }
  }
  void extends(const State& o, const State& e, unsigned x, unsigned reason, const std::string& what)
  {
    check(e.t.size() == o.t.size() + 1 && std::equal(o.t.begin(), o.t.end(), e.t.begin()) && e.t.back() == x, what + " does not put it at the end of the trail");
    auto& w = e.v[x >> 1];
    check(e.is(x) && w.reason == reason && !w.propagated, what + " does not make it true for its reason");
    check(w.level == (reason == NONE ? o.d.size() + 1 : o.top(reason)), what + " gives it level " + std::to_string(w.level));
    check(e.d.size() == o.d.size() + (reason == NONE) && std::equal(o.d.begin(), o.d.end(), e.d.begin()), what + " changes the decisions wrongly");
    for (unsigned k = 1; k < o.v.size(); k++) if (k != (x >> 1)) check(e.same(o, k), what + " changes variable " + std::to_string(k));
  }
  void imply(unsigned x, unsigned c)
  {
    State o(s); std::string what = "implying " + L(x); std::vector<unsigned> k; for (unsigned j = 0; j < o.cl(c).size; j++) k.push_back(o.lit(c, j));
    hist("imply %d by %s\n", sgn(x), str(k).c_str());
    s->imply_literal(Tlit(x), Tclause(c));
    if (sound(what, "N04") && prop == "N04") extends(o, State(s), x, c, what);
  }
  void decide(unsigned x)
  {
    State o(s); hist("decide %d\n", sgn(x)); std::string what = "deciding " + L(x);
    bool yes = s->decide(Tlit(x));
    if (!sound(what, "N04") || prop != "N04") return;
    check(yes, "deciding an unassigned literal is refused"); extends(o, State(s), x, NONE, what);
  }
  bool decide()
  {
    State o(s); hist("decide\n");
    bool yes = s->decide();
    if (!sound("deciding", "N04") || prop != "N04") return yes;
    State e(s);
    check(yes != (e.st == status::SAT), "a decision and the answer satisfiable do not exclude each other");
    if (yes) {
      check(e.t.size() > o.t.size(), "a decision assigns nothing");
      unsigned x = e.t[o.t.size()]; check(o.undef(x >> 1), "the literal decided was assigned"); check((x & 1) == o.v[x >> 1].synced, "the literal decided does not have the phase chosen");
      extends(o, e, x, NONE, "deciding " + L(x));
    } else {
      check(e.t == o.t && e.d == o.d, "the answer satisfiable changes the trail");
      for (unsigned k = 1; k < o.v.size(); k++) check(!(o.v[k].constrained && e.undef(k)), "the answer is satisfiable, but constrained variable " + std::to_string(k) + " is unassigned");
    }
    return yes;
  }
  void reimply(unsigned x, unsigned c)
  {
    State o(s); std::vector<unsigned> k; for (unsigned j = 0; j < o.cl(c).size; j++) k.push_back(o.lit(c, j));
    std::string what = "implying " + L(x) + " again by " + str(k); hist("imply %d again by %s\n", sgn(x), str(k).c_str());
    unsigned l = o.top(c);
    s->reimply_literal(Tlit(x), Tclause(c));
    if (!sound(what, "N04") || prop != "N04") return;
    State e(s); auto &a = o.v[x >> 1], &b = e.v[x >> 1]; bool lazy = s->_options.lazy_strong_chronological_backtracking;
    check(e.is(x), what + " makes it false or unassigned");
    check(b.level <= l || (lazy && b.lazy != NONE && e.top(b.lazy) <= l), what + " leaves it at a higher level");
    for (unsigned v = 1; v < o.v.size(); v++) if (v != (x >> 1) && !o.undef(v) && o.v[v].level <= l) check(e.v[v].state == o.v[v].state && e.v[v].level == o.v[v].level && e.v[v].reason == o.v[v].reason, what + " changes variable " + std::to_string(v));
    if (a.level <= l) check(e.t == o.t && e.d == o.d && b.level == a.level && b.reason == a.reason, what + " is not needed but changes it");
    if (lazy && a.lazy != NONE) check(b.lazy != NONE && e.top(b.lazy) <= o.top(a.lazy), what + " loses a lower implication that was missed");
    if (lazy) check(e.t == o.t && e.d == o.d && e.np == o.np, what + " changes the trail");
  }

  // the next literal of the queue
  void propagate()
  {
    unsigned p = s->_trail[s->_n_propagated_lits].value ^ 1;
    if (r.chance(50)) {
      auto& l = s->_watches[Tlit(p)];      // the order, the blocking literals and the search positions are arbitrary
      for (unsigned i = 1; i < l.size(); i++) std::swap(l[i], l[r.below(i + 1)]);
      for (auto& w : l) { auto& c = s->_clauses[w.cl]; if (r.chance(50)) w.block = c.lits[r.below(c.size)]; if (r.chance(50)) c.last_looked = 1 + r.below(c.size); }
    }
    State o(s); Watches a(s); std::string what = "propagating " + L(p ^ 1);
    hist("propagate %d\n", sgn(p ^ 1));
    if (!o.wrong().empty() || !a.wrong(o).empty() || !a.missed(o).empty()) {
#ifdef PRE
      fail("pre: " + o.wrong() + a.wrong(o) + a.missed(o));
#endif
      stop = true; return;
    }
    s->propagate_lit(Tlit(p ^ 1));
    State e(s); Watches b(s); bool here = prop == "N05", lazy = s->_options.lazy_strong_chronological_backtracking;
    if (here) {
      std::string w = e.wrong(); check(w.empty(), "after " + what + ": " + w);
      check(e.t.size() >= o.t.size() && std::equal(o.t.begin(), o.t.end(), e.t.begin()) && e.d == o.d && e.np == o.np, what + " changes what is on the trail");
      for (unsigned k = 1; k < o.v.size(); k++) if (!o.undef(k)) {
        auto x = e.v[k]; x.lazy = o.v[k].lazy; check(x.state == o.v[k].state && x.level == o.v[k].level && x.reason == o.v[k].reason && x.propagated == o.v[k].propagated, what + " changes variable " + std::to_string(k));
        if (lazy && o.v[k].lazy != NONE) check(e.v[k].lazy != NONE && e.top(e.v[k].lazy) <= o.top(o.v[k].lazy), what + " loses a lower implication that was missed");
      }
      check(a.n == b.n, what + " changes the set of clauses");
      for (unsigned i = 0; i < a.n; i++) { auto x = a.lits[i], y = b.lits[i]; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); check(a.live(i) == b.live(i) && x == y, what + " changes clause " + str(a.lits[i]) + " into " + str(b.lits[i])); }
      check(s->_conflicts.size() <= 1, what + " reports several conflicts");
      for (Tclause c : s->_conflicts) {
        check(b.live(c.value), what + " reports a clause that does not exist");
        for (unsigned x : b.lits[c.value]) check(e.no(x) && e.lev(x) <= e.lev(b.lits[c.value][0]), what + " reports clause " + str(b.lits[c.value]) + " as a conflict: " + L(x));
      }
    }
    std::string w = b.wrong(e); check(w.empty(), "after " + what + ": " + w);
    if (!here && s->_conflicts.empty()) { w = b.missed(e, p); check(w.empty(), "after " + what + ": " + w); }
  }
  // as NapSAT::propagate does
  bool propagate_all()
  {
    if (!s->_conflicts.empty()) { s->repair_conflicts(); if (s->_status == status::UNSAT) return false; }
    if (s->_status != status::UNKNOWN) return false;
    while (s->_n_propagated_lits < s->_trail.size()) {
      Tlit x = s->_trail[s->_n_propagated_lits];
      if (s->lit_propagated(x)) { s->_n_propagated_lits++; continue; }
      propagate(); if (stop) return false;
      if (s->_conflicts.empty()) { s->_vars[x.var()].propagated = true; s->_n_propagated_lits++; continue; }
      s->_conflict_count++;
      s->repair_conflicts();
      if (s->_status == status::UNSAT) return false;
      if (s->_options.delete_clauses && s->_n_learned_clauses >= s->_next_clause_elimination) s->simplify_clause_set();
      if (s->_options.restarts && s->_luby_counter.increment()) s->restart();
    }
    if (s->_trail.size() == s->_vars.size().value - 1) { s->_status = status::SAT; return false; }
    return true;
  }

  unsigned clause(const std::vector<unsigned>& c)
  {
    Tclause id = s->next_clause_id(c.size()); auto& k = s->_clauses[id];
    for (size_t j = 0; j < c.size(); j++) k.lits[j] = Tlit(c[j]);
    k.size = c.size(); k.deleted = false; k.external = true; k.watched = false; return id.value;
  }
  // literals true at a level of at most `most`, negated, the highest first
  unsigned implying(const State& e, unsigned x, unsigned w, unsigned most)
  {
    std::vector<unsigned> c = {x};
    for (unsigned j = 0; j < w && e.t.size(); j++) { unsigned y = e.t[r.chance(50) ? e.t.size() - 1 - r.below(std::min<size_t>(e.t.size(), 3)) : r.below(e.t.size())]; if (e.lev(y) <= most && (y >> 1) != (x >> 1) && std::find(c.begin(), c.end(), y ^ 1) == c.end()) c.push_back(y ^ 1); }
    for (size_t j = 2; j < c.size(); j++) if (e.lev(c[j]) > e.lev(c[1])) std::swap(c[1], c[j]);
    return clause(c);
  }
  void by_hand()
  {
    options o = opts(); s = new NapSAT(r.chance(50) ? 0 : n, 0, o); s->var_allocate(Tvar(n));
    hist("trail by hand over %u variables, %s\n", n, name());
    for (unsigned k = 1; k <= n; k++) {
      if (r.chance(85)) s->var_mark_constrained(Tvar(k));
      if (r.chance(60)) s->_vars[Tvar(k)].synced = r.below(2);
    }
    if (!State(s).wrong().empty()) return;
    unsigned steps = 5 + r.below(40), eager = 20 + r.below(70);
    for (unsigned i = 0; i < steps && !stop; i++) {
      State e(s); std::vector<unsigned> u; for (unsigned k = 1; k <= n; k++) if (e.undef(k)) u.push_back(k);
      while (!e.t.empty() && s->_n_propagated_lits < s->_trail.size() && r.chance(eager)) { Tlit x = s->_trail[s->_n_propagated_lits++]; s->_vars[x.var()].propagated = true; }
      bool idle = s->_n_propagated_lits == s->_trail.size();
      unsigned what = r.below(10);
      if (what < 3 && !u.empty()) { unsigned x = 2 * u[r.below(u.size())] + r.below(2); unsigned c = implying(e, x, mode == 0 && e.d.size() ? 1 + r.below(4) : r.below(4), r.chance(50) ? e.d.size() : r.below(e.d.size() + 1)); if (mode != 0 || e.top(c) == e.d.size()) imply(x, c); }
      else if (what < 6 && idle && !u.empty() && e.st == status::UNKNOWN) { if (r.chance(60)) decide(); else decide(2 * u[r.below(u.size())] + r.below(2)); }
      else if (what == 6 && idle && e.st == status::UNKNOWN) decide();
      else if (what == 7 && !e.t.empty()) {
        // the literal itself is left out of the clause
        unsigned x = e.t[r.below(e.t.size())], c = implying(e, x, r.below(4), r.chance(30) ? e.d.size() : r.below(e.d.size() + 1));
        reimply(x, c);
      }
      else if (what >= 8 && r.chance(60)) backtrack(r.chance(60) && !e.d.empty() ? e.d.size() - 1 - r.below(std::min<size_t>(e.d.size(), 3)) : r.below(e.d.size() + 1));
    }
    s->_status = status::UNSAT;
  }
  void solving()
  {
    options o = opts(); hist("solver with %u variables, %s\n", n, name());
    s = new NapSAT(r.chance(50) ? 0 : n, 0, o);
    unsigned m = n * (2 + r.below(queue() ? 6 : 3)), later = r.chance(50) ? r.below(m) : 0;
    auto add = [&]() {
      std::vector<unsigned> c; unsigned w = r.chance(6) ? 1 : 2 + r.below(queue() ? 5 : 3); for (unsigned j = 0; j < w; j++) c.push_back(2 * (1 + r.below(n)) + r.below(2));
      hist("add_clause %s\n", str(c).c_str()); std::vector<Tlit> l; for (unsigned x : c) l.push_back(Tlit(x)); s->add_clause(l.data(), l.size());
    };
    for (unsigned i = 0; i + later < m && s->_status != status::UNSAT; i++) add();
    for (unsigned steps = 0; steps < (queue() ? 60 : 200) && !stop; steps++) {
      if (s->_status == status::UNSAT) return;
      if (!queue()) hist("propagate\n");
      if (!(queue() ? propagate_all() : s->propagate()) && s->_status == status::UNSAT) return;
      if (stop || (s->_status != status::UNKNOWN && s->_status != status::SAT)) return;
      std::string w = State(s).wrong();
      if (!w.empty()) {
#ifdef PRE
        fail("pre: " + w);
#endif
        return;
      }
      if (s->_conflicts.size() || s->_n_propagated_lits != s->_trail.size()) return;
      unsigned what = r.below(10); State e(s);
      if (what < 2 && !e.d.empty()) { backtrack(r.below(e.d.size() + 1)); continue; }
      if (what < 4 && later) { later--; add(); continue; }
      if (s->_status != status::UNKNOWN) { if (!later && e.d.empty()) return; if (e.d.size()) backtrack(r.below(e.d.size())); continue; }
      std::vector<unsigned> u; for (unsigned k = 1; k < e.v.size(); k++) if (e.undef(k)) u.push_back(k);
      if (what < 7 || u.empty()) decide(); else decide(2 * u[r.below(u.size())] + r.below(2));
    }
  }
  bool queue() { return prop == "N05" || prop == "N06"; }
  void run() { if (!queue() && r.chance(70)) by_hand(); else solving(); }
};

int main(int argc, char** argv)
{
  std::string prop = argv[1]; Rng r(strtoull(argv[2], 0, 10)); Budget b(atof(argv[3])); capture(); alarm((unsigned)atof(argv[3]) + 40);
  env::set_suppress_warning(true); env::set_suppress_info(true);
  for (unsigned long it = 0; b.left(); it++) {
    hist_reset(); World w(r, prop); w.run();
    if (it == 5) keep_sample();
    case_done();
  }
  return done();
}
