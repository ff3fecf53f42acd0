// Resolution proofs: random recordings of clauses, chains, root literals and checks, against sets and truth tables.
#include "common.hpp"
#include <algorithm>
#include <cassert>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include "proof/proof.hpp"     // built with -fno-access-control
using namespace napsat; using proof::resolution_proof;
typedef std::set<unsigned> C;       // literals as 2 * variable + polarity
struct Link { unsigned pivot; unsigned cl; };
struct Rec { C lits; std::vector<Link> chain; bool input; };
static std::string str(const C& c) { std::string r = "{"; for (unsigned x : c) r += std::string(" ") + (x & 1 ? "" : "-") + std::to_string(x >> 1); return r + " }"; }
static int sgn(unsigned x) { return x & 1 ? (int)(x >> 1) : -(int)(x >> 1); }
static bool sat(const C& c, unsigned m) { for (unsigned x : c) if (((m >> (x >> 1)) & 1) == (x & 1)) return true; return false; }
static bool taut(const C& c) { for (unsigned x : c) if (c.count(x ^ 1)) return true; return false; }
struct World {
  resolution_proof p; Rng& r; unsigned vars;
  std::vector<Rec> recs; std::map<unsigned, unsigned> at; std::vector<Link> cur; int empty = -1; unsigned maxid = 0;
  std::vector<std::pair<unsigned, unsigned>> roots;
  World(Rng& r, unsigned v) : r(r), vars(v) {}
  unsigned fresh() { unsigned id; if (r.chance(10)) id = r.below(60); else id = r.below(12); while (at.count(id)) id++; return id; }
  // the literals as an array: in some order, some of them twice
  std::vector<unsigned> arr(const C& c) {
    std::vector<unsigned> v(c.begin(), c.end());
    if (!v.empty()) while (r.chance(25)) v.push_back(v[r.below(v.size())]);
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    return v;
  }
  void log(const char* f, unsigned id, const std::vector<unsigned>& v) { hist("%s(%u, [", f, id); for (unsigned x : v) hist(" %d", sgn(x)); hist(" ], %zu)\n", v.size()); }
  void call(bool fin, unsigned id, const C& c) {
    std::vector<unsigned> v = arr(c); log(fin ? "finalize_resolution" : "input_clause", id, v);
    std::vector<Tlit> l; for (unsigned x : v) l.push_back(Tlit(x)); std::vector<Tlit> keep = l;
    if (fin) p.finalize_resolution(id, l.data(), l.size()); else p.input_clause(id, l.data(), l.size());
    for (size_t i = 0; i < l.size(); i++) if (l[i].value != keep[i].value) fail("the caller's array is changed");
    recs.push_back({c, fin ? cur : std::vector<Link>(), !fin || cur.empty()}); if (fin) cur.clear();
    at[id] = recs.size() - 1; if (c.empty()) empty = recs.size() - 1;
  }
  unsigned input(const C& c) { unsigned id = fresh(); call(false, id, c); return id; }
  void start() { hist("start_resolution_chain()\n"); p.start_resolution_chain(); }
  void link(unsigned piv, unsigned id) { if (piv) hist("link_resolution(%d, %u)\n", sgn(piv), id); else hist("link_resolution(LIT_UNDEF, %u)\n", id); p.link_resolution(Tlit(piv), id); cur.push_back({piv, at[id]}); }
  void cancel() { hist("cancel_resolution_chain()\n"); p.cancel_resolution_chain(); cur.clear(); }
  void finalize(unsigned id, const C& c) { call(true, id, c); }
  void off(unsigned id) { hist("deactivate_clause(%u)\n", id); p.deactivate_clause(id); at.erase(id); }
  bool check() { bool b = p.check_proof(); hist("check_proof() = %s\n", b ? "true" : "false"); return b; }
  C clause(unsigned k) { C c; while (c.size() < k) { unsigned x = 2 * (1 + r.below(vars)) + r.below(2); if (!c.count(x ^ 1)) c.insert(x); else if (r.chance(5)) break; } return c; }
  unsigned any() { auto i = at.begin(); std::advance(i, r.below(at.size())); return i->first; }
  // one linear derivation from the active clauses; what it derives, or nothing recorded
  bool derive(C& res, unsigned maxlen) {
    unsigned a = any(); start(); link(0, a); res = recs[at[a]].lits; unsigned n = 0;
    for (unsigned t = 0; t < 8 && n < maxlen; t++) {
      std::vector<std::pair<unsigned, unsigned>> opt;
      for (auto& e : at) for (unsigned x : recs[e.second].lits) if (res.count(x ^ 1)) {
        C u = res; u.erase(x ^ 1); for (unsigned y : recs[e.second].lits) if (y != x) u.insert(y);
        if (!taut(u)) opt.push_back({e.first, x ^ 1});
      }
      if (opt.empty()) break;
      auto o = opt[r.below(opt.size())]; unsigned id = o.first, piv = o.second;
      link(piv, id); res.erase(piv); for (unsigned y : recs[at[id]].lits) if (y != (piv ^ 1)) res.insert(y); n++;
    }
    return n > 0;
  }
  bool inputs_sat(unsigned& m) { for (m = 0; m < 2u << vars; m += 2) { bool ok = true; for (auto& c : recs) if (c.input && !sat(c.lits, m)) { ok = false; break; } if (ok) return true; } return false; }
  std::string model(unsigned m) { std::string s; for (unsigned v = 1; v <= vars; v++) s += std::string(v > 1 ? ", " : "") + std::to_string(v) + "=" + ((m >> v) & 1 ? "true" : "false"); return s; }
#ifndef PUBLIC_ONLY
  C stored(unsigned i) { C c; for (unsigned k = 0; k < p.clauses[i].size; k++) c.insert(p.clauses[i].lits[k].value); return c; }
  void compare() {
    if (p.clauses.size() != recs.size()) fail("the proof holds " + std::to_string(p.clauses.size()) + " clauses, " + std::to_string(recs.size()) + " were recorded");
    for (unsigned i = 0; i < recs.size(); i++) {
      auto& c = p.clauses[i];
      for (unsigned k = 1; k < c.size; k++) if (!(c.lits[k - 1].value < c.lits[k].value)) fail("recorded clause " + std::to_string(i) + " is not sorted or has duplicates");
      if (stored(i) != recs[i].lits) fail("recorded clause " + std::to_string(i) + " is " + str(stored(i)) + ", expected " + str(recs[i].lits));
      if (c.resolution_chain.size() != recs[i].chain.size()) fail("recorded clause " + std::to_string(i) + " has a chain of " + std::to_string(c.resolution_chain.size()) + " links, expected " + std::to_string(recs[i].chain.size()));
      for (unsigned k = 0; k < recs[i].chain.size(); k++) if (c.resolution_chain[k].first.value != recs[i].chain[k].pivot || c.resolution_chain[k].second != recs[i].chain[k].cl) fail("the chain of recorded clause " + std::to_string(i) + " is not the one given");
    }
    for (unsigned d = 0; d < (unsigned)p.clause_matches.std::vector<unsigned>::size(); d++) { unsigned e = at.count(d) ? at[d] : 0xffffffffu; if (p.clause_matches[Tclause(d)] != e) fail("id " + std::to_string(d) + " names clause " + std::to_string(p.clause_matches[Tclause(d)]) + ", expected " + std::to_string(e)); }
    for (auto& e : at) if (e.first >= (unsigned)p.clause_matches.std::vector<unsigned>::size()) fail("id " + std::to_string(e.first) + " is not known");
    if (p.current_resolution_chain.size() != cur.size()) fail("the chain under construction has the wrong length");
    for (unsigned k = 0; k < cur.size(); k++) if (p.current_resolution_chain[k].first.value != cur[k].pivot || p.current_resolution_chain[k].second != cur[k].cl) fail("the chain under construction is not the one given");
    if (p.empty_clause_id != (empty < 0 ? 0xffffffffu : (unsigned)empty)) fail("the empty clause is not the one recorded");
  }
#endif
};
// a chain that may be wrong in any way a caller could get it wrong
static C wrong_chain(World& w, unsigned len)
{
  Rng& r = w.r; C res; w.start(); unsigned a = w.any(); w.link(0, a); res = w.recs[w.at[a]].lits;
  unsigned style = r.below(4);
  for (unsigned i = 0; i < len; i++) {
    unsigned id = w.any(); const C& c = w.recs[w.at[id]].lits; std::vector<unsigned> piv;
    for (unsigned x : res) if (c.count(x ^ 1) || style == 3) piv.push_back(x);
    if (piv.empty()) { if (r.chance(30)) break; continue; }
    unsigned p = piv[r.below(piv.size())]; w.link(p, id);
    if (style == 1) { res.insert(c.begin(), c.end()); res.erase(p); res.erase(p ^ 1); }   // both removed from the union
    else { res.erase(p); for (unsigned y : c) if (y != (p ^ 1)) res.insert(y); }
    if (r.chance(3)) w.link(0, w.any());
  }
  if (style == 2 && !res.empty()) { auto i = res.begin(); std::advance(i, r.below(res.size())); unsigned x = *i; res.erase(i); if (r.chance(50)) res.insert(x ^ 1); }
  return res;
}
int main(int argc, char** argv)
{
  std::string prop = argc > 1 ? argv[1] : "R01";
  uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  Budget b(argc > 3 ? atof(argv[3]) : 3);
  std::stringstream sink; std::cout.rdbuf(sink.rdbuf()); std::cerr.rdbuf(sink.rdbuf());
  capture();
  for (uint64_t it = 0; b.left(); it++) {
    Rng r(seed * 49979687 + it); hist_reset(); alarm(10); sink.str("");
    World w(r, 1 + r.below(it < 20000 ? 4 : 6));
    if (prop == "R01") {
      for (unsigned i = 0, n = 1 + r.below(4); i < n; i++) { C c = w.clause(1 + r.below(std::min(3u, w.vars))); if (r.chance(4)) c.insert(*c.begin() ^ 1); w.input(c); }
      C d; if (r.chance(30)) w.derive(d, 4); else d = wrong_chain(w, 1 + r.below(4));
      if (r.chance(10)) d = w.clause(r.below(w.vars + 1));
      std::vector<Link> chain = w.cur; unsigned id = w.fresh(); w.finalize(id, d);
      if (!d.empty() && !taut(d)) {
        std::vector<unsigned> u; for (unsigned x : d) u.push_back(w.input({x ^ 1}));
        w.start(); w.link(0, id); unsigned k = 0; for (unsigned x : d) w.link(x, u[k++]);
        w.finalize(w.fresh(), {});
      }
      bool acc = false;
#ifndef PUBLIC_ONLY
      acc = w.p.check_resolution_chain(w.p.clauses.size() ? w.at[id] : 0);
#endif
      if (w.empty >= 0) acc = w.check() || acc;
      if (acc) for (unsigned m = 0; m < 2u << w.vars; m += 2) {
        bool all = true; for (auto& l : chain) all = all && sat(w.recs[l.cl].lits, m);
        if (all && !sat(d, m)) fail("the chain deriving " + str(d) + " is accepted, but " + w.model(m) + " satisfies all its clauses and not the derived one");
      }
    } else if (prop == "R02") {
      unsigned n = 2 + r.below(6), steps = 2 + r.below(8);
      for (unsigned i = 0; i < n; i++) w.input(w.clause(1 + r.below(std::min(3u, w.vars))));
      for (unsigned s = 0; s < steps; s++) {
        unsigned k = r.below(12);
        if (k < 2) w.input(w.clause(1 + r.below(std::min(3u, w.vars))));
        else if (k < 3) { if (w.at.size() > 1) w.off(w.any()); }
        else if (k < 10) {
          C d; if (r.chance(60)) { if (!w.derive(d, 3)) { w.cancel(); continue; } } else d = wrong_chain(w, 1 + r.below(3));
          if (r.chance(10)) { w.cancel(); continue; }
          if (r.chance(20)) d = {};
          if (taut(d)) { w.cancel(); continue; }
          w.finalize(w.fresh(), d);
        }
        for (unsigned q = 0, e = w.empty >= 0 ? 1 + r.below(3) : 0; q < e; q++) {
          unsigned m; if (w.check() && w.inputs_sat(m)) fail("the check accepts the proof, but " + w.model(m) + " satisfies all input clauses");
        }
      }
    } else if (prop == "R03") {
#ifndef PUBLIC_ONLY
      C a = w.clause(1 + r.below(w.vars)), c = w.clause(1 + r.below(w.vars));
      auto i = a.begin(); std::advance(i, r.below(a.size())); unsigned piv = *i;
      if (r.chance(85)) { c.erase(piv); c.insert(piv ^ 1); }
      for (unsigned i = 0, n = r.below(3); i < n; i++) w.input(w.clause(1 + r.below(w.vars)));
      unsigned id = w.input(c), q = w.at[id]; for (unsigned i = 0, n = r.below(3); i < n; i++) w.input(w.clause(1 + r.below(w.vars)));
      std::vector<Tlit> base; for (unsigned x : a) base.push_back(Tlit(x));
      hist("apply_resolution(base = %s, clause %u = %s, pivot %d)\n", str(a).c_str(), q, str(c).c_str(), sgn(piv));
      C e = a; e.erase(piv); for (unsigned x : c) if (x != (piv ^ 1)) e.insert(x);
      w.p.apply_resolution(base, q, Tlit(piv));
      for (size_t k = 1; k < base.size(); k++) if (!(base[k - 1].value < base[k].value)) fail("the resolvent is not sorted or has duplicates");
      C g; for (Tlit x : base) g.insert(x.value);
      if (g != e) fail("the resolvent is " + str(g) + ", expected " + str(e));
      w.compare();
#else
      w.input(w.clause(1));
#endif
    } else if (prop == "R04") {
      for (unsigned s = 0, n = 1 + r.below(it < 20000 ? 8 : 30); s < n; s++) {
        unsigned k = r.below(10);
        if (k < 4 || w.at.empty()) { C c = w.clause(r.chance(4) ? 0 : 1 + r.below(w.vars)); w.input(c); }
        else if (k < 5) { if (w.cur.empty()) w.off(w.any()); }
        else if (k < 9) {
          C d; if (!w.cur.empty()) { w.cancel(); }
          w.derive(d, 3); if (r.chance(25)) d = w.clause(r.below(w.vars + 1));
          if (r.chance(15)) continue;
          unsigned id = w.fresh(); if (r.chance(30)) { id = w.any(); w.off(id); }
          w.finalize(id, d);
        } else w.cancel();
#ifndef PUBLIC_ONLY
        w.compare();
#endif
      }
    } else if (prop == "R05" || prop == "R06") {
      // root literals, each implied by a recorded clause and the literals before it
      unsigned n = r.below(w.vars + 1); std::vector<unsigned> vs; for (unsigned v = 1; v <= w.vars; v++) vs.push_back(v);
      for (size_t i = vs.size(); i > 1; i--) std::swap(vs[i - 1], vs[r.below(i)]);
      std::vector<unsigned> root; C falsified; std::vector<unsigned> rid;
      for (unsigned i = 0; i < n; i++) {
        unsigned x = 2 * vs[i] + r.below(2); C c = {x}; for (unsigned y : root) if (r.chance(40)) c.insert(y ^ 1);
        unsigned id = w.input(c); hist("root_assign(%d, %u)\n", sgn(x), id); w.p.root_assign(Tlit(x), id); root.push_back(x); falsified.insert(x ^ 1); rid.push_back(id);
        if (r.chance(20)) w.input(w.clause(1 + r.below(w.vars)));
      }
      unsigned todo = 1 + r.below(3);
      for (unsigned t = 0; t < todo; t++) {
        C c = w.clause(1 + r.below(w.vars)); unsigned id = r.chance(20) && !rid.empty() ? rid[r.below(rid.size())] : w.input(c); c = w.recs[w.at[id]].lits;
        C e; for (unsigned x : c) if (!falsified.count(x)) e.insert(x);
        hist("remove_root_literals(%u)\n", id); unsigned from = w.at[id];
        w.p.remove_root_literals(id);
        w.recs.push_back({e, {}, false}); w.at[id] = w.recs.size() - 1; if (e.empty()) w.empty = w.recs.size() - 1;
#ifndef PUBLIC_ONLY
        if (w.p.clauses.size() != w.recs.size()) fail("remove_root_literals does not record one clause");
        unsigned i = w.recs.size() - 1; auto& k = w.p.clauses[i];
        for (auto& l : k.resolution_chain) w.recs[i].chain.push_back({l.first.value, l.second});
        if (w.stored(i) != e) fail("clause " + str(c) + " without its falsified literals is " + str(w.stored(i)) + ", expected " + str(e));
        if (k.resolution_chain.empty() || k.resolution_chain[0].second != from || k.resolution_chain[0].first.value) fail("the chain of the simplified clause does not start from the clause");
        w.compare();
        if (prop == "R06" && !w.p.check_resolution_chain(i)) fail("the chain recorded for the simplified clause " + str(e) + " is not accepted");
#endif
        // its negation refutes it: the whole proof must be accepted
        if (w.empty < 0 && r.chance(50)) {
          std::vector<unsigned> u; for (unsigned x : e) u.push_back(w.input({x ^ 1}));
          w.start(); w.link(0, id); unsigned q = 0; for (unsigned x : e) w.link(x, u[q++]);
          w.finalize(w.fresh(), {});
        }
        if (w.empty >= 0) for (unsigned q = 0, e2 = r.below(3); q < e2; q++) if (!w.check() ) fail("a proof whose chains are all correct is rejected");
      }
      if (prop == "R06") {
        for (unsigned s = 0; s < 6 && w.empty < 0; s++) {
          C d; if (!w.derive(d, 4) || r.chance(10)) { w.cancel(); w.input(w.clause(1 + r.below(std::min(2u, w.vars)))); continue; }
          if (r.chance(10) && w.at.size() > 2) { unsigned id = w.any(); w.off(id); }
          w.finalize(w.fresh(), d);
        }
        if (w.empty >= 0) for (unsigned q = 0; q < 2; q++) if (!w.check()) fail("a proof whose chains are all correct is rejected");
      }
    }
    if (it == 100) keep_sample();
    case_done();
  }
  return done();
}
