// Replays histories of dependency-tracker operations against sets.
#include "common.hpp"
#include <cassert>
#include <iostream>
#include <map>
#include <set>
#include <vector>
#include "proof/dependency_tracker.hpp"
using namespace napsat; using proof::dependency_tracker;
struct C { bool input = false, used = false; std::set<unsigned> prem; };
static std::string str(const std::set<unsigned>& s) { std::string r = "{"; for (unsigned x : s) r += " " + std::to_string(x); return r + " }"; }
int main(int argc, char** argv)
{
  std::string prop = argc > 1 ? argv[1] : "D01";
  uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  Budget b(argc > 3 ? atof(argv[3]) : 3);
  capture();
  for (uint64_t it = 0; b.left(); it++) {
    Rng r(seed * 104729 + it); hist_reset(); alarm(10);
    dependency_tracker t; std::map<unsigned, C> m; std::set<unsigned> tr; bool tracking = false;
    unsigned ids = 2 + r.below(it % 4 == 3 ? 40 : 8), len = 2 + r.below(it < 2000 ? 12 : 50), inputs = 0;
    auto pick = [&](bool learned_only) -> int { std::vector<unsigned> v; for (auto& e : m) if (e.second.used && !(learned_only && e.second.input)) v.push_back(e.first); return v.empty() ? -1 : (int)v[r.below(v.size())]; };
    for (unsigned s = 0; s < len; s++) {
      unsigned id = r.below(ids);
      switch (r.below(8)) {
      case 0: case 1:
        if (!m[id].used && (r.chance(50) || !inputs)) { hist("add_input(%u)\n", id); t.add_input(id); m[id] = C(); m[id].input = m[id].used = true; m[id].prem = {id}; inputs++; }
        else if (!m[id].used) { hist("add_learned(%u)\n", id); t.add_learned(id); m[id] = C(); m[id].used = true; }
        break;
      case 2: case 3: { int a = pick(false), d = pick(false); if (a < 0) break; hist("link_dependencies(%d, %d)\n", a, d); t.link_dependencies(a, d); auto x = m[d].prem; m[a].prem.insert(x.begin(), x.end()); break; }
      case 4: if (!tracking) { hist("start_tracking()\n"); t.start_tracking(); tracking = true; } break;
      case 5: { int d = pick(false); if (d < 0 || !tracking) break; hist("track_dependency(%d)\n", d); t.track_dependency(d); tr.insert(m[d].prem.begin(), m[d].prem.end()); break; }
      case 6: if (tracking) { if (r.chance(30)) { hist("cancel_tracking()\n"); t.cancel_tracking(); tr.clear(); tracking = false; }
          else { int a = pick(true); if (a < 0) break; hist("finalize_tracking(%d)\n", a); t.finalize_tracking(a); std::set<unsigned> x; for (unsigned d : tr) x.insert(m[d].prem.begin(), m[d].prem.end()); m[a].prem.insert(x.begin(), x.end()); tr.clear(); tracking = false; } } break;
      case 7: { int a = pick(true); if (a < 0) break; hist("delete_clause(%d)\n", a); t.delete_clause(a); m[a] = C(); break; }
      }
      for (auto& e : m) if (e.second.used) {
        std::set<unsigned> got; for (Tclause c : t.get_dependencies(e.first)) got.insert(c.value);
        if (prop == "D01" && got != e.second.prem) fail("get_dependencies(" + std::to_string(e.first) + ") is " + str(got) + ", expected " + str(e.second.prem));
        if (prop == "D02") for (unsigned p : got) {
          if (!m.count(p) || !m[p].used || !m[p].input) fail("premise " + std::to_string(p) + " of clause " + std::to_string(e.first) + " is not a live input clause");
          if (!e.second.prem.count(p)) fail("clause " + std::to_string(e.first) + " has the premise " + std::to_string(p) + " which nothing linked to it");
        }
      }
    }
    if (it == 100) keep_sample();
    case_done();
  }
  return done();
}
