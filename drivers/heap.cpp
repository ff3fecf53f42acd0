// Replays histories of heap operations against a map from keys to activities.
#include "common.hpp"
#include "utils/heap.hpp"
#include <map>
#include <cfloat>
using namespace napsat; using namespace napsat::utils;

static std::string prop;
static std::map<unsigned, double> model;

static void check(heap& h, unsigned maxkey)
{
  if (prop == "H02") {
    if (h.size() != model.size()) fail("size() is " + std::to_string(h.size()) + ", expected " + std::to_string(model.size()));
    if (h.empty() != model.empty()) fail("empty() is wrong");
    for (unsigned k = 0; k <= maxkey + 2; k++)
      if (h.contains(Tvar(k)) != (model.count(k) > 0)) fail("contains(" + std::to_string(k) + ") is " + std::to_string(h.contains(Tvar(k))));
  } else if (!model.empty()) {
    if (h.empty()) fail("the heap lost its keys");
    unsigned t = h.top().value;
    double best = -DBL_MAX; for (auto& e : model) if (e.second > best) best = e.second;
    if (!model.count(t)) fail("top() returns key " + std::to_string(t) + " which is not stored");
    if (model[t] != best) fail("top() returns key " + std::to_string(t) + " with activity " + std::to_string(model[t]) + " although " + std::to_string(best) + " is stored");
  }
}
static void drain(heap h)
{
  auto m = model;
  hist("drain a copy\n");
  while (!m.empty()) {
    if (h.empty()) fail("the heap is empty although keys are left");
    unsigned t = h.pop().value;
    double best = -DBL_MAX; for (auto& e : m) if (e.second > best) best = e.second;
    if (!m.count(t)) fail("pop() returns key " + std::to_string(t) + " which is not stored");
    // an activity changed by an operation on another key shows up as a wrong popping order
    if (prop == "H01" && m[t] != best) fail("pop() returns key " + std::to_string(t) + " with activity " + std::to_string(m[t]) + " although " + std::to_string(best) + " is stored");
    m.erase(t);
    if (prop == "H02" && h.size() != m.size()) fail("size() is wrong while draining");
    if (prop == "H02" && h.contains(Tvar(t))) fail("a popped key is still contained");
  }
  if (prop == "H02" && !h.empty()) fail("the heap still holds keys after everything was popped");
}
int main(int argc, char** argv)
{
  prop = argc > 1 ? argv[1] : "H01";
  uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  Budget b(argc > 3 ? atof(argv[3]) : 3);
  capture();
  for (uint64_t it = 0; b.left(); it++) {
    Rng r(seed * 1000003 + it);
    heap h; model.clear(); hist_reset();
    unsigned keys = 1 + r.below(it % 5 == 4 ? 40 : it % 3 == 2 ? 16 : 7), len = 1 + r.below(it < 2000 ? 14 : it % 7 == 0 ? 200 : 40), vals = 1 + r.below(12);
    alarm(10);
    for (unsigned s = 0; s < len; s++) {
      unsigned k = r.below(keys); double a = (double)(int)(r.below(vals)) ;
      if (r.chance(20)) a = a / 4 + r.below(3);
      switch (r.below(8)) {
      case 0: case 1: case 2:
        if (!model.count(k)) { hist("insert(%u, %g)\n", k, a); h.insert(Tvar(k), a); model[k] = a; } break;
      case 3:
        if (model.count(k)) { hist("remove(%u)\n", k); h.remove(Tvar(k)); model.erase(k); } break;
      case 4:
        if (model.count(k)) { hist("update(%u, %g)\n", k, a); h.update(Tvar(k), a); model[k] = a; } break;
      case 5:
        if (model.count(k)) { a += model[k]; hist("increase_activity(%u, %g)\n", k, a); h.increase_activity(Tvar(k), a); model[k] = a; } break;
      case 6:
        if (r.chance(30)) { double f = r.chance(50) ? 0.5 : r.chance(50) ? 0.25 : 1e-3; hist("normalize(%g)\n", f); h.normalize(f); for (auto& e : model) e.second *= f; } break;
      case 7:
        if (!model.empty() && r.chance(60)) {
          double best = -DBL_MAX; for (auto& e : model) if (e.second > best) best = e.second;
          hist("pop()\n"); unsigned t = h.pop().value;
          if (!model.count(t)) fail("pop() returns key " + std::to_string(t) + " which is not stored");
          if (prop == "H01" && model[t] != best) fail("pop() returns key " + std::to_string(t) + " with activity " + std::to_string(model[t]) + " although " + std::to_string(best) + " is stored");
          model.erase(t);
        } break;
      }
      check(h, keys);
    }
    if (r.chance(50)) drain(h);
    if (it == 100) keep_sample();
    case_done();
  }
  return done();
}
