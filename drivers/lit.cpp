// Literals: parts, negation and truth values.
#include "common.hpp"
#include <cassert>
#include <iostream>
#include "SAT-types.hpp"
using namespace napsat;
int main(int argc, char** argv)
{
  std::string prop = argc > 1 ? argv[1] : "T01";
  uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  Budget b(argc > 3 ? atof(argv[3]) : 3);
  capture();
  for (uint64_t it = 0; b.left() && it < 40000000; it++) {
    Rng r(seed * 7919 + it); hist_reset();
    unsigned v = it < 70000 ? it : it < 70100 ? 0x7fffffff - (it - 70000) : (unsigned)(r.next() & 0x7fffffff) >> r.below(31), p = r.below(2), w = r.chance(50) ? v : r.below(1u << 31), q = r.below(2);
    Tlit l{Tvar(v), p}, m{Tvar(w), q};
    hist("variable %u polarity %u, other %u %u", v, p, w, q);
    if (prop == "T01") {
      if (l.var().value != v || l.pol() != (p == 1)) fail("Tlit(var,pol) does not read back");
      if ((~l).var().value != v || (~l).pol() == l.pol()) fail("negation is wrong");
      if (!(~~l == l) || ~l == l) fail("double negation is wrong");
      if ((l == m) != (v == w && p == q) || (l != m) == (l == m)) fail("equality is wrong");
      Tlit n(Tvar(v), p ? Tval::TRUE : Tval::FALSE);
      if (!(n == l)) fail("Tlit(var,Tval) is wrong");
    } else for (Tval t : {Tval::FALSE, Tval::TRUE, Tval::UNDEF}) {
      bool s = l.satisfied(t), f = l.falsified(t), u = l.undefined(t);
      if (s + f + u != 1) fail("not exactly one of satisfied/falsified/undefined");
      if (s != (t == (p ? Tval::TRUE : Tval::FALSE)) || f != (t == (p ? Tval::FALSE : Tval::TRUE))) fail("truth value is wrong");
      if (s != (~l).falsified(t) || f != (~l).satisfied(t)) fail("negated literal has the wrong truth value");
    }
    if (it == 100) keep_sample();
    case_done();
  }
  return done();
}
