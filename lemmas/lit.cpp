// Lemma functions over the real literal types: every assert below is an obligation for all arguments.
#include <cassert>
#include <cstdint>
#include <string>
#include <iostream>
#include "SAT-types.hpp"
namespace lemma
{
using namespace napsat;
// T01: building a literal and reading it back
void build_and_read(Tvar v, unsigned pol)
{
  Tlit l(v, pol);
  assert(l.var() == v);
  assert(l.pol() == (pol == 1));
}
void build_from_value(Tvar v, Tval val)
{
  Tlit l(v, val);
  assert(l.var() == v);
  assert(l.pol() == (val == Tval::TRUE));
}
// T01: reading and building again gives the same literal; equality is equality of the parts
void read_and_build(Tlit l)
{
  Tlit m(l.var(), (unsigned)l.pol());
  assert(m == l);
  assert(!(m != l));
}
void equality(Tlit a, Tlit b)
{
  assert((a == b) == (a.var() == b.var() && a.pol() == b.pol()));
  assert((a != b) == !(a == b));
}
// T01: negation
void negation(Tlit l)
{
  Tlit n = ~l;
  assert(n.var() == l.var());
  assert(n.pol() != l.pol());
  assert(n != l);
  assert(~n == l);
}
// T02: truth values
void truth(Tlit l, Tval val)
{
  bool s = l.satisfied(val), f = l.falsified(val), u = l.undefined(val);
  assert((s ? 1 : 0) + (f ? 1 : 0) + (u ? 1 : 0) == 1);
  assert(u == (val == Tval::UNDEF));
  assert(s == (val == (l.pol() ? Tval::TRUE : Tval::FALSE)));
  assert(f == (val == (l.pol() ? Tval::FALSE : Tval::TRUE)));
}
void truth_of_negation(Tlit l, Tval val)
{
  Tlit n = ~l;
  assert(l.satisfied(val) == n.falsified(val));
  assert(l.falsified(val) == n.satisfied(val));
  assert(l.undefined(val) == n.undefined(val));
}
}
