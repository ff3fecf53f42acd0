"""src/utils/luby-counter.hpp: the restart counter (L01), bit-vector mode."""
from ccv.verify import *
import os
LEM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas', 'luby.cpp')
Q = 'napsat::luby_counter'

def B(x): return z3.BitVecVal(x, 32)
def interval(p):
    """the p-th interval of a run: 1, 1, 2, 4, ..."""
    return z3.If(p == 0, B(1), B(1) << (p - 1))

def R(t, r, p, c):
    """the counter is c steps into interval p of run r"""
    return And(t._order == r, z3.ULE(1, r), z3.ULE(r, 32), z3.ULE(p, r + 1), t.skip == (p == 0),
               t._next_power_of_two == interval(p), t._count == c, z3.ULT(c, interval(p)))

def build(prop):
    U = extract.load([LEM])
    V = Verifier(U, {})
    r, p, k = z3.BitVecs('run pos steps', 32)
    def req(c): return [('somewhere in the schedule', R(c.this, r, p, k)), ('the interval fits in the counter', z3.ULE(r, 31))]
    def ens(c):
        t = c.this
        last = k + 1 == interval(p)
        return [('signals exactly at the end of the interval', c.res == last),
                ('inside an interval the next step of the same interval follows', Imp(Not(last), R(t, r, p, k + 1))),
                ('inside a run the next interval follows', Imp(And(last, z3.ULT(p, r + 1)), R(t, r, p + 1, B(0)))),
                ('after the last interval the next longer run starts', Imp(And(last, p == r + 1), R(t, r + 1, B(0), B(0))))]
    def start(t): return [('start of the schedule', R(t, B(1), B(0), B(0)))]
    V.start = start
    L = [Contract(Q + '::increment', req, ens, bv=True),
         Contract(Q + '::reset', None, lambda c: start(c.this), bv=True)]
    for c in L: V.add(c)
    return V, L

def lemmas(V, prop):
    V.default_object(Q, V.start, bv=True)
