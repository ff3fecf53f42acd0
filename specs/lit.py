"""include/SAT-types.hpp: literal encoding (T01) and truth values (T02), bit-vector mode."""
from ccv.verify import *
import os
LEM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas', 'lit.cpp')

def build(prop):
    U = extract.load([LEM])
    V = Verifier(U, {})
    def k(name, req=None): return Contract('lemma::' + name, req, bv=True)
    def fits(*ns): return lambda c: [('variable is below 2^31', z3.ULT(c.arg(n), 1 << 31)) for n in ns]
    if prop == 'T01':
        L = [k('build_and_read', lambda c: [('variable is below 2^31', z3.ULT(c.arg('v'), 1 << 31)), ('polarity', z3.ULE(c.arg('pol'), 1))]),
             k('build_from_value', lambda c: [('variable is below 2^31', z3.ULT(c.arg('v'), 1 << 31)), ('value', z3.ULE(c.arg('val'), 1))]),
             k('read_and_build'), k('equality'), k('negation')]
    else:
        val = lambda c: [('value of a variable', z3.ULE(c.arg('val'), 2))]
        L = [k('truth', val), k('truth_of_negation', val)]
    for c in L: V.add(c)
    return V, L
