"""src/proof/dependency_tracker.cpp: premises of clauses (D01 exact union, D02 live inputs)."""
from ccv.verify import *
Q = 'napsat::proof::dependency_tracker'

class S:
    """abstract state: used ids, input ids, premises, tracked input clauses"""
    def __init__(s, t):
        cl = t._clauses
        s.n = cl.len
        s.U, s.In, s.P = cl.arr_in_use, cl.arr_is_input, cl.arr_premises
        s.T = t._current_tracking
    def used(s, i): return And(i >= 0, i < s.n, s.U[i])
    def inp(s, i): return s.In[i]
    def prem(s, i, p): return z3.Select(z3.Select(s.P, i), p)
    def tracked(s, p): return z3.Select(s.T, p)

def inv(s, D1=True):
    return [
        ('sizes', And(s.n >= 0, s.n < (1 << 32) - 3)),
        ('ids not in use have no premises', FA('i p', lambda i, p: Imp(And(i >= 0, i < s.n, s.prem(i, p)), s.U[i]), lambda i, p: [s.prem(i, p)])),
        ('every premise is a live input clause', FA('i p', lambda i, p: Imp(And(i >= 0, i < s.n, s.prem(i, p)), And(s.used(p), s.inp(p))), lambda i, p: [s.prem(i, p)])),
        ('every tracked clause is a live input clause', FA('p', lambda p: Imp(s.tracked(p), And(s.used(p), s.inp(p))), lambda p: [s.tracked(p)])),
    ] + ([('an input clause is among its own premises', FA('i', lambda i: Imp(And(s.used(i), s.inp(i)), s.prem(i, i)), lambda i: [s.U[i], z3.Select(s.P, i)]))] if D1 else [])

def others(a, b, but, D1=True):
    """every id in use except but: still in use, same kind, same premises; no other id comes into use"""
    return [('other clauses keep their premises', FA('i p', lambda i, p: Imp(And(i >= 0, i < b.n, i != but), (a.prem(i, p) == b.prem(i, p)) if D1 else Imp(a.prem(i, p), b.prem(i, p))), lambda i, p: [a.prem(i, p)])),
            ('other clauses keep their state', And(a.n >= b.n, FA('i', lambda i: Imp(And(i >= 0, i != but), And(a.used(i) == b.used(i), Imp(b.used(i), a.inp(i) == b.inp(i)))), lambda i: [a.U[i]])))]
def same_tracking(a, b, D1=True): return [('tracking unchanged', FA('p', lambda p: (a.tracked(p) == b.tracked(p)) if D1 else Imp(a.tracked(p), b.tracked(p)), lambda p: [a.tracked(p)]))]
def same_clauses(a, b, D1=True): return others(a, b, I(-1), D1)

def build(prop):
    D1 = prop == 'D01'     # D02 needs upper bounds on the premises only
    U = extract.load(['src/proof/dependency_tracker.cpp'])
    V = Verifier(U, {})
    def req(*more):
        def f(c):
            s = S(c.this)
            return inv(s, D1) + [x for m in more for x in m(c, s)]
        return f
    def ens(*more):
        def f(c):
            s, o = S(c.this), S(c.othis)
            return inv(s, D1) + [x for m in more for x in m(c, s, o)]
        return f
    fresh = lambda c, s: [('id is not in use', Not(s.used(c.arg('id')))), ('id is a proper clause id', c.arg('id') < 0xfffffffc)]
    used = lambda nm: (lambda c, s: [('%s is in use' % nm, s.used(c.arg(nm)))])
    learned = lambda c, s: [('id is a learned clause', Not(s.inp(c.arg('id'))))]
    def e_input(c, s, o):
        i = c.arg('id')
        return [('id is a registered input clause', And(s.used(i), s.inp(i))),
                ('its only premise is itself', FA('p', lambda p: (s.prem(i, p) == (p == i)) if D1 else Imp(s.prem(i, p), p == i), lambda p: [s.prem(i, p)]))] + others(s, o, i, D1) + same_tracking(s, o, D1)
    def e_learned(c, s, o):
        i = c.arg('id')
        return [('id is a registered learned clause', And(s.used(i), Not(s.inp(i)))),
                ('it inherits no premise', FA('p', lambda p: Not(s.prem(i, p)), lambda p: [s.prem(i, p)]))] + others(s, o, i, D1) + same_tracking(s, o, D1)
    def e_link(c, s, o):
        i, d = c.arg('id'), c.arg('new_dep')
        return [('premises are united', FA('p', lambda p: (s.prem(i, p) == Or(o.prem(i, p), o.prem(d, p))) if D1 else Imp(s.prem(i, p), Or(o.prem(i, p), o.prem(d, p))), lambda p: [s.prem(i, p)])),
                ('id keeps its state', And(s.used(i), s.inp(i) == o.inp(i)))] + others(s, o, i, D1) + same_tracking(s, o, D1)
    def e_track(c, s, o):
        d = c.arg('dep')
        return [('tracking is united with the premises', FA('p', lambda p: (s.tracked(p) == Or(o.tracked(p), o.prem(d, p))) if D1 else Imp(s.tracked(p), Or(o.tracked(p), o.prem(d, p))), lambda p: [s.tracked(p)]))] + same_clauses(s, o, D1)
    def e_empty(c, s, o): return [('nothing is tracked', FA('p', lambda p: Not(s.tracked(p)), lambda p: [s.tracked(p)]))]
    def united(s, o, i, T, tag='premises are united with those of the tracked clauses'):
        """P'(i) = P(i) u U { P(d) : d in T }, as two inclusions"""
        return ([] if not D1 else [(tag + ' (all of them)', FA('d p', lambda d, p: Imp(And(T(d), o.prem(d, p)), s.prem(i, p)), lambda d, p: [o.prem(d, p)])),
                (tag + ' (own ones kept)', FA('p', lambda p: Imp(o.prem(i, p), s.prem(i, p)), lambda p: [o.prem(i, p), s.prem(i, p)]))]) + [
                (tag + ' (nothing else)', FA('p', lambda p: Imp(And(s.prem(i, p), Not(o.prem(i, p))), EX('d', lambda d: And(T(d), o.prem(d, p)), lambda d: [o.prem(d, p)])), lambda p: [s.prem(i, p)]))]
    def e_final(c, s, o):
        i = c.arg('id')
        return united(s, o, i, o.tracked) + [('id keeps its state', And(s.used(i), s.inp(i) == o.inp(i)))] + e_empty(c, s, o) + others(s, o, i, D1)
    def l_final(c):
        s, o, i = S(c.this), S(c.othis), c.arg('id')
        vis = c.ghost_get('visited0', z3.ArraySort(IS, BS))
        return united(s, o, i, lambda d: z3.Select(vis, d)) + [('id keeps its state', And(s.used(i), s.inp(i) == o.inp(i), s.n == o.n))] + others(s, o, i, D1) + same_tracking(s, o, D1) + [inv(s)[2]] + ([inv(s)[4]] if D1 else [])
    def e_delete(c, s, o):
        i = c.arg('id')
        return [('id is no longer in use', Not(s.used(i))), ('its premises are gone', FA('p', lambda p: Not(s.prem(i, p)), lambda p: [s.prem(i, p)]))] + others(s, o, i, D1) + same_tracking(s, o, D1)
    def e_get(c, s, o):
        i = c.arg('id')
        R = c.res
        return [('reports the premises of the clause', FA('p', lambda p: (z3.Select(R, p) == o.prem(i, p)) if D1 else Imp(z3.Select(R, p), o.prem(i, p)), lambda p: [z3.Select(R, p)]))]
    L = [
        Contract(Q + '::add_input', req(fresh), ens(e_input), names=['id']),
        Contract(Q + '::add_learned', req(fresh), ens(e_learned), names=['id']),
        Contract(Q + '::link_dependencies', req(used('id'), used('new_dep')), ens(e_link), names=['id', 'new_dep']),
        Contract(Q + '::start_tracking', req(lambda c, s: [('nothing is tracked', FA('p', lambda p: Not(s.tracked(p))))]), ens(lambda c, s, o: same_clauses(s, o, D1), e_empty)),
        Contract(Q + '::track_dependency', req(used('dep')), ens(e_track), names=['dep']),
        Contract(Q + '::cancel_tracking', req(), ens(e_empty, lambda c, s, o: same_clauses(s, o, D1))),
        Contract(Q + '::finalize_tracking', req(used('id'), learned), ens(e_final), {0: LoopSpec(l_final)}, names=['id']),
        Contract(Q + '::delete_clause', req(used('id'), learned), ens(e_delete), names=['id']),
        Contract(Q + '::get_dependencies', req(used('id')), ens(e_get, lambda c, s, o: same_clauses(s, o, D1) + same_tracking(s, o, D1)), names=['id'], modifies=[]),
    ]
    for c in L: V.add(c)
    return V, L

def lemmas(V, prop):
    V.default_object(Q, lambda t: inv(S(t), prop == 'D01') + [('no id is in use', FA('i', lambda i: Not(S(t).used(i)))), ('nothing is tracked', FA('p', lambda p: Not(S(t).tracked(p))))])
