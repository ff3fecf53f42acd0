"""src/solver/NapSAT-conflict.cpp: conflict analysis.

Truth assignments: one arbitrary assignment that satisfies every clause that is not deleted.  TR(l): literal l is true in it.
POS(v): the position of variable v on the trail.
CNT(T, LV, l, M, k): how many of the first k trail literals are marked and at level l.
"""
from ccv.verify import *
from ccv.types import BASIC
from .proof import TR, BV, SATF, SW, AR, HR, axioms as proof_axioms, neg, UNDEF, NOIDX
Q = 'napsat::NapSAT::'
POS = z3.Function('position', IS, IS)
DP = z3.Function('decision_position', IS, IS)
CNTF = z3.Function('count_marked', AR, AR, IS, AR, IS, IS)
MSF = z3.Function('marked_false', AR, AR, IS, IS, BS)       # a marked literal among T[i..n) is false in the assignment
MSW = z3.Function('marked_false_at', AR, AR, IS, IS, IS)
S1F = z3.Function('satisfied_from_1', AR, IS, BS)
S1W = z3.Function('satisfied_from_1_at', AR, IS, IS)

def axioms():
    i, n, k = z3.Ints('i n k')
    T, M, a = z3.Consts('T M a', AR)
    w = MSW(T, M, i, n); u = S1W(a, n)
    return proof_axioms()[:3] + [
        z3.ForAll([T, M, i, n], Imp(MSF(T, M, i, n), And(w >= i, w < n, M[T[w] / 2] != 0, z3.Not(TR(T[w])))), patterns=[MSF(T, M, i, n)]),
        z3.ForAll([T, M, i, n, k], Imp(And(k >= i, k < n, M[T[k] / 2] != 0, z3.Not(TR(T[k]))), MSF(T, M, i, n)), patterns=[z3.MultiPattern(MSF(T, M, i, n), T[k])]),
        z3.ForAll([a, n], Imp(S1F(a, n), And(u >= 1, u < n, TR(a[u]))), patterns=[S1F(a, n)]),
        z3.ForAll([a, n, k], Imp(And(k >= 1, k < n, TR(a[k])), S1F(a, n)), patterns=[z3.MultiPattern(S1F(a, n), TR(a[k]))]),
    ]

class S:
    """the state of a solver"""
    def __init__(s, t):
        eng, st = t.eng, t.st
        v = t._vars
        s.vn, s.mk, s.st = v.len, v.arr_marked, v.arr_state
        s.lv, s.re, s.lz = getattr(v, 'arr_level.value'), getattr(v, 'arr_reason.value'), getattr(v, 'arr_missed_lower_implication.value')
        s.tn, s.t = t._trail.len, t._trail.arr
        c = t._clauses
        s.cn, s.sz, s.dl = c.len, c.arr_size, c.arr_deleted
        s.ref, s.off = getattr(c, 'arr_lits.ref'), getattr(c, 'arr_lits.off')
        s.L = eng.get_leaf(st, HR, '.value', BASIC['unsigned'], ())
        s.al, s.ln = eng.heap_leaf(st, HR, 'alive'), eng.heap_leaf(st, HR, 'len')
        s.b, s.bn = t._lit_buffer, t._lit_buffer_size
        s.B = z3.Select(s.L, s.b.ref)
        s.x = t
    def row(s, i): return z3.Select(s.L, s.ref[i])
    def lit(s, i, k): return z3.Select(s.row(i), k)
    def ok(s, i): return And(i >= 0, i < s.cn)
    def on(s, p): return And(POS(p / 2) >= 0, POS(p / 2) < s.tn, s.t[POS(p / 2)] == p)       # literal p is on the trail
    def false(s, p): return And(p >= 2, p / 2 < s.vn, s.on(neg(p)))
    def cnt(s, l, k, m=None): return CNTF(s.t, s.lv, l, s.mk if m is None else m, k)
    def act(s, l, k, m=None): return And(z3.Select(s.mk if m is None else m, s.t[k] / 2) != 0, s.lv[s.t[k] / 2] == l)

def base(s):
    """no observer, statistics or recorders; sizes"""
    x = s.x
    return [('no observer', And(x._sentinel == 0, x._statistics == 0)),
            ('no proof or dependency recording', And(x._proof == 0, x._dependency_tracker == 0)),
            ('sizes', And(s.tn >= 0, s.tn < s.vn, s.vn < NOIDX, s.cn >= 0, s.cn < NOIDX)),
            ('the buffer holds every variable', And(s.b.off == 0, s.b.ref > 0, s.al[s.b.ref], s.ln[s.b.ref] >= s.vn))]

def trail(s):
    v = s.t
    return [('literals on the trail', FA('k', lambda k: Imp(And(k >= 0, k < s.tn), And(v[k] >= 2, v[k] / 2 < s.vn, POS(v[k] / 2) == k)), lambda k: [v[k]])),
            ('variables on the trail are assigned', FA('k', lambda k: Imp(And(k >= 0, k < s.tn), s.st[v[k] / 2] == v[k] % 2), lambda k: [v[k]])),
            ('clauses own their literals', FA('i', lambda i: Imp(And(s.ok(i), s.dl[i] == 0), And(s.sz[i] >= 1, s.sz[i] < NOIDX, s.off[i] == 0, s.ref[i] > 0, s.ref[i] != s.b.ref, s.al[s.ref[i]], s.ln[s.ref[i]] >= s.sz[i])), lambda i: [s.sz[i], s.ref[i]])),
            ('reasons are clauses', FA('k', lambda k: Imp(And(k >= 0, k < s.tn, s.re[v[k] / 2] != UNDEF), And(s.ok(s.re[v[k] / 2]), s.dl[s.re[v[k] / 2]] == 0, s.lit(s.re[v[k] / 2], I(0)) == v[k])), lambda k: [v[k]])),
            ('reasons propagate', FA('k j', lambda k, j: Imp(And(k >= 0, k < s.tn, s.re[v[k] / 2] != UNDEF, j >= 1, j < s.sz[s.re[v[k] / 2]]), And(s.false(s.lit(s.re[v[k] / 2], j)), POS(s.lit(s.re[v[k] / 2], j) / 2) < k)), lambda k, j: [s.lit(s.re[v[k] / 2], j)])),
            ('lazy reasons are clauses', FA('k', lambda k: Imp(And(k >= 0, k < s.tn, s.lz[v[k] / 2] != UNDEF), And(s.ok(s.lz[v[k] / 2]), s.dl[s.lz[v[k] / 2]] == 0, s.lit(s.lz[v[k] / 2], I(0)) == v[k])), lambda k: [v[k]])),
            ('lazy reasons propagate', FA('k j', lambda k, j: Imp(And(k >= 0, k < s.tn, s.lz[v[k] / 2] != UNDEF, j >= 1, j < s.sz[s.lz[v[k] / 2]]), And(s.false(s.lit(s.lz[v[k] / 2], j)), s.lit(s.lz[v[k] / 2], j) / 2 != v[k] / 2, s.lv[s.lit(s.lz[v[k] / 2], j) / 2] < s.lv[v[k] / 2])), lambda k, j: [s.lit(s.lz[v[k] / 2], j)]))]

def facts(s):
    """what the assignment satisfies"""
    v = s.t
    return [('the assignment satisfies the clauses', FA('i', lambda i: Imp(And(s.ok(i), s.dl[i] == 0), SATF(s.row(i), s.sz[i])), lambda i: [SATF(s.row(i), s.sz[i])])),
            ('literals at the root level hold', FA('k', lambda k: Imp(And(k >= 0, k < s.tn, s.lv[v[k] / 2] == 0), TR(v[k])), lambda k: [v[k]]))]

def one_decision(s, l):
    v = s.t
    return [('at most one decision at the level', FA('k', lambda k: Imp(And(k >= 0, k < s.tn, s.re[v[k] / 2] == UNDEF, s.lz[v[k] / 2] == UNDEF, s.lv[v[k] / 2] == l), k == DP(l)), lambda k: [v[k]]))]

def marked_on_trail(s, m=None):
    m = s.mk if m is None else m
    return ('only variables on the trail are marked', FA('v', lambda v: Imp(And(v >= 0, v < s.vn, m[v] != 0), And(POS(v) >= 0, POS(v) < s.tn, s.t[POS(v)] / 2 == v)), lambda v: [m[v]]))

# ---------------------------------------------------------------- counting (lemmas proved by induction)
def negation(c, p):
    """a literal or its negation is true, not both; returns a name for the negation"""
    q = c.eng.name(c.st, neg(p)); v = c.eng.name(c.st, p)
    c.oblige(And(q / 2 == v / 2, q % 2 == 1 - v % 2), 'the negation of a literal')
    c.eng.assume(c.st, TR(q) == (BV(q / 2) == (q % 2 == 1)), 'def'); c.eng.assume(c.st, TR(v) == (BV(v / 2) == (v % 2 == 1)), 'def')
    c.oblige(TR(q) == z3.Not(TR(v)), 'exactly one of a literal and its negation is true')
    return q

def unfold(s, l, k, m=None):
    """the definition of the count at k"""
    return s.cnt(l, k, m) == z3.If(k <= 0, I(0), s.cnt(l, k - 1, m) + z3.If(s.act(l, k - 1, m), I(1), I(0)))

def by_induction(c, name, P, *defs):
    """P(k) for every k >= 0, from P(0) and P(k) ==> P(k+1); defs(k): instances of the definition at k"""
    e = c.eng
    for d in defs: e.assume(c.st, d(I(0)), 'def')
    c.oblige(P(I(0)), 'induction base: ' + name)
    k = e.fresh('ik', IS)
    for d in defs: e.assume(c.st, d(k + 1), 'def')
    c.oblige(Imp(And(k >= 0, P(k)), P(k + 1)), 'induction step: ' + name)

def count_bounds(c, s, l):
    """0 <= count <= k"""
    by_induction(c, 'bounds of the count', lambda k: And(s.cnt(l, k) >= 0, s.cnt(l, k) <= k), lambda k: unfold(s, l, k))
    c.eng.assume(c.st, FA('k', lambda k: Imp(k >= 0, And(s.cnt(l, k) >= 0, s.cnt(l, k) <= k)), lambda k: [s.cnt(l, k)]))

def count_step(c, s, m0, l, p):
    """the count after the marking of the literal at position p (or nothing) changed, from m0 to the present marks"""
    v = s.t[p] / 2
    d = z3.If(s.lv[v] == l, z3.If(s.mk[v] != 0, I(1), I(0)) - z3.If(m0[v] != 0, I(1), I(0)), I(0))
    P = lambda k: Imp(k <= s.tn, s.cnt(l, k) == s.cnt(l, k, m0) + z3.If(k > p, d, I(0)))
    by_induction(c, 'a change at one position', P, lambda k: unfold(s, l, k), lambda k: unfold(s, l, k, m0))
    c.eng.assume(c.st, P(s.tn))

def zero_count(c, s, l, only, why):
    """no marked literal at the level among the first k: the count is 0"""
    none = FA('k', lambda k: Imp(And(k >= 0, k < s.tn), z3.Not(s.act(l, k))), lambda k: [s.t[k]])
    by_induction(c, 'a count of nothing', lambda k: Imp(And(none, k <= s.tn), s.cnt(l, k) == 0), lambda k: unfold(s, l, k))
    c.eng.assume(c.st, Imp(none, s.cnt(l, s.tn) == 0))

def mono(c, s, l):
    """the count does not decrease with k"""
    a = c.eng.fresh('ma', IS)
    by_induction(c, 'the count grows', lambda k: Imp(And(a >= 0, a <= k), s.cnt(l, a) <= s.cnt(l, k)), lambda k: unfold(s, l, k))
    c.eng.assume(c.st, FA('a k', lambda a, k: Imp(And(a >= 0, a <= k), s.cnt(l, a) <= s.cnt(l, k)), lambda a, k: [(s.cnt(l, a), s.cnt(l, k))]))

def at_least_one(c, s, l, p):
    """a marked literal at the level counts"""
    mono(c, s, l)
    c.eng.assume(c.st, unfold(s, l, p + 1), 'def')
    c.oblige(s.cnt(l, s.tn) >= 1, 'the count is at least 1')

def some_counted(c, s, l, u):
    """a positive count has a marked literal at the level: u is the first one"""
    none = FA('k', lambda k: Imp(And(k >= 0, k < s.tn), z3.Not(s.act(l, k))), lambda k: [s.t[k]])
    by_induction(c, 'a count of nothing', lambda k: Imp(And(none, k <= s.tn), s.cnt(l, k) == 0), lambda k: unfold(s, l, k))
    c.eng.assume(c.st, Imp(none, s.cnt(l, s.tn) == 0))
    c.eng.assume(c.st, Or(none, And(u >= 0, u < s.tn, s.act(l, u))))        # u names a witness

def leaves_of(eng, cls, at=''):
    r = []
    for sf, ty, d in eng.leaves(TStruct(eng.U.recq[cls])):
        eng.modinfo.setdefault(('this', at + sf), (ty, None)); r.append(('this', at + sf))
    return r
HEAP = [lambda e: leaves_of(e, 'napsat::utils::heap')]
ACT = [lambda e: leaves_of(e, 'napsat::utils::heap', '._variable_heap'), lambda e: [('this', '._vars[].activity'), ('this', '._var_activity_increment')]]
def build(prop):
    U = extract.load([('src/utils/heap.cpp', 'src/solver/NapSAT-utils.cpp', 'src/solver/NapSAT-conflict.cpp')], include_stubs=True, extra=['-DNDEBUG'])
    V = Verifier(U, {'array_pointees': ['napsat::Tlit'], 'axioms': axioms(), 'max_len': NOIDX})
    L = []
    # ---------------------------------------------------------------- lit_is_required_in_learned_clause
    def rq_req(c):
        s, p = S(c.this), c.arg('lit')
        return base(s) + trail(s) + [('the literal is on the trail', And(p >= 2, p / 2 < s.vn, s.on(p)))]
    def rq_ens(c):
        s, p = S(c.this), c.arg('lit'); r = s.re[p / 2]
        return [('a literal that is not required is implied by marked literals', Imp(z3.Not(c.res), And(r != UNDEF, FA('j', lambda j: Imp(And(j >= 1, j < s.sz[r]), s.mk[s.lit(r, j) / 2] != 0), lambda j: [s.lit(r, j)]))))]
    def rq_inv0(c):
        s, p = S(c.this), c.arg('lit'); r = s.re[p / 2]
        return [('bounds', And(c['i'] >= 1, c['i'] <= s.sz[r])),
                ('the literals so far are marked', Imp(z3.Not(c['found_missing']), FA('j', lambda j: Imp(And(j >= 1, j < c['i']), s.mk[s.lit(r, j) / 2] != 0), lambda j: [s.lit(r, j)])))]
    def rq_inv1(c):
        s, p = S(c.this), c.arg('lit'); r = s.lz[p / 2]
        return [('bounds', And(c['i'] >= 0, c['i'] <= s.sz[r]))]
    L.append(Contract(Q + 'lit_is_required_in_learned_clause', rq_req, rq_ens, {0: LoopSpec(rq_inv0, dec=lambda c: UNDEF - c['i']), 1: LoopSpec(rq_inv1, dec=lambda c: UNDEF - c['i'])}, names=['lit'], modifies=[]))

    # ---------------------------------------------------------------- mark_relevant_literals
    def used(c, s, p): return c.eng.name(c.st, z3.If(s.lz[p / 2] != UNDEF, s.lz[p / 2], s.re[p / 2]))
    def mr_req(c):
        s, p, l, n = S(c.this), c.arg('lit'), c.arg('level'), c.arg('count')
        return base(s) + trail(s) + [('the literal is on the trail', And(p >= 2, p / 2 < s.vn, s.on(p))),
                ('the literal is marked and at the level', And(s.mk[p / 2] != 0, s.lv[p / 2] == l)),
                ('the literal has a reason', Or(s.re[p / 2] != UNDEF, s.lz[p / 2] != UNDEF)),
                ('the count is right', n == s.cnt(l, s.tn)), marked_on_trail(s)]
    def marks(s, o, p):
        """marks may be added to variables of false literals of the reason"""
        return [('marks are added to literals on the trail', FA('v', lambda v: Imp(And(v >= 0, v < s.vn, v != p / 2), Or(s.mk[v] == o.mk[v], And(s.mk[v] == 1, o.mk[v] == 0, POS(v) >= 0, POS(v) < s.tn, s.t[POS(v)] / 2 == v, Or(POS(v) < POS(p / 2), And(s.lz[p / 2] != UNDEF, s.lv[v] != s.lv[p / 2]))))), lambda v: [s.mk[v], o.mk[v]]))]
    def mr_ens(c):
        s, o, p, l, n = S(c.this), S(c.othis), c.arg('lit'), c.arg('level'), c.arg('count')
        r = used(c, s, p)
        return marks(s, o, p) + [('the literal is not marked', s.mk[p / 2] == 0),
                ('the other literals of the reason are marked', FA('j', lambda j: Imp(And(j >= 1, j < s.sz[r]), s.mk[s.lit(r, j) / 2] != 0), lambda j: [s.lit(r, j)])),
                ('the count is right', n == s.cnt(l, s.tn)),
                ('the count drops by one at most', n >= S0n(c) - 1),
                ('a restart is asked for exactly for lazy reasons', c.res == (s.lz[p / 2] != UNDEF)),
                marked_on_trail(s)]
    def S0n(c): return c.oarg('count')
    def mr_inv(c):
        s, o, p, l, n = S(c.this), S(c.othis), c.arg('lit'), c.arg('level'), c.arg('count')
        r = used(c, s, p)
        return [('bounds', And(c['j'] >= 1, c['j'] <= s.sz[r])), ('the count does not drop', n >= S0n(c)),
                ('the literal stays marked', s.mk[p / 2] == o.mk[p / 2]),
                ('the literals so far are marked', FA('j', lambda j: Imp(And(j >= 1, j < c['j']), s.mk[s.lit(r, j) / 2] != 0), lambda j: [s.lit(r, j)])),
                ('the count is right', n == s.cnt(l, s.tn)), marked_on_trail(s)] + marks(s, o, p)
    def head(c): return S(mkview(c.eng, c.head, c.thisp))
    def mr_begin(c):
        s, l = S(c.this), c.arg('level')
        count_bounds(c, s, l)
    def mr_end(c):
        s, h, l, p = S(c.this), head(c), c.arg('level'), c.arg('lit')
        q = h.lit(used(c, h, p), h_at(c, 'j'))
        count_step(c, s, h.mk, l, POS(q / 2))
    def h_at(c, name): return mkview(c.eng, c.head, c.path(name))
    def mr_hint(c):
        s, l, p = S(c.this), c.arg('level'), c.arg('lit')
        m0 = c.ghost_get('M1', AR)
        count_bounds(c, s, l)
        count_step(c, s, m0, l, POS(p / 2))
        return []
    L.append(Contract(Q + 'mark_relevant_literals', mr_req, mr_ens, {0: LoopSpec(mr_inv, begin=mr_begin, end=mr_end, exit=lambda c: c.ghost_set('M1', c.eng.name(c.st, S(c.this).mk)), dec=lambda c: UNDEF - c['j'])}, names=['lit', 'level', 'count'], ftype='napsat::Tlevel', hints=mr_hint))
    # ---------------------------------------------------------------- bump_var_activity
    # what the heap functions do is proved in H01 and H02: here only that they write nothing but the heap
    for nm, ns, md in (('normalize', ['factor'], HEAP), ('contains', ['key'], []), ('increase_activity', ['key', 'activity'], HEAP)): V.add(Contract('napsat::utils::heap::' + nm, names=ns, modifies=md))
    L.append(Contract(Q + 'bump_var_activity', lambda c: [('the variable exists', And(c.arg('var') >= 0, c.arg('var') < S(c.this).vn))], lambda c: [], {0: LoopSpec(lambda c: [('bounds', And(c['i'] >= 1))])}, names=['var'], modifies=ACT))
    # ---------------------------------------------------------------- analyze_conflict_impl
    def ac_req(c):
        s, l = S(c.this), c.arg('level'); B, n = s.B, s.bn
        return base(s) + trail(s) + facts(s) + one_decision(s, l) + [
                ('no variable is marked', FA('v', lambda v: Imp(And(v >= 0, v < s.vn), s.mk[v] == 0), lambda v: [s.mk[v]])),
                ('the clause in the buffer is conflicting', And(n >= 1, n <= s.ln[s.b.ref], FA('k', lambda k: Imp(And(k >= 0, k < n), s.false(B[k])), lambda k: [B[k]]))),
                ('the clause in the buffer holds in the assignment', SATF(B, n)),
                ('a literal of it is at the level', EX('k', lambda k: And(k >= 0, k < n, s.lv[B[k] / 2] == l), lambda k: [B[k]]))]
    def ac_ens(c):
        s, o, l = S(c.this), S(c.othis), c.arg('level'); B, n = s.B, s.bn
        return [('the learned clause holds in the assignment', SATF(B, n)),
                ('no variable stays marked', FA('v', lambda v: Imp(And(v >= 0, v < s.vn), s.mk[v] == 0), lambda v: [s.mk[v]])),
                ('the literals are false', FA('k', lambda k: Imp(And(k >= 0, k < n), s.false(B[k])), lambda k: [B[k]])),
                ('no literal is at the root level', FA('k', lambda k: Imp(And(k >= 0, k < n), s.lv[B[k] / 2] != 0), lambda k: [B[k]])),
                ('only the first literal is at the level', FA('k', lambda k: Imp(And(k >= 1, k < n), s.lv[B[k] / 2] != l), lambda k: [B[k]])),
                ('the first literal is at the level', Imp(l != 0, And(n >= 1, s.lv[B[0] / 2] == l)))]
    def ac_in(c):
        s, o, l, i = S(c.this), S(c.othis), c.arg('level'), c['i']; B = s.B
        return [('bounds', And(i >= 0, i <= s.bn)),
                ('the count is right', c['count'] == s.cnt(l, s.tn)), marked_on_trail(s),
                ('the literals so far are marked', FA('k', lambda k: Imp(And(k >= 0, k < i), s.mk[B[k] / 2] != 0), lambda k: [B[k]]))]
    def lvl(c): return c.arg('level')
    def ac_in_init(c):
        s = S(c.this)
        zero_count(c, s, lvl(c), lambda k: TRUE, 'no mark')
    def ac_in_begin(c): count_bounds(c, S(c.this), lvl(c))
    def ac_in_end(c):
        s, h = S(c.this), head(c)
        count_step(c, s, h.mk, lvl(c), POS(h.B[h_at(c, 'i')] / 2))
    def ac_in_exit(c):
        s = S(c.this); B = s.B; w = SW(B, s.bn)
        c.oblige(MSF(s.t, s.mk, I(0), s.tn), 'a marked literal is false in the assignment')
        k = c.eng.fresh('cl', IS)
        c.eng.assume(c.st, And(k >= 0, k < s.bn, s.lv[B[k] / 2] == lvl(c)))        # the literal at the level (precondition)
        count_bounds(c, s, lvl(c)); at_least_one(c, s, lvl(c), POS(B[k] / 2))
    def ac_while(c):
        s, l, i, g = S(c.this), lvl(c), c['i'], c.ghost_get('G', IS)
        return [('bounds', And(i >= g, g >= 0, i <= s.tn, s.bn == 0)),
                ('the count is right', And(c['count'] == s.cnt(l, s.tn), c['count'] >= 1)), marked_on_trail(s),
                ('a marked literal is false in the assignment', MSF(s.t, s.mk, I(0), s.tn)),
                ('only the decision is left above', FA('k', lambda k: Imp(And(k >= g, k < s.tn, s.act(l, k)), And(k == DP(l), s.re[s.t[k] / 2] == UNDEF, s.lz[s.t[k] / 2] == UNDEF)), lambda k: [s.t[k]]))]
    # G: how far down the literals at the level are resolved (i restarts at the end of the trail after a lazy reason)
    def ac_while_init(c): c.ghost_set('G', S(c.this).tn)
    def ac_while_end(c):
        g, i = c.ghost_get('G', IS), h_at(c, 'i') - 1
        s, h, l = S(c.this), head(c), lvl(c)
        c.oblige(FA('k', lambda k: Imp(And(k >= i, k < s.tn, s.act(l, k)), h.act(l, k)), lambda k: [s.t[k]]), 'nothing above is marked')
        c.oblige(Imp(s.act(l, i), And(s.re[s.t[i] / 2] == UNDEF, s.lz[s.t[i] / 2] == UNDEF)), 'a decision is left')
        c.ghost_set('G', z3.If(i < g, i, g))
    def ac_while_begin(c):
        s, l, i = S(c.this), lvl(c), c['i']
        count_bounds(c, s, l)
        for r in reasons_at(s, s.t[i - 1]): c.oblige(Imp(And(i > 0, r != UNDEF), SATF(s.row(r), s.sz[r])), 'the reason holds in the assignment')
        # with nothing but the decision left, the count would be at most 1
        by_induction(c, 'the decision counts once', lambda k: Imp(And(i == 0, k <= s.tn), s.cnt(l, k) <= z3.If(k > DP(l), I(1), I(0))), lambda k: unfold(s, l, k))
        c.eng.assume(c.st, Imp(i == 0, s.cnt(l, s.tn) <= 1))
    def reasons_at(s, p): return [s.re[p / 2], s.lz[p / 2]]
    def ac_while_exit(c):
        s, l = S(c.this), lvl(c)
        count_bounds(c, s, l)
        # exactly one
        mono(c, s, l)
        a, b = c.eng.fresh('pa', IS), c.eng.fresh('pb', IS)
        c.eng.assume(c.st, unfold(s, l, a + 1), 'def'); c.eng.assume(c.st, unfold(s, l, b + 1), 'def')
        c.oblige(Imp(And(a >= 0, a < b, b < s.tn, s.act(l, a), s.act(l, b)), s.cnt(l, s.tn) >= 2), 'two marked literals at the level count twice')
        u = c.eng.fresh('uip', IS)
        some_counted(c, s, l, u)
        c.oblige(And(u >= 0, u < s.tn, s.act(l, u)), 'a marked literal at the level is left')
        c.eng.assume(c.st, FA('k', lambda k: Imp(And(k >= 0, k < s.tn, s.act(l, k)), k == u), lambda k: [s.t[k]]))      # the statement about a and b, for any two
        c.ghost_set('U', u); c.ghost_set('M0', c.eng.name(c.st, s.mk))
    def ac_collect(c):
        s, l, i = S(c.this), lvl(c), c['i']; B = s.B
        u, m0 = c.ghost_get('U', IS), c.ghost_get('M0', AR)
        T = s.t
        return [('bounds', And(i >= 0, i <= s.tn)), others(c, s),
                ('buffer', And(s.bn >= 1, s.bn <= i + z3.If(u < i, I(0), I(1)))),
                ('marks are taken off', FA('k', lambda k: Imp(And(k >= 0, k < s.tn), s.mk[T[k] / 2] == z3.If(k < i, I(0), m0[T[k] / 2])), lambda k: [T[k]])),
                marked_on_trail(s),
                ('the unique implication point', c['uip'] == z3.If(u < i, T[u], I(0))),
                ('collected literals are false', FA('k', lambda k: Imp(And(k >= 1, k < s.bn), And(s.false(B[k]), s.lv[B[k] / 2] != l)), lambda k: [B[k]])),
                ('something marked or collected holds', Or(MSF(T, s.mk, i, s.tn), S1F(B, s.bn), And(u < i, z3.Not(TR(T[u])))))]
    def others(c, s):
        o = S(c.othis)
        return ('other arrays are untouched', FA('x', lambda x: Imp(x != s.b.ref, z3.Select(s.L, x) == z3.Select(o.L, x)), lambda x: [z3.Select(s.L, x)]))
    def ac_collect_begin(c):
        s, o, i = S(c.this), S(c.othis), c['i']; r = s.re[s.t[i] / 2]
        c.oblige(Imp(And(i < s.tn, r != UNDEF), And(s.row(r) == o.row(r), SATF(s.row(r), s.sz[r]))), 'the reason holds in the assignment')
    def ac_collect_end(c):
        s, h, l, u = S(c.this), head(c), lvl(c), c.ghost_get('U', IS); i = h_at(c, 'i'); B, A, T = s.B, h.B, s.t
        p = T[i]
        c.oblige(And(s.bn >= h.bn, s.bn <= h.bn + 1, FA('k', lambda k: Imp(And(k >= 0, k < h.bn), B[k] == A[k]), lambda k: [B[k], A[k]])), 'what was collected is kept')
        c.oblige(Imp(s.bn > h.bn, And(B[h.bn] == neg(p), s.false(neg(p)), s.lv[p / 2] != l)), 'the collected literal is false')
        w = MSW(T, h.mk, i, s.tn)
        c.oblige(Imp(And(MSF(T, h.mk, i, s.tn), w != i), MSF(T, s.mk, i + 1, s.tn)), 'a later marked literal stays')
        c.oblige(Imp(S1F(A, h.bn), S1F(B, s.bn)), 'a collected literal stays')
        r = s.re[p / 2]
        q = negation(c, p)
        dropped = And(s.bn == h.bn, h.mk[p / 2] != 0, i != u)
        c.oblige(Imp(And(dropped, z3.Not(TR(p))), MSF(T, s.mk, i + 1, s.tn)), 'a dropped literal is implied by marked ones')
        c.oblige(Imp(And(s.bn > h.bn, z3.Not(TR(p))), And(B[h.bn] == q, TR(B[h.bn]))), 'a collected literal is true')
        c.oblige(Imp(And(s.bn > h.bn, z3.Not(TR(p))), S1F(B, s.bn)), 'a collected literal holds')
    def ac_collect_exit(c):
        s = S(c.this); c.ghost_set('BC', c.eng.name(c.st, s.B))
    def ac_filter_end(c):
        s, h, l = S(c.this), head(c), lvl(c); i, k0 = h_at(c, 'i'), h_at(c, 'k'); B, A = s.B, h.B
        k1 = c['k']
        c.oblige(And(k1 >= k0, k1 <= k0 + 1, FA('k', lambda k: Imp(And(k >= 0, k < k0), B[k] == A[k]), lambda k: [B[k], A[k]])), 'what was kept stays')
        c.oblige(Imp(k1 > k0, And(B[k0] == A[i], s.false(A[i]), s.lv[A[i] / 2] != 0)), 'the kept literal')
        q = c.eng.name(c.st, neg(A[i])); 
        c.oblige(Imp(k1 == k0, And(s.t[POS(q / 2)] == q, POS(q / 2) >= 0, POS(q / 2) < s.tn, q / 2 == A[i] / 2)), 'a literal left out is false')
        c.oblige(Imp(k1 == k0, TR(q)), 'the negation of a literal left out holds')
        negation(c, A[i])
        c.oblige(Imp(k1 == k0, And(s.lv[A[i] / 2] == 0, z3.Not(TR(A[i])))), 'a literal left out does not hold')
        c.oblige(Imp(SATF(A, k0), SATF(B, k1)), 'true literals stay')
        c.oblige(Imp(And(k1 > k0, TR(A[i])), SATF(B, k1)), 'a true literal is kept')
    def ac_filter(c):
        s, l, i, k0 = S(c.this), lvl(c), c['i'], c['k']; B = s.B
        A = c.ghost_get('B0', AR)
        return [('bounds', And(i >= 0, i <= s.bn, k0 >= 0, k0 <= i)), others(c, s),
                ('the rest is untouched', FA('k', lambda k: Imp(And(k >= i, k < s.bn), B[k] == A[k]), lambda k: [B[k], A[k]])),
                ('kept so far', FA('k', lambda k: Imp(And(k >= 0, k < k0), And(s.false(B[k]), s.lv[B[k] / 2] != 0)), lambda k: [B[k]])),
                ('only the first is at the level', FA('k', lambda k: Imp(And(k >= 1, k < k0), s.lv[B[k] / 2] != l), lambda k: [B[k]])),
                ('the first is kept', Imp(And(l != 0, i >= 1), And(k0 >= 1, B[0] == A[0]))),
                ('true literals are kept', FA('k', lambda k: Imp(And(k >= 0, k < i, TR(A[k])), SATF(B, k0)), lambda k: [A[k]]))]
    def ac_filter_init(c):
        s = S(c.this)
        c.ghost_set('B0', c.eng.name(c.st, s.B))
        B, C, u = c.ghost_get('B0', AR), c.ghost_get('BC', AR), c.ghost_get('U', IS)
        c.oblige(And(B[0] == neg(s.t[u]), FA('k', lambda k: Imp(k >= 1, B[k] == C[k]), lambda k: [B[k], C[k]])), 'the unique implication point is put in front')
        c.oblige(Imp(S1F(C, s.bn), SATF(B, s.bn)), 'a collected literal holds')
        q = negation(c, s.t[u])
        c.oblige(Imp(z3.Not(TR(s.t[u])), And(B[0] == q, TR(B[0]))), 'the first literal is true')
        c.oblige(Imp(z3.Not(TR(s.t[u])), SATF(B, s.bn)), 'the first literal holds')
        c.oblige(SATF(c.ghost_get('B0', AR), s.bn), 'the collected clause holds in the assignment')
    L.append(Contract(Q + 'analyze_conflict_impl', ac_req, ac_ens, {0: LoopSpec(ac_in, init=ac_in_init, begin=ac_in_begin, end=ac_in_end, exit=ac_in_exit, dec=lambda c: UNDEF - c['i']),
        1: LoopSpec(ac_while, init=ac_while_init, begin=ac_while_begin, end=ac_while_end, exit=ac_while_exit, dec=lambda c: [c.ghost_get('G', IS), c['i']]), 2: LoopSpec(ac_collect, begin=ac_collect_begin, end=ac_collect_end, exit=ac_collect_exit, dec=lambda c: UNDEF - c['i']), 3: LoopSpec(lambda c: []),
        4: LoopSpec(ac_filter, init=ac_filter_init, end=ac_filter_end, dec=lambda c: UNDEF - c['i'])}, names=['level'], ftype='napsat::Tlevel'))
    # ---------------------------------------------------------------- analyze_conflict
    # from the invariant of the trail (kept by N03, N04) to what the analysis needs
    from . import trail as TR_
    def tv(c): return TR_.T(c.this, c.ghost_get('pos', AR), c.st)
    def an_req(c):
        s, t, l = S(c.this), tv(c), c.arg('level'); B, n = s.B, s.bn
        return base(s) + TR_.clauses(t) + TR_.on_trail(t) + TR_.levels(t) + TR_.reasons(t) + facts(s)[:1] + [
                ('the buffer belongs to no clause', FA('i', lambda i: Imp(And(s.ok(i), s.dl[i] == 0), s.ref[i] != s.b.ref), lambda i: [s.ref[i]])),
                ('the level is not the root', l >= 1),
                ('no variable is marked', FA('v', lambda v: Imp(And(v >= 0, v < s.vn), s.mk[v] == 0), lambda v: [s.mk[v]])),
                ('the clause in the buffer is conflicting', And(n >= 1, n <= s.ln[s.b.ref], FA('k', lambda k: Imp(And(k >= 0, k < n), t.false(B[k])), lambda k: [B[k]]))),
                ('the clause in the buffer holds in the assignment', SATF(B, n)),
                ('a literal of it is at the level', EX('k', lambda k: And(k >= 0, k < n, s.lv[B[k] / 2] == l), lambda k: [B[k]]))]
    def an_entry(c):
        e, s, t, l = c.eng, S(c.this), tv(c), c.arg('level'); T = t.t
        # names: where variables and decisions are
        e.assume(c.st, FA('v', lambda v: POS(v) == t.pos[v], lambda v: [t.pos[v]]), 'def')
        e.assume(c.st, FA('v', lambda v: POS(v) == t.pos[v], lambda v: [POS(v)]), 'def')
        e.assume(c.st, DP(l) == t.di[l - 1], 'def')
        for n, f in trail(s) + one_decision(s, l): c.oblige(f, 'a consistent trail: ' + n)
        # literals at the root level hold, by induction on their positions
        K = e.fresh('rk', IS); p = e.name(c.st, T[K]); r = e.name(c.st, s.re[p / 2]); w = e.name(c.st, SW(s.row(r), s.sz[r])); q = e.name(c.st, s.lit(r, w))
        before = FA('k', lambda k: Imp(And(k >= 0, k < K, s.lv[T[k] / 2] == 0), TR(T[k])), lambda k: [T[k]])
        here = And(K >= 0, K < s.tn, s.lv[p / 2] == 0)
        c.oblige(Imp(here, And(r != UNDEF, s.ok(r), s.dl[r] == 0, SATF(s.row(r), s.sz[r]))), 'root literals have reasons that hold')
        c.oblige(Imp(here, And(w >= 0, w < s.sz[r], TR(q))), 'a literal of the reason is true')
        c.oblige(Imp(And(here, w == 0), q == p), 'the first literal of the reason')
        nq = negation(c, q)
        c.oblige(Imp(And(here, w >= 1), And(s.false(q), POS(q / 2) < K, s.lv[q / 2] == 0, T[POS(q / 2)] == nq)), 'the other literals of the reason are false at the root level, earlier')
        c.oblige(Imp(And(before, here), TR(p)), 'root literals hold: induction step')
        e.assume(c.st, facts(s)[1][1])
    L.append(Contract(Q + 'analyze_conflict', an_req, lambda c: ac_ens(c), names=['level'], ftype='(Tlevel)', entry=an_entry))
    for c in L: V.add(c)
    return V, L
