"""src/proof/proof.cpp: the resolution proof recorder and its checker.

Truth assignments: one arbitrary assignment, given by the uninterpreted BV (value of each variable).
TR(l): literal l is true in it.  SAT(a, n): one of a[0..n) is true in it.  MEM(a, n, x): x is one of a[0..n).
"""
from ccv.verify import *
from ccv.core import GhostTy
from ccv.types import BASIC
Q = 'napsat::proof::resolution_proof'
N = 'napsat::proof::'
AR = z3.ArraySort(IS, IS)
TR = z3.Function('true_literal', IS, BS)
BV = z3.Function('value_of', IS, BS)
SATF = z3.Function('satisfied', AR, IS, BS)
SW = z3.Function('satisfied_at', AR, IS, IS)
MEMF = z3.Function('member', AR, IS, IS, IS, BS)
MWF = z3.Function('member_at', AR, IS, IS, IS, IS)
def MEM(a, n, x, o=0): return MEMF(a, I(o) if isinstance(o, int) else o, n, x)
def MW(a, n, x, o=0): return MWF(a, I(o) if isinstance(o, int) else o, n, x)
UNDEF = 0xffffffff
NOIDX = 1 << 31

def axioms():
    v, k, n, x, o, p = z3.Ints('v k n x o p')
    a, b = z3.Consts('a b', AR)
    return [
        z3.ForAll([v], TR(v) == (BV(v / 2) == (v % 2 == 1)), patterns=[TR(v)]),
        z3.ForAll([a, n], Imp(SATF(a, n), And(SW(a, n) >= 0, SW(a, n) < n, TR(a[SW(a, n)]))), patterns=[SATF(a, n)]),
        z3.ForAll([a, n, k], Imp(And(k >= 0, k < n, TR(a[k])), SATF(a, n)), patterns=[z3.MultiPattern(SATF(a, n), TR(a[k]))]),
        z3.ForAll([a, o, n, x], Imp(MEMF(a, o, n, x), And(MWF(a, o, n, x) >= o, MWF(a, o, n, x) < o + n, a[MWF(a, o, n, x)] == x)), patterns=[MEMF(a, o, n, x)]),
        z3.ForAll([a, n, b, k], Imp(And(SATF(a, n), SW(a, n) < k, b[SW(a, n)] == a[SW(a, n)]), SATF(b, k)), patterns=[z3.MultiPattern(SATF(a, n), SATF(b, k))]),
        z3.ForAll([a, o, n, x, b, p, k], Imp(And(MEMF(a, o, n, x), MWF(a, o, n, x) >= p, MWF(a, o, n, x) < p + k, b[MWF(a, o, n, x)] == x), MEMF(b, p, k, x)), patterns=[z3.MultiPattern(MEMF(a, o, n, x), MEMF(b, p, k, x))]),
        z3.ForAll([a, o, n, x, k], Imp(And(k >= o, k < o + n, a[k] == x), MEMF(a, o, n, x)), patterns=[z3.MultiPattern(MEMF(a, o, n, x), a[k])]),
    ]

HR = '@[]napsat::Tlit'
class S:
    """the state of a proof object"""
    def __init__(s, t):
        eng, st = t.eng, t.st
        cl = t.clauses
        s.n, s.sz, s.mk = cl.len, cl.arr_size, cl.arr_marked
        s.ref, s.off = getattr(cl, 'arr_lits.ref'), getattr(cl, 'arr_lits.off')
        s.cn = getattr(cl, 'arr_resolution_chain.len')
        s.cp, s.cc = getattr(cl, 'arr_resolution_chain[].first.value'), getattr(cl, 'arr_resolution_chain[].second')
        s.m, s.cm = t.clause_matches.len, t.clause_matches.arr
        k = t.current_resolution_chain
        s.kn, s.kp, s.kc = k.len, getattr(k, 'arr_first.value'), k.arr_second
        s.e = t.empty_clause_id
        s.L = eng.get_leaf(st, HR, '.value', BASIC['unsigned'], ())
        s.al, s.ln = eng.heap_leaf(st, HR, 'alive'), eng.heap_leaf(st, HR, 'len')
        s.rn, s.rl = t.root_lit.len, t.root_lit.arr_value
        s.rrn, s.rr = t.root_reason.len, t.root_reason.arr_value
        s.tn, s.ta = t.tmp_lits.len, t.tmp_lits.arr
    def row(s, i): return z3.Select(s.L, s.ref[i])
    def lit(s, i, k): return z3.Select(s.row(i), k)
    def sat(s, i): return SATF(s.row(i), s.sz[i])
    def link(s, i, k): return z3.Select(z3.Select(s.cc, i), k)
    def pivot(s, i, k): return z3.Select(z3.Select(s.cp, i), k)
    def ok(s, i): return And(i >= 0, i < s.n)
    def premises_hold(s, i, upto=None):
        """all clauses linked by the chain of clause i are satisfied"""
        return FA('k', lambda k: Imp(And(k >= 0, k < (s.cn[i] if upto is None else upto)), s.sat(s.link(i, k))), lambda k: [s.link(i, k)])
    def follows(s, i): return Or(s.cn[i] == 0, Imp(s.premises_hold(i), s.sat(i)))

def inv(s, marks=True):
    return [
        ('sizes', And(s.n >= 0, s.n < UNDEF, s.m >= 0, s.m <= UNDEF, s.kn >= 0, s.rn >= 0, s.rrn == s.rn)),
        ('clauses own their literals', FA('i', lambda i: Imp(s.ok(i), And(s.sz[i] >= 0, s.sz[i] < NOIDX, s.off[i] == 0, Or(And(s.sz[i] == 0, s.ref[i] == 0), And(s.ref[i] > 0, s.al[s.ref[i]], s.ln[s.ref[i]] >= s.sz[i])))), lambda i: [s.sz[i], s.ref[i]])),
        ('clauses are sorted', FA('i x y', lambda i, x, y: Imp(And(s.ok(i), x >= 0, x < y, y < s.sz[i]), s.lit(i, x) < s.lit(i, y)), lambda i, x, y: [(s.lit(i, x), s.lit(i, y))])),
        ('chains link to earlier clauses', FA('i k', lambda i, k: Imp(And(s.ok(i), k >= 0, k < s.cn[i]), And(s.link(i, k) >= 0, s.link(i, k) < i)), lambda i, k: [s.link(i, k)])),
        ('ids name recorded clauses', FA('d', lambda d: Imp(And(d >= 0, d < s.m), Or(s.cm[d] == UNDEF, s.ok(s.cm[d]))), lambda d: [s.cm[d]])),
        ('the current chain links to recorded clauses', FA('k', lambda k: Imp(And(k >= 0, k < s.kn), s.ok(s.kc[k])), lambda k: [s.kc[k]])),
        ('the empty clause is empty', Or(s.e == UNDEF, And(s.ok(s.e), s.sz[s.e] == 0))),
    ] + ([('no clause is marked', FA('i', lambda i: Imp(s.ok(i), s.mk[i] == 0), lambda i: [s.mk[i]]))] if marks else [])

def same_clause(s, o, i):
    """clause i is the same in both states"""
    return And(s.sz[i] == o.sz[i], s.cn[i] == o.cn[i], FA('k', lambda k: Imp(And(k >= 0, k < o.sz[i]), s.lit(i, k) == o.lit(i, k)), lambda k: [s.lit(i, k)]),
               FA('k', lambda k: Imp(And(k >= 0, k < o.cn[i]), And(s.link(i, k) == o.link(i, k), s.pivot(i, k) == o.pivot(i, k))), lambda k: [s.link(i, k), s.pivot(i, k)]))

def rng(c, name):
    """(array, first position) behind a pointer parameter, whatever it points into"""
    v = c.arg(name)
    if isinstance(v, PV):
        ct = v.cont; l = c.eng.leaves(ct.ty.e)[0]
        base = l[0] if ct.root.startswith('@[]') and ct.sfx == '' else ct.sfx + '[]' + l[0]
        return c.eng.get_leaf(c.st, ct.root, base, l[1], ct.idx), v.off
    return z3.Select(c.eng.get_leaf(c.st, HR, '.value', BASIC['unsigned'], ()), v.ref), v.off

def neg(x): return x + 1 - 2 * (x % 2)

FSF = z3.Function('after_links', IS, IS, IS, BS)     # literal x is in the result of the first k links of the chain of clause i
def derives(s, fs, cnt, piv, lnk):
    """the sets fs(1), ..., fs(cnt) are the results of a correct chain: every pivot is there, its negation is in the clause linked, and the result is the resolvent"""
    inr = lambda k, x: MEM(s.row(lnk(k)), s.sz[lnk(k)], x)
    return [('the first link has no pivot', piv(I(0)) == 0),
            ('the first result is the first clause', FA('x', lambda x: fs(I(1), x) == inr(I(0), x), lambda x: [fs(I(1), x)])),
            ('every pivot can be resolved on', FA('k', lambda k: Imp(And(k >= 1, k < cnt), And(piv(k) != 0, fs(k, piv(k)), inr(k, neg(piv(k))))), lambda k: [piv(k)])),
            ('every result is the resolvent', FA('k x', lambda k, x: Imp(And(k >= 2, k <= cnt), fs(k, x) == Or(And(fs(k - 1, x), x != piv(k - 1)), And(inr(k - 1, x), x != neg(piv(k - 1))))), lambda k, x: [fs(k, x)]))]
def correct_chain(s, i):
    fs = lambda k, x: FSF(i, k, x)
    return Or(s.cn[i] == 0, And(*[f for _, f in derives(s, fs, s.cn[i], lambda k: s.pivot(i, k), lambda k: s.link(i, k))],
              FA('x', lambda x: fs(s.cn[i], x) == MEM(s.row(i), s.sz[i], x), lambda x: [fs(s.cn[i], x), MEM(s.row(i), s.sz[i], x)])))

def build(prop):
    M = prop == 'R06'
    U = extract.load(['src/proof/proof.cpp'], include_stubs=True, extra=['-DNDEBUG'])
    V = Verifier(U, {'array_pointees': ['napsat::Tlit'], 'axioms': axioms(), 'max_len': NOIDX})
    L = []
    # ---------------------------------------------------------------- binary search / insertion
    def strict(arr, n, o=0): return FA('x y', lambda x, y: Imp(And(x >= o, x < y, y < o + n), arr[x] < arr[y]), lambda x, y: [(arr[x], arr[y])])
    def bs_req(c):
        a, o = rng(c, 'lits')
        return bs_req0(c) + ([('the range is sorted', strict(a, c.arg('size'), o))] if M else [])
    def bs_req0(c):
        v = c.arg('lits'); n = c.arg('size')
        if isinstance(v, PV): return [('the range is readable', And(v.off >= 0, Or(n == 0, v.off + n <= c.eng.cont_len(c.st, v.cont))))]
        al, ln = c.eng.heap_leaf(c.st, HR, 'alive'), c.eng.heap_leaf(c.st, HR, 'len')
        return [('the range is readable', Or(n == 0, And(v.ref > 0, al[v.ref], v.off >= 0, v.off + n <= ln[v.ref])))]
    def bs_ens(c):
        a, o = rng(c, 'lits'); n, x = c.arg('size'), c.arg('lit')
        return [('the result is in range', And(c.res >= 0, c.res <= n)),
                ('a found literal is there', Imp(c.res < n, a[o + c.res] == x))] + ([('a literal that is there is found', Imp(MEM(a, n, x, o), c.res < n))] if M else [])
    def bs_inv(c):
        return [('bounds', And(c['left'] >= 0, c['left'] <= c['right'], c['right'] <= c.arg('size')))] + (split(c, *rng(c, 'lits'), c.arg('size')) if M else [])
    def split(c, a, o, n):
        x, l, r = c.arg('lit'), c['left'], c['right']
        return [('smaller literals to the left', FA('k', lambda k: Imp(And(k >= o, k < o + l), a[k] < x), lambda k: [a[k]])),
                ('larger literals to the right', FA('k', lambda k: Imp(And(k >= o + r, k < o + n), x < a[k]), lambda k: [a[k]]))]
    L.append(Contract(N + 'binary_search', bs_req, bs_ens, {0: LoopSpec(bs_inv, dec=lambda c: c['right'] - c['left'])}, names=['lits', 'size', 'lit'], modifies=[]))

    def bi_req(c): return [('size', And(c.arg('lits').len >= 0, c.arg('lits').len < NOIDX))] + ([('the literals are sorted', strict(c.arg('lits').arr, c.arg('lits').len))] if M else [])
    def bi_ens(c):
        o, a, x = c.oarg('lits'), c.arg('lits'), c.arg('lit')
        return [('grows by at most one', And(a.len >= o.len, a.len <= o.len + 1)),
                ('what was satisfied stays satisfied', Imp(SATF(o.arr, o.len), SATF(a.arr, a.len))),
                ('a true literal satisfies it', Imp(TR(x), SATF(a.arr, a.len)))] + ([
                ('the literals stay sorted', strict(a.arr, a.len)),
                ('the literal is added', MEM(a.arr, a.len, x)),
                ('the others are kept', FA('y', lambda y: Imp(MEM(o.arr, o.len, y), MEM(a.arr, a.len, y)), lambda y: [MEM(o.arr, o.len, y), MEM(a.arr, a.len, y)])),
                ('nothing else is added', FA('y', lambda y: Imp(MEM(a.arr, a.len, y), Or(y == x, MEM(o.arr, o.len, y))), lambda y: [MEM(a.arr, a.len, y)]))] if M else [])
    def bi_inv(c):
        return (split(c, c.arg('lits').arr, I(0), c.arg('lits').len) if M else []) + [('bounds', And(c['left'] >= 0, c['left'] <= c['right'], c['right'] <= c.arg('lits').len, c.arg('lits').len == c.oarg('lits').len))]
    def bi_hint(c):
        o, a, x = c.oarg('lits'), c.arg('lits'), c.arg('lit')
        w = SW(o.arr, o.len); p = c['left']
        if M: c.oblige(FA('y', lambda y: Imp(MEM(o.arr, o.len, y), Or(And(a.arr[MW(o.arr, o.len, y)] == y, MW(o.arr, o.len, y) < a.len), And(a.arr[MW(o.arr, o.len, y) + 1] == y, MW(o.arr, o.len, y) + 1 < a.len))), lambda y: [MEM(o.arr, o.len, y)]), 'old literals stay or move up by one')
        return [('old literals are kept', Imp(And(w >= 0, w < o.len), Or(And(a.arr[w] == o.arr[w], w < a.len), And(a.arr[w + 1] == o.arr[w], w + 1 < a.len)))),
                ('the literal is there', Or(And(a.arr[p] == x, p < a.len, p >= 0), EX('j', lambda j: And(j >= 0, j < a.len, a.arr[j] == x), lambda j: [a.arr[j]])))]
    L.append(Contract(N + 'binary_insert', bi_req, bi_ens, {0: LoopSpec(bi_inv, dec=lambda c: c['right'] - c['left'])}, names=['lits', 'lit'], hints=bi_hint))

    # ---------------------------------------------------------------- check_resolution_chain
    def ck_req(c): s = S(c.this); return inv(s, False) + [('recorded clause', s.ok(c.arg('index')))]
    def ck_ens(c):
        s = S(c.this)
        return [('an accepted chain implies the clause', Imp(c.res, s.follows(c.arg('index'))))] + ([('a correct chain is accepted', Imp(correct_chain(s, c.arg('index')), c.res))] if M else [])
    def ck_out(c):
        s, i, d = S(c.this), c['$i0'], c.arg('index')
        return [('bounds', And(i >= 0, s.tn >= 0)),
                ('the literals so far follow from the links so far', Or(i == 0, Imp(s.premises_hold(d, i), SATF(s.ta, s.tn)))),
                ('nothing yet', Imp(i == 0, s.tn == 0))] + ([
                ('sorted', strict(s.ta, s.tn)),
                ('the literals so far are the result of the links so far', Imp(And(i > 0, correct_chain(s, d)), FA('x', lambda x: MEM(s.ta, s.tn, x) == FSF(d, i, x), lambda x: [MEM(s.ta, s.tn, x), FSF(d, i, x)])))] if M else [])
    def ck_exit(c):
        if not M: return
        s, d = S(c.this), c.arg('index')
        ok = correct_chain(s, d); a, n, b, m = s.ta, s.tn, s.row(d), s.sz[d]
        c.oblige(Imp(ok, FA('x', lambda x: MEM(a, n, x) == MEM(b, m, x), lambda x: [MEM(a, n, x), MEM(b, m, x)])), 'the result of a correct chain has the literals of the clause')
        k = c.eng.fresh('lk', IS)
        below = FA('j', lambda j: Imp(And(j >= 0, j < k), a[j] == b[j]), lambda j: [a[j], b[j]])
        c.oblige(Imp(And(ok, k >= 0, k < n, k < m, MEM(b, m, a[k]), MEM(a, n, b[k]), below), a[k] == b[k]), 'induction step: sorted sequences of the same literals agree')
        c.eng.assume(c.st, Imp(ok, FA('k', lambda k: Imp(And(k >= 0, k < n, k < m), a[k] == b[k]), lambda k: [a[k], b[k]])))     # by strong induction on k
        c.oblige(Imp(And(ok, n < m), And(MEM(b, m, b[n]), MEM(a, n, b[n]))), 'a longer clause has a literal of its own')
        c.oblige(Imp(And(ok, m < n), And(MEM(a, n, a[m]), MEM(b, m, a[m]))), 'a longer result has a literal of its own')
        c.oblige(Imp(ok, n == m), 'sorted sequences of the same literals have the same length')
    def ck_begin(c):
        s = S(c.this)
        c.ghost_set('T0', s.ta); c.ghost_set('N0', s.tn)
    def T0(c): return c.ghost_get('T0', AR), c.ghost_get('N0', IS)
    def ck_ins_init(c):
        s = S(c.this); t, n = T0(c); w = SW(t, n); p = s.pivot(c.arg('index'), c['$i0'])
        c.oblige(Imp(And(w >= 0, w < n), Or(And(w < s.tn, s.ta[w] == t[w]), And(w >= 1, w - 1 < s.tn, s.ta[w - 1] == t[w]), And(p != 0, t[w] == p))), 'the base loses at most its pivot')
        if M: c.oblige(FA('x', lambda x: Imp(And(MEM(t, n, x), Or(p == 0, x != p)), Or(And(MW(t, n, x) < s.tn, s.ta[MW(t, n, x)] == x), And(MW(t, n, x) >= 1, MW(t, n, x) - 1 < s.tn, s.ta[MW(t, n, x) - 1] == x))), lambda x: [MEM(t, n, x)]), 'the other literals stay or move down by one')
    def ck_ins(c):
        s, j, d, i = S(c.this), c['i'], c.arg('index'), c['$i0']
        t, n = T0(c); p = s.pivot(d, i); q = s.link(d, i)
        return [('bounds', And(j >= 0, j <= s.sz[q], s.tn >= 0)),
                ('a first link has no pivot', Imp(n == 0, p == 0)),
                ('the base without its pivot is kept', Imp(SATF(t, n), Or(SATF(s.ta, s.tn), And(p != 0, TR(p))))),
                ('literals of the resolvent except the negated pivot are added', FA('k', lambda k: Imp(And(k >= 0, k < j, TR(s.lit(q, k)), Or(p == 0, s.lit(q, k) != neg(p))), SATF(s.ta, s.tn)), lambda k: [s.lit(q, k)]))] + ([
                ('sorted', strict(s.ta, s.tn)),
                ('the base without its pivot is there', FA('x', lambda x: Imp(And(MEM(t, n, x), Or(p == 0, x != p)), MEM(s.ta, s.tn, x)), lambda x: [MEM(t, n, x), MEM(s.ta, s.tn, x)])),
                ('the resolvent without the negated pivot is there', FA('x', lambda x: Imp(And(MEM(s.row(q), j, x), Or(p == 0, x != neg(p))), MEM(s.ta, s.tn, x)), lambda x: [MEM(s.row(q), j, x), MEM(s.ta, s.tn, x)])),
                ('nothing else is there', FA('x', lambda x: Imp(MEM(s.ta, s.tn, x), Or(And(MEM(t, n, x), Or(p == 0, x != p)), And(MEM(s.row(q), j, x), Or(p == 0, x != neg(p))))), lambda x: [MEM(s.ta, s.tn, x)]))] if M else [])
    def ck_cmp(c):
        s, j, d = S(c.this), c['i'], c.arg('index')
        return [('bounds', And(j >= 0, j <= s.sz[d], s.tn == s.sz[d])),
                ('equal so far', FA('k', lambda k: Imp(And(k >= 0, k < j), s.lit(d, k) == s.ta[k]), lambda k: [s.ta[k]]))]
    L.append(Contract(Q + '::check_resolution_chain', ck_req, ck_ens, {0: LoopSpec(ck_out, begin=ck_begin, exit=ck_exit), 1: LoopSpec(ck_ins, init=ck_ins_init, dec=lambda c: NOIDX - c['i']), 2: LoopSpec(ck_cmp, dec=lambda c: NOIDX - c['i'])}, names=['index']))
    # ---------------------------------------------------------------- apply_resolution
    def ar_req(c):
        s, q, b, p = S(c.this), c.arg('resolvent_index'), c.arg('base'), c.arg('pivot')
        return inv(s, False) + [('recorded clause', s.ok(q)), ('the base contains the pivot', MEM(b.arr, b.len, p)), ('the base is sorted', strict(b.arr, b.len))]
    def ar_ens(c):
        s, q, b, o, p = S(c.this), c.arg('resolvent_index'), c.arg('base'), c.oarg('base'), c.arg('pivot')
        return [('the result is sorted and free of duplicates', strict(b.arr, b.len)),
                ('literals of the base except the pivot are kept', FA('x', lambda x: Imp(And(MEM(o.arr, o.len, x), x != p), MEM(b.arr, b.len, x)), lambda x: [MEM(o.arr, o.len, x), MEM(b.arr, b.len, x)])),
                ('literals of the resolvent except the negated pivot are added', FA('x', lambda x: Imp(And(MEM(s.row(q), s.sz[q], x), x != neg(p)), MEM(b.arr, b.len, x)), lambda x: [MEM(s.row(q), s.sz[q], x), MEM(b.arr, b.len, x)])),
                ('nothing else is in the result', FA('x', lambda x: Imp(MEM(b.arr, b.len, x), Or(And(MEM(o.arr, o.len, x), x != p), And(MEM(s.row(q), s.sz[q], x), x != neg(p)))), lambda x: [MEM(b.arr, b.len, x)]))]
    def ar_push_init(c):
        b, o, p = c.arg('base'), c.oarg('base'), c.arg('pivot'); e = c.eng.name(c.st, b.arr); c.ghost_set('E0', e); c.ghost_set('E0n', b.len)
        w = lambda x: MW(o.arr, o.len, x)
        c.oblige(FA('x', lambda x: Imp(And(MEM(o.arr, o.len, x), x != p), Or(And(w(x) >= 0, w(x) < b.len, e[w(x)] == x), And(w(x) >= 1, w(x) - 1 < b.len, e[w(x) - 1] == x))), lambda x: [MEM(o.arr, o.len, x)]), 'only the pivot is erased')
        c.oblige(FA('x', lambda x: Imp(And(MEM(o.arr, o.len, x), x != p), MEM(e, b.len, x)), lambda x: [MEM(o.arr, o.len, x)]), 'the other literals are still there')
    def E0(c): return c.ghost_get('E0', AR), c.ghost_get('E0n', IS)
    def ar_push(c):
        s, q, b, p, i = S(c.this), c.arg('resolvent_index'), c.arg('base'), c.arg('pivot'), c['i']
        e, n = E0(c)
        return [('bounds', And(i >= 0, i <= s.sz[q], b.len >= n)),
                ('the base is kept', FA('k', lambda k: Imp(And(k >= 0, k < n), b.arr[k] == e[k]), lambda k: [b.arr[k], e[k]])),
                ('literals are appended', FA('k', lambda k: Imp(And(k >= 0, k < i, s.lit(q, k) != neg(p)), MEM(b.arr, b.len, s.lit(q, k))), lambda k: [s.lit(q, k)])),
                ('only literals of the resolvent are appended', FA('k', lambda k: Imp(And(k >= n, k < b.len), And(MEM(s.row(q), i, b.arr[k]), b.arr[k] != neg(p))), lambda k: [b.arr[k]]))]
    def dd_init(c):
        b, o, p = c.arg('base'), c.oarg('base'), c.arg('pivot'); g = c.eng.name(c.st, b.arr); c.ghost_set('G0', g); e, n = E0(c)
        c.oblige(FA('x', lambda x: Imp(MEM(e, n, x), MEM(g, b.len, x)), lambda x: [MEM(e, n, x)]), 'sorting keeps the base')
        c.oblige(FA('x', lambda x: Imp(And(MEM(o.arr, o.len, x), x != p), MEM(g, b.len, x)), lambda x: [MEM(o.arr, o.len, x)]), 'the base is there before duplicates are removed')
    def dedupe(a, s0, i, j, n):
        """a[0..j) are the distinct values of the sorted s0[0..i), a agrees with s0 from j on"""
        return [('bounds', And(i >= 1, j >= 1, j <= i, Or(i <= n, And(n == 0, i == 1, j == 1)))),
                ('the rest is untouched', FA('k', lambda k: Imp(k >= j, a[k] == s0[k]), lambda k: [a[k], s0[k]])),
                ('the last one kept is the last one seen', Imp(n > 0, a[j - 1] == s0[i - 1])),
                ('sorted and distinct so far', strict(a, j)),
                ('everything seen is kept', FA('k', lambda k: Imp(And(k >= 0, k < i, n > 0), MEM(a, j, s0[k])), lambda k: [s0[k]])),
                ('nothing else is kept', FA('k', lambda k: Imp(And(k >= 0, k < j, n > 0), MEM(s0, i, a[k])), lambda k: [a[k]]))]
    def ar_dd(c):
        b = c.arg('base'); return dedupe(b.arr, c.ghost_get('G0', AR), c['i'], c['j'], b.len) + [('size', b.len == mkview(c.eng, c.pre, c._ppath('base')[0]).len)]
    L.append(Contract(Q + '::apply_resolution', ar_req, ar_ens, {0: LoopSpec(ar_push, init=ar_push_init, dec=lambda c: NOIDX - c['i']), 1: LoopSpec(ar_dd, init=dd_init, dec=lambda c: UNDEF - c['i'])}, names=['base', 'resolvent_index', 'pivot']))
    # ---------------------------------------------------------------- input_clause
    def readable(c, v, n):
        if isinstance(v, PV): return And(v.off >= 0, Or(n == 0, v.off + n <= c.eng.cont_len(c.st, v.cont)))
        al, ln = c.eng.heap_leaf(c.st, HR, 'alive'), c.eng.heap_leaf(c.st, HR, 'len')
        return Or(n == 0, And(v.ref > 0, al[v.ref], v.off >= 0, v.off + n <= ln[v.ref]))
    def ic_req(c):
        s, d, n = S(c.this), c.arg('id'), c.arg('size')
        return inv(s) + [('the id is not in use', Or(d >= s.m, s.cm[d] == UNDEF)), ('the id is below 2^31 - 1', And(d >= 0, d < NOIDX - 1)), ('size', And(n >= 0, n < NOIDX)),
                         ('the literals are readable', readable(c, c.arg('lits'), n))]
    def recorded(c, s, o, d, A, off, n, chain=None):
        i = o.n
        return [('one clause is recorded', And(s.n == o.n + 1, s.cm[d] == o.n, d < s.m)),
                ('the clause is sorted and free of duplicates', strict(s.row(i), s.sz[i])),
                ('the clause has all the given literals', FA('k', lambda k: Imp(And(k >= off, k < off + n), MEM(s.row(i), s.sz[i], A[k])), lambda k: [A[k]])),
                ('the clause has only the given literals', FA('k', lambda k: Imp(And(k >= 0, k < s.sz[i]), MEM(A, n, s.lit(i, k), off)), lambda k: [s.lit(i, k)])),
                ('recorded clauses are kept', FA('q', lambda q: Imp(And(q >= 0, q < o.n), And(s.sz[q] == o.sz[q], s.cn[q] == o.cn[q], s.ref[q] == o.ref[q])), lambda q: [s.sz[q]])),
                ('their literals are kept', FA('q', lambda q: Imp(And(q >= 0, q < o.n, o.sz[q] > 0), s.row(q) == o.row(q)), lambda q: [s.ref[q]])),
                ('their chains are kept', FA('q k', lambda q, k: Imp(And(q >= 0, q < o.n, k >= 0, k < o.cn[q]), And(s.link(q, k) == o.link(q, k), s.pivot(q, k) == o.pivot(q, k))), lambda q, k: [s.link(q, k), s.pivot(q, k)])),
                ('other ids are kept', And(s.m >= o.m, FA('x', lambda x: Imp(And(x >= 0, x < s.m, x != d), s.cm[x] == z3.If(x < o.m, o.cm[x], UNDEF)), lambda x: [s.cm[x]]))),
                ('an empty clause is recorded as such', s.e == z3.If(n == 0, o.n, o.e))]
    def ic_ens(c):
        s, o, d, n = S(c.this), S(c.othis), c.arg('id'), c.arg('size')
        A, off = rng0(c, 'lits')
        return inv(s) + recorded(c, s, o, d, A, off, n) + [('an input clause has no chain', s.cn[o.n] == 0),
                ('the current chain is kept', And(s.kn == o.kn, FA('k', lambda k: Imp(And(k >= 0, k < o.kn), And(s.kc[k] == o.kc[k], s.kp[k] == o.kp[k])), lambda k: [s.kc[k], s.kp[k]])))]
    def rng0(c, name):
        cc = Ctx(c.eng, c.old, c.old, c.fr, c.thisp, c.params, fn=c.fn, contract=c.contract)
        return rng(cc, name)
    def id_init(c):
        s = S(c.this); i = s.n - 1
        c.ghost_set('I0', c.eng.name(c.st, s.row(i))); c.ghost_set('IL', c.eng.name(c.st, s.L))
        A, off = rng0(c, 'lits'); n = c.arg('size')
        c.oblige(FA('k', lambda k: Imp(And(k >= off, k < off + n), MEM(c.ghost_get('I0', AR), n, A[k])), lambda k: [A[k]]), 'the given literals are copied')
    def ic_hint(c):
        s, n = S(c.this), c.arg('size'); i = s.n - 1
        return [('the kept literals', FA('x', lambda x: Imp(And(n > 0, MEM(c.ghost_get('I0', AR), n, x)), MEM(s.row(i), s.sz[i], x)), lambda x: [MEM(c.ghost_get('I0', AR), n, x), MEM(s.row(i), s.sz[i], x)]))]
    def id_inv(c):
        s, n = S(c.this), c.arg('size'); i = s.n - 1
        r = s.ref[i]
        return dedupe(s.row(i), c.ghost_get('I0', AR), c['i'], c['j'], n) + [('other arrays are untouched', FA('x', lambda x: Imp(x != r, z3.Select(s.L, x) == z3.Select(c.ghost_get('IL', s.L.sort()), x)), lambda x: [z3.Select(s.L, x)]))]
    L.append(Contract(Q + '::input_clause', ic_req, ic_ens, {0: LoopSpec(id_inv, init=id_init, dec=lambda c: UNDEF - c['i'])}, names=['id', 'lits', 'size'], hints=ic_hint))
    # ---------------------------------------------------------------- chains and ids
    def kept(s, o, but=()):
        """what a function that only touches ids or the current chain leaves alone"""
        r = []
        if 'clauses' not in but:
            r += [('recorded clauses are kept', And(s.n == o.n, s.e == o.e, FA('q', lambda q: Imp(And(q >= 0, q < o.n), And(s.sz[q] == o.sz[q], s.cn[q] == o.cn[q], s.ref[q] == o.ref[q], Or(s.sz[q] == 0, s.row(q) == o.row(q)))), lambda q: [s.sz[q]]))),
                  ('their chains are kept', FA('q k', lambda q, k: Imp(And(q >= 0, q < o.n, k >= 0, k < o.cn[q]), And(s.link(q, k) == o.link(q, k), s.pivot(q, k) == o.pivot(q, k))), lambda q, k: [s.link(q, k), s.pivot(q, k)]))]
        if 'ids' not in but: r += [('ids are kept', And(s.m == o.m, FA('x', lambda x: Imp(And(x >= 0, x < s.m), s.cm[x] == o.cm[x]), lambda x: [s.cm[x]])))]
        if 'chain' not in but: r += [('the current chain is kept', And(s.kn == o.kn, FA('k', lambda k: Imp(And(k >= 0, k < o.kn), And(s.kc[k] == o.kc[k], s.kp[k] == o.kp[k])), lambda k: [s.kc[k], s.kp[k]])))]
        return r
    def pair(c): return S(c.this), S(c.othis)
    L.append(Contract(Q + '::start_resolution_chain', lambda c: inv(S(c.this)) + [('no chain is under construction', S(c.this).kn == 0)], lambda c: inv(S(c.this)) + kept(*pair(c)), modifies=[]))
    def lk_req(c):
        s, d, p = S(c.this), c.arg('id'), c.arg('pivot')
        return inv(s) + [('the id is in use', And(d >= 0, d < s.m, s.cm[d] != UNDEF)), ('the first link has no pivot', Or(s.kn != 0, p == 0))]
    def lk_ens(c):
        s, o = pair(c)
        return inv(s) + kept(s, o, ('chain',)) + [('the link is appended', And(s.kn == o.kn + 1, s.kp[o.kn] == c.arg('pivot'), s.kc[o.kn] == o.cm[c.arg('id')])),
                ('the links before it are kept', FA('k', lambda k: Imp(And(k >= 0, k < o.kn), And(s.kc[k] == o.kc[k], s.kp[k] == o.kp[k])), lambda k: [s.kc[k], s.kp[k]]))]
    L.append(Contract(Q + '::link_resolution', lk_req, lk_ens, names=['pivot', 'id']))
    L.append(Contract(Q + '::cancel_resolution_chain', lambda c: inv(S(c.this)), lambda c: inv(S(c.this)) + kept(*pair(c), ('chain',)) + [('the chain is empty', S(c.this).kn == 0)]))
    def de_req(c):
        s, d = S(c.this), c.arg('id')
        return inv(s) + [('the id is in use', And(d >= 0, d < s.m, s.cm[d] != UNDEF))]
    def de_ens(c):
        s, o = pair(c); d = c.arg('id')
        return inv(s) + kept(s, o, ('ids',)) + [('the id is free', s.cm[d] == UNDEF), ('other ids are kept', And(s.m == o.m, FA('x', lambda x: Imp(And(x >= 0, x < s.m, x != d), s.cm[x] == o.cm[x]), lambda x: [s.cm[x]])))]
    L.append(Contract(Q + '::deactivate_clause', de_req, de_ens, names=['id']))
    def fi_req(c): return ic_req(c)
    def fi_ens(c):
        s, o, d, n = S(c.this), S(c.othis), c.arg('id'), c.arg('size')
        A, off = rng0(c, 'lits')
        return inv(s) + recorded(c, s, o, d, A, off, n) + [('the chain is recorded with the clause', And(s.cn[o.n] == o.kn, FA('k', lambda k: Imp(And(k >= 0, k < o.kn), And(s.link(o.n, k) == o.kc[k], s.pivot(o.n, k) == o.kp[k])), lambda k: [s.link(o.n, k), s.pivot(o.n, k)]))),
                ('the current chain is empty', s.kn == 0)]
    def fi_init(c):
        s = S(c.this)
        for nm, v in (('CC', s.cc), ('CP', s.cp), ('CN', s.cn)): c.ghost_set(nm, c.eng.name(c.st, v))
    def fi_inv(c):
        s, o, j = S(c.this), S(c.othis), c['$i0']; i = s.n - 1
        G = lambda nm, v: c.ghost_get(nm, v.sort())
        return [('bounds', And(j >= 0, j <= s.kn, s.cn[i] == j)),
                ('copied so far', FA('k', lambda k: Imp(And(k >= 0, k < j), And(s.link(i, k) == s.kc[k], s.pivot(i, k) == s.kp[k])), lambda k: [s.link(i, k), s.pivot(i, k)])),
                ('other chains are untouched', FA('q', lambda q: Imp(q != i, And(z3.Select(s.cc, q) == z3.Select(G('CC', s.cc), q), z3.Select(s.cp, q) == z3.Select(G('CP', s.cp), q), s.cn[q] == G('CN', s.cn)[q])), lambda q: [z3.Select(s.cc, q), z3.Select(s.cp, q), s.cn[q]]))]
    L.append(Contract(Q + '::finalize_resolution', fi_req, fi_ens, {0: LoopSpec(fi_inv, init=fi_init)}, names=['id', 'lits', 'size']))
    def ra_ens(c):
        s, o = pair(c)
        return inv(s) + kept(s, o) + [('the root literal is appended', And(s.rn == o.rn + 1, s.rrn == o.rrn + 1, s.rl[o.rn] == c.arg('lit'), s.rr[o.rrn] == c.arg('reason'))),
                ('root literals before it are kept', FA('k', lambda k: Imp(And(k >= 0, k < o.rn), And(s.rl[k] == o.rl[k], s.rr[k] == o.rr[k])), lambda k: [s.rl[k], s.rr[k]]))]
    L.append(Contract(Q + '::root_assign', lambda c: inv(S(c.this)), ra_ens, names=['lit', 'reason']))
    # ---------------------------------------------------------------- remove_root_literals
    def reason(s, i): return s.cm[s.rr[i]]
    def roots(s):
        """the documented preconditions of root_assign, for every root literal"""
        return [('root reasons are in use', FA('i', lambda i: Imp(And(i >= 0, i < s.rn), And(s.rr[i] >= 0, s.rr[i] < s.m, s.ok(reason(s, i)))), lambda i: [s.rr[i]])),
                ('root literals have variables of their own', And(FA('i', lambda i: Imp(And(i >= 0, i < s.rn), s.rl[i] >= 2), lambda i: [s.rl[i]]), FA('i j', lambda i, j: Imp(And(i >= 0, i < j, j < s.rn), s.rl[i] / 2 != s.rl[j] / 2), lambda i, j: [(s.rl[i], s.rl[j])]))),
                ('a reason is falsified by earlier root literals, except its own', FA('i x', lambda i, x: Imp(And(i >= 0, i < s.rn, MEM(s.row(reason(s, i)), s.sz[reason(s, i)], x), x != s.rl[i]), MEM(s.rl, i, neg(x))), lambda i, x: [(s.rr[i], MEM(s.row(reason(s, i)), s.sz[reason(s, i)], x))]))] + ([
                ('a reason contains its literal', FA('i', lambda i: Imp(And(i >= 0, i < s.rn), MEM(s.row(reason(s, i)), s.sz[reason(s, i)], s.rl[i])), lambda i: [s.rl[i]]))] if M else [])
    def rm_req(c):
        s, d = S(c.this), c.arg('id')
        return inv(s) + [('the id is in use', And(d >= 0, d < NOIDX - 1, d < s.m, s.cm[d] != UNDEF)), ('no chain is under construction', s.kn == 0)] + roots(s)
    def falsified(s, x): return MEM(s.rl, s.rn, neg(x))
    def rm_ens(c):
        s, o, d = S(c.this), S(c.othis), c.arg('id')
        q = o.cm[d]; i = o.n
        C, cl, D, dl = o.row(q), o.sz[q], s.row(i), s.sz[i]
        return inv(s) + [('one clause is recorded in place of the given one', And(s.n == o.n + 1, s.cm[d] == o.n, d < s.m)),
                ('its literals are literals of the clause', FA('x', lambda x: Imp(MEM(D, dl, x), MEM(C, cl, x)), lambda x: [MEM(D, dl, x)])),
                ('none of its literals is falsified at the root', FA('x', lambda x: Imp(MEM(D, dl, x), Not(falsified(s, x))), lambda x: [MEM(D, dl, x)])),
                ('literals not falsified at the root are kept', FA('x', lambda x: Imp(And(MEM(C, cl, x), Not(falsified(s, x))), MEM(D, dl, x)), lambda x: [MEM(C, cl, x)])),
                ('its chain starts from the clause', And(s.cn[i] >= 1, s.link(i, 0) == q, s.pivot(i, 0) == 0)),
                ('recorded clauses are kept', FA('q', lambda q: Imp(And(q >= 0, q < o.n), And(s.sz[q] == o.sz[q], s.cn[q] == o.cn[q], s.ref[q] == o.ref[q], Or(s.sz[q] == 0, s.row(q) == o.row(q)))), lambda q: [s.sz[q]])),
                ('other ids are kept', And(s.m >= o.m, FA('x', lambda x: Imp(And(x >= 0, x < s.m, x != d), s.cm[x] == z3.If(x < o.m, o.cm[x], UNDEF)), lambda x: [s.cm[x]]))),
                ('no chain is under construction', s.kn == 0)] + ([('its chain is correct: ' + nm, f) for nm, f in
                    derives(s, F(c), s.cn[i], lambda k: s.pivot(i, k), lambda k: s.link(i, k)) + [('it derives the clause', FA('x', lambda x: F(c)(s.cn[i], x) == MEM(D, dl, x), lambda x: [MEM(D, dl, x)]))]] if M else [])
    FSo = z3.ArraySort(IS, z3.ArraySort(IS, BS))
    def F(c):
        f = c.ghost_get('F', FSo)
        return lambda k, x: z3.Select(z3.Select(f, k), x)
    def rm_ghost(c):
        if not M: return
        s, v = S(c.this), c['simplified_clause']
        g = c.eng.fresh('members', z3.ArraySort(IS, BS)); a = c.eng.name(c.st, v.arr)
        c.eng.assume(c.st, FA('x', lambda x: g[x] == MEM(a, v.len, x), lambda x: [g[x]]))      # defines g
        c.ghost_set('F', c.eng.name(c.st, z3.Store(c.ghost_get('F', FSo), s.kn, g)))
    def rm_inv(c):
        s, o, d, i = S(c.this), S(c.othis), c.arg('id'), c['i']
        v = c['simplified_clause']; q = o.cm[d]
        C, cl = o.row(q), o.sz[q]
        return [('bounds', And(i >= 0, i <= s.rn, v.len >= 0)),
                ('sorted', strict(v.arr, v.len)),
                ('falsified literals already passed are gone', FA('k x', lambda k, x: Imp(And(k >= i, k < s.rn, MEM(v.arr, v.len, x)), s.rl[k] != neg(x)), lambda k, x: [(s.rl[k], MEM(v.arr, v.len, x))])),
                ('nothing but literals of the clause and literals to remove', FA('x', lambda x: Imp(MEM(v.arr, v.len, x), Or(MEM(C, cl, x), MEM(s.rl, i, neg(x)))), lambda x: [MEM(v.arr, v.len, x)])),
                ('literals not falsified are kept', FA('x', lambda x: Imp(And(MEM(C, cl, x), Not(falsified(s, x))), MEM(v.arr, v.len, x)), lambda x: [MEM(C, cl, x), MEM(v.arr, v.len, x)])),
                ('the chain starts from the clause', And(s.kn >= 1, s.kp[0] == 0, s.kc[0] == q)),
                ('the chain links to recorded clauses', FA('k', lambda k: Imp(And(k >= 0, k < s.kn), s.ok(s.kc[k])), lambda k: [s.kc[k]]))] + ([('the chain so far is correct: ' + nm, f) for nm, f in
                    derives(s, F(c), s.kn, lambda k: s.kp[k], lambda k: s.kc[k]) + [('it derives the clause so far', FA('x', lambda x: F(c)(s.kn, x) == MEM(v.arr, v.len, x), lambda x: [MEM(v.arr, v.len, x), F(c)(s.kn, x)]))]] if M else [])
    L.append(Contract(Q + '::remove_root_literals', rm_req, rm_ens, {0: LoopSpec(rm_inv, dec=lambda c: c['i'], init=rm_ghost, end=rm_ghost), 1: LoopSpec(rm_inv, dec=lambda c: c['i'])}, names=['id']))
    # ---------------------------------------------------------------- check_proof
    def inputs_hold(s): return FA('i', lambda i: Imp(And(s.ok(i), s.cn[i] == 0), s.sat(i)), lambda i: [s.cn[i]])
    def cp_req(c): s = S(c.this); return inv(s) + [('the empty clause is recorded', s.e != UNDEF)]
    def cp_ens(c):
        s, o = pair(c)
        return inv(s) + kept(s, o) + [('no assignment satisfies all input clauses of an accepted proof', Imp(c.res, Not(inputs_hold(s))))] + ([('a proof of correct chains is accepted', Imp(chains_hold(s), c.res))] if M else [])
    def chains_hold(s): return FA('i', lambda i: Imp(s.ok(i), correct_chain(s, i)), lambda i: [s.cn[i]])
    def wl(c): w = c['clauses_to_check']; return w.arr, w.len
    def marked(s, i): return s.mk[i] != 0
    def all_ok(s, a, n): return FA('k', lambda k: Imp(And(k >= 0, k < n), s.ok(a[k])), lambda k: [a[k]])
    def cp_inv(c):
        s = S(c.this); a, n = wl(c); g = c['correct']
        return [('recorded clauses to check', And(n >= 0, all_ok(s, a, n))),
                ('marked clauses follow from their premises', Imp(g, FA('i', lambda i: Imp(And(s.ok(i), marked(s, i)), s.follows(i)), lambda i: [s.mk[i]]))),
                ('premises of marked clauses are marked or to be checked', Imp(g, FA('i k', lambda i, k: Imp(And(s.ok(i), marked(s, i), k >= 0, k < s.cn[i]), Or(marked(s, s.link(i, k)), MEM(a, n, s.link(i, k)))), lambda i, k: [s.link(i, k)]))),
                ('the empty clause is marked or to be checked', Or(marked(s, s.e), MEM(a, n, s.e)))] + ([('correct chains are accepted', Imp(chains_hold(s), g))] if M else [])
    def cp_exit(c):
        s = S(c.this); a, n = wl(c); g = c['correct']
        i = c.eng.fresh('li', IS)
        allin = inputs_hold(s)
        smaller = FA('q', lambda q: Imp(And(q >= 0, q < i, marked(s, q)), s.sat(q)), lambda q: [s.mk[q]])
        c.oblige(Imp(And(g, allin, s.ok(i), marked(s, i), smaller, s.cn[i] > 0), s.premises_hold(i)), 'induction step: the premises hold')
        c.oblige(Imp(And(g, allin, s.ok(i), marked(s, i), smaller), s.sat(i)), 'induction step: the clause holds')
        c.eng.assume(c.st, FA('i', lambda i: Imp(And(g, allin, s.ok(i), marked(s, i)), s.sat(i)), lambda i: [s.mk[i]]))    # by strong induction on i
        c.oblige(Imp(g, marked(s, s.e)), 'the empty clause was checked')
        c.oblige(Imp(g, Not(allin)), 'the empty clause cannot hold')
    def cq_init(c):
        a, n = wl(c); c.ghost_set('W0', c.eng.name(c.st, a)); c.ghost_set('W0n', n)
    def cq_inv(c):
        s, d, j = S(c.this), c['index'], c['$i1']; a, n = wl(c); b, m = c.ghost_get('W0', AR), c.ghost_get('W0n', IS)
        return [('bounds', And(j >= 0, j <= s.cn[d], n >= m)),
                ('recorded clauses to check', all_ok(s, a, n)),
                ('clauses to check are kept', FA('k', lambda k: Imp(And(k >= 0, k < m), a[k] == b[k]), lambda k: [a[k], b[k]])),
                ('links so far are marked or to be checked', FA('k', lambda k: Imp(And(k >= 0, k < j), Or(marked(s, s.link(d, k)), MEM(a, n, s.link(d, k)))), lambda k: [s.link(d, k)]))]
    def un_inv(c):
        s, i = S(c.this), c['i']
        return [('bounds', And(i >= 0, i <= s.n)), ('unmarked so far', FA('k', lambda k: Imp(And(k >= 0, k < i), s.mk[k] == 0), lambda k: [s.mk[k]]))]
    L.append(Contract(Q + '::check_proof', cp_req, cp_ens, {0: LoopSpec(cp_inv, exit=cp_exit), 1: LoopSpec(cq_inv, init=cq_init), 2: LoopSpec(un_inv, dec=lambda c: S(c.this).n - c['i'])}))
    use = {'R01': 'binary_search binary_insert check_resolution_chain', 'R03': 'apply_resolution', 'R04': 'input_clause finalize_resolution link_resolution start_resolution_chain cancel_resolution_chain deactivate_clause root_assign'}.get(prop)
    if use: L = [c for c in L if c.qname.split('::')[-1] in use.split()]
    for c in L: V.add(c)
    return V, L
def lemmas(V, prop):
    if prop in ('R02', 'R04'): V.default_object(Q, lambda t: inv(S(t)) + [('nothing is recorded', And(S(t).n == 0, S(t).kn == 0, S(t).e == UNDEF))])
