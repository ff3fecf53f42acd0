"""src/utils/heap.cpp: the variable-priority heap (H01 order, H02 membership)."""
from ccv.verify import *

Q = 'napsat::utils::heap::'
UNDEF = 0xffffffff
CAP = 1 << 31            # keys and sizes: 2*i+2 must fit in 32 bits

def W(h):
    """index and heap are inverse to each other"""
    n, m = h._heap.len, h._index.len
    hp, ix = h._heap.arr, h._index.arr
    return [
        ('sizes', And(n >= 0, n < CAP, m >= 0, m <= CAP, h._activity.len == m)),
        ('heap entries are indexed', FA('i', lambda i: Imp(And(i >= 0, i < n), And(hp[i] >= 0, hp[i] < m, ix[hp[i]] == i)), lambda i: [hp[i]])),
        ('indexed keys are in the heap', FA('k', lambda k: Imp(And(k >= 0, k < m), Or(ix[k] == UNDEF, And(ix[k] >= 0, ix[k] < n, hp[ix[k]] == k))), lambda k: [ix[k]])),
    ]

def W0(h):
    """weaker form used inside operations: keys outside the heap array may carry a stale index"""
    return [W(h)[0], W(h)[1]]

def inh(h, k):
    ix = h._index.arr
    return And(ix[k] >= 0, ix[k] < h._heap.len, h._heap.arr[ix[k]] == k)

def same_in(h, o):
    a, b = h._index.arr, o._index.arr
    return FA('k', lambda k: Imp(And(k >= 0, k < h._index.len), And(inh(h, k) == inh(o, k), Or(inh(o, k), a[k] == b[k]))), lambda k: [a[k], b[k]] if not a.eq(b) else [a[k]])

def order(h, skip_parent=None, skip_child=None):
    """parent >= child for every pair, except pairs whose parent / child is the given position"""
    n, hp, ac = h._heap.len, h._heap.arr, h._activity.arr
    def body(i, j):
        g = And(i >= 0, j < n, Or(j == 2 * i + 1, j == 2 * i + 2))
        if skip_parent is not None: g = And(g, i != skip_parent)
        if skip_child is not None: g = And(g, j != skip_child)
        return Imp(g, ac[hp[j]] <= ac[hp[i]])
    return FA('i j', body, lambda i, j: [(hp[i], hp[j])])

def grand(h, i):
    """every child of position i is at most i's parent"""
    n, hp, ac = h._heap.len, h._heap.arr, h._activity.arr
    return FA('p j', lambda p, j: Imp(And(p >= 0, i > 0, Or(i == 2 * p + 1, i == 2 * p + 2), j < n, Or(j == 2 * i + 1, j == 2 * i + 2)),
                                     ac[hp[j]] <= ac[hp[p]]), lambda p, j: [(hp[p], hp[j])])

def below(h, i):
    n, hp, ac = h._heap.len, h._heap.arr, h._activity.arr
    return FA('j', lambda j: Imp(And(j < n, Or(j == 2 * i + 1, j == 2 * i + 2)), ac[hp[j]] <= ac[hp[i]]), lambda j: [hp[j]])

def above(h, i):
    """i is at most its parent"""
    n, hp, ac = h._heap.len, h._heap.arr, h._activity.arr
    return FA('p', lambda p: Imp(And(p >= 0, Or(i == 2 * p + 1, i == 2 * p + 2)), ac[hp[i]] <= ac[hp[p]]), lambda p: [hp[p]])

def member(h, k):
    return And(k >= 0, k < h._index.len, h._index.arr[k] != UNDEF)

def same_set(a, b, but=None):
    """same keys (except but), same activity of every stored key"""
    def body(k):
        g = Imp(k >= 0, And(member(a, k) == member(b, k), Imp(member(a, k), a._activity.arr[k] == b._activity.arr[k])))
        return Imp(k != but, g) if but is not None else g
    return FA('k', body, lambda k: [a._index.arr[k], b._index.arr[k]] if not a._index.arr.eq(b._index.arr) else [a._index.arr[k]])

def perm_only(a, b):
    """sizes and activities untouched, same keys"""
    return And(a._heap.len == b._heap.len, a._index.len == b._index.len, a._activity.len == b._activity.len)

def contracts(prop):
    O = prop == 'H01'
    M = prop == 'H02'
    def inv(h):
        return W(h) + ([('order', order(h))] if O else [])
    def size_ok(h): return h._heap.len + 1 < CAP

    # ---------------------------------------------------------------- private
    def down_req(c):
        h, i = c.this, c.arg('i')
        r = W0(h) + [('position in the heap', And(i >= 0, i < h._heap.len))]
        if O: r += [('order except below i', order(h, skip_parent=i)), ('grandchildren', grand(h, i))]
        return r
    def keep(c, h, o, pre=''):
        return W0(h) + [('sizes kept', perm_only(h, o))] + ([('same positions occupied by the same keys', same_in(h, o)), ('activities kept', FA('k', lambda k: h._activity.arr[k] == o._activity.arr[k], lambda k: [h._activity.arr[k]]))])
    def down_ens(c):
        h, o = c.this, c.othis
        r = keep(c, h, o)
        if O: r += [('order', order(h))]
        return r
    def down_inv(c):
        h, o, i = c.this, c.othis, c['i']
        r = keep(c, h, o) + [('position in the heap', And(i >= 0, i < h._heap.len))]
        if O: r += [('order except below i', order(h, skip_parent=i)), ('grandchildren', grand(h, i))]
        return r
    def up_req(c):
        h, i = c.this, c.arg('i')
        r = W0(h) + [('position in the heap', And(i >= 0, i < h._heap.len))]
        if O: r += [('order except around i', order(h, skip_parent=i, skip_child=i)), ('grandchildren', grand(h, i))]
        return r
    def up_ens(c):
        h, o = c.this, c.othis
        key = o._heap.arr[c.arg('i')]; j = h._index.arr[key]
        r = keep(c, h, o)
        if O:
            r += [('order except below the moved key', order(h, skip_parent=j)),
                  ('grandchildren', grand(h, j)),
                  ('order below the moved key', Imp(Or(j != c.arg('i'), below(o, c.arg('i'))), below(h, j)))]
        return r
    def up_inv(c):
        h, o, i = c.this, c.othis, c['i']
        i0 = c.arg('i')
        r = keep(c, h, o) + [('position in the heap', And(i >= 0, i < h._heap.len, h._heap.arr[i] == o._heap.arr[i0])),
                             ('parent', Imp(i > 0, Or(i == 2 * c['p'] + 1, i == 2 * c['p'] + 2)))]
        if O:
            r += [('order except around i', order(h, skip_parent=i, skip_child=i)), ('grandchildren', grand(h, i)),
                  ('order below i', Imp(Or(i != i0, below(o, i0)), below(h, i)))]
        return r

    # ---------------------------------------------------------------- public
    def pub_req(extra=None):
        def f(c):
            r = inv(c.this)
            if extra: r += extra(c)
            return r
        return f
    def has(c): return [('key is stored', member(c.this, c.arg('key')))]
    def ins_req(c):
        return [('key is not stored', Not(member(c.this, c.arg('key')))), ('room', size_ok(c.this)), ('key is below 2^31', c.arg('key') < CAP)]
    def ins_ens(c):
        h, o, k = c.this, c.othis, c.arg('key')
        r = inv(h) + [('key stored with its activity', And(member(h, k), h._activity.arr[k] == c.arg('activity')))]
        if M: r += [('other keys unchanged', same_set(h, o, k)), ('size grows by one', h._heap.len == o._heap.len + 1)]
        return r
    def ins_inv(c):
        h, o = c.this, c.othis
        i, old = c['i'], c['old_size']
        ix = h._index.arr
        return [('bounds', And(old == o._index.len, i >= old, i <= h._index.len)),
                ('sizes', And(h._index.len == c.arg('key') + 1, h._activity.len == h._index.len)),
                ('old part kept', FA('k', lambda k: Imp(And(k >= 0, k < old), ix[k] == o._index.arr[k]), lambda k: [ix[k]])),
                ('new part cleared', FA('k', lambda k: Imp(And(k >= old, k < i), ix[k] == UNDEF), lambda k: [ix[k]]))]
    def rem_ens(c):
        h, o, k = c.this, c.othis, c.arg('key')
        r = inv(h)
        if M: r += [('key no longer stored', Not(member(h, k))), ('other keys unchanged', same_set(h, o, k)), ('size shrinks by one', h._heap.len == o._heap.len - 1)]
        return r
    def upd_ens(c):
        h, o, k = c.this, c.othis, c.arg('key')
        r = inv(h) + [('key has the new activity', And(member(h, k), h._activity.arr[k] == c.arg('activity')))]
        if M: r += [('other keys unchanged', same_set(h, o, k)), ('size kept', h._heap.len == o._heap.len)]
        return r
    def inc_req(c):
        return has(c) + [('activity does not decrease', c.this._activity.arr[c.arg('key')] <= c.arg('activity'))]
    def norm_req(c): return [('factor is not negative', c.arg('factor') >= 0)]
    def norm_ens(c):
        h, o = c.this, c.othis
        r = inv(h)
        if M: r += [('same keys', And(h._heap.len == o._heap.len, FA('k', lambda k: Imp(k >= 0, member(h, k) == member(o, k)), lambda k: [h._index.arr[k]])))]
        r += [('activities rescaled', FA('k', lambda k: Imp(member(h, k), h._activity.arr[k] == FMUL(o._activity.arr[k], c.arg('factor'))), lambda k: [h._activity.arr[k]]))]
        return r
    def norm_inv(c):
        h, o, i = c.this, c.othis, c['i']
        a, b = h._activity.arr, o._activity.arr
        return [('bounds', And(i >= 0, i <= h._activity.len, h._activity.len == o._activity.len)),
                ('scaled part', FA('k', lambda k: Imp(And(k >= 0, k < i), a[k] == FMUL(b[k], c.arg('factor'))), lambda k: [a[k]])),
                ('rest', FA('k', lambda k: Imp(And(k >= i, k < h._activity.len), a[k] == b[k]), lambda k: [a[k]]))]
    def nonempty(c): return [('heap is not empty', c.this._heap.len > 0)]
    def is_max(h, o, res):
        ac, hp = o._activity.arr, o._heap.arr
        return [('the returned key is stored', member(o, res)), ('the returned key is the one in front', res == hp[0]),
                ] + ([('the returned key has maximal activity', FA('p', lambda p: Imp(And(p >= 0, p < o._heap.len), ac[hp[p]] <= ac[res]), lambda p: [hp[p]]))] if O else [])
    def top_hint(c):
        """a parent is at least its child, hence the root is at least everything (lemma `root`)"""
        o = c.othis
        if not O: return []
        return root_lemma_use(c.eng, c.st, o)
    def pop_ens(c):
        h, o = c.this, c.othis
        r = inv(h) + is_max(h, o, c.res)
        if M: r += [('the returned key is removed', Not(member(h, c.res))), ('other keys unchanged', same_set(h, o, c.res)), ('size shrinks by one', h._heap.len == o._heap.len - 1)]
        return r
    def top_ens(c):
        h, o = c.this, c.othis
        return is_max(h, o, c.res)
    def contains_ens(c): return [('contains iff stored', c.res == member(c.othis, c.arg('key')))]
    def size_ens(c): return [('size is the number of stored keys', c.res == c.othis._heap.len)]
    def empty_ens(c): return [('empty iff no key is stored', c.res == (c.othis._heap.len == 0))]

    N = lambda s: s.split()
    L = [
        Contract(Q + 'heapify_down', down_req, down_ens, {0: LoopSpec(down_inv, dec=lambda c: c.this._heap.len - c['i'])}, names=['i']),
        Contract(Q + 'heapify_up', up_req, up_ens, {0: LoopSpec(up_inv, dec=lambda c: c['i'])}, names=['i']),
        Contract(Q + 'insert', pub_req(ins_req), ins_ens, {0: LoopSpec(ins_inv, dec=lambda c: c.this._index.len - c['i'])}, names=N('key activity')),
        Contract(Q + 'remove', pub_req(has), rem_ens, names=['key']),
        Contract(Q + 'update', pub_req(has), upd_ens, names=N('key activity')),
        Contract(Q + 'increase_activity', pub_req(inc_req), upd_ens, names=N('key activity')),
        Contract(Q + 'normalize', pub_req(norm_req), norm_ens, {0: LoopSpec(norm_inv, dec=lambda c: c.this._activity.len - c['i'])}, names=['factor']),
        Contract(Q + 'pop', pub_req(nonempty), pop_ens, hints=top_hint),
        Contract(Q + 'top', pub_req(nonempty), top_ens, hints=top_hint, modifies=[]),
        Contract(Q + 'contains', pub_req(), contains_ens, names=['key'], modifies=[]),
        Contract(Q + 'size', pub_req(), size_ens, modifies=[]),
        Contract(Q + 'empty', pub_req(), empty_ens, modifies=[]),
    ]
    return L

# Induction lemma: order => for every position p, act(heap[p]) <= act(heap[0]).
def root_lemma_use(eng, st, h):
    n, hp, ac = h._heap.len, h._heap.arr, h._activity.arr
    root = FA('p', lambda p: Imp(And(p >= 0, p < n), ac[hp[p]] <= ac[hp[0]]), lambda p: [hp[p]])
    # step proved in place: if all smaller positions are fine, p is fine (q: p's parent, u: its key)
    p, q, u = eng.fresh('lp', IS), eng.fresh('lq', IS), eng.fresh('lu', IS)
    dfn = And(q == (p - 1) / 2, u == hp[q])
    hyp = FA('r', lambda r: Imp(And(r >= 0, r < p), ac[hp[r]] <= ac[hp[0]]), lambda r: [hp[r]])
    eng.oblige(st, Imp(And(p > 0, p < n, dfn), And(q >= 0, q < p, Or(p == 2 * q + 1, p == 2 * q + 2))), 'lemma root: parent position', 'lemma')
    eng.oblige(st, Imp(And(p >= 0, p < n, dfn, Imp(p > 0, And(q >= 0, q < p, Or(p == 2 * q + 1, p == 2 * q + 2))), hyp), ac[hp[p]] <= ac[hp[0]]), 'lemma root: induction step', 'lemma')
    eng.assume(st, root)
    return []

def axioms():
    x, y, f = z3.Reals('x y f')
    return [z3.ForAll([x, y, f], Imp(And(f >= 0, x <= y), FMUL(x, f) <= FMUL(y, f)), patterns=[z3.MultiPattern(FMUL(x, f), FMUL(y, f))])]

def build(prop):
    U = extract.load(['src/utils/heap.cpp'])
    V = Verifier(U, {'axioms': axioms()})
    L = contracts(prop)
    for c in L: V.add(c)
    return V, L

def lemmas(V, prop):
    V.default_object('napsat::utils::heap', lambda h: W(h) + ([('order', order(h))] if prop == 'H01' else []) + [('no key is stored', h._heap.len == 0)])
