"""src/utils/partition.{hpp,cpp}: the AVL tree (A01 set semantics, A02 order and balance, A03 best fit, A04 memory).

Ghost state.  T: the nodes of the tree; at: rank -> node holding it (0 if none), where the rank of a (key, data)
pair is key*2^64+data; per node the exact open interval (lo, hi) of ranks its subtree may hold, and its parent.
"""
from ccv.verify import *
from ccv import views

NQ = 'utils::AVLTree::AVLNode'
TQ = 'utils::AVLTree::'
NR = '@' + NQ
TOP = I(1 << 96)
BOT = I(-1)
HB = 1 << 30
AB = z3.ArraySort(IS, BS)
AI = z3.ArraySort(IS, IS)
R = z3.Function('rank', IS, IS, IS)

def axioms():
    k, d = z3.Ints('k d')
    return [z3.ForAll([k, d], R(k, d) == k * (1 << 64) + d, patterns=[R(k, d)])]

def un(a):
    """strip updates: patterns must match terms of the underlying array"""
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE: a = a.arg(0)
    return a

class S:
    """the heap of nodes and the ghost state in one program state"""
    def __init__(s, eng, st):
        s.eng, s.st = eng, st
        rec = eng.U.recq[NQ]
        def f(name):
            n, t = views.find_field(eng, rec, name)
            return eng.get_leaf(st, NR, '.' + n, t, ())
        s.key, s.data, s.ht, s.left, s.right = f('_key'), f('_data'), f('_height'), f('_left'), f('_right')
        g = lambda n: eng.get_leaf(st, NR, '.$' + n, GhostTy(IS), ())
        s.lo, s.hi, s.par = g('lo'), g('hi'), g('par')
        s.T = eng.ghost_get(st, 'T', AB)
        s.at = eng.ghost_get(st, 'at', AI)
        s.alive = eng.heap_leaf(st, NR, 'alive')
    def g(s, name): return s.eng.ghost_get(s.st, name, IS)
    def rk(s, n): return R(s.key[n], s.data[n])
    def inn(s, n, m): return And(s.lo[n] < s.rk(m), s.rk(m) < s.hi[n])
    def h(s, n): return s.ht[n]      # by convention the null reference has height 0
    def null(s): return ('the null reference counts as height 0', s.ht[0] == 0)
    def bal(s, n): return And(s.h(s.left[n]) - s.h(s.right[n]) <= 1, s.h(s.right[n]) - s.h(s.left[n]) <= 1)
    def mx(s, n): return z3.If(s.h(s.left[n]) < s.h(s.right[n]), s.h(s.right[n]), s.h(s.left[n]))
    def exact(s, n):
        a, b, x = s.ht[s.left[n]], s.ht[s.right[n]], s.ht[n]
        return And(x > a, x > b, Or(x == a + 1, x == b + 1))
    # facts about one node
    def own(s, n): return And(n != 0, s.alive[n], s.lo[n] < s.rk(n), s.rk(n) < s.hi[n], s.data[n] >= 0, s.data[n] < (1 << 64), s.lo[n] >= BOT, s.hi[n] <= TOP)
    def linkl(s, n):
        l = s.left[n]
        return Or(l == 0, And(s.T[l], s.lo[l] == s.lo[n], s.hi[l] == s.rk(n), s.lo[l] < s.rk(l), s.rk(l) < s.hi[l], s.par[l] == n))
    def linkr(s, n):
        r = s.right[n]
        return Or(r == 0, And(s.T[r], s.lo[r] == s.rk(n), s.hi[r] == s.hi[n], s.lo[r] < s.rk(r), s.rk(r) < s.hi[r], s.par[r] == n))
    # invariants
    def root(s, root):
        return And(Imp(root == 0, FA('n', lambda n: Not(s.T[n]), lambda n: [un(s.T)[n]])),
                   Imp(root != 0, And(s.T[root], s.lo[root] == BOT, s.hi[root] == TOP)))
    def struct(s, dl=None, dr=None):
        T, l, r = s.T, s.left, s.right
        return s.lam() + [('nodes are alive and inside their interval', FA('n', lambda n: Imp(T[n], s.own(n)), lambda n: [un(T)[n]])),
                ('left children', FA('n', lambda n: Imp(And(T[n], Not(dl(n)) if dl else TRUE), s.linkl(n)), lambda n: [un(l)[n]])),
                ('right children', FA('n', lambda n: Imp(And(T[n], Not(dr(n)) if dr else TRUE), s.linkr(n)), lambda n: [un(r)[n]])),
                ('no node is cut off on the left', FA('n m', lambda n, m: Imp(And(T[n], T[m], s.lo[n] < s.rk(m), s.rk(m) < s.rk(n)), l[n] != 0), lambda n, m: [(un(l)[n], un(T)[m])])),
                ('no node is cut off on the right', FA('n m', lambda n, m: Imp(And(T[n], T[m], s.rk(n) < s.rk(m), s.rk(m) < s.hi[n]), r[n] != 0), lambda n, m: [(un(r)[n], un(T)[m])])),
                ]
    def lam(s):
        T, lo, hi, rk = s.T, s.lo, s.hi, s.rk
        return [('intervals are nested or disjoint', FA('n m', lambda n, m: Imp(And(T[n], T[m], rk(n) < rk(m)), Or(And(rk(n) <= lo[m], hi[m] <= hi[n]), And(lo[m] <= lo[n], hi[n] <= rk(m)), hi[n] <= lo[m])),
                                                        lambda n, m: [(un(T)[n], un(T)[m])]))]
    def pairs(s):
        return [('every node is found under its pair', FA('n', lambda n: Imp(s.T[n], s.at[s.rk(n)] == n), lambda n: [un(s.T)[n]])),
                ('every stored pair has its node', FA('q', lambda q: Imp(s.at[q] != 0, And(s.T[s.at[q]], s.rk(s.at[q]) == q)), lambda q: [un(s.at)[q]]))]
    def heights(s, but=None):
        def w(n): return And(s.T[n], n != but) if but is not None else s.T[n]
        return [s.null(), ('heights are exact', FA('n', lambda n: Imp(w(n), s.exact(n)), lambda n: [un(s.left)[n], un(s.right)[n]])),
                ('heights are positive', FA('n', lambda n: Imp(s.T[n], s.ht[n] >= 1), lambda n: [un(s.T)[n], un(s.ht)[n]])),
                ('subtrees are balanced', FA('n', lambda n: Imp(w(n), s.bal(n)), lambda n: [un(s.left)[n], un(s.right)[n]]))]
    def small(s, b=HB):
        return ('the tree is less than 2^30 levels high', FA('n', lambda n: Imp(s.T[n], s.ht[n] < b), lambda n: [un(s.ht)[n]]))
    def inv(s, root):
        return s.struct() + s.pairs() + s.heights() + [('root', s.root(root))]
    # subtree facts used by the recursive functions
    def below(s, x, what, pats): return FA('m', lambda m: Imp(And(s.T[m], s.inn(x, m)), what(m)), pats)
    def low(s, x): return Or(x == 0, s.below(x, lambda m: s.ht[m] < 2 * HB, lambda m: [un(s.T)[m], un(s.ht)[m]]))
    def sub_ok(s, x):
        ch = lambda m: [un(s.left)[m], un(s.right)[m]]
        return Or(x == 0, And(s.T[x], s.own(x),
                              s.below(x, lambda m: And(s.own(m), s.ht[m] >= 1), lambda m: [un(s.T)[m], un(s.ht)[m]]),
                              s.below(x, lambda m: And(s.exact(m), s.linkl(m), s.linkr(m)), ch)))
    def tree_ok(s, n):
        """n with exact height over subtrees in order (n itself need not have its interval yet)"""
        return [s.null(), ('the node is alive with an exact height', Or(n == 0, And(s.alive[n], s.exact(n), s.ht[n] >= 1))),
                ('the left subtree has exact heights', Or(n == 0, s.sub_ok(s.left[n]))),
                ('the right subtree has exact heights', Or(n == 0, s.sub_ok(s.right[n])))]
    def complete(s, x):
        return FA('n m', lambda n, m: Imp(And(s.T[n], s.T[m], s.inn(x, n)), And(Imp(And(s.lo[n] < s.rk(m), s.rk(m) < s.rk(n)), s.left[n] != 0), Imp(And(s.rk(n) < s.rk(m), s.rk(m) < s.hi[n]), s.right[n] != 0))),
                  lambda n, m: [(un(s.left)[n], un(s.T)[m])])

def GhostTy(so):
    from ccv.core import GhostTy as G
    return G(so)

def now(c): return S(c.eng, c.st)
def old(c): return S(c.eng, c.old)
def setg(c, name, ref, val): c.eng.set_leaf(c.st, NR, '.$' + name, GhostTy(IS), (ref,), val)
def setga(c, name, arr): c.eng.set_leaf(c.st, NR, '.$' + name, GhostTy(IS), (), arr)

def new_hook(eng, st, ref):
    s = S(eng, st)
    eng.ghost_set(st, 'z', ref)
    rk = s.rk(ref)
    eng.ghost_set(st, 'T', z3.Store(s.T, ref, TRUE))
    eng.ghost_set(st, 'at', z3.Store(s.at, rk, ref))
    for n, v in (('lo', BOT), ('hi', TOP), ('par', I(0))): eng.set_leaf(st, NR, '.$' + n, GhostTy(IS), (ref,), v)

def del_hook(eng, st, ref):
    s = S(eng, st)
    eng.ghost_set(st, 'y', ref)
    eng.ghost_set(st, 'T', z3.Store(s.T, ref, FALSE))

def path(c): return c.this._path
def plast(c): return path(c).arr[path(c).len - 1]

def contracts(prop):
    W = lambda *n: [(NR, '.' + x) for x in n]
    # ------------------------------------------------------------------ node functions
    def height_req(c): return now(c).tree_ok(c.arg('node'))
    def height_ens(c): return [('height() is the stored height, 0 for null', c.res == old(c).h(c.arg('node')))]
    def height_dec(c): return now(c).h(c.arg('node'))
    def node_req(c):
        s = now(c); n = ref(c)
        return [s.null(), ('the subtree is in order with exact heights', And(s.sub_ok(n), s.T[n]))]
    def ref(c): return c.thisp.idx[0]
    def node_dec(c): return now(c).ht[ref(c)]
    def isb_ens(c):
        s = old(c); n = ref(c)
        q = FA('m', lambda m: Imp(And(s.T[m], s.inn(n, m)), s.bal(m)), lambda m: [s.left[m], s.right[m]])
        return [('true only if every node below is balanced', Imp(c.res, q)), ('true if every node below is balanced', Imp(q, c.res))]
    def isb_req(c):
        s = now(c); n = ref(c)
        return node_req(c) + [('heights fit', s.low(n)), ('no node below is cut off', s.complete(n))] + s.pairs()[:1]
    def isbst_ens(c): return [('true for an ordered tree', c.res)]
    def dtor_req(c):
        s = now(c); n = ref(c)
        leaf = And(s.left[n] == 0, s.right[n] == 0)
        return [s.null(), ('the subtree is in order, or the children are cleared', Or(leaf, And(s.sub_ok(n), s.T[n]))),
                ('no node below is cut off', Or(leaf, s.complete(n)))] + [(nm, Or(leaf, f)) for nm, f in s.pairs()[:1] + s.lam()]
    def dtor_ens(c):
        s, o = now(c), old(c); n = ref(c)
        leaf = And(o.left[n] == 0, o.right[n] == 0)
        gone = lambda m: And(Not(leaf), o.T[m], o.inn(n, m), m != n)
        return [('frees exactly the nodes below', FA('m', lambda m: s.alive[m] == And(o.alive[m], Not(gone(m))), lambda m: [s.alive[m]])),
                ('removes exactly the nodes below', FA('m', lambda m: s.T[m] == And(o.T[m], Not(gone(m))), lambda m: [s.T[m]]))]
    # ------------------------------------------------------------------ rotations
    def rot_req(nm, L, Rr):
        def f(c):
            s = now(c); b = c.arg(nm)
            d = getattr(s, Rr)[b]
            return s.struct() + s.pairs()[:1] + [s.null(), ('the rotated node and its heavy child are nodes', And(s.T[b], b != 0, d != 0)),
                    ('outer subtree has exact heights', s.sub_ok(getattr(s, L)[b])),
                    ('inner subtree has exact heights', s.sub_ok(getattr(s, L)[d])),
                    ('far subtree has exact heights', s.sub_ok(getattr(s, Rr)[d])),
                    ('heights fit', And(s.h(getattr(s, L)[b]) < 2 * HB, s.h(getattr(s, L)[d]) < 2 * HB, s.h(getattr(s, Rr)[d]) < 2 * HB))]
        return f
    def rot_hint(nm, L, Rr, lo, hi):
        def f(c):
            o = old(c); b = c.arg(nm); d = getattr(o, Rr)[b]; x = getattr(o, L)[d]
            setg(c, lo, d, getattr(o, lo)[b]); setg(c, hi, d, getattr(o, hi)[b])
            setg(c, hi, b, o.rk(d))
            setg(c, 'par', d, o.par[b]); setg(c, 'par', b, d); setg(c, 'par', x, b)
            return []
        return f
    def rot_ens(nm, L, Rr, lo, hi):
        def f(c):
            s, o = now(c), old(c); b = c.arg(nm); d = getattr(o, Rr)[b]; x = getattr(o, L)[d]
            St = z3.Store
            a = getattr(o, L)[b]; e = getattr(o, Rr)[d]
            dang = lambda f: (lambda n: And(n == o.par[b], getattr(o, f)[n] == b))
            return [('returns the heavy child', c.res == d),
                    ('links below', getattr(s, L) == St(getattr(o, L), d, b)), ('links across', getattr(s, Rr) == St(getattr(o, Rr), b, x)),
                    ('other heights are kept', FA('n', lambda n: Imp(And(n != b, n != d), s.ht[n] == o.ht[n]), lambda n: [un(s.ht)[n]])),
                    ('heights of the subtrees below are kept', And(*[s.ht[w] == o.ht[w] for w in (getattr(o, L)[b], x, getattr(o, Rr)[d])])),
                    ('heights of the two nodes are exact', And(s.exact(b), s.exact(d), s.ht[b] >= 1, s.ht[d] >= 1)),
                    ('ghost intervals', And(getattr(s, lo) == St(getattr(o, lo), d, getattr(o, lo)[b]), getattr(s, hi) == St(St(getattr(o, hi), d, getattr(o, hi)[b]), b, o.rk(d)))),
                    ('ghost parents', s.par == St(St(St(o.par, d, o.par[b]), b, d), x, b)),
                    ('the lower node', And(s.linkl(b), s.linkr(b), s.own(b))), ('the upper node', And(s.linkl(d), s.linkr(d), s.own(d)))] + s.struct(dang('left'), dang('right'))
        return f
    rotmods = [lambda e: [(NR, '.' + views.find_field(e, e.U.recq[NQ], f)[0]) for f in ('_left', '_right', '_height')] + [(NR, '.$lo'), (NR, '.$hi'), (NR, '.$par')]]
    # ------------------------------------------------------------------ tree functions
    def tree_req(c):
        s = now(c)
        return s.inv(c.this._root) + [s.small()]
    def itree_req(c):
        s = now(c)
        return s.inv(c.this._root) + [s.small(2 * HB)]
    def pair(c): return R(c.arg('key'), c.arg('data'))
    def data_req(c): return [('pointers are 64 bits', And(c.arg('data') >= 0, c.arg('data') < (1 << 64)))]
    def untouched(c):
        s, o = now(c), old(c)
        return ('nodes outside the tree are untouched', FA('n', lambda n: Imp(And(o.alive[n], Not(o.T[n])), And(s.alive[n], Not(s.T[n]), s.key[n] == o.key[n], s.data[n] == o.data[n], s.left[n] == o.left[n], s.right[n] == o.right[n])),
                                                             lambda n: [un(s.T)[n], un(o.T)[n]]))
    def ins_ens(c):
        s, o = now(c), old(c); Z = pair(c)
        return s.inv(c.this._root) + [
            ('true exactly if the pair was absent', c.res == (o.at[Z] == 0)),
            ('the pair is stored', s.at[Z] != 0),
            ('exactly the other pairs are kept', FA('q', lambda q: Imp(q != Z, (s.at[q] != 0) == (o.at[q] != 0)), lambda q: [un(s.at)[q], un(o.at)[q]])),
            ('live nodes are the old ones and the nodes of the tree', FA('n', lambda n: s.alive[n] == Or(o.alive[n], s.T[n]), lambda n: [un(s.alive)[n]])),
            untouched(c)]
    def rem_ens(c):
        s, o = now(c), old(c); Z = pair(c)
        return s.inv(c.this._root) + [
            ('true exactly if the pair was present', c.res == (o.at[Z] != 0)),
            ('the pair is no longer stored', s.at[Z] == 0),
            ('exactly the other pairs are kept', FA('q', lambda q: Imp(q != Z, (s.at[q] != 0) == (o.at[q] != 0)), lambda q: [un(s.at)[q], un(o.at)[q]])),
            ('freed nodes are exactly those that left the tree', FA('n', lambda n: And(s.alive[n] == And(o.alive[n], Or(s.T[n], Not(o.T[n]))), Imp(s.T[n], o.T[n])), lambda n: [un(s.alive)[n], un(s.T)[n]])),
            untouched(c)]
    # descent
    def path_inv(c, s, bound):
        """path entries are nodes, consecutive ones are parent and child; ancestors lie outside what is below them"""
        P = path(c).arr; n = path(c).len
        out = [('path entries are nodes of the tree', FA('i', lambda i: Imp(And(i >= 0, i < n), And(s.T[P[i]], P[i] != 0)), lambda i: [un(P)[i]])),
               ('path follows the links', FA('i j', lambda i, j: Imp(And(i >= 0, j == i + 1, j < n), Or(s.left[P[i]] == P[j], s.right[P[i]] == P[j])), lambda i, j: [(un(P)[i], un(P)[j])])),
               ('ancestors are outside of the subtrees below', FA('i j', lambda i, j: Imp(And(i >= 0, i < j, j < n), Not(s.inn(P[j], P[i]))), lambda i, j: [(un(P)[i], un(P)[j])]))]
        if bound is not None:
            out.append(('path is above the current node', And(FA('i', lambda i: Imp(And(i >= 0, i < n), Not(s.inn(bound, P[i]))), lambda i: [un(P)[i]]),
                        Imp(n > 0, Or(s.left[P[n - 1]] == bound, s.right[P[n - 1]] == bound)))))
        out.append(('path starts at the root', Imp(n > 0, P[0] == c.this._root)))
        return out
    def first(c, node): return ('an empty path means the root is next', Imp(path(c).len == 0, node == c.this._root))
    def same(c):
        s, o = now(c), old(c)
        return ('the tree is not modified while searching', And(s.T == o.T, s.at == o.at, s.alive == o.alive, c.this._root == c.othis._root))
    def ins0(c):
        s = now(c); n = c['node']
        return [('the current node is in the tree', And(s.T[n], n != 0)), ('the pair belongs below the current node', And(s.lo[n] < pair(c), pair(c) < s.hi[n]))] + path_inv(c, s, n) + [first(c, n)]
    def ins0_exit(c):
        s = now(c); z = s.g('z'); p = c['node']; onl = s.left[p] == z
        setg(c, 'lo', z, z3.If(onl, s.lo[p], s.rk(p))); setg(c, 'hi', z, z3.If(onl, s.rk(p), s.hi[p])); setg(c, 'par', z, p)
        c.ghost_set('g', I(0))
        s = now(c); a, b = s.lo[z], s.hi[z]
        out = lambda v: Or(v <= a, v >= b)
        c.oblige(FA('n', lambda n: Imp(And(s.T[n], n != z), And(out(s.rk(n)), out(s.lo[n]), out(s.hi[n]))), lambda n: [un(s.T)[n], un(s.lo)[n], un(s.hi)[n]]), 'the new node fills an empty gap')
    def side(s, q, Z): return z3.If(Z < s.rk(q), s.left[q], s.right[q])
    def other(s, q, Z): return z3.If(Z < s.rk(q), s.right[q], s.left[q])
    def ins1(c):
        s, o = now(c), old(c); Z = pair(c); z = s.g('z'); g = c.ghost_get('g', IS)
        n = path(c).len; q = plast(c); ch, sib = side(s, q, Z), other(s, q, Z)
        b = z3.If(n > 0, q, I(0))
        return [('the new node holds the pair', And(s.T[z], z != 0, s.rk(z) == Z, Not(o.T[z]), Not(o.alive[z]), s.at[Z] == z, o.at[Z] == 0)),
                ('sets', And(FA('m', lambda m: s.T[m] == Or(o.T[m], m == z), lambda m: [un(s.T)[m]]), FA('q', lambda q: Imp(q != Z, s.at[q] == o.at[q]), lambda q: [un(s.at)[q]]),
                             FA('m', lambda m: s.alive[m] == Or(o.alive[m], m == z), lambda m: [un(s.alive)[m]]),
                             FA('m', lambda m: Imp(And(o.alive[m], Not(o.T[m])), And(s.left[m] == o.left[m], s.right[m] == o.right[m], s.key[m] == o.key[m], s.data[m] == o.data[m])), lambda m: [un(s.left)[m], un(s.right)[m], un(s.key)[m], un(s.data)[m]])))
                ] + s.struct() + [('root', s.root(c.this._root))] + path_inv(c, s, None) + s.heights(but=b) + s.pairs() + [
                ('heights are small', FA('m', lambda m: Imp(s.T[m], And(s.ht[m] <= HB, s.ht[m] >= 1)), lambda m: [un(s.ht)[m]])),
                ('heights of path entries are as before', FA('i', lambda i: Imp(And(i >= 0, i < n), And(s.ht[path(c).arr[i]] < HB, path(c).arr[i] != z)), lambda i: [un(path(c).arr)[i]])),
                ('below the last path entry the height grew by at most one', Imp(n > 0, And(s.lo[q] < Z, Z < s.hi[q], ch != 0,
                    g >= 0, s.ht[ch] >= g, s.ht[ch] <= g + 1, s.h(sib) - g <= 1, g - s.h(sib) <= 1,
                    s.ht[q] == z3.If(g < s.h(sib), s.h(sib), g) + 1))),
                ('a subtree that grew is heavier on the side of the new node', Imp(And(n > 0, s.ht[ch] == g + 1, g >= 1),
                    And(s.rk(ch) != Z, Imp(Z < s.rk(ch), s.h(s.left[ch]) == s.h(s.right[ch]) + 1), Imp(Z > s.rk(ch), s.h(s.right[ch]) == s.h(s.left[ch]) + 1)))),
                ]
    def near(s, q): return [s.left[q], s.right[q], s.right[s.left[q]], s.left[s.right[q]]]
    def reb_begin(c):
        s = now(c); q = plast(c); n = path(c).len
        c.ghost_set('g0', s.ht[q])
        for w, nm in zip(near(s, q), ('left child', 'right child', 'inner left grandchild', 'inner right grandchild')):
            cond = w != 0
            out = s.left[q] != 0 if nm.startswith('inner left') else s.right[q] != 0 if nm.startswith('inner right') else TRUE
            cond = And(cond, out)
            c.oblige(Imp(And(n > 0, cond), And(s.T[w], s.inn(q, w), w != q)), 'the %s is inside the interval of the node' % nm)
            c.oblige(Imp(And(n > 0, out), And(Imp(w != 0, s.ht[w] >= 1), s.ht[w] >= 0, s.ht[w] <= HB)), 'the height of the %s is small' % nm)
            c.oblige(Imp(And(n > 0, cond), And(s.exact(w), s.bal(w), s.linkl(w), s.linkr(w), s.ht[s.left[w]] >= 0, s.ht[s.right[w]] >= 0)), 'the %s is linked and balanced' % nm)
        def ch(f): return FA('m', lambda m: Imp(And(n > 0, s.T[m], Not(s.inn(q, m))), Or(f[m] == 0, f[m] == q, Not(s.inn(q, f[m])))), lambda m: [un(f)[m]])
        c.oblige(ch(s.left), 'no other left link leads into the interval of the node')
        c.oblige(ch(s.right), 'no other right link leads into the interval of the node')
        p = path(c).arr[n - 2]
        c.oblige(Imp(n > 1, And(s.T[p], p != 0, Not(s.inn(q, p)))), 'the path entry before the node is above it')
        c.oblige(Imp(n > 1, Or(s.left[p] == q, s.right[p] == q)), 'the path entry before the node links to it')
        c.oblige(Imp(n > 1, s.par[q] == p), 'the path entry before the node is its parent')
    def reb_end(c):
        c.ghost_set('g', c.ghost_get('g0', IS))
        s, h = now(c), S(c.eng, c.head)
        hp = mkview(c.eng, c.head, c.thisp)._path
        q = hp.arr[hp.len - 1]; p = hp.arr[hp.len - 2]
        c.oblige(FA('m', lambda m: Imp(And(s.T[m], Not(h.inn(q, m))), And(s.lo[m] == h.lo[m], s.hi[m] == h.hi[m], s.ht[m] == h.ht[m])), lambda m: [un(s.lo)[m], un(s.hi)[m], un(s.ht)[m]]), 'nothing moves outside of the interval of the node')
        c.oblige(FA('m', lambda m: Imp(And(s.T[m], Not(h.inn(q, m)), Not(And(hp.len > 1, m == p))), And(s.left[m] == h.left[m], s.right[m] == h.right[m])), lambda m: [un(s.left)[m], un(s.right)[m]]), 'no link outside of the interval of the node changes, but those of its parent')
        N = [q] + near(h, q)
        c.oblige(FA('m', lambda m: Imp(And(s.T[m], h.inn(q, m), *[m != w for w in N]), And(s.left[m] == h.left[m], s.right[m] == h.right[m], s.ht[s.left[m]] == h.ht[s.left[m]], s.ht[s.right[m]] == h.ht[s.right[m]])), lambda m: [un(s.left)[m], un(s.right)[m]]), 'nothing changes below the rotated nodes')
        for w, out in zip(N, (TRUE, TRUE, TRUE, h.left[q] != 0, h.right[q] != 0)): c.oblige(Imp(And(w != 0, out), s.bal(w)), 'the rotated nodes are balanced')
    # removal
    def rem0(c):
        s = now(c); n = c['node']; Z = pair(c)
        P = path(c).arr; k = path(c).len
        out = [('the current node is null or in the tree', Or(n == 0, s.T[n])),
               ('the pair belongs below the current node', Imp(n != 0, And(s.lo[n] < Z, Z < s.hi[n]))),
               ('past a leaf the pair is absent', Imp(n == 0, FA('m', lambda m: Imp(s.T[m], s.rk(m) != Z), lambda m: [un(s.T)[m]])))]
        pi = path_inv(c, s, n)
        return out + pi[:3] + [(pi[3][0], Imp(n != 0, pi[3][1])), pi[4], first(c, n)]
    def rem1(c):
        s = now(c); n = c['successor']; x = c['node']
        Z = pair(c)
        return [('the successor candidate is in the tree', And(s.T[n], n != 0, s.lo[n] == Z, Z < s.rk(n))),
                ('the node holds the pair', And(s.T[x], s.rk(x) == Z, n != x)), ('path is not empty', path(c).len > 0)] + path_inv(c, s, n)
    def rem_init(c):
        s, o = now(c), old(c); Z = pair(c); y = s.g('y')
        rs = o.rk(y); e = c.eng
        lo2, hi2 = e.fresh('lo', AI), e.fresh('hi', AI)
        single = rs == Z
        e.assume(c.st, FA('n', lambda n: lo2[n] == z3.If(o.lo[n] == Z, z3.If(single, o.lo[y], rs), o.lo[n]), lambda n: [lo2[n]]), 'def')
        e.assume(c.st, FA('n', lambda n: hi2[n] == z3.If(o.hi[n] == Z, z3.If(single, o.hi[y], rs), o.hi[n]), lambda n: [hi2[n]]), 'def')
        setga(c, 'lo', lo2); setga(c, 'hi', hi2)
        ch = z3.If(o.left[y] != 0, o.left[y], o.right[y])
        setg(c, 'par', ch, o.par[y])
        at2 = z3.Store(z3.Store(o.at, rs, z3.If(single, I(0), o.at[Z])), Z, I(0))
        c.ghost_set('at', at2)
        c.ghost_set('g', o.ht[y])
    def rem2(c):
        s, o = now(c), old(c); Z = pair(c); y = s.g('y'); rs = o.rk(y); g = c.ghost_get('g', IS)
        n = path(c).len; q = plast(c); lft = rs < s.rk(q)
        ch, sib = z3.If(lft, s.left[q], s.right[q]), z3.If(lft, s.right[q], s.left[q])
        b = z3.If(n > 0, q, I(0))
        return [('sets', And(o.T[y], o.at[Z] != 0, FA('m', lambda m: s.T[m] == And(o.T[m], m != y), lambda m: [un(s.T)[m]]),
                             FA('q', lambda q: Imp(q != Z, (s.at[q] != 0) == (o.at[q] != 0)), lambda q: [un(s.at)[q]]), s.at[Z] == 0,
                             FA('m', lambda m: s.alive[m] == And(o.alive[m], m != y), lambda m: [un(s.alive)[m]]),
                             FA('m', lambda m: Imp(And(o.alive[m], Not(o.T[m])), And(s.left[m] == o.left[m], s.right[m] == o.right[m], s.key[m] == o.key[m], s.data[m] == o.data[m])), lambda m: [un(s.left)[m], un(s.right)[m], un(s.key)[m], un(s.data)[m]])))
                ] + s.struct() + [('root', s.root(c.this._root))] + path_inv(c, s, None) + s.heights(but=b) + s.pairs() + [
                ('heights are small', FA('m', lambda m: Imp(s.T[m], And(s.ht[m] < HB, s.ht[m] >= 1)), lambda m: [un(s.ht)[m]])),
                ('below the last path entry the height shrank by at most one', Imp(n > 0, And(s.lo[q] <= rs, rs < s.hi[q],
                    g >= 1, s.h(ch) >= g - 1, s.h(ch) <= g, s.h(sib) - g <= 1, g - s.h(sib) <= 1,
                    s.ht[q] == z3.If(g < s.h(sib), s.h(sib), g) + 1)))]
    # best fit
    def fit_ens(c):
        s = old(c); k = c.arg('key')
        none = FA('m', lambda m: Imp(s.T[m], s.key[m] < k), lambda m: [s.T[m]])
        best = EX('b', lambda b: And(s.T[b], s.key[b] >= k, c.res == s.data[b], FA('m', lambda m: Imp(And(s.T[m], s.key[m] >= k), s.key[b] <= s.key[m]), lambda m: [s.T[m]])), lambda b: [s.T[b]])
        return [('null if no stored key is large enough, else the data of the smallest sufficient key', Or(And(none, c.res == 0), best))]
    def fit0(c):
        s = now(c); k = c.arg('key'); n, b = c['node'], c['best_candidate']
        return [('the current node is null or in the tree', Or(n == 0, s.T[n])),
                ('the candidate is null or a sufficient node', Or(b == 0, And(s.T[b], s.key[b] >= k))),
                ('the candidate bounds the rest', Imp(And(n != 0, b != 0), s.hi[n] == s.rk(b))),
                ('sufficient keys are below the current node or no better than the candidate', FA('m', lambda m: Imp(And(s.T[m], s.key[m] >= k), Or(And(n != 0, s.inn(n, m)), And(b != 0, s.key[b] <= s.key[m]))), lambda m: [s.T[m]]))]
    def tdtor_ens(c):
        s, o = now(c), old(c)
        return [('frees exactly the nodes of the tree', FA('n', lambda n: s.alive[n] == And(o.alive[n], Not(o.T[n])), lambda n: [un(s.alive)[n]]))]
    def nd(f): return lambda c: now(c).h(c[f])

    Lq = lambda k: {'a': 1}
    return [
        Contract(NQ + '::height', height_req, height_ens, dec=height_dec, names=['node'], modifies=[], recursive=True),
        Contract(NQ + '::is_balanced', isb_req, isb_ens, dec=node_dec, modifies=[], recursive=True),
        Contract(NQ + '::is_bst', node_req, isbst_ens, dec=node_dec, modifies=[], recursive=True),
        Contract(NQ + '::~AVLNode', dtor_req, dtor_ens, dec=node_dec, modifies=[(NR, '.$alive'), ('$g', '.T'), ('$g', '.y')], recursive=True),
        Contract(TQ + 'rotate_left', rot_req('b', 'left', 'right'), rot_ens('b', 'left', 'right', 'lo', 'hi'), hints=rot_hint('b', 'left', 'right', 'lo', 'hi'), names=['b'], modifies=rotmods),
        Contract(TQ + 'rotate_right', rot_req('d', 'right', 'left'), rot_ens('d', 'right', 'left', 'hi', 'lo'), hints=rot_hint('d', 'right', 'left', 'hi', 'lo'), names=['d'], modifies=rotmods),
        Contract(TQ + 'is_balanced', itree_req, lambda c: [('true for a balanced tree', c.res)], modifies=[]),
        Contract(TQ + 'is_bst', itree_req, lambda c: [('true for an ordered tree', c.res)], modifies=[]),
        Contract(TQ + 'insert', lambda c: tree_req(c) + data_req(c), ins_ens,
                 {0: LoopSpec(ins0, dec=nd('node'), exit=ins0_exit), 1: LoopSpec(ins1, dec=lambda c: path(c).len, begin=reb_begin, end=reb_end, join=True)}, names=['key', 'data']),
        Contract(TQ + 'remove', lambda c: tree_req(c) + data_req(c), rem_ens,
                 {0: LoopSpec(rem0, dec=nd('node')), 1: LoopSpec(rem1, dec=nd('successor')),
                  2: LoopSpec(rem2, dec=lambda c: path(c).len, begin=reb_begin, end=reb_end, init=rem_init, join=True)}, names=['key', 'data']),
        Contract(TQ + 'find_best_fit', tree_req, fit_ens, {0: LoopSpec(fit0, dec=nd('node'))}, names=['key'], modifies=[]),
        Contract(TQ + '~AVLTree', tree_req, tdtor_ens),
    ]

def build(prop):
    U = extract.load(['src/utils/partition.cpp'])
    V = Verifier(U, {'axioms': axioms(), 'heap_classes': [NQ], 'ghost_fields': {NQ: {'lo': IS, 'hi': IS, 'par': IS}},
                     'ghost_sorts': {'T': AB, 'at': AI, 'y': IS, 'z': IS, 'g': IS, 'g0': IS},
                     'new_hooks': {NQ: new_hook}, 'del_hooks': {NQ: del_hook}})
    L = contracts(prop)
    for c in L: V.add(c)
    V.assumptions = ['no tree is 2^30 or more levels high (an AVL tree of that height cannot be stored)', 'a tree is not copied (the class has no copy constructor of its own)']
    return V, L

def lemmas(V, prop):
    V.default_object('utils::AVLTree', lambda t: [('a new tree is empty', t._root == 0)])
