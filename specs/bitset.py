"""src/utils/bitset.{hpp,cpp}: the compressed bitset (B01 - B05).

A bitset is an array W of 64-bit words: metadata words 0..ML(W), all but the last with the top bit set, then one
nonzero data word per metadata bit.  F(W, p, o) is the data word of field (p, o), 0 if it is not stored; the set
of bits is { 64*(63*p + o) + d : BT(F(W, p, o), d) }.
"""
import sys
from ccv.verify import *
from ccv import words as w
from ccv.words import AI, BT, TOP, RK, CUM, CTZ, SETB, CLRB, D, AND, OR, XOR, NOT, MLO, SHR, P2, EQW, SUB, DIF, LP, LO
from ccv import views

CAP = 1 << 31           # words of a bitset
BPM = 4032              # bits per metadata word
ISM = z3.Function('ism', AI, IS, BS)     # k is the last metadata word of W
ML = z3.Function('ml', AI, IS)
MK = z3.Function('mk', AI, IS, IS)
G = z3.Function('field', AI, IS, IS, IS, IS)      # words, last metadata word, position
BIT = z3.Function('BIT', AI, IS, BS)
CNT = z3.Function('count', AI, IS, IS)           # number of set bits below i
SUBSET = z3.Function('SUBSET', AI, AI, BS)      # every set bit of A is set in B
SAME = z3.Function('SAME', AI, AI, BS)
INTER = z3.Function('INTER', AI, AI, BS)        # some bit is set in both
SUBW, SAMEW, INTERW = [z3.Function(x, AI, AI, IS) for x in ('SUBW', 'SAMEW', 'INTERW')]
SLOT = z3.Function('slot', AI, IS, IS, IS, IS)   # where the word of a field is stored while fields are removed lazily
GS = z3.Function('slotfield', AI, AI, IS, IS, IS, IS)
DS = z3.Function('datasum', AI, IS, IS, IS)      # population counts of the words from i to j

def NX(W, k): return BT(W[k], 63)
def OFFM(W, M, p, o): return M + 1 + CUM(W, p) + RK(W[p], o)
def OFF(W, p, o): return OFFM(W, ML(W), p, o)
def F(W, p, o): return G(W, ML(W), p, o)
def agx(W, V, i): return FA('x', lambda x: w.ag(W, V, I(i) if isinstance(i, int) else i, x), lambda x: [CUM(V, x)])
BIX = z3.Function('bix', IS, IS, IS, IS)          # the bit at a position

def incap(W, i): return And(i >= 0, i < BPM * (ML(W) + 1))
def bix_def(p, o, d):
    x = BIX(p, o, d)
    return Imp(And(p >= 0, o >= 0, o < 63, d >= 0, d < 64), And(x == BPM * p + 64 * o + d, x / BPM == p, (x / 64) % 63 == o, x % 64 == d))

def axioms():
    W, V, k, j, p, o, i, m = z3.Const('W', AI), z3.Const('V', AI), *z3.Ints('k j p o i m')
    fa = lambda vs, b, pats: z3.ForAll(vs, b, patterns=[z3.MultiPattern(*x) if isinstance(x, tuple) else x for x in pats], qid='b_%d' % sys._getframe(1).f_lineno)
    return w.axioms() + [
        fa([W, k], Imp(ISM(W, k), And(k >= 0, Not(NX(W, k)), ML(W) == k)), [ISM(W, k)]),
        fa([W, k, j], Imp(And(ISM(W, k), j >= 0, j < k), NX(W, j)), [(ISM(W, k), W[j])]),
        fa([W, k], Imp(And(k >= 0, Not(NX(W, k))), Or(ISM(W, k), And(MK(W, k) >= 0, MK(W, k) < k, Not(NX(W, MK(W, k)))))), [ISM(W, k)]),
        fa([W, m, p, o], And(Imp(BT(W[p], o), G(W, m, p, o) == W[OFFM(W, m, p, o)]), Imp(Not(BT(W[p], o)), G(W, m, p, o) == 0)), [G(W, m, p, o)]),
        fa([p, o, i], bix_def(p, o, i), [BIX(p, o, i)]),
        fa([W, m, p, o], SLOT(W, m, p, o) == OFFM(W, m, p, o), [SLOT(W, m, p, o)]),
        fa([W, V, m, p, o], GS(W, V, m, p, o) == z3.If(BT(W[p], o), V[SLOT(W, m, p, o)], 0), [GS(W, V, m, p, o)]),
        # definitions of the set relations (up to the capacity of A), with Skolem functions
        fa([W, V, i], Imp(And(SUBSET(W, V), BIT(W, i), incap(W, i)), BIT(V, i)), [(SUBSET(W, V), BIT(W, i))]),
        fa([W, V], Imp(Not(SUBSET(W, V)), And(incap(W, SUBW(W, V)), BIT(W, SUBW(W, V)), Not(BIT(V, SUBW(W, V))))), [SUBSET(W, V)]),
        fa([W, V, i], Imp(And(SAME(W, V), incap(W, i)), BIT(W, i) == BIT(V, i)), [(SAME(W, V), BIT(W, i)), (SAME(W, V), BIT(V, i))]),
        fa([W, V], Imp(Not(SAME(W, V)), And(incap(W, SAMEW(W, V)), BIT(W, SAMEW(W, V)) != BIT(V, SAMEW(W, V)))), [SAME(W, V)]),
        fa([W, V, i], Imp(And(Not(INTER(W, V)), incap(W, i), BIT(W, i)), Not(BIT(V, i))), [(INTER(W, V), BIT(W, i)), (INTER(W, V), BIT(V, i))]),
        fa([W, V], Imp(INTER(W, V), And(incap(W, INTERW(W, V)), BIT(W, INTERW(W, V)), BIT(V, INTERW(W, V)))), [INTER(W, V)]),
        fa([W], CNT(W, 0) == 0, [CNT(W, 0)]),
        fa([W, i], DS(W, i, i) == 0, [DS(W, i, i)]),
        fa([W, i, j], Imp(i <= j, DS(W, i, j + 1) == DS(W, i, j) + RK(W[j], 64)), [(DS(W, i, j), W[j])]),
        fa([W, i], BIT(W, i) == BT(F(W, i / BPM, (i / 64) % 63), i % 64), [BIT(W, i)]),
    ]

_names = {}
def named(eng, st, a):
    """a constant for an array term (patterns must not contain updates)"""
    if not (z3.is_app(a) and a.num_args() and a.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE, z3.Z3_OP_CONST_ARRAY)): return a
    r = _names.get(a.get_id())
    if r is None or not r[0].eq(a):
        r = (a, eng.fresh('W', a.sort())); _names[a.get_id()] = r
    eng.assume(st, r[1] == a, 'def')
    return r[1]

def word(c, v):
    """a constant for a word term (patterns must not contain case distinctions)"""
    if z3.is_const(v): return v
    r = _names.get(v.get_id())
    if r is None or not r[0].eq(v):
        r = (v, c.eng.fresh('w', IS)); _names[v.get_id()] = r
    c.eng.assume(c.st, r[1] == v, 'def')
    return r[1]

class Bs:
    """a word array in one program state"""
    def __init__(s, eng, st, vec):
        s.W = named(eng, st, vec.arr); s.n = vec.len
def this(c): return Bs(c.eng, c.st, c.this._bits)
def othis(c): return Bs(c.eng, c.old, c.othis._bits)
def arg(c, name): return Bs(c.eng, c.st, c.arg(name)._bits)

def WF(b):
    W, n = b.W, b.n
    return [('the metadata words are chained', ISM(W, ML(W))),
            ('one data word per metadata bit', And(ML(W) >= 0, ML(W) + 1 + CUM(W, ML(W) + 1) == n, ML(W) + 1 <= n, n < CAP)),
            ('data words are not zero', FA('j', lambda j: Imp(And(j > ML(W), j < n), W[j] != 0), lambda j: [W[j]]))]
def fields(W, what, pats=None, M=None):
    """what(p, o) for every field"""
    return FA('p o', lambda p, o: Imp(And(p >= 0, p <= (ML(W) if M is None else M), o >= 0, o < 63), what(p, o)), pats or (lambda p, o: [F(W, p, o)]))

def ptr(c, name):
    """(array, offset, length) behind a pointer parameter"""
    v = c.arg(name); eng = c.eng
    if isinstance(v, PV):
        st = c.st
        return eng.get_leaf(st, v.cont.root, v.cont.sfx + '[]', v.cont.ty.e, v.cont.idx), v.off, eng.cont_len(st, v.cont)
    return eng.get_leaf(c.st, '@[]u64', '', BASIC['size_t'], (v.ref,)), v.off, eng.cont_len(c.st, eng.heap_array(v.ety, v.ref))

def contracts(prop):
    L = []
    def add(*a, **k): L.append(Contract(*a, **k))
    lo = lambda c: I((1 << num(c.arg('n'))) - 1) if isnum(c.arg('n')) else MLO(c.arg('n'))
    # ------------------------------------------------------------------ masks, verified on 64-bit vectors
    def mlo_ens(c):
        if not c.eng.bv: return []
        n, r = c.arg('n'), c.res
        return [('the lower n bits', And(*[(z3.Extract(i, i, r) == 1) == z3.UGT(n, i) for i in range(64)]))]
    def mlo_req(c): return [('n is at most 64', z3.ULE(c.arg('n'), 64) if c.eng.bv else And(c.arg('n') >= 0, c.arg('n') <= 64))]
    add('msk_lo', mlo_req, mlo_ens, bv=True, names=['n'], result=lambda c: lo(c), modifies=[])
    # ------------------------------------------------------------------ offsets
    def go(c):
        A, off, n = ptr(c, 'md')
        return Bs2(A, n), off
    class Bs2:
        def __init__(s, W, n): s.W, s.n = W, n
    def go_req(c):
        b, off = go(c); i = c.arg('index')
        v = c.arg('md')
        al = [] if isinstance(v, PV) else [('the words are alive', And(v.ref != 0, c.eng.heap_leaf(c.st, '@[]u64', 'alive')[v.ref]))]
        return al + WF(b) + [('points to the words', off == 0), ('the bit is below the capacity', And(i >= 0, i < BPM * (ML(b.W) + 1)))]
    def go_ens(c):
        b, off = go(c); i = c.arg('index')
        return [('the offset of the data word', c.res == OFF(b.W, i / BPM, (i / 64) % 63)), ('within the words', And(c.res > ML(b.W), c.res <= b.n)),
                ('before the end if the field is stored', Imp(BT(b.W[i / BPM], (i / 64) % 63), c.res < b.n))]
    def go_l0(c):
        b, off = go(c); p = c['p']; k = p.off; i0 = c.arg('index'); i = c['index']
        return [('words counted so far', And(k >= 0, k <= i0 / BPM, i == i0 - BPM * k, i >= 0, c['cnt'] == CUM(b.W, k)))]
    def go_l1(c):
        b, off = go(c); p = c['p']; k = p.off; i0 = c.arg('index'); 
        return [('within the metadata', And(k >= i0 / BPM, k <= ML(b.W))), ('the count is kept', c['cnt'] == CUM(b.W, i0 / BPM) + RK(b.W[i0 / BPM], (i0 / 64) % 63))]
    def go_hint(c):
        b, off = go(c); i = c.arg('index'); p = i / BPM
        return [('sums up to the field', And(CUM(b.W, p) + RK(b.W[p], (i / 64) % 63) + w.one(BT(b.W[p], (i / 64) % 63)) <= CUM(b.W, p + 1), CUM(b.W, p + 1) <= CUM(b.W, ML(b.W) + 1)))]
    def go_x0(c):
        i0, i = c.arg('index'), c['index']; k = c['p'].off; a = c.eng.fresh('a', IS)
        c.eng.assume(c.st, a == i / 64, 'def')
        c.oblige(i0 / 64 == a + 63 * k, 'words before the bit'); c.oblige((i0 / 64) % 63 == a % 63, 'position inside the metadata word')
        c.oblige(And(a >= 0, a < 63, k == i0 / BPM, (i0 / 64) % 63 == a), 'metadata word of the bit')
    add('get_offset', go_req, go_ens, {0: LoopSpec(go_l0, dec=lambda c: c['index'], exit=go_x0), 1: LoopSpec(go_l1, dec=lambda c: ML(go(c)[0].W) - c['p'].off)}, names=['md', 'index'], modifies=[], hints=go_hint)
    # ------------------------------------------------------------------ capacity, get, set
    def me_req(c): return WF(this(c))
    def idx_req(c): return me_req(c) + [('the bit is below the capacity', And(c.arg('index') >= 0, c.arg('index') < BPM * (ML(this(c).W) + 1)))]
    def cap_ens(c): return [('capacity of the metadata words', c.res == BPM * (ML(othis(c).W) + 1))]
    def cap_l(c):
        b = this(c); k = c['it'].off
        return [('within the metadata', And(k >= 0, k <= ML(b.W)))]
    add('bitset::capacity', me_req, cap_ens, {0: LoopSpec(cap_l, dec=lambda c: ML(this(c).W) - c['it'].off)}, modifies=[])
    add('bitset::get', idx_req, lambda c: [('reads the bit', c.res == BIT(othis(c).W, c.arg('index')))], names=['index'], modifies=[])
    def set_hint(c):
        b, o = this(c), othis(c)
        i, v = c.arg('index'), c.arg('value'); p, q, d = i / BPM, (i / 64) % 63, i % 64
        dl = w.one(BT(b.W[p], q)) - w.one(BT(o.W[p], q))
        return [('the number of metadata words is kept', ISM(b.W, ML(o.W))), ('the metadata chain is kept', ISM(b.W, ML(b.W))),
                ('sums start at 0', And(CUM(b.W, 0) == 0, CUM(o.W, 0) == 0)),
                ('sums before the field', CUM(b.W, p) == CUM(o.W, p), [w.ag(o.W, b.W, 0, p)]),
                ('sums after the field', CUM(b.W, p + 1) == CUM(o.W, p + 1) + dl),
                ('all sums', FA('x', lambda x: Imp(And(x >= 0, x <= ML(o.W) + 1), CUM(b.W, x) == CUM(o.W, x) + z3.If(x > p, dl, 0)), lambda x: [CUM(b.W, x)]), [agx(o.W, b.W, 0), agx(o.W, b.W, p + 1)]),
                ('size', b.n == o.n + dl)]
    def set_fields(c):
        b, o = this(c), othis(c)
        i, v = c.arg('index'), c.arg('value'); p, q, d = i / BPM, (i / 64) % 63, i % 64
        before = lambda p2, o2: Or(p2 < p, And(p2 == p, o2 < q))
        x = OFF(o.W, p, q)
        return [('order of the data words', fields(o.W, lambda p2, o2: Imp(And(BT(o.W[p2], o2), Or(p2 != p, o2 != q)),
                    And(Imp(before(p2, o2), OFF(o.W, p2, o2) < x), Imp(Not(before(p2, o2)), OFF(o.W, p2, o2) >= x + w.one(BT(o.W[p], q))))))),
                ('the field is updated', F(b.W, p, q) == z3.If(v, SETB(F(o.W, p, q), d), CLRB(F(o.W, p, q), d))),
                ('other fields are kept', fields(b.W, lambda p2, o2: Or(And(p2 == p, o2 == q), F(b.W, p2, o2) == F(o.W, p2, o2))))]
    def set_ens(c):
        b, o = this(c), othis(c); i, v = c.arg('index'), c.arg('value')
        return [('capacity is kept', ML(b.W) == ML(o.W)),
                ('exactly this bit is written', FA('i', lambda j: Imp(And(j >= 0, j < BPM * (ML(o.W) + 1)), BIT(b.W, j) == z3.If(j == i, v, BIT(o.W, j))), lambda j: [BIT(b.W, j)]))] + WF(b)
    add('bitset::set', lambda c: idx_req(c) + [('room for a word', this(c).n < CAP - 1)], set_ens, names=['index', 'value'], hints=lambda c: set_hint(c) + set_fields(c))
    # ------------------------------------------------------------------ clear
    def clr_l(c):
        b, o = this(c), othis(c); k = c['it'].off
        return [('within the metadata', And(k >= 0, k <= ML(o.W), c.this._bits.len == o.n)),
                ('cleared so far', FA('j', lambda j: Imp(And(j >= 0, j < k), b.W[j] == TOP), lambda j: [b.W[j]])),
                ('the chain so far', FA('j', lambda j: Imp(And(j >= 0, j < k), NX(o.W, j)), lambda j: [o.W[j]])),
                ('the rest', FA('j', lambda j: Imp(j >= k, b.W[j] == o.W[j]), lambda j: [b.W[j]]))]
    def empty_words(b, M):
        """the words of an empty bitset with M + 1 metadata words"""
        W = b.W
        return [('the metadata chain', ISM(W, M)), ('the number of metadata words', ISM(W, ML(W))),
                ('sums start at 0', CUM(W, 0) == 0), ('no data words', And(CUM(W, M + 1) == 0, b.n == M + 1), [w.zs(W, 0, M + 1)]),
                ('all fields are empty', fields(W, lambda p, o: F(W, p, o) == 0))]
    def none_set(b): return FA('i', lambda i: Imp(And(i >= 0, i < BPM * (ML(b.W) + 1)), Not(BIT(b.W, i))), lambda i: [BIT(b.W, i)])
    def clr_ens(c):
        b, o = this(c), othis(c)
        return [('no bit is set', none_set(b)), ('capacity is kept', ML(b.W) == ML(o.W))] + WF(b)
    add('bitset::clear', me_req, clr_ens, {0: LoopSpec(clr_l, dec=lambda c: ML(othis(c).W) - c['it'].off)}, hints=lambda c: empty_words(this(c), ML(othis(c).W)))
    # ------------------------------------------------------------------ construction and growth
    def M_of(size): return z3.If(size == 0, 0, (size - 1) / BPM)
    add('bitset::bitset', None, lambda c: [('no bit is set', none_set(this(c))), ('smallest capacity', ML(this(c).W) == 0)] + WF(this(c)), ftype='void ()', hints=lambda c: empty_words(this(c), I(0)))
    add('bitset::bitset', lambda c: [('size is below 2^42', And(c.arg('size') >= 0, c.arg('size') < (1 << 42)))],
        lambda c: [('no bit is set', none_set(this(c))), ('the capacity reaches the size', BPM * (ML(this(c).W) + 1) >= c.arg('size')), ('capacity of the size', ML(this(c).W) == M_of(c.arg('size')))] + WF(this(c)),
        ftype='(size_t)', names=['size'], hints=lambda c: empty_words(this(c), M_of(c.arg('size'))))
    def rs_l(c):
        k = c['it'].off; o = othis(c)
        return [('within the metadata', And(k >= 0, k <= ML(o.W)))]
    def rs_M(c):
        o = othis(c); return z3.If(c.arg('size') > BPM * (ML(o.W) + 1), M_of(c.arg('size')), ML(o.W))
    def rs_hint(c):
        b, o = this(c), othis(c); M = rs_M(c)
        return [('the metadata chain', And(ISM(b.W, M), ISM(b.W, ML(b.W)))), ('sums start at 0', And(CUM(b.W, 0) == 0, CUM(o.W, 0) == 0)),
                ('sums of the old metadata', FA('x', lambda x: Imp(And(x >= 0, x <= ML(o.W) + 1), CUM(b.W, x) == CUM(o.W, x)), lambda x: [CUM(b.W, x)]), [agx(o.W, b.W, 0)]),
                ('sums up to the old end', CUM(b.W, ML(o.W) + 1) == CUM(o.W, ML(o.W) + 1)),
                ('sums are kept', CUM(b.W, M + 1) == CUM(o.W, ML(o.W) + 1), [w.zs(b.W, ML(o.W) + 1, M + 1)])]
    def rs_ens(c):
        b, o = this(c), othis(c)
        return [('the capacity reaches the size', BPM * (ML(b.W) + 1) >= c.arg('size')), ('the capacity does not shrink', ML(b.W) >= ML(o.W)),
                ('bits are kept', FA('i', lambda i: Imp(And(i >= 0, i < BPM * (ML(b.W) + 1)), BIT(b.W, i) == And(i < BPM * (ML(o.W) + 1), BIT(o.W, i))), lambda i: [BIT(b.W, i)]))] + WF(b)
    def rs_fields(c):
        b, o = this(c), othis(c)
        return [('fields are kept', fields(b.W, lambda p, q: F(b.W, p, q) == z3.If(p <= ML(o.W), F(o.W, p, q), 0)))]
    add('bitset::resize', lambda c: me_req(c) + [('the new size is below 2^42', And(c.arg('size') >= 0, c.arg('size') < (1 << 42))), ('room for the words', this(c).n + c.arg('size') / BPM + 1 < CAP)],
        rs_ens, {0: LoopSpec(rs_l, dec=lambda c: ML(othis(c).W) - c['it'].off)}, names=['size'], hints=lambda c: rs_hint(c) + rs_fields(c))
    # ------------------------------------------------------------------ empty, count
    def em_l(c):
        b = this(c); k = c['it'].off
        return [('within the metadata', And(k >= 0, k <= ML(b.W))), ('no data so far', FA('j', lambda j: Imp(And(j >= 0, j < k), D(b.W[j]) == 0), lambda j: [b.W[j]]))]
    def em_hint(c):
        b = this(c); W = b.W
        if z3.is_true(c.res): return [('all fields are empty', fields(W, lambda p, o: F(W, p, o) == 0))]
        k = c['it'].off; q = CTZ(D(W[k])); d = CTZ(F(W, k, q))
        return [('a stored field', And(BT(W[k], q), F(W, k, q) != 0)), ('one of its bits', And(BT(F(W, k, q), d), BIT(W, BIX(k, q, d))))]
    add('bitset::empty', me_req, lambda c: [('empty exactly if no bit is set', c.res == none_set(othis(c)))], {0: LoopSpec(em_l, dec=lambda c: ML(othis(c).W) - c['it'].off)}, hints=em_hint, modifies=[])
    def co_l0(c):
        b = this(c); k = c['it'].off
        return [('within the metadata', And(k >= 0, k <= ML(b.W), c['cnt'] == 0))]
    def co_l1(c):
        b = this(c); k = c['it'].off
        return [('within the words', And(k > ML(b.W), k <= b.n)), ('counted so far', And(c['cnt'] == DS(b.W, ML(b.W) + 1, k), c['cnt'] >= 0, c['cnt'] <= 64 * (k - ML(b.W) - 1)))]
    def co_hint(c):
        b = this(c); W = b.W; M = ML(W); eng = c.eng
        # induction over the bits of a field, then over the fields of a metadata word, then over the metadata words
        cp = lambda p, o, t: CNT(W, BPM * p + 64 * o + t) == DS(W, M + 1, OFF(W, p, o)) + RK(F(W, p, o), t)
        p, o, t = [eng.fresh(x, IS) for x in 'pot']; i = eng.fresh('i', IS)
        inr = And(p >= 0, p <= M, o >= 0, o < 63)
        step = Imp(i >= 0, CNT(W, i + 1) == CNT(W, i) + w.one(BIT(W, i)))      # the definition of CNT
        f = eng.fresh('f', IS); eng.assume(c.st, f == F(W, p, o), 'def')
        L = [('count: bit step', Imp(And(inr, t >= 0, t < 64, i == BPM * p + 64 * o + t, i == BIX(p, o, t), step, CNT(W, i) == DS(W, M + 1, OFF(W, p, o)) + RK(f, t)),
                                     CNT(W, i + 1) == DS(W, M + 1, OFF(W, p, o)) + RK(f, t + 1))),
             ('count: field step', Imp(inr, DS(W, M + 1, OFF(W, p, o)) + RK(f, 64) == DS(W, M + 1, M + 1 + CUM(W, p) + RK(W[p], o + 1)))),
             ('count: word step', Imp(And(p >= 0, p <= M), And(OFF(W, p + 1, I(0)) == M + 1 + CUM(W, p) + RK(W[p], 63)))),
             ('count: start', And(OFF(W, I(0), I(0)) == M + 1, CNT(W, 0) == DS(W, M + 1, M + 1)))]
        for nm, g in L: eng.oblige(c.st, g, 'lemma: ' + nm, 'lemma')
        eng.assume(c.st, CNT(W, BPM * (M + 1)) == DS(W, M + 1, M + 1 + CUM(W, M + 1)))
        eng.notes.add('the number of set bits equals the sum of the population counts: by induction over bits, fields and metadata words; base and steps are obligations, the induction principle itself is applied by hand')
        return []
    add('bitset::count', me_req, lambda c: [('the number of set bits', c.res == CNT(othis(c).W, BPM * (ML(othis(c).W) + 1)))],
        {0: LoopSpec(co_l0, dec=lambda c: ML(othis(c).W) - c['it'].off), 1: LoopSpec(co_l1, dec=lambda c: othis(c).n - c['it'].off)}, hints=co_hint, modifies=[])
    # ------------------------------------------------------------------ relations of two bitsets
    def two(a, b, what, pats=True):
        """what(p, o) for every field of both"""
        return FA('p o', lambda p, o: Imp(And(p >= 0, p <= ML(a.W), o >= 0, o < 63), what(p, o)), lambda p, o: [F(a.W, p, o), G(b.W, ML(a.W), p, o)])
    def FB(a, b, p, o): return G(b.W, ML(a.W), p, o)
    def bit_lemma(c, a, b):
        """the bit relations, field by field and word by word"""
        eng, st = c.eng, c.st; A, B = a.W, b.W; M = ML(A)
        def ob(f, nm): eng.oblige(st, f, 'relation: ' + nm, 'lemma')
        ob(ML(B) == M, 'same number of metadata words')
        def at(p, o, d): return BIT(A, BIX(p, o, d))
        ob(two(a, b, lambda p, o: Imp(SUBSET(A, B), Or(SUB(F(A, p, o), FB(a, b, p, o)), (lambda x: And(Not(BIT(B, x)), BIT(A, x)))(BIX(p, o, CTZ(AND(F(A, p, o), NOT(FB(a, b, p, o))))))))), 'subsets have subsets in every field (or a counterexample)')
        ob(two(a, b, lambda p, o: Imp(SUBSET(A, B), SUB(F(A, p, o), FB(a, b, p, o)))), 'subsets have subsets in every field')
        ob(two(a, b, lambda p, o: Imp(SAME(A, B), Or(F(A, p, o) == FB(a, b, p, o), (lambda d: And(d >= 0, d < 64, incap(A, BIX(p, o, d)), BIT(A, BIX(p, o, d)) != BIT(B, BIX(p, o, d))))(w.DX(F(A, p, o), FB(a, b, p, o))), EQW(F(A, p, o), FB(a, b, p, o))))), 'equal sets have equal fields (or a counterexample)')
        ob(two(a, b, lambda p, o: Imp(SAME(A, B), F(A, p, o) == FB(a, b, p, o))), 'equal sets have equal fields')
        words = lambda what: FA('p', lambda p: Imp(And(p >= 0, p <= M), what(p)), lambda p: [A[p], B[p]])
        ob(words(lambda p: Imp(SUBSET(A, B), Or(SUB(A[p], B[p]), (lambda o: And(F(A, p, o) != 0, FB(a, b, p, o) == 0, BT(F(A, p, o), CTZ(F(A, p, o)))))(CTZ(AND(A[p], NOT(B[p]))))))), 'subsets have subsets in the metadata (or a counterexample)')
        ob(words(lambda p: Imp(SUBSET(A, B), SUB(A[p], B[p]))), 'subsets have subsets in the metadata')
        ob(words(lambda p: Imp(SAME(A, B), Or(EQW(A[p], B[p]), (lambda o: And((F(A, p, o) == 0) != (FB(a, b, p, o) == 0), o >= 0, o < 63))(w.DX(A[p], B[p]))))), 'equal sets have equal metadata (or a counterexample)')
        ob(words(lambda p: Imp(SAME(A, B), A[p] == B[p])), 'equal sets have equal metadata')
    def sc_ab(c): return Bs(c.eng, c.st, c.arg('a')), Bs(c.eng, c.st, c.arg('b'))
    def pre2(a, b): return [('left: ' + n, g) for n, g in WF(a)] + [('right: ' + n, g) for n, g in WF(b)] + [('equal capacities', ML(a.W) == ML(b.W))]
    def sc_entry(c): bit_lemma(c, *sc_ab(c))
    def sc_ens(c):
        a, b = sc_ab(c)
        return [('decides the (proper) subset relation', c.res == And(SUBSET(a.W, b.W), Imp(c.arg('proper'), Not(SAME(a.W, b.W)))))]
    def sc_l0(c):
        a, b = sc_ab(c); A, B = a.W, b.W; k = c['it1'].off; eq = c['equal']
        return [('within the metadata', And(k >= 0, k <= ML(A), c['it2'].off == k)), ('subsets so far', FA('p', lambda p: Imp(And(p >= 0, p < k), SUB(A[p], B[p])), lambda p: [A[p], B[p]])),
                ('equal so far', Imp(eq, And(c.arg('proper'), FA('p', lambda p: Imp(And(p >= 0, p < k), A[p] == B[p]), lambda p: [A[p], B[p]])))),
                ('not equal if a difference was seen', Imp(And(c.arg('proper'), Not(eq)), Not(SAME(A, B))))]
    def sc_done(c, k, t):
        a, b = sc_ab(c); A, B = a.W, b.W
        done = lambda p, o: Or(p < k, And(p == k, o < t))
        eq = c['equal']
        return [('subsets so far', two(a, b, lambda p, o: Imp(done(p, o), SUB(F(A, p, o), FB(a, b, p, o))))),
                ('metadata subsets', FA('p', lambda p: Imp(And(p >= 0, p <= ML(A)), And(SUB(A[p], B[p]), Imp(eq, A[p] == B[p]))), lambda p: [A[p], B[p]])),
                ('equal so far', Imp(eq, And(c.arg('proper'), two(a, b, lambda p, o: Imp(done(p, o), F(A, p, o) == FB(a, b, p, o)))))),
                ('not equal if a difference was seen', Imp(And(c.arg('proper'), Not(eq)), Not(SAME(A, B))))]
    def pos2(c, a, b, k, t):
        M = ML(a.W)
        return ('positions', And(c['it1'].off == OFFM(a.W, M, k, t), c['it2'].off == OFFM(b.W, M, k, t)))
    def sc_l1(c):
        a, b = sc_ab(c); k = c['m1'].off
        return [('within the metadata', And(k >= 0, k <= ML(a.W), c['m2'].off == k)), pos2(c, a, b, k, I(0))] + sc_done(c, k, I(0))
    def ghost_t(name='t'): return dict(init=lambda c: c.ghost_set(name, I(0)))
    def sc_l2(c):
        a, b = sc_ab(c); k = c['m1'].off; t = c.ghost_get('_t', IS); x, y = D(a.W[k]), D(b.W[k])
        return [('within the word', And(k >= 0, k <= ML(a.W), c['m2'].off == k, t >= 0, t <= 63)), ('the shifted words', And(c['c'] == SHR(AND(x, y), t), c['s'] == SHR(AND(NOT(x), y), t))), pos2(c, a, b, k, t)] + sc_done(c, k, t)
    def step_t(c): c.ghost_set('_t', c.ghost_get('_t', IS) + 1)
    def sc_b2(c):
        t = c.ghost_get('_t', IS); v = c['c']
        c.oblige(Or(v == 0, And(BT(v, CTZ(v)), t + CTZ(v) < 63)), 'a nonzero word has bits left')
        a, b = sc_ab(c); k = c['m1'].off; A, B = a.W, b.W
        c.oblige(Imp(t < 63, cur_field(c, a, b, k, t)), 'the current fields')
        c.oblige(Imp(t < 63, And(BT(v, 0) == And(BT(A[k], t), BT(B[k], t)), BT(c['s'], 0) == And(Not(BT(A[k], t)), BT(B[k], t)))), 'the lowest bits')
    def cur_field(c, a, b, k, t):
        M = ML(a.W)
        return And(*[And(Imp(BT(x.W[k], t), And(G(x.W, M, k, t) == x.W[c[it].off], c[it].off < x.n)), Imp(Not(BT(x.W[k], t)), G(x.W, M, k, t) == 0)) for x, it in ((a, 'it1'), (b, 'it2'))])
    def sc_x2(c):
        a, b = sc_ab(c); k = c['m1'].off; t = c.ghost_get('_t', IS); A, B = a.W, b.W; x, y = D(A[k]), D(B[k]); s0 = AND(NOT(x), y)
        c.oblige(FA('o', lambda o: Imp(And(o >= t, o < 63), BT(c['c'], o - t) == BT(A[k], o)), lambda o: [BT(A[k], o)]), 'bits left')
        c.oblige(FA('o', lambda o: Imp(And(o >= t, o < 63), Not(BT(A[k], o))), lambda o: [BT(A[k], o)]), 'no more fields in the subset')
        c.oblige(RK(A[k], 63) == RK(A[k], t), 'all fields of the subset were seen', [w.zk(A[k], t, 63)])
        c.oblige(And(RK(s0, 64) - RK(s0, t) == RK(y, 64) - RK(y, t), RK(y, 64) == RK(B[k], 63), RK(y, t) == RK(B[k], t)), 'the skipped words are the other fields', [w.tl(s0, y, t)])
    add('subset_check', lambda c: pre2(*sc_ab(c)), sc_ens, {0: LoopSpec(sc_l0, dec=lambda c: ML(sc_ab(c)[0].W) - c['it1'].off), 1: LoopSpec(sc_l1, dec=lambda c: ML(sc_ab(c)[0].W) - c['m1'].off),
        2: LoopSpec(sc_l2, dec=lambda c: 64 - c.ghost_get('_t', IS), init=lambda c: c.ghost_set('_t', I(0)), begin=sc_b2, end=step_t, exit=sc_x2)}, names=['a', 'b', 'proper'], entry=sc_entry, modifies=[])
    def op2(c): return this(c), arg(c, 'other')
    def op_req(c): return pre2(*op2(c))
    def rel(q, f): add('bitset::operator' + q, op_req, lambda c: [('the set relation', c.res == f(*[x.W for x in op2(c)]))], names=['other'], modifies=[])
    rel('<=', lambda a, b: SUBSET(a, b)); rel('>=', lambda a, b: SUBSET(b, a))
    rel('<', lambda a, b: And(SUBSET(a, b), Not(SAME(a, b)))); rel('>', lambda a, b: And(SUBSET(b, a), Not(SAME(b, a))))
    # ------------------------------------------------------------------ equality of the words decides equality of the sets
    def eq_hint(c):
        a, b = op2(c); A, B = a.W, b.W; M = ML(A)
        vs = c.st.labels.get('veq', ())
        if not vs: return []
        v = vs[-1][0]
        S = Or(v, SAME(A, B))
        sums = lambda k: Imp(k, FA('x', lambda x: Imp(And(x >= 0, x <= M + 1), CUM(A, x) == CUM(B, x)), lambda x: [CUM(A, x), CUM(B, x)]))
        def at(j):
            r = j - M - 1; p = LP(A, r); o = LO(A[p], r - CUM(A, p))
            return And(p >= 0, p <= M, o >= 0, o < 63, F(A, p, o) == A[j], FB(a, b, p, o) == B[j])
        return [('sums start at 0', And(CUM(A, 0) == 0, CUM(B, 0) == 0)),
                ('the same words have the same metadata', Imp(v, FA('x', lambda x: Imp(And(x >= 0, x <= M), A[x] == B[x]), lambda x: [A[x], B[x]]))),
                ('sums of the same metadata', sums(v), [agx(A, B, 0)]), ('sums of the same set', sums(SAME(A, B)), [agx(A, B, 0)]),
                ('fields of the same words', Imp(v, two(a, b, lambda p, o: F(A, p, o) == FB(a, b, p, o)))),
                ('same size', Imp(SAME(A, B), a.n == b.n)),
                ('every data word is a field', Imp(SAME(A, B), FA('j', lambda j: Imp(And(j > M, j < a.n), at(j)), lambda j: [A[j], B[j]]))),
                ('the same set has the same words', Imp(SAME(A, B), FA('j', lambda j: Imp(And(j >= 0, j < a.n), A[j] == B[j]), lambda j: [A[j], B[j]]))),
                ('the same words are the same set', Imp(v, SAME(A, B)))]
    def eq_entry(c): bit_lemma(c, *op2(c))
    add('bitset::operator==', op_req, lambda c: [('same bits', c.res == SAME(*[x.W for x in op2(c)]))], names=['other'], modifies=[], entry=eq_entry, hints=eq_hint)
    add('bitset::operator!=', op_req, lambda c: [('not the same bits', c.res == Not(SAME(*[x.W for x in op2(c)])))], names=['other'], modifies=[], entry=eq_entry, hints=eq_hint)
    # ------------------------------------------------------------------ compare: is some word of the result nonzero
    def opw(a, b, OP, p, o): return OP(F(a.W, p, o), FB(a, b, p, o))
    def meta_l(c):
        a, b = op2(c); k = c['it1'].off
        return [('within the metadata', And(k >= 0, k <= ML(a.W), c['it2'].off == k))]
    def before(k, t): return lambda p, o: Or(p < k, And(p == k, o < t))
    def words_left(c, a, b, k, t):
        '''no bit of the shifted metadata words is left: nothing is stored behind t'''
        A, B = a.W, b.W; M = ML(A)
        for X, x, v in ((A, a, 'v1'), (B, b, 'v2')):
            c.oblige(FA('o', lambda o: Imp(And(o >= t, o < 63), BT(c[v], o - t) == BT(X[k], o)), lambda o: [BT(X[k], o)]), 'bits left')
            c.oblige(FA('o', lambda o: Imp(And(o >= t, o < 63), Not(BT(X[k], o))), lambda o: [BT(X[k], o)]), 'no more fields')
            c.oblige(RK(X[k], 63) == RK(X[k], t), 'all fields were seen', [w.zk(X[k], t, 63)])
            c.oblige(FA('o', lambda o: Imp(And(o >= t, o < 63), G(X, M, k, o) == 0), lambda o: [G(X, M, k, o)]), 'the other fields are empty')
    def step_begin(c, a, b, k, t, OP):
        A, B = a.W, b.W; M = ML(A); v1, v2 = c['v1'], c['v2']
        c.oblige(Or(OR(v1, v2) == 0, And(BT(v1, CTZ(v1)), t + CTZ(v1) < 63), And(BT(v2, CTZ(v2)), t + CTZ(v2) < 63)), 'a nonzero word has bits left')
        c.oblige(Imp(t < 63, And(BT(v1, 0) == BT(A[k], t), BT(v2, 0) == BT(B[k], t))), 'the lowest bits')
        c.oblige(Imp(t < 63, cur_field(c, a, b, k, t)), 'the current fields')
        x, y = F(A, k, t), FB(a, b, k, t)
        c.oblige(And(*[And(Imp(x == 0, f(x, y) == r(y)), Imp(y == 0, f(x, y) == q(x))) for f, r, q in ((OP, *NEUTRAL[OP]),)]), 'operation on an empty field')
    NEUTRAL = {AND: (lambda y: I(0), lambda x: I(0)), OR: (lambda y: y, lambda x: x), XOR: (lambda y: y, lambda x: x), DIF: (lambda y: I(0), lambda x: x)}
    def cmp_loops(OP):
        def fz(c, a, b, k, t): return ('nothing so far', two(a, b, lambda p, o: Imp(before(k, t)(p, o), opw(a, b, OP, p, o) == 0)))
        def l1(c):
            a, b = op2(c); k = c['m1'].off
            return [('within the metadata', And(k >= 0, k <= ML(a.W), c['m2'].off == k)), pos2(c, a, b, k, I(0)), fz(c, a, b, k, I(0))]
        def l2(c):
            a, b = op2(c); k = c['m1'].off; t = c.ghost_get('_t', IS)
            return [('within the word', And(k >= 0, k <= ML(a.W), c['m2'].off == k, t >= 0, t <= 63)), ('the shifted words', And(c['v1'] == SHR(D(a.W[k]), t), c['v2'] == SHR(D(b.W[k]), t))), pos2(c, a, b, k, t), fz(c, a, b, k, t)]
        def b2(c):
            a, b = op2(c); step_begin(c, a, b, c['m1'].off, c.ghost_get('_t', IS), OP)
        def x2(c):
            a, b = op2(c); words_left(c, a, b, c['m1'].off, c.ghost_get('_t', IS))
        return {0: LoopSpec(meta_l, dec=lambda c: ML(op2(c)[0].W) - c['it1'].off), 1: LoopSpec(l1, dec=lambda c: ML(op2(c)[0].W) - c['m1'].off),
                2: LoopSpec(l2, dec=lambda c: 64 - c.ghost_get('_t', IS), init=lambda c: c.ghost_set('_t', I(0)), begin=b2, end=step_t, exit=x2)}
    def has(q, OP, rel):
        def entry(c):
            a, b = op2(c); A, B = a.W, b.W; M = ML(A)
            for nm, g in (('has a bit', lambda x: And(incap(A, x), BIT(A, x), BIT(B, x) if OP is AND else Not(BIT(B, x)))), ('decides', lambda x: And(BIT(A, x), rel(A, B)))):
                c.eng.oblige(c.st, two(a, b, lambda p, o: Imp(opw(a, b, OP, p, o) != 0, g(BIX(p, o, CTZ(opw(a, b, OP, p, o)))))), 'lemma: a nonzero word ' + nm, 'lemma')
        def hints(c):
            a, b = op2(c); A, B = a.W, b.W; x = INTERW(A, B) if OP is AND else SUBW(A, B)
            p, o = x / BPM, (x / 64) % 63
            return [('the witness', Imp(rel(A, B), And(p >= 0, p <= ML(A), o >= 0, o < 63, opw(a, b, OP, p, o) != 0)))]
        add('bitset::' + q, op_req, lambda c: [('the relation of the sets', c.res == rel(*[x.W for x in op2(c)]))], cmp_loops(OP), names=['other'], modifies=[], entry=entry, hints=hints)
    has('has_intersection', AND, lambda A, B: INTER(A, B)); has('has_difference', DIF, lambda A, B: Not(SUBSET(A, B)))
    # ------------------------------------------------------------------ combine: the result word by word
    def out_of(c): return Bs(c.eng, c.st, c['out'])
    def GO(O, M, p, o): return G(O, M, p, o)
    def cmb_loops(OP):
        def upto(c, a, b, O, k):
            M = ML(a.W); W = O.W
            return [('fields of the result so far', FA('p o', lambda p, o: Imp(And(p >= 0, p < k, o >= 0, o < 63), G(W, M, p, o) == opw(a, b, OP, p, o)), lambda p, o: [(F(a.W, p, o), FB(a, b, p, o)), G(W, M, p, o)])),
                    ('metadata of the result so far', FA('p', lambda p: Imp(And(p >= 0, p < k), NX(W, p)), lambda p: [W[p]])),
                    ('metadata of the result still zero', FA('p', lambda p: Imp(And(p >= k, p <= M), W[p] == 0), lambda p: [W[p]])),
                    ('stored words are not zero', FA('j', lambda j: Imp(And(j > M, j < O.n), W[j] != 0), lambda j: [W[j]]))]
        def l1(c):
            a, b = op2(c); k = c['m1'].off; O = out_of(c); M = ML(a.W)
            return [('within the metadata', And(k >= 0, k <= M, c['m2'].off == k, c['mo'] == k)), pos2(c, a, b, k, I(0)), ('size of the result', And(O.n == M + 1 + CUM(O.W, k), O.n <= M + 1 + 63 * k))] + upto(c, a, b, O, k)
        def l2(c):
            a, b = op2(c); k = c['m1'].off; O = out_of(c); M = ML(a.W); W = O.W; t = c.ghost_get('_t', IS); v = c['o']
            return [('within the word', And(k >= 0, k <= M, c['m2'].off == k, c['mo'] == k, t >= 0, t <= 63, c['rem'] == 63 - t)),
                    ('the shifted words', And(c['v1'] == SHR(D(a.W[k]), t), c['v2'] == SHR(D(b.W[k]), t))), pos2(c, a, b, k, t),
                    ('the new metadata word is shifted in from the top', And(Not(BT(v, 63)), RK(v, 63 - t) == 0, rng_(v))),
                    ('size of the result', And(O.n == M + 1 + CUM(W, k) + RK(v, 63), O.n <= M + 1 + 63 * k + t)),
                    ('metadata bits', FA('i', lambda i: Imp(And(i >= 0, i < t), BT(v, 63 - t + i) == (opw(a, b, OP, k, i) != 0)), lambda i: [BT(v, 63 - t + i), (F(a.W, k, i), FB(a, b, k, i))])),
                    ('data words', FA('i', lambda i: Imp(And(i >= 0, i < t, opw(a, b, OP, k, i) != 0), W[M + 1 + CUM(W, k) + RK(v, 63 - t + i)] == opw(a, b, OP, k, i)), lambda i: [(F(a.W, k, i), FB(a, b, k, i)), RK(v, 63 - t + i)]))] + upto(c, a, b, O, k)
        def b2(c):
            a, b = op2(c); k = c['m1'].off; t = c.ghost_get('_t', IS); v = c['o']; W = out_of(c).W
            step_begin(c, a, b, k, t, OP)
            c.oblige(And(RK(v, 0) == 0, Imp(t < 63, Not(BT(v, 0)))), 'the new metadata word has room')
            c.ghost_set('_o', v); c.ghost_set('_O', W); c.ghost_set('_On', c['out'].len)
        def e2(c):
            a, b = op2(c); k = c['m1'].off; t = c.ghost_get('_t', IS); v0 = c.ghost_get('_o', IS); O0 = c.ghost_get('_O', AI); n0 = c.ghost_get('_On', IS); v = c['o']
            O = out_of(c); W = O.W; M = ML(a.W)
            c.oblige(c['v'] == opw(a, b, OP, k, t), 'the word of the result')
            same_meta(c, W, O0, M)
            c.oblige(And(RK(v, 62 - t) == 0, RK(v, 63) == RK(v0, 63) + w.one(c['v'] != 0)), 'ranks of the new metadata word')
            c.oblige(FA('i', lambda i: Imp(And(i >= 0, i <= t), And(RK(v, 62 - t + i) == RK(v0, 63 - t + i), Imp(i < t, BT(v, 62 - t + i) == BT(v0, 63 - t + i)))), lambda i: [RK(v, 62 - t + i), BT(v, 62 - t + i), F(a.W, k, i)]), 'older bits of the new metadata word')
            c.oblige(BT(v, 62) == (c['v'] != 0), 'newest bit of the new metadata word')
            c.oblige(FA('i', lambda i: Imp(And(i >= 0, i < t, opw(a, b, OP, k, i) != 0), And(RK(v0, 63 - t + i) < RK(v0, 63), RK(v0, 63 - t + i) >= 0)), lambda i: [(F(a.W, k, i), FB(a, b, k, i))]), 'older words are stored before')
            c.oblige(FA('j', lambda j: Imp(And(j >= 0, j < n0), W[j] == O0[j]), lambda j: [W[j], O0[j]]), 'older words are kept')
            keep_fields(c, a, b, OP, W, O0, k)
            fp = lambda i: [(F(a.W, k, i), FB(a, b, k, i))]
            c.oblige(Imp(c['v'] != 0, And(W[M + 1 + CUM(W, k) + RK(v, 62)] == c['v'], n0 == M + 1 + CUM(W, k) + RK(v, 62))), 'the newest word is stored')
            c.oblige(FA('i', lambda i: Imp(And(i >= 0, i < t, opw(a, b, OP, k, i) != 0), W[M + 1 + CUM(W, k) + RK(v, 62 - t + i)] == opw(a, b, OP, k, i)), fp), 'older words stay')
            c.ghost_set('_t', t + 1)
        def same_meta(c, W, O0, k):
            c.oblige(And(CUM(W, 0) == 0, CUM(O0, 0) == 0), 'sums start at 0')
            c.oblige(CUM(W, k) == CUM(O0, k), 'the sum is kept', [w.ag(O0, W, I(0), k)])
            c.oblige(FA('x', lambda x: Imp(And(x >= 0, x <= k), CUM(W, x) == CUM(O0, x)), lambda x: [CUM(W, x), CUM(O0, x)]), 'sums are kept', [agx(O0, W, 0)])
        def keep_fields(c, a, b, OP, W, O0, k):
            M = ML(a.W)
            c.oblige(FA('p o', lambda p, o: Imp(And(p >= 0, p < k, o >= 0, o < 63), And(OFFM(W, M, p, o) == OFFM(O0, M, p, o), Imp(BT(O0[p], o), OFFM(O0, M, p, o) < M + 1 + CUM(O0, k)))), lambda p, o: [(F(a.W, p, o), FB(a, b, p, o)), G(W, M, p, o)]), 'offsets are kept')
            c.oblige(FA('p o', lambda p, o: Imp(And(p >= 0, p < k, o >= 0, o < 63), G(W, M, p, o) == G(O0, M, p, o)), lambda p, o: [(F(a.W, p, o), FB(a, b, p, o)), G(W, M, p, o)]), 'fields are kept')
        def x2(c):
            a, b = op2(c); words_left(c, a, b, c['m1'].off, c.ghost_get('_t', IS))
            v = c['o']; O = out_of(c).W; k = c['m1'].off; t = c.ghost_get('_t', IS); M = ML(a.W)
            c.ghost_set('_o', v); c.ghost_set('_O', O)
            P = c.eng.fresh('P', AI); c.ghost_set('_P', P)          # where the words of this metadata word are
            pd = FA('i', lambda i: P[i] == M + 1 + CUM(O, k) + RK(v, 63 - t + i), lambda i: [P[i]]); c.eng.assume(c.st, pd, 'def')
            ps = c.oblige(FA('i', lambda i: Imp(And(i >= 0, i < t, opw(a, b, OP, k, i) != 0), And(P[i] > M, O[P[i]] == opw(a, b, OP, k, i))), lambda i: [(F(a.W, k, i), FB(a, b, k, i)), P[i]]), 'words by position')
            pb = c.oblige(FA('i', lambda i: Imp(And(i >= 0, i < t), BT(v, 63 - t + i) == (opw(a, b, OP, k, i) != 0)), lambda i: [(F(a.W, k, i), FB(a, b, k, i)), P[i]]), 'bits by position')
            c.eng.ghosts_of['pos'] = (pd, ps, pb)
        def e1(c):
            a, b = op2(c); k = c['m1'].off; M = ML(a.W); O = out_of(c); W = O.W; O0 = c.ghost_get('_O', AI); v = c.ghost_get('_o', IS); t = c.ghost_get('_t', IS)
            k = k - 1           # m1 was advanced
            P = c.ghost_get('_P', AI)
            kk = c.eng.fresh('k', IS); c.eng.assume(c.st, kk == k, 'def'); k = kk
            same_meta(c, W, O0, k)
            w1 = c.oblige(FA('j', lambda j: Imp(j != k, W[j] == O0[j]), lambda j: [W[j]]), 'only the metadata word is written')
            c.oblige(And(NX(W, k), RK(W[k], 63) == RK(v, 63), CUM(W, k + 1) == CUM(W, k) + RK(v, 63)), 'the metadata word')
            f1 = c.oblige(FA('i', lambda i: Imp(And(i >= 0, i < 63), And(BT(W[k], i) == And(i < t, BT(v, 63 - t + i)), Imp(i <= t, RK(W[k], i) == RK(v, 63 - t + i)))), lambda i: [BT(W[k], i), F(a.W, k, i)]), 'bits of the metadata word')
            fp = lambda i: [G(W, M, k, i), (F(a.W, k, i), FB(a, b, k, i))]
            f2 = c.oblige(FA('i', lambda i: Imp(And(i >= t, i < 63), And(opw(a, b, OP, k, i) == 0, Not(BT(W[k], i)))), fp), 'no further fields')
            pd, ps, pb = c.eng.ghosts_of['pos']
            f3 = c.oblige(FA('i', lambda i: Imp(And(i >= 0, i < t), BT(W[k], i) == (opw(a, b, OP, k, i) != 0)), fp), 'stored exactly if not empty', only=[f1, pb])
            f4 = c.oblige(FA('i', lambda i: Imp(And(i >= 0, i < t), P[i] == OFFM(W, M, k, i)), lambda i: fp(i) + [P[i]]), 'positions', only=[f1, pd])
            f5 = c.oblige(FA('i', lambda i: Imp(And(i >= 0, i < t, opw(a, b, OP, k, i) != 0), W[P[i]] == opw(a, b, OP, k, i)), fp), 'stored fields', only=[w1, ps])
            c.oblige(FA('i', lambda i: Imp(And(i >= 0, i < 63), G(W, M, k, i) == opw(a, b, OP, k, i)), fp), 'fields of the metadata word', only=[f2, f3, f4, f5])
            keep_fields(c, a, b, OP, W, O0, k)
            c.ghost_set('_O', W)
        return {0: LoopSpec(meta_l, dec=lambda c: ML(op2(c)[0].W) - c['it1'].off), 1: LoopSpec(l1, dec=lambda c: ML(op2(c)[0].W) - c['m1'].off, end=e1, exit=e1),
                2: LoopSpec(l2, dec=lambda c: 64 - c.ghost_get('_t', IS), init=lambda c: c.ghost_set('_t', I(0)), begin=b2, end=e2, exit=x2)}
    def rng_(v): return And(v >= 0, v < (1 << 64))
    BOOL = {AND: lambda x, y: And(x, y), OR: lambda x, y: Or(x, y), XOR: lambda x, y: x != y, DIF: lambda x, y: And(x, Not(y))}
    def op_room(c): return op_req(c) + [('fewer than 2^24 metadata words', ML(this(c).W) < (1 << 24))]
    def res_of(c): return Bs(c.eng, c.st, c.res._bits)
    def cmb_ens(OP):
        def f(c):
            a, b = op2(c); R = res_of(c); A, B = a.W, b.W
            return [('capacity is kept', ML(R.W) == ML(A)), ('bit by bit', FA('i', lambda i: Imp(And(i >= 0, i < BPM * (ML(A) + 1)), BIT(R.W, i) == BOOL[OP](BIT(A, i), BIT(B, i))), lambda i: [BIT(R.W, i)]))] + WF(R)
        return f
    def cmb_hint(OP):
        def f(c):
            a, b = op2(c); R = res_of(c); M = ML(a.W); W = R.W; O = c.ghost_get('_O', AI)
            return [('the last metadata word ends the chain', Not(NX(W, M))), ('the metadata words before it', FA('j', lambda j: Imp(And(j >= 0, j < M), NX(W, j)), lambda j: [W[j]])), ('the metadata chain', ISM(W, M)), ('the number of metadata words', ISM(W, ML(W))),
                    ('words of the result', FA('j', lambda j: Imp(And(j >= 0, j != M), W[j] == O[j]), lambda j: [W[j]])),
                    ('sums start at 0', And(CUM(W, 0) == 0, CUM(O, 0) == 0)),
                    ('sums are kept', FA('x', lambda x: Imp(And(x >= 0, x <= M + 1), CUM(W, x) == CUM(O, x)), lambda x: [CUM(W, x)]), [agx(O, W, 0)]),
                    ('size', And(CUM(W, M + 1) == CUM(O, M + 1), R.n == M + 1 + CUM(O, M + 1))),
                    ('fields of the result', two(a, b, lambda p, o: G(W, M, p, o) == opw(a, b, OP, p, o))),
                    ('fields of the result', FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o < 63), F(W, p, o) == opw(a, b, OP, p, o)), lambda p, o: [F(W, p, o)]))]
        return f
    for q, OP in (('&', AND), ('|', OR), ('^', XOR), ('-', DIF)):
        add('bitset::operator' + q, op_room, cmb_ens(OP), cmb_loops(OP), names=['other'], modifies=[], hints=cmb_hint(OP))
    # ------------------------------------------------------------------ update in place
    # X: the words stored while fields that became zero are not removed yet (the old fields, and the new ones of | and ^)
    def up(c):
        '''(old words of this, words of other before the call, other now)'''
        a = othis(c); b = Bs(c.eng, c.old, c.oarg('other')._bits); bn = Bs(c.eng, c.st, c.arg('other')._bits)
        return a, b, bn
    def up_loops(OP):
        GROW = OP in (OR, XOR)
        def X_of(c): return c.eng.ghosts_of['X']
        def posu(c, a, b, k, t):
            M = ML(a.W); X = X_of(c)
            return ('positions', And(c['it1'].off == SLOT(X, M, k, t), c['it2'].off == OFFM(b.W, M, k, t)))
        def fp2(a, b, *more): return lambda p, o: [(F(a.W, p, o), FB(a, b, p, o))] + [m(p, o) for m in more]
        def common(c, a, b, bn, k, t, s):
            M = ML(a.W); X = X_of(c); W = this(c).W; n = this(c).n; x1 = c['it1'].off
            L = [('iterators are valid', And(c['it1'].ep == c.eng.epoch(c.st, c.path('a')), c['it2'].ep == c.eng.epoch(c.st, c.path('b')))),
                 ('old position', And(s == OFFM(a.W, M, k, t), n - x1 == a.n - s, n <= 127 * (M + 1), x1 <= n)),
                 ('the old words that are left', FA('j', lambda j: Imp(And(j >= x1, j < n), W[j] == a.W[j - x1 + s]), lambda j: [W[j]])),
                 ('fields so far', FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o < 63, before(k, t)(p, o)), GS(X, W, M, p, o) == opw(a, b, OP, p, o)), fp2(a, b, lambda p, o: GS(X, W, M, p, o)))),
                 ('metadata so far', FA('p o', lambda p, o: Imp(And(p >= 0, p < k, o >= 0, o < 63), BT(W[p], o) == (opw(a, b, OP, p, o) != 0)), fp2(a, b, lambda p, o: BT(W[p], o)))),
                 ('the chain so far', FA('p', lambda p: Imp(And(p >= 0, p < k), NX(W, p) == NX(a.W, p)), lambda p: [W[p]])),
                 ('metadata left', FA('p', lambda p: Imp(And(p >= k, p <= M), W[p] == a.W[p]), lambda p: [W[p], a.W[p]]))]
            if not bn.W.eq(b.W):
                L += [('the words of the other set that are left', FA('j', lambda j: Imp(And(j >= c['it2'].off, j < b.n), bn.W[j] == b.W[j]), lambda j: [bn.W[j]])),
                      ('metadata of the other set', FA('p', lambda p: Imp(And(p >= 0, p <= M), And(Imp(p >= k, bn.W[p] == b.W[p]), NX(bn.W, p) == NX(b.W, p))), lambda p: [bn.W[p], b.W[p]])),
                      ('same positions', And(c['it1'].off == c['it2'].off, bn.n == b.n))]
            return L
        def l1(c):
            a, b, bn = up(c); k = c['m1']
            return [('within the metadata', And(k >= 0, k <= ML(a.W), c['m2'] == k)), posu(c, a, b, k, I(0))] + common(c, a, b, bn, k, I(0), c.ghost_get('_s', IS))
        def l2(c):
            a, b, bn = up(c); k = c['m1']; t = c.ghost_get('_t', IS); v = word(c, c['o'])
            return [('within the word', And(k >= 0, k <= ML(a.W), c['m2'] == k, t >= 0, t <= 63, c['rem'] == 63 - t)),
                    ('the shifted words', And(c['v1'] == SHR(D(a.W[k]), t), c['v2'] == SHR(D(b.W[k]), t))), posu(c, a, b, k, t),
                    ('the new metadata word is shifted in from the top', And(Not(BT(v, 63)), RK(v, 63 - t) == 0, rng_(v))),
                    ('metadata bits', FA('i', lambda i: Imp(And(i >= 0, i < t), BT(v, 63 - t + i) == (opw(a, b, OP, k, i) != 0)), lambda i: [BT(v, 63 - t + i), (F(a.W, k, i), FB(a, b, k, i))]))] + common(c, a, b, bn, k, t, c.ghost_get('_s', IS))
        def l0(c):
            a, b, bn = up(c); k = c['it1'].off
            return [('within the metadata', And(k >= 0, k <= ML(a.W), c['it2'].off == k))]
        def i1(c):
            a, b, bn = up(c); M = ML(a.W); X = X_of(c)
            c.ghost_set('_s', M + 1)
            c.oblige(And(SLOT(X, M, I(0), I(0)) == M + 1, CUM(a.W, 0) == 0, CUM(b.W, 0) == 0, RK(a.W[0], 0) == 0), 'start')
            c.oblige(a.n <= M + 1 + 63 * (M + 1), 'size', [w.cb(a.W, M + 1)])
        def b2(c):
            a, b, bn = up(c); k = c['m1']; t = c.ghost_get('_t', IS); v = word(c, c['o']); s = c.ghost_get('_s', IS); M = ML(a.W); X = X_of(c)
            W = this(c).W; A, B = a.W, b.W; v1, v2 = c['v1'], c['v2']; x1, x2 = c['it1'].off, c['it2'].off
            c.oblige(Or(OR(v1, v2) == 0, And(BT(v1, CTZ(v1)), t + CTZ(v1) < 63), And(BT(v2, CTZ(v2)), t + CTZ(v2) < 63)), 'a nonzero word has bits left')
            c.oblige(Imp(t < 63, And(BT(v1, 0) == BT(A[k], t), BT(v2, 0) == BT(B[k], t))), 'the lowest bits')
            c.oblige(Imp(And(t < 63, BT(A[k], t)), And(x1 < this(c).n, F(A, k, t) == A[s], W[x1] == A[s])), 'the current word of this')
            c.oblige(Imp(And(t < 63, BT(B[k], t)), And(x2 < bn.n, FB(a, b, k, t) == B[x2], bn.W[x2] == B[x2])), 'the current word of the other')
            c.oblige(Imp(t < 63, And(Imp(Not(BT(A[k], t)), F(A, k, t) == 0), Imp(Not(BT(B[k], t)), FB(a, b, k, t) == 0))), 'words that are not stored')
            x, y = F(A, k, t), FB(a, b, k, t); f, r, q = OP, *NEUTRAL[OP]
            c.oblige(And(Imp(x == 0, f(x, y) == r(y)), Imp(y == 0, f(x, y) == q(x))), 'operation on an empty field')
            c.oblige(And(RK(v, 0) == 0, Imp(t < 63, Not(BT(v, 0)))), 'the new metadata word has room')
            c.oblige(Imp(t < 63, BT(X[k], t) == (Or(BT(A[k], t), BT(B[k], t)) if GROW else BT(A[k], t))), 'stored words')
            c.oblige(Imp(t < 63, And(SLOT(X, M, k, t + 1) == x1 + w.one(BT(X[k], t)), OFFM(A, M, k, t + 1) == s + w.one(BT(A[k], t)), OFFM(B, M, k, t + 1) == x2 + w.one(BT(B[k], t)))), 'next positions')
            c.oblige(Imp(t < 63, And(x1 > M, s > M, x2 > M)), 'behind the metadata')
            if GROW: c.oblige(Imp(t < 63, And(M + 1 + CUM(X, M + 1) <= M + 1 + 63 * (M + 1), SLOT(X, M, k, t + 1) <= M + 1 + CUM(X, M + 1), s + w.one(BT(A[k], t)) <= a.n)), 'room for the words', [w.cb(X, M + 1)])
            c.ghost_set('_o', v); c.ghost_set('_O', W); c.ghost_set('_x', x1); c.ghost_set('_bo', bn.W)
        def slots_before(c, a, b, k, t, x1):
            M = ML(a.W); X = X_of(c)
            c.oblige(CUM(X, 0) == 0, 'sums start at 0')
            return c.oblige(FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o < 63, before(k, t)(p, o), BT(X[p], o)), And(SLOT(X, M, p, o) > M, SLOT(X, M, p, o) < x1)), lambda p, o: [SLOT(X, M, p, o), (F(a.W, p, o), FB(a, b, p, o))]), 'slots so far')
        def e2(c):
            a, b, bn = up(c); k = c['m1']; t = c.ghost_get('_t', IS); v0 = c.ghost_get('_o', IS); O0 = c.ghost_get('_O', AI); x1 = c.ghost_get('_x', IS); v = word(c, c['o'])
            W = this(c).W; M = ML(a.W); X = X_of(c); s = c.ghost_get('_s', IS)
            c.oblige(c['v'] == opw(a, b, OP, k, t), 'the word of the result')
            c.oblige(RK(v, 62 - t) == 0, 'ranks of the new metadata word')
            c.oblige(FA('i', lambda i: Imp(And(i >= 0, i < t), BT(v, 62 - t + i) == BT(v0, 63 - t + i)), lambda i: [BT(v, 62 - t + i), F(a.W, k, i)]), 'older bits of the new metadata word')
            c.oblige(BT(v, 62) == (c['v'] != 0), 'newest bit of the new metadata word')
            sb = slots_before(c, a, b, k, t, x1)
            kp = c.oblige(FA('j', lambda j: Imp(And(j >= 0, j < x1), W[j] == O0[j]), lambda j: [W[j], O0[j]]), 'older words are kept')
            c.oblige(Imp(BT(X[k], t), And(SLOT(X, M, k, t) == x1, W[x1] == c['v'])), 'the newest word is stored')
            c.oblige(Imp(Not(BT(X[k], t)), opw(a, b, OP, k, t) == 0), 'or empty')
            c.oblige(GS(X, W, M, k, t) == opw(a, b, OP, k, t), 'the newest field')
            f = lambda V: FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o < 63, before(k, t)(p, o)), GS(X, V, M, p, o) == opw(a, b, OP, p, o)), fp2(a, b, lambda p, o: GS(X, W, M, p, o)))
            c.oblige(f(O0), 'fields before this one')
            c.oblige(f(W), 'older fields are kept', only=[sb, kp, f(O0)] if False else None)
            c.oblige(FA('j', lambda j: Imp(And(j >= c['it1'].off, j < this(c).n), And(W[j] == O0[j - c['it1'].off + x1 + w.one(BT(a.W[k], t))], W[j] == a.W[j - c['it1'].off + s + w.one(BT(a.W[k], t))])), lambda j: [W[j]]), 'the rest is shifted')
            c.ghost_set('_s', s + w.one(BT(a.W[k], t)))
            c.ghost_set('_t', t + 1)
        def x2(c):
            a, b, bn = up(c); k = c['m1']; t = c.ghost_get('_t', IS); v = word(c, c['o']); M = ML(a.W); X = X_of(c); s = c.ghost_get('_s', IS)
            words_left(c, a, b, k, t)
            c.oblige(FA('o', lambda o: Imp(And(o >= t, o < 63), And(Not(BT(X[k], o)), opw(a, b, OP, k, o) == 0)), lambda o: [(F(a.W, k, o), FB(a, b, k, o)), BT(X[k], o)]), 'no further fields')
            c.oblige(RK(X[k], 63) == RK(X[k], t), 'all slots were seen', [w.zk(X[k], t, 63)])
            c.oblige(And(SLOT(X, M, k, t) == SLOT(X, M, k + 1, I(0)), OFFM(b.W, M, k, t) == OFFM(b.W, M, k + 1, I(0)), OFFM(a.W, M, k, t) == OFFM(a.W, M, k + 1, I(0))), 'next positions')
            slots_before(c, a, b, k, t, c['it1'].off)
            f = FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o < 63, before(k + 1, I(0))(p, o)), GS(X, this(c).W, M, p, o) == opw(a, b, OP, p, o)), fp2(a, b, lambda p, o: GS(X, this(c).W, M, p, o)))
            c.oblige(f, 'all fields of this metadata word')
            c.ghost_set('_o', v); c.ghost_set('_O', this(c).W); c.ghost_set('_k', k)
        def e1(c):
            a, b, bn = up(c); M = ML(a.W); W = this(c).W; O0 = c.ghost_get('_O', AI); v = c.ghost_get('_o', IS); t = c.ghost_get('_t', IS); X = X_of(c); k = c.ghost_get('_k', IS)
            w1 = c.oblige(FA('j', lambda j: Imp(And(j >= 0, j != k), W[j] == O0[j]), lambda j: [W[j]]), 'only the metadata word is written')
            c.oblige(NX(W, k) == NX(b.W, k), 'the next bit')
            c.oblige(FA('i', lambda i: Imp(And(i >= 0, i < 63), BT(W[k], i) == And(i < t, BT(v, 63 - t + i))), lambda i: [BT(W[k], i), F(a.W, k, i)]), 'bits of the metadata word')
            c.oblige(FA('i', lambda i: Imp(And(i >= 0, i < 63), BT(W[k], i) == (opw(a, b, OP, k, i) != 0)), lambda i: [BT(W[k], i), (F(a.W, k, i), FB(a, b, k, i))]), 'metadata word of the result')
            slots_before(c, a, b, k + 1, I(0), c['it1'].off)
            f = FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o < 63, before(k + 1, I(0))(p, o)), GS(X, W, M, p, o) == opw(a, b, OP, p, o)), fp2(a, b, lambda p, o: GS(X, W, M, p, o)))
            c.oblige(f, 'fields are kept')
            c.ghost_set('_O', W)
        return {0: LoopSpec(l0, dec=lambda c: ML(othis(c).W) - c['it1'].off), 1: LoopSpec(l1, dec=lambda c: ML(othis(c).W) - c['m1'], init=i1, end=e1, exit=e1),
                2: LoopSpec(l2, dec=lambda c: 64 - c.ghost_get('_t', IS), init=lambda c: c.ghost_set('_t', I(0)), begin=b2, end=e2, exit=x2)}
    def up_entry(OP):
        def f(c):
            a, b = op2(c); X = c.eng.fresh('X', AI); c.eng.ghosts_of['X'] = X
            c.eng.assume(c.st, FA('p', lambda p: X[p] == (OR(a.W[p], b.W[p]) if OP in (OR, XOR) else a.W[p]), lambda p: [X[p]]), 'def')
        return f
    def up_hint(OP):
        def f(c):
            a, b, bn = up(c); M = ML(a.W); W = this(c).W; X = c.eng.ghosts_of['X']; O = c.ghost_get('_O', AI); lab = c.st.labels.get('remove')
            if not lab: return []
            A, B, K, lo, hi, r = lab
            eng, st = c.eng, c.st
            p, o = eng.fresh('p', IS), eng.fresh('o', IS)
            inr = And(p >= 0, p <= M, o >= 0, o < 63)
            rk = lambda p, o: K[SLOT(X, M, p, o)] == CUM(W, p) + RK(W[p], o)
            L = [('metadata is kept', FA('j', lambda j: Imp(And(j >= 0, j <= M), W[j] == O[j]), lambda j: [W[j], O[j]])),
                 ('the metadata words', FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o < 63), BT(W[p], o) == (opw(a, b, OP, p, o) != 0)), lambda p, o: [(F(a.W, p, o), FB(a, b, p, o)), BT(W[p], o)])),
                 ('the metadata chain', ISM(W, M)), ('the number of metadata words', ISM(W, ML(W))),
                 ('sums start at 0', And(CUM(W, 0) == 0, CUM(X, 0) == 0, RK(W[0], 0) == 0, RK(X[0], 0) == 0))]
            for nm, g in L: eng.oblige(st, g, 'lemma: ' + nm, 'lemma')
            steps = [('kept words: start', rk(I(0), I(0))),
                     ('kept words: slots', Imp(And(inr, BT(X[p], o)), And(SLOT(X, M, p, o) >= lo, SLOT(X, M, p, o) < hi, A[SLOT(X, M, p, o)] == opw(a, b, OP, p, o)))),
                     ('kept words: next slot', Imp(inr, SLOT(X, M, p, o + 1) == SLOT(X, M, p, o) + w.one(BT(X[p], o)))),
                     ('kept words: next rank', Imp(inr, RK(W[p], o + 1) == RK(W[p], o) + w.one(opw(a, b, OP, p, o) != 0))),
                     ('kept words: field step', Imp(And(inr, rk(p, o)), rk(p, o + 1))),
                     ('kept words: word step', Imp(And(p >= 0, p <= M, rk(p, I(63))), rk(p + 1, I(0))))]
            for nm, g in steps: eng.oblige(st, g, 'lemma: ' + nm, 'lemma')
            eng.assume(st, FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o <= 63), And(rk(p, o))), lambda p, o: [SLOT(X, M, p, o), (F(a.W, p, o), FB(a, b, p, o))]))
            eng.assume(st, rk(M + 1, I(0)))
            eng.notes.add('the number of words kept up to a field: by induction over fields and metadata words; base and steps are obligations, the induction principle itself is applied by hand')
            n = this(c).n
            def at(j):
                q = j - M - 1; p = LP(W, q); o = LO(W[p], q - CUM(W, p))
                return And(p >= 0, p <= M, o >= 0, o < 63, BT(W[p], o), F(W, p, o) == W[j])
            return [('size', And(hi == SLOT(X, M, M + 1, I(0)), n == M + 1 + CUM(W, M + 1))),
                    ('stored fields', FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o < 63, BT(W[p], o)), And(BT(X[p], o), A[SLOT(X, M, p, o)] == opw(a, b, OP, p, o), W[lo + K[SLOT(X, M, p, o)]] == opw(a, b, OP, p, o))), lambda p, o: [(F(a.W, p, o), FB(a, b, p, o)), BT(W[p], o)])),
                    ('fields of the result', FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o < 63), F(W, p, o) == opw(a, b, OP, p, o)), lambda p, o: [F(W, p, o), (F(a.W, p, o), FB(a, b, p, o))])),
                    ('every data word is a field', FA('j', lambda j: Imp(And(j > M, j < n), at(j)), lambda j: [W[j]]))]
        return f
    def up_ens(OP):
        def f(c):
            a, b, bn = up(c); R = this(c); A, B = a.W, b.W
            return [('capacity is kept', ML(R.W) == ML(A)), ('bit by bit', FA('i', lambda i: Imp(And(i >= 0, i < BPM * (ML(A) + 1)), BIT(R.W, i) == BOOL[OP](BIT(A, i), BIT(B, i))), lambda i: [BIT(R.W, i)]))] + WF(R)
        return f
    for q, OP in (('&', AND), ('|', OR), ('^', XOR), ('-', DIF)):
        add('bitset::operator' + q + '=', op_room, up_ens(OP), up_loops(OP), names=['other'], entry=up_entry(OP), hints=up_hint(OP), variants=[None, dict(name='with itself', alias={0: 'this'})])
    # ------------------------------------------------------------------ iterators
    class It:
        """an iterator in one program state: metadata word m, data word d, positions pm and pd, the bitset b"""
        def __init__(s, eng, st, p):
            v = views.mkview(eng, st, p)
            s.m, s.d = v._it_m, v._it_d
            s.M, s.D = s.m.off, s.d.off
            s.pm, s.pd = v._pos_m, v._pos_d
            q = st.cont[(p.root, p.sfx + '._b')]; q = q.p if isinstance(q, OPtr) else q
            s.bp = q
            f, ft = views.find_field(eng, q.ty.rec, '_bits')
            s.vec = q.field(f, ft)
            s.b = Bs(eng, st, views.mkview(eng, st, s.vec))
            s.ep = eng.epoch(st, s.vec)
    def it_setup(eng, st, this, bound):
        rec = eng.U.recq['bitset']; B = Path('$b', '', (), TStruct(rec))
        f, ft = views.find_field(eng, rec, '_bits'); vec = B.field(f, ft)
        for p in [this] + [b for b, r in bound if getattr(b, 'ty', None) is not None and b.ty.k == 'struct' and b.ty.rec.qname == 'bitset::iterator']:
            if p is None: continue
            st.cont[(p.root, p.sfx + '._b')] = OPtr(B)
            for x in ('_it_m', '_it_d'): st.cont[(p.root, p.sfx + '.' + x)] = vec
    def it_this(c): return It(c.eng, c.st, c.thisp)
    def it_old(c): return It(c.eng, c.old, c.thisp)
    def at_end(i): return And(i.D == i.b.n, i.pd == 0)
    def on_bit(i):
        W = i.b.W
        return And(i.M >= 0, i.M <= ML(W), i.pm >= 0, i.pm < 63, BT(W[i.M], i.pm), i.D == OFF(W, i.M, i.pm), i.pd >= 0, i.pd < 64, i.D > ML(W), i.D < i.b.n, BT(W[i.D], i.pd))
    def pos(i): return BPM * i.M + 64 * i.pm + i.pd
    def cur(i): return [('the iterator is valid', And(i.d.ep == i.ep, Imp(Not(at_end(i)), i.m.ep == i.ep))), ('on a set bit or at the end', Or(at_end(i), on_bit(i)))]
    def it_req(c): return WF(it_this(c).b) + cur(it_this(c))
    def none_between(i, x, y):
        """no bit is set from x on and below y (None: the capacity)"""
        W = i.b.W
        return FA('i', lambda j: Imp(And(j >= x, j >= 0, j < (BPM * (ML(W) + 1) if y is None else y), j < BPM * (ML(W) + 1)), Not(BIT(W, j))), lambda j: [BIT(W, j)])
    def moved(i, x):
        """i is on the first set bit from x on, or at the end if there is none"""
        W = i.b.W
        return cur(i) + [('on the first bit set', Imp(Not(at_end(i)), And(pos(i) >= x, BIT(W, pos(i)), pos(i) < BPM * (ML(W) + 1), none_between(i, x, pos(i))))),
                         ('at the end if no bit is left', Imp(at_end(i), none_between(i, x, None)))]
    def nx_ens(c):
        i, o = it_this(c), it_old(c)
        return [('the end stays the end', Imp(at_end(o), at_end(i)))] + [(n, Imp(Not(at_end(o)), g)) for n, g in moved(i, pos(o) + 1)]
    def after(m, pm): return lambda p, o: Or(p > m, And(p == m, o > pm))
    def it_fields(c, i, m0, pm0, d0, pd0, first=False):
        """steps of the proof: the fields in between are not stored, nor the bits of the old and the new one"""
        W = i.b.W; M = ML(W); eng = c.eng
        if not first:
            c.oblige(Imp(BT(W[m0], pm0), FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o < 63, BT(W[p], o)), And(Imp(after(m0, pm0)(p, o), OFF(W, p, o) > d0), OFF(W, p, o) < i.b.n)), lambda p, o: [F(W, p, o)])), 'order of the data words')
        fin = i.D == i.b.n
        for x, ys in ((i.pm, (W[i.M],)), (i.pd, (W[i.D], W[d0], F(W, m0, pm0)))):      # no ones below the lowest one
            if z3.is_app(x) and x.decl().eq(CTZ):
                v = x.arg(0)
                for y in ys:
                    if first and not y.eq(W[i.M]): continue
                    c.oblige(FA('z', lambda z: Imp(z < x, Not(BT(v, z))), lambda z: [BT(y, z)]), 'lowest one')
        if first:
            c.oblige(Imp(Not(fin), And(BT(W[i.M], CTZ(D(W[i.M]))), CTZ(D(W[i.M])) < 63)), 'a field in this word')
            c.oblige(Imp(Not(fin), i.pm < 63), 'the first field')
        if not first:
            c.oblige(And(RK(W[m0], pm0 + 1) == RK(W[m0], pm0) + 1), 'rank of the next field')
            c.oblige(Imp(And(i.M == m0, i.pm > pm0, i.pm < 63), RK(W[m0], i.pm) == RK(W[m0], pm0 + 1)), 'ranks between', [w.zk(W[m0], pm0 + 1, i.pm)])
        if first: c.oblige(Imp(Not(fin), RK(W[i.M], i.pm) == 0), 'rank of the first field', [w.zk(W[i.M], I(0), i.pm)])
        elif not (i.M.eq(m0)): c.oblige(Imp(And(Not(fin), i.M != m0), RK(W[i.M], i.pm) == 0), 'rank of the first field', [w.zk(W[i.M], I(0), i.pm)])
        lo = (lambda p, o: TRUE) if first else after(m0, pm0)
        c.oblige(Or(fin, on_bit(i)), 'on a set bit')
        c.oblige(FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o < 63, lo(p, o), Or(fin, after(p, o)(i.M, i.pm))), F(W, p, o) == 0), lambda p, o: [F(W, p, o)]), 'no fields between')
        if not first: c.oblige(FA('d', lambda d: Imp(And(d > pd0, d < 64, Or(fin, after(m0, pm0)(i.M, i.pm), d < i.pd)), Not(BT(F(W, m0, pm0), d))), lambda d: [BT(F(W, m0, pm0), d)]), 'no bits of the old field')
        c.oblige(FA('d', lambda d: Imp(And(Not(fin), d < i.pd, Or(after(m0, pm0)(i.M, i.pm), d > pd0) if not first else TRUE), Not(BT(F(W, i.M, i.pm), d))), lambda d: [BT(F(W, i.M, i.pm), d)]), 'no bits of the new field')
        c.oblige(FA('i', lambda j: Imp(j >= 0, And(j == BPM * (j / BPM) + 64 * ((j / 64) % 63) + j % 64, (j / 64) % 63 >= 0, (j / 64) % 63 < 63, j % 64 >= 0, j % 64 < 64, j / BPM >= 0)), lambda j: [BIT(W, j)]), 'positions')
        x = BIX(i.M, i.pm, i.pd)
        c.oblige(Imp(Not(fin), And(x == pos(i), BIT(W, x))), 'the bit is set')
    def nx_hint(c):
        i, o = it_this(c), it_old(c)
        if is_false_on(c, at_end(o)): it_fields(c, i, o.M, o.pm, o.D, o.pd)
        return []
    def is_false_on(c, g):
        s = z3.Solver(); s.set('timeout', 2000); s.add(*[f for f in c.st.facts() if not has_quant(f)]); s.add(g)
        return s.check() == z3.unsat
    def nx_l(c):
        i, o = it_this(c), it_old(c); W = i.b.W; k = i.M
        return [('the iterators are valid', And(i.d.ep == i.ep, i.m.ep == i.ep)), ('next data word', And(i.D == o.D + 1, i.D < i.b.n, i.pd == CTZ(W[i.D]))),
                ('within the metadata', And(k >= o.M, k <= ML(W))), ('data words before', CUM(W, k + 1) == i.D - ML(W) - 1),
                ('no further fields', FA('p o', lambda p, q: Imp(And(p >= o.M, p <= k, q >= 0, q < 63, after(o.M, o.pm)(p, q)), Not(BT(W[p], q))), lambda p, q: [BT(W[p], q)]))]
    def nx_init(c):
        i, o = it_this(c), it_old(c); W = i.b.W
        c.oblige(RK(W[o.M], o.pm + 1) == RK(W[o.M], o.pm) + 1, 'rank of the next field')
        c.oblige(FA('q', lambda q: Imp(And(q > o.pm, q < 63), Not(BT(W[o.M], q))), lambda q: [BT(W[o.M], q)]), 'no further field in this word')
        c.oblige(RK(W[o.M], 63) == RK(W[o.M], o.pm + 1), 'all fields of the word', [w.zk(W[o.M], o.pm + 1, I(63))])
        c.oblige(CUM(W, o.M + 1) == CUM(W, o.M) + RK(W[o.M], 63), 'sum up to the next word')
    def nx_end(c):
        i = it_this(c); W = i.b.W; k = i.M
        c.oblige(RK(W[k], 63) == 0, 'no field in this word', [w.zk(W[k], I(0), I(63))])
        c.oblige(And(k >= 1, CUM(W, k + 1) == CUM(W, k) + RK(W[k], 63)), 'sum up to the next word')
    nxl = lambda: {0: LoopSpec(nx_l, dec=lambda c: ML(it_this(c).b.W) - it_this(c).M, init=nx_init, end=nx_end)}
    add('bitset::iterator::next', it_req, nx_ens, nxl(), setup=it_setup, hints=nx_hint)
    add('bitset::iterator::operator*', lambda c: WF(it_this(c).b) + [('on a set bit', And(it_this(c).m.ep == it_this(c).ep, on_bit(it_this(c)))), ('positions fit in 32 bits', BPM * (ML(it_this(c).b.W) + 1) <= 1 << 32)],
        lambda c: [('the position of the bit', c.res == pos(it_old(c)))], setup=it_setup, modifies=[])
    def same_it(i, o): return And(i.M == o.M, i.D == o.D, i.pm == o.pm, i.pd == o.pd, i.m.ep == o.m.ep, i.d.ep == o.d.ep)
    def res_it(c): return It(c.eng, c.st, c.res.p)
    add('bitset::iterator::operator++', it_req, nx_ens, ftype='iterator &()', setup=it_setup)
    add('bitset::iterator::operator++', it_req, lambda c: nx_ens(c) + [('returns the old position', same_it(res_it(c), it_old(c)))], ftype='(int)', setup=it_setup)
    def eq_req(c):
        i, j = it_this(c), It(c.eng, c.st, c.eng_arg)
    def oth(c): return It(c.eng, c.st, c._ppath('other')[0])
    def eq_same(c):
        i, j = it_this(c), oth(c)
        return Or(And(at_end(i), at_end(j)), And(Not(at_end(i)), Not(at_end(j)), pos(i) == pos(j)))
    def iteq_req(c): return WF(it_this(c).b) + [('left: ' + n, g) for n, g in cur(it_this(c))] + [('right: ' + n, g) for n, g in cur(oth(c))]
    def iteq_hint(c):
        i, j = it_this(c), oth(c); W = i.b.W
        c.oblige(Imp(And(Not(at_end(i)), Not(at_end(j)), i.D == j.D), And(i.M == j.M, i.pm == j.pm)), 'one field for a data word')
        c.oblige(Imp(And(Not(at_end(i)), Not(at_end(j)), pos(i) == pos(j)), And(i.M == j.M, i.pm == j.pm, i.pd == j.pd)), 'one field for a position')
        return []
    add('bitset::iterator::operator==', iteq_req, lambda c: [('the same position', c.res == eq_same(c))], names=['other'], setup=it_setup, modifies=[], hints=iteq_hint, variants=[None, dict(name='with itself', alias={0: 'this'})])
    add('bitset::iterator::operator!=', iteq_req, lambda c: [('not the same position', c.res == Not(eq_same(c)))], names=['other'], setup=it_setup, modifies=[])
    # begin and end
    def fresh_it(c):
        r = c.eng.fresh_value(c.st, c.eng.ret_ty(c.fn), 'it'); v = bs_vec(c)
        r.cont.update({'._b': OPtr(c._ppath('bs')[0]), '._it_m': v, '._it_d': v})
        return r
    def bg_l0(c):
        b = Bs(c.eng, c.st, c.arg('bs')._bits); k = c['it']._it_d.off
        return [('within the metadata', And(k >= 0, k <= ML(b.W), c['it']._it_d.ep == c.eng.epoch(c.st, bs_vec(c))))]
    def bs_vec(c):
        q = c._ppath('bs')[0]; f, ft = views.find_field(c.eng, q.ty.rec, '_bits')
        return q.field(f, ft)
    def bg_l1(c):
        b = Bs(c.eng, c.st, c.arg('bs')._bits); W = b.W; k = c['it']._it_m.off
        return [('within the metadata', And(k >= 0, k <= ML(W), CUM(W, k) == 0, c['it']._it_m.ep == c.eng.epoch(c.st, bs_vec(c)))), ('no field so far', FA('p', lambda p: Imp(And(p >= 0, p < k), D(W[p]) == 0), lambda p: [W[p]]))]
    def bg_e1(c):
        b = Bs(c.eng, c.st, c.arg('bs')._bits); W = b.W; k = c['it']._it_m.off
        c.oblige(RK(W[k - 1], 63) == 0, 'no field in this word', [w.zk(W[k - 1], I(0), I(63))])
        c.oblige(And(k >= 1, CUM(W, k) == CUM(W, k - 1) + RK(W[k - 1], 63)), 'sum up to the next word')
    def bg_hint(c):
        i = res_it(c); W = i.b.W
        it_fields(c, i, I(0), I(-1), I(0), I(-1), first=True)
        return []
    def bg_empty(c):
        b = Bs(c.eng, c.st, c.arg('bs')._bits); W = b.W; M = ML(W); k = c['it']._it_d.off
        c.oblige(And(k == M + 1, CUM(W, 0) == 0), 'behind the metadata')
        c.oblige(Imp(k == b.n, FA('p o', lambda p, o: Imp(And(p >= 0, p <= M, o >= 0, o < 63), F(W, p, o) == 0), lambda p, o: [F(W, p, o)])), 'no fields if there are no data words')
    bsr = lambda c: WF(Bs(c.eng, c.st, c.arg('bs')._bits))
    add('bitset::iterator::begin', bsr, lambda c: moved(res_it(c), I(0)), {0: LoopSpec(bg_l0, dec=lambda c: ML(Bs(c.eng, c.st, c.arg('bs')._bits).W) - c['it']._it_d.off, exit=bg_empty), 1: LoopSpec(bg_l1, dec=lambda c: ML(Bs(c.eng, c.st, c.arg('bs')._bits).W) - c['it']._it_m.off, end=bg_e1)}, names=['bs'], modifies=[], hints=bg_hint, result=lambda c: fresh_it(c))
    add('bitset::iterator::end', bsr, lambda c: [('at the end', And(at_end(res_it(c)), res_it(c).d.ep == res_it(c).ep))], names=['bs'], modifies=[], result=lambda c: fresh_it(c))
    add('bitset::cbegin', me_req, lambda c: moved(res_it(c), I(0)), modifies=[])
    add('bitset::cend', me_req, lambda c: [('at the end', And(at_end(res_it(c)), res_it(c).d.ep == res_it(c).ep))], modifies=[])
    return L

def _q(*names): return {n if n in ('msk_lo', 'get_offset', 'subset_check') else 'bitset::' + n for n in names}
_BASE = _q('msk_lo', 'get_offset', 'capacity', 'get', 'set', 'clear', 'bitset', 'resize')
_OPS = _q(*['operator' + x + y for x in '&|^-' for y in ('', '=')])
_REL = _q('subset_check', 'has_intersection', 'has_difference', *['operator' + x for x in ('==', '!=', '<=', '>=', '<', '>')])
_SUM = _q('count', 'empty', 'cbegin', 'cend', *['iterator::' + x for x in ('begin', 'end', 'next', 'operator*', 'operator++', 'operator==', 'operator!=')])
# relations and iteration depend on the canonical form, which every operation that writes has to establish
FUNCTIONS = {'B01': _BASE, 'B02': _BASE | _OPS, 'B03': _BASE | _OPS | _REL, 'B04': _BASE | _OPS | _SUM, 'B05': _BASE}

def build(prop):
    U = extract.load(['src/utils/bitset.cpp'])
    V = Verifier(U, {'axioms': axioms(), 'array_pointees': ['u64'], 'wordbits': [64], 'theory': w.Words()})
    L = contracts(prop)
    for c in L: V.add(c)
    return V, [c for c in L if c.qname in FUNCTIONS[prop]]

def lemmas(V, prop):
    p, o, d, x = z3.Ints('lm_p lm_o lm_d lm_x')
    V.lemma('positions: ', [x == BPM * p + 64 * o + d], Imp(And(p >= 0, o >= 0, o < 63, d >= 0, d < 64), And(x / BPM == p, (x / 64) % 63 == o, x % 64 == d)))
    for nm, facts, goal in w.lemma_obligations(): V.lemma('words: ' + nm, facts, goal)
