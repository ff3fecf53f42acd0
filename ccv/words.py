"""64-bit words as integers whose bits are read through BT(w, i).

The functions below are the bitwise operators on words; the DEFINITIONS say what each does to every bit (this is
the meaning of &, |, ^, ~, <<, >> on unsigned words).  Everything else (population counts of masked, shifted or
updated words, sums of population counts over arrays) is DERIVED, and every derived axiom is proved from the
definitions, by induction where needed, as lemma obligations on every run.
"""
import sys, z3
from .core import *

AI = z3.ArraySort(IS, IS)
BT = z3.Function('BT', IS, IS, BS)
AND = z3.Function('w_and', IS, IS, IS)
OR = z3.Function('w_or', IS, IS, IS)
XOR = z3.Function('w_xor', IS, IS, IS)
DIF = z3.Function('w_dif', IS, IS, IS)      # a & ~b
NOT = z3.Function('w_not', IS, IS)
SHR = z3.Function('w_shr', IS, IS, IS)
SHL = z3.Function('w_shl', IS, IS, IS)
P2 = z3.Function('w_bit', IS, IS)           # 1 << n
MLO = z3.Function('w_lo', IS, IS)           # the lower n bits
SETB = z3.Function('w_set', IS, IS, IS)     # w | 1 << n
CLRB = z3.Function('w_clr', IS, IS, IS)     # w & ~(1 << n)
D = z3.Function('w_data', IS, IS)           # w without its top bit
CTZ = z3.Function('w_ctz', IS, IS)
RK = z3.Function('w_rank', IS, IS, IS)      # number of ones among the lower n bits
ZR = z3.Function('zr', IS, IS, IS, IS)
RD = z3.Function('rd', IS, IS, IS, IS)
DX = z3.Function('dx', IS, IS, IS)
SUB = z3.Function('w_sub', IS, IS, BS)      # every bit of a is a bit of b
LP = z3.Function('locw', AI, IS, IS)        # the word that holds the c-th one
LO = z3.Function('locb', IS, IS, IS)        # the bit of rank r
EQW = z3.Function('eqw', IS, IS, BS)
CUM = z3.Function('cum', AI, IS, IS)        # sum of RK(W[k], 63) for k < i
CZ = z3.Function('cz', AI, IS, IS, IS)
CD = z3.Function('cd', AI, AI, IS, IS, IS)
TOP = 1 << 63
FULL = 1 << 64
CONSTS = {0: lambda i: FALSE, 1: lambda i: i == 0, TOP: lambda i: i == 63, TOP - 1: lambda i: z3.And(i >= 0, i < 63), FULL - 1: lambda i: z3.And(i >= 0, i < 64)}

def rng(x): return z3.And(x >= 0, x < FULL)
def one(b): return z3.If(b, 1, 0)

class Words:
    """word operations of 64-bit values, for the engine"""
    def const_of(s, b): return num(b) % FULL if isnum(b) else None
    def bitop(s, eng, st, op, a, b, w):
        if isnum(a): a, b = b, a
        # x op (c ? k : 0): one alternative each
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and isnum(b.arg(1)) and isnum(b.arg(2)):
            return z3.If(b.arg(0), s.bitop(eng, st, op, a, b.arg(1), w), s.bitop(eng, st, op, a, b.arg(2), w))
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and isnum(a.arg(1)) and isnum(a.arg(2)):
            return z3.If(a.arg(0), s.bitop(eng, st, op, a.arg(1), b, w), s.bitop(eng, st, op, a.arg(2), b, w))
        if isnum(a) and isnum(b):
            x, y = num(a), num(b)
            return I({'&': x & y, '|': x | y, '^': x ^ y}[op] % FULL)
        c = s.const_of(b)
        ap = lambda t, f: z3.is_app(t) and t.decl().eq(f)
        if op == '&':
            if c == TOP: return z3.If(BT(a, 63), I(TOP), I(0))
            if c == TOP - 1: return D(a)
            if c == 1: return z3.If(BT(a, 0), I(1), I(0))
            if c == 0: return I(0)
            if c == FULL - 1: return a
            for x, y in ((a, b), (b, a)):
                if ap(y, P2):
                    return z3.If(BT(x, y.arg(0)), y, I(0))
                if ap(y, NOT) and ap(y.arg(0), P2): return CLRB(x, y.arg(0).arg(0))
        if op == '|':
            if c == 0: return a
            if c == TOP: return SETB(a, I(63))
            if c == 1: return SETB(a, I(0))
            for x, y in ((a, b), (b, a)):
                if ap(y, P2): return SETB(x, y.arg(0))
        if op == '^' and c == 0: return a
        return {'&': AND, '|': OR, '^': XOR}[op](a, b)
    def shift(s, eng, st, op, a, b, w):
        if op == '<<':
            if isnum(a) and num(a) == 1: return P2(b)
            return SHL(a, b)
        return SHR(a, b)
    def notop(s, eng, st, v, w): return NOT(v)
    def popcount(s, eng, st, v, w):
        if z3.is_app(v) and v.decl().eq(D): return RK(v.arg(0), 63)
        return RK(v, 64)
    def ctz(s, eng, st, v, w): return CTZ(v)

def _fa(names, sorts, body, pats):
    vs = [z3.Const(n, so) for n, so in zip(names.split(), sorts)]
    kw = {'qid': 'w_%d' % sys._getframe(1 if len(sorts) and sorts[0] is AI else 2).f_lineno}
    if pats:
        kw['patterns'] = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats(*vs)]
    return z3.ForAll(vs, body(*vs), **kw)
def fi(names, body, pats=None): return _fa(names, [IS] * len(names.split()), body, pats)

def definitions():
    """what the operators do to each bit; what population counts and sums are"""
    A = []
    inw = lambda i: z3.And(i >= 0, i < 64)
    A.append(fi('w i', lambda w, i: Imp(BT(w, i), inw(i)), lambda w, i: [BT(w, i)]))
    for f, g in ((AND, z3.And), (OR, z3.Or), (XOR, z3.Xor), (DIF, lambda x, y: z3.And(x, Not(y)))):
        A.append(fi('a b i', lambda a, b, i, f=f, g=g: BT(f(a, b), i) == g(BT(a, i), BT(b, i)), lambda a, b, i, f=f: [BT(f(a, b), i)]))
    A.append(fi('a i', lambda a, i: BT(NOT(a), i) == z3.And(inw(i), Not(BT(a, i))), lambda a, i: [BT(NOT(a), i)]))
    A.append(fi('a k i', lambda a, k, i: Imp(k >= 0, BT(SHR(a, k), i) == z3.And(i >= 0, BT(a, i + k))), lambda a, k, i: [BT(SHR(a, k), i)]))
    A.append(fi('a k i', lambda a, k, i: Imp(k >= 0, BT(SHL(a, k), i) == z3.And(i < 64, BT(a, i - k))), lambda a, k, i: [BT(SHL(a, k), i)]))
    A.append(fi('n i', lambda n, i: BT(P2(n), i) == z3.And(i == n, inw(n)), lambda n, i: [BT(P2(n), i)]))
    A.append(fi('n', lambda n: Imp(inw(n), P2(n) >= 1), lambda n: [P2(n)]))
    A.append(fi('n i', lambda n, i: BT(MLO(n), i) == z3.And(i >= 0, i < n, i < 64), lambda n, i: [BT(MLO(n), i)]))
    A.append(fi('a n i', lambda a, n, i: Imp(inw(n), BT(SETB(a, n), i) == z3.Or(BT(a, i), i == n)), lambda a, n, i: [BT(SETB(a, n), i)]))
    A.append(fi('a n', lambda a, n: Imp(inw(n), BT(SETB(a, n), n)), lambda a, n: [SETB(a, n)]))
    A.append(fi('a n i', lambda a, n, i: BT(CLRB(a, n), i) == z3.And(BT(a, i), i != n), lambda a, n, i: [BT(CLRB(a, n), i)]))
    A.append(fi('a i', lambda a, i: BT(D(a), i) == z3.And(BT(a, i), i < 63), lambda a, i: [BT(D(a), i), (D(a), BT(a, i))]))
    for c, f in CONSTS.items():
        A.append(fi('i', lambda i, c=c, f=f: BT(I(c), i) == f(i), lambda i, c=c: [BT(I(c), i)]))
    for t in (AND, OR, XOR, DIF, SHR, SHL, SETB, CLRB):
        A.append(fi('a b', lambda a, b, t=t: rng(t(a, b)), lambda a, b, t=t: [t(a, b)]))
    for t in (NOT, P2, MLO, D):
        A.append(fi('a', lambda a, t=t: rng(t(a)), lambda a, t=t: [t(a)]))
    A.append(fi('a', lambda a: D(a) < TOP, lambda a: [D(a)]))
    # a word is zero exactly if it has no bit; its lowest bit is at CTZ
    A.append(fi('w', lambda w: z3.And(Imp(z3.And(rng(w), w != 0), BT(w, CTZ(w))), Imp(w == 0, CTZ(w) == 64), CTZ(w) >= 0, CTZ(w) <= 64), lambda w: [CTZ(w)]))
    A.append(fi('w i', lambda w, i: Imp(BT(w, i), z3.And(CTZ(w) <= i, w != 0)), lambda w, i: [(BT(w, i), CTZ(w))]))
    # words with the same bits are the same word
    A.append(fi('a b', lambda a, b: SUB(a, b) == (AND(a, NOT(b)) == 0), lambda a, b: [SUB(a, b), AND(a, NOT(b))]))
    A.append(fi('a b', lambda a, b: z3.And(EQW(a, b) == (a == b), Imp(z3.And(rng(a), rng(b), a != b), BT(a, DX(a, b)) != BT(b, DX(a, b)))), lambda a, b: [EQW(a, b)]))
    return A

def rank_defs():
    inw = lambda i: z3.And(i >= 0, i < 64)
    return [fi('w', lambda w: RK(w, 0) == 0, lambda w: [RK(w, 0)]),
            fi('w n', lambda w, n: Imp(inw(n), RK(w, n + 1) == RK(w, n) + one(BT(w, n))), lambda w, n: [(RK(w, n), RK(w, n + 1))])]

def cum_defs():
    return [_fa('W', [AI], lambda W: CUM(W, 0) == 0, lambda W: [CUM(W, 0)])]

def derived():
    """[(name, formula, proof)]; proof(): list of (facts, goal) in terms of the definitions"""
    L = []
    def R(n): return z3.And(n >= 0, n <= 64)
    L.append(('setting a set bit, clearing a cleared one', fi('a n', lambda a, n: Imp(z3.And(n >= 0, n < 64, rng(a), BT(a, n)), SETB(a, n) == a), lambda a, n: [SETB(a, n)]), 'noop'))
    L.append(('clearing a cleared bit', fi('a n', lambda a, n: Imp(z3.And(rng(a), Not(BT(a, n))), CLRB(a, n) == a), lambda a, n: [CLRB(a, n)]), 'noop'))
    L.append(('data bits of a word without the top bit', fi('a', lambda a: Imp(z3.And(rng(a), Not(BT(a, 63))), D(a) == a), lambda a: [D(a)]), 'noop'))
    L.append(('a subset has no other bit', fi('a b i', lambda a, b, i: Imp(z3.And(SUB(a, b), BT(a, i)), BT(b, i)), lambda a, b, i: [(SUB(a, b), BT(a, i))]), 'sub'))
    L.append(('not a subset: some bit', fi('a b', lambda a, b: Imp(Not(SUB(a, b)), z3.And(BT(a, CTZ(AND(a, NOT(b)))), Not(BT(b, CTZ(AND(a, NOT(b))))))), lambda a, b: [SUB(a, b)]), 'sub'))
    L.append(('a nonzero and has a common bit', fi('a b', lambda a, b: Imp(AND(a, b) != 0, z3.And(BT(a, CTZ(AND(a, b))), BT(b, CTZ(AND(a, b))))), lambda a, b: [AND(a, b)]), 'and0'))
    L.append(('a zero and has none', fi('a b i', lambda a, b, i: Imp(z3.And(AND(a, b) == 0, BT(a, i)), Not(BT(b, i))), lambda a, b, i: [(AND(a, b), BT(a, i))]), 'and0'))
    L.append(('a zero or has no bit', fi('a b i', lambda a, b, i: Imp(OR(a, b) == 0, z3.And(Not(BT(a, i)), Not(BT(b, i)))), lambda a, b, i: [(OR(a, b), BT(a, i)), (OR(a, b), BT(b, i))]), 'or0'))
    L.append(('a nonzero or has a bit', fi('a b', lambda a, b: Imp(OR(a, b) != 0, z3.Or(BT(a, CTZ(OR(a, b))), BT(b, CTZ(OR(a, b))))), lambda a, b: [OR(a, b)]), 'or0'))
    L.append(('a zero xor: the same bits', fi('a b i', lambda a, b, i: Imp(XOR(a, b) == 0, BT(a, i) == BT(b, i)), lambda a, b, i: [(XOR(a, b), BT(a, i)), (XOR(a, b), BT(b, i))]), 'xor0'))
    L.append(('a zero difference has none', fi('a b i', lambda a, b, i: Imp(z3.And(DIF(a, b) == 0, BT(a, i)), BT(b, i)), lambda a, b, i: [(DIF(a, b), BT(a, i))]), 'dif0'))
    L.append(('a nonzero difference has a bit', fi('a b', lambda a, b: Imp(DIF(a, b) != 0, z3.And(BT(a, CTZ(DIF(a, b))), Not(BT(b, CTZ(DIF(a, b)))))), lambda a, b: [DIF(a, b)]), 'dif0'))
    L.append(('other ways to write a difference', fi('a b', lambda a, b: z3.And(XOR(a, AND(a, b)) == DIF(a, b)), lambda a, b: [XOR(a, AND(a, b))]), 'difs'))
    L.append(('difference as and with the complement', fi('a b', lambda a, b: AND(a, NOT(b)) == DIF(a, b), lambda a, b: [AND(a, NOT(b))]), 'difs'))
    L.append(('a nonzero word has a one', fi('w', lambda w: Or(RK(w, 64) == 0, z3.And(BT(w, ZR(w, 0, 64)), ZR(w, 0, 64) >= 0, ZR(w, 0, 64) < 64)), lambda w: [RK(w, 64)]), 'ranks'))
    L.append(('words of nothing', fi('a', lambda a: Imp(rng(a), z3.And(*[f(x, y) == (r(a)) for f, r in ((AND, lambda a: I(0)), (OR, lambda a: a), (XOR, lambda a: a), (DIF, lambda a: a)) for x, y in ((a, I(0)),)])), lambda a: [AND(a, 0), OR(a, 0), XOR(a, 0), DIF(a, 0)]), 'nothing'))
    L.append(('nothing with a word', fi('a', lambda a: Imp(rng(a), z3.And(AND(0, a) == 0, OR(0, a) == a, XOR(0, a) == a, DIF(0, a) == 0)), lambda a: [AND(0, a), OR(0, a), XOR(0, a), DIF(0, a)]), 'nothing'))
    L.append(('shifting twice', fi('a k', lambda a, k: Imp(z3.And(k >= 0, k <= 64), SHR(SHR(a, k), 1) == SHR(a, k + 1)), lambda a, k: [SHR(SHR(a, k), 1)]), 'shift2'))
    L.append(('shifting by 0', fi('a', lambda a: Imp(rng(a), SHR(a, 0) == a), lambda a: [SHR(a, 0)]), 'shift0'))
    L.append(('a one of every rank', fi('w r n', lambda w, r, n: Imp(z3.And(r >= 0, r < RK(w, n), n >= 0, n <= 64), z3.And(LO(w, r) >= 0, LO(w, r) < n, BT(w, LO(w, r)), RK(w, LO(w, r)) == r)), lambda w, r, n: [(LO(w, r), RK(w, n))]), 'locb'))
    L.append(('a word for every one', _fa('W r n', [AI, IS, IS], lambda W, r, n: Imp(z3.And(r >= 0, n >= 0, r < CUM(W, n)), z3.And(LP(W, r) >= 0, LP(W, r) < n, CUM(W, LP(W, r)) <= r, r < CUM(W, LP(W, r)) + RK(W[LP(W, r)], 63))), lambda W, r, n: [(LP(W, r), CUM(W, n))]), 'locw'))
    # -- ranks of two positions of one word
    L.append(('rank grows by the ones between',
              fi('w i j', lambda w, i, j: Imp(z3.And(i >= 0, i < j, j <= 64),
                 z3.And(RK(w, i) + one(BT(w, i)) <= RK(w, j), RK(w, j) <= RK(w, i) + (j - i), Imp(j == i + 1, RK(w, j) == RK(w, i) + one(BT(w, i))))),
                 lambda w, i, j: [(RK(w, i), RK(w, j))]), 'ranks'))
    L.append(('rank is at least 0', fi('w n', lambda w, n: Imp(R(n), z3.And(RK(w, n) >= 0, RK(w, n) <= n)), lambda w, n: [RK(w, n)]), 'pos'))
    L.append(('rank of a shifted word', fi('w k n', lambda w, k, n: Imp(z3.And(k >= 0, n >= 0, n <= 64, k <= 64), RK(SHR(w, k), n) == RK(w, z3.If(n + k <= 64, n + k, I(64))) - RK(w, k)), lambda w, k, n: [RK(SHR(w, k), n)]), 'shr'))
    L.append(('rank of the data bits', fi('w n', lambda w, n: Imp(z3.And(n >= 0, n <= 64), RK(D(w), n) == RK(w, z3.If(n == 64, I(63), n))), lambda w, n: [RK(D(w), n)]), 'data'))
    L.append(('rank of a masked word', fi('w n', lambda w, n: Imp(R(n), RK(AND(w, MLO(n)), 64) == RK(w, n)), lambda w, n: [RK(AND(w, MLO(n)), 64)]), 'mask'))
    L.append(('rank after setting a bit', fi('w n i', lambda w, n, i: Imp(z3.And(n >= 0, n < 64, R(i)), RK(SETB(w, n), i) == RK(w, i) + z3.If(z3.And(n < i, Not(BT(w, n))), 1, 0)), lambda w, n, i: [RK(SETB(w, n), i)]), 'setb'))
    L.append(('rank after clearing a bit', fi('w n i', lambda w, n, i: Imp(z3.And(n >= 0, n < 64, R(i)), RK(CLRB(w, n), i) == RK(w, i) - z3.If(z3.And(n < i, BT(w, n)), 1, 0)), lambda w, n, i: [RK(CLRB(w, n), i)]), 'clrb'))
    L.append(('rank of zero and of the top bit', fi('n', lambda n: Imp(R(n), z3.And(RK(I(0), n) == 0, RK(I(TOP), n) == z3.If(n == 64, 1, 0))), lambda n: [RK(I(0), n), RK(I(TOP), n)]), 'consts'))
    # -- sums
    L.append(('sums grow by the words between',
              _fa('W i j', [AI, IS, IS], lambda W, i, j: Imp(z3.And(i >= 0, i < j),
                 z3.And(CUM(W, i) + RK(W[i], 63) <= CUM(W, j), Imp(j == i + 1, CUM(W, j) == CUM(W, i) + RK(W[i], 63)))),
                 lambda W, i, j: [(CUM(W, i), CUM(W, j))]), 'sums'))
    L.append(('sums are at least 0', _fa('W i', [AI, IS], lambda W, i: Imp(i >= 0, CUM(W, i) >= 0), lambda W, i: [CUM(W, i)]), 'sum0'))
    return L

# instances of lemmas with witnesses: given to the solver only where an annotation asks for them (proved by induction below)
def ag(W, V, i, j):
    '''sums over arrays that agree between two points differ by the same amount there'''
    x = CD(W, V, i, j)
    return Imp(z3.And(i >= 0, i <= j), z3.Or(CUM(V, j) - CUM(W, j) == CUM(V, i) - CUM(W, i), z3.And(x >= i, x < j, RK(W[x], 63) != RK(V[x], 63))))
def tl(a, b, i):
    '''words with the same bits above a position have the same number of ones there'''
    x = RD(a, b, i)
    return Imp(z3.And(i >= 0, i <= 64), z3.Or(RK(a, 64) - RK(a, i) == RK(b, 64) - RK(b, i), z3.And(x >= i, x < 64, BT(a, x) != BT(b, x))))
def zs(W, i, j):
    '''equal sums or a word with ones between'''
    x = CZ(W, i, j)
    return Imp(z3.And(i >= 0, i <= j), z3.Or(CUM(W, i) == CUM(W, j), z3.And(x >= i, x < j, RK(W[x], 63) != 0)))
def zk(w, i, j):
    '''equal ranks or a one between'''
    x = ZR(w, i, j)
    return Imp(z3.And(i >= 0, i <= j, j <= 64), z3.Or(RK(w, i) == RK(w, j), z3.And(x >= i, x < j, BT(w, x))))

def cb(W, i):
    '''at most 63 ones per word'''
    return Imp(i >= 0, CUM(W, i) <= 63 * i)

def lemma_obligations():
    """[(name, facts, goal)]: each derived axiom from the definitions, by induction where needed.
    The definitions are given as ground instances or as the quantified definitions without patterns."""
    out = []
    def K(n, so=IS): return z3.Const('lm_' + n, so)
    w, a, b, i, j, k, n, x = [K(c) for c in 'w a b i j k n x'.split()]
    defs = definitions()
    def step(t, m): return Imp(z3.And(m >= 0, m < 64), RK(t, m + 1) == RK(t, m) + one(BT(t, m)))
    def zero(t): return RK(t, 0) == 0
    def add(name, facts, goal): out.append((name, facts, goal))
    base = lambda *ts: [zero(t) for t in ts]
    add('setting a set bit', defs + [n >= 0, n < 64, rng(a), BT(a, n)], z3.Or(SETB(a, n) == a, EQW(SETB(a, n), a)))
    add('clearing a cleared bit', defs + [rng(a), Not(BT(a, n))], z3.Or(CLRB(a, n) == a, EQW(CLRB(a, n), a)))
    add('data bits of a word without the top bit', defs + [rng(a), Not(BT(a, 63))], z3.Or(D(a) == a, EQW(D(a), a)))
    # rank is at least 0 and at most n: induction on n
    P = lambda m: z3.And(RK(w, m) >= 0, RK(w, m) <= m)
    add('rank bounds: base', base(w), P(I(0))); add('rank bounds: step', [step(w, n), n >= 0, n < 64, P(n)], P(n + 1))
    # between i and j: induction on j from i + 1
    def Q(m): return z3.And(RK(w, i) + one(BT(w, i)) <= RK(w, m), RK(w, m) <= RK(w, i) + (m - i))
    add('rank between: base', [step(w, i), i >= 0, i < 64], Q(i + 1)); add('rank between: step', [step(w, j), i >= 0, i < j, j < 64, Q(j)], Q(j + 1))
    # equal ranks or a one in between: Ex z in [i, m) with BT, by induction on m (witness explicit)
    z = K('z')
    def E(m, z): return z3.And(z >= i, z < m, BT(w, z))
    add('one between: base', [], RK(w, i) == RK(w, i))
    add('one between: step', [step(w, j), i >= 0, i <= j, j < 64, z3.Or(RK(w, i) == RK(w, j), E(j, z))], z3.Or(RK(w, i) == RK(w, j + 1), E(j + 1, z), E(j + 1, j)))
    # shifted
    S = lambda m: RK(SHR(w, k), m) == RK(w, m + k) - RK(w, k)
    add('shift: base', base(SHR(w, k)) + [k >= 0, k <= 64], S(I(0)))
    add('shift: step', defs + [step(SHR(w, k), n), step(w, n + k), k >= 0, n >= 0, n + k < 64, S(n)], S(n + 1))
    S1 = lambda m: RK(SHR(w, k), m) == RK(w, 64) - RK(w, k)
    add('shift: beyond the top', defs + [step(SHR(w, k), n), k >= 0, k <= 64, n >= 0, n < 64, n + k >= 64, S1(n)], S1(n + 1))
    # subsets, intersections, unions as words
    add('subset', defs + [SUB(a, b), BT(a, i)], Or(BT(b, i), BT(AND(a, NOT(b)), i)))
    add('subset: no bit of 0', defs + [SUB(a, b), BT(AND(a, NOT(b)), i)], FALSE)
    add('not a subset', defs + [Not(SUB(a, b)), x == CTZ(AND(a, NOT(b)))], z3.And(BT(a, x), Not(BT(b, x))))
    add('common bit', defs + [AND(a, b) != 0, x == CTZ(AND(a, b))], z3.And(BT(a, x), BT(b, x)))
    add('no common bit', defs + [AND(a, b) == 0, BT(a, i), BT(b, i), BT(AND(a, b), i) == z3.And(BT(a, i), BT(b, i))], FALSE)
    add('no bit', defs + [OR(a, b) == 0, BT(OR(a, b), i) == z3.Or(BT(a, i), BT(b, i)), z3.Or(BT(a, i), BT(b, i))], FALSE)
    add('some bit', defs + [OR(a, b) != 0, x == CTZ(OR(a, b))], z3.Or(BT(a, x), BT(b, x)))
    add('the same bits', defs + [XOR(a, b) == 0, BT(XOR(a, b), i) == z3.Xor(BT(a, i), BT(b, i)), BT(a, i) != BT(b, i)], FALSE)
    add('no bit of a zero difference', defs + [DIF(a, b) == 0, BT(a, i), Not(BT(b, i)), BT(DIF(a, b), i) == z3.And(BT(a, i), Not(BT(b, i)))], FALSE)
    add('some bit of a difference', defs + [DIF(a, b) != 0, x == CTZ(DIF(a, b))], z3.And(BT(a, x), Not(BT(b, x))))
    add('difference as xor', defs, z3.Or(XOR(a, AND(a, b)) == DIF(a, b), EQW(XOR(a, AND(a, b)), DIF(a, b))))
    add('difference as and', defs, z3.Or(AND(a, NOT(b)) == DIF(a, b), EQW(AND(a, NOT(b)), DIF(a, b))))
    for f, r, l in ((AND, I(0), I(0)), (OR, a, a), (XOR, a, a), (DIF, a, I(0))):
        add('%s with nothing' % f.name(), defs + [rng(a)], z3.Or(f(a, 0) == r, EQW(f(a, 0), r))); add('nothing %s' % f.name(), defs + [rng(a)], z3.Or(f(0, a) == l, EQW(f(0, a), l)))
    add('shifting twice', defs + [k >= 0, k <= 64], z3.Or(SHR(SHR(a, k), 1) == SHR(a, k + 1), EQW(SHR(SHR(a, k), 1), SHR(a, k + 1))))
    add('shifting by 0', defs + [rng(a)], z3.Or(SHR(a, 0) == a, EQW(SHR(a, 0), a)))
    # a one of every rank below RK(w, m): induction on m, the witness is the old one or m itself
    Z = lambda m, z: z3.And(z >= 0, z < m, BT(w, z), RK(w, z) == x)
    add('rank position: base', base(w) + [x >= 0, x < RK(w, 0)], FALSE)
    add('rank position: step', [step(w, n), n >= 0, n < 64, x >= 0, x < RK(w, n + 1), Imp(x < RK(w, n), Z(n, z))], z3.Or(Z(n + 1, z), Z(n + 1, n)))
    # the tails of two words: equal counts above i or a difference; induction downwards on i
    T = lambda m: RK(a, 64) - RK(a, m) == RK(b, 64) - RK(b, m)
    E9 = lambda m, z: z3.And(z >= m, z < 64, BT(a, z) != BT(b, z))
    add('tails: base', [], T(I(64)))
    add('tails: step', [step(a, i), step(b, i), i >= 0, i < 64, z3.Or(T(i + 1), E9(i + 1, z))], z3.Or(T(i), E9(i, z), E9(i, i)))
    # data bits
    S2 = lambda m: RK(D(w), m) == RK(w, m)
    add('data: base', base(D(w), w), S2(I(0))); add('data: step', defs + [step(D(w), n), step(w, n), n >= 0, n < 63, S2(n)], S2(n + 1))
    add('data: last', defs + [step(D(w), I(63)), S2(I(63))], RK(D(w), 64) == RK(w, 63))
    # masked: below n as w, from n on constant
    S3 = lambda m: RK(AND(w, MLO(n)), m) == RK(w, z3.If(m <= n, m, n))
    add('mask: base', base(w, AND(w, MLO(n))) + [n >= 0, n <= 64], S3(I(0)))
    add('mask: step', defs + [step(AND(w, MLO(n)), i), step(w, i), n >= 0, n <= 64, i >= 0, i < 64, S3(i)], S3(i + 1))
    for f, nm, dl in ((SETB, 'set', lambda m: z3.If(z3.And(n < m, Not(BT(w, n))), 1, 0)), (CLRB, 'clear', lambda m: -z3.If(z3.And(n < m, BT(w, n)), 1, 0))):
        S4 = lambda m: RK(f(w, n), m) == RK(w, m) + dl(m)
        add(nm + ': base', base(w, f(w, n)) + [n >= 0, n < 64], S4(I(0)))
        add(nm + ': step', defs + [step(f(w, n), i), step(w, i), n >= 0, n < 64, i >= 0, i < 64, S4(i)], S4(i + 1))
    for c in (0, TOP):
        S5 = lambda m: RK(I(c), m) == (z3.If(m == 64, 1, 0) if c else 0)
        add('constant %d: base' % c, base(I(c)), S5(I(0))); add('constant %d: step' % c, defs + [step(I(c), i), i >= 0, i < 64, S5(i)], S5(i + 1))
    # sums
    W, V = K('W', AI), K('V', AI)
    def cstep(A, m): return Imp(m >= 0, CUM(A, m + 1) == CUM(A, m) + RK(A[m], 63))
    def rk0(A, m): return z3.And(RK(A[m], 63) >= 0)
    add('sums are positive: base', [CUM(W, 0) == 0], CUM(W, 0) >= 0); add('sums are positive: step', [cstep(W, i), rk0(W, i), i >= 0, CUM(W, i) >= 0], CUM(W, i + 1) >= 0)
    add('sums are bounded: base', [CUM(W, 0) == 0], CUM(W, 0) <= 63 * 0); add('sums are bounded: step', [cstep(W, i), RK(W[i], 63) <= 63, i >= 0, CUM(W, i) <= 63 * i], CUM(W, i + 1) <= 63 * (i + 1))
    Z2 = lambda m, z: z3.And(z >= 0, z < m, CUM(W, z) <= x, x < CUM(W, z) + RK(W[z], 63))
    add('word of a one: base', [CUM(W, 0) == 0, x >= 0, x < CUM(W, 0)], FALSE)
    add('word of a one: step', [cstep(W, n), n >= 0, x >= 0, x < CUM(W, n + 1), Imp(x < CUM(W, n), Z2(n, z))], z3.Or(Z2(n + 1, z), Z2(n + 1, n)))
    Q2 = lambda m: CUM(W, i) + RK(W[i], 63) <= CUM(W, m)
    add('sums between: base', [cstep(W, i), i >= 0], Q2(i + 1)); add('sums between: step', [cstep(W, j), rk0(W, j), i >= 0, i < j, Q2(j)], Q2(j + 1))
    E2 = lambda m, z: z3.And(z >= i, z < m, RK(W[z], 63) != 0)
    add('word between: step', [cstep(W, j), i >= 0, i <= j, z3.Or(CUM(W, i) == CUM(W, j), E2(j, z))], z3.Or(CUM(W, i) == CUM(W, j + 1), E2(j + 1, z), E2(j + 1, j)))
    E3 = lambda m, z: z3.And(z >= i, z < m, RK(W[z], 63) != RK(V[z], 63))
    S7 = lambda m: CUM(V, m) - CUM(W, m) == CUM(V, i) - CUM(W, i)
    add('agreement: base', [], S7(i)); add('agreement: step', [cstep(W, j), cstep(V, j), i >= 0, i <= j, z3.Or(S7(j), E3(j, z))], z3.Or(S7(j + 1), E3(j + 1, z), E3(j + 1, j)))
    return out

def axioms():
    return definitions() + rank_defs() + cum_defs() + [f for _, f, _ in derived()]
