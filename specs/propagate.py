"""src/solver/NapSAT-propagation.cpp: unit propagation.

Ghosts: `slot[p][i]`, where clause i is in the watch list of literal p; `bslot`, the same for the binary lists;
`at[i][p]`, where literal p is in clause i; `own[m]`, the clause that owns memory block m.
"""
from ccv.verify import *
from ccv.types import BASIC
from . import trail as TT
from .trail import T, TI, tr, quiet, implying, FREE, LAZY, AR, HR, UNDEF, NOIDX, Q
from .proof import neg
from ccv.core import BXOR, flat_and
A2 = z3.ArraySort(IS, AR)

def axioms():
    a, b = z3.Ints('a b')
    x = BXOR(a, b)
    r = And(a >= 0, a < UNDEF + 1, b >= 0, b < UNDEF + 1)
    return [z3.ForAll([a, b], Imp(r, And(BXOR(x, a) == b, BXOR(x, b) == a)), patterns=[x]),
            z3.ForAll([a, b], And(Imp(And(a == 0, b >= 0), x == b), Imp(And(a == 1, b >= 0), x == neg(b))), patterns=[x])]

class P(T):
    """the state of a solver with its watch lists; `lim`: (p, n): only the first n entries of the list of p count"""
    def __init__(s, t, g, at, lim=None):
        T.__init__(s, t, g('pos'), at)
        eng, st = t.eng, t.st
        u = BASIC['unsigned']
        def leaf(sfx): return eng.get_leaf(st, 'this', sfx, u, ())
        s.L0 = s.L
        s.L = eng.name(at, s.L)
        s.wn, s.bn = t._watches.len, t._binary_watches.len
        s.wl, s.wc, s.wb = leaf('._watches[].len'), leaf('._watches[][].cl.value'), leaf('._watches[][].block.value')
        s.bl, s.bc, s.bb = leaf('._binary_watches[].len'), leaf('._binary_watches[][].cl.value'), leaf('._binary_watches[][].block.value')
        s.wc0 = s.wc
        if lim is not None: s.wl = z3.Store(s.wl, lim[0], lim[1])
        c = t._clauses
        s.ll, s.wd = c.arr_last_looked, c.arr_watched
        s.slot, s.bslot, s.at, s.own = g('slot', A2), g('bslot', A2), g('at', A2), g('own')
        for k in 'wl wc wb bl bc bb ll slot bslot at own'.split(): setattr(s, k, eng.name(at, getattr(s, k)))
        s.fn = t._conflicts.len; s.f = eng.name(at, t._conflicts.arr)
        s.lscb = t._options.lazy_strong_chronological_backtracking
    def W(s, p, k): return z3.Select(z3.Select(s.wc, p), k)
    def B(s, p, k): return z3.Select(z3.Select(s.wb, p), k)
    def W2(s, p, k): return z3.Select(z3.Select(s.bc, p), k)
    def B2(s, p, k): return z3.Select(z3.Select(s.bb, p), k)
    def S(s, p, i): return z3.Select(z3.Select(s.slot, p), i)
    def S2(s, p, i): return z3.Select(z3.Select(s.bslot, p), i)
    def where(s, i, p): return z3.Select(z3.Select(s.at, i), p)
    def true(s, p): return And(p >= 2, p / 2 < s.vn, s.st[p / 2] == p % 2)
    def live(s, i): return And(s.ok(i), s.dl[i] == 0)
    def has(s, i, p): return And(s.where(i, p) >= 0, s.where(i, p) < s.sz[i], s.lit(i, s.where(i, p)) == p)
    def other(s, i, p): return z3.If(s.lit(i, I(0)) == p, s.lit(i, I(1)), s.lit(i, I(0)))
    def literal(s, p): return And(p >= 2, p / 2 < s.vn)
    def low(s, q, p): return Imp(s.lscb, Or(s.lv[q / 2] <= s.lv[p / 2], And(s.lz[q / 2] != UNDEF, s.top(s.lz[q / 2]) <= s.lv[p / 2])))
    def covered(s, p, q, b): return Or(And(s.true(q), s.low(q, p)), And(s.true(b), Imp(s.lscb, s.lv[b / 2] <= s.lv[p / 2])))

def pr(c, o=False, lim=None):
    g = c.oghost if o else c.ghost_get
    return P(c.othis if o else c.this, lambda n, so=AR: g(n, so), c.st, lim)

def held(s):
    """clauses"""
    return [('clauses do not share literals', FA('i', lambda i: Imp(s.live(i), s.own[s.ref[i]] == i), lambda i: [s.ref[i]])),
            ('literals of clauses', FA('i k', lambda i, k: Imp(And(s.live(i), k >= 0, k < s.sz[i]), And(s.literal(s.lit(i, k)), s.where(i, s.lit(i, k)) == k)), lambda i, k: [s.lit(i, k)])),
            ('the search position', FA('i', lambda i: Imp(And(s.live(i), s.sz[i] > 2), And(s.ll[i] >= 1, s.ll[i] <= s.ln[s.ref[i]])), lambda i: [s.ll[i]])),
            ('literals dropped from a clause are false', FA('i k', lambda i, k: Imp(And(s.live(i), s.sz[i] > 2, k >= s.sz[i], k < s.ll[i]), s.false(s.lit(i, k))), lambda i, k: [s.lit(i, k)]))]

def watched(s):
    """watch lists"""
    return [('a list for every literal', And(s.wn == 2 * s.vn, s.bn == 2 * s.vn)),
            ('lengths', FA('p', lambda p: Imp(And(p >= 2, p / 2 < s.vn), s.wl[p] >= 0), lambda p: [s.wl[p]])),
            ('watch lists hold clauses', FA('p k', lambda p, k: Imp(And(s.literal(p), k >= 0, k < s.wl[p]), And(s.live(s.W(p, k)), s.sz[s.W(p, k)] > 2, s.S(p, s.W(p, k)) == k)), lambda p, k: [s.W(p, k)])),
            ('clauses are in the lists of their first two literals', FA('p k', lambda p, k: Imp(And(s.literal(p), k >= 0, k < s.wl[p]), Or(s.lit(s.W(p, k), I(0)) == p, s.lit(s.W(p, k), I(1)) == p)), lambda p, k: [s.W(p, k)])),
            ('blocking literals are in the clause', FA('p k', lambda p, k: Imp(And(s.literal(p), k >= 0, k < s.wl[p]), And(s.literal(s.B(p, k)), s.has(s.W(p, k), s.B(p, k)))), lambda p, k: [s.B(p, k)])),
            ('the first two literals are watched', FA('i', lambda i: Imp(And(s.live(i), s.sz[i] > 2), And([And(s.S(s.lit(i, I(j)), i) >= 0, s.S(s.lit(i, I(j)), i) < s.wl[s.lit(i, I(j))], s.W(s.lit(i, I(j)), s.S(s.lit(i, I(j)), i)) == i) for j in (0, 1)])), lambda i: [s.ref[i]]))]

def binary(s):
    return [('binary watch lists hold clauses', FA('p k', lambda p, k: Imp(And(s.literal(p), k >= 0, k < s.bl[p]), And(s.live(s.W2(p, k)), s.sz[s.W2(p, k)] == 2, Or(And(s.lit(s.W2(p, k), I(0)) == p, s.lit(s.W2(p, k), I(1)) == s.B2(p, k)), And(s.lit(s.W2(p, k), I(1)) == p, s.lit(s.W2(p, k), I(0)) == s.B2(p, k))))), lambda p, k: [s.W2(p, k)])),
            ('binary clauses are watched', FA('i', lambda i: Imp(And(s.live(i), s.sz[i] == 2), And([And(s.S2(s.lit(i, I(j)), i) >= 0, s.S2(s.lit(i, I(j)), i) < s.bl[s.lit(i, I(j))], s.W2(s.lit(i, I(j)), s.S2(s.lit(i, I(j)), i)) == i) for j in (0, 1)])), lambda i: [s.ref[i]]))]

def complete(s):
    """nothing was missed for the propagated literals"""
    def f(p): return And(s.literal(p), s.false(p), s.pr[p / 2] != 0)
    return [('clauses of propagated literals are covered', FA('p k', lambda p, k: Imp(And(f(p), k >= 0, k < s.wl[p]), s.covered(p, s.other(s.W(p, k), p), s.B(p, k))), lambda p, k: [s.W(p, k)])),
            ('binary clauses of propagated literals are covered', FA('p k', lambda p, k: Imp(And(f(p), k >= 0, k < s.bl[p]), And(s.true(s.B2(p, k)), s.low(s.B2(p, k), p))), lambda p, k: [s.W2(p, k), s.B2(p, k)]))]

def grows(s, o):
    """the trail is only extended, clauses keep their literals"""
    return [('the literals on the trail stay', And(s.tn >= o.tn, s.dn == o.dn, s.np == o.np, FA('k', lambda k: Imp(And(k >= 0, k < o.tn), s.t[k] == o.t[k]), lambda k: [s.t[k], o.t[k]]))),
            ('assigned variables stay', FA('v', lambda v: Imp(And(s.var(v), o.st[v] != FREE), And(s.st[v] == o.st[v], s.lv[v] == o.lv[v], s.re[v] == o.re[v], s.pr[v] == o.pr[v])), lambda v: [s.st[v], o.st[v]])),
            ('clauses keep their literals', FA('i k', lambda i, k: Imp(And(s.live(i), k >= 0, k < s.sz[i]), s.has(i, o.lit(i, k))), lambda i, k: [o.lit(i, k)]))]

def conflicts(s):
    return [('conflicts are falsified clauses', FA('k', lambda k: Imp(And(k >= 0, k < s.fn), s.live(s.f[k])), lambda k: [s.f[k]])),
            ('every literal of a conflict is false, the first at the highest level', FA('k j', lambda k, j: Imp(And(k >= 0, k < s.fn, j >= 0, j < s.sz[s.f[k]]), And(s.false(s.lit(s.f[k], j)), s.lv[s.lit(s.f[k], j) / 2] <= s.lv[s.lit(s.f[k], I(0)) / 2])), lambda k, j: [s.lit(s.f[k], j)]))]

def build(prop):
    V, L = TT.build(prop, extra=('src/solver/NapSAT-propagation.cpp',))
    V.axioms = list(V.axioms) + axioms()
    V.cfg['memo_names'] = True
    for k in ('slot', 'bslot', 'at'): V.ghost_sorts[k] = A2
    V.ghost_sorts['own'] = AR
    u = BASIC['unsigned']
    L = []
    def add(c): V.add(c); L.append(c); return c
    # ---------------------------------------------------------------- quick_replacement
    def qr_req(c):
        s, i = pr(c), c.arg('cl')
        return [('a clause', And(s.live(i), s.sz[i] > 2, s.sz[i] < NOIDX, s.off[i] == 0, s.ref[i] > 0, s.al[s.ref[i]], s.ln[s.ref[i]] >= s.sz[i])), ('its literals', FA('k', lambda k: Imp(And(k >= 0, k < s.sz[i]), s.literal(s.lit(i, k))), lambda k: [s.lit(i, k)])),
                ('the second literal is false', s.false(s.lit(i, I(1)))), ('the search position', And(s.ll[i] >= 1, s.ll[i] <= s.ln[s.ref[i]])),
                ('dropped literals are false', FA('k', lambda k: Imp(And(k >= s.sz[i], k < s.ll[i]), s.false(s.lit(i, k))), lambda k: [s.lit(i, k)])), ('sizes', And(s.vn < NOIDX, s.cn < NOIDX))]
    def found(s, i, r): return Or(And(r >= 2, r < s.sz[i], z3.Not(s.false(s.lit(i, r)))), r == 1)
    def qr_ens(c):
        s, o, i, r = pr(c), pr(c, True), c.arg('cl'), c.res
        return [('a literal of the clause', And(r.cont.idx[0] == s.ref[i], found(s, i, r.off))),
                ('none when all are false', Imp(r.off == 1, FA('k', lambda k: Imp(And(k >= 1, k < s.sz[i]), s.false(s.lit(i, k))), lambda k: [s.lit(i, k)]))),
                ('the search position', And(s.ll[i] >= 1, Or(s.ll[i] <= s.sz[i], s.ll[i] <= o.ll[i]))),
                ('other clauses keep theirs', FA('j', lambda j: Imp(j != i, s.ll[j] == o.ll[j]), lambda j: [s.ll[j]]))]
    def qr0(c):
        s, o, i = pr(c), pr(c, True), c.arg('cl')
        return [('bounds', And(s.ll[i] >= o.ll[i], Or(s.ll[i] <= s.sz[i], s.ll[i] == o.ll[i]))), ('other clauses keep theirs', FA('j', lambda j: Imp(j != i, s.ll[j] == o.ll[j]), lambda j: [s.ll[j]])),
                ('false so far', FA('k', lambda k: Imp(And(k >= o.ll[i], k < s.ll[i]), s.false(s.lit(i, k))), lambda k: [s.lit(i, k)]))]
    def qr1(c):
        s, o, i = pr(c), pr(c, True), c.arg('cl')
        return [('bounds', And(s.ll[i] >= 2, Or(s.ll[i] == 2, s.ll[i] <= o.ll[i]))), ('other clauses keep theirs', FA('j', lambda j: Imp(j != i, s.ll[j] == o.ll[j]), lambda j: [s.ll[j]])),
                ('false so far', FA('k', lambda k: Imp(And(k >= 2, k < s.ll[i]), s.false(s.lit(i, k))), lambda k: [s.lit(i, k)]))]
    def lk(e):
        l = {sf: ty for sf, ty, d in e.leaves(TStruct(e.U.recq['napsat::NapSAT']))}
        e.modinfo[('this', '._clauses[].last_looked')] = (l['._clauses[].last_looked'], None)
        return [('this', '._clauses[].last_looked')]
    add(Contract(Q + 'quick_replacement', qr_req, qr_ens, {0: LoopSpec(qr0, dec=lambda c: pr(c).sz[c.arg('cl')] - pr(c).ll[c.arg('cl')]), 1: LoopSpec(qr1, dec=lambda c: pr(c, True).ll[c.arg('cl')] - pr(c).ll[c.arg('cl')])}, names=['cl'], modifies=[lk]))
    # ---------------------------------------------------------------- advanced_level_replacement
    def ar_req(c):
        s, a, n = pr(c), c.arg('lits'), c.arg('size')
        return [('a clause', And(a.off == 0, a.ref > 0, s.al[a.ref], s.ln[a.ref] >= n, n > 2, n < NOIDX)), ('sizes', s.vn < NOIDX),
                ('literals', FA('k', lambda k: Imp(And(k >= 1, k < n), s.literal(s.L[a.ref][k])), lambda k: [s.L[a.ref][k]]))]
    def ar_ens(c):
        s, a, n, r = pr(c), c.arg('lits'), c.arg('size'), c.res
        x = s.x._options
        l = lambda k: s.lv[s.L[a.ref][k] / 2]
        return [('a literal but the first', And(r.cont.idx[0] == a.ref, r.off >= 1, r.off < n)),
                ('the second one without chronological backtracking', Imp(And(z3.Not(x.chronological_backtracking), z3.Not(x.graph_backtracking)), r.off == 1)),
                ('the highest level', Imp(x.chronological_backtracking, FA('k', lambda k: Imp(And(k >= 1, k < n), l(k) <= l(r.off)), lambda k: [s.L[a.ref][k]]))),
                ('another one only if it is higher', Or(r.off == 1, l(r.off) > l(I(1))))]
    def ar0(c):
        s, a, n, k, h = pr(c), c.arg('lits'), c.arg('size'), c['k'], c['high_lit']
        l = lambda k: s.lv[s.L[a.ref][k] / 2]
        return [('bounds', And(k.off >= 2, k.off <= n, k.ref == a.ref, h.ref == a.ref, h.off >= 1, h.off < k.off, c['high_lvl'] == l(h.off))),
                ('highest so far', FA('j', lambda j: Imp(And(j >= 1, j < k.off), l(j) <= l(h.off)), lambda j: [s.L[a.ref][j]])), ('strictly', Or(h.off == 1, l(h.off) > l(I(1))))]
    add(Contract(Q + 'advanced_level_replacement', ar_req, ar_ens, {0: LoopSpec(ar0, dec=lambda c: c.arg('size') - c['k'].off)}, names=['lits', 'size'], modifies=[]))
    # ---------------------------------------------------------------- propagate_binary_clauses
    def pre(s): return quiet(s) + TI(s) + held(s) + watched(s) + binary(s) + [('buffers are empty', And(s.x._backtracked_variables.len == 0, s.x._reimplication_backtrack_buffer.len == 0))]
    def start(c, lit):
        s = pr(c)
        return pre(s) + complete(s) + [('the first literal that waits for propagation', And(s.np < s.tn, s.t[s.np] == lit)), ('no conflict is pending', s.fn == 0)]
    def bin_covered(s, p, n): return FA('k', lambda k: Imp(And(k >= 0, k < n), And(s.true(s.B2(p, k)), s.low(s.B2(p, k), p))), lambda k: [s.W2(p, k), s.B2(p, k)])
    def lists_stay(s, o): return ('watch lists stay', And(s.wl == o.wl, s.wc == o.wc, s.wb == o.wb))
    def pb_req(c): return start(c, c.arg('lit'))
    def pb_ens(c):
        s, o, l = pr(c), pr(c, True), c.arg('lit'); p = neg(l)
        return pre(s) + complete(s) + grows(s, o) + conflicts(s) + [('at most one conflict', s.fn <= 1), ('without a conflict every binary clause of the literal is covered', Imp(s.fn == 0, bin_covered(s, p, s.bl[p])))]
    def pb0(c):
        s, o, i, l = pr(c), pr(c, True), c['$i'], c['c1']
        return pre(s) + complete(s) + grows(s, o) + [('bounds', And(i >= 0, i <= s.bl[l])), ('the literal is false', And(l == neg(c.arg('lit')), s.false(l), s.lv[l / 2] >= 0, s.lv[l / 2] <= s.dn, s.pr[l / 2] == 0)),
                ('at the current level without chronological backtracking', Imp(z3.Not(s.x._options.chronological_backtracking), s.lv[l / 2] == s.dn)), ('no conflict so far', s.fn == 0), ('covered so far', bin_covered(s, l, i))]
    def front(b, x, y, row):
        """row: where the literals are, once x and y were put in front"""
        return FA('p', lambda p: row[p] == z3.If(p == x, I(0), z3.If(p == y, I(1), b[p])), lambda p: [row[p]])
    def learned(c):
        """what this iteration found out"""
        r = []; n = c.st.pc
        while n is not None and n is not c.head.pc:
            if not n.qf: r.append(n.f)
            n = n.up
        return r + [c.headinv[n] for n in ('literals of clauses', 'states', 'clauses own their literals', 'levels', 'assigned variables are on the trail')]
    def steady(c, s, h, cl):
        """an iteration about clause cl leaves the rest as it was"""
        K = {}
        def lemma(n, f): K[n] = c.oblige(f, n)
        lemma('other clauses are untouched', FA('i', lambda i: Imp(And(s.live(i), i != cl), s.row(i) == h.row(i)), lambda i: [s.row(i)]))
        lemma('assigned variables stay as they are', FA('v', lambda v: Imp(And(s.var(v), h.st[v] != FREE), And(s.st[v] == h.st[v], s.lv[v] == h.lv[v], s.re[v] == h.re[v], s.pr[v] == h.pr[v])), lambda v: [s.st[v], h.st[v], s.lv[v]]))
        c.oblige(FA('v', lambda v: Imp(And(s.var(v), h.st[v] != FREE, h.lz[v] != UNDEF, h.lz[v] != cl), s.top(h.lz[v]) == h.top(h.lz[v])), lambda v: [h.lz[v]]), 'missed implications by other clauses stay where they are')
        c.oblige(FA('v', lambda v: Imp(And(s.var(v), h.st[v] != FREE, h.lz[v] == cl), s.top(cl) <= h.top(cl)), lambda v: [h.lz[v]]), 'missed implications by the clause at hand are no higher')
        lemma('missed implications are no higher', FA('v', lambda v: Imp(And(s.var(v), h.st[v] != FREE, s.lscb, h.lz[v] != UNDEF), And(s.lz[v] != UNDEF, s.top(s.lz[v]) <= h.top(h.lz[v]))), lambda v: [h.lz[v], s.lz[v]]))
        lemma('other search positions are kept', FA('i', lambda i: Imp(i != cl, s.ll[i] == h.ll[i]), lambda i: [s.ll[i]]))
        lemma('newly assigned variables are not propagated', FA('v', lambda v: Imp(And(s.var(v), h.st[v] == FREE), s.pr[v] == 0), lambda v: [s.st[v], h.st[v], s.pr[v]]))
        return K
    def splitter(c, F):
        """one obligation for each case and part of a quantified one; cases: (name, condition[, facts])"""
        def split(n, *cases, only=None):
            f0 = F[n]; known = []; vs = [z3.Const('s!%d' % k, f0.var_sort(k)) for k in range(f0.num_vars())]
            pats = [z3.substitute_vars(f0.pattern(k).arg(0), *reversed(vs)) for k in range(f0.num_patterns())]
            body = z3.substitute_vars(f0.body(), *reversed(vs))
            hyp, con = (body.arg(0), body.arg(1)) if z3.is_implies(body) else (TRUE, body)
            rest = TRUE
            for cn, cond, *by in list(cases) + [('the others', None, only)]:
                k = rest if cond is None else And(rest, cond(*vs))
                if cond is not None: rest = And(rest, z3.Not(cond(*vs)))
                for f in flat_and(con): known.append(c.oblige(z3.ForAll(vs, Imp(And(k, hyp), f), patterns=pats), n + ': ' + cn, only=by[0] if by else None))
            c.oblige(f0, n, only=known)
        return split
    def head(c): return P(mkview(c.eng, c.head, c.thisp), lambda n, so=AR: c.ghost_get(n, so), c.st)
    def pb0_end(c, returns=False):
        h, s, o, HI, l = head(c), pr(c), pr(c, True), c.headinv, c['c1']
        nm = lambda f: c.eng.name(c.st, f)
        cl = nm(h.W2(l, c['$i'] - (0 if returns else 1)))
        if s.L0.eq(h.L0) and not returns: return
        x, y = nm(s.lit(cl, I(0))), nm(s.lit(cl, I(1)))
        fresh = learned(c) + [HI['binary watch lists hold clauses']]
        for f in (s.literal(x), s.literal(y), Or(And(x == h.lit(cl, I(0)), y == h.lit(cl, I(1))), And(y == h.lit(cl, I(0)), x == h.lit(cl, I(1))))): c.oblige(f, 'the literals of the clause at hand')
        if returns:
            for f in (s.false(x), s.false(y), s.lv[y / 2] <= s.lv[x / 2]): c.oblige(f, 'the clause at hand is false', only=fresh)
            c.oblige(And(s.fn == 1, s.f[0] == cl, s.sz[cl] == 2), 'the conflict is the clause at hand', only=fresh)
        K = steady(c, s, h, cl)
        row = c.eng.fresh('atr', AR); A = nm(z3.Select(s.at, cl)); d = front(A, x, y, row)
        c.eng.assume(c.st, d, 'def')
        c.ghost_set('at', nm(z3.Store(s.at, cl, row)))
        t = pr(c)
        F = {n: f for n, f in held(t) + watched(t) + binary(t) + complete(t) + grows(t, o) + conflicts(t)}
        split = splitter(c, F)
        only = list(K.values()) + [HI[n] for n, f in held(t) + watched(t) + binary(t) + complete(t) if z3.is_quantifier(f)] + [HI['states']]
        split('literals of clauses', ('the clause at hand', lambda i, k: i == cl), only=only + [d])
        split('clauses keep their literals', ('the clause at hand', lambda i, k: i == cl), only=only + [d, HI['clauses keep their literals']])
        split('clauses of propagated literals are covered', only=only + [d])
        split('blocking literals are in the clause', only=only + [d])
        split('binary watch lists hold clauses', ('the clause at hand', lambda p, k: t.W2(p, k) == cl), only=only)
        if returns: split(conflicts(t)[1][0], only=[])
    def at_level(c):
        s = pr(c)
        c.oblige(Imp(s.dn > 0, s.di[s.dn - 1] <= s.np), 'the last decision is propagated or first in the queue')
    add(Contract(Q + 'propagate_binary_clauses', pb_req, pb_ens, entry=at_level, loops={0: LoopSpec(pb0, end=pb0_end, ret=lambda c: pb0_end(c, True), forget=True)}, names=['lit']))
    # ---------------------------------------------------------------- propagate_lit
    lengths = []
    def reason(c, a):
        """the clause at hand becomes a reason"""
        s = tr(c); p = neg(c.arg('lit'))
        for n, f in implying(s, a.arg('reason'), I(0))[1:]: c.oblige(f, n, only=learned(c) + [c.headinv['the search position']])
    def repair(c, returns=False):
        """the clause at hand may have changed its first two literals, and left the list of p for another one"""
        nm = lambda f: c.eng.name(c.st, f)
        p = nm(neg(c.arg('lit')))
        h, s = head(c), pr(c)
        i = mkview(c.eng, c.head, c.path('i')).off
        cl = nm(h.W(p, i))
        if s.L0.eq(h.L0): return
        HI = c.headinv; fresh = learned(c)
        c.oblige(And(s.live(cl), s.own[s.ref[cl]] == cl, s.ref[cl] > 0, s.sz[cl] > 2), 'the clause at hand')
        K = steady(c, s, h, cl)
        def lemma(n, f): K[n] = c.oblige(f, n)
        A = nm(z3.Select(s.at, cl)); x, y = nm(s.lit(cl, I(0))), nm(s.lit(cl, I(1)))
        gone = nm(And(x != p, y != p)); new = nm(z3.If(A[x] >= 2, x, y)); idx = nm(A[new]); c2 = nm(z3.If(A[x] >= 2, y, x))
        row = c.eng.fresh('atr', AR)
        d = FA('q', lambda q: row[q] == z3.If(q == x, I(0), z3.If(q == y, I(1), z3.If(And(gone, q == p), idx, A[q]))), lambda q: [row[q]])
        c.eng.assume(c.st, d, 'def')
        c.ghost_set('at', nm(z3.Store(s.at, cl, row)))
        moves = not s.wc0.eq(h.wc0)
        if moves:
            m = nm(s.W(p, i))
            a = nm(z3.Store(z3.Select(s.slot, p), m, i)); b = nm(z3.Store(z3.Select(s.slot, new), cl, s.wl[new] - 1))
            c.ghost_set('slot', nm(z3.If(gone, z3.Store(z3.Store(s.slot, p, a), new, b), s.slot)))
            for f in (x != p, y != p, gone, new != p, s.literal(x), s.literal(y)): c.oblige(f, 'the clause is watched by another literal', only=fresh + [HI['clauses are in the lists of their first two literals']])
            c.oblige(s.literal(new), 'the clause is watched by another literal', only=[])
            for f in (s.wl[new] == h.wl[new] + 1, s.W(new, h.wl[new]) == cl, s.B(new, h.wl[new]) == c2): c.oblige(f, 'the clause is watched by another literal', only=fresh + [HI['clauses are in the lists of their first two literals']])
            lemma('other lists are untouched', FA('q k', lambda q, k: Imp(And(q != p, Or(q != new, k != h.wl[new])), And(s.W(q, k) == h.W(q, k), s.B(q, k) == h.B(q, k))), lambda q, k: [s.W(q, k), s.B(q, k)]))
            z = pr(c)
            lemma('other positions are kept', FA('q i', lambda q, i: Imp(And(z3.Not(And(q == p, i == m)), z3.Not(And(q == new, i == cl))), z.S(q, i) == h.S(q, i)), lambda q, i: [z.S(q, i)]))
            lemma('other lengths are kept', FA('q', lambda q: Imp(And(q != p, q != new), s.wl[q] == h.wl[q]), lambda q: [s.wl[q]]))
            lemma('the rest of the list is untouched', FA('k', lambda k: Imp(k != i, And(s.W(p, k) == h.W(p, k), s.B(p, k) == h.B(p, k))), lambda k: [s.W(p, k), s.B(p, k)]))
        t = pr(c, lim=(p, c['end'].off)); o = pr(c, True)
        F = {n: f for n, f in held(t) + watched(t) + binary(t) + complete(t) + grows(t, o)}
        F['covered so far'] = wat_covered(t, p, c['i'].off)
        split = splitter(c, F)
        lengths.append(HI['lengths'])
        at_hand = ('the clause at hand', lambda q, k: t.W(q, k) == cl)
        lists = list(K.values()) + [HI[n] for n, f in held(t) + watched(t) if z3.is_quantifier(f)]
        if moves:
            split('watch lists hold clauses', ('the list left', lambda q, k: q == p), ('the list joined', lambda q, k: q == new))
            split('clauses are in the lists of their first two literals', ('the list left', lambda q, k: q == p), ('the list joined', lambda q, k: q == new))
            split('the first two literals are watched', ('the clause at hand', lambda i: i == cl, fresh + [d] + lists), ('the clause moved', lambda i: i == m), only=lists)
        split('blocking literals are in the clause', at_hand)
        c.oblige(t.wl[p] >= 0, 'the list left has a length')
        c.oblige(FA('q', lambda q: Imp(And(t.literal(q), q != p), t.wl[q] >= 0), lambda q: [t.wl[q]]), 'lengths of the others', only=lists)
        split('literals of clauses', ('the clause at hand', lambda i, k: i == cl), only=[K['other clauses are untouched'], HI['literals of clauses'], d])
        f = [K['other search positions are kept'], K['other clauses are untouched'], K['assigned variables stay as they are'], HI['states'], HI['literals of clauses'], HI['literals dropped from a clause are false'], HI['binary watch lists hold clauses'], HI['binary clauses are watched']]
        split('literals dropped from a clause are false', ('the clause at hand', lambda i, k: i == cl), only=f)
        split('binary watch lists hold clauses', only=f); split('binary clauses are watched', only=f)
        split('clauses keep their literals', ('the clause at hand', lambda i, k: i == cl), only=[K['other clauses are untouched'], HI['clauses keep their literals'], d])
        if not returns:
            split('clauses of propagated literals are covered', ('the clause at hand, for its new literal', lambda q, k: And(t.W(q, k) == cl, q == new), fresh + lists + [d]), at_hand, only=lists + [HI['states'], HI['clauses of propagated literals are covered']])
            split('covered so far', ('those covered before', lambda k: k < i, lists + [HI['states'], HI['covered so far']]), only=None if s.ll.eq(h.ll) else fresh + lists + [d])
        else:
            for f in (t.literal(x), t.literal(y), Or(x == p, y == p, x == new, y == new), t.false(p)): c.oblige(f, 'the first literals of the clause at hand are false')
            for f in (t.false(c2), t.false(new), t.false(x), t.false(y)): c.oblige(f, 'the first literals of the clause at hand are false', only=fresh)
            c.oblige(FA('j', lambda j: Imp(And(j >= 2, j < t.sz[cl]), t.false(t.lit(cl, j))), lambda j: [t.lit(cl, j)]), 'the others of the clause at hand are false', only=fresh)
            c.oblige(FA('j', lambda j: Imp(And(j >= 0, j < t.sz[cl]), t.false(t.lit(cl, j))), lambda j: [t.lit(cl, j)]), 'every literal of the clause at hand is false')
            c.oblige(t.lv[y / 2] <= t.lv[x / 2], 'the first literal of the clause at hand is the higher one', only=fresh)
            c.oblige(FA('j', lambda j: Imp(And(j >= 2, j < t.sz[cl]), t.lv[t.lit(cl, j) / 2] <= t.lv[x / 2]), lambda j: [t.lit(cl, j)]), 'the first literal of the clause at hand is the highest', only=fresh + [HI['levels'], HI['assigned variables are on the trail'], HI['clauses are in the lists of their first two literals']])
            c.oblige(FA('j', lambda j: Imp(And(j >= 0, j < t.sz[cl]), t.lv[t.lit(cl, j) / 2] <= t.lv[x / 2]), lambda j: [t.lit(cl, j)]), 'the first literal of the clause at hand is the highest')
            c.oblige(And(t.fn == 1, t.f[0] == cl), 'the conflict is the clause at hand')
    def wat_covered(s, p, n): return FA('k', lambda k: Imp(And(k >= 0, k < n), s.covered(p, s.other(s.W(p, k), p), s.B(p, k))), lambda k: [s.W(p, k), s.B(p, k)])
    def pl_hint(c):
        s = pr(c); p = c.eng.name(c.st, neg(c.arg('lit')))
        c.oblige(s.wl[p] >= 0, 'the list of the literal has a length')
        c.oblige(FA('q', lambda q: Imp(And(s.literal(q), q != p), s.wl[q] >= 0), lambda q: [s.wl[q]]), 'other lists have a length', only=[f for f in c.st.facts() if any(f is g for g in lengths)])
        return []
    def pl_ens(c):
        s, o, l = pr(c), pr(c, True), c.arg('lit'); p = neg(l)
        return pre(s) + grows(s, o) + conflicts(s) + [('at most one conflict', s.fn <= 1), ('without a conflict every binary clause of the literal is covered', Imp(s.fn == 0, bin_covered(s, p, s.bl[p]))),
                ('without a conflict every clause watched by the literal is covered', Imp(s.fn == 0, wat_covered(s, p, s.wl[p])))] + [('without a conflict ' + n, Imp(s.fn == 0, f)) for n, f in complete(s)]
    def pl0(c):
        o, i, e = pr(c, True), c['i'].off, c['end'].off
        p = c.eng.name(c.st, neg(c.arg('lit')))
        s = pr(c, lim=(p, e)); r = pr(c)
        return pre(s) + complete(s) + grows(s, o) + [('bounds', And(i >= 0, i <= e, e <= r.wl[p])), ('the literal is false', And(p >= 2, p / 2 < s.vn, p == neg(c.arg('lit')), s.false(p), s.lv[p / 2] >= 0, s.lv[p / 2] <= s.dn, s.pr[p / 2] == 0)),
                ('the level of the literal', c['c1_lvl'] == s.lv[p / 2]),
                ('at the current level without chronological backtracking', Imp(z3.Not(s.x._options.chronological_backtracking), s.lv[p / 2] == s.dn)), ('no conflict so far', s.fn == 0),
                ('binary clauses are covered', bin_covered(s, p, s.bl[p])), ('covered so far', wat_covered(s, p, i))]
    add(Contract(Q + 'propagate_lit', pb_req, pl_ens, calls={'imply_literal': reason, 'reimply_literal': reason}, hints=pl_hint, entry=at_level, loops={0: LoopSpec(pl0, end=repair, ret=lambda c: repair(c, True), forget=True, dec=lambda c: c['end'].off - c['i'].off)}, names=['lit']))
    return V, L
