"""src/solver/NapSAT-imply.cpp, NapSAT-backtrack.cpp, NapSAT.cpp: the trail.

Ghost `pos`: the position of every assigned variable on the trail.
"""
from ccv.verify import *
from ccv.types import BASIC
from . import heap as H
from .solver import leaves_of, HEAP
from .proof import AR, HR, UNDEF, NOIDX
Q = 'napsat::NapSAT::'
LAZY = 0xfffffffe
SAT, UNKNOWN = 0, 2
FREE = 2                     # Tval::UNDEF

class T:
    """the state of a solver"""
    def __init__(s, t, pos, at):
        eng, st = t.eng, t.st
        v = t._vars
        s.vn, s.st, s.pr, s.co, s.sy = v.len, v.arr_state, v.arr_propagated, v.arr_constrained, v.arr_synced
        s.lv, s.re, s.lz = getattr(v, 'arr_level.value'), getattr(v, 'arr_reason.value'), getattr(v, 'arr_missed_lower_implication.value')
        s.tn, s.t = t._trail.len, t._trail.arr
        s.dn, s.di = t._decision_index.len, t._decision_index.arr
        s.np = t._n_propagated_lits
        c = t._clauses
        s.cn, s.sz, s.dl = c.len, c.arr_size, c.arr_deleted
        s.ref, s.off = getattr(c, 'arr_lits.ref'), getattr(c, 'arr_lits.off')
        s.L = eng.get_leaf(st, HR, '.value', BASIC['unsigned'], ())
        s.al, s.ln = eng.heap_leaf(st, HR, 'alive'), eng.heap_leaf(st, HR, 'len')
        s.h = t._variable_heap
        s.pos = pos
        s.hn, s.hx = s.h._index.len, s.h._index.arr
        s.x = t
        for k in 'st pr co sy lv re lz t di pos hx'.split():
            if getattr(s, k) is not None: setattr(s, k, eng.name(at, getattr(s, k)))
    def row(s, i): return z3.Select(s.L, s.ref[i])
    def lit(s, i, k): return z3.Select(s.row(i), k)
    def mem(s, k): return And(k >= 0, k < s.hn, s.hx[k] != UNDEF)                          # the heap holds variable k
    def ok(s, i): return And(i >= 0, i < s.cn)
    def var(s, v): return And(v >= 0, v < s.vn)
    def false(s, p): return And(p >= 2, p / 2 < s.vn, s.st[p / 2] == 1 - p % 2)
    def top(s, i): return z3.If(s.sz[i] == 1, I(0), s.lv[s.lit(i, I(1)) / 2])                # the level a clause implies its first literal at
    def same(s, o, v): return And(s.st[v] == o.st[v], s.lv[v] == o.lv[v], s.re[v] == o.re[v], s.lz[v] == o.lz[v], s.pr[v] == o.pr[v])
    def free(s, v): return And(s.st[v] == FREE, s.lv[v] == UNDEF, s.re[v] == UNDEF, s.lz[v] == UNDEF, s.pr[v] == 0)

def tr(c, o=False): return T(c.othis if o else c.this, (c.oghost if o else c.ghost_get)('pos', AR), c.st)

def about(c, *names):
    """the quantified facts that speak of these"""
    def consts(f, seen, out):
        if f.get_id() in seen: return
        seen.add(f.get_id())
        if z3.is_quantifier(f): return consts(f.body(), seen, out)
        if z3.is_app(f) and f.num_args() == 0: out.add(f.decl().name())
        for a in f.children(): consts(a, seen, out)
    r = []
    for f in c.st.facts():
        if has_quant(f):
            out = set(); consts(f, set(), out)
            if any(n in x for n in names for x in out): r.append(f)
    return r

def quiet(s):
    x = s.x
    return [('no observer', And(x._sentinel == 0, x._statistics == 0)), ('no proof recording', x._proof == 0),
            ('not graph backtracking', z3.Not(x._options.graph_backtracking))]

def clauses(s):
    return [('clauses own their literals', FA('i', lambda i: Imp(And(s.ok(i), s.dl[i] == 0), And(s.sz[i] >= 1, s.sz[i] < NOIDX, s.off[i] == 0, s.ref[i] > 0, s.al[s.ref[i]], s.ln[s.ref[i]] >= s.sz[i])), lambda i: [s.sz[i], s.ref[i]]))]

def on_trail(s):
    t = s.t
    return [('sizes', And(s.tn >= 0, s.tn < s.vn, s.vn < NOIDX, s.cn >= 0, s.cn < NOIDX, s.dn >= 0, s.dn <= s.tn, s.np >= 0, s.np <= s.tn)),
            ('literals on the trail are assigned', FA('k', lambda k: Imp(And(k >= 0, k < s.tn), And(t[k] >= 2, t[k] / 2 < s.vn, s.pos[t[k] / 2] == k, s.st[t[k] / 2] == t[k] % 2)), lambda k: [t[k]])),
            ('assigned variables are on the trail', FA('v', lambda v: Imp(And(s.var(v), s.st[v] != FREE), And(s.pos[v] >= 0, s.pos[v] < s.tn, t[s.pos[v]] / 2 == v)), lambda v: [s.st[v]]))]

def levels(s):
    t = s.t
    return [('levels', FA('k', lambda k: Imp(And(k >= 0, k < s.tn), And(s.lv[t[k] / 2] >= 0, s.lv[t[k] / 2] <= s.dn)), lambda k: [t[k]])),
            ('decision positions', FA('l', lambda l: Imp(And(l >= 0, l < s.dn), And(s.di[l] >= l, s.di[l] < s.tn, s.di[l] <= s.np)), lambda l: [s.di[l]])),
            ('decision positions grow', FA('a b', lambda a, b: Imp(And(a >= 0, a < b, b < s.dn), s.di[a] < s.di[b]), lambda a, b: [(s.di[a], s.di[b])])),
            ('decisions open their levels', FA('l', lambda l: Imp(And(l >= 0, l < s.dn), And(s.lv[t[s.di[l]] / 2] == l + 1, s.re[t[s.di[l]] / 2] == UNDEF)), lambda l: [s.di[l]])),
            ('literals before a decision have lower levels', FA('k m', lambda k, m: Imp(And(k >= 0, k < s.tn, m >= 0, m < s.dn, k < s.di[m]), s.lv[t[k] / 2] <= m), lambda k, m: [(t[k], s.di[m])])),
            ('literals without a reason are not at the root level', FA('k', lambda k: Imp(And(k >= 0, k < s.tn, s.re[t[k] / 2] == UNDEF), s.lv[t[k] / 2] >= 1), lambda k: [s.re[t[k] / 2]])),
            ('literals without a reason after a decision open a higher level', FA('k m', lambda k, m: Imp(And(k < s.tn, m >= 0, m < s.dn, s.di[m] <= k, s.re[t[k] / 2] == UNDEF), s.lv[t[k] / 2] > m), lambda k, m: [(s.re[t[k] / 2], s.di[m])])),
            ('only decisions have no reason', FA('k m', lambda k, m: Imp(And(k >= 0, k < s.tn, m >= 0, m < s.dn, s.re[t[k] / 2] == UNDEF, s.lv[t[k] / 2] == m + 1), s.di[m] == k), lambda k, m: [(s.re[t[k] / 2], s.di[m])]))]

def climbing(s):
    return [('lazy strong backtracking is chronological', Imp(s.x._options.lazy_strong_chronological_backtracking, s.x._options.chronological_backtracking)),
            ('without chronological backtracking literals after a decision are at its level or above', Imp(z3.Not(s.x._options.chronological_backtracking), FA('k m', lambda k, m: Imp(And(k < s.tn, m >= 0, m < s.dn, s.di[m] <= k), s.lv[s.t[k] / 2] > m), lambda k, m: [(s.t[k], s.di[m])])))]

def reasons(s):
    t = s.t
    def R(k): return s.re[t[k] / 2]
    def Z(k): return s.lz[t[k] / 2]
    return [('reasons are clauses', FA('k', lambda k: Imp(And(k >= 0, k < s.tn, R(k) != UNDEF), And(s.ok(R(k)), s.dl[R(k)] == 0, s.lit(R(k), I(0)) == t[k])), lambda k: [t[k]])),
            ('reasons propagate', FA('k j', lambda k, j: Imp(And(k >= 0, k < s.tn, R(k) != UNDEF, j >= 1, j < s.sz[R(k)]), And(s.false(s.lit(R(k), j)), s.pos[s.lit(R(k), j) / 2] < k, s.lv[s.lit(R(k), j) / 2] <= s.lv[t[k] / 2])), lambda k, j: [s.lit(R(k), j)])),
            ('the level is the one of the reason', FA('k', lambda k: Imp(And(k >= 0, k < s.tn, R(k) != UNDEF), s.lv[t[k] / 2] == s.top(R(k))), lambda k: [s.lit(R(k), I(1))])),
            ('lazy reasons are clauses', FA('k', lambda k: Imp(And(k >= 0, k < s.tn, Z(k) != UNDEF), And(s.ok(Z(k)), s.dl[Z(k)] == 0, s.lit(Z(k), I(0)) == t[k])), lambda k: [t[k]])),
            ('lazy reasons are at lower levels', FA('k', lambda k: Imp(And(k >= 0, k < s.tn, Z(k) != UNDEF), s.top(Z(k)) < s.lv[t[k] / 2]), lambda k: [s.lit(Z(k), I(1))])),
            ('lazy reasons propagate', FA('k j', lambda k, j: Imp(And(k >= 0, k < s.tn, Z(k) != UNDEF, j >= 1, j < s.sz[Z(k)]), And(s.false(s.lit(Z(k), j)), s.lv[s.lit(Z(k), j) / 2] <= s.top(Z(k)))), lambda k, j: [s.lit(Z(k), j)]))]

def unassigned(s):
    return [('unassigned variables carry nothing', FA('v', lambda v: Imp(And(s.var(v), s.st[v] == FREE), s.free(v)), lambda v: [s.st[v]])),
            ('states', FA('v', lambda v: Imp(s.var(v), And(s.st[v] >= 0, s.st[v] <= FREE)), lambda v: [s.st[v]]))]

def flags(s):
    return [('lazy reasons belong to lazy strong backtracking', FA('v', lambda v: Imp(And(s.var(v), z3.Not(s.x._options.lazy_strong_chronological_backtracking)), s.lz[v] == UNDEF), lambda v: [s.lz[v]])),
            ('propagated literals are those before the head', FA('k', lambda k: Imp(And(k >= 0, k < s.tn), (s.pr[s.t[k] / 2] != 0) == (k < s.np)), lambda k: [s.t[k]]))]

def stored(s):
    """the priority heap"""
    return [('heap: ' + n, f) for n, f in H.W(s.h)] + [
            ('heap keys are variables', FA('k', lambda k: Imp(s.mem(k), And(k >= 1, k < s.vn)), lambda k: [s.hx[k]]))]

def waiting(s, but=None):
    return [('unassigned constrained variables are in the heap', FA('v', lambda v: Imp(And(v >= 1, v < s.vn, s.st[v] == FREE, s.co[v] != 0), s.mem(v)), lambda v: [s.st[v], s.co[v]]))]

def TI(s): return clauses(s) + on_trail(s) + levels(s) + climbing(s) + reasons(s) + unassigned(s) + flags(s) + stored(s) + waiting(s)

def implying(s, i, p):
    """clause i implies the unassigned literal p"""
    return [('the reason is a clause', And(s.ok(i), s.dl[i] == 0, s.lit(i, I(0)) == p)),
            ('the other literals of the reason are false', FA('j', lambda j: Imp(And(j >= 1, j < s.sz[i]), s.false(s.lit(i, j))), lambda j: [s.lit(i, j)])),
            ('the second literal of the reason is the highest of the others', FA('j', lambda j: Imp(And(j >= 1, j < s.sz[i]), s.lv[s.lit(i, j) / 2] <= s.top(i)), lambda j: [s.lit(i, j)]))]

def pigeonhole(c, f, g, n, m):
    """n keys below m with different indices: n <= m (by induction on m)"""
    e, st = c.eng, c.st
    def inj(f, g, n, m): return FA('i', lambda i: Imp(And(i >= 0, i < n), And(f[i] >= 0, f[i] < m, g[f[i]] == i)), lambda i: [f[i]])
    F, G, F1, G1 = e.fresh('pf', AR), e.fresh('pg', AR), e.fresh('pf1', AR), e.fresh('pg1', AR)
    N, M, k = e.fresh('pn', IS), e.fresh('pm', IS), e.fresh('pk', IS)
    c.oblige(Imp(Imp(N > 0, And(F[0] >= 0, F[0] < 0)), N <= 0), 'pigeonhole: base')
    d = And(N >= 1, M >= 0, inj(F, G, N, M + 1), k == G[M], F1 == z3.Store(F, k, F[N - 1]), G1 == z3.Store(G, F[N - 1], k))
    hit = And(k >= 0, k < N, F[k] == M)
    x = e.fresh('px', IS)
    def at(f, g, n, m): return Imp(And(x >= 0, x < n), And(f[x] >= 0, f[x] < m, g[f[x]] == x))
    c.oblige(Imp(And(d, z3.Not(hit)), at(F, G, N, M)), 'pigeonhole: the largest key is not used')
    c.oblige(Imp(And(d, hit), at(F1, G1, N - 1, M)), 'pigeonhole: the largest key is used once')
    c.eng.assume(st, Imp(inj(f, g, n, m), n <= m))

def full(c, s, n):
    """the trail is shorter than the list of variables"""
    F, G = c.eng.fresh('ff', AR), c.eng.fresh('fg', AR)
    c.eng.assume(c.st, FA('k', lambda k: F[k] == s.t[k] / 2 - 1, lambda k: [F[k]]), 'def')
    c.eng.assume(c.st, FA('k', lambda k: G[k] == s.pos[k + 1], lambda k: [G[k]]), 'def')
    pigeonhole(c, F, G, n, s.vn - 1)
    c.oblige(n < s.vn, 'the trail is shorter than the list of variables')

def build(prop, extra=()):
    U = extract.load([('src/utils/heap.cpp', 'src/solver/NapSAT-imply.cpp', 'src/solver/NapSAT-utils.cpp', 'src/solver/NapSAT-backtrack.cpp', *extra, 'src/solver/NapSAT.cpp')], include_stubs=True, extra=['-DNDEBUG'])
    V = Verifier(U, {'array_pointees': ['napsat::Tlit'], 'axioms': H.axioms(), 'max_len': NOIDX, 'ghost_sorts': {k: AR for k in ('pos', 'src', 'bi', 'ri')}})
    L = []
    def hp(e): return leaves_of(e, 'napsat::utils::heap')
    for k in H.contracts('H02'):
        if k.qname.split('::')[-1] in ('insert', 'pop'): k.modifies = [hp]
        V.add(k)
    def fields(*names): return [leaf(*['._vars[].' + n for n in names])]
    def leaf(*names):
        def f(e):
            l = {sf: ty for sf, ty, d in e.leaves(TStruct(e.U.recq['napsat::NapSAT']))}
            for n in names: e.modinfo[('this', n)] = (l[n], None)
            return [('this', n) for n in names]
        return f
    def heap_mod(e): return leaves_of(e, 'napsat::utils::heap', '._variable_heap')
    # ---------------------------------------------------------------- imply_literal
    IM = fields('order', 'state', 'propagated', 'reason.value', 'phase_cache', 'level.value') + [leaf('._current_order', '._n_root_lvl_lits')] + [('this', '._trail[].value'), ('this', '._trail.len'), ('this', '._trail.ep'), ('this', '._decision_index[]'), ('this', '._decision_index.len'), ('this', '._decision_index.ep'), ('$g', '.pos')]
    def im_req(c):
        s, p, r = tr(c), c.arg('lit'), c.arg('reason')
        return quiet(s) + TI(s) + [('the literal is unassigned', And(p >= 2, p / 2 < s.vn, s.st[p / 2] == FREE)), ('not lazy', r != LAZY),
                ('nothing waits for propagation when a decision is taken', Imp(r == UNDEF, s.np == s.tn)),
                ('without chronological backtracking a clause implies at the current level', Imp(And(r != UNDEF, z3.Not(s.x._options.chronological_backtracking)), s.top(r) == s.dn))] + [(n, Imp(r != UNDEF, f)) for n, f in implying(s, r, p)]
    def extends(c, s, o, p, r):
        return [('the trail is one longer', And(s.tn == o.tn + 1, s.t[o.tn] == p, FA('k', lambda k: Imp(And(k >= 0, k < o.tn), s.t[k] == o.t[k]), lambda k: [s.t[k], o.t[k]]))),
                ('the literal is true with its reason', And(s.st[p / 2] == p % 2, s.re[p / 2] == r, s.pr[p / 2] == 0)),
                ('the level is the one of the reason', s.lv[p / 2] == z3.If(r == UNDEF, o.dn + 1, o.top(r))),
                ('a decision opens a level', And(s.dn == o.dn + z3.If(r == UNDEF, I(1), I(0)), FA('l', lambda l: Imp(And(l >= 0, l < o.dn), s.di[l] == o.di[l]), lambda l: [s.di[l], o.di[l]]))),
                ('other variables are untouched', FA('v', lambda v: Imp(And(s.var(v), v != p / 2), s.same(o, v)), lambda v: [s.st[v], s.lv[v], s.re[v], s.pr[v]])),
                ('positions are kept', FA('v', lambda v: Imp(v != p / 2, s.pos[v] == o.pos[v]), lambda v: [s.pos[v]]))]
    def im_ens(c):
        s, o, p, r = tr(c), tr(c, True), c.arg('lit'), c.arg('reason')
        return extends(c, s, o, p, r) + TI(s)
    def im_hint(c):
        o = tr(c, True)
        c.ghost_set('pos', c.eng.name(c.st, z3.Store(o.pos, c.arg('lit') / 2, o.tn)))
        s = tr(c)
        full(c, s, o.tn + 1)
        return []
    def order_inv(c):
        s = tr(c)
        return [('bounds', And(c['i'] >= 0, c['i'] <= s.tn))]
    V.add(Contract(Q + 'defragment_order', lambda c: [(n, f) for n, f in on_trail(tr(c)) if n.startswith('literals')], lambda c: [], {0: LoopSpec(order_inv, dec=lambda c: NOIDX - c['i'])}, modifies=fields('order') + [leaf('._current_order')]))
    if prop == 'N04': L.append(V.contracts[Q + 'defragment_order'] if not isinstance(V.contracts[Q + 'defragment_order'], list) else V.contracts[Q + 'defragment_order'][0])
    ci = Contract(Q + 'imply_literal', im_req, im_ens, names=['lit', 'reason'], modifies=IM, hints=im_hint)
    V.add(ci)
    if prop == 'N04': L.append(ci)
    # ---------------------------------------------------------------- decide
    def dc_req(c):
        s = tr(c)
        return quiet(s) + TI(s) + [('the solver has not answered', s.x._status != SAT), ('nothing waits for propagation', s.np == s.tn)]
    def dc_ens(c):
        s, o = tr(c), tr(c, True); p = s.t[o.tn]
        return [('no: every constrained variable is assigned', Imp(z3.Not(c.res), FA('v', lambda v: Imp(And(v >= 1, v < s.vn, s.co[v] != 0), s.st[v] != FREE), lambda v: [s.st[v]]))),
                ('no: the trail is as it was', Imp(z3.Not(c.res), And(s.tn == o.tn, s.dn == o.dn, FA('k', lambda k: Imp(And(k >= 0, k < o.tn), s.t[k] == o.t[k]), lambda k: [s.t[k], o.t[k]])))),
                ('no: the answer is satisfiable', z3.Not(c.res) == (s.x._status == SAT)),
                ('yes: an unassigned variable is decided', Imp(c.res, And(o.st[p / 2] == FREE, p / 2 >= 1, p / 2 < s.vn, p % 2 == s.sy[p / 2])))] + [('yes: ' + n, Imp(c.res, f)) for n, f in extends(c, s, o, p, I(UNDEF))] + TI(s)
    def dc_inv(c):
        s = tr(c)
        return stored(s) + waiting(s)
    cd = Contract(Q + 'decide', dc_req, dc_ens, {0: LoopSpec(dc_inv, dec=lambda c: c.this._variable_heap._heap.len)}, names=[], ftype='bool ()')
    V.add(cd)
    if prop == 'N04': L.append(cd)
    def dl_req(c):
        s, p = tr(c), c.arg('lit')
        return quiet(s) + TI(s) + [('the literal is unassigned', And(p >= 2, p / 2 < s.vn, s.st[p / 2] == FREE)), ('nothing waits for propagation', s.np == s.tn)]
    def dl_ens(c):
        s, o, p = tr(c), tr(c, True), c.arg('lit')
        return [('the answer is yes', c.res)] + extends(c, s, o, p, I(UNDEF)) + TI(s)
    cl = Contract(Q + 'decide', dl_req, dl_ens, names=['lit'], ftype='Tlit')
    V.add(cl)
    if prop == 'N04': L.append(cl)
    # ---------------------------------------------------------------- var_unassign
    UN = fields('state', 'reason.value', 'level.value', 'propagated', 'missed_lower_implication.value') + [heap_mod]
    def un_req(c):
        s, v = tr(c), c.arg('var')
        return quiet(s) + stored(s) + [('the variable is assigned', And(v >= 1, v < s.vn, s.st[v] != FREE)), ('sizes', s.vn < NOIDX)]
    def un_ens(c):
        s, o, v = tr(c), tr(c, True), c.arg('var')
        return stored(s) + [('the variable carries nothing', s.free(v)), ('the variable is in the heap', s.mem(v)),
                ('the heap keeps its variables', FA('k', lambda k: Imp(And(k >= 0, k != v), s.mem(k) == o.mem(k)), lambda k: [s.hx[k]])),
                ('other variables are untouched', FA('w', lambda w: Imp(And(s.var(w), w != v), s.same(o, w)), lambda w: [s.st[w], s.lv[w], s.re[w], s.lz[w], s.pr[w]]))]
    def un_hint(c):
        return []
    def un_entry(c):
        s = tr(c)
        h = s.h; a, b = c.eng.name(c.st, h._heap.arr), c.eng.name(c.st, h._index.arr)
        F, G = c.eng.fresh('ff', AR), c.eng.fresh('fg', AR)
        c.eng.assume(c.st, FA('k', lambda k: F[k] == a[k] - 1, lambda k: [F[k]]), 'def')
        c.eng.assume(c.st, FA('k', lambda k: G[k] == b[k + 1], lambda k: [G[k]]), 'def')
        pigeonhole(c, F, G, h._heap.len, s.vn - 1)
        c.oblige(h._heap.len < s.vn, 'the heap is shorter than the list of variables')
    cu = Contract(Q + 'var_unassign', un_req, un_ens, names=['var'], modifies=UN, entry=un_entry)
    V.add(cu)
    if prop == 'N03': L.append(cu)
    # ---------------------------------------------------------------- backtrack
    def bt_req(c):
        s, l = tr(c), c.arg('level')
        return quiet(s) + TI(s) + [('the level exists', And(l >= 0, l <= s.dn)), ('buffers are empty', And(s.x._backtracked_variables.len == 0, s.x._reimplication_backtrack_buffer.len == 0))]
    def kept(o, v, l): return And(o.st[v] != FREE, o.lv[v] <= l)
    def gone(o, v, l): return And(o.st[v] != FREE, o.lv[v] > l)
    def again(o, v, l): return And(gone(o, v, l), o.lz[v] != UNDEF, o.top(o.lz[v]) <= l)
    def bt_ens(c):
        s, o, l = tr(c), tr(c, True), c.arg('level')
        act = l < o.dn
        return [('the solver is at the level', s.dn == l),
                ('nothing happens at the current level', Imp(l == o.dn, And(s.tn == o.tn, s.np == o.np, FA('k', lambda k: Imp(And(k >= 0, k < o.tn), s.t[k] == o.t[k]), lambda k: [s.t[k], o.t[k]]), FA('v', lambda v: Imp(s.var(v), s.same(o, v)), lambda v: [s.st[v], s.lv[v], s.re[v], s.lz[v]])))),
                ('literals up to the level stay', FA('v', lambda v: Imp(And(s.var(v), kept(o, v, l)), And(s.st[v] == o.st[v], s.lv[v] == o.lv[v], s.re[v] == o.re[v], s.lz[v] == o.lz[v])), lambda v: [s.st[v], s.lv[v], s.re[v], s.lz[v], o.st[v]])),
                ('literals above the level are unassigned', FA('v', lambda v: Imp(And(s.var(v), gone(o, v, l), z3.Not(again(o, v, l))), s.free(v)), lambda v: [s.st[v], o.st[v]])),
                ('literals implied at the level are implied again', FA('v', lambda v: Imp(And(s.var(v), again(o, v, l)), And(s.st[v] == o.st[v], s.re[v] == o.lz[v], s.lv[v] == o.top(o.lz[v]))), lambda v: [s.st[v], o.st[v]])),
                ('nothing else is assigned', FA('v', lambda v: Imp(And(s.var(v), o.st[v] == FREE), s.st[v] == FREE), lambda v: [s.st[v], o.st[v]])),
                ('the order of the trail is kept', FA('v w', lambda v, w: Imp(And(s.var(v), s.var(w), kept(o, v, l), kept(o, w, l), o.pos[v] < o.pos[w]), s.pos[v] < s.pos[w]), lambda v, w: [(s.pos[v], s.pos[w]), (o.pos[v], o.pos[w])])),
                ('the trail up to the decision undone stays', Imp(act, FA('k', lambda k: Imp(And(k >= 0, k < o.di[l]), s.t[k] == o.t[k]), lambda k: [s.t[k], o.t[k]]))),
                ('propagation resumes where the trail changed', s.np == z3.If(act, o.di[l], o.np)),
                ('a model found is dropped', s.x._status == z3.If(o.x._status == SAT, I(UNKNOWN), o.x._status)),
                ('buffers are empty', And(s.x._backtracked_variables.len == 0, s.x._reimplication_backtrack_buffer.len == 0))] + TI(s)
    def G(c, n): return c.eng.name(c.st, c.ghost_get(n, AR))
    # src: where a kept literal was; bi: index of an undone variable among those to unassign
    def bt0_init(c):
        o = tr(c, True); r = c['restore_point']
        for n in ('src', 'bi', 'ri'): c.ghost_set(n, c.eng.fresh(n, AR))
        l = c.arg('level')
        c.oblige(r == o.di[l], 'the first decision to undo')
    def bt0(c):
        s, o, l, i, j, r, w = tr(c), tr(c, True), c.arg('level'), c['i'], c['j'], c['restore_point'], c['waiting_count']
        src, bi, ri = G(c, 'src'), G(c, 'bi'), G(c, 'ri')
        bv, rb = s.x._backtracked_variables, s.x._reimplication_backtrack_buffer
        b, ra = c.eng.name(c.st, bv.arr), c.eng.name(c.st, rb.arr)
        return [('bounds', And(i >= r, i <= s.tn, s.tn == o.tn, j >= r, j <= i, r == o.di[l])),
                ('status', s.x._status == z3.If(o.x._status == SAT, I(UNKNOWN), o.x._status)),
                ('the prefix and the rest are as before', FA('k', lambda k: Imp(And(k >= 0, k < s.tn, Or(k < r, k >= i)), s.t[k] == o.t[k]), lambda k: [s.t[k], o.t[k]])),
                ('kept literals', FA('k', lambda k: Imp(And(k >= r, k < j), And(src[k] >= k, src[k] < i, s.t[k] == o.t[src[k]], o.lv[s.t[k] / 2] <= l)), lambda k: [s.t[k], src[k]])),
                ('kept in order', FA('a b', lambda a, b: Imp(And(a >= r, a < b, b < j), src[a] < src[b]), lambda a, b: [(src[a], src[b])])),
                ('positions', FA('v', lambda v: Imp(And(s.var(v), o.st[v] != FREE), z3.If(Or(o.pos[v] < r, o.pos[v] >= i), s.pos[v] == o.pos[v], Imp(o.lv[v] <= l, And(s.pos[v] >= r, s.pos[v] < j, src[s.pos[v]] == o.pos[v])))), lambda v: [s.pos[v], o.pos[v]])),
                ('undone variables', FA('k', lambda k: Imp(And(k >= 0, k < bv.len), And(b[k] >= 1, b[k] < s.vn, gone(o, b[k], l), o.pos[b[k]] < i, bi[b[k]] == k)), lambda k: [b[k]])),
                ('every undone variable', FA('v', lambda v: Imp(And(s.var(v), gone(o, v, l), o.pos[v] < i), And(bi[v] >= 0, bi[v] < bv.len, b[bi[v]] == v)), lambda v: [bi[v], o.pos[v]])),
                ('lazy reasons stay where they matter', FA('v', lambda v: Imp(And(s.var(v), Or(o.lv[v] <= l, o.st[v] == FREE, o.pos[v] >= i)), s.lz[v] == o.lz[v]), lambda v: [s.lz[v]])),
                ('reimplications', FA('k', lambda k: Imp(And(k >= 0, k < rb.len), And(s.ok(ra[k]), s.dl[ra[k]] == 0, s.lit(ra[k], I(0)) >= 2, s.lit(ra[k], I(0)) / 2 < s.vn, again(o, s.lit(ra[k], I(0)) / 2, l), o.pos[s.lit(ra[k], I(0)) / 2] < i, o.lz[s.lit(ra[k], I(0)) / 2] == ra[k], s.lit(ra[k], I(0)) % 2 == o.st[s.lit(ra[k], I(0)) / 2], ri[s.lit(ra[k], I(0)) / 2] == k)), lambda k: [ra[k]])),
                ('every reimplication', FA('v', lambda v: Imp(And(s.var(v), again(o, v, l), o.pos[v] < i), And(ri[v] >= 0, ri[v] < rb.len, ra[ri[v]] == o.lz[v])), lambda v: [ri[v], o.pos[v]])),
                ('nothing to keep without chronological backtracking', Imp(z3.Not(s.x._options.chronological_backtracking), And(j == r, w == 0))),
                ('waiting literals', And(w >= 0, w <= j - r, Imp(i <= s.np, w == 0), FA('k', lambda k: Imp(And(k >= r, k < j), (k < j - w) == (src[k] < s.np)), lambda k: [src[k]])))]
    def bt0_end(c):
        h = T(mkview(c.eng, c.head, c.thisp), None, c.st); o = tr(c, True); l = c.arg('level')
        at = lambda n: mkview(c.eng, c.head, c.path(n))
        i, j = at('i'), at('j'); v = o.t[i] / 2
        keep = o.lv[v] <= l
        c.ghost_set('src', c.eng.name(c.st, z3.If(keep, z3.Store(G(c, 'src'), j, i), G(c, 'src'))))
        c.ghost_set('pos', c.eng.name(c.st, z3.If(keep, z3.Store(G(c, 'pos'), v, j), G(c, 'pos'))))
        c.ghost_set('bi', c.eng.name(c.st, z3.If(keep, G(c, 'bi'), z3.Store(G(c, 'bi'), v, h.x._backtracked_variables.len))))
        c.ghost_set('ri', c.eng.name(c.st, z3.Store(G(c, 'ri'), v, h.x._reimplication_backtrack_buffer.len)))
    def bt1(c):
        s, p, o, l = tr(c), T(c.pthis, c.pghost('pos', AR), c.st), tr(c, True), c.arg('level')
        bv = s.x._backtracked_variables
        bi = G(c, 'bi')
        return [('sizes', And(bv.len >= 0, bv.len <= p.x._backtracked_variables.len)),
                ('unassigned so far', FA('v', lambda v: Imp(And(s.var(v), gone(o, v, l), bi[v] >= bv.len), s.free(v)), lambda v: [s.st[v], bi[v]])),
                ('in the heap so far', FA('v', lambda v: Imp(And(s.var(v), gone(o, v, l), bi[v] >= bv.len), s.mem(v)), lambda v: [s.st[v], bi[v]])),
                ('the others stay', FA('v', lambda v: Imp(And(s.var(v), z3.Not(And(gone(o, v, l), bi[v] >= bv.len))), s.same(p, v)), lambda v: [s.st[v], s.lv[v], s.re[v], s.lz[v], s.pr[v]])),
                ('the heap keeps its variables', FA('k', lambda k: Imp(o.mem(k), s.mem(k)), lambda k: [s.hx[k], o.hx[k]]))] + stored(s)
    def bt1_end(c):
        s, o, l, bi = tr(c), tr(c, True), c.arg('level'), G(c, 'bi'); n = s.x._backtracked_variables.len
        heap = about(c, '_variable_heap')
        c.oblige(FA('k', lambda k: Imp(o.mem(k), s.mem(k)), lambda k: [s.hx[k], o.hx[k]]), 'the heap keeps its variables', only=heap)
    def bt1_exit(c):
        s, o, r, j, w = tr(c), tr(c, True), c['restore_point'], c['j'], c['waiting_count']
        c.oblige(FA('k', lambda k: Imp(And(k >= 0, k < r), s.pr[s.t[k] / 2] != 0), lambda k: [s.t[k]]), 'the literals before the decision are propagated')
        c.oblige(FA('k', lambda k: Imp(And(k >= r, k < j), (s.pr[s.t[k] / 2] != 0) == (k < j - w)), lambda k: [s.t[k]]), 'the other literals kept are propagated in the order of the trail')
    def bt2(c):
        s, p, r = tr(c), T(c.pthis, c.pghost('pos', AR), c.st), c['restore_point']
        return [('bounds', And(s.np >= r, s.np <= p.np)),
                ('flags so far', FA('k', lambda k: Imp(And(k >= 0, k < s.tn), (s.pr[s.t[k] / 2] != 0) == (k < s.np)), lambda k: [s.t[k]])),
                ('the others stay', FA('v', lambda v: Imp(And(s.var(v), s.st[v] == FREE), s.pr[v] == p.pr[v]), lambda v: [s.pr[v]]))]
    def bt3_init(c):
        s = tr(c)
        c.oblige(FA('k', lambda k: Imp(And(k >= 0, k < s.tn), (s.pr[s.t[k] / 2] != 0) == (k < s.np)), lambda k: [s.t[k]]), 'the flags follow the head', only=about(c, 'propagated'))
    def bt3(c):
        s, p, o, l, i = tr(c), T(c.pthis, c.pghost('pos', AR), c.st), tr(c, True), c.arg('level'), c['$i']
        rb = s.x._reimplication_backtrack_buffer; ra = c.eng.name(c.st, rb.arr); ri = G(c, 'ri')
        def v(k): return s.lit(ra[k], I(0)) / 2
        return TI(s) + [('bounds', And(i >= 0, i <= rb.len, s.dn == l, s.np == p.np, s.tn >= p.tn)),
                ('the trail grows', FA('k', lambda k: Imp(And(k >= 0, k < p.tn), s.t[k] == p.t[k]), lambda k: [s.t[k], p.t[k]])),
                ('implied so far', FA('v', lambda v: Imp(And(s.var(v), again(o, v, l), ri[v] < i), And(s.st[v] == o.st[v], s.re[v] == o.lz[v], s.lv[v] == o.top(o.lz[v]))), lambda v: [s.st[v], ri[v]])),
                ('the others stay', FA('v', lambda v: Imp(And(s.var(v), z3.Not(And(again(o, v, l), ri[v] < i))), And(s.same(p, v), s.pos[v] == p.pos[v])), lambda v: [s.st[v], s.lv[v], s.re[v], s.lz[v], s.pr[v], s.pos[v]]))]
    cb = Contract(Q + 'backtrack', bt_req, bt_ens, {0: LoopSpec(bt0, init=bt0_init, end=bt0_end, dec=lambda c: UNDEF - c['i']), 1: LoopSpec(bt1, end=bt1_end, exit=bt1_exit, dec=lambda c: c.this._backtracked_variables.len), 2: LoopSpec(bt2, init=bt3_init, dec=lambda c: c.this._n_propagated_lits), 3: LoopSpec(bt3, init=bt3_init)}, names=['level'], ftype='Tlevel')
    V.add(cb)
    if prop == 'N03': L.append(cb)
    # ---------------------------------------------------------------- reimply_literal
    def ri_req(root):
        def f(c):
            s, p, r = tr(c), c.arg('lit' if root else 'c2'), c.arg('reason')
            return quiet(s) + TI(s) + [('the literal is true', And(p >= 2, p / 2 < s.vn, s.st[p / 2] == p % 2)), ('a clause', And(r != UNDEF, r != LAZY))] + implying(s, r, p) + [
                ('buffers are empty', And(s.x._backtracked_variables.len == 0, s.x._reimplication_backtrack_buffer.len == 0))] + ([('a unit clause', s.sz[r] == 1)] if root else [])
        return f
    def ri_ens(root):
        def f(c):
            s, o, p, r = tr(c), tr(c, True), c.arg('lit' if root else 'c2'), c.arg('reason'); v = p / 2
            return [('the literal stays true', s.st[v] == p % 2),
                ('the literal is implied no higher than the clause implies it', Or(s.lv[v] <= o.top(r), And(s.x._options.lazy_strong_chronological_backtracking, s.lz[v] != UNDEF, s.top(s.lz[v]) <= o.top(r)))),
                ('literals up to the level of the clause stay', FA('w', lambda w: Imp(And(s.var(w), w != v, o.st[w] != FREE, o.lv[w] <= o.top(r)), And(s.st[w] == o.st[w], s.lv[w] == o.lv[w], s.re[w] == o.re[w])), lambda w: [s.st[w], o.st[w]])),
                ('a missed implication gives way only to a lower one', Imp(And(s.x._options.lazy_strong_chronological_backtracking, o.lz[v] != UNDEF), And(s.lz[v] != UNDEF, s.top(s.lz[v]) <= o.top(o.lz[v])))),
                ('a literal already low enough is left alone', Imp(o.lv[v] <= o.top(r), And(s.tn == o.tn, s.dn == o.dn, s.lv[v] == o.lv[v], s.re[v] == o.re[v]))),
                ('buffers are empty', And(s.x._backtracked_variables.len == 0, s.x._reimplication_backtrack_buffer.len == 0)),
                ('the trail is untouched where lazy reasons serve', Imp(s.x._options.lazy_strong_chronological_backtracking, And(s.tn == o.tn, s.dn == o.dn, s.np == o.np))),
                ('only the missed implication is recorded where lazy reasons serve', Imp(s.x._options.lazy_strong_chronological_backtracking, And(FA('k', lambda k: Imp(And(k >= 0, k < o.tn), s.t[k] == o.t[k]), lambda k: [s.t[k], o.t[k]]), FA('w', lambda w: Imp(s.var(w), And(s.st[w] == o.st[w], s.lv[w] == o.lv[w], s.re[w] == o.re[w], s.pr[w] == o.pr[w], s.pos[w] == o.pos[w], Imp(w != v, s.lz[w] == o.lz[w]))), lambda w: [s.st[w], s.lv[w], s.re[w], s.lz[w], s.pr[w], s.pos[w]]))))] + TI(s)
        return f
    def gb(i): return LoopSpec(lambda c: [('graph backtracking only', FALSE)])
    cr = Contract(Q + 'reimply_literal_root', ri_req(True), ri_ens(True), {i: gb(i) for i in range(3)}, names=['lit', 'reason'])
    cq = Contract(Q + 'reimply_literal', ri_req(False), ri_ens(False), {0: gb(0)}, names=['c2', 'reason'])
    for k in (cr, cq):
        V.add(k)
        if prop == 'N04': L.append(k)
    return V, L
