"""Symbolic executor / verification-condition generator over clang ASTs of the real sources.

Path-exact forward symbolic execution; loops are cut at invariants, calls to functions under
contract are replaced by their contract, everything else is inlined from the repository.
"""
import z3, re, itertools
from . import extract
from .types import *

z3.set_param('auto_config', False)

class Unsupported(Exception):
    """the current sources use something the verifier cannot translate (not a violation)"""

IS, BS, RS = z3.IntSort(), z3.BoolSort(), z3.RealSort()
I = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

def And(*a):
    l = []
    for x in a:
        if isinstance(x, (list, tuple)): l += list(x)
        else: l.append(x)
    l = [x for x in l if not z3.is_true(x)]
    if any(z3.is_false(x) for x in l): return FALSE
    if not l: return TRUE
    return l[0] if len(l) == 1 else z3.And(*l)
def Or(*a):
    l = []
    for x in a:
        if isinstance(x, (list, tuple)): l += list(x)
        else: l.append(x)
    l = [x for x in l if not z3.is_false(x)]
    if any(z3.is_true(x) for x in l): return TRUE
    if not l: return FALSE
    return l[0] if len(l) == 1 else z3.Or(*l)
def Not(a):
    if z3.is_true(a): return FALSE
    if z3.is_false(a): return TRUE
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def Imp(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a): return TRUE
    return z3.Implies(a, b)
def Ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)
def Eq(a, b):
    if a.eq(b): return TRUE
    return a == b
def isnum(a): return z3.is_int_value(a)
def num(a): return a.as_long()

_q = itertools.count()
def FA(sorts, body, pats=None, name=None):
    """FA('i j', lambda i,j: ..., lambda i,j: [pattern,...])"""
    if isinstance(sorts, str):
        sorts = [(n, IS) for n in sorts.split()]
    k = next(_q)
    vs = [z3.Const('%s!q%d' % (n, k), s) for n, s in sorts]
    b = body(*vs)
    if z3.is_true(b): return TRUE
    kw = {}
    if pats is not None:
        ps = pats(*vs)
        out = []
        for p in ps:
            out.append(z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p)
        kw['patterns'] = out
    kw['qid'] = (name or 'q%d' % k)
    return z3.ForAll(vs, b, **kw)
def EX(sorts, body, pats=None):
    if isinstance(sorts, str):
        sorts = [(n, IS) for n in sorts.split()]
    k = next(_q)
    vs = [z3.Const('%s!e%d' % (n, k), s) for n, s in sorts]
    kw = {}
    if pats is not None:
        kw['patterns'] = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats(*vs)]
    return z3.Exists(vs, body(*vs), **kw)

def has_quant(t, memo={}):
    k = t.get_id()
    r = memo.get(k)
    if r is not None and r[0].eq(t): return r[1]
    if z3.is_quantifier(t): v = True
    else: v = any(has_quant(c) for c in t.children())
    if len(memo) > 200000: memo.clear()
    memo[k] = (t, v)
    return v

# ----------------------------------------------------------------------------------------------
class Path:
    __slots__ = ('root', 'sfx', 'idx', 'ty')
    def __init__(self, root, sfx, idx, ty):
        self.root, self.sfx, self.idx, self.ty = root, sfx, tuple(idx), ty
    def field(self, name, ty): return Path(self.root, self.sfx + '.' + name, self.idx, ty)
    def elem(self, i, ty): return Path(self.root, self.sfx + '[]', self.idx + (i,), ty)
    def same(self, o):
        return self.root == o.root and self.sfx == o.sfx and len(self.idx) == len(o.idx) and all(a.eq(b) for a, b in zip(self.idx, o.idx))
    def __repr__(self): return '%s%s%s' % (self.root, self.sfx, list(self.idx) if self.idx else '')

class LV:
    __slots__ = ('p', 'bits')
    def __init__(self, p, bits=None): self.p = p; self.bits = bits
class Agg:
    __slots__ = ('ty', 'd', 'cont')
    def __init__(self, ty, d, cont=None): self.ty, self.d, self.cont = ty, d, cont or {}
class PV:
    """iterator or pointer into a container (cont: Path of the vector / heap array)"""
    __slots__ = ('cont', 'off', 'ep', 'ty')
    def __init__(self, cont, off, ep=None, ty=None): self.cont, self.off, self.ep, self.ty = cont, off, ep, ty
class OPtr:
    """pointer to a named object (not a heap cell)"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
class FnV:
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts     # [(cond, Fn-like)]
class Opq:
    __slots__ = ('what',)
    def __init__(self, what=''): self.what = what

class PC:
    __slots__ = ('up', 'f', 'qf', 'depth', 'tag')
    def __init__(self, up, f, tag=None):
        self.up, self.f, self.tag = up, f, tag
        self.qf = not has_quant(f)
        self.depth = 1 + (up.depth if up else 0)

class State:
    __slots__ = ('store', 'env', 'cont', 'pc', 'trail', 'labels')
    def copy(self):
        s = State()
        s.store = dict(self.store); s.env = dict(self.env); s.cont = dict(self.cont)
        s.pc = self.pc; s.trail = self.trail; s.labels = self.labels
        return s
    @staticmethod
    def new():
        s = State(); s.store = {}; s.env = {}; s.cont = {}; s.pc = None; s.trail = (); s.labels = {}
        return s
    def facts(self):
        out = []; p = self.pc
        while p is not None:
            out.append(p.f); p = p.up
        out.reverse()
        return out
    def drop_quantified(self):
        """forget the quantified facts (fewer assumptions: sound)"""
        nodes = []; p = self.pc
        while p is not None: nodes.append(p); p = p.up
        nodes.reverse()
        pc, same = None, True
        for n in nodes:
            if n.qf and same: pc = n; continue
            same = False
            for f in [n.f] if n.qf else flat_and(n.f):
                if n.qf or not has_quant(f): pc = PC(pc, f, n.tag)
        self.pc = pc

def same_forall(f, g):
    """the same fact up to the names of the bound variables"""
    return z3.is_quantifier(f) and f.is_forall() and g.is_forall() and f.num_vars() == g.num_vars() and f.body().eq(g.body()) and all(f.var_sort(k) == g.var_sort(k) for k in range(f.num_vars()))

def flat_and(f):
    if z3.is_and(f): return [x for a in f.children() for x in flat_and(a)]
    return [f]

class Light:
    """quantifier-free incremental decision helper"""
    def __init__(self):
        self.s = z3.Solver(); self.s.set('timeout', 150); self.stack = []; self.memo = {}
        self.calls = 0
    def addbase(self, f):
        if self.stack: self.s.pop(len(self.stack)); self.stack = []
        self.s.add(f)
    def sync(self, pc):
        chain = []; p = pc
        while p is not None:
            if p.qf: chain.append(p)
            p = p.up
        chain.reverse()
        n = 0
        while n < len(self.stack) and n < len(chain) and self.stack[n] is chain[n]: n += 1
        if len(self.stack) > n:
            self.s.pop(len(self.stack) - n); del self.stack[n:]
        for c in chain[n:]:
            self.s.push(); self.s.add(c.f); self.stack.append(c)
    def implied(self, pc, c):
        if z3.is_true(c): return True
        if z3.is_false(c): c2 = None
        key = (id(pc), c.get_id())
        r = self.memo.get(key)
        if r is not None and r[0] is pc and r[1].eq(c): return r[2]
        self.sync(pc); self.calls += 1
        r = self.s.check(z3.Not(c))
        v = (r == z3.unsat)
        if len(self.memo) > 50000: self.memo.clear()
        self.memo[key] = (pc, c, v)
        return v

class Frame:
    def __init__(self, fn, this, parent=None, site=()):
        self.fn, self.this, self.parent, self.site = fn, this, parent, site
        self.names = {}      # source name -> decl id (latest)
        self.order = []      # (name, type string, decl id)
        self.params = {}     # declared position -> decl id
    @property
    def root(self):
        f = self
        while f.parent is not None: f = f.parent
        return f

class Obl:
    __slots__ = ('name', 'fn', 'line', 'facts', 'goal', 'kind', 'status', 'solver', 'time', 'trail', 'detail', 'based', 'grp', 'full')
    def __init__(self, name, fn, line, facts, goal, kind, trail=()):
        self.name, self.fn, self.line, self.facts, self.goal, self.kind, self.trail = name, fn, line, facts, goal, kind, trail
        self.status = None; self.solver = None; self.time = 0.0; self.detail = ''; self.based = False; self.grp = None; self.full = None

NORMAL, BREAK, CONT, RET = 'normal', 'break', 'continue', 'return'

def leafsort(ty, bv=False):
    if ty.k == 'bool': return BS
    if ty.k == 'int': return z3.BitVecSort(ty.w) if bv else IS
    if ty.k == 'real': return RS
    return IS

class Engine:
    def __init__(self, U, cfg=None):
        self.U = U
        self.T = Types(U)
        cfg = cfg or {}
        self.heapcls = set(cfg.get('heap_classes', []))        # record qnames whose pointers are heap references
        self.arrayptr = set(cfg.get('array_pointees', []))     # repr of pointee types whose pointers are (array, offset)
        self.wordbits = set(cfg.get('wordbits', []))
        self.bv = False
        self.contracts = {}
        self.namememo = {}
        self.loopctx = []
        self.maxlen = cfg.get('max_len', 1 << 60)               # no vector reaches this length (memory)
        self.ghost_fields = cfg.get('ghost_fields', {})        # record qname -> {name: sort(list)}
        self.light = Light()
        self.fresh_n = itertools.count()
        self.recorders = []
        self.mute = 0
        self.obls = []
        self.cur = None
        self.modcache = {}
        self.used_axioms = {}
        self.notes = set()        # assumptions and dropped things, for the evidence
        self.inlined = set()
        self.steps = 0
        self.maxsteps = cfg.get('maxsteps', 60000)
        self.ghosts_of = {}        # facts an annotation wants to refer to later
        self.theory = cfg.get('theory')
        self.opaque_globals = {}
        self.dropped = set()
        self.reset_run()

    def reset_run(self):
        self.loopnames = {}
        self.init_leaf = {}
        self.init_ty = {}
        self.leafinfo = {}
        self.heapmeta = {}
        self.init_facts = []
        self.light = Light()
        self.recorders = []
        self.mute = 0
        self.steps = 0

    # ---------------------------------------------------------------- types / layout
    def leaves(self, ty, pre=''):
        """[(suffix, elem type, ndims)]"""
        k = ty.k
        if k in ('int', 'bool', 'real'): return [(pre, ty, 0)]
        if k == 'struct':
            out = []
            r = ty.rec
            for b in r.bases:
                out += self.leaves(self.T.of(b), pre)
            for f in r.fields:
                ft = self.T.of(f['type'])
                if ft.k == 'ref':
                    continue
                out += self.leaves(ft, pre + '.' + f['name'])
            for g, so in self.ghost_fields.get(r.qname, {}).items():
                out.append((pre + '.$' + g, GhostTy(so), 0))
            return out
        if k == 'vec':
            out = [(pre + '.len', BASIC['size_t'], 0), (pre + '.ep', GhostTy(IS), 0)]
            for s, t, d in self.leaves(ty.e, pre + '[]'):
                out.append((s, t, d + 1))
            return out
        if k == 'set': return [(pre, GhostTy(z3.ArraySort(IS, BS)), 0)]
        if k == 'pair': return self.leaves(ty.a, pre + '.first') + self.leaves(ty.b, pre + '.second')
        if k == 'ptr':
            if self.is_arrayptr(ty): return [(pre + '.ref', GhostTy(IS), 0), (pre + '.off', GhostTy(IS), 0)]
            return [(pre, GhostTy(IS), 0)]
        if k == 'iter': return [(pre + '.off', GhostTy(IS), 0), (pre + '.ep', GhostTy(IS), 0)]
        if k in ('opaque', 'fn', 'void'): return []
        raise Unsupported('layout of %r' % ty)

    def is_arrayptr(self, ty):
        return ty.k == 'ptr' and repr(ty.to) in self.arrayptr

    def sort_of(self, t, dims):
        s = t.sort if isinstance(t, GhostTy) else leafsort(t, self.bv)
        for _ in range(dims): s = z3.ArraySort(IS, s)
        return s

    def rootdims(self, root):
        if root.startswith('@[]'): return 2
        if root.startswith('@'): return 1
        return 0

    def fresh(self, name, sort):
        return z3.Const('%s~%d' % (name, next(self.fresh_n)), sort)

    # ---------------------------------------------------------------- facts / obligations
    def assume(self, st, f, tag=None):
        if z3.is_true(f): return
        st.pc = PC(st.pc, f, tag)

    def implied(self, st, c): return self.light.implied(st.pc, c)

    def infeasible(self, st): return self.light.implied(st.pc, FALSE)

    def oblige(self, st, goal, name, kind, node=None, assume=True):
        if not self.mute:
            g = goal
            line = self.cur_line(node)
            o = Obl(name, self.cur, line, None, g, kind, st.trail)
            if z3.is_true(g) or (not has_quant(g) and self.implied(st, g)):
                o.status = 'discharged'; o.solver = 'trivial' if z3.is_true(g) else 'z3-light'
            elif z3.is_quantifier(g) and self.cfg.get('memo_names') and any(same_forall(f, g) for f in st.facts()):
                o.status = 'discharged'; o.solver = 'trivial'
            else:
                o.facts = st.facts()
            self.obls.append(o)
        if assume: self.assume(st, goal)

    def oblige_using(self, st, goal, name, kind, using=(), only=None):
        '''an obligation proved with instances of lemmas that are dropped again afterwards;
        only: of the quantified facts keep just these (each must be a known fact)'''
        pc = st.pc
        if only is not None:
            fs = st.facts()
            st.pc = None
            for f in fs:
                if not has_quant(f): st.pc = PC(st.pc, f)
            for o in only:
                if z3.is_true(o): continue
                if not any(f.eq(o) for f in fs): raise Unsupported('annotation keeps a fact that is not known: %s' % str(o)[:200])
                st.pc = PC(st.pc, o)
        for f in using: self.assume(st, f, 'instance')
        n = len(self.obls)
        self.oblige(st, goal, name, kind, assume=False)
        st.pc = pc
        if only is not None:
            for o in self.obls[n:]:
                if o.status is None: o.full = st.facts() + list(using)      # what else is known, should the few not suffice
        self.assume(st, goal)

    _line = None
    def cur_line(self, node=None):
        if node is not None:
            l = self.node_line(node)
            if l: self._line = l
        return self._line
    def node_line(self, n):
        r = n.get('range', {}).get('begin', {})
        for kk in (r, r.get('expansionLoc') or {}, r.get('spellingLoc') or {}):
            if 'line' in kk: return kk['line']
        l = n.get('loc', {})
        return l.get('line')

    # ---------------------------------------------------------------- store
    def key_init(self, st, root, sfx, ty, dims):
        """lazily create the unconstrained initial value of a leaf"""
        k = (root, sfx)
        if k in st.store: return st.store[k]
        iv = self.init_leaf.get(k)
        if iv is None:
            s = self.sort_of(ty, dims + self.rootdims(root))
            iv = z3.Const('%s%s@0' % (root, sfx), s)
            self.init_leaf[k] = iv
            self.init_ty[k] = (ty, dims + self.rootdims(root))
            for f in self.range_facts(iv, ty, dims + self.rootdims(root), sfx):
                self.init_facts.append(f)
                if not has_quant(f): self.light.addbase(f)
        st.store[k] = iv
        return iv

    def range_fact(self, st, t, ty, dims, sfx=''):
        for f in self.range_facts(t, ty, dims, sfx): self.assume(st, f, 'def')

    def range_facts(self, t, ty, dims, sfx=''):
        if self.bv: return []
        if isinstance(ty, GhostTy): return []
        if ty.k != 'int':
            return []
        hi = ty.hi if not sfx.endswith('.len') else self.maxlen
        if dims == 0:
            return [z3.And(t >= ty.lo, t < hi)]
        names = ' '.join('r%d' % i for i in range(dims))
        def sel(vs):
            x = t
            for v in vs: x = z3.Select(x, v)
            return x
        return [FA(names, lambda *vs: z3.And(sel(vs) >= ty.lo, sel(vs) < hi), lambda *vs: [sel(vs)], name='range' + sfx)]

    def rd(self, st, root, sfx, ty, dims, idx):
        """read a leaf at idx (may leave dims if idx is shorter)"""
        a = self.key_init(st, root, sfx, ty, dims_total(dims, self, root))
        for i in idx: a = z3.Select(a, i)
        return a

    def leafdims(self, sfx): return sfx.count('[]')

    def get_leaf(self, st, root, sfx, ty, idx):
        tot = self.leafdims(sfx)
        a = self.key_init(st, root, sfx, ty, tot)
        for i in idx: a = z3.Select(a, i)
        return a

    def set_leaf(self, st, root, sfx, ty, idx, val):
        tot = self.leafdims(sfx)
        for r in self.recorders: r.add((root, sfx))
        self.leafinfo[(root, sfx)] = (ty, tot)
        if not idx:
            st.store[(root, sfx)] = val
            return
        a = self.key_init(st, root, sfx, ty, tot)
        def upd(arr, ii):
            if len(ii) == 1: return z3.Store(arr, ii[0], val)
            return z3.Store(arr, ii[0], upd(z3.Select(arr, ii[0]), ii[1:]))
        st.store[(root, sfx)] = upd(a, list(idx))

    def load(self, st, p):
        ty = p.ty
        if ty.k == 'ref': raise Unsupported('load of reference')
        if ty.k in ('int', 'bool', 'real'):
            v = self.get_leaf(st, p.root, p.sfx, ty, p.idx)
            if ty.k == 'int' and p.idx and not self.bv:
                self.assume(st, z3.And(v >= ty.lo, v < ty.hi), 'def')
            return v
        if ty.k == 'ptr':
            ck = (p.root, p.sfx)
            if ck in st.cont and not p.idx:
                c = st.cont[ck]
                if isinstance(c, OPtr): return c
                if c is not None:
                    return PV(c, self.get_leaf(st, p.root, p.sfx + '.off', GhostTy(IS), p.idx), None, ty)
            if self.is_arrayptr(ty):
                ref = self.get_leaf(st, p.root, p.sfx + '.ref', GhostTy(IS), p.idx)
                off = self.get_leaf(st, p.root, p.sfx + '.off', GhostTy(IS), p.idx)
                return PV(self.heap_array(ty.to, ref), off, None, ty)
            return self.get_leaf(st, p.root, p.sfx, GhostTy(IS), p.idx)
        if ty.k == 'iter':
            ck = (p.root, p.sfx)
            c = st.cont.get(ck)
            if c is None: c = self.iter_container(st, p)
            if c is None: raise Unsupported('iterator with unknown container %r' % p)
            return PV(c, self.get_leaf(st, p.root, p.sfx + '.off', GhostTy(IS), p.idx),
                      self.get_leaf(st, p.root, p.sfx + '.ep', GhostTy(IS), p.idx), ty)
        if ty.k == 'fn':
            v = st.cont.get((p.root, p.sfx))
            if v is None: raise Unsupported('function value of unknown target')
            return v
        if ty.k == 'opaque': return Opq(ty.s)
        d, cont = {}, {}
        for s, t, dm in self.leaves(ty):
            d[s] = self.get_leaf(st, p.root, p.sfx + s, t, p.idx)
            if t.k == 'int' and not isinstance(t, GhostTy) and dm == 0 and p.idx and not self.bv:
                self.assume(st, z3.And(d[s] >= t.lo, d[s] < t.hi), 'def')
        for (r, s), c in st.cont.items():
            if r == p.root and s.startswith(p.sfx) and not p.idx:
                cont[s[len(p.sfx):]] = c
        return Agg(ty, d, cont)

    def iter_container(self, st, p): return None

    def heap_leaf(self, st, root, g):
        """one-dimensional bookkeeping leaf of a heap root: alive / len"""
        k = (root, '.$' + g)
        if k not in st.store:
            so = z3.ArraySort(IS, BS if g == 'alive' else IS)
            iv = self.init_leaf.get(k)
            if iv is None:
                iv = z3.Const(root + '.$' + g + '@0', so); self.init_leaf[k] = iv
            st.store[k] = iv
            self.heapmeta[k] = so
        return st.store[k]

    def set_heap_leaf(self, st, root, g, ref, val):
        a = self.heap_leaf(st, root, g)
        for r in self.recorders: r.add((root, '.$' + g))
        st.store[(root, '.$' + g)] = z3.Store(a, ref, val)

    def heap_array(self, ety, ref):
        return Path('@[]' + repr(ety), '', (ref,), TVec(ety))

    def arr_elem(self, cont, off):
        """path of element off of a container path (vector or heap array)"""
        e = cont.ty.e
        if cont.root.startswith('@[]') and cont.sfx == '':
            return Path(cont.root, '', cont.idx + (off,), e)
        return cont.elem(off, e)

    def null_len(self, st, cont):
        """no element behind the null pointer"""
        if cont.root.startswith('@[]') and cont.sfx == '' and not isnum(cont.idx[0]):
            self.assume(st, z3.Implies(cont.idx[0] == 0, z3.Select(self.heap_leaf(st, cont.root, 'len'), cont.idx[0]) == 0), 'def')

    def cont_len(self, st, cont):
        if cont.root.startswith('@[]') and cont.sfx == '':
            return z3.Select(self.heap_leaf(st, cont.root, 'len'), cont.idx[0])
        return self.get_leaf(st, cont.root, cont.sfx + '.len', BASIC['size_t'], cont.idx)

    def write(self, st, p, v, bits=None):
        ty = p.ty
        if ty.k in ('int', 'bool', 'real'):
            if bits and ty.k == 'int': v = self.trunc_bits(st, v, bits)
            self.set_leaf(st, p.root, p.sfx, ty, p.idx, v); return
        if ty.k == 'ptr':
            if isinstance(v, OPtr):
                if p.idx: raise Unsupported('storing address of a local object')
                for r in self.recorders: r.add((p.root, p.sfx + '!cont'))
                st.cont[(p.root, p.sfx)] = v
                return
            if isinstance(v, PV):
                heap = v.cont.root.startswith('@[]') and v.cont.sfx == ''
                if heap and self.is_arrayptr(ty):
                    st.cont.pop((p.root, p.sfx), None)
                    self.set_leaf(st, p.root, p.sfx + '.ref', GhostTy(IS), p.idx, v.cont.idx[0])
                    self.set_leaf(st, p.root, p.sfx + '.off', GhostTy(IS), p.idx, v.off)
                    return
                if p.idx: raise Unsupported('storing pointer into a vector')
                st.cont[(p.root, p.sfx)] = v.cont
                self.set_leaf(st, p.root, p.sfx + '.off', GhostTy(IS), p.idx, v.off)
                return
            if z3.is_expr(v):
                if self.is_arrayptr(ty):   # null
                    self.set_leaf(st, p.root, p.sfx + '.ref', GhostTy(IS), p.idx, v)
                    self.set_leaf(st, p.root, p.sfx + '.off', GhostTy(IS), p.idx, I(0)); return
                self.set_leaf(st, p.root, p.sfx, GhostTy(IS), p.idx, v); return
            raise Unsupported('pointer store of %r' % v)
        if ty.k == 'iter':
            if not isinstance(v, PV): raise Unsupported('iterator store')
            if p.idx: raise Unsupported('iterator in container')
            st.cont[(p.root, p.sfx)] = v.cont
            self.set_leaf(st, p.root, p.sfx + '.off', GhostTy(IS), p.idx, v.off)
            self.set_leaf(st, p.root, p.sfx + '.ep', GhostTy(IS), p.idx, v.ep if v.ep is not None else I(0))
            return
        if ty.k == 'fn':
            st.cont[(p.root, p.sfx)] = v; return
        if ty.k in ('opaque', 'void'): return
        if isinstance(v, LV): v = self.load(st, v.p)
        if not isinstance(v, Agg): raise Unsupported('aggregate store of %r into %r' % (v, p))
        for s, t, dm in self.leaves(ty):
            if s in v.d: self.set_leaf(st, p.root, p.sfx + s, t, p.idx, v.d[s])
        for s, c in v.cont.items():
            if not p.idx: st.cont[(p.root, p.sfx + s)] = c

    def val(self, st, v):
        if not isinstance(v, LV): return v
        x = self.load(st, v.p)
        if v.bits and not self.bv and z3.is_expr(x): self.assume(st, z3.And(x >= 0, x < (1 << v.bits)), 'def')     # a bit-field
        return x

    def temp(self, st, v, ty, name='tmp'):
        p = Path('%s~%d' % (name, next(self.fresh_n)), '', (), ty)
        self.write(st, p, v)
        return p

    def default_agg(self, st, ty, zero=False):
        """default-constructed value (vectors empty, ints unconstrained unless zero)"""
        d = {}
        for s, t, dm in self.leaves(ty):
            so = self.sort_of(t, dm)
            last = s.split('.')[-1]
            if s.endswith('.len'):
                d[s] = I(0) if dm == 0 else z3.K(IS, I(0)) if dm == 1 else self.fresh('dl', so)
            elif isinstance(t, GhostTy) and t.sort == z3.ArraySort(IS, BS):
                e = z3.K(IS, FALSE)
                for _ in range(dm): e = z3.K(IS, e)
                d[s] = e
            elif isinstance(t, GhostTy):
                d[s] = I(0) if (dm == 0 and t.sort == IS) else self.fresh('dg', so)
            elif zero and dm == 0:
                d[s] = FALSE if t.k == 'bool' else (z3.RealVal(0) if t.k == 'real' else self.iconst(0, t))
            else:
                c = self.fresh('dflt' + s, so)
                d[s] = c
                self.range_fact(st, c, t, dm, s)
        return Agg(ty, d)

    # ---------------------------------------------------------------- integer arithmetic
    def iconst(self, n, ty):
        if self.bv: return z3.BitVecVal(n, ty.w)
        return I(n)

    def name(self, st, t, nm='t'):
        if not z3.is_expr(t) or t.num_args() == 0: return t
        if not self.cfg.get('memo_names'):
            c = self.fresh(nm, t.sort())
            self.assume(st, c == t, 'def')
            return c
        k = t.get_id()      # one name per term, so that what is said twice is the same fact
        if k not in self.namememo: c = self.fresh(nm, t.sort()); self.namememo[k] = (c, t, c == t)
        c, _, d = self.namememo[k]
        p = st.pc
        while p is not None and p.f is not d: p = p.up
        if p is None: self.assume(st, d, 'def')
        return c

    def wrap(self, st, t, ty, kind, node=None, lo_ok=None):
        """bring mathematical t into the range of ty (t known within one modulus of it for kind add/sub)"""
        if isnum(t):
            n = num(t)
            if ty.lo <= n < ty.hi: return t
            if ty.signed:
                self.oblige(st, FALSE, 'no signed overflow', 'safety', node); return t
            return I(n % (1 << ty.w))
        if ty.signed:
            self.oblige(st, z3.And(t >= ty.lo, t < ty.hi), 'no signed overflow', 'safety', node)
            return t
        M = 1 << ty.w
        if kind == 'add':
            c = t < M
            if self.implied(st, c): return t
            if self.implied(st, z3.Not(c)): return z3.simplify(t - M)
            return self.name(st, z3.If(c, t, t - M), 'wr')
        if kind == 'sub':
            c = t >= 0
            if self.implied(st, c): return t
            if self.implied(st, z3.Not(c)): return z3.simplify(t + M)
            return self.name(st, z3.If(c, t, t + M), 'wr')
        c = z3.And(t >= 0, t < M)
        if self.implied(st, c): return t
        return self.name(st, t % M, 'wr')

    def trunc_bits(self, st, v, bits):
        if self.bv: raise Unsupported('bit-field in bv mode')
        if isnum(v): return I(num(v) % (1 << bits))
        if self.implied(st, v < (1 << bits)): return v
        return self.name(st, v % (1 << bits), 'bf')

    def convert(self, st, v, fr, to):
        """integral conversion"""
        if fr.k == 'bool':
            if self.bv: return z3.If(v, z3.BitVecVal(1, to.w), z3.BitVecVal(0, to.w))
            if z3.is_true(v): return I(1)
            if z3.is_false(v): return I(0)
            return z3.If(v, I(1), I(0))
        if self.bv:
            if to.w == fr.w: return v
            if to.w < fr.w: return z3.Extract(to.w - 1, 0, v)
            return z3.SignExt(to.w - fr.w, v) if fr.signed else z3.ZeroExt(to.w - fr.w, v)
        if to.lo <= fr.lo and fr.hi <= to.hi: return v
        if isnum(v):
            n = num(v) % (1 << to.w)
            if to.signed and n >= to.hi: n -= 1 << to.w
            return I(n)
        if self.implied(st, z3.And(v >= to.lo, v < to.hi)): return v
        M = 1 << to.w
        if not to.signed:
            if fr.signed and fr.w <= to.w:
                if self.implied(st, v < 0): return v + M
                return self.name(st, z3.If(v >= 0, v, v + M), 'cv')
            return self.name(st, v % M, 'cv')
        # to signed (implementation-defined modulo, defined since C++20)
        r = v % M
        return self.name(st, z3.If(r < to.hi, r, r - M), 'cv')

    def binop(self, st, op, a, b, ty, node, tyb=None):
        if ty.k == 'real':
            if op == '*':
                self.notes.add('floating-point multiplication: only monotonicity in a non-negative factor is assumed (non-NaN operands)')
                return FMUL(a, b)
            if op == '+': return FADD(a, b)
            if op == '-': return a - b
            if op == '/':
                return FDIV(a, b)
            raise Unsupported('float op ' + op)
        if self.bv: return self.binop_bv(st, op, a, b, ty, node, tyb)
        if isnum(a) and isnum(b) and not (op in '/%' and num(b) == 0):
            x, y = num(a), num(b)
            if op in ('<<', '>>') and not (0 <= y < ty.w):
                self.oblige(st, FALSE, 'shift amount in range', 'safety', node); return a
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                     '/': lambda: int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1),
                     '%': lambda: (abs(x) % abs(y)) * (1 if x >= 0 else -1),
                     '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
            except KeyError:
                raise Unsupported('binary ' + op)
            if op in '&|^' or (op == '<<' and not ty.signed):
                r %= 1 << ty.w
                if ty.signed and r >= ty.hi: r -= 1 << ty.w
                return I(r)
            return self.wrap(st, I(r), ty, 'mul', node)
        if op == '+':
            if isnum(b) and not ty.signed and num(b) > (1 << (ty.w - 1)):   # adding a negated constant
                return self.wrap(st, a - ((1 << ty.w) - num(b)), ty, 'sub', node)
            return self.wrap(st, sadd(a, b), ty, 'add', node)
        if op == '-': return self.wrap(st, ssub(a, b), ty, 'sub', node)
        if op == '*': return self.wrap(st, a * b, ty, 'mul', node)
        if op in ('/', '%'):
            if not isnum(b):
                self.oblige(st, b != 0, 'no division by zero', 'safety', node)
            elif num(b) == 0:
                self.oblige(st, FALSE, 'no division by zero', 'safety', node); return a
            if ty.signed:
                if self.implied(st, z3.And(a >= 0, b > 0)):
                    return self.name(st, a / b if op == '/' else a % b, 'dv')
                raise Unsupported('signed division of a possibly negative value')
            return self.name(st, a / b if op == '/' else a % b, 'dv')
        return self.bitop(st, op, a, b, ty, node)

    def bitop(self, st, op, a, b, ty, node):
        w = ty.w
        if op in ('<<', '>>'):
            self.oblige(st, z3.And(b >= 0, b < w), 'shift amount in range', 'safety', node)
            if w in self.wordbits:
                r = self.theory.shift(self, st, op, a, b, w)
                return r
            if isnum(b):
                if op == '>>':
                    if ty.signed: self.oblige(st, a >= 0, 'no negative shift', 'safety', node)
                    return self.name(st, a / I(1 << num(b)), 'sh')
                if ty.signed: return self.wrap(st, a * I(1 << num(b)), ty, 'mul', node)
                return self.wrap(st, a * I(1 << num(b)), ty, 'mul', node)
            # variable shift by a symbolic amount: pow2 table
            p = self.pow2(st, b, w)
            if op == '>>': return self.name(st, a / p, 'sh')
            return self.wrap(st, a * p, ty, 'mul', node)
        if w in self.wordbits:
            return self.theory.bitop(self, st, op, a, b, w)
        # arithmetic readings of common masks
        if isnum(a): a, b = b, a
        if isnum(b):
            n = num(b)
            if n < 0: n %= 1 << w
            if op == '&' and (n & (n + 1)) == 0: return self.name(st, a % I(n + 1), 'and')
            if op == '^' and n == 1: return self.name(st, z3.If(a % 2 == 0, a + 1, a - 1), 'xor')
            if op == '|' and n == 0: return a
            if op == '^' and n == 0: return a
            if op == '|' and n == 1: return self.name(st, z3.If(a % 2 == 0, a + 1, a), 'or')
            if op == '&' and n == (1 << w) - 2: return self.name(st, a - a % 2, 'and')
        if op == '|' and self.implied(st, z3.And(a % 2 == 0, b >= 0, b <= 1)): return sadd(a, b)
        if op in '&|^':
            r = self.fresh('bw', IS)
            f = {'&': BAND, '|': BOR, '^': BXOR}[op]
            self.assume(st, r == f(a, b), 'def')
            lim = [r >= 0] if not ty.signed else [r >= ty.lo]
            self.assume(st, z3.And(*(lim + [r < ty.hi])), 'def')
            if op == '&' and not ty.signed: self.assume(st, z3.And(r <= a, r <= b), 'def')
            if op == '&': self.notes.add('bitwise and/or/xor of two non-constant operands treated as uninterpreted with range facts')
            return r
        raise Unsupported('bit op ' + op)

    def pow2(self, st, b, w):
        r = self.fresh('p2', IS)
        self.assume(st, z3.Or([z3.And(b == i, r == (1 << i)) for i in range(w)]))
        return r

    def binop_bv(self, st, op, a, b, ty, node, tyb=None):
        if op in ('<<', '>>'):
            if b.size() != a.size():
                b = z3.Extract(a.size() - 1, 0, b) if b.size() > a.size() else z3.ZeroExt(a.size() - b.size(), b)
            self.oblige(st, z3.ULT(b, ty.w), 'shift amount in range', 'safety', node)
            if op == '<<': return a << b
            return (a >> b) if ty.signed else z3.LShR(a, b)
        if op in '+-*' and ty.signed:
            f = {'+': (z3.BVAddNoOverflow, z3.BVAddNoUnderflow), '-': (z3.BVSubNoOverflow, z3.BVSubNoUnderflow), '*': (z3.BVMulNoOverflow, z3.BVMulNoUnderflow)}[op]
            if op == '-':
                self.oblige(st, z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), 'no signed overflow', 'safety', node)
            else:
                self.oblige(st, z3.And(f[0](a, b, True), f[1](a, b)), 'no signed overflow', 'safety', node)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op in '/%':
            self.oblige(st, b != 0, 'no division by zero', 'safety', node)
            if ty.signed: return a / b if op == '/' else z3.SRem(a, b)
            return z3.UDiv(a, b) if op == '/' else z3.URem(a, b)
        return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[op]()

    def compare(self, op, a, b, ty):
        if ty.k == 'bool':
            return Eq(a, b) if op == '==' else Not(Eq(a, b))
        if self.bv and ty.k == 'int':
            if op == '==': return a == b
            if op == '!=': return a != b
            if ty.signed: return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
            return {'<': z3.ULT(a, b), '>': z3.UGT(a, b), '<=': z3.ULE(a, b), '>=': z3.UGE(a, b)}[op]
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = num(a), num(b)
            return z3.BoolVal({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
        if op == '==': return Eq(a, b)
        if op == '!=': return Not(Eq(a, b))
        return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()

class GhostTy(Ty):
    k = 'ghost'
    def __init__(self, sort): self.sort = sort
    def __repr__(self): return 'ghost'

def dims_total(d, eng, root): return d

def sadd(a, b):
    if isnum(a) and num(a) == 0: return b
    if isnum(b) and num(b) == 0: return a
    return z3.simplify(a + b, som=False) if (isnum(a) or isnum(b)) else a + b
def ssub(a, b):
    if isnum(b) and num(b) == 0: return a
    return z3.simplify(a - b) if (isnum(a) or isnum(b)) else a - b

FMUL = z3.Function('fmul', RS, RS, RS)
FADD = z3.Function('fadd', RS, RS, RS)
FDIV = z3.Function('fdiv', RS, RS, RS)
BAND = z3.Function('band', IS, IS, IS)
BOR = z3.Function('bor', IS, IS, IS)
BXOR = z3.Function('bxor', IS, IS, IS)
