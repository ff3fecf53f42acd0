"""Execution of statements, expressions, calls and loops."""
import z3, re, itertools
from .core import *
from .core import _q
from . import extract
from .views import View, mkview

SZ = BASIC['size_t']

def inner(n): return [c for c in n.get('inner', []) if isinstance(c, dict) and c.get('kind') and not c['kind'].endswith('Comment')]
def raw_inner(n): return n.get('inner', [])

def strip(n):
    while n.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr', 'CXXBindTemporaryExpr', 'SubstNonTypeTemplateParmExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'CXXRewrittenBinaryOperator') and inner(n):
        n = inner(n)[0]
    return n

def once(n):
    """do { ... } while (0): the usual wrapping of a macro, not a loop"""
    if n.get('kind') != 'DoStmt': return False
    c = strip(inner(n)[1])
    return (c.get('kind') == 'IntegerLiteral' and c.get('value') == '0') or (c.get('kind') == 'CXXBoolLiteralExpr' and c.get('value') is False)

class LoopSpec:
    def __init__(self, inv=None, dec=None, begin=None, end=None, exit=None, hints=None, init=None, join=False, forget=False, ret=None):
        self.ret = ret        # ghost code where the function returns from inside the loop
        self.forget = forget  # inside and after the loop only the invariant is known of what quantified facts said before it
        self.inv, self.dec, self.begin, self.end, self.exit, self.hints, self.init = inv, dec, begin, end, exit, hints, init
        self.entered = False
        self.join = join      # states that arrive at the loop on several paths are joined: only the invariant and what they have in common is kept

class Contract:
    def __init__(self, qname, requires=None, ensures=None, loops=None, dec=None, ghost=None, result=None, names=None,
                 variants=None, bv=False, recursive=False, modifies=None, ftype=None, hints=None, entry=None, inline_depth=8, cases=None, check_frame=None, inst=None, setup=None, calls=None):
        self.qname, self.requires, self.ensures = qname, requires or (lambda c: []), ensures or (lambda c: [])
        self.loops = loops or {}
        self.dec, self.ghost, self.result = dec, ghost or {}, result
        self.names = names            # baseline parameter names
        self.variants = variants or [None]
        self.bv = bv; self.recursive = recursive; self.modifies = modifies; self.ftype = ftype
        self.hints = hints; self.entry = entry; self.cases = cases
        self.inst = inst
        self.calls = calls or {}      # ghost code before calls from inside loops, by the name of the callee
        self.setup = setup            # binds reference members and iterators of the arguments to their containers

class Ctx:
    """what an annotation sees"""
    def __init__(self, eng, st, old, fr, this=None, params=None, res=None, pre=None, fn=None, contract=None, baseline=None):
        self.eng, self.st, self.old, self.fr, self.thisp, self.params, self.res, self.pre = eng, st, old, fr, this, params or [], res, pre
        self.fn, self.contract = fn, contract
    @property
    def this(self): return mkview(self.eng, self.st, self.thisp)
    @property
    def othis(self): return mkview(self.eng, self.old, self.thisp)
    @property
    def pthis(self): return mkview(self.eng, self.pre, self.thisp)
    def _ppath(self, name):
        names = self.contract.names if self.contract and self.contract.names else [p.get('name') for p in self.fn.params]
        return self.params[names.index(name)]
    def arg(self, name):
        """entry value of a by-value parameter, current value of a by-reference one"""
        p, byref = self._ppath(name)
        if isinstance(p, FnV): return p
        if byref: return mkview(self.eng, self.st, p)
        return mkview(self.eng, self.old if self.old is not None else self.st, p)
    def oarg(self, name):
        p, byref = self._ppath(name)
        return mkview(self.eng, self.old if self.old is not None else self.st, p)
    def path(self, name):
        for m in (self.names or ()):
            did = m.get(name)
            if did is not None and did in self.st.env: return self.st.env[did]
        return self.eng.lookup(self.fr, self.st, name)
    names = None       # what the names mean at this loop
    def __getitem__(self, name):
        p = self.path(name)
        if isinstance(p, FnV): return p
        return mkview(self.eng, self.st, p)
    def at_pre(self, name):
        return mkview(self.eng, self.pre, self.path(name))
    def at_old(self, name):
        return mkview(self.eng, self.old, self.path(name))
    def has(self, name):
        try: self.path(name); return True
        except Unsupported: return False
    # ghost code
    def ghost_get(self, name, sort=None):
        return self.eng.ghost_get(self.st, name, sort)
    def ghost_set(self, name, val):
        self.eng.ghost_set(self.st, name, val)
    def pghost(self, name, sort=None): return self.eng.ghost_get(self.pre, name, sort)
    def oghost(self, name, sort=None): return self.eng.ghost_get(self.old, name, sort)
    def oblige(self, f, name, using=(), only=None):
        self.eng.oblige_using(self.st, f, name, 'ghost', using, only)
        return f

class Exec(Engine):
    # ------------------------------------------------------------------ ghost variables
    def ghost_get(self, st, name, sort=None):
        k = ('$g', '.' + name)
        if k not in st.store:
            iv = self.init_leaf.get(k)
            if iv is None:
                iv = z3.Const('$g.%s@0' % name, sort); self.init_leaf[k] = iv
            st.store[k] = iv
        return st.store[k]
    def ghost_set(self, st, name, val):
        k = ('$g', '.' + name)
        for r in self.recorders: r.add(k)
        self.heapmeta[k] = val.sort()
        st.store[k] = val

    # ------------------------------------------------------------------ names
    def lookup(self, fr, st, name):
        if name in ('this',): return fr.this
        f = fr
        while f is not None:
            did = self.name_in(f, name, st)
            if did is not None: return st.env[did]
            f = f.parent
        # a callee's frame may hold it (loop moved into a helper): nothing to do
        raise Unsupported('annotation refers to %s, which is not in scope' % name)

    def name_in(self, f, name, st):
        did = f.names.get(name)
        if did is not None and did in st.env: return did
        base = (self.baseline.get('fn:' + f.fn.qname) or self.baseline.get('fn:' + f.fn.qname + '|' + f.fn.ftype)) if self.baseline else None
        if base and name in [b[0] for b in base]:
            # renamed: the k-th local of the same type in declaration order
            k = [b[0] for b in base].index(name); ty = base[k][1]
            ord_in = [b for b in base[:k] if b[1] == ty]
            cur = [o for o in self.decl_order(f.fn) if o[1] == ty]
            if len([b for b in base if b[1] == ty]) == len(cur):
                did = cur[len(ord_in)][2]
                if did in st.env: return did
        # the counter of what is a range-for by now
        lb = (self.baseline or {}).get('loops:' + self.curcontract.qname) if self.curcontract is not None else None
        for o, l in enumerate(lb or []):
            if l[1] == name and ('$i%d' % o) in f.names and f.names['$i%d' % o] in st.env: return f.names['$i%d' % o]
        return None

    def decl_order(self, fn):
        """locals and parameters of a function, in declaration order"""
        c = self.declcache.get(fn.id)
        if c is not None: return c
        out = [(p.get('name'), re.sub(r'\s+', ' ', p['type'].get('qualType', '')), p['id']) for p in fn.params]
        def walk(n):
            if not isinstance(n, dict): return
            if n.get('kind') == 'VarDecl' and n.get('name', '').startswith('__') is False:
                out.append((n.get('name'), re.sub(r'\s+', ' ', n['type'].get('qualType', '')), n['id']))
            for c2 in n.get('inner', []): walk(c2)
        if fn.body is not None: walk(fn.body)
        self.declcache[fn.id] = out
        return out

    baseline = None
    declcache = {}

    # ------------------------------------------------------------------ expressions
    def ty(self, n): return self.T.of(n['type'])

    def ev(self, n, st, fr):
        self.steps += 1
        if self.steps > self.maxsteps: raise Unsupported('symbolic execution exceeds its step limit')
        k = n['kind']
        l = n.get('range', {}).get('begin', {})
        ln = l.get('line') or (l.get('expansionLoc') or {}).get('line')
        if ln: self._line = ln
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s' % k)
        return m(n, st, fr)

    def ev1v(self, n, st, fr):
        """evaluate to a prvalue"""
        return [(s, self.val(s, v)) for s, v in self.ev(n, st, fr)]

    def evlist(self, nodes, st, fr):
        """evaluate left to right: [(st, [values])]"""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(n, s, fr): nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def e_ParenExpr(self, n, st, fr): return self.ev(inner(n)[0], st, fr)
    e_ExprWithCleanups = e_ConstantExpr = e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = e_CXXRewrittenBinaryOperator = e_ParenExpr

    def e_MaterializeTemporaryExpr(self, n, st, fr):
        out = []
        for s, v in self.ev(inner(n)[0], st, fr):
            if isinstance(v, LV) or isinstance(v, Opq): out.append((s, v)); continue
            ty = self.ty(n)
            if ty.k in ('opaque', 'fn'): out.append((s, v)); continue
            out.append((s, LV(self.temp(s, v, ty))))
        return out

    def e_IntegerLiteral(self, n, st, fr): return [(st, self.iconst(int(n['value']), self.ty(n)))]
    def e_CharacterLiteral(self, n, st, fr): return [(st, self.iconst(int(n['value']), self.ty(n)))]
    def e_CXXBoolLiteralExpr(self, n, st, fr): return [(st, TRUE if n['value'] else FALSE)]
    def e_FloatingLiteral(self, n, st, fr): return [(st, z3.RealVal(str(n['value'])))]
    def e_StringLiteral(self, n, st, fr): return [(st, Opq('string'))]
    def e_CXXNullPtrLiteralExpr(self, n, st, fr): return [(st, I(0))]
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        if n.get('name') == 'sizeof':
            t = n.get('argType')
            ty = self.T.of(t) if t else self.ty(inner(n)[0])
            return [(st, self.iconst(self.sizeof(ty), self.ty(n)))]
        raise Unsupported('type trait')

    def sizeof(self, ty):
        if ty.k == 'int': return ty.w // 8
        if ty.k == 'bool': return 1
        if ty.k in ('real', 'ptr'): return 8
        if ty.k == 'struct':
            l = self.leaves(ty)
            if len(l) == 1 and l[0][2] == 0: return self.sizeof(l[0][1])
        raise Unsupported('sizeof %r' % ty)

    def e_DeclRefExpr(self, n, st, fr):
        d = n['referencedDecl']; did = d['id']; k = d['kind']
        if did in st.env:
            p = st.env[did]
            if isinstance(p, FnV): return [(st, p)]
            return [(st, LV(p))]
        if k == 'EnumConstantDecl':
            if did in self.U.enums: return [(st, self.iconst(self.U.enums[did], self.enum_ty(n)))]
            raise Unsupported('enum constant')
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            f = self.U.fns.get(self.U.canon.get(did, did))
            if f is not None and f.body is not None: return [(st, FnV([(TRUE, f)]))]
            return [(st, Opq('fn:' + d.get('name', '')))]
        if k == 'VarDecl':
            g = self.U.globals.get(did)
            if g is None:
                return [(st, Opq('extern ' + d.get('name', '')))]
            key = ('$global', did)
            # constant global: evaluate its initialiser afresh
            q = g['type'].get('qualType', '')
            ty = self.T.of(g['type'])
            init = [c for c in inner(g) if c['kind'].endswith('Expr') or c['kind'].endswith('Literal') or c['kind'].endswith('Operator') or 'Cleanups' in c['kind']]
            if not q.startswith('const') and 'constexpr' not in g: raise Unsupported('mutable global %s' % d.get('name'))
            if not init: raise Unsupported('global without initialiser')
            out = []
            for s, v in self.ev(init[0], st, fr):
                v = self.val(s, v)
                out.append((s, LV(self.temp(s, v, ty, 'g'))))
            return out
        raise Unsupported('reference to %s %s' % (k, d.get('name')))

    def enum_ty(self, n):
        t = self.ty(n)
        return t if t.k == 'int' else TInt(32, False)

    def e_CXXThisExpr(self, n, st, fr):
        if fr.this is None: raise Unsupported('this outside of a member function')
        return [(st, self.ptr_to(fr.this))]

    def ptr_to(self, p):
        """the pointer value addressing path p"""
        if p.root.startswith('@[]') and p.sfx == '' and len(p.idx) == 2:
            return PV(Path(p.root, '', p.idx[:1], TVec(p.ty)), p.idx[1])
        if p.root.startswith('@') and p.sfx == '': return p.idx[0]
        if p.sfx.endswith('[]') and not p.root.startswith('@'):
            return PV(Path(p.root, p.sfx[:-2], p.idx[:-1], TVec(p.ty)), p.idx[-1])
        return OPtr(p)

    def deref(self, st, v, ty, node):
        """path designated by pointer/iterator value v of pointee type ty"""
        if isinstance(v, OPtr): return v.p
        if isinstance(v, PV):
            n = self.cont_len(st, v.cont)
            self.check_epoch(st, v, node)
            self.heap_live(st, v.cont, node)
            self.oblige(st, z3.And(v.off >= 0, v.off < n), 'dereference within bounds', 'safety', node)
            return self.arr_elem(v.cont, v.off)
        if z3.is_expr(v) and ty.k == 'struct' and ty.rec.qname in self.heapcls:
            root = '@' + ty.rec.qname
            self.oblige(st, z3.And(v != 0, z3.Select(self.heap_leaf(st, root, 'alive'), v)), 'no null or freed dereference', 'safety', node)
            return Path(root, '', (v,), ty)
        raise Unsupported('dereference of %r (%r)' % (v, ty))

    def check_epoch(self, st, v, node):
        if v.ep is None: return
        if v.cont.root.startswith('@[]'): return
        e = self.get_leaf(st, v.cont.root, v.cont.sfx + '.ep', GhostTy(IS), v.cont.idx)
        if e.eq(v.ep): return
        self.oblige(st, e == v.ep, 'iterator not invalidated', 'safety', node)

    def heap_live(self, st, cont, node):
        if cont.root.startswith('@[]') and cont.sfx == '':
            r = cont.idx[0]
            self.oblige(st, z3.And(r != 0, z3.Select(self.heap_leaf(st, cont.root, 'alive'), r)), 'array not null or freed', 'safety', node)

    def e_MemberExpr(self, n, st, fr):
        out = []
        base = inner(n)[0]
        for s, v in self.ev(base, st, fr):
            rd = n.get('referencedMemberDecl')
            if n.get('isArrow'):
                v = self.val(s, v)
                bt = self.ty(base)
                to = bt.to if bt.k == 'ptr' else (bt.e if bt.k == 'iter' else bt)
                if isinstance(v, Opq): out.append((s, v)); continue
                p = self.deref(s, v, to, n)
            else:
                if isinstance(v, Opq): out.append((s, v)); continue
                if not isinstance(v, LV):
                    bt = self.ty(base)
                    v = LV(self.temp(s, v, bt))
                p = v.p
            fld = self.U.decl.get(rd)
            if fld is None:
                nm = n.get('name', '')
                if p.ty.k == 'pair' and nm in ('first', 'second'):
                    out.append((s, LV(p.field(nm, p.ty.a if nm == 'first' else p.ty.b)))); continue
                f = self.U.fns.get(self.U.canon.get(rd, rd))
                if f is not None: out.append((s, ('bound', p, f))); continue
                out.append((s, ('bound', p, nm))); continue
            ft = self.T.of(fld['type'])
            bits = None
            if fld.get('isBitfield'):
                bits = extract._const_of(fld)
            if ft.k == 'ref':
                q = s.cont.get((p.root, p.sfx + '.' + fld['name']))
                if q is None: raise Unsupported('reference member of unknown target')
                out.append((s, LV(q.p if isinstance(q, OPtr) else q))); continue
            out.append((s, LV(p.field(fld['name'], ft), bits)))
        return out

    def e_ImplicitCastExpr(self, n, st, fr):
        ck = n.get('castKind')
        sub = inner(n)[0]
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr', 'BitCast', 'Dependent', 'AtomicToNonAtomic'):
            if ck == 'UserDefinedConversion' and strip(sub).get('kind') == 'LambdaExpr':
                return self.ev(strip(sub), st, fr)
            return self.ev(sub, st, fr)
        if ck == 'LValueToRValue':
            return [(s, self.val(s, v)) for s, v in self.ev(sub, st, fr)]
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
            out = []
            for s, v in self.ev(sub, st, fr):
                if isinstance(v, LV): out.append((s, LV(Path(v.p.root, v.p.sfx, v.p.idx, self.ty(n)))))
                elif isinstance(v, OPtr):
                    t = self.ty(n)
                    out.append((s, OPtr(Path(v.p.root, v.p.sfx, v.p.idx, t.to if t.k == 'ptr' else t))))
                elif isinstance(v, Agg): out.append((s, Agg(self.ty(n), v.d, v.cont)))
                elif isinstance(v, PV): out.append((s, v))
                else: out.append((s, v))
            return out
        if ck == 'ToVoid': return [(s, None) for s, v in self.ev(sub, st, fr)]
        if ck == 'NullToPointer': return [(st, I(0))]
        if ck in ('IntegralCast', 'IntegralToBoolean', 'PointerToBoolean', 'IntegralToFloating', 'FloatingCast', 'BooleanToSignedIntegral', 'FloatingToIntegral'):
            out = []
            fr_t, to_t = self.ty(sub), self.ty(n)
            if fr_t.k == 'struct' or fr_t.k == 'opaque': raise Unsupported('cast from %r' % fr_t)
            for s, v in self.ev(sub, st, fr):
                v = self.val(s, v)
                out.append((s, self.cast(s, v, fr_t, to_t, ck, n)))
            return out
        raise Unsupported('cast ' + str(ck))
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    def cast(self, s, v, fr_t, to_t, ck, n):
        if isinstance(v, Opq): return v
        if ck == 'IntegralToBoolean':
            if fr_t.k == 'bool': return v
            if self.bv: return v != z3.BitVecVal(0, v.size())
            return Not(Eq(v, I(0))) if not isnum(v) else z3.BoolVal(num(v) != 0)
        if ck == 'PointerToBoolean':
            if isinstance(v, PV): return v.cont.idx[0] != 0 if v.cont.root.startswith('@[]') else TRUE
            if isinstance(v, OPtr): return TRUE
            return v != 0
        if ck == 'IntegralToFloating': return z3.ToReal(v) if not isnum(v) else z3.RealVal(num(v))
        if ck == 'FloatingCast': return v
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            if to_t.k == 'bool': return self.cast(s, v, fr_t, to_t, 'IntegralToBoolean', n)
            if to_t.k != 'int' or fr_t.k not in ('int', 'bool'): raise Unsupported('integral cast %r -> %r' % (fr_t, to_t))
            return self.convert(s, v, fr_t, to_t)
        raise Unsupported('cast ' + ck)

    # ---- operators
    def e_UnaryOperator(self, n, st, fr):
        op = n['opcode']; sub = inner(n)[0]
        if op == '&':
            out = []
            for s, v in self.ev(sub, st, fr):
                if isinstance(v, LV): out.append((s, self.ptr_to(v.p)))
                elif isinstance(v, FnV): out.append((s, v))
                else: raise Unsupported('address of a temporary')
            return out
        if op == '*':
            out = []
            for s, v in self.ev(sub, st, fr):
                v = self.val(s, v)
                t = self.ty(sub)
                if isinstance(v, FnV): out.append((s, v)); continue
                out.append((s, LV(self.deref(s, v, t.to, n))))
            return out
        if op in ('++', '--'):
            out = []
            post = n.get('isPostfix', False)
            ty = self.ty(sub)
            for s, v in self.ev(sub, st, fr):
                old = self.load(s, v.p)
                if isinstance(old, PV): new = self.padd(s, old, 1 if op == '++' else -1, n)
                else:
                    new = self.binop(s, '+' if op == '++' else '-', self.promote(s, old, ty), self.iconst(1, self.promo_ty(ty)), self.promo_ty(ty), n)
                    new = self.demote(s, new, ty)
                self.write(s, v.p, new, v.bits)
                out.append((s, old if post else v))
            return out
        if op == '__extension__': return self.ev(sub, st, fr)
        out = []
        for s, v in self.ev(sub, st, fr):
            v = self.val(s, v)
            ty = self.ty(n)
            if op == '!': out.append((s, Not(v) if z3.is_bool(v) else v == 0))
            elif op == '+': out.append((s, v))
            elif op == '-':
                if ty.k == 'real': out.append((s, -v))
                elif self.bv:
                    out.append((s, -v))
                elif isnum(v):
                    out.append((s, self.wrap(s, I(-num(v)), ty, 'sub', n)))
                else: out.append((s, self.wrap(s, -v, ty, 'sub', n)))
            elif op == '~':
                if self.bv: out.append((s, ~v))
                elif isnum(v): out.append((s, I((~num(v)) % (1 << ty.w)) if not ty.signed else I(~num(v))))
                elif ty.w in self.wordbits: out.append((s, self.theory.notop(self, s, v, ty.w)))
                else: out.append((s, I(ty.hi - 1) - v if not ty.signed else -v - 1))
            else: raise Unsupported('unary ' + op)
        return out

    def promo_ty(self, ty):
        if ty.k == 'int' and ty.w < 32: return BASIC['int']
        if ty.k == 'bool': return BASIC['int']
        return ty
    def promote(self, s, v, ty):
        if ty.k == 'int' and ty.w < 32: return self.convert(s, v, ty, BASIC['int'])
        return v
    def demote(self, s, v, ty):
        if ty.k == 'int' and ty.w < 32: return self.convert(s, v, BASIC['int'], ty)
        return v

    def padd(self, st, p, k, node):
        if isinstance(p, OPtr): raise Unsupported('arithmetic on pointer to object')
        k = I(k) if isinstance(k, int) else k
        off = sadd(p.off, k) if not isnum(k) or num(k) >= 0 else ssub(p.off, I(-num(k)))
        off = z3.simplify(off)
        n = self.cont_len(st, p.cont)
        self.null_len(st, p.cont)
        ok = z3.And(off >= 0, off <= n)
        self.oblige(st, ok, 'pointer arithmetic within bounds', 'safety', node)
        return PV(p.cont, off, p.ep, p.ty)

    def e_BinaryOperator(self, n, st, fr):
        op = n['opcode']; l, r = inner(n)
        if op == ',':
            out = []
            for s, v in self.ev(l, st, fr): out += self.ev(r, s, fr)
            return out
        if op == '=':
            out = []
            for s, rv in self.ev(r, st, fr):
                rv = self.val(s, rv)
                for s2, lv in self.ev(l, s, fr):
                    if not isinstance(lv, LV): raise Unsupported('assignment to non-lvalue')
                    self.write(s2, lv.p, rv, lv.bits)
                    out.append((s2, lv))
            return out
        if op in ('&&', '||'): return self.shortcut(op, l, r, st, fr)
        out = []
        tl, tr = self.ty(l), self.ty(r)
        for s, (a, b) in self.evlist([l, r], st, fr):
            a = self.val(s, a); b = self.val(s, b)
            out.append((s, self.binary(s, op, a, b, tl, tr, self.ty(n), n)))
        return out

    def binary(self, s, op, a, b, tl, tr, t, n):
        if isinstance(a, Opq) or isinstance(b, Opq): return Opq('op')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if isinstance(a, (PV, OPtr)) or isinstance(b, (PV, OPtr)): return self.pcmp(s, op, a, b, n)
            return self.compare(op, a, b, tl)
        if isinstance(a, PV) and isinstance(b, PV) and op == '-':
            return self.pdiff(s, a, b, n)
        if isinstance(a, PV) and op in '+-':
            k = self.index_val(s, b, tr)
            return self.padd(s, a, k if op == '+' else (I(-num(k)) if isnum(k) else -k), n)
        if isinstance(b, PV) and op == '+':
            return self.padd(s, b, self.index_val(s, a, tl), n)
        return self.binop(s, op, a, b, t, n, tr)

    def index_val(self, s, v, ty): return v

    def same_cont(self, s, a, b, n):
        if a.cont.same(b.cont): return True
        if a.cont.root == b.cont.root and a.cont.sfx == b.cont.sfx and len(a.cont.idx) == len(b.cont.idx):
            self.oblige(s, And([x == y for x, y in zip(a.cont.idx, b.cont.idx)]), 'pointers into the same array', 'safety', n)
            return True
        raise Unsupported('pointers into different containers %r %r' % (a.cont, b.cont))

    def pdiff(self, s, a, b, n):
        self.same_cont(s, a, b, n)
        return ssub(a.off, b.off)

    def pcmp(self, s, op, a, b, n):
        if isinstance(a, PV) and isinstance(b, PV):
            if a.cont.root.startswith('@[]') and not a.cont.same(b.cont) and op in ('==', '!='):
                e = z3.And(a.cont.idx[0] == b.cont.idx[0], a.off == b.off)
                return e if op == '==' else Not(e)
            self.same_cont(s, a, b, n)
            if a.ep is not None: self.check_epoch(s, a, n)
            if b.ep is not None: self.check_epoch(s, b, n)
            return self.compare(op, a.off, b.off, SZ) if not self.bv else {'==': a.off == b.off, '!=': a.off != b.off}[op]
        if isinstance(a, OPtr) and isinstance(b, OPtr):
            if a.p.same(b.p): e = TRUE
            elif a.p.root != b.p.root or a.p.sfx != b.p.sfx: e = FALSE
            else: e = And([x == y for x, y in zip(a.p.idx, b.p.idx)])
            return e if op == '==' else Not(e)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (PV, OPtr)) and z3.is_expr(y) and isnum(y) and num(y) == 0:
                e = x.cont.idx[0] == 0 if isinstance(x, PV) and x.cont.root.startswith('@[]') else FALSE
                return e if op == '==' else Not(e)
        raise Unsupported('pointer comparison')

    def e_CompoundAssignOperator(self, n, st, fr):
        op = n['opcode'][:-1]; l, r = inner(n)
        out = []
        tl, tr = self.ty(l), self.ty(r)
        ct = self.T.of(n['computeResultType']) if 'computeResultType' in n else tl
        clt = self.T.of(n['computeLHSType']) if 'computeLHSType' in n else tl
        for s, rv in self.ev(r, st, fr):
            rv = self.val(s, rv)
            for s2, lv in self.ev(l, s, fr):
                cur = self.load(s2, lv.p)
                if isinstance(cur, PV): new = self.padd(s2, cur, rv if op == '+' else -rv, n)
                elif isinstance(cur, Opq) or isinstance(rv, Opq): new = Opq()
                else:
                    if tl.k in ('int', 'bool') and clt.k == 'int' and repr(tl) != repr(clt): cur = self.convert(s2, cur, tl, clt)
                    new = self.binop(s2, op, cur, rv, ct, n, tr)
                    if ct.k == 'int' and tl.k == 'int' and repr(ct) != repr(tl): new = self.convert(s2, new, ct, tl)
                    if ct.k == 'int' and tl.k == 'bool': new = self.cast(s2, new, ct, tl, 'IntegralToBoolean', n)
                self.write(s2, lv.p, new, lv.bits)
                out.append((s2, lv))
        return out

    def unchanged(self, before, after):
        for k, v in before.store.items():
            w = after.store.get(k)
            if w is not v and not (w is not None and w.eq(v)): return False
        for k, v in before.cont.items():
            if after.cont.get(k) is not v: return False
        return True

    def new_facts(self, st, base):
        out = []; p = st.pc
        while p is not None and p is not base:
            out.append(p); p = p.up
        out.reverse()
        return out

    def graft(self, st, cond, s2, base):
        """import into st the facts of s2 gathered under cond since base, and its lazily created leaves"""
        for p in self.new_facts(s2, base):
            if p.tag == 'def': self.assume(st, p.f, 'def')
            else: self.assume(st, Imp(cond, p.f))
        for k, v in s2.store.items():
            if k not in st.store: st.store[k] = v
        for k, v in s2.env.items():
            if k not in st.env: st.env[k] = v
        for k, v in s2.cont.items():
            if k not in st.cont: st.cont[k] = v

    def shortcut(self, op, l, r, st, fr):
        out = []
        for s, a in self.ev(l, st, fr):
            a = self.val(s, a)
            if not z3.is_expr(a): raise Unsupported('opaque condition')
            cond = a if op == '&&' else Not(a)      # RHS evaluated when cond holds
            if self.implied(s, cond):
                for s2, b in self.ev1v(r, s, fr): out.append((s2, b))
                continue
            if self.implied(s, Not(cond)):
                out.append((s, FALSE if op == '&&' else TRUE)); continue
            base = s.copy()
            s1 = s.copy(); self.assume(s1, cond)
            mark = s1.pc
            res = self.ev1v(r, s1, fr)
            if len(res) == 1 and self.unchanged(base, res[0][0]) and z3.is_expr(res[0][1]):
                s2, b = res[0]
                self.graft(s, cond, s2, mark)
                out.append((s, And(a, b) if op == '&&' else Or(a, b)))
            else:
                out += res
                self.assume(base, Not(cond))
                out.append((base, FALSE if op == '&&' else TRUE))
        return out

    def e_ConditionalOperator(self, n, st, fr):
        c, a, b = inner(n)
        sb = strip(b)
        if sb.get('kind') == 'CallExpr' and strip(inner(sb)[0]).get('referencedDecl', {}).get('name') == '__assert_fail':
            txt = strip(inner(sb)[1]).get('value', '?')
            out = []
            for s, v in self.ev1v(c, st, fr):
                self.oblige(s, v, 'assert %s' % txt, 'assert', n)
                if z3.is_false(v): continue
                out.append((s, None))
            return out
        out = []
        for s, cv in self.ev1v(c, st, fr):
            if self.implied(s, cv): out += self.ev(a, s, fr); continue
            if self.implied(s, Not(cv)): out += self.ev(b, s, fr); continue
            base = s.copy()
            sa, sb_ = s.copy(), s.copy()
            self.assume(sa, cv); self.assume(sb_, Not(cv))
            ma, mb = sa.pc, sb_.pc
            ra, rb = self.ev(a, sa, fr), self.ev(b, sb_, fr)
            if len(ra) == 1 and len(rb) == 1 and self.unchanged(base, ra[0][0]) and self.unchanged(base, rb[0][0]):
                va, vb = ra[0][1], rb[0][1]
                if not isinstance(va, LV) and not isinstance(vb, LV):
                    m = self.merge_val(cv, va, vb)
                    if m is not None:
                        self.graft(s, cv, ra[0][0], ma); self.graft(s, Not(cv), rb[0][0], mb)
                        out.append((s, m)); continue
            out += ra + rb
        return out

    def merge_val(self, c, a, b):
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort(): return Ite(c, a, b)
        if isinstance(a, FnV) and isinstance(b, FnV):
            return FnV([(And(c, x), f) for x, f in a.alts] + [(And(Not(c), x), f) for x, f in b.alts])
        if isinstance(a, Agg) and isinstance(b, Agg) and not a.cont and not b.cont and set(a.d) == set(b.d):
            return Agg(a.ty, {k: Ite(c, a.d[k], b.d[k]) for k in a.d})
        if isinstance(a, Opq) and isinstance(b, Opq): return a
        return None

    def e_ArraySubscriptExpr(self, n, st, fr):
        out = []
        l, r = inner(n)
        for s, (a, b) in self.evlist([l, r], st, fr):
            a = self.val(s, a); b = self.val(s, b)
            if not isinstance(a, PV): raise Unsupported('subscript of %r' % a)
            nlen = self.cont_len(s, a.cont)
            off = sadd(a.off, b)
            self.heap_live(s, a.cont, n)
            self.oblige(s, z3.And(off >= 0, off < nlen), 'index within bounds', 'safety', n)
            out.append((s, LV(self.arr_elem(a.cont, off))))
        return out

    def e_LambdaExpr(self, n, st, fr):
        rec = [c for c in inner(n) if c['kind'] == 'CXXRecordDecl'][0]
        op = None
        for c in inner(rec):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': op = c
        if any(c.get('kind') == 'FieldDecl' for c in inner(rec)): raise Unsupported('capturing lambda')
        f = extract.Fn()
        f.node = op; f.id = op['id']; f.name = 'operator()'; f.qname = 'lambda@%s' % op['id']; f.cls = None; f.kind = 'FunctionDecl'
        f.is_static = True; f.is_const = True; f.ftype = op['type']['qualType']; f.ret = op['type']
        f.params = [c for c in inner(op) if c['kind'] == 'ParmVarDecl']; f.inits = []
        b = [c for c in inner(op) if c['kind'] == 'CompoundStmt']
        f.body = b[0] if b else [c for c in inner(n) if c['kind'] == 'CompoundStmt'][0]
        f.prev = None; f.file = fr.fn.file; f.line = None; f.is_virtual = False
        return [(st, FnV([(TRUE, f)]))]

    def e_CXXDefaultArgExpr(self, n, st, fr):
        if inner(n): return self.ev(inner(n)[0], st, fr)
        raise Unsupported('default argument')

    def e_ImplicitValueInitExpr(self, n, st, fr): return [(st, self.zero(st, self.ty(n), fr))]
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def zero(self, st, ty, fr):
        if ty.k == 'int': return self.iconst(0, ty)
        if ty.k == 'bool': return FALSE
        if ty.k == 'real': return z3.RealVal(0)
        if ty.k == 'ptr': return I(0)
        if ty.k == 'opaque': return Opq()
        return self.default_value(st, ty, fr, zero=True)

    def e_InitListExpr(self, n, st, fr):
        ty = self.ty(n); el = inner(n)
        if ty.k in ('int', 'bool', 'real', 'ptr'):
            if not el: return [(st, self.zero(st, ty, fr))]
            return self.ev1v(el[0], st, fr)
        if ty.k == 'struct':
            if not el: return [(st, self.default_value(st, ty, fr, zero=True))]
            out = []
            for s, vs in self.evlist(el, st, fr):
                p = self.temp(s, self.default_agg(s, ty), ty)
                for f, v in zip(ty.rec.fields, vs):
                    self.write(s, p.field(f['name'], self.T.of(f['type'])), self.val(s, v))
                out.append((s, self.load(s, p)))
            return out
        if ty.k == 'opaque': return [(st, Opq())]
        raise Unsupported('initialiser list of %r' % ty)

    # ------------------------------------------------------------------ statements
    def ex(self, n, st, fr):
        """[(kind, st, value)]"""
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None: return m(n, st, fr)
        return [(NORMAL, s, None) for s, v in self.ev(n, st, fr)]

    def ex_seq(self, nodes, st, fr):
        cur = [(NORMAL, st, None)]
        for n in nodes:
            nxt = []
            norm = [s for k, s, v in cur if k == NORMAL]
            if n['kind'] in ('WhileStmt', 'DoStmt') and not once(n) and len(norm) > 1 and self.loop_spec(n, fr)[0].join:
                nxt = [x for x in cur if x[0] != NORMAL]
                nxt += self.loop_joined(n, norm, fr)
                cur = nxt; continue
            for k, s, v in cur:
                if k != NORMAL: nxt.append((k, s, v))
                else: nxt += self.ex(n, s, fr)
            cur = nxt
            if len(cur) > 400: raise Unsupported('too many paths')
        return cur

    def s_CompoundStmt(self, n, st, fr): return self.ex_seq(inner(n), st, fr)
    def s_NullStmt(self, n, st, fr): return [(NORMAL, st, None)]
    def s_ReturnStmt(self, n, st, fr):
        if not inner(n): return [(RET, st, None)]
        out = []
        for s, v in self.ev(inner(n)[0], st, fr): out.append((RET, s, v))
        return out
    def s_BreakStmt(self, n, st, fr): return [(BREAK, st, None)]
    def s_ContinueStmt(self, n, st, fr): return [(CONT, st, None)]
    def s_AttributedStmt(self, n, st, fr): return self.ex(inner(n)[-1], st, fr)

    def s_DeclStmt(self, n, st, fr):
        cur = [st]
        for d in inner(n):
            nxt = []
            for s in cur: nxt += self.decl(d, s, fr)
            cur = nxt
        return [(NORMAL, s, None) for s in cur]

    def decl(self, d, st, fr):
        if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'UsingDirectiveDecl'): return [st]
        if d['kind'] != 'VarDecl': raise Unsupported('declaration ' + d['kind'])
        if d.get('storageClass') == 'static': raise Unsupported('static local')
        ty = self.T.of(d['type'])
        init = [c for c in inner(d) if not c['kind'].endswith('Attr')]
        nm = d.get('name', '_')
        fr.names[nm] = d['id']
        if not init:
            p = Path('v:%s~%d' % (nm, next(self.fresh_n)), '', (), ty)
            if ty.k not in ('iter', 'opaque', 'fn', 'ptr'): self.write(st, p, self.default_value(st, ty, fr, zero=False))
            st.env[d['id']] = p
            return [st]
        out = []
        for s, v in self.ev(init[-1], st, fr):
            if ty.k == 'ref':
                if isinstance(v, LV): s.env[d['id']] = v.p
                elif isinstance(v, Opq): s.env[d['id']] = Path('opq~%d' % next(self.fresh_n), '', (), TOpaque('?'))
                else: s.env[d['id']] = self.temp(s, v, ty.to)
                out.append(s); continue
            if isinstance(v, FnV): s.env[d['id']] = v; out.append(s); continue
            p = Path('v:%s~%d' % (nm, next(self.fresh_n)), '', (), ty)
            v = self.val(s, v)
            if not isinstance(v, Opq): self.write(s, p, v)
            s.env[d['id']] = p
            out.append(s)
        return out

    def s_IfStmt(self, n, st, fr):
        parts = inner(n)
        pre = []
        if n.get('hasInit'): pre.append(parts.pop(0))
        if n.get('hasVar'): pre.append(parts.pop(0))
        cond, then = parts[0], parts[1]
        els = parts[2] if len(parts) > 2 else None
        out = []
        for k, s0, v0 in self.ex_seq(pre, st, fr):
            for s, c in self.ev1v(cond, s0, fr):
                if not z3.is_expr(c): raise Unsupported('opaque condition')
                if self.implied(s, c): out += self.ex(then, s, fr); continue
                if self.implied(s, Not(c)):
                    out += self.ex(els, s, fr) if els else [(NORMAL, s, None)]; continue
                s2 = s.copy()
                self.assume(s, c); self.assume(s2, Not(c))
                s.trail = s.trail + (('T', self._line),)
                s2.trail = s2.trail + (('F', self._line),)
                out += self.ex(then, s, fr)
                out += self.ex(els, s2, fr) if els else [(NORMAL, s2, None)]
        return out

    # ---- loops
    def s_WhileStmt(self, n, st, fr):
        p = inner(n)
        if n.get('hasVar'): raise Unsupported('while with declaration')
        return self.loop(n, st, fr, p[0], p[1], None, False)
    def s_DoStmt(self, n, st, fr):
        p = inner(n)
        if once(n): return [(NORMAL if k in (BREAK, CONT) else k, s, v) for k, s, v in self.ex(p[0], st, fr)]
        return self.loop(n, st, fr, p[1], p[0], None, True)
    def s_ForStmt(self, n, st, fr):
        p = raw_inner(n)
        init, cv, cond, inc, body = [x if x and x.get('kind') else None for x in p]
        if cv: raise Unsupported('for with condition variable')
        out = []
        for k, s, v in (self.ex(init, st, fr) if init else [(NORMAL, st, None)]):
            self.alias_counter(n, s, fr)
            out += self.loop(n, s, fr, cond, body, inc, False)
        return out

    def counter_of(self, n):
        """for (T i = 0; i < e; i++): (name, id, e)"""
        if n.get('kind') != 'ForStmt': return None
        init, cv, cond, inc, body = [x if x and x.get('kind') else None for x in raw_inner(n)]
        if not init or not cond or not inc or init.get('kind') != 'DeclStmt': return None
        v = inner(init)[0]
        if v.get('kind') != 'VarDecl' or not inner(v): return None
        z = strip(inner(v)[-1])
        if z.get('kind') != 'IntegerLiteral' or z.get('value') != '0': return None
        u = strip(inc)
        if u.get('kind') != 'UnaryOperator' or u.get('opcode') != '++': return None
        c = strip(cond)
        if c.get('kind') != 'BinaryOperator' or c.get('opcode') not in ('<', '!='): return None
        l = strip(inner(c)[0])
        if l.get('referencedDecl', {}).get('id') != v['id']: return None
        return v.get('name'), v['id'], inner(c)[1]

    def alias_counter(self, n, st, fr):
        """an index loop where the annotations were written for a range-for: the index is the number of elements visited"""
        o = self.loopmap.get((fr.site, n['id']))
        b = (self.baseline or {}).get('loops:' + self.curcontract.qname) if self.curcontract is not None else None
        if o is None or not b or o >= len(b) or b[o][0] != 'CXXForRangeStmt': return
        c = self.counter_of(n)
        if c is None: return
        fr.names['$i%s' % o] = c[1]; fr.names['$i'] = c[1]
        self.counted[(fr.site, n['id'])] = c
    counted = {}

    def loop_spec(self, n, fr):
        key = (fr.site, n['id'])
        o = self.loopmap.get(key)
        c = self.curcontract
        if o is not None and c is not None and o in c.loops: return c.loops[o], o
        return LoopSpec(), o

    def loop(self, n, st, fr, cond, body, inc, is_do):
        spec, ordn = self.loop_spec(n, fr)
        name = 'loop%s' % (ordn if ordn is not None else '?')
        return self.loop_core(n, st, fr, spec, name,
                              cond=(lambda s: self.ev1v(cond, s, fr)) if cond is not None else (lambda s: [(s, TRUE)]),
                              body=lambda s: self.ex(body, s, fr),
                              inc=(lambda s: [x for x, _ in self.ev(inc, s, fr)]) if inc is not None else None, is_do=is_do)

    def loop_joined(self, n, sts, fr):
        spec, ordn = self.loop_spec(n, fr)
        name = 'loop%s' % (ordn if ordn is not None else '?')
        # variables declared on each path separately get one common home
        ids = set(sts[0].env)
        for s in sts[1:]: ids &= set(s.env)
        for d in sorted(ids):
            ps = [s.env[d] for s in sts]
            if all(isinstance(p, Path) for p in ps) and not all(p.same(ps[0]) for p in ps):
                if all(p.root.startswith('v:') and not p.sfx and not p.idx for p in ps):
                    np = Path(re.sub(r'~\d+$', '', ps[0].root) + '~%d' % next(self.fresh_n), '', (), ps[0].ty)
                    for s, p in zip(sts, ps):
                        if all((p.root, p.sfx + l[0]) in s.store for l in self.leaves(p.ty)):
                            self.write(s, np, self.load(s, p))
                        s.env[d] = np
                else:
                    ids.discard(d)
            elif not all(isinstance(p, Path) for p in ps) and not all(p is ps[0] for p in ps): ids.discard(d)
        for s in sts:
            ctx = self.lctx(s, fr, s.copy(), n)
            if spec.init: spec.init(ctx)
            for nm, f in (spec.inv(ctx) if spec.inv else []): self.oblige(s, f, '%s invariant holds on entry: %s' % (name, nm), 'inv', n)
        m = State.new()
        pcs = []
        for s in sts:
            l = []; p = s.pc
            while p is not None: l.append(p); p = p.up
            l.reverse(); pcs.append(l)
        k = 0
        while all(len(l) > k and l[k] is pcs[0][k] for l in pcs): k += 1
        m.pc = pcs[0][k - 1] if k else None
        t = 0
        while all(len(s.trail) > t and s.trail[t] == sts[0].trail[t] for s in sts): t += 1
        m.trail = sts[0].trail[:t]
        for d in ids: m.env[d] = sts[0].env[d]
        keys = set()
        for s in sts: keys |= set(s.store)
        for key in sorted(keys):
            vs = [s.store.get(key, self.init_leaf.get(key)) for s in sts]
            if any(v is None for v in vs): continue
            if all(v.eq(vs[0]) for v in vs): m.store[key] = vs[0]
            else: self.havoc_key(m, key)
        for key in set(sts[0].cont):
            cs = [s.cont.get(key) for s in sts]
            if all(c is cs[0] or (isinstance(c, Path) and isinstance(cs[0], Path) and c.same(cs[0])) for c in cs): m.cont[key] = cs[0]
        sp = LoopSpec(spec.inv, spec.dec, spec.begin, spec.end, spec.exit, spec.hints)
        sp.entered = True
        if n['kind'] == 'DoStmt': p = inner(n); cond, body, do = p[1], p[0], True
        else: p = inner(n); cond, body, do = p[0], p[1], False
        return self.loop_core(n, m, fr, sp, name, cond=lambda s: self.ev1v(cond, s, fr), body=lambda s: self.ex(body, s, fr), inc=None, is_do=do)

    def before_call(self, name, st, params):
        f = self.curcontract.calls.get(name) if self.curcontract else None
        if f is None or not self.loopctx: return
        n, fr, pre, h, hi = self.loopctx[-1]
        cx = self.lctx(st, fr, pre, n)
        cx.head, cx.headinv = h, hi
        f(cx, params)

    def lctx(self, st, fr, pre, n=None):
        r = self.rootinfo
        c = Ctx(self, st, self.entry_state, fr, this=r['this'], params=r['params'], pre=pre, fn=r['fn'], contract=self.curcontract)
        if n is not None: c.names = self.loop_names(n, fr)
        return c

    def loop_names(self, n, fr):
        """the names visible at a loop: those declared in its own body, then those visible where it starts"""
        key = (fr.site, n['id'])
        r = self.loopnames.get(key)
        if r is None:
            own = {}
            if n['kind'] == 'CXXForRangeStmt':
                lv = inner(raw_inner(n)[6])[0]; own[lv.get('name')] = lv['id']
                body = raw_inner(n)[7]
            elif n['kind'] == 'DoStmt': body = inner(n)[0]
            else: body = inner(n)[-1]
            for x in (inner(body) if body.get('kind') == 'CompoundStmt' else [body]):
                if x.get('kind') == 'DeclStmt':
                    for d in inner(x):
                        if d.get('kind') == 'VarDecl': own[d.get('name')] = d['id']
            r = self.loopnames[key] = (own, dict(fr.names))
        return r
    loopnames = {}

    def live_iters(self, st):
        """iterator/pointer locals with a static container: (root, sfx) -> container"""
        return {k: c for k, c in st.cont.items() if isinstance(c, Path)}

    def loop_core(self, n, st, fr, spec, name, cond, body, inc, is_do):
        pre = st.copy()
        mark = next(self.fresh_n)
        # drop candidate invariants that an iteration does not keep
        dropped = set()
        W = set()
        for attempt in range(40):
            st1 = pre.copy()
            save = (len(self.obls), set(self.notes))
            res, rec, bad = self.loop_try(n, st1, fr, spec, name, cond, body, inc, is_do, pre, mark, W, dropped)
            new = {k for k in rec if self.outer_root(k[0], mark)} - W
            if not new and not bad:
                return res
            W |= new
            dropped |= bad
            del self.obls[save[0]:]
        raise Unsupported('loop write set does not stabilise')

    def outer_root(self, root, mark):
        m = re.search(r'~(\d+)$', root)
        if m is None: return True
        return int(m.group(1)) < mark

    def havoc_key(self, st, k):
        root, sfx = k
        if sfx.endswith('!cont'): return
        if k in self.heapmeta:
            st.store[k] = self.fresh('h' + root + sfx, self.heapmeta[k]); return
        if k in self.leafinfo: ty, tot = self.leafinfo[k]; dims = tot + self.rootdims(root)
        elif k in self.init_ty: ty, dims = self.init_ty[k]
        else: raise Unsupported('cannot havoc %s%s' % k)
        c = self.fresh('h' + root + sfx, self.sort_of(ty, dims))
        st.store[k] = c
        self.range_fact(st, c, ty, dims, sfx)

    def loop_try(self, n, st, fr, spec, name, cond, body, inc, is_do, pre, mark, W, dropped):
        bad = set()
        # --- automatic candidates: iterator epochs agree with their containers
        def cands(s):
            out = []
            for k, c in self.live_iters(s).items():
                if k[1].endswith('!cont'): continue
                if not self.outer_root(k[0], mark): continue
                ek = (k[0], k[1] + '.ep')
                if ek in s.store and not c.root.startswith('@[]'):
                    e = self.get_leaf(s, c.root, c.sfx + '.ep', GhostTy(IS), c.idx)
                    out.append((('ep', k), e == s.store[ek]))
            return out
        ctr = self.counted.get((fr.site, n['id']))
        if ctr is not None:
            cands0 = cands
            def cands(s):
                out = cands0(s)
                if ctr[1] in s.env:
                    try:
                        s2 = s.copy(); k = (len(self.obls), set(self.notes))
                        e = self.ev1v(ctr[2], s2, fr)
                        del self.obls[k[0]:]
                        if len(e) == 1:
                            if 'unsigned' in ctr[2]['type'].get('desugaredQualType', ctr[2]['type']['qualType']): self.assume(s, e[0][1] >= 0, 'def')
                            out.append((('ctr',), z3.And(self.load(s, s.env[ctr[1]]) >= 0, self.load(s, s.env[ctr[1]]) <= e[0][1])))
                    except Unsupported: pass
                return out
        cset = []
        for key, f in cands(st):
            if key in dropped: continue
            if self.implied(st, f): cset.append(key)
        ctx = self.lctx(st, fr, pre, n)
        if spec.init: spec.init(ctx)
        if spec.inv and not spec.entered:
            for nm, f in spec.inv(ctx): self.oblige(st, f, '%s invariant holds on entry: %s' % (name, nm), 'inv', n)
        head = st
        for k in sorted(W): self.havoc_key(head, k)
        for key, f in cands(head):
            if key in cset: self.assume(head, f)
        if spec.forget: head.drop_quantified()
        ctx = self.lctx(head, fr, pre, n)
        headinv = {}
        if spec.inv:
            for nm, f in spec.inv(ctx): self.assume(head, f, 'inv'); headinv[nm] = f
        headpre = head.copy()
        if spec.begin: spec.begin(ctx)
        dec0 = None
        if spec.dec:
            dec0 = spec.dec(ctx); dec0 = list(dec0) if isinstance(dec0, (list, tuple)) else [dec0]
        elif not self.mute: self.notes.add('termination of %s in %s not proved' % (name, self.cur))
        conts0 = dict(head.cont)
        headcopy = head.copy()
        exits = []
        changed = set()     # what a completed iteration leaves changed: exactly this is unknown at the loop head
        def back(s):
            for k2, c in conts0.items():
                if not self.outer_root(k2[0], mark): continue
                c2 = s.cont.get(k2)
                if c2 is not c and not (isinstance(c, Path) and isinstance(c2, Path) and c.same(c2)):
                    if isinstance(c, Path) and isinstance(c2, Path): raise Unsupported('iterator changes container in a loop')
                    raise Unsupported('pointer target changes in a loop')
            cx = self.lctx(s, fr, pre, n)
            cx.head, cx.headinv = headcopy, headinv
            if spec.end: spec.end(cx)
            for k2, v2 in s.store.items():
                v1 = headpre.store.get(k2)
                if v1 is None: v1 = self.init_leaf.get(k2)
                if v1 is None or not (v1 is v2 or v1.eq(v2)): changed.add(k2)
            for key, f in cands(s):
                if key in cset and not self.implied(s, f): bad.add(key)
            if spec.inv:
                for nm, f in spec.inv(cx): self.oblige(s, f, '%s invariant preserved: %s' % (name, nm), 'inv', n)
            if dec0 is not None:
                d1 = spec.dec(cx); d1 = list(d1) if isinstance(d1, (list, tuple)) else [d1]
                g = FALSE; eqs = TRUE
                for a, b in zip(dec0, d1):
                    g = Or(g, And(eqs, b < a, a >= 0)); eqs = And(eqs, a == b)
                self.oblige(s, g, '%s terminates' % name, 'dec', n)
        def after_cond(s):
            for s2, c in cond(s):
                if z3.is_true(c) or self.implied(s2, c): yield (s2, None)
                elif z3.is_false(c) or self.implied(s2, Not(c)): yield (None, s2)
                else:
                    s3 = s2.copy()
                    self.assume(s2, c); self.assume(s3, Not(c))
                    yield (s2, s3)
        def run_body(s):
            self.loopctx.append((n, fr, pre, headcopy, headinv))
            try: ends = list(body(s))
            finally: self.loopctx.pop()
            for k, s2, v in ends:
                if k in (NORMAL, CONT):
                    yield ('go', s2, None)
                elif k == BREAK: exits.append((NORMAL, s2, None))
                else:
                    if spec.ret and k == RET:
                        cx = self.lctx(s2, fr, pre, n); cx.head, cx.headinv = headcopy, headinv
                        spec.ret(cx)
                    exits.append((k, s2, v))
        if is_do:
            for _, s2, _ in run_body(head):
                for t, f in after_cond(s2):
                    if t is not None: back(t)
                    if f is not None: exits.append((NORMAL, f, None))
        else:
            for t, f in after_cond(head):
                if f is not None: exits.append((NORMAL, f, None))
                if t is not None:
                    t.trail = t.trail + (('L', self._line),)
                    for _, s2, _ in run_body(t):
                        if inc is not None:
                            for s3 in inc(s2): back(s3)
                        else: back(s2)
        if spec.exit:
            for k, s, v in exits:
                if k == NORMAL: spec.exit(self.lctx(s, fr, pre, n))
        return exits, changed, bad

    # ---- range for
    def s_CXXForRangeStmt(self, n, st, fr):
        parts = [x for x in raw_inner(n)]
        # [init, range, begin, end, cond, inc, loopvar, body]
        rng, loopvar, body = parts[1], parts[6], parts[7]
        rinit = inner(inner(rng)[0])[-1]
        lv = inner(loopvar)[0]
        out = []
        for s, r in self.ev(rinit, st, fr):
            if not isinstance(r, LV): raise Unsupported('range-for over a temporary')
            cp = r.p
            # a derived container class
            ct = self.container_ty(cp.ty)
            cp = Path(cp.root, cp.sfx, cp.idx, ct)
            if ct.k == 'vec': out += self.range_vec(n, s, fr, cp, lv, body)
            elif ct.k == 'set': out += self.range_set(n, s, fr, cp, lv, body)
            else: raise Unsupported('range-for over %r' % cp.ty)
        return out

    def container_ty(self, ty):
        while ty.k == 'struct':
            b = [self.T.of(x) for x in ty.rec.bases]
            if not b: return ty
            ty = b[0]
        return ty

    def bind_loopvar(self, s, fr, lv, path):
        ty = self.T.of(lv['type'])
        fr.names[lv.get('name')] = lv['id']
        if ty.k == 'ref': s.env[lv['id']] = path
        else:
            p = Path('v:%s~%d' % (lv.get('name'), next(self.fresh_n)), '', (), ty)
            self.write(s, p, self.load(s, path)); s.env[lv['id']] = p

    def range_vec(self, n, st, fr, cp, lv, body):
        spec, ordn = self.loop_spec(n, fr)
        name = 'loop%s' % (ordn if ordn is not None else '?')
        ip = Path('v:$i%s~%d' % (ordn, next(self.fresh_n)), '', (), SZ)
        self.write(st, ip, I(0))
        fr.names['$i%s' % ordn] = '$i%s' % id(n); st.env['$i%s' % id(n)] = ip
        fr.names['$i'] = '$i%s' % id(n)
        ep0 = self.get_leaf(st, cp.root, cp.sfx + '.ep', GhostTy(IS), cp.idx)
        len0 = self.cont_len(st, cp)
        def cond(s):
            i = self.load(s, ip)
            self.assume(s, z3.And(i >= 0, i <= len0), 'def')
            return [(s, i < len0)]
        def bd(s):
            i = self.load(s, ip)
            e = self.get_leaf(s, cp.root, cp.sfx + '.ep', GhostTy(IS), cp.idx)
            if not e.eq(ep0): self.oblige(s, z3.And(e == ep0, self.cont_len(s, cp) == len0), 'range not invalidated while iterating', 'safety', n)
            self.bind_loopvar(s, fr, lv, self.arr_elem(cp, i))
            return self.ex(body, s, fr)
        def inc(s):
            i = self.load(s, ip); self.write(s, ip, i + 1); return [s]
        sp = LoopSpec(spec.inv, spec.dec or (lambda c: len0 - mkview(self, c.st, ip)), spec.begin, spec.end, spec.exit, spec.hints, spec.init, spec.join, spec.forget, spec.ret)
        return self.loop_core(n, st, fr, sp, name, cond, bd, inc, False)

    def range_set(self, n, st, fr, cp, lv, body):
        spec, ordn = self.loop_spec(n, fr)
        name = 'loop%s' % (ordn if ordn is not None else '?')
        so = z3.ArraySort(IS, BS)
        g = 'visited%s' % ordn
        S0 = self.get_leaf(st, cp.root, cp.sfx, GhostTy(so), cp.idx)
        self.ghost_set(st, g, z3.K(IS, FALSE))
        more = lambda s: None
        def cond(s):
            V = self.ghost_get(s, g, so)
            b = self.fresh('more', BS)
            x = self.fresh('next', IS)
            self.assume(s, Imp(b, z3.And(z3.Select(S0, x), Not(z3.Select(V, x)))), 'def')
            self.assume(s, Imp(Not(b), FA('e', lambda e: Imp(z3.Select(S0, e), z3.Select(V, e)), lambda e: [z3.Select(S0, e), z3.Select(V, e)])), 'def')
            self.setnext = x
            return [(s, b)]
        def bd(s):
            x = self.setnext
            S1 = self.get_leaf(s, cp.root, cp.sfx, GhostTy(so), cp.idx)
            if not S1.eq(S0): raise Unsupported('set modified while iterating over it')
            V = self.ghost_get(s, g, so)
            self.ghost_set(s, g, z3.Store(V, x, TRUE))
            ety = cp.ty.e
            p = Path('v:$elem~%d' % next(self.fresh_n), '', (), ety)
            self.write(s, p, self.key_to_val(ety, x))
            for f in self.range_facts(x, self.key_leaf(ety)[1], 0): self.assume(s, f, 'def')
            self.bind_loopvar(s, fr, lv, p)
            return self.ex(body, s, fr)
        inv0 = spec.inv
        def inv(c):
            V = self.ghost_get(c.st, g, so)
            base = [('only elements of the set are visited', FA('e', lambda e: Imp(z3.Select(V, e), z3.Select(S0, e)), lambda e: [z3.Select(V, e)]))]
            return base + (inv0(c) if inv0 else [])
        self.notes.add('iteration over std::set: every element exactly once, in an unspecified order (finite set: terminates)')
        sp = LoopSpec(inv, spec.dec or (lambda c: I(0)), spec.begin, spec.end, spec.exit, spec.hints, spec.init, spec.join, spec.forget, spec.ret)
        sp.dec = None
        m = self.notes
        r = self.loop_core(n, st, fr, sp, name, cond, bd, None, False)
        return r

    def key_leaf(self, ety):
        if ety.k in ('int',): return ('', ety)
        l = self.leaves(ety)
        if len(l) != 1 or l[0][2] != 0: raise Unsupported('set of %r' % ety)
        return l[0][0], l[0][1]
    def key_to_val(self, ety, x):
        if ety.k == 'int': return x
        return Agg(ety, {self.key_leaf(ety)[0]: x})
    def val_to_key(self, v):
        if isinstance(v, Agg): return list(v.d.values())[0]
        return v
