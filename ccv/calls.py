"""Calls: contracts, inlining, constructors, and the models of the standard library."""
import z3, re
from .core import *
from .execu import *
from . import extract

SETSORT = z3.ArraySort(IS, BS)

class Calls(Exec):
    # ------------------------------------------------------------------ dispatch
    def e_CallExpr(self, n, st, fr):
        parts = inner(n)
        cal = strip(parts[0])
        args = parts[1:]
        if cal['kind'] == 'DeclRefExpr':
            rd = cal['referencedDecl']
            f = self.U.fns.get(self.U.canon.get(rd['id'], rd['id']))
            if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                if f is not None and (f.body is not None):
                    return self.call_args(n, f, None, args, st, fr)
                return self.std_fn(rd.get('name', ''), n, args, st, fr)
        out = []
        for s, v in self.ev(parts[0], st, fr):
            v = self.val(s, v)
            if isinstance(v, FnV):
                out += self.call_fnv(n, v, args, s, fr)
            else: raise Unsupported('call through %r' % (v,))
        return out

    def call_fnv(self, n, v, args, st, fr):
        out = []
        if len(v.alts) == 1: return self.call_target(n, v.alts[0][1], args, st, fr)
        for c, f in v.alts:
            s2 = st.copy()
            if self.implied(s2, Not(c)): continue
            self.assume(s2, c)
            out += self.call_target(n, f, args, s2, fr)
        return out

    def call_target(self, n, f, args, st, fr):
        if isinstance(f, extract.Fn): return self.call_args(n, f, None, args, st, fr)
        # abstract function (spec-level)
        out = []
        for s, vs in self.evlist(args, st, fr):
            out += f(self, s, [self.val(s, v) for v in vs])
        return out

    def e_CXXMemberCallExpr(self, n, st, fr):
        parts = inner(n)
        cal = strip(parts[0]) if parts[0]['kind'] != 'MemberExpr' else parts[0]
        args = parts[1:]
        if cal['kind'] != 'MemberExpr': raise Unsupported('member call through ' + cal['kind'])
        out = []
        for s, v in self.ev(cal, st, fr):
            if isinstance(v, Opq):
                self.scan_pure(args)
                out.append((s, Opq())); continue
            if not (isinstance(v, tuple) and v[0] == 'bound'): raise Unsupported('member call of %r' % (v,))
            _, p, f = v
            if isinstance(f, extract.Fn) and f.body is not None:
                out += self.call_args(n, f, p, args, s, fr)
            else:
                nm = f if isinstance(f, str) else f.name
                if p.ty.k == 'fn' and nm.startswith('operator ') and not args:      # lambda to function pointer
                    out.append((s, self.load(s, p))); continue
                out += self.std_method(nm, n, p, args, s, fr)
        return out

    def e_CXXOperatorCallExpr(self, n, st, fr):
        parts = inner(n)
        cal = strip(parts[0]); args = parts[1:]
        rd = cal.get('referencedDecl', {})
        nm = rd.get('name', '')
        f = self.U.fns.get(self.U.canon.get(rd.get('id'), rd.get('id')))
        if nm == 'operator=':
            # right operand first
            if f is not None and f.body is not None and f.kind == 'CXXMethodDecl' and not self.trivial_body(f):
                pass
            else:
                out = []
                for s, rv in self.ev(args[1], st, fr):
                    rv = self.val(s, rv)
                    for s2, lv in self.ev(args[0], s, fr):
                        if isinstance(lv, Opq): out.append((s2, lv)); continue
                        self.assign_agg(s2, lv.p, rv)
                        out.append((s2, lv))
                return out
        if f is not None and f.body is not None:
            if self.is_stream(f): 
                self.scan_pure(args)
                return [(st, Opq('stream'))]
            if f.cls is not None and not f.is_static and f.kind == 'CXXMethodDecl':
                out = []
                for s, v in self.ev(args[0], st, fr):
                    if isinstance(v, FnV): out += self.call_fnv(n, v, args[1:], s, fr); continue
                    if not isinstance(v, LV): v = LV(self.temp(s, v, self.ty(args[0])))
                    out += self.call_args(n, f, v.p, args[1:], s, fr)
                return out
            return self.call_args(n, f, None, args, st, fr)
        if nm == 'operator()':
            out = []
            for s, v in self.ev(args[0], st, fr):
                v = self.val(s, v) if isinstance(v, LV) else v
                if not isinstance(v, FnV): raise Unsupported('call of object')
                out += self.call_fnv(n, v, args[1:], s, fr)
            return out
        return self.std_op(nm, n, args, st, fr)

    def trivial_body(self, f):
        return f.node.get('isImplicit') or f.node.get('explicitlyDefaulted')

    def assign_agg(self, st, p, v):
        if p.ty.k == 'struct' or p.ty.k in ('vec', 'set', 'pair'):
            self.write(st, p, v)
            self.bump_eps(st, p)
        else: self.write(st, p, v)

    def bump_eps(self, st, p):
        """assigned-to vectors invalidate their iterators"""
        ct = self.container_ty(p.ty)
        if ct.k == 'vec': self.new_epoch(st, Path(p.root, p.sfx, p.idx, ct))

    def is_stream(self, f):
        return 'ostream' in f.ftype.split('(')[0]

    def scan_pure(self, nodes):
        """the expressions handed to dropped logging code must not write program state"""
        def walk(n):
            if not isinstance(n, dict): return
            k = n.get('kind')
            if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'): raise Unsupported('side effect inside logging')
            if k == 'CompoundAssignOperator' or (k == 'BinaryOperator' and n.get('opcode') == '='): raise Unsupported('side effect inside logging')
            for c in n.get('inner', []): walk(c)
        for n in nodes: walk(n)

    # ------------------------------------------------------------------ repository functions
    def param_ty(self, p): return self.T.of(p['type'])

    def call_args(self, n, f, this, args, st, fr):
        """evaluate arguments, bind them, then contract or inline"""
        out = []
        ptys = [self.param_ty(p) for p in f.params]
        res = [(st, [])]
        for i, p in enumerate(f.params):
            nxt = []
            for s, vs in res:
                if i < len(args) and args[i]['kind'] != 'CXXDefaultArgExpr': lst = self.ev(args[i], s, fr)
                else:
                    init = self.default_arg(f, i)
                    lst = self.ev(init, s, fr)
                for s2, v in lst: nxt.append((s2, vs + [v]))
            res = nxt
        for s, vs in res:
            bound = []
            for p, t, v in zip(f.params, ptys, vs):
                if t.k == 'ref':
                    if isinstance(v, LV): bound.append((v.p, True))
                    elif isinstance(v, (FnV,)): bound.append((v, True))
                    elif isinstance(v, Opq): bound.append((Path('opq~%d' % next(self.fresh_n), '', (), TOpaque('?')), True))
                    else: bound.append((self.temp(s, v, t.to), True))
                else:
                    v = self.val(s, v)
                    if isinstance(v, FnV): bound.append((v, False)); continue
                    if isinstance(v, Opq): bound.append((Path('opq~%d' % next(self.fresh_n), '', (), TOpaque('?')), False)); continue
                    bound.append((self.temp(s, v, t, 'a:' + (p.get('name') or '_')), False))
            if self.is_stream(f):
                out.append((s, Opq('stream'))); continue
            rt = self.ret_ty(f)
            if rt.k == 'opaque' and 'string' in rt.s:
                out.append((s, Opq('string'))); continue
            out += self.call_bound(n, f, this, bound, s, fr)
        return out

    def default_arg(self, f, i):
        for g in [f] + [self.U.fns[x] for x in extract._chain(self.U, f.id) if x in self.U.fns]:
            if i < len(g.params):
                ii = inner(g.params[i])
                if ii: return ii[0]
        raise Unsupported('default argument of %s' % f.qname)

    def ret_ty(self, f):
        q = f.ftype
        # "ret (args) quals" ; lambdas "auto (..) const -> ret"
        m = re.search(r'->\s*(.*)$', q)
        if m: return self.T.parse(m.group(1))
        d = 0
        for i, ch in enumerate(q):
            if ch == '<': d += 1
            elif ch == '>': d -= 1
            elif ch == '(' and d == 0: return self.resolve_ty(q[:i].strip(), f)
        return self.T.parse(q)

    def resolve_ty(self, s, f):
        t = self.T.parse(s)
        if t.k == 'ref':
            if t.to.k == 'opaque': return TRef(self.resolve_ty(t.to.s, f)) if t.to.s != s else t
            return t
        if t.k == 'opaque' and f is not None and f.cls is not None:
            base = t.s
            q = f.cls.qname
            while q:
                t2 = self.T.parse(q + '::' + base)
                if t2.k != 'opaque': return t2
                q = '::'.join(q.split('::')[:-1])
        return t

    def call_bound(self, n, f, this, bound, st, fr):
        c = self.contracts.get(f.qname)
        if isinstance(c, list):
            c = next((x for x in c if x.ftype is None or x.ftype in f.ftype), None)
        if c is not None and not (c.inst and c.inst == 'inline'):
            if self.inside_ok(f, c): return self.apply_contract(n, f, c, this, bound, st, fr)
        if f.qname in self.stack: raise Unsupported('recursive call of %s without contract' % f.qname)
        return self.inline(n, f, this, bound, st, fr)

    def inside_ok(self, f, c): return True
    stack = ()

    def inline(self, n, f, this, bound, st, fr):
        if f.body is None: raise Unsupported('no body: ' + f.qname)
        self.inlined.add(f.qname)
        site = (fr.site + (n['id'],)) if fr is not None else ()
        nf = Frame(f, this, fr, site)
        for i, (p, (b, byref)) in enumerate(zip(f.params, bound)):
            if p.get('name'): nf.names[p['name']] = p['id']
            st.env[p['id']] = b
            nf.params[i] = p['id']
        old = self.stack; self.stack = old + (f.qname,)
        try:
            out = []
            for k, s, v in self.ex(f.body, st, nf):
                if k == RET or k == NORMAL: out.append((s, v))
                else: raise Unsupported('stray break')
        finally:
            self.stack = old
        return out

    # ------------------------------------------------------------------ contract application
    def subst_path(self, key, this, bound):
        """map a write (root, sfx) of a verified function to the caller's paths"""
        root, sfx = key
        if root == 'this': return (this.root, this.sfx + sfx, this.idx)
        m = re.match(r'^&(\d+)$', root)
        if m:
            b = bound[int(m.group(1))][0]
            return (b.root, b.sfx + sfx, b.idx)
        return (root, sfx, ())

    def apply_contract(self, n, f, c, this, bound, st, fr):
        self.used_contracts.add(f.qname)
        self.check_alias(f, c, this, bound)
        cx = Ctx(self, st, None, fr, this=this, params=bound, fn=f, contract=c)
        cx.old = st
        self.before_call(f.qname.split('::')[-1], st, cx)
        for nm, g in c.requires(cx):
            self.oblige(st, g, 'precondition of %s: %s' % (f.qname.split('::')[-1], nm), 'pre', n, assume=not has_quant(g))
        if c.dec is not None and f.qname in self.rec_group:
            a = self.entry_dec
            b = c.dec(cx)
            a = a if isinstance(a, list) else [a]; b = b if isinstance(b, list) else [b]
            g = FALSE; eqs = TRUE
            for x, y in zip(a, b):
                g = Or(g, And(eqs, y < x, x >= 0)); eqs = And(eqs, x == y)
            self.oblige(st, g, 'recursive call of %s terminates' % f.qname.split('::')[-1], 'dec', n)
        mods = self.modset(f, c)
        old = st.copy()
        for key in sorted(mods):
            root, sfx, idx = self.subst_path(key, this, bound)
            self.havoc_at(st, root, sfx, idx, key)
        rt = self.ret_ty(f)
        res = None
        if c.result is not None:
            cx = Ctx(self, st, old, fr, this=this, params=bound, fn=f, contract=c)
            res = c.result(cx)
        elif rt.k == 'ref': raise Unsupported('contract of a reference-returning function needs result=')
        elif rt.k != 'void' and f.kind != 'CXXConstructorDecl' and f.kind != 'CXXDestructorDecl':
            res = self.fresh_value(st, rt, 'r:' + f.name)
        cx = Ctx(self, st, old, fr, this=this, params=bound, fn=f, contract=c, res=self.res_view(st, res, rt))
        if res is not None and isinstance(res, PV): pass
        for nm, g in c.ensures(cx): self.assume(st, g)
        return [(st, res)]

    def res_view(self, st, res, rt):
        if isinstance(res, Agg):
            p = self.temp(st, res, res.ty, 'res')
            return mkview(self, st, p)
        if isinstance(res, LV): return mkview(self, st, res.p)
        return res

    def fresh_value(self, st, ty, nm):
        if ty.k in ('int', 'bool', 'real'):
            v = self.fresh(nm, leafsort(ty, self.bv))
            self.range_fact(st, v, ty, 0)
            return v
        if ty.k == 'ptr':
            if self.is_arrayptr(ty):
                return PV(self.heap_array(ty.to, self.fresh(nm, IS)), self.fresh(nm, IS))
            return self.fresh(nm, IS)
        if ty.k in ('struct', 'vec', 'pair', 'set'):
            d = {}
            for s, t, dm in self.leaves(ty):
                c = self.fresh(nm + s, self.sort_of(t, dm)); d[s] = c
                self.range_fact(st, c, t, dm, s)
            return Agg(ty, d)
        if ty.k == 'opaque': return Opq(ty.s)
        raise Unsupported('result of type %r' % ty)

    def havoc_at(self, st, root, sfx, idx, key):
        if sfx.endswith('!cont'): raise Unsupported('callee retargets a pointer')
        for r in self.recorders: r.add((root, sfx))
        if not idx or (root, sfx) in self.heapmeta:
            k = (root, sfx)
            if k not in self.heapmeta and k not in self.leafinfo and k not in self.init_ty:
                info = self.modinfo.get(key)
                if info is None: raise Unsupported('cannot havoc %s%s' % k)
                if info[0] == 'meta': self.heapmeta[k] = info[1]
                else: self.leafinfo[k] = (info[0], self.leafdims(sfx))
            self.havoc_key(st, k); return
        info = self.modinfo.get(key) 
        ty = info[0] if info else None
        if ty is None or ty == 'meta':
            if (root, sfx) in self.leafinfo: ty = self.leafinfo[(root, sfx)][0]
            elif (root, sfx) in self.init_ty: ty = self.init_ty[(root, sfx)][0]
            else: raise Unsupported('cannot havoc %s%s' % (root, sfx))
        dims = self.leafdims(sfx) + self.rootdims(root) - len(idx)
        c = self.fresh('h' + root + sfx, self.sort_of(ty, dims))
        self.range_fact(st, c, ty, dims, sfx)
        self.set_leaf(st, root, sfx, ty, idx, c)

    def check_alias(self, f, c, this, bound):
        """by-reference arguments of a contracted call must not overlap"""
        ps = []
        if this is not None and not f.is_static: ps.append(('this', this))
        for i, (b, byref) in enumerate(bound):
            if byref and isinstance(b, Path) and b.ty.k != 'opaque': ps.append((i, b))
        for i in range(len(ps)):
            for j in range(i + 1, len(ps)):
                a, b = ps[i][1], ps[j][1]
                if a.root != b.root: continue
                if a.sfx.startswith(b.sfx) or b.sfx.startswith(a.sfx):
                    nm = (ps[i][0], ps[j][0])
                    if self.variant and nm in self.variant.get('alias_ok', ()): continue
                    if nm in (c.cases or ()): continue
                    raise Unsupported('aliased arguments in a call of %s' % f.qname)

    # modification sets: what the callee's body writes (computed once, by executing it)
    def modset(self, f, c):
        if c.modifies is not None:
            out = set()
            for m in c.modifies:
                out |= set(m(self)) if callable(m) else {m}
            for k in out: self.modinfo.setdefault(k, self.modinfo_guess(k))
            return out
        if f.qname + f.ftype in self.modcache: return self.modcache[f.qname + f.ftype]
        self.compute_mods(f, c)
        return self.modcache[f.qname + f.ftype]

    def modinfo_guess(self, k):
        root, sfx = k
        if (root, sfx) in self.leafinfo: return (self.leafinfo[k][0], None)
        if sfx in ('.$alive', '.$len'): return ('meta', z3.ArraySort(IS, BS if sfx == '.$alive' else IS))
        if root.startswith('@'):
            rec = self.U.recq.get(root[1:])
            if rec is not None:
                for s, t, d in self.leaves(TStruct(rec)):
                    if s == sfx: return (t, None)
            if root.startswith('@[]'):
                ty = self.T.parse(root[3:])
                for s, t, d in self.leaves(ty):
                    if s == sfx: return (t, None)
        if root == '$g':
            if k in self.heapmeta: return ('meta', self.heapmeta[k])
            if k in self.init_leaf: return ('meta', self.init_leaf[k].sort())
            if sfx[1:] in self.ghost_sorts: return ('meta', self.ghost_sorts[sfx[1:]])
        return None
    ghost_sorts = {}

    # ------------------------------------------------------------------ constructors
    def default_value(self, st, ty, fr, zero=True):
        """value-/default-initialised object"""
        if ty.k in ('int', 'bool', 'real', 'ptr'):
            if zero: return self.zero(st, ty, fr)
            return self.fresh_value(st, ty, 'u')
        if ty.k == 'struct':
            ct = self.container_ty(ty)
            if ct.k in ('vec', 'set'):
                a = self.default_agg(st, ct); return Agg(ty, a.d)
            rec = ty.rec
            dc = [m for m in rec.methods if m.kind == 'CXXConstructorDecl' and not m.params and m.body is not None and not m.node.get('isImplicit')]
            p = Path('new~%d' % next(self.fresh_n), '', (), ty)
            if dc:
                r = self.run_ctor(dc[0], p, [], st, fr, None)
                if len(r) != 1: raise Unsupported('branching default constructor')
                return self.load(r[0], p)
            self.implicit_ctor(rec, p, st, fr, zero)
            return self.load(st, p)
        if ty.k in ('vec', 'set', 'pair'):
            return self.default_agg(st, ty, zero=True)
        if ty.k in ('opaque', 'fn'): return Opq()
        return self.default_agg(st, ty, zero)

    def implicit_ctor(self, rec, p, st, fr, zero):
        for f in rec.fields:
            ft = self.T.of(f['type'])
            ii = [x for x in inner(f) if x['kind'] not in ('ConstantExpr',) or not f.get('isBitfield')]
            ii = [x for x in ii if not x['kind'].endswith('Comment') and not x['kind'].endswith('Attr')]
            fp = p.field(f['name'], ft)
            if f.get('hasInClassInitializer') and ii:
                nf = Frame(self.pseudo_fn(), p, fr, (fr.site if fr else ()) + (f['id'],))
                r = self.ev(ii[-1], st, nf)
                if len(r) != 1: raise Unsupported('branching member initialiser')
                self.write(st, fp, self.val(st, r[0][1]))
            elif ft.k in ('iter', 'ref', 'opaque', 'fn'):
                continue
            else:
                self.write(st, fp, self.default_value(st, ft, fr, zero))
        for g, so in self.ghost_fields.get(rec.qname, {}).items():
            pass

    def pseudo_fn(self):
        f = extract.Fn(); f.qname = '<init>'; f.name = '<init>'; f.params = []; f.body = None; f.id = '<init>'; f.file = None; f.ftype = 'void ()'
        f.cls = None; f.kind = 'FunctionDecl'; f.is_static = False; f.is_const = False; f.inits = []
        return f

    def run_ctor(self, f, p, bound, st, fr, n):
        """construct *p with constructor f; returns [st]"""
        self.inlined.add(f.qname)
        site = (fr.site if fr else ()) + ((n['id'],) if n is not None else ())
        nf = Frame(f, p, fr, site)
        for i, (pp, (b, byref)) in enumerate(zip(f.params, bound)):
            if pp.get('name'): nf.names[pp['name']] = pp['id']
            st.env[pp['id']] = b
        rec = f.cls
        inits = {}
        for it in f.inits:
            ai = it.get('anyInit')
            if ai is None:
                # base initialiser: only containers / empty bases are supported
                sub = inner(it)
                if it.get('baseInit') is not None or True:
                    inits['$base'] = sub[0]
                continue
            inits[ai['id']] = inner(it)[0]
        states = [st]
        if '$base' in inits:
            nxt = []
            for s in states:
                for s2, v in self.ev(inits['$base'], s, nf):
                    v = self.val(s2, v)
                    self.write(s2, Path(p.root, p.sfx, p.idx, v.ty), v); nxt.append(s2)
            states = nxt
        for fld in rec.fields:
            ft = self.T.of(fld['type'])
            fp = p.field(fld['name'], ft)
            e = inits.get(fld['id'])
            nxt = []
            for s in states:
                if e is not None and e['kind'] != 'CXXDefaultInitExpr':
                    for s2, v in self.ev(e, s, nf):
                        if ft.k == 'ref':
                            if not isinstance(v, LV): raise Unsupported('reference member bound to a temporary')
                            for r in self.recorders: r.add((fp.root, fp.sfx + '!cont'))
                            s2.cont[(fp.root, fp.sfx)] = OPtr(v.p)
                        else:
                            bits = extract._const_of(fld) if fld.get('isBitfield') else None
                            v = self.val(s2, v)
                            if not isinstance(v, Opq): self.write(s2, fp, v, bits)
                        nxt.append(s2)
                elif fld.get('hasInClassInitializer'):
                    ii = inner(fld)
                    for s2, v in self.ev(ii[-1], s, nf):
                        self.write(s2, fp, self.val(s2, v)); nxt.append(s2)
                else:
                    if ft.k not in ('iter', 'opaque', 'fn', 'ref'): self.write(s, fp, self.default_value(s, ft, fr, zero=False))
                    nxt.append(s)
            states = nxt
        for g, so in self.ghost_fields.get(rec.qname, {}).items(): pass
        out = []
        old = self.stack; self.stack = old + (f.qname,)
        try:
            for s in states:
                if f.body is None: out.append(s); continue
                for k, s2, v in self.ex(f.body, s, nf): out.append(s2)
        finally: self.stack = old
        return out

    def find_ctor(self, rec, ctype):
        c = [m for m in rec.methods if m.kind == 'CXXConstructorDecl' and m.ftype == ctype]
        d = [m for m in c if m.body is not None]
        if d: return d[0]
        for m in c:
            x = self.U.fns.get(self.U.canon.get(m.id, m.id))
            if x is not None and x.body is not None: return x
        return c[0] if c else None

    def e_CXXConstructExpr(self, n, st, fr, target=None):
        ty = self.ty(n)
        args = inner(n)
        ctype = n.get('ctorType', {}).get('qualType', '')
        if ty.k == 'fn' or (args and '(lambda' in str(n['type'])): return self.ev(args[0], st, fr)
        if ty.k == 'opaque':
            self.scan_pure(args)
            return [(st, Opq(ty.s))]
        if ty.k in ('vec', 'set', 'pair', 'iter'): return self.std_ctor(ty, ctype, args, n, st, fr)
        if ty.k != 'struct': raise Unsupported('construct %r' % ty)
        # copy / move
        if len(args) == 1:
            at = self.ty(args[0])
            if at.k == 'struct' and at.rec is ty.rec and ('&' in ctype):
                f = self.find_ctor(ty.rec, ctype)
                if f is None or f.body is None or f.node.get('isImplicit') or f.node.get('explicitlyDefaulted') or True:
                    custom = f is not None and f.body is not None and not f.node.get('isImplicit') and not f.node.get('explicitlyDefaulted')
                    if not custom or (not inner(f.body) and self.is_memberwise(f)):
                        return [(s, self.val(s, v)) for s, v in self.ev(args[0], st, fr)]
        ct = self.container_ty(ty)
        if ct.k in ('vec', 'set'):
            return [(s, Agg(ty, v.d, v.cont)) for s, v in self.std_ctor(ct, ctype, args, n, st, fr)]
        f = self.find_ctor(ty.rec, ctype)
        zeroing = n.get('zeroing', False)
        if f is None or (f.body is None and not f.inits):
            if args: raise Unsupported('constructor of %r' % ty)
            p = target or Path('new~%d' % next(self.fresh_n), '', (), ty)
            self.implicit_ctor(ty.rec, p, st, fr, zeroing)
            return [(st, self.load(st, p) if target is None else LV(p))]
        out = []
        if f.node.get('isImplicit') or f.node.get('explicitlyDefaulted'):
            if not args:
                p = target or Path('new~%d' % next(self.fresh_n), '', (), ty)
                self.implicit_ctor(ty.rec, p, st, fr, zeroing)
                return [(st, self.load(st, p) if target is None else LV(p))]
        # bind
        res = [(st, [])]
        for i, pp in enumerate(f.params):
            nxt = []
            for s, vs in res:
                if i < len(args) and args[i]['kind'] != 'CXXDefaultArgExpr': lst = self.ev(args[i], s, fr)
                else: lst = self.ev(self.default_arg(f, i), s, fr)
                for s2, v in lst: nxt.append((s2, vs + [v]))
            res = nxt
        for s, vs in res:
            bound = []
            for pp, v in zip(f.params, vs):
                t = self.param_ty(pp)
                if t.k == 'ref':
                    if isinstance(v, LV): bound.append((v.p, True))
                    else: bound.append((self.temp(s, v, t.to), True))
                else:
                    v = self.val(s, v)
                    bound.append((v, False) if isinstance(v, FnV) else (self.temp(s, v, t), False))
            p = target or Path('new~%d' % next(self.fresh_n), '', (), ty)
            c = self.contracts.get(f.qname)
            if isinstance(c, list): c = next((x for x in c if x.ftype is None or x.ftype in f.ftype), None)
            if c is not None:
                r = self.apply_contract(n, f, c, p, bound, s, fr)
                out += [(s2, self.load(s2, p) if target is None else LV(p)) for s2, _ in r]
            else:
                out += [(s2, self.load(s2, p) if target is None else LV(p)) for s2 in self.run_ctor(f, p, bound, s, fr, n)]
        return out
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def is_memberwise(self, f):
        names = {it.get('anyInit', {}).get('id') for it in f.inits}
        return all(x['id'] in names for x in f.cls.fields)

    def e_CXXNewExpr(self, n, st, fr):
        ty = self.ty(n).to
        parts = inner(n)
        if n.get('isArray'):
            out = []
            # size expression first, optional initialiser
            size_e = parts[0]
            for s, v in self.ev1v(size_e, st, fr):
                root = '@[]' + repr(ty)
                ref = self.fresh('new', IS)
                al = self.heap_leaf(s, root, 'alive')
                self.assume(s, z3.And(ref > 0, Not(z3.Select(al, ref))))
                self.set_heap_leaf(s, root, 'alive', ref, TRUE)
                self.set_heap_leaf(s, root, 'len', ref, v)
                for sf, t, d in self.leaves(ty):
                    c = self.fresh('na' + sf, self.sort_of(t, d + 1))
                    self.set_leaf(s, root, sf, t, (ref,), c)
                self.notes.add('allocation never fails and returns a cell that is not in use')
                out.append((s, PV(self.heap_array(ty, ref), I(0))))
            return out
        if ty.k != 'struct' or ty.rec.qname not in self.heapcls: raise Unsupported('new %r' % ty)
        root = '@' + ty.rec.qname
        ce = [p for p in parts if p['kind'] in ('CXXConstructExpr', 'InitListExpr')]
        out = []
        ref = self.fresh('new', IS)
        target = Path(root, '', (ref,), ty)
        s = st
        al = self.heap_leaf(s, root, 'alive')
        self.assume(s, z3.And(ref > 0, Not(z3.Select(al, ref))))
        self.notes.add('allocation never fails and returns a cell that is not in use')
        for s2, v in self.e_CXXConstructExpr(ce[0], s, fr, target):
            self.set_heap_leaf(s2, root, 'alive', ref, TRUE)
            h = self.new_hooks.get(ty.rec.qname)
            if h: h(self, s2, ref)
            out.append((s2, ref))
        return out
    new_hooks = {}
    del_hooks = {}

    def e_CXXDeleteExpr(self, n, st, fr):
        out = []
        for s, v in self.ev1v(inner(n)[0], st, fr):
            t = self.ty(inner(n)[0]).to
            if isinstance(v, PV):
                root = v.cont.root; ref = v.cont.idx[0]
                self.oblige(s, z3.Or(ref == 0, z3.And(z3.Select(self.heap_leaf(s, root, 'alive'), ref), v.off == 0)), 'delete[] of a live array', 'safety', n)
                self.set_heap_leaf(s, root, 'alive', ref, FALSE)
                out.append((s, None)); continue
            if t.k != 'struct': raise Unsupported('delete %r' % t)
            root = '@' + t.rec.qname
            branches = []
            if self.implied(s, v != 0): branches = [s]
            else:
                s0 = s.copy(); self.assume(s0, v == 0)
                if not self.implied(s, v == 0): self.assume(s, v != 0); branches = [s]
                out.append((s0, None))
            for s1 in branches:
                self.oblige(s1, z3.Select(self.heap_leaf(s1, root, 'alive'), v), 'delete of a live object', 'safety', n)
                f = t.rec.dtor
                if f is not None:
                    f = self.U.fns.get(self.U.canon.get(f.id, f.id), f)
                if f is not None and f.body is not None:
                    p = Path(root, '', (v,), t)
                    res = self.call_bound(n, f, p, [], s1, fr)
                else: res = [(s1, None)]
                for s2, _ in res:
                    self.set_heap_leaf(s2, root, 'alive', v, FALSE)
                    h = self.del_hooks.get(t.rec.qname)
                    if h: h(self, s2, v)
                    out.append((s2, None))
        return out

    # ------------------------------------------------------------------ std::vector primitives
    def new_epoch(self, st, p):
        if p.root.startswith('@[]'): return
        e = self.get_leaf(st, p.root, p.sfx + '.ep', GhostTy(IS), p.idx)
        self.set_leaf(st, p.root, p.sfx + '.ep', GhostTy(IS), p.idx, z3.simplify(e + 1))

    def set_len(self, st, p, v):
        if self.maxlen < 1 << 60:
            if not self.implied(st, v < self.maxlen):
                self.assume(st, v < self.maxlen, 'def'); self.notes.add('no vector reaches %d elements (memory)' % self.maxlen)
        self.set_leaf(st, p.root, p.sfx + '.len', SZ, p.idx, v)

    def epoch(self, st, p): return self.get_leaf(st, p.root, p.sfx + '.ep', GhostTy(IS), p.idx)

    def elem_leaves(self, p): return self.leaves(p.ty.e)

    def rewrite_elems(self, st, p, fn, extra_pat=False):
        """every element leaf array A of p is replaced by A' with A'[j] = fn(leaf suffix, A, j)"""
        for sf, t, d in self.elem_leaves(p):
            full = p.sfx + '[]' + sf
            A = self.get_leaf(st, p.root, full, t, p.idx)
            B = self.fresh('vec' + sf, A.sort())
            self.assume(st, FA('j', lambda j: z3.Select(B, j) == fn(sf, A, j), lambda j: [z3.Select(B, j)] + ([z3.Select(A, j)] if extra_pat else []), name='vecop'), 'def')
            self.set_leaf(st, p.root, full, t, p.idx, B)

    def as_vec(self, p):
        t = self.container_ty(p.ty)
        return Path(p.root, p.sfx, p.idx, t)

    def elem_d(self, st, ety, v):
        """leaf dictionary of an element value"""
        if ety.k in ('int', 'bool', 'real'): return {'': v}
        if isinstance(v, Agg): return v.d
        if ety.k == 'ptr' and z3.is_expr(v): return {'': v}
        raise Unsupported('element value %r' % (v,))

    def bounds(self, st, p, i, n):
        self.oblige(st, z3.And(i >= 0, i < self.cont_len(st, p)), 'index within bounds', 'safety', n)

    # ------------------------------------------------------------------ std methods
    def std_method(self, nm, n, p, args, st, fr):
        ct = self.container_ty(p.ty)
        if ct.k == 'vec': return self.vec_method(nm, n, Path(p.root, p.sfx, p.idx, ct), args, st, fr)
        if ct.k == 'set': return self.set_method(nm, n, Path(p.root, p.sfx, p.idx, ct), args, st, fr)
        if ct.k == 'opaque':
            self.scan_pure(args); return [(st, Opq())]
        raise Unsupported('method %s of %r' % (nm, p.ty))

    def begin(self, st, p): return PV(p, I(0), self.epoch(st, p) if not p.root.startswith('@[]') else None)
    def end(self, st, p): return PV(p, self.cont_len(st, p), self.epoch(st, p))

    def vec_method(self, nm, n, p, args, st, fr):
        out = []
        ety = p.ty.e
        def one(s, v): return [(s, v)]
        if nm == 'size': return one(st, self.cont_len(st, p))
        if nm == 'empty': return one(st, self.cont_len(st, p) == 0)
        if nm in ('begin', 'cbegin'): return one(st, self.begin(st, p))
        if nm in ('end', 'cend'): return one(st, self.end(st, p))
        if nm == 'data': return one(st, self.begin(st, p))
        if nm in ('capacity', 'max_size'): raise Unsupported('vector::' + nm)
        if nm == 'reserve':
            for s, vs in self.evlist(args, st, fr):
                self.new_epoch(s, p); out.append((s, None))
            return out
        if nm == 'shrink_to_fit':
            self.new_epoch(st, p); return one(st, None)
        if nm == 'clear':
            self.set_len(st, p, I(0)); self.new_epoch(st, p); return one(st, None)
        if nm in ('back', 'front'):
            l = self.cont_len(st, p)
            self.oblige(st, l > 0, '%s() of a non-empty vector' % nm, 'safety', n)
            return one(st, LV(p.elem(z3.simplify(l - 1) if nm == 'back' else I(0), ety)))
        if nm in ('operator[]', 'at'):
            for s, vs in self.evlist(args, st, fr):
                i = self.val(s, vs[0]); self.bounds(s, p, i, n)
                out.append((s, LV(p.elem(i, ety))))
            return out
        if nm in ('push_back', 'emplace_back'):
            if nm == 'emplace_back' and (len(args) != 1): raise Unsupported('emplace_back')
            for s, vs in self.evlist(args, st, fr):
                v = self.val(s, vs[0])
                l = self.cont_len(s, p)
                self.write(s, p.elem(l, ety), v)
                self.set_len(s, p, z3.simplify(l + 1)); self.new_epoch(s, p)
                out.append((s, None))
            return out
        if nm == 'pop_back':
            l = self.cont_len(st, p)
            self.oblige(st, l > 0, 'pop_back() of a non-empty vector', 'safety', n)
            self.set_len(st, p, z3.simplify(l - 1))
            return one(st, None)
        if nm == 'resize':
            for s, vs in self.evlist(args, st, fr):
                k = self.val(s, vs[0]); k = self.val_to_key(k)
                l = self.cont_len(s, p)
                dv = self.val(s, vs[1]) if len(vs) > 1 else self.default_value(s, ety, fr, zero=True)
                d = self.elem_d(s, ety, dv)
                if not self.implied(s, k <= l):
                    self.rewrite_elems(s, p, lambda sf, A, j: Ite(j < l, z3.Select(A, j), d[sf]))
                self.set_len(s, p, k); self.new_epoch(s, p)
                out.append((s, None))
            return out
        if nm == 'assign': raise Unsupported('vector::assign')
        if nm == 'insert':
            for s, vs in self.evlist(args, st, fr):
                it = self.val(s, vs[0])
                if not isinstance(it, PV): raise Unsupported('insert position')
                self.same_cont(s, it, self.begin(s, p), n); self.check_epoch(s, it, n)
                l = self.cont_len(s, p); off = it.off
                self.oblige(s, z3.And(off >= 0, off <= l), 'insert position within bounds', 'safety', n)
                if len(vs) == 2: cnt, v = I(1), self.val(s, vs[1])
                elif len(vs) == 3 and self.ty(args[1]).k == 'int': cnt, v = self.val(s, vs[1]), self.val(s, vs[2])
                else: raise Unsupported('vector range insert')
                d = self.elem_d(s, ety, v)
                self.vec_insert(s, p, off, cnt, d, l)
                out.append((s, PV(p, off, self.epoch(s, p))))
            return out
        if nm == 'erase':
            for s, vs in self.evlist(args, st, fr):
                it = self.val(s, vs[0])
                if not isinstance(it, PV): raise Unsupported('erase position')
                self.same_cont(s, it, self.begin(s, p), n); self.check_epoch(s, it, n)
                l = self.cont_len(s, p); off = it.off
                if len(vs) == 1:
                    self.oblige(s, z3.And(off >= 0, off < l), 'erase position within bounds', 'safety', n)
                    cnt = I(1)
                else:
                    e = self.val(s, vs[1]); self.same_cont(s, it, e, n); self.check_epoch(s, e, n)
                    self.oblige(s, z3.And(off >= 0, off <= e.off, e.off <= l), 'erase range within bounds', 'safety', n)
                    if e.off.eq(l):
                        self.set_len(s, p, off); self.new_epoch(s, p)
                        out.append((s, PV(p, off, self.epoch(s, p)))); continue
                    cnt = z3.simplify(e.off - off)
                self.vec_erase(s, p, off, cnt, l)
                out.append((s, PV(p, off, self.epoch(s, p))))
            return out
        if nm == 'operator=':
            for s, vs in self.evlist(args, st, fr):
                v = self.val(s, vs[0]); self.write(s, p, v); self.new_epoch(s, p)
                out.append((s, LV(p)))
            return out
        if nm == 'swap': raise Unsupported('vector::swap')
        raise Unsupported('vector::' + nm)

    def vec_insert(self, s, p, off, cnt, d, l):
        self.rewrite_elems(s, p, lambda sf, A, j: z3.If(j < off, z3.Select(A, j), z3.If(j < off + cnt, d[sf], z3.Select(A, j - cnt))))
        self.set_len(s, p, z3.simplify(l + cnt)); self.new_epoch(s, p)

    def vec_erase(self, s, p, off, cnt, l):
        self.rewrite_elems(s, p, lambda sf, A, j: z3.If(j < off, z3.Select(A, j), z3.Select(A, j + cnt)))
        self.set_len(s, p, z3.simplify(l - cnt)); self.new_epoch(s, p)

    # ------------------------------------------------------------------ std::set
    def set_method(self, nm, n, p, args, st, fr):
        S = self.get_leaf(st, p.root, p.sfx, GhostTy(SETSORT), p.idx)
        self.check_key_order(p.ty.e, st, fr, n)
        if nm == 'clear':
            self.set_leaf(st, p.root, p.sfx, GhostTy(SETSORT), p.idx, z3.K(IS, FALSE)); return [(st, None)]
        if nm == 'empty':
            b = self.fresh('empty', BS)
            w = self.fresh('w', IS)
            self.assume(st, Imp(b, FA('e', lambda e: Not(z3.Select(S, e)), lambda e: [z3.Select(S, e)])), 'def')
            self.assume(st, Imp(Not(b), z3.Select(S, w)), 'def')
            return [(st, b)]
        if nm in ('begin', 'end', 'cbegin', 'cend'):
            return [(st, ('setit', p, nm))]
        if nm == 'insert':
            out = []
            if len(args) == 1:
                for s, vs in self.evlist(args, st, fr):
                    x = self.val_to_key(self.val(s, vs[0]))
                    S1 = self.get_leaf(s, p.root, p.sfx, GhostTy(SETSORT), p.idx)
                    self.set_leaf(s, p.root, p.sfx, GhostTy(SETSORT), p.idx, z3.Store(S1, x, TRUE))
                    out.append((s, Opq('set::insert result')))
                return out
            for s, vs in self.evlist(args, st, fr):
                a, b = [self.val(s, v) if isinstance(v, LV) else v for v in vs]
                if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'setit' and b[0] == 'setit' and a[2].endswith('begin') and b[2].endswith('end') and self.paths_equal(s, a[1], b[1])):
                    raise Unsupported('set range insert from a partial range')
                q = a[1]
                S1 = self.get_leaf(s, p.root, p.sfx, GhostTy(SETSORT), p.idx)
                S2 = self.get_leaf(s, q.root, q.sfx, GhostTy(SETSORT), q.idx)
                R = self.fresh('union', SETSORT)
                self.assume(s, FA('e', lambda e: z3.Select(R, e) == z3.Or(z3.Select(S1, e), z3.Select(S2, e)), lambda e: [z3.Select(R, e), z3.Select(S2, e)]), 'def')
                self.set_leaf(s, p.root, p.sfx, GhostTy(SETSORT), p.idx, R)
                out.append((s, None))
            return out
        if nm in ('erase',) and len(args) == 1:
            out = []
            for s, vs in self.evlist(args, st, fr):
                v = self.val(s, vs[0])
                if isinstance(v, tuple): raise Unsupported('set::erase(iterator)')
                S1 = self.get_leaf(s, p.root, p.sfx, GhostTy(SETSORT), p.idx)
                self.set_leaf(s, p.root, p.sfx, GhostTy(SETSORT), p.idx, z3.Store(S1, self.val_to_key(v), FALSE))
                out.append((s, Opq()))
            return out
        if nm in ('count', 'contains'):
            out = []
            for s, vs in self.evlist(args, st, fr):
                b = z3.Select(S, self.val_to_key(self.val(s, vs[0])))
                out.append((s, b if nm == 'contains' else z3.If(b, I(1), I(0))))
            return out
        raise Unsupported('set::' + nm)

    def paths_equal(self, s, a, b):
        return a.root == b.root and a.sfx == b.sfx and len(a.idx) == len(b.idx) and all(x.eq(y) or self.implied(s, x == y) for x, y in zip(a.idx, b.idx))

    def elem_op(self, st, fr, ety, op, a, b):
        """value of a OP b for two elements, through the repository's own operator"""
        if ety.k == 'int': return self.compare({'<': '<', '==': '=='}[op], a[''], b[''], ety)
        if ety.k == 'struct':
            ms = [m for m in ety.rec.methods if m.name == 'operator' + op and m.body is not None and len(m.params) == 1]
            ms = [m for m in ms if self.param_ty(m.params[0]).k == 'ref' or self.param_ty(m.params[0]).k == 'struct']
            if not ms: raise Unsupported('%r has no operator%s' % (ety, op))
            pa = self.temp(st, Agg(ety, a), ety); pb = self.temp(st, Agg(ety, b), ety)
            save = self.mute; self.mute += 1
            try:
                r = self.inline({'id': 'cmp'}, ms[0], pa, [(pb, True)], st, fr)
            finally: self.mute = save
            if len(r) != 1: raise Unsupported('branching comparison operator')
            return self.val(r[0][0], r[0][1])
        raise Unsupported('comparison of %r' % ety)

    def elem_op_q(self, st, fr, ety, op, a, b):
        """like elem_op for quantified arguments: evaluated on placeholders, then substituted"""
        sub = []
        def ph(d):
            o = {}
            for k, v in d.items():
                c = self.fresh('ph', v.sort()); o[k] = c; sub.append((c, v))
            return o
        s2 = st.copy(); m = s2.pc
        r = self.elem_op(s2, fr, ety, op, ph(a), ph(b))
        if any(p.tag != 'def' for p in self.new_facts(s2, m)): raise Unsupported('comparison operator with side conditions')
        fs = [p.f for p in self.new_facts(s2, m)]
        if any(self.mentions(f, [x for x, _ in sub]) and self.mentions_fresh(f, sub) for f in fs):
            raise Unsupported('comparison operator is not a term')
        return z3.substitute(r, *sub)
    def mentions(self, f, cs): return False
    def mentions_fresh(self, f, sub): return False

    keyorder_done = None
    def check_key_order(self, ety, st, fr, n):
        """std::set identifies elements that are incomparable: must be value equality"""
        if ety.k == 'int' or self.bv: return
        if self.keyorder_done is None: self.keyorder_done = set()
        key = (repr(ety), self.cur)
        if key in self.keyorder_done: return
        self.keyorder_done.add(key)
        sf = self.key_leaf(ety)[0]
        x, y, z = [self.fresh('k', IS) for _ in range(3)]
        s2 = st.copy()
        for v in (x, y, z):
            for f in self.range_facts(v, self.key_leaf(ety)[1], 0): self.assume(s2, f)
        lt = lambda a, b: self.elem_op(s2, fr, ety, '<', {sf: a}, {sf: b})
        self.oblige(s2, And(Not(lt(x, x)), Imp(And(lt(x, y), lt(y, z)), lt(x, z)), Imp(And(Not(lt(x, y)), Not(lt(y, x))), x == y)),
                    'operator< of %r is a total order on the values (set/sort element)' % ety, 'order', n, assume=False)

    # ------------------------------------------------------------------ std constructors
    def std_ctor(self, ty, ctype, args, n, st, fr):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if ty.k == 'iter':
            if not args:
                return [(st, PV(None, I(0), I(0)))]
            return [(s, self.val(s, v)) for s, v in self.ev(args[0], st, fr)]
        if not args: return [(st, self.default_agg(st, ty, zero=True))]
        if ty.k == 'pair':
            if len(args) == 2:
                out = []
                for s, vs in self.evlist(args, st, fr):
                    d = {}
                    for nm, t, v, a in (('first', ty.a, vs[0], args[0]), ('second', ty.b, vs[1], args[1])):
                        v = self.val(s, v); at = self.ty(a)
                        if isinstance(v, Agg):
                            for k, x in v.d.items(): d['.' + nm + k] = x
                        else:
                            if t.k == 'struct': raise Unsupported('pair conversion')
                            if t.k == 'int' and at.k == 'int' and repr(t) != repr(at): v = self.convert(s, v, at, t)
                            d['.' + nm] = v
                    out.append((s, Agg(ty, d)))
                return out
            if len(args) == 1:
                return [(s, self.val(s, v)) for s, v in self.ev(args[0], st, fr)]
        at = self.ty(args[0])
        act = self.container_ty(at) if at.k == 'struct' else at
        if len(args) == 1 and act.k == ty.k:
            return [(s, Agg(ty, self.val(s, v).d)) for s, v in self.ev(args[0], st, fr)]
        if ty.k == 'vec':
            out = []
            if at.k == 'int':
                for s, vs in self.evlist(args, st, fr):
                    k = self.val(s, vs[0])
                    dv = self.val(s, vs[1]) if len(vs) > 1 else self.default_value(s, ty.e, fr, zero=True)
                    d = self.elem_d(s, ty.e, dv)
                    r = {'.len': k, '.ep': I(0)}
                    for sf, t, dm in self.leaves(ty.e): r['[]' + sf] = z3.K(IS, d[sf])
                    out.append((s, Agg(ty, r)))
                return out
            if len(args) == 2 and at.k in ('ptr', 'iter'):
                for s, vs in self.evlist(args, st, fr):
                    a, b = self.val(s, vs[0]), self.val(s, vs[1])
                    if not isinstance(a, PV): raise Unsupported('vector from range')
                    self.same_cont(s, a, b, n); self.check_epoch(s, a, n); self.check_epoch(s, b, n)
                    src = a.cont; L = self.cont_len(s, src); self.null_len(s, src)
                    self.oblige(s, z3.And(a.off >= 0, a.off <= b.off, b.off <= L), 'range within bounds', 'safety', n)
                    r = {'.len': z3.simplify(b.off - a.off), '.ep': I(0)}
                    for sf, t, dm in self.leaves(ty.e):
                        base = src.sfx + '[]' + sf if not (src.root.startswith('@[]') and src.sfx == '') else sf
                        A = self.get_leaf(s, src.root, base, t, src.idx)
                        B = self.fresh('vec' + sf, A.sort())
                        self.assume(s, FA('j', lambda j: z3.Select(B, j) == z3.Select(A, j + a.off) if not (isnum(a.off) and num(a.off) == 0) else z3.Select(B, j) == z3.Select(A, j), lambda j: [z3.Select(B, j)]), 'def')
                        r['[]' + sf] = B
                    out.append((s, Agg(ty, r)))
                return out
        raise Unsupported('constructor of %r from %r' % (ty, at))

    # ------------------------------------------------------------------ std operators
    def std_op(self, nm, n, args, st, fr):
        op = nm.replace('operator', '')
        rt = n.get('type', {})
        if op in ('<<', '>>') and 'stream' in str(rt): 
            self.scan_pure(args); return [(st, Opq('stream'))]
        out = []
        if op in ('+', '+=') and self.ty(args[0]).k == 'opaque':
            self.scan_pure(args); return [(st, Opq('string'))]
        for s, vs in self.evlist(args, st, fr):
            if any(isinstance(v, tuple) and v[0] == 'cmp3' for v in vs):
                k = 0 if isinstance(vs[0], tuple) else 1
                _, a, b = vs[k]
                flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
                out.append((s, self.pcmp(s, op if k == 0 else flip.get(op, op), a, b, n))); continue
            if any(isinstance(v, Opq) for v in vs): out.append((s, Opq())); continue
            t0 = self.ty(args[0]); t0 = t0.to if t0.k == 'ref' else t0
            ct = self.container_ty(t0) if t0.k == 'struct' else t0
            if ct.k == 'vec':
                p = Path(vs[0].p.root, vs[0].p.sfx, vs[0].p.idx, ct) if isinstance(vs[0], LV) else self.temp(s, vs[0], ct)
                if op == '[]':
                    i = self.val(s, vs[1]); self.bounds(s, p, i, n)
                    out.append((s, LV(p.elem(i, ct.e)))); continue
                if op in ('==', '!='):
                    q = vs[1].p if isinstance(vs[1], LV) else self.temp(s, vs[1], ct)
                    q = Path(q.root, q.sfx, q.idx, ct)
                    e = self.vec_eq(s, p, q, fr)
                    out.append((s, e if op == '==' else Not(e))); continue
                raise Unsupported('vector operator' + op)
            if ct.k == 'set' and op in ('==', '!='):
                raise Unsupported('set comparison')
            if ct.k == 'iter' or isinstance(vs[0], PV):
                if op in ('++', '--'):
                    old = self.val(s, vs[0])
                    new = self.padd(s, old, 1 if op == '++' else -1, n)
                    self.write(s, vs[0].p, new)
                    out.append((s, old if len(args) == 2 else vs[0])); continue
                if op in ('+=', '-='):
                    old = self.val(s, vs[0]); k = self.val(s, vs[1])
                    new = self.padd(s, old, k if op == '+=' else (-k), n)
                    self.write(s, vs[0].p, new); out.append((s, vs[0])); continue
                a = self.val(s, vs[0]); 
                if op == '*':
                    out.append((s, LV(self.deref(s, a, ct.e if ct.k == 'iter' else a.cont.ty.e, n)))); continue
                if op == '->':
                    out.append((s, a)); continue
                b = self.val(s, vs[1])
                if op == '[]':
                    q = self.padd(s, a, b, n); out.append((s, LV(self.deref(s, q, ct.e, n)))); continue
                if op in ('+', '-') and isinstance(b, PV): out.append((s, self.pdiff(s, a, b, n))); continue
                if op in ('+', '-'): out.append((s, self.padd(s, a, b if op == '+' else (I(-num(b)) if isnum(b) else -b), n))); continue
                if op == '<=>': out.append((s, ('cmp3', a, b))); continue
                if op in ('==', '!=', '<', '>', '<=', '>='): out.append((s, self.pcmp(s, op, a, b, n))); continue
            if op == '+' and len(vs) > 1 and isinstance(self.val(s, vs[1]), PV):
                out.append((s, self.padd(s, self.val(s, vs[1]), self.val(s, vs[0]), n))); continue
            raise Unsupported('operator%s on %r' % (op, t0))
        return out

    def vec_eq(self, s, p, q, fr):
        """element-wise equality as a defined truth value"""
        l1, l2 = self.cont_len(s, p), self.cont_len(s, q)
        b = self.fresh('veq', BS); w = self.fresh('w', IS)
        ety = p.ty.e
        if ety.k != 'int': raise Unsupported('comparison of vectors of %r' % ety)
        A = self.get_leaf(s, p.root, p.sfx + '[]', ety, p.idx); B = self.get_leaf(s, q.root, q.sfx + '[]', ety, q.idx)
        self.assume(s, Imp(b, And(l1 == l2, FA('j', lambda j: Imp(z3.And(j >= 0, j < l1), z3.Select(A, j) == z3.Select(B, j)), lambda j: [z3.Select(A, j), z3.Select(B, j)]))), 'def')
        self.assume(s, Imp(Not(b), z3.Or(l1 != l2, z3.And(w >= 0, w < l1, z3.Select(A, w) != z3.Select(B, w)))), 'def')
        self.veq_witness[b.get_id()] = w
        s.labels = dict(s.labels); s.labels['veq'] = s.labels.get('veq', ()) + ((b, w),)
        return b
    veq_witness = {}

    # ------------------------------------------------------------------ std functions
    def std_fn(self, nm, n, args, st, fr):
        m = getattr(self, 'f_' + nm, None)
        if m is not None: return m(n, [a for a in args], st, fr)
        if nm in ('__assert_fail', 'abort', 'exit', 'terminate'):
            self.oblige(st, FALSE, 'unreachable: %s' % nm, 'assert', n); return []
        t = self.T.of(n['type'])
        if t.k == 'opaque' or (t.k == 'ref' and t.to.k == 'opaque'):
            self.scan_pure(args); return [(st, Opq(nm))]
        raise Unsupported('call of %s' % nm)

    def f_move(self, n, args, st, fr): return self.ev(args[0], st, fr)
    f_forward = f_move
    f_as_const = f_move

    def f_addressof(self, n, args, st, fr):
        return [(s, self.ptr_to(v.p)) for s, v in self.ev(args[0], st, fr)]

    def f_max(self, n, args, st, fr): return self.minmax(n, args, st, fr, '<')
    def f_min(self, n, args, st, fr): return self.minmax(n, args, st, fr, '>')
    def minmax(self, n, args, st, fr, op):
        if len(args) != 2: raise Unsupported('min/max')
        out = []
        ty = self.T.of(n['type']); ty = ty.to if ty.k == 'ref' else ty
        for s, vs in self.evlist(args, st, fr):
            a, b = self.val(s, vs[0]), self.val(s, vs[1])
            if ty.k != 'int': raise Unsupported('min/max of %r' % ty)
            c = self.compare(op, a, b, ty)
            if self.implied(s, c): v = b
            elif self.implied(s, Not(c)): v = a
            else: v = Ite(c, b, a)
            if z3.is_app(v) and v.num_args(): v = self.name(s, v, 'mm')
            out.append((s, LV(self.temp(s, v, ty))))
        return out

    def f_swap(self, n, args, st, fr):
        out = []
        for s, vs in self.evlist(args, st, fr):
            a, b = self.load(s, vs[0].p), self.load(s, vs[1].p)
            if self.container_ty(vs[0].p.ty).k == 'vec': raise Unsupported('swap of vectors')
            self.write(s, vs[0].p, b); self.write(s, vs[1].p, a); out.append((s, None))
        return out

    def f_make_pair(self, n, args, st, fr):
        ty = self.T.of(n['type'])
        if ty.k != 'pair': raise Unsupported('make_pair')
        return self.std_ctor(ty, '', args, n, st, fr)

    def f_popcount(self, n, args, st, fr):
        out = []
        for s, v in self.ev1v(args[0], st, fr):
            w = self.ty(args[0]).w
            if self.bv:
                c = z3.BitVecVal(0, w)
                for i in range(w): c = c + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
                out.append((s, z3.Extract(31, 0, c)))
            else:
                r = self.theory.popcount(self, s, v, w); self.assume(s, z3.And(r >= 0, r <= w), 'def')
                out.append((s, r))
        return out
    f___builtin_popcountll = f_popcount
    def f_countr_zero(self, n, args, st, fr):
        out = []
        for s, v in self.ev1v(args[0], st, fr):
            w = self.ty(args[0]).w
            if self.bv:
                r = z3.BitVecVal(w, 32)
                for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, 32), r)
                out.append((s, r))
            else:
                r = self.theory.ctz(self, s, v, w); self.assume(s, z3.And(r >= 0, r <= w), 'def')
                out.append((s, r))
        return out

    # ranges
    def rng(self, s, a, b, n):
        if not (isinstance(a, PV) and isinstance(b, PV)): raise Unsupported('algorithm on something that is not a range of a vector')
        self.same_cont(s, a, b, n); self.check_epoch(s, a, n); self.check_epoch(s, b, n)
        self.heap_live_rng(s, a, b, n)
        self.oblige(s, z3.And(a.off >= 0, a.off <= b.off, b.off <= self.cont_len(s, a.cont)), 'algorithm range within bounds', 'safety', n)

    def heap_live_rng(self, s, a, b, n):
        if a.cont.root.startswith('@[]'):
            r = a.cont.idx[0]
            self.oblige(s, z3.Or(a.off == b.off, z3.And(r != 0, z3.Select(self.heap_leaf(s, a.cont.root, 'alive'), r))), 'array not null or freed', 'safety', n)

    def el_at(self, st, cont, j):
        d = {}
        for sf, t, dm in self.leaves(cont.ty.e):
            base = cont.sfx + '[]' + sf if not (cont.root.startswith('@[]') and cont.sfx == '') else sf
            d[sf] = z3.Select(self.get_leaf(st, cont.root, base, t, cont.idx), j)
        return d

    def f_find(self, n, args, st, fr):
        out = []
        for s, vs in self.evlist(args, st, fr):
            a, b = self.val(s, vs[0]), self.val(s, vs[1])
            if isinstance(a, Opq): out.append((s, a)); continue
            v = self.val(s, vs[2])
            self.rng(s, a, b, n)
            ety = a.cont.ty.e
            vd = self.elem_d(s, ety, v)
            r = self.fresh('find', IS)
            cont = a.cont
            sf0 = self.leaves(ety)[0][0]
            self.assume(s, z3.And(r >= a.off, r <= b.off), 'def')
            self.assume(s, FA('j', lambda j: Imp(z3.And(j >= a.off, j < r), Not(self.elem_op_q(s, fr, ety, '==', self.el_at(s, cont, j), vd))), lambda j: [self.el_at(s, cont, j)[sf0]]))
            self.assume(s, Imp(r < b.off, self.elem_op_q(s, fr, ety, '==', self.el_at(s, cont, r), vd)))
            out.append((s, PV(cont, r, a.ep, a.ty)))
        return out

    def f_sort(self, n, args, st, fr):
        if len(args) != 2: raise Unsupported('sort with comparator')
        out = []
        for s, vs in self.evlist(args, st, fr):
            a, b = self.val(s, vs[0]), self.val(s, vs[1])
            self.rng(s, a, b, n)
            cont = a.cont; ety = cont.ty.e
            self.check_key_order(ety, s, fr, n)
            lo, hi = a.off, b.off
            pi = self.fresh('pi', z3.ArraySort(IS, IS)); rho = self.fresh('rho', z3.ArraySort(IS, IS))
            lv = self.leaves(ety)
            inr = lambda j: z3.And(j >= lo, j < hi)
            arrs = {}
            for sf, t, dm in lv:
                heap = cont.root.startswith('@[]') and cont.sfx == ''
                full = sf if heap else cont.sfx + '[]' + sf
                A = self.get_leaf(s, cont.root, full, t, cont.idx)
                if not z3.is_const(A): A0, A = A, self.fresh('unsorted' + sf, A.sort()); self.assume(s, A == A0, 'def')
                B = self.fresh('sorted' + sf, A.sort())
                self.assume(s, FA('j', lambda j: z3.Select(B, j) == Ite(inr(j), z3.Select(A, z3.Select(pi, j)), z3.Select(A, j)), lambda j: [z3.Select(B, j)], name='sortperm'))
                self.assume(s, FA('j', lambda j: Imp(inr(j), z3.And(inr(z3.Select(pi, j)), z3.Select(rho, z3.Select(pi, j)) == j)), lambda j: [z3.Select(pi, j)], name='sortpi'))
                self.assume(s, FA('j', lambda j: Imp(inr(j), z3.And(inr(z3.Select(rho, j)), z3.Select(pi, z3.Select(rho, j)) == j, z3.Select(B, z3.Select(rho, j)) == z3.Select(A, j))), lambda j: [z3.Select(A, j), z3.Select(rho, j)], name='sortrho'))
                arrs[sf] = B
                self.set_leaf(s, cont.root, full, t, cont.idx, B)
            sf0 = lv[0][0]
            self.assume(s, FA('i j', lambda i, j: Imp(z3.And(lo <= i, i < j, j < hi), Not(self.elem_op_q(s, fr, ety, '<', {sf: arrs[sf][j] for sf, _, _ in lv}, {sf: arrs[sf][i] for sf, _, _ in lv}))), lambda i, j: [(arrs[sf0][i], arrs[sf0][j])], name='sorted'))
            out.append((s, None))
        return out

    def f_remove(self, n, args, st, fr):
        """std::remove: stable filter; positions past the new end are unspecified"""
        out = []
        for s, vs in self.evlist(args, st, fr):
            a, b = self.val(s, vs[0]), self.val(s, vs[1]); v = self.val(s, vs[2])
            self.rng(s, a, b, n)
            cont = a.cont; ety = cont.ty.e
            if ety.k != 'int': raise Unsupported('remove on %r' % ety)
            tv = self.ty(args[2]); 
            tv = tv.to if tv.k == 'ref' else tv
            if tv.k == 'int' and repr(tv) != repr(ety): v = self.convert(s, v, tv, ety) if not tv.signed or isnum(v) else v
            lo, hi = a.off, b.off
            A = self.get_leaf(s, cont.root, cont.sfx + '[]', ety, cont.idx)
            if not z3.is_const(A): A0, A = A, self.fresh('unfiltered', A.sort()); self.assume(s, A == A0, 'def')
            B = self.fresh('filtered', A.sort())
            K = self.fresh('kept', z3.ArraySort(IS, IS))      # K[j] = number of kept elements in [lo, j)
            r = self.fresh('newend', IS)
            self.assume(s, z3.And(r >= lo, r <= hi, K[lo] == 0, r == lo + K[hi]), 'def')
            self.assume(s, FA('j', lambda j: Imp(z3.And(j >= lo, j < hi), K[j + 1] == K[j] + z3.If(A[j] == v, 0, 1)), lambda j: [K[j], A[j]], name='kept'))
            self.assume(s, FA('j', lambda j: Imp(z3.And(j >= lo, j <= hi), z3.And(K[j] >= 0, lo + K[j] <= j, lo + K[j] <= r)), lambda j: [K[j]], name='kept2'))
            self.assume(s, FA('j', lambda j: Imp(z3.And(j >= lo, j < hi, A[j] != v), B[lo + K[j]] == A[j]), lambda j: [K[j], A[j]], name='kept3'))
            self.assume(s, FA('j', lambda j: Imp(z3.Or(j < lo, j >= hi), B[j] == A[j]), lambda j: [B[j]], name='kept4'))
            self.set_leaf(s, cont.root, cont.sfx + '[]', ety, cont.idx, B)
            s.labels = dict(s.labels); s.labels['remove'] = (A, B, K, lo, hi, r)
            out.append((s, PV(cont, r, a.ep, a.ty)))
        return out

    def f_memcpy(self, n, args, st, fr):
        out = []
        for s, vs in self.evlist(args, st, fr):
            d, src, nb = [self.val(s, v) for v in vs]
            if not (isinstance(d, PV) and isinstance(src, PV)): raise Unsupported('memcpy between %r and %r' % (d, src))
            ety = d.cont.ty.e
            if repr(ety) != repr(src.cont.ty.e): raise Unsupported('memcpy between types')
            sz = self.sizeof(ety)
            # byte count must be a multiple of the element size: solve nb = k * sz
            k = self.fresh('cnt', IS)
            self.oblige(s, nb % sz == 0, 'memcpy copies whole elements', 'safety', n)
            self.assume(s, z3.And(k * sz == nb, k >= 0), 'def')
            self.heap_live(s, d.cont, n)
            self.oblige(s, z3.And(d.off >= 0, d.off + k <= self.cont_len(s, d.cont)), 'memcpy destination within bounds', 'safety', n)
            self.heap_live(s, src.cont, n)
            self.oblige(s, z3.And(src.off >= 0, src.off + k <= self.cont_len(s, src.cont)), 'memcpy source within bounds', 'safety', n)
            for sf, t, dm in self.leaves(ety):
                fd = sf if d.cont.root.startswith('@[]') and d.cont.sfx == '' else d.cont.sfx + '[]' + sf
                fs = sf if src.cont.root.startswith('@[]') and src.cont.sfx == '' else src.cont.sfx + '[]' + sf
                A = self.get_leaf(s, d.cont.root, fd, t, d.cont.idx)
                S = self.get_leaf(s, src.cont.root, fs, t, src.cont.idx)
                B = self.fresh('cpy' + sf, A.sort())
                self.assume(s, FA('j', lambda j: z3.Select(B, j) == z3.If(z3.And(j >= d.off, j < d.off + k), z3.Select(S, j - d.off + src.off), z3.Select(A, j)), lambda j: [z3.Select(B, j)], name='memcpy'), 'def')
                if not z3.is_const(S): S0, S = S, self.fresh('src' + sf, S.sort()); self.assume(s, S == S0, 'def')
                self.assume(s, FA('j', lambda j: Imp(z3.And(j >= src.off, j < src.off + k), z3.Select(B, j - src.off + d.off) == z3.Select(S, j)), lambda j: [z3.Select(S, j)], name='memcpy back'), 'def')
                self.set_leaf(s, d.cont.root, fd, t, d.cont.idx, B)
            if d.cont.root == src.cont.root and d.cont.root.startswith('@[]'):
                self.oblige(s, z3.Or(d.cont.idx[0] != src.cont.idx[0], k == 0, d.off + k <= src.off, src.off + k <= d.off), 'memcpy ranges do not overlap', 'safety', n)
            out.append((s, d))
        return out
