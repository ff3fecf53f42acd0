"""Verification driver: one function at a time, obligations to the solvers, vacuity probes."""
import z3, os, sys, time, json, multiprocessing, subprocess, tempfile, re, traceback, signal
from .core import *
from .execu import *
from .calls import Calls
from . import extract

def load_baseline():
    """names of locals, fields and loop variables in the sources the annotations were written for"""
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'baseline.json')
    if os.environ.get('CCV_NO_BASELINE') or not os.path.exists(p): return {}
    return json.load(open(p))

class Verifier(Calls):
    def __init__(self, U, cfg=None):
        super().__init__(U, cfg)
        self.cfg = cfg or {}
        self.contracts = {}
        self.axioms = list(self.cfg.get('axioms', []))
        self.used_contracts = set()
        self.rec_group = set()
        self.variant = None
        self.modinfo = {}
        self.vac = []
        self.curcontract = None
        self.loopmap = {}
        self.declcache = {}
        self.baseline = load_baseline()
        self.report = {}
        self.errors = {}
        self.ghost_sorts = self.cfg.get('ghost_sorts', {})
        self.new_hooks = self.cfg.get('new_hooks', {})
        self.del_hooks = self.cfg.get('del_hooks', {})

    def add(self, c):
        if c.qname in self.contracts:
            o = self.contracts[c.qname]
            self.contracts[c.qname] = (o if isinstance(o, list) else [o]) + [c]
        else: self.contracts[c.qname] = c
        return c

    def fn_of(self, c):
        l = [f for f in self.U.byq.get(c.qname, []) if f.body is not None and (c.ftype is None or c.ftype in f.ftype)]
        if not l: raise extract.ExtractError('function %s has no body in the current sources' % c.qname)
        return l[0]

    def enum_loops(self, fn):
        """loops of a function and of everything it inlines, in source order -> ordinal"""
        m = {}
        cnt = [0]
        self.loopnodes = []
        def walk(n, site, stack):
            if not isinstance(n, dict): return
            k = n.get('kind')
            if k == 'LambdaExpr': return
            if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') and not once(n) and not self.inert(n):
                m[(site, n['id'])] = cnt[0]; cnt[0] += 1
                self.loopnodes.append(n)
            callee = None
            if k in ('CallExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr'):
                c0 = strip(inner(n)[0]) if k != 'CXXMemberCallExpr' else inner(n)[0]
                rid = c0.get('referencedDecl', {}).get('id') or c0.get('referencedMemberDecl')
                callee = self.U.fns.get(self.U.canon.get(rid, rid))
            elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                t = self.T.of(n['type'])
                if t.k == 'struct': callee = self.find_ctor(t.rec, n.get('ctorType', {}).get('qualType', ''))
            for c in n.get('inner', []): walk(c, site, stack)
            if callee is not None and callee.body is not None and callee.qname not in stack:
                cc = self.contracts.get(callee.qname)
                if cc is None or (not isinstance(cc, list) and cc.inst == 'inline'):
                    walk(callee.body, site + (n['id'],), stack + (callee.qname,))
        walk(fn.body, (), (fn.qname,))
        return m

    def inert(self, n):
        """a loop that only builds text for a message (it needs no invariant)"""
        body = [c for c in n['inner'] if isinstance(c, dict)][-1] if n['kind'] != 'DoStmt' else inner(n)[0]
        seen = [0]
        def ok(x):
            k = x.get('kind')
            if k in ('CompoundStmt', 'DeclStmt'): return all(ok(c) for c in inner(x))
            if k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt'): return self.inert(x)
            if k == 'IfStmt': return all(ok(c) for c in inner(x)[1:])
            if k == 'VarDecl': return self.T.of(x['type']).k != 'ref'
            y = strip(x)
            if y.get('kind') in ('CXXOperatorCallExpr', 'CXXMemberCallExpr'):
                t = self.T.of(y['type']); t = t.to if t.k == 'ref' else t
                if t.k == 'opaque': seen[0] += 1; return True
            return False
        return ok(body) and seen[0] > 0 or (ok(body) and any(c.get('kind') in ('ForStmt', 'CXXForRangeStmt') for c in inner(body)))

    # ------------------------------------------------------------------ one function
    def verify(self, c, muted=False):
        fn = self.fn_of(c)
        for v in c.variants:
            self.verify_variant(c, fn, v, muted)

    def label(self, c, v):
        return c.qname + ('' if not v or not v.get('name') else ' [%s]' % v['name'])

    def verify_variant(self, c, fn, variant, muted=False):
        self.reset_run()
        if muted: self.mute = 1
        self.cur = self.label(c, variant)
        self.curcontract = c
        self.variant = variant
        self.bv = c.bv
        self.stack = (fn.qname,)
        self.keyorder_done = set()
        self.rec_group = {fn.qname} | set(c.recursive if isinstance(c.recursive, (set, list, tuple)) else [])
        self.loopmap = self.enum_loops(fn)
        st = State.new()
        this = None
        if fn.cls is not None and not fn.is_static:
            rec = fn.cls
            if rec.qname in self.heapcls:
                r = z3.Const('this_ref', IS)
                this = Path('@' + rec.qname, '', (r,), TStruct(rec))
                self.assume(st, r != 0)
                self.assume(st, z3.Select(self.heap_leaf(st, this.root, 'alive'), r))
            else: this = Path('this', '', (), TStruct(rec))
        bound = []
        alias = (variant or {}).get('alias', {})
        fnargs = (variant or {}).get('fn', {})
        for i, p in enumerate(fn.params):
            t = self.param_ty(p)
            if i in fnargs:
                b = (fnargs[i](self), t.k == 'ref')
            elif t.k == 'ref':
                to = t.to
                if i in alias: b = (this if alias[i] == 'this' else bound[alias[i]][0], True)
                else: b = (Path('&%d' % i, '', (), to), True)
            elif t.k == 'ptr' and i in (variant or {}).get('optr', {}):
                raise Unsupported('optr')
            else:
                b = (Path('p:%s' % (p.get('name') or i), '', (), t), False)
                if t.k in ('int', 'bool', 'real'): self.load(st, b[0])
            bound.append(b)
        fr = Frame(fn, this, None, ())
        for i, (p, b) in enumerate(zip(fn.params, bound)):
            if p.get('name'): fr.names[p['name']] = p['id']
            st.env[p['id']] = b[0]
        self.rootinfo = dict(this=this, params=bound, fn=fn)
        is_ctor = fn.kind == 'CXXConstructorDecl'
        cx = Ctx(self, st, None, fr, this=this, params=bound, fn=fn, contract=c)
        cx.old = st
        if c.setup: c.setup(self, st, this, bound)
        for nm, g in c.requires(cx): self.assume(st, g, 'pre')
        if c.entry: c.entry(cx)
        self.entry_state = st.copy()
        self.entry_dec = c.dec(cx) if c.dec else None
        if not muted: self.vac.append((self.cur, 'precondition satisfiable', self.snap(st)))
        rec_ = set(); self.recorders.append(rec_)
        exits = []
        try:
            if is_ctor:
                for s in self.run_ctor(fn, this, bound, st, fr_parent(fr), None): exits.append((s, None))
            else:
                for k, s, v in self.ex(fn.body, st, fr):
                    if k not in (RET, NORMAL): raise Unsupported('stray break')
                    exits.append((s, v))
        finally:
            self.recorders.pop()
        rt = self.ret_ty(fn)
        old = self.entry_state
        for s, v in exits:
            if rt.k != 'ref' and v is not None and rt.k != 'void': v = self.val(s, v)
            cx = Ctx(self, s, old, fr, this=this, params=bound, fn=fn, contract=c)
            cx.rawres = v
            cx.res = self.res_view(s, v, rt)
            if c.hints:
                h = c.hints(cx)
                for nm, g, *us in (h or []): self.oblige_using(s, g, 'lemma: ' + nm, 'lemma', us[0] if us else ())
            for nm, g in c.ensures(cx):
                self.oblige(s, g, 'postcondition: ' + nm, 'post', fn.node, assume=False)
        if not muted and exits:
            self.vac.append((self.cur, 'some exit reachable', [self.snap(s) for s, v in exits]))
        # frame
        W = set()
        for (r, sf) in rec_:
            if r.startswith('v:') or '~' in r or r.startswith('p:'): continue
            if sf.endswith('!cont') or (r == '$g' and sf.startswith('._')): continue
            W.add((r, sf))
            if (r, sf) in self.heapmeta: self.modinfo[(r, sf)] = ('meta', self.heapmeta[(r, sf)])
            elif (r, sf) in self.leafinfo: self.modinfo[(r, sf)] = (self.leafinfo[(r, sf)][0], None)
            elif (r, sf) in self.init_ty: self.modinfo[(r, sf)] = (self.init_ty[(r, sf)][0], None)
            elif sf in ('.$alive', '.$len'): self.modinfo[(r, sf)] = ('meta', z3.ArraySort(IS, BS if sf == '.$alive' else IS))
        key = fn.qname + fn.ftype
        if c.modifies is not None:
            dec = set()
            for m in c.modifies: dec |= set(m(self)) if callable(m) else {m}
            for w in sorted(W - dec):
                self.oblige(st, FALSE, 'frame: does not write %s%s' % w, 'frame', fn.node, assume=False)
        else:
            self.modcache[key] = self.modcache.get(key, set()) | W
        if not muted:
            self.flush(c)

    def snap(self, st): return (st.facts(), None)

    def flush(self, c):
        """attach initial facts (type ranges of the initial state)"""
        base = list(self.init_facts)
        for o in self.obls:
            if o.facts is not None and not getattr(o, 'based', False):
                o.facts = base + o.facts; o.based = True
        self.vac = [(a, b, x) if getattr_done(x) else (a, b, with_base(x, base)) for a, b, x in self.vac]

    def compute_mods(self, f, c):
        sub = type(self)(self.U, self.cfg)
        sub.contracts = self.contracts; sub.modcache = self.modcache; sub.modinfo = self.modinfo
        sub.theory = self.theory
        # break cycles
        if (f.qname + f.ftype) in self.computing: raise Unsupported('recursive %s needs an explicit modifies clause' % f.qname)
        self.computing.add(f.qname + f.ftype)
        try: sub.verify(c, muted=True)
        finally: self.computing.discard(f.qname + f.ftype)
        self.modcache.setdefault(f.qname + f.ftype, set())
    computing = set()

    # ------------------------------------------------------------------ lemmas
    def default_object(self, qname, inv, name='default construction', bv=False):
        """a default-constructed object satisfies the class invariant"""
        self.reset_run(); self.cur = qname + '::' + qname.split('::')[-1]; self.curcontract = None; self.variant = None; self.bv = bv
        rec = self.U.recq.get(qname)
        if rec is None: raise extract.ExtractError('class %s not found' % qname)
        st = State.new()
        this = Path('this', '', (), TStruct(rec))
        n0 = len(self.obls)
        self.write(st, this, self.default_value(st, this.ty, Frame(self.pseudo_fn(), None, None, ())))
        for nm, g in inv(mkview(self, st, this)): self.oblige(st, g, '%s: %s' % (name, nm), 'post', assume=False)
        self.flush(None)
        self.report[self.cur] = (len(self.obls) - n0, 0.0)

    def lemma(self, name, facts, goal, kind='lemma'):
        o = Obl(name, 'lemma', None, list(facts), goal, kind); o.based = True
        self.obls.append(o)

    def run(self, contracts, log=None):
        for c in contracts:
            t = time.time()
            n0 = len(self.obls); v0 = len(self.vac)
            try:
                self.verify(c)
                self.report[c.qname + (c.ftype or '')] = (len(self.obls) - n0, time.time() - t)
                if log: log('%-60s %4d obligations  %.1fs' % (c.qname, len(self.obls) - n0, time.time() - t))
            except (Unsupported, extract.ExtractError) as e:
                del self.obls[n0:]; del self.vac[v0:]
                self.errors[c.qname + (c.ftype or '')] = str(e)
                if log: log('%-60s UNSUPPORTED %s' % (c.qname, e))
            except RecursionError as e:
                del self.obls[n0:]; del self.vac[v0:]
                self.errors[c.qname + (c.ftype or '')] = 'recursion'
            except (KeyError, IndexError, AttributeError, TypeError, ValueError, z3.Z3Exception) as e:
                del self.obls[n0:]; del self.vac[v0:]
                tb = traceback.format_exc()
                self.errors[c.qname + (c.ftype or '')] = 'internal: %s %s' % (type(e).__name__, e) 
                if log: log('%-60s INTERNAL %s' % (c.qname, tb))

def fr_parent(fr): return None
class _Based(list): pass
def getattr_done(x): return isinstance(x, _Based)
def with_base(x, base):
    if isinstance(x, tuple): return _Based([base + x[0]])
    return _Based([base + y[0] for y in x])

# ---------------------------------------------------------------------- solving
def mk_solver(timeout_ms, cfg):
    s = z3.SimpleSolver()
    s.set('timeout', int(timeout_ms))
    for k, v in cfg.items():
        s.set(k, v)
    return s

_A = {'auto_config': False, 'mbqi': False}
CFG = [
    dict(_A, case_split=3, **{'qi.eager_threshold': 100.0, 'arith.solver': 6, 'random_seed': 3}),
    dict(_A),
    dict(_A, **{'arith.solver': 6, 'random_seed': 7}),
    dict(_A, case_split=3, delay_units=True, **{'qi.eager_threshold': 100.0, 'arith.solver': 2}),
    dict(_A, **{'arith.solver': 2, 'random_seed': 11, 'qi.eager_threshold': 30.0}),
]
def plan(budget):
    """(configuration, seconds): a short portfolio first, then longer attempts"""
    if budget < 0: return [(CFG[0], -budget / 2, 0), (CFG[1], -budget / 2, 0)]
    if budget <= 3: return [(c, 0.7, f) for c, f in zip(CFG[:4], (0, 1, 0, 0))]
    out = [(c, 0.7, f) for c, f in zip(CFG[:4], (0, 1, 0, 0))] + [(CFG[0], 1.5, 1), (CFG[1], 1.5, 1)] + [(c, 2.5, 0) for c in CFG[:4]]
    t = sum(x for _, x, _ in out)
    while t < budget:
        for c, f in ((CFG[0], 1), (CFG[0], 0), (CFG[1], 0)):
            x = max(3.0, (budget - t) / 3); out.append((c, x, f)); t += x
    return out

def multi(f):
    """a fact quantified over several variables"""
    return z3.is_quantifier(f) and f.num_vars() > 1

def parts(g, depth=0):
    """conjuncts of a goal (under implications and universal quantifiers)"""
    if z3.is_and(g):
        for c in g.children(): yield from parts(c, depth)
    elif z3.is_implies(g):
        for c in parts(g.arg(1), depth): yield Imp(g.arg(0), c)
    elif z3.is_quantifier(g) and g.is_forall():
        vs = [z3.Const('sk!%s!%d!%d' % (g.var_name(i), depth, i), g.var_sort(i)) for i in range(g.num_vars())]
        yield from parts(z3.substitute_vars(g.body(), *reversed(vs)), depth + 1)
    else: yield g

def solve_one(o, budget, axioms):
    """the whole goal first, briefly; then its conjuncts one by one"""
    if o.full is not None:      # facts picked by the annotation: only a proof counts
        few = Obl(o.name, o.fn, o.line, o.facts, o.goal, o.kind)
        r = solve_one(few, budget, axioms)
        if r[0] == 'discharged': return r
        all_ = Obl(o.name, o.fn, o.line, o.full, o.goal, o.kind)
        r2 = solve_one(all_, budget, axioms)
        return r2[:2] + (r[2] + r2[2], r2[3])
    if budget < 0: return solve_goal(o, budget, axioms)
    r = solve_goal(o, 3, axioms)
    if r[0] == 'discharged': return r
    ps = list(parts(o.goal))
    if len(ps) <= 1: r2 = solve_goal(o, budget, axioms); return r2[:2] + (r[2] + r2[2], r2[3])
    t, bad = r[2], None
    for g in ps:
        q = Obl(o.name, o.fn, o.line, o.facts, g, o.kind)
        r2 = solve_goal(q, max(6, budget / 2), axioms)
        t += r2[2]
        if r2[0] != 'discharged':
            if bad is None or r2[0] == 'failed': bad = r2
            if bad[0] == 'failed': break
    if bad: return bad[0], 'z3', t, bad[3]
    return 'discharged', 'z3', t, 'conjunct by conjunct'

def solve_goal(o, budget, axioms):
    t0 = time.time()
    best = None
    sat = 0
    some = any(multi(f) for f in o.facts)
    last = [(dict(_A, relevancy=0), 3, 0), (dict(_A, relevancy=0, random_seed=5, **{'arith.solver': 6}), 3, 0), (dict(auto_config=False, mbqi=True), 4, 0)]
    todo = plan(budget)
    while todo:
        cfg, tmo, less = todo.pop(0)
        if less and not some: continue
        s = mk_solver(tmo * 1000, cfg)
        for a in axioms: s.add(a)
        for f in o.facts:
            if not less or not multi(f): s.add(f)
        s.add(Not(o.goal))
        try: r = s.check()
        except z3.Z3Exception as e: r = None
        if r == z3.unsat: return ('discharged', 'z3', time.time() - t0, '')
        reason = 'sat' if r == z3.sat else (s.reason_unknown() if r is not None else 'error')
        timed = 'timeout' in reason or 'cancel' in reason or 'resource' in reason or reason == 'error'
        if less: continue       # a refutation attempt from fewer facts: only a proof counts
        if not timed: sat += 1; best = reason
        elif best is None: best = reason
        if sat >= 3:        # before giving up: every term relevant, then model-based instantiation
            if budget < 0 or not last: break
            todo = [last.pop(0)]; 
    return ('failed' if sat else 'timeout', 'z3', time.time() - t0, best or '')

def _worker(k, idxs, obls, budget, axioms, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try: i = idxs.recv()
        except EOFError: break
        if i is None: break
        i, bud = i
        try: r = solve_one(obls[i], bud, axioms)
        except Exception as e: r = ('timeout', 'z3', 0.0, 'exception %s' % e)
        conn.send((i, r))
    conn.close()
    os._exit(0)

def solve_all(obls, axioms, budget=20, nproc=8, deadline=None, hurry=None):
    """hurry(obls) -> True ends the search early (a failing input is known, what is left would add no verdict)"""
    todo = [i for i, o in enumerate(obls) if o.status is None]
    if not todo: return
    nproc = min(nproc, len(todo))
    ctx = multiprocessing.get_context('fork')
    procs = []
    it = iter(todo)
    from multiprocessing.connection import wait
    conns = {}
    for k in range(nproc):
        a1, b1 = ctx.Pipe(); a2, b2 = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(k, b1, obls, budget, axioms, b2), daemon=True)
        p.start(); b1.close(); b2.close()
        procs.append([p, a1, a2, None, None])
        conns[a2] = procs[-1]
    bad = [0]       # after a few failures the verdict is known: the rest gets a short attempt
    def feed(pr):
        try: i = next(it)
        except StopIteration:
            pr[3] = None
            try: pr[1].send(None)
            except Exception: pass
            return False
        pr[3] = i; pr[4] = time.time()
        pr[1].send((i, budget if bad[0] < 3 or budget < 0 else min(budget, float(os.environ.get("CCV_MINB", "6"))))); return True
    live = [pr for pr in procs if feed(pr)]
    limit = abs(budget) * 5 + 60
    while live:
        rs = wait([pr[2] for pr in live], timeout=1)
        now = time.time()
        for c in rs:
            pr = conns[c]
            try: i, r = c.recv()
            except EOFError:
                obls[pr[3]].status = 'timeout'; obls[pr[3]].detail = 'solver process died'
                live.remove(pr); continue
            o = obls[i]; o.status, o.solver, o.time, o.detail = r
            bad[0] += o.status != 'discharged'
            if not feed(pr): live.remove(pr)
        for pr in list(live):
            if pr[3] is not None and now - pr[4] > limit:
                pr[0].kill(); o = obls[pr[3]]; o.status = 'timeout'; o.detail = 'hard limit'; live.remove(pr)
        if (deadline and now > deadline) or (hurry and hurry(obls)):
            break
    for pr in procs:
        try: pr[0].kill()
        except Exception: pass
    for i in todo:
        if obls[i].status is None: obls[i].status = 'timeout'; obls[i].detail = 'not attempted'

def solve_vac(vac, axioms, tmo=1.0, nproc=8, deadline=None):
    """False must not be provable from a precondition, nor on every exit of a function"""
    obls = []
    for (fn, what, fs) in vac:
        for f in fs:
            o = Obl(what, fn, None, f, FALSE, 'vac'); o.grp = (fn, what); obls.append(o)
    solve_all(obls, axioms, budget=-tmo, nproc=nproc, deadline=deadline)
    bad = []
    grp = {}
    for o in obls: grp.setdefault(o.grp, []).append(o.status == 'discharged')
    for g, l in grp.items():
        if all(l): bad.append(g)
    return bad, len(grp)
