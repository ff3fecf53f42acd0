"""Spec-side reading of program state: annotations read fields by their source names."""
import z3
from . import core
from .types import *

def mkview(eng, st, p):
    ty = p.ty
    if ty.k in ('int', 'bool', 'real'): return eng.get_leaf(st, p.root, p.sfx, ty, p.idx)
    if ty.k == 'iter':
        return eng.load(st, p)
    if ty.k == 'ptr':
        if (p.root, p.sfx) in st.cont and not p.idx: return eng.load(st, p)
        if eng.is_arrayptr(ty):
            ref = eng.get_leaf(st, p.root, p.sfx + '.ref', core.GhostTy(core.IS), p.idx)
            off = eng.get_leaf(st, p.root, p.sfx + '.off', core.GhostTy(core.IS), p.idx)
            return ArrPtr(eng, st, ty.to, ref, off)
        return eng.get_leaf(st, p.root, p.sfx, core.GhostTy(core.IS), p.idx)
    if ty.k == 'set': return eng.get_leaf(st, p.root, p.sfx, core.GhostTy(z3.ArraySort(core.IS, core.BS)), p.idx)
    if ty.k in ('struct', 'vec', 'pair'):
        if ty.k == 'struct':
            cb = eng.container_ty(ty)
            if cb.k in ('vec', 'set'): return mkview(eng, st, core.Path(p.root, p.sfx, p.idx, cb))
            l = eng.leaves(ty)
            if len(l) == 1 and l[0][2] == 0 and not isinstance(l[0][1], core.GhostTy) and ty.rec.qname not in eng.heapcls and not ty.rec.bases:
                return eng.get_leaf(st, p.root, p.sfx + l[0][0], l[0][1], p.idx)
        return View(eng, st, p)
    raise core.Unsupported('view of %r' % ty)

class ArrPtr:
    def __init__(s, eng, st, ety, ref, off): s.eng, s.st, s.ety, s.ref, s.off = eng, st, ety, ref, off
    def __getitem__(s, i):
        return mkview(s.eng, s.st, s.eng.arr_elem(s.eng.heap_array(s.ety, s.ref), i))

class View:
    def __init__(s, eng, st, p):
        s.__dict__['eng'], s.__dict__['st'], s.__dict__['p'] = eng, st, p
    def __getattr__(s, name):
        eng, st, p = s.eng, s.st, s.p
        ty = p.ty
        if ty.k == 'vec':
            if name == 'len': return eng.cont_len(st, p)
            if name == 'arr':
                l = eng.leaves(ty.e)
                if len(l) != 1: raise core.Unsupported('.arr of %r' % ty)
                base = p.sfx + '[]' if not (p.root.startswith('@[]') and p.sfx == '') else p.sfx
                return eng.get_leaf(st, p.root, base + l[0][0], l[0][1], p.idx)
            if name.startswith('arr_'):
                base = p.sfx + '[]'
                for s2, t, d in eng.leaves(ty.e):
                    if s2 == '.' + name[4:] : return eng.get_leaf(st, p.root, base + s2, t, p.idx)
        if ty.k == 'pair':
            return mkview(eng, st, p.field(name, ty.a if name == 'first' else ty.b))
        if ty.k == 'struct':
            f, ft = find_field(eng, ty.rec, name)
            return mkview(eng, st, p.field(f, ft))
        raise core.Unsupported('no member %s in %r' % (name, ty))
    def __getitem__(s, i):
        if isinstance(i, int): i = core.I(i)
        if s.p.ty.k != 'vec': raise core.Unsupported('indexing %r' % s.p.ty)
        return mkview(s.eng, s.st, s.eng.arr_elem(s.p, i))
    def ghost(s, name):
        so = s.eng.ghost_fields[s.p.ty.rec.qname][name]
        return s.eng.get_leaf(s.st, s.p.root, s.p.sfx + '.$' + name, core.GhostTy(so), s.p.idx)

def find_field(eng, rec, name):
    for f in rec.fields:
        if f['name'] == name: return name, eng.T.of(f['type'])
    for b in rec.bases:
        bt = eng.T.of(b)
        if bt.k == 'struct':
            try: return find_field(eng, bt.rec, name)
            except core.Unsupported: pass
    # renamed private field: the k-th field of the same type in the baseline
    base = (eng.baseline or {}).get('rec:' + rec.qname)
    if base and name in [b[0] for b in base]:
        k = [b[0] for b in base].index(name); tys = base[k][1]
        same = [b[0] for b in base if b[1] == tys]
        cur = [f for f in rec.fields if f['type'].get('qualType') == tys]
        if len(cur) == len(same):
            f = cur[same.index(name)]
            return f['name'], eng.T.of(f['type'])
    raise core.Unsupported('no field %s in %s' % (name, rec.qname))

def heapview(eng, st, cls, ref):
    rec = eng.U.recq[cls]
    return View(eng, st, core.Path('@' + cls, '', (ref,), TStruct(rec)))
