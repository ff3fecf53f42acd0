"""Mechanical extraction: clang's JSON AST of /repo's current sources -> Python trees.

What the extraction drops: every declaration located outside the repository (system headers),
comments, and access specifiers.  Nothing inside a repository function is rewritten.
"""
import json, os, re, subprocess, sys, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++'

class ExtractError(Exception):
    pass

def _run_clang(src, flags):
    cmd = [CLANG, '-std=c++20', '-fsyntax-only', '-Wno-everything', '-Xclang', '-ast-dump=json'] + flags + [src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractError('clang rejected %s: %s' % (src, p.stderr.decode(errors='replace')[:2000]))
    return p.stdout, cmd

_file_re = re.compile(rb'"file": "([^"\n]*)"')

def _chunks(out):
    """top-level declarations of the translation unit, as byte ranges"""
    start = out.find(b'\n  "inner": [')
    pos = out.find(b'\n    {', start)
    while pos != -1:
        end = out.find(b'\n    }', pos)
        if end == -1:
            break
        yield pos + 1, end + 6
        pos = out.find(b'\n    {', end)

def load_tu(src, flags, keep_prefixes):
    out, cmd = _run_clang(src, flags)
    decls = []
    cur = b''
    for (a, b) in _chunks(out):
        head = out[a:min(b, a + 3000)]
        # location of this declaration
        li = head.find(b'"loc": {')
        ri = head.find(b'\n      "range"', li)
        loc = head[li:ri] if li != -1 and ri != -1 else b''
        # ignore includedFrom files
        loc2 = re.sub(rb'"includedFrom": \{\s*"file": "[^"]*"\s*\}', b'', loc)
        ms = _file_re.findall(loc2)
        f = ms[-1] if ms else cur
        if any(f.startswith(k) for k in keep_prefixes):
            decls.append((f.decode(), a, b))
        # last file printed inside this chunk
        j = b
        while True:
            j = out.rfind(b'"file": "', a, j)
            if j == -1:
                break
            k = out.rfind(b'"includedFrom": {', max(a, j - 600), j)
            if k != -1 and out[k + 17:j].strip() == b'':
                continue
            e = out.find(b'"', j + 9)
            cur = out[j + 9:e]
            break
    res = []
    for f, a, b in decls:
        d = json.loads(out[a:b])
        d['_file'] = f
        res.append(d)
    return res, cmd

class Fn:
    __slots__ = ('qname', 'name', 'node', 'body', 'params', 'cls', 'is_static', 'is_const', 'kind', 'ret', 'file', 'inits', 'id', 'line', 'ftype', 'prev', 'is_virtual')
    def __repr__(self):
        return '<Fn %s>' % self.qname

class Rec:
    __slots__ = ('qname', 'name', 'fields', 'bases', 'node', 'id', 'methods', 'dtor')
    def __repr__(self):
        return '<Rec %s>' % self.qname

class Unit:
    def __init__(self):
        self.fns = {}        # id -> Fn (canonical: definition if there is one)
        self.byq = {}        # qname -> [Fn]
        self.recs = {}       # id -> Rec
        self.recq = {}       # qname -> Rec
        self.decl = {}       # id -> node (vars, enum constants, fields)
        self.canon = {}      # decl id -> definition id
        self.typedefs = {}
        self.enums = {}      # enum const id -> value
        self.globals = {}
        self.files = set()
        self.cmds = []

    def fn(self, qname):
        l = [f for f in self.byq.get(qname, []) if f.body is not None]
        if not l:
            raise ExtractError('function %s has no body in the current sources' % qname)
        return l[0]

FUNK = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

def _line(n):
    for k in ('loc',):
        l = n.get(k) or {}
        for kk in (l, l.get('expansionLoc') or {}, l.get('spellingLoc') or {}):
            if 'line' in kk:
                return kk['line']
    return None

def build(units_decls):
    U = Unit()
    def walk(n, scope, cls, file):
        k = n.get('kind')
        if k in ('NamespaceDecl',):
            nm = n.get('name', '')
            for c in n.get('inner', []):
                walk(c, scope + ([nm] if nm else []), None, file)
        elif k == 'LinkageSpecDecl':
            for c in n.get('inner', []):
                walk(c, scope, cls, file)
        elif k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl':
                    walk(c, scope, cls, file)
        elif k == 'FunctionTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') in FUNK:
                    ta = [x for x in c.get('inner', []) if x.get('kind') == 'TemplateArgument']
                    if ta:
                        walk(c, scope, cls, file)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if not n.get('completeDefinition'):
                U.decl[n['id']] = n
                return
            name = n.get('name', '')
            if not name:
                name = '(anon@%s)' % n['id']
            q = '::'.join(scope + [name])
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for c in n.get('inner', []):
                    if c.get('kind') == 'TemplateArgument':
                        args.append((c.get('type') or {}).get('qualType', str(c.get('value', '?'))))
                q += '<' + ', '.join(args) + '>'
            r = Rec(); r.qname = q; r.name = name; r.node = n; r.id = n['id']; r.fields = []; r.methods = []
            r.bases = [b['type'] for b in n.get('bases', [])]
            r.dtor = None
            U.recs[n['id']] = r; U.recq[q] = r
            if 'previousDecl' in n:
                U.canon[n['previousDecl']] = n['id']
            for c in n.get('inner', []):
                if c.get('kind') == 'FieldDecl':
                    r.fields.append(c); U.decl[c['id']] = c
                    c['_rec'] = r
                else:
                    walk(c, scope + [q[len('::'.join(scope)) + (2 if scope else 0):]], r, file)
        elif k in FUNK:
            f = Fn()
            f.node = n; f.id = n['id']; f.name = n.get('name', ''); f.file = file
            f.cls = cls; f.kind = k
            f.is_static = n.get('storageClass') == 'static'
            t = n.get('type', {}).get('qualType', '')
            f.ftype = t
            f.is_const = bool(re.search(r'\)\s*const', t))
            f.ret = n.get('type', {})
            f.params = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            f.inits = [c for c in n.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
            b = [c for c in n.get('inner', []) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')]
            f.body = b[0] if b else None
            f.line = _line(n)
            f.prev = n.get('previousDecl')
            par = n.get('parentDeclContextId')
            f.is_virtual = n.get('virtual', False)
            q = None
            if f.prev and f.prev in U.fns:
                p = U.fns[f.prev]
                q = p.qname
                if f.cls is None and p.cls is not None:
                    f.cls = p.cls
                f.is_static = f.is_static or p.is_static if p.cls is not None else f.is_static
                f.is_const = f.is_const or p.is_const
            elif par and par in U.recs:
                f.cls = U.recs[par]
                q = U.recs[par].qname + '::' + f.name
            if q is None:
                if cls is not None:
                    q = cls.qname + '::' + f.name
                else:
                    q = '::'.join(scope + [f.name])
            f.qname = q
            U.fns[f.id] = f
            if f.prev:
                # chain to the definition
                if f.body is not None:
                    for i in _chain(U, f.id):
                        U.canon[i] = f.id
                else:
                    U.canon.setdefault(f.id, U.canon.get(f.prev, f.prev))
            U.byq.setdefault(q, []).append(f)
            if cls is not None:
                cls.methods.append(f)
                if k == 'CXXDestructorDecl':
                    cls.dtor = f
            for pnode in f.params:
                U.decl[pnode['id']] = pnode
        elif k == 'VarDecl':
            U.decl[n['id']] = n
            U.globals[n['id']] = n
            n['_q'] = '::'.join(scope + [n.get('name', '')])
        elif k == 'EnumDecl':
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    v2 = _const_of(c)
                    v = v2 if v2 is not None else v + 1
                    U.enums[c['id']] = v
                    U.decl[c['id']] = c
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            U.typedefs['::'.join(scope + [n.get('name', '')])] = n.get('type', {})
    for decls in units_decls:
        for d in decls:
            U.files.add(d['_file'])
            walk(d, [], None, d['_file'])
    return U

def _chain(U, i):
    out = []
    while i in U.fns:
        out.append(i)
        i = U.fns[i].prev
        if not i:
            break
    return out

def _const_of(c):
    for x in c.get('inner', []):
        if 'value' in x:
            try:
                return int(x['value'])
            except Exception:
                return None
        r = _const_of(x)
        if r is not None:
            return r
    return None

def load(sources, include_stubs=False, extra=()):
    flags = ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src')]
    if include_stubs:
        flags += ['-I', os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'stubs')]
    flags += list(extra)
    all_decls, cmds = [], []
    for s in sources:
        pre = []
        if isinstance(s, tuple):        # several sources as one translation unit: the others are included in front of the last one
            for x in s[:-1]: pre += ['-include', x if os.path.isabs(x) else os.path.join(REPO, x)]
            s = s[-1]
        p = s if os.path.isabs(s) else os.path.join(REPO, s)
        d, c = load_tu(p, flags + pre, [REPO.encode() + b'/', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas').encode() + b'/'])
        all_decls.append(d); cmds.append(' '.join(c))
    U = build(all_decls)
    U.cmds = cmds
    return U

if __name__ == '__main__':
    import time
    t = time.time()
    U = load(sys.argv[1:], include_stubs=True)
    print(time.time() - t)
    for q, l in U.byq.items():
        print(q, [(f.id, f.body is not None, f.cls, f.kind, f.ftype) for f in l])
    for r in U.recq.values():
        print(r, [(f['name'], f['type']['qualType']) for f in r.fields], r.bases)
