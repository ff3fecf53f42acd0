"""C++ types as the verifier sees them, and the leaf layout of each type.

Every object is flattened into scalar leaves ("structure of arrays"): a vector contributes a
length leaf and one more array dimension to the leaves of its element type.
"""
import re

class Ty:
    k = '?'
    def __repr__(self): return self.k

class TInt(Ty):
    def __init__(self, w, signed): self.w, self.signed, self.k = w, signed, 'int'
    def __repr__(self): return ('i' if self.signed else 'u') + str(self.w)
    @property
    def lo(self): return -(1 << (self.w - 1)) if self.signed else 0
    @property
    def hi(self): return (1 << (self.w - 1)) if self.signed else (1 << self.w)   # exclusive
class TBool(Ty): k = 'bool'
class TReal(Ty): k = 'real'
class TVoid(Ty): k = 'void'
class TOpaque(Ty):
    k = 'opaque'
    def __init__(self, s): self.s = s
    def __repr__(self): return 'opaque(%s)' % self.s
class TStruct(Ty):
    k = 'struct'
    def __init__(self, rec): self.rec = rec
    def __repr__(self): return self.rec.qname
class TVec(Ty):
    k = 'vec'
    def __init__(self, e): self.e = e
    def __repr__(self): return 'vec<%r>' % self.e
class TSet(Ty):
    k = 'set'
    def __init__(self, e): self.e = e
    def __repr__(self): return 'set<%r>' % self.e
class TPair(Ty):
    k = 'pair'
    def __init__(self, a, b): self.a, self.b = a, b
    def __repr__(self): return 'pair<%r,%r>' % (self.a, self.b)
class TPtr(Ty):
    k = 'ptr'
    def __init__(self, to): self.to = to
    def __repr__(self): return '%r*' % self.to
class TRef(Ty):
    k = 'ref'
    def __init__(self, to): self.to = to
    def __repr__(self): return '%r&' % self.to
class TIter(Ty):
    k = 'iter'
    def __init__(self, e): self.e = e
    def __repr__(self): return 'iter<%r>' % self.e
class TFn(Ty): k = 'fn'

BASIC = {
    'bool': TBool(), 'void': TVoid(),
    'char': TInt(8, True), 'signed char': TInt(8, True), 'unsigned char': TInt(8, False),
    'short': TInt(16, True), 'unsigned short': TInt(16, False),
    'int': TInt(32, True), 'unsigned int': TInt(32, False), 'unsigned': TInt(32, False),
    'long': TInt(64, True), 'unsigned long': TInt(64, False),
    'long long': TInt(64, True), 'unsigned long long': TInt(64, False),
    'size_t': TInt(64, False), 'std::size_t': TInt(64, False), 'ptrdiff_t': TInt(64, True),
    'uint64_t': TInt(64, False), 'std::uint64_t': TInt(64, False), 'uint32_t': TInt(32, False),
    'std::uint8_t': TInt(8, False), 'uint8_t': TInt(8, False), 'std::nullptr_t': TPtr(TVoid()),
    'double': TReal(), 'float': TReal(),
}

def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out

class Types:
    def __init__(self, U):
        self.U = U
        self.cache = {}

    def of(self, tn):
        """tn: a clang 'type' object"""
        if 'desugaredQualType' in tn:
            d = tn['desugaredQualType']
            t = self.parse(d)
            if t.k != 'opaque':
                return t
        return self.parse(tn.get('qualType', 'void'))

    def parse(self, s):
        s0 = s
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s0] = t
        return t

    def _parse(self, s):
        s = s.strip()
        s = re.sub(r'\b(const|volatile|typename|struct|class|enum)\b', ' ', s)
        s = re.sub(r'\s+', ' ', s).strip()
        s = re.sub(r'\s*([&*])\s*', r' \1', s).strip()
        if s.endswith('&'):
            s2 = s[:-1].strip()
            if s2.endswith('&'): s2 = s2[:-1].strip()
            return TRef(self.parse(s2))
        if re.search(r'\(\s*\*?\s*\)\s*\(|^\S.*\(.*\)$', s) and '<' not in s.split('(')[0]:
            return TFn()
        if s.endswith('*'):
            return TPtr(self.parse(s[:-1].strip()))
        if s in BASIC:
            return BASIC[s]
        if s.startswith('(lambda') or '(lambda' in s:
            return TFn()
        m = re.match(r'^([\w:]+)\s*<(.*)>$', s)
        if m and m.group(1).split('::')[-1] in ('vector', 'set', 'pair', '__normal_iterator', 'initializer_list', 'optional', 'function', 'unordered_set', 'deque'):
            base = m.group(1).split('::')[-1]
            a = split_targs(m.group(2))
            if base == 'vector': return TVec(self.parse(a[0]))
            if base == 'set': return TSet(self.parse(a[0]))
            if base == 'pair': return TPair(self.parse(a[0]), self.parse(a[1]))
            if base == '__normal_iterator':
                p = self.parse(a[0])
                return TIter(p.to if p.k == 'ptr' else p)
            return TOpaque(s)
        m = re.match(r'^(.*)::(const_iterator|iterator)$', s)
        if m:
            b = self.parse(m.group(1))
            if b.k == 'vec': return TIter(b.e)
        if s.startswith('std::basic_string') or s in ('std::string', 'string'):
            return TOpaque('string')
        r = self.rec(s)
        if r is not None:
            return TStruct(r)
        # typedefs
        for q, t in self.U.typedefs.items():
            if q == s or q.endswith('::' + s):
                tt = self.of(t)
                if tt.k != 'opaque':
                    return tt
        if s.endswith('status') or s.endswith('Tval'):
            return TInt(8 if s.endswith('Tval') else 32, False)
        return TOpaque(s)

    def rec(self, s):
        U = self.U
        if s in U.recq: return U.recq[s]
        m = re.match(r'^([\w:]+)\s*<(.*)>$', s)
        if m:
            base = m.group(1).split('::')[-1]
            args = [self.parse(a) for a in split_targs(m.group(2))]
            for q, r in U.recq.items():
                mm = re.match(r'^([\w:]+)\s*<(.*)>$', q)
                if mm and mm.group(1).split('::')[-1] == base:
                    a2 = [self.parse(a) for a in split_targs(mm.group(2))]
                    if repr(a2) == repr(args):
                        return r
            return None
        c = [r for q, r in U.recq.items() if q.endswith('::' + s) and '<' not in q]
        if len(c) == 1:
            return c[0]
        if len(c) > 1:
            return c[0]
        return None
