"""The typed program: functions with syntax trees and control-flow graphs, classes, call graph."""
import re
from . import facts

class Node:
    __slots__ = ('i', 'k', 'l', 't', 'c', 'p', 'fn', 'x')
    def __init__(self, d, p, fn):
        self.i = d['i']; self.k = d['k']; self.l = d['l']; self.t = d.get('t', -1)
        self.p = p; self.fn = fn; self.x = d
        self.c = ()
    def get(self, key, dflt=None): return self.x.get(key, dflt)
    def __repr__(self): return f'<{self.k}#{self.i} l{self.l} {self.x.get("n") or self.x.get("m") or self.x.get("f") or self.x.get("op") or self.x.get("val") or ""}>'
    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            for c in reversed(n.c):
                if c is not None: st.append(c)
    def ancestors(self):
        p = self.p
        while p is not None:
            yield p
            p = p.p
    @property
    def op(self): return self.x.get('op')
    @property
    def f(self): return self.x.get('f')
    @property
    def m(self): return self.x.get('m')
    @property
    def v(self): return self.x.get('v')
    @property
    def g(self): return self.x.get('g')
    @property
    def val(self): return self.x.get('val')

CALLS = ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr')
CTORS = ('CXXConstructExpr', 'CXXTemporaryObjectExpr')
CASTS = ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXDynamicCastExpr', 'CXXFunctionalCastExpr')

class Block:
    __slots__ = ('id', 'els', 'succ', 'pred', 'term', 'tnode', 'cond', 'lop', 'case', 'catch', 'throws', 'nr')

class Func:
    def __init__(self, prog, d):
        self.prog = prog; self.d = d; self.id = d['F']
        self.decl = prog.raw.decls.get(self.id, {})
        self.name = self.decl.get('n', self.id); self.q = self.decl.get('q', self.id); self.cls = self.decl.get('cls')
        self.file = d['file']; self.line = d['line']; self.endline = d['endline']
        self.params = d['params']; self.isctor = bool(self.decl.get('ctor')); self.isdtor = bool(self.decl.get('dtor'))
        self._body = None; self._cfg = None; self.byid = {}; self._inits = None
        self.islambda = '@lambda:' in self.id
    def __repr__(self): return self.q
    def loc(self, node=None):
        f = self.file.replace(facts.REPO + '/', '')
        return f'{f}:{node.l if node is not None else self.line}'
    def _mk(self, d):
        root = Node(d, None, self)
        st = [(root, d)]
        while st:
            n, dd = st.pop()
            self.byid[n.i] = n
            cs = dd.get('c')
            if cs:
                l = []
                for c in cs:
                    if c is None: l.append(None); continue
                    m = Node(c, n, self); l.append(m); st.append((m, c))
                n.c = l
        return root
    def _load(self):
        if self._body is None:
            self._inits = [(i, self._mk(i['e'])) for i in self.d.get('inits', ())]
            self._body = self._mk(self.d['body'])
    @property
    def body(self): self._load(); return self._body
    @property
    def inits(self): self._load(); return self._inits
    def nodes(self):
        self._load()
        for _, e in self._inits: yield from e.walk()
        yield from self._body.walk()
    def node(self, i): self._load(); return self.byid.get(i)
    @property
    def pvars(self): return [p['v'] for p in self.params]
    def vartype(self, v):
        if not hasattr(self, '_vt'):
            self._vt = {p['v']: p['t'] for p in self.params}; self._vn = {p['v']: p['n'] for p in self.params}; self._vd = {}
            for n in self.nodes():
                if n.k == 'VarDecl' and n.v is not None: self._vt[n.v] = n.t; self._vn[n.v] = n.x['n']; self._vd[n.v] = n
                elif n.k == 'CXXCatchStmt' and 'cv' in n.x: self._vt[n.x['cv']] = n.x['ct']
        return self._vt.get(v, -1)
    def varname(self, v): self.vartype(v); return self._vn.get(v, '?')
    def vardecl(self, v): self.vartype(v); return self._vd.get(v)
    @property
    def cfg(self):
        if self._cfg is None:
            self._load(); self._cfg = {}
            for b in self.d.get('cfg', ()):
                B = Block(); B.id = b['b']; B.els = []
                for e in b['e']:
                    if isinstance(e, int):
                        n = self.byid.get(e)
                        if n is not None: B.els.append(n)
                    else: B.els.append((e[0], e[1]))
                B.succ = [s for s in b['s']]
                B.term = b.get('t'); B.tnode = self.byid.get(b.get('ti', -1)); B.cond = self.byid.get(b.get('cond', -1)); B.lop = b.get('lop')
                B.case = b.get('case'); B.catch = b.get('catch'); B.pred = []; B.nr = b.get('nr')
                B.throws = any(isinstance(n, Node) and n.k == 'CXXThrowExpr' for n in B.els) or bool(B.nr)
                self._cfg[B.id] = B
            for B in self._cfg.values():
                for s in B.succ:
                    if s in self._cfg: self._cfg[s].pred.append(B.id)
        return self._cfg
    @property
    def entry(self): return self.d.get('entry')
    @property
    def exit(self): return self.d.get('exit')

class Program:
    def __init__(self, raw=None):
        self.raw = raw or facts.load_raw()
        r = self.raw
        self.types = r.types; self.recs = r.recs; self.decls = r.decls; self.globals = r.globals; self.enums = r.enums
        self.funcs = {i: Func(self, d) for i, d in r.funcs.items()}
        self.subs = {}                       # class -> direct subclasses
        for rid, rec in self.recs.items():
            for b in rec['bases']: self.subs.setdefault(b, set()).add(rid)
        self.overriders = {}                 # method id -> set of methods that override it (transitive)
        direct = {}
        self.method_of = {}
        for rid, rec in self.recs.items():
            for m in rec['methods']:
                self.method_of[m['id']] = rid
                for o in m['ov']: direct.setdefault(o, set()).add(m['id'])
        def trans(m, seen):
            for o in direct.get(m, ()):
                if o not in seen: seen.add(o); trans(o, seen)
            return seen
        for m in direct: self.overriders[m] = trans(m, set())
        self.fields = {}
        for rid, rec in self.recs.items():
            for f in rec['fields']: self.fields[f['id']] = (rid, f)
        self.byname = {}
        for f in self.funcs.values(): self.byname.setdefault(f.q, []).append(f)
    # ---- types
    def T(self, t): return self.types.get(t) or {'k': 'other', 's': '?'}
    def ts(self, t): return self.T(t)['s']
    def strip_ref(self, t):
        x = self.T(t)
        while x['k'] in ('ref', 'rref'):
            t = x['p']; x = self.T(t)
        return t
    def is_ptr(self, t): return self.T(self.strip_ref(t))['k'] == 'ptr'
    def pointee(self, t):
        x = self.T(self.strip_ref(t))
        return x.get('p', -1) if x['k'] in ('ptr', 'arr') else -1
    def rec_of(self, t):
        """class named by a type, looking through references (not pointers)"""
        return self.T(self.strip_ref(t)).get('r')
    def tname(self, t):
        x = self.T(self.strip_ref(t)); return x.get('tn') or x.get('r') or ''
    def rec_of_ptr(self, t):
        """class reached by a pointer, smart pointer or reference type"""
        x = self.T(self.strip_ref(t))
        if x['k'] == 'ptr': return self.T(x['p']).get('r')
        if x.get('tn') in SMART and x.get('ta'): return self.T(x['ta'][0]).get('r')
        return x.get('r')
    def is_const_ref(self, t):
        x = self.T(t)
        return x['k'] in ('ref', 'rref') and bool(self.T(x['p']).get('const'))
    def is_scalar(self, t): return self.T(t)['k'] in ('int', 'float', 'bool', 'enum', 'ptr', 'memptr')
    # ---- classes
    def subclasses(self, c):
        out = {c}; st = [c]
        while st:
            x = st.pop()
            for s in self.subs.get(x, ()):
                if s not in out: out.add(s); st.append(s)
        return out
    def bases(self, c):
        out = []; st = [c]
        while st:
            x = st.pop()
            for b in self.recs.get(x, {}).get('bases', ()):
                if b not in out: out.append(b); st.append(b)
        return out
    def derives(self, c, b): return c == b or b in self.bases(c)
    def all_fields(self, c):
        r = list(self.recs.get(c, {}).get('fields', ()))
        for b in self.bases(c): r += self.recs.get(b, {}).get('fields', ())
        return r
    def methods(self, c, name=None):
        return [self.decls[m['id']] for m in self.recs.get(c, {}).get('methods', ()) if m['id'] in self.decls and (name is None or self.decls[m['id']]['n'] == name)]
    def find_method(self, c, name):
        """definitions of the method called `name` as seen from class c"""
        for k in [c] + self.bases(c):
            r = [self.funcs[d['D']] for d in self.methods(k, name) if d['D'] in self.funcs]
            if r: return r
        return []
    def by_name(self, q): return self.byname.get(q, [])
    # ---- calls
    def targets(self, n):
        """repo functions a call node may run"""
        f = n.f
        if f is None: return []
        out = []
        if n.get('virt'):
            cands = {f} | self.overriders.get(f, set())
            if f.startswith('~') or n.get('dcall'): pass
            # restrict by the static class of the object when it is known
            base = n.c[0] if n.c else None
            rc = self.rec_of_ptr(base.t) if base is not None else None
            if rc and rc in self.recs:
                subs = self.subclasses(rc) | {rc}
                ok = set()
                for s in subs:
                    m = self.resolve_virtual(s, f)
                    if m: ok.add(m)
                cands = ok or cands
            for c in sorted(cands):
                if c in self.funcs: out.append(self.funcs[c])
        elif f in self.funcs: out.append(self.funcs[f])
        return out
    def resolve_virtual(self, cls, f):
        cands = {f} | self.overriders.get(f, set())
        for k in [cls] + self.bases(cls):
            for m in self.recs.get(k, {}).get('methods', ()):
                if m['id'] in cands: return m['id']
        return None
    def repo_classes(self): return [r for r in self.recs.values() if r.get('repo')]

SMART = ('boost::shared_ptr', 'boost::scoped_ptr', 'std::shared_ptr', 'std::unique_ptr', 'std::auto_ptr')

_P = None
def program():
    global _P
    if _P is None: _P = Program()
    return _P

def short(q): return re.sub(r'\btravatar::', '', q)
