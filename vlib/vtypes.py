"""Which concrete classes a pointer, reference or container of pointers may lead to (flow-insensitive, whole program).

Cells: ('f', field), ('v', function, variable), ('r', function), ('g', global).  An element of a container and what a
pointer points to share the cell of the variable that holds them.  TOP: anything of the static type."""
from .flow import *
from .prog import SMART
TOP = '*'
STORE = {'reset', 'push_back', 'insert', 'assign', 'push', 'push_front', 'emplace_back', 'swap', 'operator='}

class VTypes:
    def __init__(self, P):
        self.P = P; self.base = {}; self.flow = {}
        self.poly = {rid for rid, r in P.recs.items() if r.get('repo') and (P.subs.get(rid) or r['bases'])}
        for f in P.funcs.values(): self.scan(f)
        self.solve()
        self.cache = {}
    def cellof(self, fn, n):
        """cell of an lvalue-ish expression, or None"""
        P = self.P
        while n is not None:
            if n.k == 'DeclRefExpr':
                if n.g is not None: return ('g', n.g)
                return ('v', fn.id, n.v) if n.v is not None else None
            if n.k == 'MemberExpr': return ('f', n.m) if n.m else (('g', n.g) if n.g else None)
            if n.k in ('ArraySubscriptExpr',) or n.k in CASTS: n = n.c[0]; continue
            if n.k == 'UnaryOperator' and n.op in ('*', '&'): n = n.c[0]; continue
            if n.k == 'CXXOperatorCallExpr' and n.op in ('*', '[]', '->') and n.f not in P.funcs: n = n.c[0]; continue
            if n.k == 'CXXMemberCallExpr' and n.f and not P.targets(n) and P.decls[n.f]['n'] in ('get', 'back', 'front', 'at', 'begin', 'end', 'rbegin', 'top'): n = n.c[0]; continue
            return None
        return None
    def src(self, fn, n):
        """list of cells/classes an expression's value may come from"""
        P = self.P
        if n is None: return []
        k = n.k
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr', 'IntegerLiteral', 'StringLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr'): return []
        if k == 'CXXNewExpr':
            r = P.T(P.pointee(n.t)).get('r')
            return [('c', r)] if r else []
        if k == 'ConditionalOperator': return self.src(fn, n.c[1]) + self.src(fn, n.c[2])
        if k in CASTS: return self.src(fn, n.c[0]) if n.c else []
        if k == 'CXXThisExpr': return [('t', fn.cls)]
        if k in CTORS:
            if (P.tname(n.t) in SMART or not P.rec_of(n.t) in self.poly):
                out = []
                for a in n.c: out += self.src(fn, a) if a is not None else []
                return out
            return [('c', P.rec_of(n.t))]
        if k in CALLS:
            c = self.cellof(fn, n)
            if c is not None: return [c]
            if n.f in P.funcs or (n.f and P.targets(n)):
                return [('r', t.id) for t in P.targets(n)]
            out = []
            for a in n.c:
                if a is not None and self.carries(a.t): out += self.src(fn, a)
            return out or [TOP]
        c = self.cellof(fn, n)
        if c is not None: return [c]
        if k in ('BinaryOperator',): return self.src(fn, n.c[0]) + self.src(fn, n.c[1])
        if k == 'UnaryOperator': return self.src(fn, n.c[0])
        if k == 'InitListExpr': return [x for a in n.c if a is not None for x in self.src(fn, a)]
        return []
    def carries(self, t):
        P = self.P; x = P.T(P.strip_ref(t))
        if x['k'] in ('ptr', 'arr'): return self.carries(x['p'])
        if x['k'] == 'rec':
            if x.get('r') in self.poly: return True
            return any(self.carries(a) for a in (x.get('ta') or ())[:2])
        return False
    def put(self, dst, srcs):
        if dst is None: return
        for s in srcs:
            if s == TOP: self.base.setdefault(dst, set()).add(TOP)
            elif s[0] == 'c': self.base.setdefault(dst, set()).add(s[1])
            elif s[0] == 't': self.base.setdefault(dst, set()).add(('t', s[1]))
            elif s != dst: self.flow.setdefault(s, set()).add(dst)
    def scan(self, fn):
        P = self.P
        for ini, e in fn.inits:
            f = ini.get('m') or ini.get('f')
            if f and e is not None and self.carries(P.fields[f][1]['t'] if f in P.fields else e.t): self.put(('f', f), self.src(fn, e))
        for n in fn.nodes():
            k = n.k
            if k == 'VarDecl' and n.v is not None and self.carries(n.t):
                if 'rng' in n.x:
                    r = fn.node(n.x['rng']); self.put(('v', fn.id, n.v), self.src(fn, r) if r is not None else [TOP])
                elif n.c and n.c[0] is not None:
                    self.put(('v', fn.id, n.v), self.src(fn, n.c[0]))
                    if P.T(n.t)['k'] == 'ref':           # alias: what is stored through it reaches the original
                        c = self.cellof(fn, n.c[0])
                        if c: self.flow.setdefault(('v', fn.id, n.v), set()).add(c)
                elif P.rec_of(n.t) in self.poly: self.put(('v', fn.id, n.v), [('c', P.rec_of(n.t))])
            elif k == 'BinaryOperator' and n.op == '=' and self.carries(n.c[0].t): self.put(self.cellof(fn, n.c[0]), self.src(fn, n.c[1]))
            elif k == 'ReturnStmt' and n.c and n.c[0] is not None and self.carries(fn.decl.get('rt', -1)): self.put(('r', fn.id), self.src(fn, n.c[0]))
            elif k in CALLS and n.f:
                ts = P.targets(n)
                if ts:
                    args = call_args(n)
                    for t in ts:
                        for a, p in zip(args, t.params):
                            if a is not None and self.carries(p['t']):
                                self.put(('v', t.id, p['v']), self.src(fn, a))
                                if P.T(p['t'])['k'] == 'ref' and not P.is_const_ref(p['t']):
                                    c = self.cellof(fn, a)
                                    if c: self.flow.setdefault(('v', t.id, p['v']), set()).add(c)
                else:
                    nm = P.decls[n.f]['n']; o = call_obj(n) or (n.c[0] if n.k == 'CXXOperatorCallExpr' and n.op == '=' else None)
                    if o is not None and nm in STORE and self.carries(o.t):
                        args = call_args(n) if call_obj(n) is not None else n.c[1:]
                        for a in args:
                            if a is None or not self.carries(a.t): continue
                            self.put(self.cellof(fn, o), self.src(fn, a))
                            if nm == 'swap': self.put(self.cellof(fn, a), self.src(fn, o))
                    elif nm == 'swap' and len(n.c) == 2 and self.carries(n.c[0].t):
                        a, b = n.c; self.put(self.cellof(fn, a), self.src(fn, b)); self.put(self.cellof(fn, b), self.src(fn, a))
            elif k in CTORS and n.f in P.funcs:
                t = P.funcs[n.f]
                for a, p in zip(n.c, t.params):
                    if a is not None and self.carries(p['t']): self.put(('v', t.id, p['v']), self.src(fn, a))
        # parameters of functions nothing in the program calls (entry points) may be anything
    def solve(self):
        self.val = {k: set(v) for k, v in self.base.items()}
        work = list(self.val)
        while work:
            c = work.pop()
            for d in self.flow.get(c, ()):
                v = self.val.setdefault(d, set()); n0 = len(v); v |= self.val[c]
                if len(v) != n0: work.append(d)
    def classes(self, fn, n):
        """set of concrete classes an object expression may be, or None for unknown"""
        P = self.P; out = set()
        for s in self.src(fn, n):
            if s == TOP: return None
            if s[0] == 'c': out.add(s[1]); continue
            if s[0] == 't': return None
            v = self.val.get(s)
            if not v or TOP in v: return None
            for x in v:
                if isinstance(x, tuple): out |= P.subclasses(x[1])
                else: out.add(x)
        return out or None

def install(P):
    """make P.targets use the inferred classes"""
    if getattr(P, 'vt', None): return P.vt
    V = VTypes(P); P.vt = V
    base = P.targets; memo = {}
    def targets(n):
        if not n.get('virt'): return base(n)
        k = (n.fn.id, n.i)
        if k in memo: return memo[k]
        r = base(n); o = n.c[0] if n.c else None
        if o is not None and len(r) > 1:
            cs = V.classes(n.fn, o)
            if cs:
                ok = {P.resolve_virtual(c, n.f) for c in cs if c in P.recs}
                r2 = [t for t in r if t.id in ok]
                if r2: r = r2
        memo[k] = r
        return r
    P.targets = targets
    return V
