"""Definite initialisation: every scalar member by every constructor, every scalar local before use."""
from ..flow import *
from ..prog import short

LEVEL = 'other'
EXPLAIN = ('Definite-assignment dataflow over the control-flow graph of every constructor (member initialisers, in-class '
           'initialisers, body assignments, helper methods called on this) and of every function (scalar locals): a member left '
           'unassigned on some path to the end of a constructor, or a local read on a path on which nothing assigned it, is a violation.')

def scalar(P, t):
    x = P.T(t)
    return x['k'] in ('int', 'float', 'bool', 'enum', 'ptr')

def this_field(n):
    """field id when n is this->f (or this->f[...])"""
    while n is not None and n.k == 'ArraySubscriptExpr': n = n.c[0]
    if n is not None and n.k == 'MemberExpr' and n.m and n.c and n.c[0] is not None and n.c[0].k == 'CXXThisExpr': return n.m
    return None

class Assigned(Forward):
    """state: frozenset of fields certainly assigned through this"""
    def __init__(self, P): self.P = P; self.memo = {}; self.stack = []
    def join(self, a, b): return a & b
    def summary(self, fn):
        if fn.id in self.memo: return self.memo[fn.id]
        if fn.id in self.stack: return frozenset()
        self.stack.append(fn.id)
        st = frozenset()
        if fn.isctor:
            st = st | self.ici(fn)
        n, t, _ = Assigned.run(self, fn, st)
        self.stack.pop()
        r = n if n is not None else None     # None: never returns normally
        self.memo[fn.id] = r
        return r
    def ici(self, fn): return frozenset()
    def transfer(self, fn, el, st):
        P = self.P
        if isinstance(el, tuple):
            if el[0] == 'i':
                d, e = fn.inits[el[1]]
                if 'm' in d: return st | {d['m']}
                if d.get('deleg'):
                    f = e.f if e is not None else None
                    if f in P.funcs:
                        s = self.summary(P.funcs[f]); return st | s if s is not None else st
            return st
        if el.k in ('BinaryOperator', 'CompoundAssignOperator') and el.op == '=':
            m = this_field(el.c[0])
            if m: return st | {m}
        elif el.k == 'UnaryOperator' and el.op == '&':
            m = this_field(el.c[0])
            if m: return st | {m}
        elif el.k in CALLS or el.k in CTORS:
            d = P.decls.get(el.f) if el.f else None
            if d:
                args = call_args(el)
                for a, t in zip(args, d['pt']):
                    m = this_field(a) if a is not None else None
                    if m and P.T(t)['k'] in ('ref', 'rref') and not P.is_const_ref(t): st = st | {m}
                if d['n'] == 'memset' and args and args[0] is not None and args[0].k == 'CXXThisExpr':
                    return st | {f['id'] for f in P.all_fields(fn.cls)}
                o = call_obj(el)
                if o is not None and o.k == 'CXXThisExpr' and el.f in P.funcs and not el.get('virt'):
                    s = self.summary(P.funcs[el.f])
                    if s is None: return None
                    st = st | s
                elif o is not None and o.k == 'CXXThisExpr' and el.get('virt') and el.f in P.funcs:
                    s = self.summary(P.funcs[el.f])
                    if s: st = st | s
                # a free/static helper given *this or this may fill the object: follow it only if it is given `this`
        return st

class LocalUse(Forward):
    """state: frozenset of scalar locals possibly unassigned"""
    def __init__(self, P, fn):
        self.P = P; self.fn = fn; self.viol = []
        self.lhs = {}
        self.loc = set()
        for n in fn.nodes():
            if n.k == 'VarDecl' and n.v is not None and not n.c and 'rng' not in n.x and scalar(P, n.t): self.loc.add(n.v)
    def join(self, a, b): return a | b
    def writes(self, n):
        """is this DeclRef written/addressed rather than read?"""
        p = n.p
        if p is None: return False
        if p.k == 'BinaryOperator' and p.op == '=' and p.c[0] is n: return True
        if p.k == 'UnaryOperator' and p.op == '&': return True
        if p.k == 'LambdaExpr': return True
        if p.k == 'VarDecl' and self.P.T(p.t)['k'] in ('ref', 'rref'): return True
        if p.k == 'UnaryExprOrTypeTraitExpr': return True
        if p.k in CALLS or p.k in CTORS:
            d = self.P.decls.get(p.f) if p.f else None
            if d:
                args = call_args(p)
                if d['n'] in ('make_pair', 'make_tuple', 'emplace', 'emplace_back', 'forward', 'move', 'swap') and p.f not in self.P.funcs: return False
                for a, t in zip(args, d['pt']):
                    if a is n: return self.P.T(t)['k'] in ('ref', 'rref') and not self.P.is_const_ref(t)
                if d.get('va') : return False
        return False
    def transfer(self, fn, el, st):
        if isinstance(el, tuple): return st
        if el.k == 'VarDecl':
            if el.v in self.loc: return st | {el.v}
        elif el.k == 'DeclRefExpr':
            if el.v in self.loc and self.writes(el) and not (el.p.k == 'BinaryOperator'): return st - {el.v}
        elif el.k == 'BinaryOperator' and el.op == '=':
            l = el.c[0]
            if l.k == 'DeclRefExpr' and l.v in self.loc: return st - {l.v}
        return st
    def edge(self, fn, B, taken, cond, st):
        # `if(stream >> x)`: handled through the reference argument
        return st

class ObjFields(Forward):
    """state: members of one default-initialised object that may still be indeterminate"""
    def __init__(self, P, v, origin, fields): self.P = P; self.v = v; self.origin = origin; self.fields = frozenset(fields)
    def join(self, a, b): return a | b
    def isobj(self, n):
        if n is None: return False
        if n.k == 'UnaryOperator' and n.op == '*': n = n.c[0]
        if isinstance(self.v, tuple): return this_field(n) == self.v[1]
        return n.k == 'DeclRefExpr' and n.v == self.v
    def transfer(self, fn, el, st):
        if isinstance(el, tuple): return st
        if el is self.origin: return self.fields
        if el.k == 'BinaryOperator' and el.op == '=' and el.c[0].k == 'MemberExpr' and self.isobj(el.c[0].c[0]): return st - {el.c[0].m}
        if el.k == 'MemberExpr' and el.m in self.fields and self.isobj(el.c[0]) and el.p is not None:
            p = el.p
            if p.k == 'UnaryOperator' and p.op == '&': return st - {el.m}
            if p.k in CALLS or p.k in CTORS:
                d = self.P.decls.get(p.f) if p.f else None
                for a, t in zip(call_args(p), d['pt'] if d else ()):
                    if a is el and self.P.T(t)['k'] == 'ref' and not self.P.is_const_ref(t): return st - {el.m}
        if self.isobj(el) and el.p is not None and (el.p.k in CALLS or el.p.k in CTORS):
            d = self.P.decls.get(el.p.f) if el.p.f else None
            for a, t in zip(call_args(el.p), d['pt'] if d else ()):
                if a is el and not self.P.is_const_ref(t) and self.P.T(t)['k'] in ('ref', 'ptr'): return frozenset()
        if el.k == 'BinaryOperator' and el.op == '=' and self.isobj(el.c[0]) and el.c[1] is not self.origin and el.c[1].k != 'CXXNewExpr': return frozenset()
        if el.k == 'CXXOperatorCallExpr' and el.op == '=' and self.isobj(el.c[0]): return frozenset()
        return st
    def reads(self, el, st):
        if isinstance(el, tuple) or not st: return None
        if el.k == 'MemberExpr' and el.m in st and self.isobj(el.c[0]) and el.p is not None:
            p = el.p
            if p.k == 'BinaryOperator' and p.op == '=' and p.c[0] is el: return None
            if self.transfer(None, el, st) != st: return None
            return {el.m}
        if self.isobj(el) and el.p is not None:
            p = el.p
            if p.k == 'UnaryOperator' and p.op in ('&', '*'): p = p.p
            if p.k == 'ReturnStmt': return set(st)
            if p.k in CTORS and p.p is not None and p.p.k == 'ReturnStmt': return set(st)
            if p.k in CALLS:
                d = self.P.decls.get(p.f) if p.f else None
                if d and d['n'] in ('push_back', 'insert', 'make_pair'): return set(st)
        return None

def run(P, R, tier):
    R.rule('each constructor assigns every int/float/bool/enum/pointer member on every path to its end')
    R.rule('an object of a class without its own constructor is value-initialised, or its scalar members are assigned before they are read')
    R.rule('each scalar local is assigned on every path before it is read')
    A = Assigned(P)
    bare = {}
    for rec in sorted(P.repo_classes(), key=lambda r: r['R']):
        if rec.get('lambda'): continue
        fs = [f for f in rec['fields'] if (scalar(P, f['t']) or (P.T(f['t'])['k'] == 'arr' and scalar(P, P.T(f['t']).get('p', -1))))]
        if not fs: continue
        ctors = [P.decls[m['id']] for m in rec['methods'] if P.decls[m['id']].get('ctor')]
        user = [d for d in ctors if not d.get('impl') and not d.get('dflt') and not d.get('del')]
        R.count('classes_with_scalar_members'); R.count('scalar_members', len(fs))
        for d in user:
            fn = P.funcs.get(d['D'])
            if fn is None: continue
            R.count('constructors')
            s = A.summary(fn)
            if s is None: continue
            for f in fs:
                R.count('obligations')
                if f.get('ici') and not f['id'] in s: continue
                if f['id'] not in s:
                    R.violation(f'{d["D"]}|{f["n"]}', f'constructor {short(d["D"])} can finish without giving {rec["n"]}::{f["n"]} a value', fn.loc())
        if not [d for d in user if not d.get('copyctor') and not d.get('movector')]:
            b = [f for f in fs if not f.get('ici')]
            if b: bare[rec['R']] = b
    # objects of classes whose default construction leaves members indeterminate
    for fn in P.funcs.values():
        for n in fn.nodes():
            if n.k not in CTORS or not n.f or n.get('zi') or n.get('li'): continue
            d = P.decls[n.f]
            if d.get('cls') not in bare or not d.get('defctor'): continue
            R.count('default_initialised_objects')
            p = n.p
            if p is not None and p.k == 'CXXNewExpr': p = p.p
            while p is not None and p.k in CASTS: p = p.p
            v = None
            if p is not None and p.k == 'VarDecl' and p.v is not None: v = p.v
            elif p is not None and p.k == 'BinaryOperator' and p.op == '=' and p.c[0].k == 'DeclRefExpr': v = p.c[0].v
            fl = {f['id'] for f in bare[d['cls']]}
            names = {f['id']: f['n'] for f in bare[d['cls']]}
            if v is None:
                if p is not None and p.k == 'BinaryOperator' and this_field(p.c[0]):
                    v = ('m', this_field(p.c[0]))
                else:
                    R.violation(f'{fn.id}|new {d["cls"]}', f'{short(fn.q)} makes a {short(d["cls"])} whose members {sorted(names.values())} have no value', fn.loc(n)); continue
            O = ObjFields(P, v, n, fl)
            bad = {}
            def visit(f, B, el, st, O=O, bad=bad):
                r = O.reads(el, st)
                if r: bad.setdefault('x', (el, r))
            O.run(fn, frozenset(), visit)
            if bad:
                el, r = bad['x']
                R.violation(f'{fn.id}|object {d["cls"]}', f'{short(fn.q)} lets members {sorted(names[x] for x in r)} of a {short(d["cls"])} be used without a value', fn.loc(el))
    for fn in P.funcs.values():
        L = LocalUse(P, fn)
        if not L.loc: continue
        R.count('functions_with_uninitialised_scalar_locals'); R.count('locals', len(L.loc))
        seen = set()
        def visit(f, B, el, st):
            if isinstance(el, Node) and el.k == 'DeclRefExpr' and el.v in st and el.v not in seen and not L.writes(el):
                p = el.p
                seen.add(el.v)
                R.violation(f'{f.id}|local {f.varname(el.v)}', f'{short(f.q)} can read local "{f.varname(el.v)}" before anything assigned it', f.loc(el))
        L.run(fn, frozenset(), visit)
